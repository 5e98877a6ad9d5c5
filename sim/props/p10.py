"""P10: stuck external services cannot stall a message beyond the configured timeouts.

One daemon whose DNS servers, razor programs, Pyzor servers and mail relay answer, answer late or
never answer, under chosen limits.  Every look-up, sub-process and session is timed on the simulated
clock and held against the limit that applies; what is left behind after the answer is looked at;
and a service that does answer within its limit must be believed, so that no other limit is used."""
from .. import gen
from .. import harness as H
from ..core import Violation, iso

QUICK_RUNS = 420
THOROUGH_RUNS = 16000
RULE = ("one run = DNS, SPF, Razor and Pyzor time limits (site, one user's own, changed by a reload), 3-8 messages or "
        "reports, and for each of them every service's delay; non-trivial when a service was cut off by its limit "
        "while another, slow but within its limit, was believed")
REAL = ["oad.py main, oa.server, protocol, parser, ruleset", "oa.dns_interface, context (DNS set-up)",
        "oa.plugins.dns_eval, dkim, spf, razor2, pyzor, spam_cop", "dnspython stub resolver, pyspf, dkimpy"]
STUB = ["sockets, clock, threads' timers, DNS servers (zone data, delays)", "razor programs, SMTP relay, Pyzor client",
        "file system root"]
ASSUMPTIONS = ["DKIM key look-ups fall under the general DNS limits (dkim_timeout is documented nowhere)",
               "the SMTP relay has no configured limit: 30 s per session are accepted",
               "a DNS attempt that would be answered at exactly the limit may go either way"]
PROBES = ["dns cut off", "dns slow but used", "second server used", "razor killed", "razor slow but used",
          "spf cut off", "spf slow but used", "smtp hung", "report killed", "pyzor hung", "user", "reload", "all silent"]
DOMS = ["spammy.example", "signer.example", "gmail.com", "deep.example"]
IPS = ["203.0.113.9", "203.0.113.77"]
SERVERS = ["192.0.2.53", "192.0.2.54", "192.0.2.55"]
PZ = ["pz1.example:24441", "pz2.example:24442"]
LIMITS = {"default_dns_lifetime": [2.0, 4.5, 7.0, 1.0], "default_dns_timeout": [0.5, 1.0, 3.0],
          "razor_timeout": [1, 2, 8, 3], "spf_timeout": ["1", "3s", "8", "2"], "pyzor_timeout": [1.5, 6.0]}
DEFAULT = {"default_dns_lifetime": 10.0, "default_dns_timeout": 2.0, "razor_timeout": 5, "spf_timeout": "5",
           "pyzor_timeout": 3.5}
PLUGINS = ["oa.plugins.dns_eval.DNSEval", "oa.plugins.dkim.DKIMPlugin", "oa.plugins.spf.SpfPlugin",
           "oa.plugins.razor2.Razor2Plugin", "oa.plugins.pyzor.PyzorPlugin", "oa.plugins.spam_cop.SpamCopPlugin"]
RULES = ["header D_BL eval:check_rbl('bl', 'bl.example')", "header D_TXT eval:check_rbl_txt('mul', 'multi.example')",
         "header D_SND eval:check_dns_sender()", "full D_DK eval:check_dkim_valid()",
         "header D_SPF eval:check_for_spf_pass()", "full D_RZ eval:check_razor2()", "full D_PZ eval:check_pyzor()"]


def life(sim, files, files2, prefs, script):
    w = H.new_world(sim)
    gen.internet(w)
    # a sender policy that takes five look-ups
    for k in range(4):
        w.dns.add("d%d.deep.example" % k if k else "deep.example", "TXT",
                  '"v=spf1 include:d%d.deep.example -all"' % (k + 1))
    w.dns.add("d4.deep.example", "TXT", '"v=spf1 ip4:203.0.113.0/24 -all"')
    w.dns.add("deep.example", "MX", "10 mx.signer.example.")
    for ip in IPS:
        w.dns.add(gen.rev(ip) + ".bl.example", "A", "127.0.0.2")
        w.dns.add(gen.rev(ip) + ".multi.example", "TXT", '"listed"')
        w.dns.add(gen.rev(ip) + ".multi.example", "A", "127.0.0.2")
    H.put_config(w, files)
    for u in prefs:
        H.put_user(w, u, prefs[u])
    d = H.Daemon(w).start()
    idle = len([t for t in sim.tasks if not t.done])
    out = []
    for op in script:
        if op[0] == "reload":
            H.put_config(w, files2)
            d.reload()
            d.settle()
            continue
        dummy, req, plan = op
        w.dns.mode = lambda name, qtype, server, nth: "ok" if plan["dns"].get(server) is not None else "timeout"
        w.dns.latency = lambda name, qtype, server, nth: plan["dns"][server] or 0.0
        for prog in ("razor-check", "razor-report", "razor-revoke"):
            w.programs[prog] = lambda args: {"duration": plan["razor"], "returncode": 0,
                                             "stubborn": plan["stubborn"]}
        w.pyzor_plan = lambda server, op: plan["pyzor"].get(server, "timeout")
        w.smtp_plan = lambda step, session: "hang" if step == plan["smtp"] else "ok"
        n, m, c, p, s = len(w.lookups), len(w.dns.log), len(w.children), len(w.pyzor_log), len(w.smtp_sessions)
        t = sim.now
        raw = d.ask(req)
        took = sim.now - t
        sim.advance(0.02)
        kids = [(k.args[0], k._sim_killed, round((k._killed_at if k._sim_killed else k._end) - k._sim_started, 3)
                 if k._sim_killed or k._end is not None else None, k._sim_exited) for k in w.children[c:]]
        left = [x.name for x in sim.tasks if not x.done][idle:]
        out.append((raw, took, w.lookups[n:], w.dns.log[m:], kids, w.pyzor_log[p:], len(w.smtp_sessions) - s,
                    w.smtp_hung, left))
        sim.advance(1)
    H.finish(sim)
    return out


def limits(sim, percent):
    c = {}
    for name in sorted(LIMITS):
        if sim.chance("limit", percent):
            c[name] = sim.pick(name, LIMITS[name])
    return c


def seconds(v):
    return float(str(v).rstrip("s"))


def run(sim):
    servers = SERVERS[:sim.wpick("nservers", [(1, 30), (2, 45), (3, 25)])]
    lines = ["loadplugin " + p for p in PLUGINS]
    lines += ["dns_server " + s for s in servers]
    lines += ["trusted_networks 10.0.0.0/8", "allow_user_rules 1", "spamcop_to_address x@spamcop.example",
              "pyzor_servers " + ",".join(PZ), "ignore_received_spf_header 1", "report T=_TESTS_"]
    body = [r + "\nscore %s 0.1" % r.split()[1] for r in RULES if sim.chance("rule", 60)]
    used = {b.split()[1] for b in body}
    site = dict(DEFAULT)
    own = limits(sim, 60)
    site.update(own)
    later = dict(DEFAULT)
    own2 = limits(sim, 60)
    later.update(own2)
    ann = limits(sim, 35)

    def text(extra):
        return "\n".join(lines + ["%s %s" % kv for kv in sorted(extra.items())] + body) + "\n"

    prefs = {"ann": "\n".join(["%s %s" % kv for kv in sorted(ann.items())] + ["describe D_BL mine"]) + "\n"}
    script, facts = [], []
    conf = site
    n = sim.int("nmsg", 3, 8)
    reload_at = sim.int("reload at", 1, n - 1) if sim.chance("reload", 35) else -1
    for k in range(n):
        if k == reload_at:
            script.append(("reload",))
            sim.probe("reload")
            conf = later
        user = "ann" if sim.chance("user", 25) else None
        c = dict(conf)
        if user:
            sim.probe("user")
            c.update(ann)
        timeout, life_ = c["default_dns_timeout"], c["default_dns_lifetime"]
        fast = sim.chance("fast", 30)
        plan = {"dns": {}, "pyzor": {}}
        for s in SERVERS:
            plan["dns"][s] = 0.02 if fast else sim.pick("dns delay", [
                None, None, 0.05, timeout * 0.8, timeout * 0.8, timeout * 1.3, life_ * 0.5, 0.3, 0.9, 1.7])
        r = c["razor_timeout"]
        plan["razor"] = sim.pick("razor delay", [0.05, r * 0.8, r * 0.95, r * 1.2, None, None, r + 0.5])
        plan["stubborn"] = sim.chance("stubborn", 30)
        for s in PZ:
            plan["pyzor"][s] = sim.wpick("pyzor", [((50, 0), 40), ("timeout", 40), ((0, 0), 20)])
        plan["smtp"] = sim.wpick("smtp", [(None, 40), ("connect", 20), ("helo", 15), ("mail", 15), ("quit", 10)])
        cmd = sim.wpick("cmd", [("REPORT", 75), ("TELL", 25)])
        headers = []
        if cmd == "TELL":
            headers = sim.pick("tell", [["Message-class: spam", "Set: local, remote"], ["Message-class: ham", "Remove: remote"]])
        dom, ip = sim.pick("dom", DOMS), sim.pick("ip", IPS)
        data = ("Received: from mail.%s (mail.%s [%s]) by mx.local.example (Postfix) with ESMTP id 1 "
                "(envelope-from <x@%s>); Tue, 14 Nov 2023 21:50:00 +0000\r\nFrom: <x@%s>\r\nTo: user@local.example\r\n"
                "Subject: hello %d\r\n\r\nsome text\r\n" % (dom, dom, ip, dom, dom, k)).encode()
        signed = sim.chance("sign", 35)
        if signed:
            data = gen.sign(data)
        script.append(("ask", H.make_request(cmd, data, user, headers=headers), plan))
        facts.append((cmd, user, c, plan, dom, signed))
    got = iso(sim, life, {"10.cf": text(own)}, {"10.cf": text(own2)}, prefs, script)
    interesting = False
    for k, (rec, fact) in enumerate(zip(got, facts)):
        interesting |= bool(judge(sim, k, rec, fact, servers, used))
    return {"nontrivial": interesting, "sample": {"limits": own, "later": own2, "ann": ann, "servers": servers,
                                                  "delays": [f[3] for f in facts]}}


def judge(sim, k, rec, fact, servers, used):
    raw, took, lookups, packets, kids, pyzor, sessions, hung, left = rec
    cmd, user, c, plan, dom, signed = fact
    who = "request %d (%s, user %s, sender domain %s)" % (k, cmd, user, dom)
    context = "\nlimits: %s\ndelays: %s\nlook-ups: %s\nsub-processes: %s\ntook %.3f s" % (
        c, plan, [(e[2], e[3], round(e[1] - e[0], 3), e[4]) for e in lookups], kids, took)
    cut, slow = set(), set()

    def bad(kind, text):
        raise Violation(kind, "%s: %s%s" % (who, text, context))

    if hung:
        bad("mail relay", "waits for the mail relay for ever")
    r = H.Response(raw, cmd)
    if r.problem or r.code != 0:
        bad("no verdict", "answered %r (%s)" % (raw, r.problem))
    timeout, life_ = c["default_dns_timeout"], c["default_dns_lifetime"]
    accounted = 0.0
    spf = 0.0
    total = {}
    for t, end, source, name, ok, qtype in lookups:
        accounted += end - t
        if source == "spf":
            spf += end - t
            continue
        if end - t > life_ + 0.01:
            bad("dns lifetime", "the look-up of %s takes %.3f s, default_dns_lifetime is %s" % (name, end - t, life_))
        # asking once more does not come with another allowance
        total[name, qtype] = total.get((name, qtype), 0.0) + end - t
        if total[name, qtype] > life_ + 0.01:
            bad("dns lifetime", "the look-ups of %s %s take %.3f s, default_dns_lifetime is %s" % (
                name, qtype, total[name, qtype], life_))
        if end - t > life_ - 0.3:
            cut.add("dns")
            sim.probe("dns cut off")
    for t, name, qtype, server, port, source, given in packets:
        if source != "spf" and (given is None or given > timeout + 0.001):
            bad("dns timeout", "a server is given %s s for %s, default_dns_timeout is %s" % (given, name, timeout))
    limit = seconds(c["spf_timeout"])
    if spf > 2 * limit + 0.05:
        bad("spf", "SPF look-ups (HELO and sender) take %.3f s, spf_timeout is %s" % (spf, limit))
    for prog, killed, dur, gone in kids:
        if not gone:
            bad("sub-process left", "%s is still there after the answer" % prog)
        if dur is None or dur > c["razor_timeout"] + 0.05:
            bad("razor", "%s runs for %s s, razor_timeout is %s" % (prog, dur, c["razor_timeout"]))
        if killed and dur < c["razor_timeout"] - 0.05:
            bad("razor early", "%s is killed after %s s, razor_timeout is %s" % (prog, dur, c["razor_timeout"]))
        accounted += dur
        if killed:
            cut.add("razor")
            sim.probe("razor killed" if prog == "razor-check" else "report killed")
        elif dur > 0.5:
            slow.add("razor")
    if left:
        bad("timer left", "tasks %s are still there after the answer" % left)
    if pyzor:
        accounted += len(pyzor) * max(c["pyzor_timeout"], 0.1)
        for e in pyzor:
            if e[4] != c["pyzor_timeout"]:
                bad("pyzor", "Pyzor is asked with a limit of %s" % e[4])
            if plan["pyzor"].get(e[2]) == "timeout":
                cut.add("pyzor")
                sim.probe("pyzor hung")
    if sessions:
        accounted += 30 * sessions
        if plan["smtp"] and cmd == "TELL":
            sim.probe("smtp hung")
            cut.add("smtp")
    if took > accounted + 0.5:
        bad("slow", "the answer takes %.3f s, and only %.3f s are spent in services" % (took, accounted))
    if cmd != "REPORT":
        return cut and slow
    tests = r.body.decode("utf8", "replace").split("T=", 1)[1].split("\n")[0].strip().split(",")
    # what must, and what cannot, have been found out within the limits
    spent, found = 0.0, None
    for s in servers:
        d = plan["dns"][s]
        if d is not None and d < min(timeout, life_ - spent) - 0.01:
            found = True
            if d > 0.25:
                slow.add("dns")
                sim.probe("dns slow but used")
            if s != servers[0]:
                sim.probe("second server used")
            break
        spent += timeout
        if spent >= life_ - 0.01:
            break
    silent = all(plan["dns"][s] is None for s in servers)
    if silent:
        sim.probe("all silent")
    for name, applies in (("D_BL", True), ("D_TXT", True), ("D_DK", signed and dom == "signer.example")):
        if name not in used or not applies:
            continue
        if found and name not in tests:
            bad("dns answer lost", "%s does not match, though a server answers within the limits" % name)
        if silent and name in tests:
            bad("dns invented", "%s matches though no server answers" % name)
    if "D_SND" in used and found and "D_SND" in tests:
        bad("dns answer lost", "D_SND matches, though a server answers within the limits")
    if "D_RZ" in used:
        d, t = plan["razor"], c["razor_timeout"]
        want = d is not None and d < t
        if ("D_RZ" in tests) != want:
            bad("razor verdict", "D_RZ %s, razor takes %s s of %s s" % ("matches" if "D_RZ" in tests else "does not match", d, t))
        if want and d > 0.5:
            sim.probe("razor slow but used")
    if "D_SPF" in used:
        steps = {"deep.example": 5}.get(dom)
        d = plan["dns"]["192.0.2.53"]
        if d is None:
            cut.add("spf")
            sim.probe("spf cut off")
            if "D_SPF" in tests:
                bad("spf invented", "D_SPF matches though its server does not answer")
        elif steps and d < 1.9:
            if steps * d < limit - 0.1 and "D_SPF" not in tests:
                bad("spf answer lost", "D_SPF does not match, though %d look-ups of %s s fit in %s s" % (steps, d, limit))
            if steps * d > limit + 0.1:
                cut.add("spf")
                sim.probe("spf cut off")
                if "D_SPF" in tests:
                    bad("spf late", "D_SPF matches, though %d look-ups of %s s do not fit in %s s" % (steps, d, limit))
            elif steps * d > 0.5:
                slow.add("spf")
                sim.probe("spf slow but used")
    return bool(cut - {"pyzor"}) and bool(slow)


def setup():
    H.preload()
