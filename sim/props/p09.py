"""P09: DNS queries obey the configured policy.

One daemon over simulated hours of mail, outages, clock changes, reloads and restarts; every DNS
packet that leaves it is judged against a model of the configured policy, and a rule of our own
tells whether DNS is used again as soon as it may be."""
from .. import gen
from .. import harness as H
from ..core import Violation, iso

QUICK_RUNS = 420
THOROUGH_RUNS = 16000
RULE = ("one run = one DNS configuration (servers, restrictions, availability testing and its interval, blocklist "
        "switches, own settings of a user), 4-14 messages over up to a day of simulated time, outages, clock jumps, "
        "reloads; non-trivial when the availability changed, or a restriction stopped a query another one allowed")
REAL = ["oad.py main, oa.server, protocol, parser, ruleset", "oa.dns_interface, context (DNS set-up)",
        "oa.plugins.dns_eval, dkim, spf, spam_cop", "dnspython stub resolver"]
STUB = ["sockets, clock, DNS servers (zone data, outages)", "SMTP relay", "file system root"]
ASSUMPTIONS = ["the names of the availability test itself are not subject to the restrictions",
               "queries that pyspf makes on its own are judged separately (known finding)"]
PROBES = ["test passed", "test failed", "resumed", "switched off", "denied", "allowed below denied",
          "allowed above denied", "blocklists off", "other server", "other port", "port named later",
          "server with another port dropped", "clock jump", "reload", "user",
          "tell", "network rules off"]
ZONES = ["bl.example", "multi.example", "dbl.example", "canary.example", "accred.example", "sub.bl.example"]
IPS = ["203.0.113.9", "203.0.113.77", "198.51.100.25"]
DOMAINS = ["spammy.example", "signer.example", "gmail.com", "nowhere.example", "example.com", "Example.COM",
           "BAD.nowhere.example"]
TESTNAMES = ["up1.test.example", "up2.test.example", "up3.test.example", "up4.test.example"]
PLUGINS = ["oa.plugins.dns_eval.DNSEval", "oa.plugins.dkim.DKIMPlugin", "oa.plugins.spam_cop.SpamCopPlugin"]
RULES = ["header N_BL eval:check_rbl('bl', 'bl.example')", "header N_SUB eval:check_rbl('sub', 'sub.bl.example')",
         "header N_MUL eval:check_rbl_txt('mul', 'multi.example')", "header N_SND eval:check_dns_sender()",
         "header N_ENV eval:check_rbl_envfrom('env', 'dbl.example')",
         "header N_FD eval:check_rbl_from_domain('fd', 'DBL.Example')", "full N_DK eval:check_dkim_valid()",
         "header N_M2 eval:check_rbl_sub('bl', '2')",
         "header N_ACC eval:check_rbl_accreditor('acc', 'accred.example', '127.0.0.10', 'habeas')"]


OWNERS = [(".multi.example", ["N_MUL"]), (".sub.bl.example", ["N_SUB"]), (".dbl.example", ["N_ENV", "N_FD"]),
          ("._domainkey.", ["N_DK"]), (".accred.example", ["N_ACC"])]


def restrictions(sim, n):
    out = []
    for dummy in range(n):
        name = sim.pick("restrict", ZONES + ["example", "com", "203.bl.example", "113.0.203.bl.example", "Spammy.Example",
                                             "9.113.0.203.canary.example", "_domainkey.signer.example", "net",
                                             "signer.example", "MULTI.example", "ample", "l.example",
                                             "spammy.example.dbl.example"])
        act = sim.wpick("act", [("deny", 60), ("allow", 40)])
        out.append((act, name))
    return out


def denied(table, name):
    """-> (denied?, did a more distant parent disagree?)"""
    labels = name.lower().split(".")
    hits = [table[".".join(labels[k:])] for k in range(len(labels)) if ".".join(labels[k:]) in table]
    return (hits[0] if hits else False), len(set(hits)) > 1


class Policy(object):
    """The policy of one ruleset, and what is known of its availability tests."""

    def __init__(self, conf, lines):
        self.conf = dict(conf)
        self.table = {}
        for act, name in lines:
            self.table[name.lower()] = act == "deny"
        self.forget()

    def forget(self):
        self.up = self.conf["available"] == "yes"
        self.last = None          # time of the last packet of the last test


def life(sim, files, prefs, script, outages, args):
    w = H.new_world(sim)
    gen.internet(w)
    for n in TESTNAMES + gen_default_names():
        w.dns.add(n, "A", "192.0.2.99")
    for ip in IPS:
        w.dns.add(gen.rev(ip) + ".canary.example", "A", "127.0.0.2")
    H.put_config(w, files)
    for u in prefs:
        H.put_user(w, u, prefs[u])
    modes = []

    def mode(name, qtype, server, nth):
        m = "ok"
        for lo, hi, how, only in outages:
            if lo <= sim.now - t0 < hi and (only is None or only == server):
                m = how
        modes.append(m)
        return m

    w.dns.mode = mode
    t0 = sim.now
    d = H.Daemon(w, args).start()
    out = []
    for op in script:
        if op[0] == "wait":
            sim.warp(op[1] - 1)
            sim.advance(1)
        elif op[0] == "jump":
            sim.skew += op[1]
        elif op[0] == "reload":
            d.reload()
            d.settle()
        elif op[0] == "msg":
            n = len(w.dns.log)
            start = sim.now
            raw = d.ask(op[1])
            out.append((op, raw, start, [e + (m,) for e, m in zip(w.dns.log[n:], modes[n:])]))
            continue
        out.append((op,))
    H.finish(sim)
    return out, t0


def gen_default_names():
    import oa.dns_interface
    return list(oa.dns_interface.DNSInterface.test_qnames)


def run(sim):
    conf = {"available": sim.wpick("available", [("yes", 30), ("no", 8), ("test", 22), ("test:", 40)]),
            "interval": 600, "skip": False, "servers": ["192.0.2.53"], "port": 53, "net": True}
    lines = ["loadplugin " + p for p in PLUGINS] + ["trusted_networks 10.0.0.0/8", "allow_user_rules 1",
                                                    "spamcop_to_address x@spamcop.example", "report T=_TESTS_"]
    spf = sim.chance("spf", 25)
    if spf:
        lines += ["loadplugin oa.plugins.spf.SpfPlugin", "header N_SPF eval:check_for_spf_pass()"]
    names = gen_default_names()
    if conf["available"] == "test:":
        names = TESTNAMES[:sim.int("ntest", 1, 4)]
        lines.append("dns_available test:" + sim.pick("sp", ["", " "]) + " ".join(names))
    elif conf["available"] != "yes" or sim.chance("explicit", 30):
        lines.append("dns_available " + conf["available"])
    if sim.chance("interval", 70):
        text, conf["interval"] = sim.pick("ival", [("60", 60), ("90s", 90), ("10m", 600), ("2h", 7200), ("1d", 86400)])
        lines.append("dns_test_interval " + text)
    if sim.chance("servers", 40):
        conf["servers"] = list(sim.pick("srv", [["192.0.2.54"], ["192.0.2.54", "192.0.2.55"], ["2001:db8::53"],
                                               ["192.0.2.55", "192.0.2.54", "2001:db8::53"]]))
        # all of them are asked on the one port that any of them names; another one is not used
        given = [sim.wpick("port", [(None, 50), (5353, 35), (5454, 15)]) for dummy in conf["servers"]]
        named = [g for g in given if g]
        conf["port"] = named[0] if named else 53
        for s, g in zip(list(conf["servers"]), given):
            lines.append("dns_server " + (s if g is None else "%s:%d" % ("[%s]" % s if ":" in s else s, g)))
            if g not in (None, conf["port"]):
                conf["servers"].remove(s)
                sim.probe("server with another port dropped")
            elif g is None and named and s is conf["servers"][0]:
                sim.probe("port named later")
    if sim.chance("skip", 12):
        conf["skip"] = True
        lines.append("skip_rbl_checks 1")
    if sim.chance("nonet", 10):
        conf["net"] = False
        lines.append("use_network 0")
    table = []
    if sim.chance("restrict", 75):
        if sim.chance("cleared", 10):
            lines += ["dns_query_restriction deny canary.example", "clear_dns_query_restriction"]
        for act, name in restrictions(sim, sim.int("nres", 1, 5)):
            table.append((act, name))
            lines.append("dns_query_restriction%s%s%s%s" % (sim.pick("s1", [" ", "  "]), act, sim.pick("s2", [" ", " ", "\t"]), name))
            if sim.chance("junk", 10):
                lines.append("dns_query_restriction " + sim.pick("junkv", ["deny", "refuse canary.example", "canary.example"]))
    flags = {}
    body = []
    for r in RULES:
        if sim.chance("rule", 60):
            body.append(r + "\nscore %s 0.1" % r.split()[1])
            if sim.chance("tnet", 40):
                body.append("tflags %s net" % r.split()[1])
                flags[r.split()[1]] = True
    body.append("header CAN eval:check_rbl('can', 'canary.example')\nscore CAN 0.1")
    lines += sim.shuffled("body", body)
    conf["flags"] = flags
    ann, annlines, annconf = [], [], dict(conf)
    if sim.chance("ann", 60):
        for act, name in restrictions(sim, sim.int("ures", 0, 2)):
            ann.append((act, name))
            annlines.append("dns_query_restriction %s %s" % (act, name))
        if sim.chance("uoff", 20):
            annconf["available"] = "no"
            annlines.append("dns_available no")
        if sim.chance("uskip", 20) and not conf["skip"]:
            annconf["skip"] = True
            annlines.append("skip_rbl_checks 1")
    annlines.append("score CAN 0.2")
    site, user = Policy(conf, table), Policy(annconf, table + ann)
    outages = []
    t = 0
    for dummy in range(sim.int("noutages", 0, 3)):
        t += sim.pick("gap", [0, 30, 700, 4000])
        end = t + sim.pick("len", [50, 400, 3000, 30000])
        outages.append((t, end, sim.pick("how", ["timeout", "servfail", "nxdomain", "refused", "refused_conn", "garbage",
                                                 "yxdomain"]),
                        sim.pick("only", [None, None, conf["servers"][0]])))
        t = end
    script = []
    for k in range(sim.int("nmsg", 4, 14)):
        what = sim.wpick("between", [("wait", 55), (None, 25), ("jump", 10), ("reload", 10)])
        if what == "wait":
            script.append(("wait", sim.pick("waitv", [5, 45, 95, conf["interval"] - 1, conf["interval"] + 16,
                                                      conf["interval"] + 40, 3600])))
        elif what == "jump":
            script.append(("jump", sim.pick("jumpv", [-86400, -700, 700, 86400, -5, -4000000])))
        elif what == "reload":
            script.append(("reload",))
        ip = sim.pick("ip", IPS)
        dom = sim.pick("dom", DOMAINS)
        sender = "x@a--habeas.list.%s" % dom if sim.chance("habeas", 15) else "x@" + dom
        data = ("Received: from helo.%s (mail.%s [%s]) by mx.local.example (Postfix) with ESMTP id 1 "
                "(envelope-from <%s>); Tue, 14 Nov 2023 21:50:00 +0000\r\nFrom: <%s>\r\nTo: user@local.example\r\n"
                "Subject: hello %d\r\n\r\nsome text\r\n" % (dom, dom, ip, sender, sender, k)).encode()
        if sim.chance("sign", 25):
            data = gen.sign(data)
        u = "ann" if sim.chance("user", 25) else None
        cmd = sim.wpick("cmd", [("REPORT", 88), ("TELL", 12)])
        headers = ["Message-class: spam", "Set: local, remote"] if cmd == "TELL" else []
        script.append(("msg", H.make_request(cmd, data, u, headers=headers), u, cmd, ip))
    files = {"10.cf": "\n".join(lines) + "\n"}
    got, t0 = iso(sim, life, files, {"ann": "\n".join(annlines) + "\n"}, script, outages, [])
    changes = 0
    for k, rec in enumerate(got):
        op = rec[0]
        if op[0] != "msg":
            if op[0] == "reload":
                sim.probe("reload")
                site.forget()
                user.forget()
            if op[0] == "jump":
                sim.probe("clock jump")
            continue
        raw, start, log = rec[1:]
        pol = user if op[2] else site
        if op[2]:
            sim.probe("user")
        if op[3] == "TELL":
            sim.probe("tell")
        changes += judge(sim, pol, names, k, op, raw, start, log, "configuration:\n%s\nuser: %s\noutages (from %d): %s" % (
            "\n".join(x for x in lines if "dns" in x or "skip" in x), annlines, t0, outages))
    return {"nontrivial": changes > 0, "sample": {"dns": [x for x in lines if "dns" in x], "outages": outages,
                                                  "messages": len(script)}}


def judge(sim, pol, names, k, op, raw, start, log, context):
    c = pol.conf
    changes = 0
    who = "step %d (%s, user %s, relay %s, at %.2f)" % (k, op[3], op[2], op[4], start)

    def bad(kind, text):
        raise Violation(kind, "%s: %s\n%s\npackets: %s" % (who, text, context, [
            (round(e[0], 2),) + e[1:6] + (e[7],) for e in log]))

    r = H.Response(raw, op[3])
    if r.problem or r.code != 0:
        bad("no verdict", "answered %r (%s)" % (raw, r.problem))
    testing = c["available"].startswith("test")
    tests = []
    can = []
    for e in log:
        t, name, qtype, server, port, source, timeout, mode = e
        if name.endswith(".example.org"):       # the resolver's own search domain
            name = name[:-len(".example.org")]
            if mode == "ok":
                mode = "nxdomain"
        if source == "spf":
            bl, dummy = denied(pol.table, name)
            if bl or c["available"] == "no" or server not in c["servers"] or port != c["port"] or (
                    testing and not pol.up):
                sim.known.append("spf-own-resolver") if "spf-own-resolver" in sim.known_ids else bad(
                    "spf", "SPF asked %s for %s %s" % (server, name, qtype))
            continue
        if server not in c["servers"] or port != c["port"]:
            bad("server", "asked %s port %s" % (server, port))
        if c["servers"] != ["192.0.2.53"]:
            sim.probe("other server")
        if c["port"] != 53:
            sim.probe("other port")
        if c["available"] == "no":
            bad("switched off", "asked for %s although DNS is switched off" % name)
        if testing and name in names and qtype == "A":
            if not tests and pol.last is not None and t < pol.last + c["interval"] - 0.001:
                bad("test too early", "tested at %.2f, %.2f s after the last test" % (t, t - pol.last))
            if can:
                bad("test too late", "tested after other queries")
            tests.append(mode)
            pol.last = t
            if mode == "ok":
                if not pol.up:
                    sim.probe("resumed")
                    changes += 1
                pol.up = True
            continue
        if tests:
            if "ok" not in tests:
                if pol.up:
                    changes += 1
                pol.up = False
            sim.probe("test passed" if "ok" in tests else "test failed")
            tests = []
        if testing and not pol.up:
            bad("used while down", "asked for %s after the last test failed" % name)
        deny, both = denied(pol.table, name)
        if deny:
            bad("denied", "asked for %s, which the restrictions %s deny" % (name, pol.table))
        if both:
            sim.probe("allowed below denied")
            changes += 1
        if c["skip"] and any(name.endswith("." + z) for z in ZONES):
            bad("blocklists off", "asked for %s" % name)
        if not c["net"]:
            sim.probe("network rules off")
            for z, rules in OWNERS:
                if z in name and all(x in c["flags"] for x in rules):
                    bad("network off", "asked for %s although use_network is off and %s are network rules" % (name, rules))
        if name.endswith(".canary.example"):
            can.append(mode)
    if tests:
        if "ok" not in tests:
            if pol.up:
                changes += 1
            pol.up = False
        sim.probe("test passed" if "ok" in tests else "test failed")
    # liveness: our own rule asks whenever it may
    if op[3] != "REPORT":
        return changes
    name = gen.rev(op[4]) + ".canary.example"
    deny, both = denied(pol.table, name)
    if deny:
        sim.probe("denied")
        if both:
            changes += 1
            sim.probe("allowed above denied")
    found = "CAN" in r.body.decode("utf8", "replace").split("T=", 1)[1].split("\n")[0].strip().split(",")
    if c["skip"]:
        sim.probe("blocklists off")
    if c["available"] == "no":
        sim.probe("switched off")
    may = not deny and not c["skip"] and c["available"] != "no"
    if may and testing and (pol.last is None or (pol.last < start and start >= pol.last + c["interval"] + 15)):
        bad("no test", "the last availability test was at %s, and no new one is made" % pol.last)
    want = may and (pol.up or not testing)
    if want and not can:
        bad("not asked", "the blocklist canary.example is not asked (last test: %s, %s)" % (pol.last, pol.up))
    if found != (want and bool(can) and can[-1] == "ok"):
        bad("verdict", "the canary rule %s, its queries were answered %s" % ("matched" if found else "did not match", can))
    return changes


def setup():
    H.preload()
