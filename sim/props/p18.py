"""P18: one external lookup gives one answer within a message.

One daemon; every rule set asks Razor, DKIM and SPF several times, in a random order.  The services
answer, fail, or change their answer between one question and the next.  A model computed from the
plan says what the first answer was; every rule has to agree with it."""
from .. import gen
from .. import harness as H
from ..core import Violation, iso

QUICK_RUNS = 420
THOROUGH_RUNS = 16000
RULE = ("one run = a rule set with 1-3 copies of each Razor, DKIM and SPF rule at random priorities, and 3-6 "
        "messages, each with its own pattern of service answers, failures and changes of mind; non-trivial "
        "when a service changed its answer within a message")
REAL = ["oad.py main, oa.server, protocol, parser, ruleset", "oa.plugins.razor2, dkim, spf; oa.dns_interface",
        "dnspython stub resolver, pyspf, dkimpy"]
STUB = ["sockets, clock, DNS servers (zone data and failures)", "the razor-check program", "file system root"]
ASSUMPTIONS = ["the relay that handed the message over is the first Received header",
               "SPF records are read with pyspf, whose evaluation of a record is trusted"]
PROBES = ["dkim whitelisted", "spf whitelisted", "razor listed", "razor not listed", "razor failed", "razor changed", "dkim valid", "dkim key lost",
          "dkim key changed", "spf pass", "spf fail", "spf temperror", "spf changed", "razor off",
          "Received-SPF used"]
BODY = "SPFP pass SPFF fail SPFS softfail SPFU neutral SPFO none SPFE permerror SPFT temperror".split()
SPF_RULES = dict(zip(BODY[1::2], BODY[::2]))
SENDERS = ["alice@example.com", "eve@spammy.example", "s@soft.example", "n@neutral.example",
           "sales@signer.example", "nobody@nowhere.example", "x@broken.example"]
RELAYS = [("mx.example.com", "198.51.100.7"), ("mail.spammy.example", "203.0.113.9"),
          ("other.example", "203.0.113.200")]
FINAL = ["nxdomain", "empty", "yxdomain"]          # the resolver does not ask again
RETRY = ["timeout", "servfail", "refused", "formerr", "notimp"]


def spf_of(domain, ip):
    good = ip == "198.51.100.7"
    return {"example.com": "pass" if good else "fail", "spammy.example": "softfail", "soft.example": "softfail",
            "neutral.example": "neutral", "signer.example": "pass" if good else "neutral",
            "nowhere.example": "none", "broken.example": "permerror", "other.example": "none",
            "mx.example.com": "pass" if good else "fail", "mail.spammy.example": "fail"}[domain]


class Plan(object):
    """What one service does for one message: the first answer, and the later ones."""

    def __init__(self, sim, label, positive="ok"):
        self.first = sim.wpick(label, [(positive, 50)] + [(m, 5) for m in FINAL] + [(m, 4) for m in RETRY])
        self.later = self.first
        if self.first not in RETRY and sim.chance(label + " changes", 45):
            self.later = sim.pick(label + " later", [m for m in ["ok"] + FINAL if m != self.first])

    def mode(self, nth):
        return self.first if nth == 1 else self.later

    @property
    def changes(self):
        return self.first != self.later


def life(sim, files, prefs, script):
    w = H.new_world(sim)
    gen.internet(w)
    H.put_config(w, files)
    for u in prefs:
        H.put_user(w, u, prefs[u])
    d = H.Daemon(w).start()
    out = []
    for s in script:
        names = {"sel._domainkey.signer.example": s["dkim"], s["sender"].split("@")[1]: s["mfrom"],
                 s["relay"][0]: s["helo"]}
        seen = {}

        def mode(name, qtype, server, nth):
            if name not in names or qtype != "TXT":
                return "ok"
            seen[name] = seen.get(name, 0) + 1
            return names[name].mode(seen[name])

        runs = []

        def razor(args):
            runs.append(args)
            rc, dur = s["razor"][min(len(runs), 2) - 1]
            if rc == "missing":
                return {"error": FileNotFoundError(2, "No such file or directory")}
            return {"returncode": rc, "duration": dur}

        w.dns.mode = mode
        w.programs["razor-check"] = razor
        raw = d.ask(s["req"])
        out.append((raw, len(runs), dict(seen)))
        sim.advance(1)
    H.finish(sim)
    return out


def run(sim):
    lines = ["loadplugin oa.plugins.razor2.Razor2Plugin", "loadplugin oa.plugins.dkim.DKIMPlugin",
             "loadplugin oa.plugins.spf.SpfPlugin"]
    rules = {}

    def rule(base, kind, call, options=()):
        for k in range(sim.int("copies", 1, 3)):
            name = "%s_%d" % (base, k)
            rules.setdefault(base, []).append(name)
            text = ["%s %s eval:%s" % (kind if k else "full", name, call), "score %s 0.1" % name]
            if sim.chance("prio", 50):
                text.append("priority %s %d" % (name, sim.int("priov", -50, 50)))
            body.append("\n".join(text))

    body = []
    kind = sim.pick("kind", ["full", "header"])
    rule("RZ", kind, "check_razor2()")
    rule("DKV", kind, "check_dkim_valid()")
    if sim.chance("dka", 60):
        rule("DKA", kind, "check_dkim_valid_author_sig()")
    if sim.chance("dkv2", 60):
        rule("DKD", kind, "check_dkim_valid('signer.example')")
    if sim.chance("dks", 50):
        rule("DKS", kind, "check_dkim_signed()")
    if sim.chance("dkp", 40):
        rule("DKP", kind, "check_dkim_dependable()")
    if sim.chance("dkz", 40):
        rule("DKZ", kind, "check_dkim_adsp('*')")
    if sim.chance("dkw", 60):
        lines.append("whitelist_from_dkim *@signer.example")
        rule("DKW", "header", "check_for_dkim_whitelist_from()")
    if sim.chance("dkx", 40):
        lines.append("def_whitelist_from_dkim *@signer.example")
        rule("DKX", "header", "check_for_def_dkim_whitelist_from()")
    if sim.chance("spw", 50):
        lines.append("whitelist_from_spf *@example.com *@signer.example")
        rule("SPW", "header", "check_for_spf_whitelist_from()")
    if sim.chance("spx", 40):
        lines.append("def_whitelist_from_spf *@example.com *@signer.example")
        rule("SPX", "header", "check_for_def_spf_whitelist_from()")
    for res, base in sorted(SPF_RULES.items()):
        rule(base, "header", "check_for_spf_%s()" % res)
        if sim.chance("helorule", 60):
            rule("H" + base, "header", "check_for_spf_helo_%s()" % res)
    lines += sim.shuffled("rules", body)
    timeout = 5
    if sim.chance("rtimeout", 50):
        timeout = sim.pick("rt", [2, 9])
        lines.append("razor_timeout %d" % timeout)
    own = sim.chance("ignore", 60)
    if own:
        lines.append("ignore_received_spf_header 1")
    lines += ["report T=_TESTS_", "allow_user_rules 1", "trusted_networks 10.0.0.0/8"]
    prefs = {"bea": "use_razor2 0\n", "ann": "score RZ_0 3\n"}
    script = []
    for dummy in range(sim.int("nmsg", 3, 6)):
        s = {"sender": sim.pick("sender", SENDERS), "relay": sim.pick("relay", RELAYS)}
        s["signed"] = sim.wpick("signed", [("good", 55), (None, 20), ("tampered", 12), ("foreign", 13)])
        if s["signed"] == "foreign":
            s["sender"] = "alice@example.com"
        elif s["signed"]:
            s["sender"] = "sales@signer.example"
        for what in ("dkim", "mfrom", "helo"):
            s[what] = Plan(sim, what)
        vals = [(0, 0.05), (1, 0.05), (2, 0.05), (0, None), (0, timeout + 3), (1, timeout - 1), (0, timeout - 1),
                ("missing", 0)]
        s["razor"] = [sim.wpick("razor", list(zip(vals, [30, 25, 8, 6, 8, 8, 8, 7])))]
        s["razor"].append(sim.pick("razor later", vals) if sim.chance("razor changes", 60) else s["razor"][0])
        h = ["Received: from %s (%s [%s]) by mx.local.example (Postfix) with ESMTP id 1 "
             "(envelope-from <%s>); Mon, 10 Jul 2017 10:00:00 +0000" % (
                 s["relay"][0], s["relay"][0], s["relay"][1], s["sender"])]
        s["given"] = None
        if sim.chance("given", 25):
            s["given"] = sim.pick("givenv", ["pass", "fail", "softfail", "neutral", "none"])
            h.append("Received-SPF: %s (by an earlier hop) identity=mailfrom; client-ip=203.0.113.1" % s["given"])
        h += ["Return-Path: <%s>" % s["sender"], "From: <%s>" % s["sender"], "To: user@local.example",
              "Subject: hello %d" % dummy]
        data = ("\r\n".join(h) + "\r\n\r\nsome text\r\n").encode()
        if s["signed"]:
            data = gen.sign(data)
            if s["signed"] == "tampered":
                data += b"more\r\n"
        s["user"] = sim.wpick("user", [(None, 70), ("ann", 15), ("bea", 15)])
        s["cmd"] = sim.wpick("cmd", [("REPORT", 70), ("SYMBOLS", 30)])
        s["req"] = H.make_request(s["cmd"], data, s["user"])
        script.append(s)
    got = iso(sim, life, {"10.cf": "\n".join(lines) + "\n"}, prefs, script)
    changed = 0
    for k, ((raw, nrazor, asked), s) in enumerate(zip(got, script)):
        r = H.Response(raw, s["cmd"])
        what = "message %d (%s, from %s via %s, signature: %s, user %s; plans: razor %s, key %s, sender SPF %s, helo SPF %s)" % (
            k, s["cmd"], s["sender"], s["relay"], s["signed"], s["user"], s["razor"],
            *[(s[x].first, s[x].later) for x in ("dkim", "mfrom", "helo")])
        if r.problem or r.code != 0:
            raise Violation("no verdict", "%s is answered %r (%s)" % (what, raw, r.problem))
        if s["cmd"] == "SYMBOLS":
            tests = set(r.symbols)
        else:
            tests = set(r.body.decode("utf8", "replace").split("T=", 1)[1].split("\n")[0].strip().split(","))
        want = {}
        rc, dur = s["razor"][0]
        want["RZ"] = s["user"] != "bea" and rc == 0 and dur is not None and dur < timeout
        if s["user"] == "bea":
            sim.probe("razor off")
        elif s["razor"][0] != s["razor"][1]:
            sim.probe("razor changed")
            changed += 1
        sim.probe("razor listed" if want["RZ"] else "razor not listed" if rc == 1 else "razor failed")
        valid = s["signed"] == "good" and s["dkim"].first == "ok"
        want["DKV"] = want["DKA"] = want["DKD"] = want["DKW"] = want["DKX"] = valid
        want["DKS"] = s["signed"] in ("good", "tampered")
        if valid and "DKW" in rules:
            sim.probe("dkim whitelisted")
        if s["signed"]:
            sim.probe("dkim valid" if valid else "dkim key lost")
            if s["dkim"].changes:
                sim.probe("dkim key changed")
                changed += 1
        dom = s["sender"].split("@")[1]
        res = {}
        for who, domain in (("mfrom", dom), ("helo", s["relay"][0])):
            p = s[who].first
            res[who] = (spf_of(domain, s["relay"][1]) if p == "ok" else "temperror" if p in RETRY or p == "yxdomain" else "none")
            if s[who].changes:
                sim.probe("spf changed")
                changed += 1
        if s["given"] and not own:
            res["mfrom"] = s["given"]
            sim.probe("Received-SPF used")
        for v, base in SPF_RULES.items():
            want[base] = res["mfrom"] == v
            want["H" + base] = res["helo"] == v
            if want[base]:
                sim.probe("spf " + v)
        want["SPW"] = want["SPX"] = res["mfrom"] == "pass" and s["sender"].endswith(("@example.com", "@signer.example"))
        if want["SPW"] and "SPW" in rules:
            sim.probe("spf whitelisted")
        for base in sorted(rules):
            m = [n for n in rules[base] if n in tests]
            if m and len(m) != len(rules[base]):
                raise Violation("disagree", "%s: of the rules %s, asking the same question, only %s matched" % (
                    what, rules[base], m))
            if base in want and bool(m) != want[base]:
                if base == "DKA" and m and s["signed"] in ("good", "tampered") and "dkim-author-sig" in sim.known_ids:
                    sim.known.append("dkim-author-sig")
                    continue
                raise Violation("wrong answer", "%s: the rules %s %s; the first answer says otherwise (matched: %s)" % (
                    what, rules[base], "matched" if m else "did not match", sorted(tests)))
        if nrazor > (s["user"] != "bea"):
            raise Violation("razor twice", "%s: razor-check was run %d times" % (what, nrazor))
        for name, plan in (("sel._domainkey.signer.example", s["dkim"]), (dom, s["mfrom"]), (s["relay"][0], s["helo"])):
            if plan.first not in RETRY and asked.get(name, 0) > 1:
                raise Violation("asked twice", "%s: the TXT record of %s was asked for %d times" % (
                    what, name, asked[name]))
    return {"nontrivial": changed > 0, "sample": {"rules": sorted(rules), "messages": len(script)}}


def setup():
    H.preload()
