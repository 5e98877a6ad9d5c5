"""P22: rules do not influence one another.

One message is judged by several deployments that share their settings and differ in which rules they
have and in the order the rules are evaluated in, while the same services fail in the same way.  A rule
two of them have must match in both or in neither, with the same score and description, and each
deployment's total must be the sum of the scores of the rules it lists."""
import re

from .. import gen, kit
from .. import harness as H
from ..core import Violation, iso

QUICK_RUNS = 300
THOROUGH_RUNS = 12000
RULE = ("one run = one random deployment (plugin mix, settings), 1-3 messages, one plan of failing services and 3 rule "
        "sets with their own evaluation order; non-trivial when at least three rules match somewhere and the sets "
        "share a rule that matches")
REAL = ["oad.py main, oa.server, protocol", "parser, ruleset (ordering by priority), all rule kinds", "oa.message",
        "all message plugins except AWL, Bayes, SpamCop, short-circuit",
        "dnspython stub resolver, pyspf, dkimpy, langdetect, PIL, PyPDF2"]
STUB = ["sockets, clock, DNS servers (zone data, failures)", "razor programs, Pyzor client", "file system root",
        "GeoIP database reader"]
ASSUMPTIONS = ["short-circuiting rules, the automatic whitelist and Bayes are left out: they look at the other rules on purpose",
               "a rule that another one refers to stays together with it"]
PROBES = ["one rule alone", "reversed", "shuffled", "subset", "dns outage", "service outage", "user", "meta",
          "twenty rules", "not lazy"] + [p for p in kit.rule_probes() if "SC_" not in p]
POOL = [f.name for f in gen.FRAGS if f.name not in ("short",)]
FAIL = ["servfail", "nxdomain", "timeout", "noanswer"]
ZONES = ["bl.example", "multi.example", "dbl.example", "signer.example", "example.com", "gmail.com", "in-addr.arpa"]
LINE = re.compile(r"^\s*\*?\s*(-?[\d.]+)\s+(\S+)\s?(.*)$")


def groups(names):
    """Rules that belong together -> [(rule names, text)]"""
    out = []
    for n in names:
        for text in gen.FRAG[n].rules:
            mine = [x.split()[1] for x in text.split("\n") if x.split()[0] in
                    ("body", "rawbody", "full", "header", "uri", "meta", "mimeheader", "uri_detail")]
            out.append((mine, text))
    need = {"T_META": ("T_VIAGRA", "T_SUBJ"), "T_META2": ("T_MONEY", "T_HELLO"), "__T_HID": ("T_VIAGRA",)}
    return out, need


def dates(sim):
    out = []
    for name in ("Date", "Resent-Date"):
        if sim.chance(name, 35):
            out.append("%s: %s" % (name, sim.pick("date", [
                "Tue, 14 Nov 2023 21:50:00 +0000", "Tue, 14 Nov 2023 09:50:00 -0500", "Mon, 10 Jul 2017 10:00:00 +0000",
                "yesterday", "Thu, 31 Feb 2019 25:61:00 +9900", ""])))
    for line in ("X-Relay-Countries: US", "Subject: a second offer", "From: Bob <bob@gmail.com>", "Reply-To: x@gmail.com",
                 "Resent-From: alice@example.com", "To: second@local.example"):
        if sim.chance("again", 7):
            out.append(line)
    return out


def judged(sim, setup_, requests, args):
    return H.oneshot(sim, setup_, requests, args)


def run(sim):
    pool = sim.shuffled("frags", [n for n in POOL if n != "plain"])
    names = (["plain"] if sim.chance("plain", 70) else []) + pool[:sim.int("nfrags", 2, 7)]
    allrules, need = groups(names)
    settings = ["loadplugin " + gen.FRAG[n].plugin for n in names if gen.FRAG[n].plugin]
    for n in names:
        settings.extend(gen.FRAG[n].options)
    settings += ["report @T@_TESTSSCORES_", "report @X@_SCORE_", "report_safe 0"]
    known = {r for g, dummy in allrules for r in g}
    for n in names:
        for v in gen.FRAG[n].variants:
            word = v.split()
            if word[0] == "priority" or not sim.chance("variant", 50):
                continue
            settings.append(v)
    for g in gen.GLOBALS:
        if g.split()[0] not in ("report_safe", "clear_headers", "clear_report_template") and sim.chance("glob", 15):
            settings.append(g)
    perrule = [s for s in settings if s.split()[0] in ("score", "describe", "tflags")]
    settings = [s for s in settings if s not in perrule]
    # integral scores add up exactly in every order
    scores = {r: sim.pick("score", ["1", "2", "-1", "0.5", "4"]) for r in sorted(known)}
    prefs = {"ann": gen.user_lines(sim, [n for n in names if n != "plain"])}
    settings.append("allow_user_rules 1")
    user = "ann" if sim.chance("user", 30) else None
    if user:
        sim.probe("user")
    # the sets
    sets = []
    total = [g for g in allrules if sim.chance("keep", 85)]
    if len(total) >= 20:
        sim.probe("twenty rules")
    for k in range(3):
        how = "all" if k == 0 else sim.wpick("how", [("alone", 30), ("subset", 30), ("shuffled", 25), ("reversed", 15)])
        chosen = total
        if how == "alone":
            sim.probe("one rule alone")
            chosen = [sim.pick("alone", total)] if total else []
        elif how == "subset":
            sim.probe("subset")
            chosen = [g for g in total if sim.chance("sub", 40)]
        have = {r for g, dummy in chosen for r in g}
        chosen = [(g, t) for g, t in chosen]
        for g, t in allrules:
            if not have.intersection(g) and any(g[0] in need.get(r, ()) for r in have):
                chosen.append((g, t))
        have = {r for g, dummy in chosen for r in g}
        order = sorted(have)
        if how in ("shuffled", "alone", "subset"):
            sim.probe("shuffled")
            order = sim.shuffled("order", order)
        elif how == "reversed":
            sim.probe("reversed")
            order = order[::-1]
        text = [t for dummy, t in chosen]
        text = [x for t in text for x in t.split("\n")]
        text += ["score %s %s" % (r, scores[r]) for r in sorted(have) if not r.startswith("__")]
        text += [x for x in perrule if x.split()[0] != "score" and x.split()[1] in have]
        if k or sim.chance("order", 50):
            text += ["priority %s %d" % (r, 5 * i - 40) for i, r in enumerate(order)]
        if {"T_META", "T_META2", "T_USEHID"} & have:
            sim.probe("meta")
        sets.append((have, "\n".join(settings + text) + "\n"))
    outage = {}
    if sim.chance("dns outage", 45):
        sim.probe("dns outage")
        for z in sim.subset("zones", ZONES):
            outage[z] = sim.pick("how", FAIL)
    razor = sim.pick("razor", [None, None, {"error": OSError(2, "No such file")}, {"returncode": 2}, {"returncode": 0}])
    pyzor = sim.pick("pyzor", [None, None, "timeout", (20, 0), (9, 3)])
    if razor or pyzor:
        sim.probe("service outage")
    msgs = [gen.message(sim, extra=dates(sim)) for dummy in range(sim.int("nmsgs", 1, 3))]
    requests = [H.make_request("REPORT", m, user) for m in msgs]
    t0 = 1700000000.0
    got = []
    for have, text in sets:
        def setup_(w, text=text):
            gen.internet(w)
            H.put_config(w, {"10.cf": text})
            for u in prefs:
                H.put_user(w, u, prefs[u])
            if outage:
                w.dns.mode = lambda name, qtype, server, nth: next(
                    (outage[z] for z in sorted(outage) if name.rstrip(".").endswith(z)), "ok")
            if razor:
                w.programs["razor-check"] = lambda args: dict(razor)
            if pyzor:
                w.pyzor_plan = lambda server, op: pyzor
        args = ["-dl"] if sim.chance("dl", 30) else []
        if args:
            sim.probe("not lazy")
        got.append(iso(sim, judged, setup_, requests, args))
    interesting = False
    for i, m in enumerate(msgs):
        res = []
        for (have, text), answers in zip(sets, got):
            r = H.Response(answers[i], "REPORT")

            def bad(kind, what, text=text):
                raise Violation(kind, "message %d: %s\nmessage %r\noutages %s, razor %s, pyzor %s, user %s\nconfiguration:\n%s" % (
                    i, what, m[:3000], outage, razor, pyzor, prefs["ann"] if user else None, text))

            if r.problem or r.code != 0:
                bad("no verdict", "answered %r" % answers[i])
            body = r.body.decode("utf8", "replace")
            line = body.split("@T@", 1)[1].split("\n")[0].strip()
            total_ = float(body.split("@X@", 1)[1].split("\n")[0])
            hits = {}
            for x in line.split(",") if line and line != "none" else []:
                name, dummy, score = x.partition("=")
                if name in hits:
                    bad("twice", "%s is listed twice: %s" % (name, line))
                hits[name] = float(score)
                sim.probe("rule " + name)
            if abs(sum(hits.values()) - total_) > 0.06:
                bad("sum", "the total is %s, the rules listed are %s" % (total_, line))
            res.append((hits, bad))
        first = res[0][0]
        for k in (1, 2):
            other, bad = res[k]
            both = sets[0][0] & sets[k][0]
            for name in sorted(both):
                if (name in first) != (name in other) or first.get(name) != other.get(name):
                    if name == "DK_AU" and "dkim-adsp-unknown" in sim.known_ids:
                        sim.known.append("dkim-adsp-unknown")
                        continue
                    bad("influence", "%s gives %s with the rules below, and %s with these:\n%s\n----" % (
                        name, other.get(name, "no match"), first.get(name, "no match"), sets[0][1]))
            if len(first) >= 3 and any(n in first for n in both):
                interesting = True
    return {"nontrivial": interesting, "sample": {"plugins": names, "rules": len(total), "outage": outage}}


def setup():
    H.preload()
