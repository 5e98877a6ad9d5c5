"""P16: a short-circuit decides the message and nothing after it runs.

The same messages go to the same deployment twice: once with every short-circuit taken out of the
configuration, recording which rule was evaluated with which result and what was asked of the outside
before and after it, once with them.  Up to the first matching rule that short-circuits both must be the same;
there the second one has to end, with that rule's score and the declared adjustment."""
import email
import functools
import re

from .. import gen
from .. import harness as H
from ..core import Violation, iso

QUICK_RUNS = 200
THOROUGH_RUNS = 9000
RULE = ("one run = a deployment (1-6 groups of plugins and rules, metas, random priorities and scores, 2-8 short-circuits of every "
        "type, switched off again or changed for one user), 3-6 messages with failing services and raising rules, in turn or at "
        "the same time; non-trivial when a message was short-circuited with rules left to run")
REAL = ["oad.py main, oa.server, protocol, parser, context, rules, ruleset, message, received parser",
        "oa.plugins.short_circuit and the other plugins that ship", "oa.dns_interface, dnspython stub resolver, pyspf, dkimpy"]
STUB = ["DNS servers, razor programs, pyzor.client.BatchClient", "sockets, clock, file system root",
        "rules: the real match methods, wrapped to record what they return and to raise at chosen calls"]
ASSUMPTIONS = ["of several settings for one rule the last one counts", "a rule is evaluated when a meta rule refers to it or at its turn, "
               "whatever is first", "rules answer alike in both runs until the short-circuit"]
TYPES = ["on", "off", "ham", "spam"]
PROBES = ["fired on", "fired ham", "fired spam", "off matched", "not fired", "fired in a meta", "fired user", "fired last",
          "rules left out", "contacts left out", "concurrent", "fault before", "rule raises", "set twice", "invalid line", "meta fired",
          "user changed it", "SYMBOLS", "REPORT", "PROCESS", "HEADERS", "CHECK", "REPORT_IFSPAM", "text result fired"]
ERRORS = [ValueError("broken"), OSError(5, "Input/output error"), RecursionError("deep"), KeyError("k"), AssertionError()]
TEXTRULE = '''
import oa.plugins.base
class Text(oa.plugins.base.BasePlugin):
    eval_rules = ("says",)
    def says(self, msg, target=None):
        return "said %s" % msg.score if "e" in msg.text else False
'''


def instrument(w):
    """Records (rule, result, top level?, contacts so far) for every evaluation of every rule, by message."""
    depth = {}

    def note(msg, name, result):
        t = w.trace.setdefault(msg.msg["X-Run"], [])
        t.append((name, result, len(depth[id(msg)]) == 0, w.contacts()))

    def wrap(cls):
        f = cls.__dict__["match"]

        @functools.wraps(f)
        def match(self, msg):
            stack = depth.setdefault(id(msg), [])
            if self.name in stack:
                return f(self, msg)
            stack.append(self.name)
            try:
                for r in w.raising.get(msg.msg["X-Run"], ()):
                    if r[0] == self.name:
                        w.sim.fault("exception in rule")
                        raise r[1]
                res = f(self, msg)
            finally:
                stack.remove(self.name)
            note(msg, self.name, res if isinstance(res, str) else bool(res))
            return res
        cls.match = match

    import oa.rules.base
    todo = list(oa.rules.base.BaseRule.__subclasses__())
    while todo:
        c = todo.pop()
        todo += c.__subclasses__()
        if "match" in c.__dict__ and c.__module__.startswith("oa."):
            wrap(c)
    w.trace = {}
    w.raising = {}
    w.contacts = lambda: (len(w.dns.log), len(w.children), len(w.pyzor_log))


def life(sim, files, prefs, script, together):
    w = H.new_world(sim)
    gen.internet(w)
    w.seed_random(3)
    instrument(w)
    w.write("/simfs/site/text.py", TEXTRULE)
    H.put_config(w, files)
    for u in sorted(prefs):
        H.put_user(w, u, prefs[u])
    d = H.Daemon(w).start()
    out, conns = [], []
    okprog = w.programs["razor-check"]
    for k, (req, faults) in enumerate(script):
        if together:
            conns.append(d.send(req))
            if sim.chance("pause", 30):
                sim.advance(sim.pick("pausefor", [0.01, 0.5]))
            continue
        w.raising = {str(k): [(f["rule"], f["error"]) for f in faults if f["kind"] == "rule"]}
        dns = [f for f in faults if f["kind"] == "dns"]
        w.dns.count.clear()

        def mode(name, qtype, server, nth):
            for f in dns:
                if (f["zone"] or "") in name:
                    return f["mode"]
            return "ok"
        w.dns.mode = mode
        razor = [f for f in faults if f["kind"] == "razor"]
        w.programs["razor-check"] = (lambda args: dict(razor[0]["plan"])) if razor else okprog
        pz = [f for f in faults if f["kind"] == "pyzor"]
        w.pyzor_plan = lambda server, op: pz[0]["mode"] if pz else "ok"
        start = w.contacts()
        raw = d.ask(req)
        out.append((raw, [(n, r, t, tuple(a - b for a, b in zip(c, start))) for n, r, t, c in w.trace.get(str(k), [])],
                    tuple(a - b for a, b in zip(w.contacts(), start)),
                    [(l.name, l.qtype) if hasattr(l, "qtype") else repr(l)[:0] for l in w.dns.log[start[0]:]]))
        sim.advance(1)
    if together:
        sim.block(lambda: all(c.closed for c in conns), 100000, "answers")
        for k, c in enumerate(conns):
            out.append((bytes(c.out), w.trace.get(str(k), []), None, None))
    H.finish(sim)
    return out


def config(sim):
    pool = [f.name for f in gen.FRAGS if f.name not in ("plain", "short")]
    names = ["plain"] + sim.shuffled("frags", pool)[:sim.int("nfrags", 0, 5)]
    files, dummy = gen.config(sim, names, reports=False, keep=70, glob=["trusted_networks 10.0.0.0/8", "skip_rbl_checks 1"])
    text = "\n".join(files[f] for f in sorted(files, key=lambda x: (not x.endswith(".pre"), x)))
    rules = []
    for m in re.finditer(r"(?m)^(header|body|rawbody|full|uri|meta|mimeheader|uri_detail) +(\w+) +(.*)$", text):
        if m.group(2) not in rules:
            rules.append(m.group(2))
    lines = ["loadplugin oa.plugins.short_circuit.ShortCircuit", "loadplugin Text /simfs/site/text.py",
             "header X_TEXT eval:says()", "describe X_TEXT not said"]
    rules.append("X_TEXT")
    for k in range(sim.int("nmetas", 0, 3)):
        ab = sim.shuffled("metaof", sorted(rules))[:2]
        if len(ab) == 2:
            lines.append("meta X_META%d %s" % (k, sim.pick("expr", ["%s && %s", "%s || %s", "%s && !%s", "(%s + %s) > 1"]) % tuple(ab)))
            rules.append("X_META%d" % k)
    scores = {}
    for r in rules:
        scores[r] = sim.wpick("score", [(sim.pick("pos", [0.25, 0.5, 1.0, 1.75, 3.0]), 72), (sim.pick("neg", [-0.25, -1.5, -0.75]), 22),
                                        (0.0, 6)])
        lines.append("score %s %s" % (r, scores[r]))
        if sim.chance("prio", 25):
            lines.append("priority %s %s" % (r, sim.pick("priority", ["100", "5", "-5", "-300"])))
    required = sim.pick("required", [1.0, 2.0, 5.0, 99.5, -40.0])
    adj = {"spam": sim.pick("spamscore", [100.0, 7.5, 0.0]), "ham": sim.pick("hamscore", [-100.0, -3.25])}
    lines += ["required_score %s" % required, "allow_user_rules 1", "clear_report_template",
              "dns_available yes", "report_safe 1",
              "report T=_TESTS_ SC=_SCRULE_/_SCTYPE_ D=_SC_", "report V=_YESNO_ _SCORE_ _REQD_", "report S=_TESTSSCORES_",
              "report _REPORT_", "add_header all T _TESTS_", "add_header all SC _SCRULE_/_SCTYPE_"]
    if adj["spam"] != 100.0:
        lines.append("shortcircuit_spam_score %s" % adj["spam"])
    if adj["ham"] != -100.0:
        lines.append("shortcircuit_ham_score %s" % adj["ham"])

    def settings(n, types):
        out = []
        for dummy in range(n):
            x = sim.weighted("scline", [88, 4, 4, 4])
            if x == 0:
                r = sim.pick("scrule", rules)
                ty = sim.wpick("sctype", [("on", 30), ("off", 20), ("ham", 25), ("spam", 25)])
                if r in types:
                    sim.probe("set twice")
                types[r] = ty
                out.append("shortcircuit %s%s%s" % (r, sim.pick("gap", [" ", "\t", "   "]), ty))
            else:
                sim.probe("invalid line")
                out.append(["shortcircuit NO_SUCH_RULE on", "shortcircuit X_TEXT perhaps", "shortcircuit X_TEXT"][x - 1])
        return out
    types = {}
    sc = settings(sim.int("nsc", 2, 8), types)
    utypes, uadj, uscores, ureq = dict(types), dict(adj), dict(scores), required
    user = ["# " + sim.pick("nothing", ["x", "y"])]
    usc = settings(sim.int("nusc", 0, 3), utypes)
    if sim.chance("uadj", 25):
        uadj["spam"] = 11.5
        usc.append("shortcircuit_spam_score 11.5")
    if sim.chance("uadj2", 25):
        uadj["ham"] = -9.5
        usc.append("shortcircuit_ham_score -9.5")
    for r in sorted(scores):
        if sim.chance("rescored", 8):
            uscores[r] = sim.pick("uscore", [0.5, 2.0, -0.25])
            user.append("score %s %s" % (r, uscores[r]))
    if sim.chance("ureq", 30):
        ureq = sim.pick("ureqv", [0.5, 6.0])
        user.append("required_score %s" % ureq)
    plain = dict(files)
    plain["99_z.cf"] = "\n".join(lines) + "\n"
    full = dict(files)
    if sim.chance("scfirst", 20):
        # the settings come before the rules they are about
        full["00_sc.cf"] = lines[0] + "\n" + "\n".join(sc) + "\n"
        full["99_z.cf"] = "\n".join(lines[1:]) + "\n"
    else:
        full["99_z.cf"] = "\n".join(lines + sc) + "\n"
    accounts = {None: (scores, required, types, adj), "ann": (uscores, ureq, utypes, uadj)}
    return names, plain, full, {"ann": "\n".join(user) + "\n"}, {"ann": "\n".join(user + usc) + "\n"}, accounts, rules


def make_fault(sim, names, rules):
    kind = sim.wpick("faultkind", [("rule", 40)] + [(k, 30) for k in ("razor", "pyzor") if k in names] +
                     ([("dns", 40)] if {"rbl", "spf", "dkim"} & set(names) else []))
    if kind == "rule":
        return {"kind": kind, "rule": sim.pick("ruleof", rules), "error": sim.pick("error", ERRORS)}
    if kind == "dns":
        return {"kind": kind, "zone": sim.pick("zone", [None, "bl.example", "multi.example", "dbl.example"]),
                "mode": sim.pick("mode", ["timeout", "servfail", "refused", "nxdomain", "garbage"])}
    if kind == "razor":
        return {"kind": kind, "plan": sim.pick("razorplan", [{"duration": None}, {"returncode": 2}, {"error": OSError(2, "no")}])}
    return {"kind": kind, "mode": sim.pick("pyzormode", ["timeout", "comm", "denied", "garbage"])}


def run(sim):
    names, plain, full, uplain, ufull, accounts, rules = config(sim)
    together = sim.chance("together", 25)
    script, facts, base = [], [], []
    for k in range(sim.int("nmsgs", 3, 6)):
        msg = b"X-Run: %d\r\nX-Filler: x\r\n" % k + gen.message(sim)
        user = "ann" if sim.chance("user", 35) else None
        cmd = sim.wpick("cmd", [("SYMBOLS", 25), ("REPORT", 35), ("PROCESS", 15), ("HEADERS", 8), ("CHECK", 8), ("REPORT_IFSPAM", 9)])
        faults = [] if together else [make_fault(sim, names, rules) for dummy in range(sim.wpick("nfaults", [(0, 60), (1, 25), (2, 15)]))]
        script.append((H.make_request(cmd, msg, user), faults))
        base.append((H.make_request("REPORT", msg, user), faults))
        facts.append((cmd, user, faults))
    ref = iso(sim, life, plain, uplain, base, False)
    got = iso(sim, life, full, ufull, script, together)
    if together:
        sim.probe("concurrent")
    good = False
    for k, fact in enumerate(facts):
        good |= judge(sim, k, fact, ref[k], got[k], accounts[fact[1]], accounts, full, together)
    return {"nontrivial": good, "sample": {"plugins": names, "requests": [(f[0], f[1], [repr(x) for x in f[2]]) for f in facts],
                                           "settings": {r: accounts[None][2][r] for r in sorted(accounts[None][2])}}}


def report(raw):
    r = H.Response(raw, "REPORT")
    m = re.match(r"\s*T=(\S+) SC=(\S+) D=(.+?)\r?\n\s*V=(\S+) (\S+) (\S+)\r?\n\s*S=(\S+)\r?\n((?:.|\n)*)$",
                 r.body.decode("utf8", "replace"))
    return r, m


def names_in(text):
    return [] if text == "none" else text.split(",")


def judge(sim, k, fact, ref, got, account, accounts, files, together):
    cmd, user, faults = fact
    scores, required, types, adj = account
    raw, trace, contacts, asked = got
    sim.probe(cmd)

    def bad(kind, text):
        raise Violation(kind, "message %d (%s, user %s, %s): %s\nanswer %r\nwithout the short-circuits: %r\nconfiguration:\n%s" % (
            k, cmd, user, faults, text, raw and raw[:1500], ref[0] and ref[0][:1500], "\n".join(files[x] for x in sorted(files))))

    rr, rm = report(ref[0])
    if rr.problem or rm is None:
        bad("no verdict", "without the short-circuits there is no complete answer (%s)" % rr.problem)
    lines = {}
    for l in rm.group(8).replace("\r", "").split("\n"):
        m = re.match(r"\s*\* (-?[\d.e+-]+) (\w+) ", l)
        if m:
            lines[m.group(2)] = l.strip()
    # what the short-circuit cuts off
    want, fired, upto = [], None, len(ref[1])
    for i, (name, result, top, dummy) in enumerate(ref[1]):
        ty = types.get(name, "off")
        if result and ty != "off":
            fired, upto = (name, ty), i + 1
            break
        if result and top and name not in want:
            if ty == "off" and name in types:
                sim.probe("off matched")
            want.append(name)
    wantscore = sum(scores[n] for n in want)
    if fired:
        sim.probe("fired " + fired[1])
        wantscore += scores[fired[0]] if not fired[0].startswith("__") else 0.0
        wantscore += adj.get(fired[1], 0.0)
        if not ref[1][upto - 1][2]:
            sim.probe("fired in a meta")
        if fired[0].startswith("X_META"):
            sim.probe("meta fired")
        if fired[0] == "X_TEXT":
            # the description is what it said first
            sim.probe("text result fired")
            lines["X_TEXT"] = "* %s X_TEXT %s" % (scores["X_TEXT"], ref[1][upto - 1][1])
        if user:
            sim.probe("fired user")
        if upto == len(ref[1]):
            sim.probe("fired last")
        else:
            sim.probe("rules left out")
        if any(f["kind"] == "rule" for f in faults):
            sim.probe("rule raises")
        if faults:
            sim.probe("fault before")
        if not fired[0].startswith("__"):
            want.append(fired[0])
    else:
        sim.probe("not fired")
    if user and accounts[None][2] != types:
        sim.probe("user changed it")
    # nothing after it
    if [x[:3] for x in trace] != [x[:3] for x in ref[1][:upto]]:
        bad("evaluated", "the rules evaluated are %s, expected %s (short-circuit by %s)" % (
            [x[:2] for x in trace], [x[:2] for x in ref[1][:upto]], fired))
    if not together:
        limit = ref[1][upto - 1][3] if fired else ref[2]
        if contacts != limit:
            bad("contacted", "DNS, Razor and Pyzor were asked %s times, expected %s (short-circuit by %s)" % (contacts, limit, fired))
        if fired and limit != ref[2]:
            sim.probe("contacts left out")
    # the verdict
    r = H.Response(raw, cmd)
    if r.problem or r.code != 0:
        bad("no verdict", "no complete answer (%s)" % r.problem)
    if float(r.required) != required:
        bad("verdict", "the required score is %s, not %s" % (r.required, required))
    if abs(float(r.score) - wantscore) > 0.051 or r.spam != (wantscore >= required):
        bad("score", "the score is %s (spam %s), expected %s of %s (short-circuit by %s)" % (r.score, r.spam, wantscore, want, fired))
    text = r.body.decode("utf8", "replace")
    tag = "%s/%s" % fired if fired else "none/off"
    tests = None
    if cmd == "SYMBOLS":
        tests = r.symbols
    elif cmd == "REPORT" or cmd == "REPORT_IFSPAM" and r.spam:
        dummy, m = report(raw)
        if m is None:
            bad("no verdict", "the report is incomplete")
        tests = names_in(m.group(1))
        if m.group(2) != tag or m.group(3) != ("%s (%s)" % fired if fired else "no"):
            bad("report", "the short-circuit is reported as %s, %s, expected %s" % (m.group(2), m.group(3), tag))
        if m.group(4) != ("Yes" if r.spam else "No") or m.group(5) != r.score or m.group(6) != r.required:
            bad("report", "the report says %s" % m.group(0)[:200])
        given = {x.split("=")[0]: float(x.split("=")[1]) for x in names_in(m.group(7)) if not x.startswith("__")}
        if given != {x: scores[x] for x in want}:
            bad("report", "the scores of the rules are given as %s" % m.group(7))
        shown = [l.strip() for l in m.group(8).replace("\r", "").split("\n") if l.strip() and " __" not in l]
        expected = [lines[x] for x in want if x in lines]
        # (a rule without a score is not listed unless it decides)
        if [l for l in shown if l not in expected and l.startswith("*") and not (fired and fired[0] not in lines and fired[0] in l)] or [l for l in expected if l not in shown]:
            bad("report", "the report lists\n%s\nexpected\n%s" % (shown, expected))
    elif cmd == "REPORT_IFSPAM":
        if text.strip():
            bad("report", "a report for a message that is not spam")
    elif cmd in ("PROCESS", "HEADERS"):
        m = email.message_from_string(text)
        value, sc = m["X-Spam-T"], m["X-Spam-SC"]
        if value is None or re.sub(r"\s", "", str(sc)) != tag:
            bad("no verdict", "the added headers are %s, %s" % (value, sc))
        tests = names_in(re.sub(r"\s", "", str(value)))
        if cmd == "PROCESS" and b"X-Run: %d" % k not in r.body:
            bad("no verdict", "the message is missing")
    if tests is not None and [x for x in tests if not x.startswith("__")] != want:
        bad("rules", "the rules listed are %s, expected %s (short-circuit by %s)" % (tests, want, fired))
    return bool(fired) and upto < len(ref[1])


def setup():
    H.preload()
