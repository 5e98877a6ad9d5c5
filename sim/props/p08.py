"""P08: a failing check never costs a message its verdict.

The same messages go to the same deployment twice: once with everything around it working, once with outages
of DNS zones, programs, digest servers and the database, and with exceptions raised by the plugins' own hooks,
eval functions and rules at chosen calls.  Rules that do not depend on what failed must match as before, and
every verdict must be complete and consistent with the rules it reports."""
import email
import functools
import importlib
import re

from .. import gen
from .. import harness as H
from ..core import Violation, iso
from .p12 import SCHEMA as AWL
from .p13 import create as create_bayes

QUICK_RUNS = 170
THOROUGH_RUNS = 9000
RULE = ("one run = a deployment (2-9 groups of plugins and rules, the whitelist and the classifier among them, scores in quarters, "
        "user preferences), 2-5 messages, each judged without and with 0-3 faults of its own; non-trivial when a fault fired "
        "while rules that do not depend on it matched")
REAL = ["oad.py main, oa.server, protocol, parser, context, rules, ruleset, message, received parser", "all plugins that ship",
        "SQLAlchemy, SQLite (files)", "oa.dns_interface, dnspython stub resolver, pyspf, dkimpy"]
STUB = ["DNS servers, razor programs, pyzor.client.BatchClient", "sockets, clock, file system root",
        "raising hooks: the real methods, wrapped to raise before or after they run"]
ASSUMPTIONS = ["a rule depends on its own plugin, on the zones or services it asks, and on the rules it refers to",
               "after a database failure the whitelist's later adjustments may differ"]
KINDS = ["dns zone", "dns all", "dns other", "razor", "pyzor", "db", "db connect", "hook", "eval", "rule"]
PROBES = ["fault " + k for k in KINDS] + ["all fine", "two faults", "user", "awl", "bayes", "meta", "spam", "ham", "at the limit",
                                          "unaffected rules matched", "affected rule changed", "SYMBOLS", "REPORT", "PROCESS",
                                          "HEADERS", "CHECK", "REPORT_IFSPAM", "after"]
ZONES = {"bl.example": ["N_BL", "N_BLT", "N_BLTS"], "multi.example": ["__N_MUL", "N_MS2", "N_MS8", "N_FU", "N_UNT"],
         "dbl.example": ["N_ENV", "N_FH", "N_FD"], "accred.example": ["N_ACC"]}
MODES = ["timeout", "servfail", "refused", "nxdomain", "empty", "garbage", "refused_conn", "yxdomain", "formerr", "notimp"]
ERRORS = [ValueError("broken"), KeyError("missing"), OSError(5, "Input/output error"), RuntimeError("no"), RecursionError("deep"),
          MemoryError(), AttributeError("x"), AssertionError(), StopIteration(), ZeroDivisionError("0"), IndexError("i"),
          UnicodeDecodeError("utf8", b"\xff", 0, 1, "bad"), TimeoutError("late"), TypeError("t"), EOFError()]
EXTRA = {
    "awl": (["loadplugin oa.plugins.awl.AutoWhiteListPlugin", "user_awl_dsn sqlite:////simfs/db/awl.db"],
            ["header AWL eval:check_from_in_auto_whitelist()\npriority AWL -1000"], "oa.plugins.awl.AutoWhiteListPlugin"),
    "bayes": (["loadplugin oa.plugins.bayes.BayesPlugin", "bayes_sql_dsn sqlite:////simfs/db/bayes.db", "bayes_min_spam_num 1",
               "bayes_min_ham_num 1"],
              ["body BAYES_LOW eval:check_bayes('0.00','0.45')", "body BAYES_MID eval:check_bayes('0.45','0.6')",
               "body BAYES_HIGH eval:check_bayes('0.6','1.00')"], "oa.plugins.bayes.BayesPlugin"),
}
HOOKS = ["check_start", "extract_metadata", "parsed_metadata", "check_end", "auto_learn_discriminator"]


def find(path):
    mod, name = path.rsplit(".", 1)
    return getattr(importlib.import_module(mod), name)


def own(cls, name):
    for c in cls.__mro__:
        if name in c.__dict__:
            return c.__dict__[name]


def instrument(w, classes):
    """Puts a fault point before and after every hook and eval function of the plugins and every rule."""
    def wrap(cls, label, name, who):
        f = own(cls, name)
        if f is None or isinstance(f, (staticmethod, classmethod, property)):
            return

        @functools.wraps(f)
        def step(self, *args, **kw):
            key = who(self)
            w.trip(label, key, "before")
            res = f(self, *args, **kw)
            w.trip(label, key, "after")
            return res
        setattr(cls, name, step)

    def trip(label, key, when):
        for t in w.tripwires:
            if t["label"] == label and t["key"] == key and t["when"] == when:
                t["seen"] += 1
                if t["seen"] >= t["nth"]:
                    w.sim.fault("exception in " + label.split()[0])
                    w.fired.add(t["id"])
                    raise t["error"]

    w.trip = trip
    w.tripwires = []
    for path in classes:
        cls = find(path)
        for h in HOOKS:
            wrap(cls, "hook " + h, h, lambda self, p=path: p)
        for e in cls.eval_rules:
            wrap(cls, "eval " + e, e, lambda self, p=path: p)
    import oa.rules.base
    todo = list(oa.rules.base.BaseRule.__subclasses__())
    while todo:
        c = todo.pop()
        todo += c.__subclasses__()
        if "match" in c.__dict__ and c.__module__.startswith("oa."):
            wrap(c, "rule", "match", lambda self: self.name)


def arm(w, faults, okprog):
    """Sets up what goes wrong around one request; w.fired collects the numbers of the faults that hit."""
    import sqlite3
    w.fired = set()
    w.tripwires = [dict(f, id=i, seen=0) for i, f in enumerate(faults) if "label" in f]
    modes = [(i, f) for i, f in enumerate(faults) if f["kind"].startswith("dns")]

    def mode(name, qtype, server, nth):
        for i, f in modes:
            if covers(f, name) and nth <= f["upto"]:
                w.fired.add(i)
                return f["mode"]
        return "ok"
    w.dns.mode = mode
    w.dns.count.clear()
    w.programs["razor-check"] = okprog
    w.pyzor_plan = lambda server, op: "ok"
    w.db_plan = w.db_connect_plan = None
    for i, f in enumerate(faults):
        if f["kind"] == "razor":
            def prog(args, f=f, i=i):
                w.fired.add(i)
                return dict(f["plan"])
            w.programs["razor-check"] = prog
        elif f["kind"] == "pyzor":
            def pz(server, op, f=f, i=i):
                w.fired.add(i)
                return f["mode"]
            w.pyzor_plan = pz
        elif f["kind"] == "db":
            calls = [0]

            def dbplan(op, sql, conn, f=f, i=i, calls=calls):
                calls[0] += 1
                if calls[0] == f["nth"] or calls[0] > f["nth"] and f["stays"]:
                    w.fired.add(i)
                    return sqlite3.OperationalError(f["error"])
                return None
            w.db_plan = dbplan
        elif f["kind"] == "db connect":
            def refuse(i=i):
                w.fired.add(i)
                return True
            w.db_connect_plan = refuse


def life(sim, files, prefs, names, classes, script, faulty):
    w = H.new_world(sim)
    gen.internet(w)
    w.db_switch = 0
    w.seed_random(3)
    if "awl" in names:
        db = w.db("/simfs/db/awl.db")
        db.execute(AWL)
        db.commit()
        db.close()
    if "bayes" in names:
        create_bayes(w)
    w.fired = set()
    instrument(w, classes)
    H.put_config(w, files)
    for u in sorted(prefs):
        H.put_user(w, u, prefs[u])
    d = H.Daemon(w).start()
    okprog = w.programs["razor-check"]
    out = []
    for req, faults in script:
        faults = faults if faulty else []
        arm(w, faults, okprog)
        raw = d.ask(req)
        w.tripwires = []
        out.append((raw, sorted(w.fired)))
        w.db_plan = w.db_connect_plan = None
        w.db_reap()
        sim.advance(1)
    H.finish(sim)
    return out


def covers(f, name):
    zone = f.get("zone")
    inzone = [z for z in ZONES if name.endswith("." + z)]
    if zone:
        return zone in inzone
    return f["kind"] == "dns all" or not inzone


def config(sim):
    pool = [f.name for f in gen.FRAGS if f.name not in ("plain", "short")]
    names = ["plain"] + sim.shuffled("frags", pool)[:sim.int("nfrags", 1, 6)]
    if not {"rbl", "spf", "dkim", "razor", "pyzor"} & set(names):
        names.append(sim.pick("netfrag", ["rbl", "spf", "dkim", "razor", "pyzor"]))
    files, dummy = gen.config(sim, names, reports=False, keep=85, glob=[
        "report_safe 0", "trusted_networks 10.0.0.0/8", "envelope_sender_header X-Env", "skip_rbl_checks 1"])
    lines, classes = [], [gen.FRAG[n].plugin for n in names if gen.FRAG[n].plugin]
    for n in ("awl", "bayes"):
        if sim.chance(n, 25):
            sim.probe(n)
            opts, rules, cls = EXTRA[n]
            names.append(n)
            lines += opts + rules
            classes.append(cls)
    text = "\n".join(files[f] for f in sorted(files, key=lambda x: (not x.endswith(".pre"), x))) + "\n".join(lines)
    rules = {}
    for m in re.finditer(r"(?m)^(header|body|rawbody|full|uri|meta|mimeheader|uri_detail) +(\w+) +(.*)$", text):
        rules[m.group(2)] = m.group(3) if m.group(1) == "meta" else ""
    if sim.chance("metas", 60):
        for k in range(sim.int("nmetas", 1, 3)):
            ab = sim.shuffled("metaof", sorted(r for r in rules if r != "AWL"))[:2]
            if len(ab) == 2:
                sim.probe("meta")
                expr = sim.pick("expr", ["%s && %s", "%s || %s", "%s && !%s", "(%s + %s) > 1"]) % tuple(ab)
                lines.append("meta X_META%d %s" % (k, expr))
                rules["X_META%d" % k] = expr
    scores = {r: 1.0 for r in rules}
    for r in sorted(rules):
        scores[r] = sim.wpick("score", [(sim.pick("pos", [0.25, 0.5, 1.0, 1.75, 3.0]), 72), (sim.pick("neg", [-0.25, -1.5, -0.75]), 22),
                                        (0.0, 6)])
        lines.append("score %s %s" % (r, scores[r]))
    required = sim.pick("required", [1.0, 2.0, 3.5, 5.0, 0.25])
    lines += ["required_score %s" % required, "allow_user_rules 1", "clear_report_template",
              "report T=_TESTS_ A=_AWL_ P=_AWLPRESCORE_", "report S=_TESTSSCORES_", "report _SUMMARY_", "add_header all T _TESTS_"]
    files["99_z.cf"] = "\n".join(lines) + "\n"
    user = [x for x in gen.user_lines(sim, [n for n in names if n in gen.FRAG]).split("\n")
            if not x.startswith(("score ", "required_score ", "report ")) and x]
    uscores = dict(scores)
    for x in list(user):
        m = re.match(r"(header|body) (\w+) ", x)
        if m and (m.group(2) not in rules or sim.chance("rescore", 50)):
            uscores[m.group(2)] = sim.pick("uscore", [0.5, 2.0, -0.25])
            user.append("score %s %s" % (m.group(2), uscores[m.group(2)]))
            rules.setdefault(m.group(2), "")
    for r in sorted(scores):
        if sim.chance("rescored", 8):
            uscores[r] = sim.pick("uscore", [0.5, 2.0, -0.25])
            user.append("score %s %s" % (r, uscores[r]))
    ureq = required
    if sim.chance("ureq", 40):
        ureq = sim.pick("ureqv", [0.5, 2.5, 6.0])
        user.append("required_score %s" % ureq)
    deps = {}

    def refers(r):
        if r not in deps:
            deps[r] = {r}
            for x in re.findall(r"\w+", rules.get(r, "")):
                if x in rules and x != r:
                    deps[r] |= refers(x)
        return deps[r]
    for r in rules:
        refers(r)
    return files, {"ann": "\n".join(user) + "\n"}, names, classes, {None: (scores, required), "ann": (uscores, ureq)}, deps


def rules_of(names):
    out = {}
    for n in names:
        text = "\n".join(gen.FRAG[n].rules) if n in gen.FRAG else "\n".join(EXTRA[n][1])
        out[n] = set(re.findall(r"(?m)^(?:header|body|rawbody|full|uri|meta|mimeheader|uri_detail) +(\w+)", text))
    return out


def make_fault(sim, names, classes, rules, deps):
    groups = rules_of(names)
    net = [n for n in names if n in ("rbl", "spf", "dkim")]
    kinds = [("hook", 20), ("eval", 20), ("rule", 12)]
    if "rbl" in names:
        kinds.append(("dns zone", 22))
    if net:
        kinds += [("dns all", 12), ("dns other", 10)]
    for n, w in (("razor", 14), ("pyzor", 14)):
        if n in names:
            kinds.append((n, w))
    if "awl" in names or "bayes" in names:
        kinds += [("db", 30), ("db connect", 8)]
    kind = sim.wpick("faultkind", kinds)
    f = {"kind": kind}
    hit = set()
    if kind.startswith("dns"):
        f["mode"] = sim.pick("dnsmode", MODES)
        f["upto"] = sim.wpick("upto", [(99, 70), (1, 20), (2, 10)])
        if kind == "dns zone":
            f["zone"] = sim.pick("zone", sorted(ZONES))
            hit |= set(ZONES[f["zone"]])
        else:
            for n in net:
                hit |= groups[n] if n != "rbl" or kind == "dns all" else {"N_SND"}
    elif kind == "razor":
        f["plan"] = sim.pick("razorplan", [{"duration": None}, {"returncode": 2}, {"error": OSError(2, "no")},
                                           {"error": PermissionError(13, "no")}, {"epipe": True, "returncode": 1}, {"returncode": -9}])
        hit |= groups["razor"]
    elif kind == "pyzor":
        f["mode"] = sim.pick("pyzormode", ["timeout", "comm", "protocol", "incomplete", "gaierror", "oserror", "denied", "garbage"])
        hit |= groups["pyzor"]
    elif kind.startswith("db"):
        f["nth"] = sim.wpick("nth", [(sim.int("few", 1, 6), 70), (sim.int("many", 1, 30), 30)])
        f["stays"] = sim.chance("stays", 40)
        f["error"] = sim.pick("dberror", ["disk I/O error", "database or disk is full", "database is locked", "no such table: x"])
        hit |= groups.get("awl", set()) | groups.get("bayes", set())
    elif kind == "rule":
        f["key"] = sim.pick("ruleof", sorted(rules))
        f["label"] = "rule"
        hit.add(f["key"])
    else:
        path = sim.pick("class", classes)
        n = [x for x in names if (gen.FRAG[x].plugin if x in gen.FRAG else EXTRA[x][2]) == path][0]
        cls = find(path)
        if kind == "eval" and not cls.eval_rules:
            kind = f["kind"] = "hook"
        f["key"] = path
        f["label"] = "%s %s" % (kind, sim.pick("hookname", HOOKS) if kind == "hook" else
                                sim.pick("evalname", sorted(cls.eval_rules)))
        hit |= groups[n]
    if "label" in f:
        f["error"] = sim.pick("error", ERRORS)
        f["when"] = sim.pick("when", ["before", "after"])
        f["nth"] = sim.wpick("nthcall", [(1, 75), (2, 15), (3, 10)])
    f["rules"] = {r for r in deps if deps[r] & hit}
    return f


def run(sim):
    files, prefs, names, classes, accounts, deps = config(sim)
    script, facts = [], []
    if "bayes" in names:
        for k in range(4):
            body = b"Subject: train %d\r\nMessage-ID: <t%d@x>\r\n\r\n%s\r\n" % (
                k, k, b"buy viagra now money pills quickly spammy" if k % 2 else b"hello friend trains brown quick fox")
            script.append((H.make_request("TELL", body, None, headers=["Message-class: " + ("spam" if k % 2 else "ham"),
                                                                       "Set: local"]), []))
            facts.append(None)
    for k in range(sim.int("nmsgs", 2, 5)):
        msg = gen.message(sim)
        user = "ann" if sim.chance("user", 30) else None
        cmd = sim.wpick("cmd", [("SYMBOLS", 30), ("REPORT", 30), ("PROCESS", 15), ("HEADERS", 8), ("CHECK", 8), ("REPORT_IFSPAM", 9)])
        faults = []
        for dummy in range(sim.wpick("nfaults", [(1, 50), (2, 20), (3, 10), (0, 20)])):
            faults.append(make_fault(sim, names, classes, [r for r in accounts[user][0]], deps))
        script.append((H.make_request(cmd, msg, user), faults))
        facts.append((cmd, user, faults))
    ref = iso(sim, life, files, prefs, names, classes, script, False)
    got = iso(sim, life, files, prefs, names, classes, script, True)
    troubled = False
    good = False
    for k, fact in enumerate(facts):
        if fact is None:
            if not got[k][0] or b"DidSet" not in got[k][0]:
                raise Violation("no answer", "the training request is answered %r" % got[k][0])
            continue
        if fact[0] in PROBES:
            sim.probe(fact[0])
        a = judge(sim, k, ref[k], fact, names, accounts, [], files)
        fired = [fact[2][i] for i in got[k][1]]
        b = judge(sim, k, got[k], fact, names, accounts, fired, files)
        for f in fired:
            sim.probe("fault " + f["kind"])
            if f["kind"].startswith("db") or "awl" in f.get("key", "") or f.get("key") == "AWL":
                troubled = True
        if len(fired) > 1:
            sim.probe("two faults")
        if not fired:
            sim.probe("after" if any(f for f in facts[:k] if f and f[2]) else "all fine")
        if fact[1]:
            sim.probe("user")
        if a is None or b is None:
            continue
        affected = set().union(*[f["rules"] for f in fired])
        if troubled:
            affected.add("AWL")
        if a - affected != b - affected:
            raise Violation("other rules", "message %d (%s, user %s) meets %s; without that it matches %s, with it %s: the difference "
                            "%s does not depend on it\nconfiguration:\n%s" % (
                                k, fact[0], fact[1], [{x: f[x] for x in f if x != "rules"} for f in fired], sorted(a), sorted(b),
                                sorted((a ^ b) - affected), "\n".join(files[x] for x in sorted(files))))
        if fired and a - affected:
            sim.probe("unaffected rules matched")
            good = True
        if a != b:
            sim.probe("affected rule changed")
    return {"nontrivial": good, "sample": {"plugins": names, "requests": [
        (f[0], f[1], [repr({x: g[x] for x in g if x != "rules"}) for g in f[2]]) for f in facts if f]}}


def judge(sim, k, rec, fact, names, accounts, fired, files):
    """Complete and consistent?  -> the matched rules, None if the answer does not list them"""
    raw = rec[0]
    cmd, user, dummy = fact
    scores, required = accounts[user]

    def bad(kind, text):
        raise Violation(kind, "message %d (%s, user %s) meets %s: %s\nanswer %r\nscores %s\nconfiguration:\n%s" % (
            k, cmd, user, [{x: f[x] for x in f if x != "rules"} for f in fired], text, raw and raw[:1500],
            {r: scores[r] for r in sorted(scores)}, "\n".join(files[x] for x in sorted(files))))

    r = H.Response(raw, cmd)
    if r.problem or r.code != 0:
        bad("no verdict", "no complete answer (%s)" % r.problem)
    if float(r.required) != required:
        bad("verdict", "the required score is %s, not %s" % (r.required, required))
    sim.probe("spam" if r.spam else "ham")
    tests, delta, exact = None, 0.0, "awl" not in names
    text = r.body.decode("utf8", "replace")
    if cmd == "SYMBOLS":
        tests = r.symbols
    elif cmd == "REPORT" or cmd == "REPORT_IFSPAM" and r.spam:
        m = re.match(r"\s*T=(\S+) A=(\S+) P=(\S+)\r?\n\s*S=(\S+)\r?\n((?:.|\n)*)$", text)
        if not m:
            bad("no verdict", "the report is incomplete")
        tests = [] if m.group(1) == "none" else m.group(1).split(",")
        if "@@" not in m.group(2):
            delta = float(m.group(2))
        exact = exact or "@@" in m.group(2)
        listed = [] if m.group(4) == "none" else m.group(4).split(",")
        if {x.split("=")[0]: float(x.split("=")[1]) for x in listed} != {x: scores.get(x) for x in tests}:
            bad("report", "the rules with scores are given as %s" % m.group(4))
        summary = re.findall(r"(?m)^ *(-?[\d.]+) (\w+)(?: |$)", m.group(5).replace("\r", ""))
        want = [("%d" % scores[x] if scores[x] == int(scores[x]) else "%.1f" % scores[x], x) for x in tests]
        if summary != want and not set(want) <= set(summary):
            bad("report", "the summary lists %s, expected %s" % (summary, want))
    elif cmd == "REPORT_IFSPAM":
        if text.strip():
            bad("report", "a report for a message that is not spam")
    elif cmd in ("PROCESS", "HEADERS"):
        value = email.message_from_string(text)["X-Spam-T"]
        if value is None:
            bad("no verdict", "the header with the tests is missing")
        value = re.sub(r"\s", "", str(value))
        tests = [] if value == "none" else value.split(",")
        if cmd == "PROCESS" and len(text) < 10:
            bad("no verdict", "the message is missing")
    score = float(r.score)
    if tests is not None:
        if len(set(tests)) != len(tests):
            bad("verdict", "a rule is listed twice")
        for t in tests:
            if t not in scores:
                bad("verdict", "the unknown rule %s is listed" % t)
            if scores[t] == 0 or t.startswith("__"):
                bad("verdict", "%s is listed, which must not take part" % t)
        total = sum(scores[t] for t in tests)
        if "awl" not in names or cmd == "REPORT":
            if abs(score - total - delta) > (0.051 if exact else 0.11):
                bad("score", "the score is %s, the matched rules give %s (%+.1f by the whitelist)" % (r.score, total, delta))
        if exact:
            if r.spam != (total >= required):
                bad("score", "spam is %s with %s points, %s required" % (r.spam, total, required))
            if total == required:
                sim.probe("at the limit")
    if abs(score - required) > 0.051 and r.spam != (score >= required):
        bad("score", "spam is %s with the score %s, %s required" % (r.spam, r.score, required))
    return None if tests is None else set(tests)


def setup():
    H.preload()
