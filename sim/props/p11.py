"""P11: a report or revoke reaches every enabled reporter once, in the right direction.

One daemon (or a preforking one) with the reporting plugins that ship, the classifier and a few site plugins
that only record what they are told, or raise.  TELL requests with every class, target list, spelling and user,
mixed with requests that must not report anything, while programs, servers, the relay and the token database
fail in turn.  The programs run, the digests and mails sent, the records and the learnt messages of every
request are compared with what it asked for."""
import ast
import email.utils

from .. import gen
from .. import harness as H
from ..core import Violation, iso
from .p13 import DB, create

QUICK_RUNS = 330
THOROUGH_RUNS = 16000
RULE = ("one run = a set of reporters (Razor, Pyzor with 1-3 servers, SpamCop, the classifier, 0-3 site plugins, some learning "
        "locally, some raising) in some order, switches by site and user, 3-9 requests (TELL in every spelling, other commands) and, "
        "for each, failures of any of the reporters; non-trivial when a request reached several reporters although one failed")
REAL = ["oad.py main, oa.server, protocol (tell), context, parser, ruleset, message",
        "oa.plugins.razor2, pyzor, spam_cop, bayes, oa.db.bayes", "SQLAlchemy, SQLite (files)"]
STUB = ["razor programs, pyzor.client.BatchClient, smtplib.SMTP (each may fail at any step)", "sockets, clock, DNS servers",
        "file system root"]
ASSUMPTIONS = ["a classifier whose database failed may have learnt the message or not",
               "the direction of a remote report follows from Set or Remove, that of local learning under Set from the class"]
PROBES = ["set", "remove", "both", "local", "remote", "both targets", "no target", "unknown target", "spam", "ham", "default class",
          "odd spelling", "user", "razor failed", "pyzor failed", "spamcop failed", "bayes failed", "plugin raised", "razor off",
          "pyzor off", "spamcop off", "bayes off", "not allowed", "not TELL", "class changed", "again", "preforked", "body like a header",
          "compressed", "not asked to report"]
RECORDER = '''
import oa.plugins.base
class %(name)s(oa.plugins.base.BasePlugin):
    learns_locally = %(local)r
    def plugin_report(self, msg):
        self.ctxt.log.warning("RECORD %%r", ("%(name)s", "report", msg.msg["X-Number"]))
        %(raises)s
    def plugin_revoke(self, msg):
        self.ctxt.log.warning("RECORD %%r", ("%(name)s", "revoke", msg.msg["X-Number"]))
        %(raises)s
'''
RAISES = ["raise ValueError('broken')", "raise KeyError('x')", "raise OSError(5, 'I/O')", "1/0", "raise AttributeError('y')",
          "raise UnicodeError('z')", "raise RecursionError()", "raise MemoryError()", "raise StopIteration()"]
SERVERS = ["pz1.example:24441", "pz2.example:24442", "pz3.example:24441"]


def learnt(w):
    c = w.db(DB)
    rows = dict(c.execute("SELECT msgid, flag FROM bayes_seen").fetchall())
    c.close()
    return rows


def life(sim, site, lines, prefs, script, tell, workers):
    w = H.new_world(sim)
    gen.internet(w)
    w.db_switch = 0
    create(w)
    for name in sorted(site):
        w.write("/simfs/site/" + name, site[name])
    H.put_config(w, {"10.cf": "\n".join(lines) + "\n"})
    for u in sorted(prefs):
        H.put_user(w, u, prefs[u])
    w.seed_random(7)
    d = H.Daemon(w, ["--prefork", str(workers)] if workers else [], tell=tell)
    if workers:
        H.install_fork(w, d)
    d.start()
    out = []
    for req, plan in script:
        for prog in ("razor-report", "razor-revoke", "razor-check"):
            w.programs[prog] = lambda args: dict(plan["razor"])
        w.pyzor_plan = lambda server, op: plan["pyzor"].get(server, "ok")
        w.smtp_plan = lambda step, session: plan["smtp"][1] if plan["smtp"] and step == plan["smtp"][0] else "ok"
        calls = [0]

        def dbplan(op, sql, conn):
            calls[0] += 1
            if plan["db"] and calls[0] >= plan["db"]:
                import sqlite3
                return sqlite3.OperationalError("disk I/O error")
            return None
        w.db_plan = dbplan
        marks = len(w.children), len(w.externals), len(w.pyzor_log), len(w.smtp_sessions), len(w.logs)
        raw = d.ask(req)
        w.db_plan = None
        w.db_reap()
        sim.advance(1)
        out.append({
            "raw": raw, "children": [(c.args[0], c.input) for c in w.children[marks[0]:]],
            "execs": [e[e.index("exec") + 1] for e in w.externals[marks[1]:] if "exec" in e],
            "pyzor": [e[1:4] for e in w.pyzor_log[marks[2]:]],
            "smtp": [(s["host"], len(s["mails"])) for s in w.smtp_sessions[marks[3]:]],
            "records": [ast.literal_eval(t[7:]) for n, t in w.logs[marks[4]:] if t.startswith("RECORD ")],
            "seen": learnt(w), "dbfail": bool(plan["db"]) and calls[0] >= plan["db"]})
    alive = d.ask(H.make_request("SYMBOLS", b"Subject: x\r\n\r\nlast words\r\n"))
    H.finish(sim)
    return out, alive


def spell(sim, word):
    """The word in another spelling that means the same."""
    how = sim.wpick("spell", [("same", 60), ("upper", 15), ("title", 15), ("mixed", 10)])
    if how != "same":
        sim.probe("odd spelling")
    return {"same": word, "upper": word.upper(), "title": word.title(),
            "mixed": "".join(c.upper() if i % 2 else c for i, c in enumerate(word))}[how]


def targets(sim, label):
    names = sim.wpick(label, [(["local", "remote"], 34), (["remote"], 22), (["local"], 20), (["remote", "local"], 12), ([], 3),
                              (["file"], 3), (["remote", "remote"], 3), (["local", "remotely"], 3)])
    out = [spell(sim, n) for n in names]
    sep = sim.wpick("sep", [(", ", 50), (",", 20), (" ,", 10), (" , ", 10), (",\t", 10)])
    return set(names) & {"local", "remote"}, sep.join(out)


def run(sim):
    conf = {"razor": True, "pyzor": True, "spamcop": True, "bayes": True}
    servers = SERVERS[:sim.int("servers", 1, 3)]
    plugins = []
    if sim.chance("has razor", 85):
        plugins.append("loadplugin oa.plugins.razor2.Razor2Plugin")
    else:
        conf["razor"] = False
    if sim.chance("has pyzor", 85):
        plugins.append("loadplugin oa.plugins.pyzor.PyzorPlugin\npyzor_servers " + ",".join(servers))
    else:
        conf["pyzor"] = False
    if sim.chance("has spamcop", 80):
        plugins.append("loadplugin oa.plugins.spam_cop.SpamCopPlugin\nspamcop_to_address x@spamcop.example")
    else:
        conf["spamcop"] = False
    if sim.chance("has bayes", 85):
        plugins.append("loadplugin oa.plugins.bayes.BayesPlugin\nbayes_sql_dsn sqlite:////simfs/db/bayes.db")
    else:
        conf["bayes"] = False
    site, recorders = {}, []
    for k in range(sim.wpick("nrecorders", [(1, 35), (2, 35), (3, 20), (0, 10)])):
        rec = {"name": "Rec%d" % k, "local": sim.chance("local", 35), "raises": sim.pick("raises", RAISES)
               if sim.chance("does raise", 35) else "pass"}
        recorders.append(rec)
        site["rec%d.py" % k] = RECORDER % rec
        plugins.append("loadplugin Rec%d /simfs/site/rec%d.py" % (k, k))
    lines = sim.shuffled("order", plugins) + ["allow_user_rules 1", "body LAST /last words/", "trusted_networks 10.0.0.0/8"]

    def switches(c, percent):
        out = []
        for what, line in (("razor", "use_razor2 0"), ("pyzor", "use_pyzor 0"), ("spamcop", "dont_report_to_spamcop 1"),
                           ("bayes", "use_bayes 0")):
            if sim.chance("switch", percent):
                if c[what]:
                    out.append(line)
                c[what] = False
        return out

    lines += switches(conf, 6)
    ann = dict(conf)
    annlines = switches(ann, 30) + ["describe LAST mine"]
    tell = not sim.chance("notell", 8)
    workers = sim.wpick("workers", [(0, 85), (2, 15)])
    if workers:
        sim.probe("preforked")
    script, facts, msgs = [], [], []
    now = 1700000000
    for k in range(sim.int("nreq", 3, 9)):
        if msgs and sim.chance("again", 25):
            sim.probe("again")
            m = sim.pick("which", msgs)
        else:
            m = {"n": "%d" % k, "id": "m%d@x.example" % k}
            extra = "Set: remote\r\nMessage-class: spam\r\n" if sim.chance("like a header", 25) else ""
            if extra:
                sim.probe("body like a header")
            word = sim.pick("word", [u"buy", u"caf\xe9", u"\u20ac", u"z" * 9000])
            m["raw"] = ("Received: from a.example (a.example [203.0.113.9])\r\n\tby mx.local.example with ESMTP id %d; %s\r\n"
                        "From: x@spammy.example\r\nTo: user@local.example\r\nSubject: message %d\r\nX-Number: %d\r\n"
                        "Message-ID: <%s>\r\n%s\r\nbody %d %s\r\n" % (
                            k, email.utils.formatdate(now - 600), k, k, m["id"], extra, k, word)).encode("utf8")
            msgs.append(m)
        user = sim.wpick("user", [(None, 65), ("ann", 35)])
        f = {"m": m, "user": user, "set": None, "remove": None, "cmd": "TELL", "spam": True, "conf": ann if user else conf}
        headers = []
        if sim.chance("other command", 15):
            f["cmd"] = sim.pick("cmd", ["CHECK", "REPORT", "PROCESS", "SYMBOLS", "REPORT_IFSPAM", "HEADERS"])
            if sim.chance("stray", 60):
                headers = ["Set: local, remote", "Message-class: spam"]
        else:
            cls = sim.wpick("class", [("spam", 50), ("ham", 40), (None, 10)])
            if cls:
                f["spam"] = cls == "spam"
                headers.append("%s: %s" % (spell(sim, "message-class"), spell(sim, cls)))
            f["default"] = cls is None
            which = sim.wpick("action", [("set", 48), ("remove", 34), ("both", 15), ("none", 3)])
            for name in ("set", "remove"):
                if which in (name, "both"):
                    f[name], text = targets(sim, "targets")
                    f[name + "text"] = text
                    headers.append("%s:%s%s" % (spell(sim, name), sim.pick("blank", [" ", "", "  "]), text))
            headers = sim.shuffled("headers", headers)
        opts = {}
        data = m["raw"]
        if sim.chance("compress", 8):
            import zlib
            sim.probe("compressed")
            data = zlib.compress(data)
            headers.append("Compress: zlib")
        f["headers"] = headers
        plan = {"razor": {"returncode": 0}, "pyzor": {}, "smtp": None, "db": 0}
        if sim.chance("razor fails", 25):
            plan["razor"] = sim.pick("razorv", [{"duration": None}, {"returncode": 3}, {"error": OSError(2, "no")},
                                                {"error": PermissionError(13, "no")}, {"epipe": True, "returncode": 1}])
        for s in servers:
            if sim.chance("pyzor fails", 15):
                plan["pyzor"][s] = sim.pick("pyzorv", ["timeout", "comm", "protocol", "incomplete", "gaierror", "oserror"])
        if sim.chance("smtp fails", 25):
            plan["smtp"] = (sim.pick("step", ["connect", "helo", "mail"]),
                            sim.pick("how", ["refused", "gaierror", "disconnect", "response", "reset", "hang", "connect554"]))
        if sim.chance("db fails", 20):
            plan["db"] = sim.pick("dbcall", [1, 2, 3, 5, 8, 12])
        f["plan"] = plan
        facts.append(f)
        script.append((H.make_request(f["cmd"], data, user, headers=headers, **opts), plan))
    got, alive = iso(sim, life, site, lines, {"ann": "\n".join(annlines) + "\n"}, script, tell, workers)
    seen, good = {}, False
    for k, (rec, f) in enumerate(zip(got, facts)):
        good |= judge(sim, k, rec, f, recorders, servers, tell, seen, lines)
    r = H.Response(alive, "SYMBOLS")
    if r.problem or b"LAST" not in r.body:
        raise Violation("daemon", "after the requests the daemon answers %r" % alive)
    return {"nontrivial": good, "sample": {"configuration": lines, "site plugins": recorders, "requests": [
        (f["cmd"], f["headers"], f["user"], repr(f["plan"])) for f in facts]}}


def judge(sim, k, rec, f, recorders, servers, tell, seen, lines):
    plan, c, m = f["plan"], f["conf"], f["m"]

    def bad(kind, text):
        raise Violation(kind, "request %d (%s %s, user %s, failures %s): %s\nsite plugins %s, configuration:\n%s" % (
            k, f["cmd"], f["headers"], f["user"], plan, text, recorders, "\n".join(lines)))

    r = H.Response(rec["raw"], f["cmd"])
    steps = []
    if f["cmd"] != "TELL":
        sim.probe("not TELL")
    elif not tell:
        sim.probe("not allowed")
        if r.code in (0, None):
            bad("not allowed", "without --allow-tell the answer is %r" % rec["raw"])
    else:
        if r.problem or r.code != 0:
            bad("no answer", "answered %r (%s)" % (rec["raw"], r.problem))
        want = ""
        if f["set"] is not None:
            want += "DidSet: %s\r\n" % f["settext"].strip()
            steps.append(("report", f["set"]))
        if f["remove"] is not None:
            want += "DidRemove: %s\r\n" % f["removetext"].strip()
            steps.append(("revoke", f["remove"]))
        body = rec["raw"].decode("utf8").split("\r\n", 1)[1]
        if body.strip() != want.strip():
            bad("reply", "answered %r, expected %r" % (body, want))
        note(sim, f)
    if f["user"]:
        sim.probe("user")
    # what has to reach whom
    progs, digests, mails, records, cls = [], [], 0, [], []
    for direction, to in steps:
        if "remote" in to:
            if c["razor"]:
                progs.append("razor-" + direction)
            if c["pyzor"]:
                digests += [("report" if direction == "report" else "whitelist", s) for s in servers]
            if c["spamcop"] and direction == "report":
                mails += 1
        for x in recorders:
            if ("local" if x["local"] else "remote") in to:
                d = direction if not x["local"] or f["spam"] else "revoke"
                records.append((x["name"], d, m["n"]))
        if "local" in to and c["bayes"]:
            cls.append("s" if direction == "report" and f["spam"] else "h")
    for what, site_on, user_on in (("razor", "razor", "razor"), ("pyzor",) * 3, ("spamcop",) * 3, ("bayes",) * 3):
        if not c[what] and steps:
            sim.probe(what + " off")
    if rec["execs"] != progs:
        bad("razor", "the programs %s are run, expected %s" % (rec["execs"], progs))
    for name, data in rec["children"]:
        if data.replace(b"\r\n", b"\n") != m["raw"].replace(b"\r\n", b"\n"):
            bad("content", "%s is given %r instead of the message" % (name, data[:300]))
    if sorted(e[:2] for e in rec["pyzor"]) != sorted(digests):
        bad("pyzor", "digests are sent as %s, expected %s" % ([e[:2] for e in rec["pyzor"]], digests))
    if len(set(e[2] for e in rec["pyzor"])) > 1:
        bad("pyzor", "different digests are sent for one message")
    if len(rec["smtp"]) != mails:
        bad("spamcop", "%d sessions with the relay, expected %d" % (len(rec["smtp"]), mails))
    if mails and sum(x[1] for x in rec["smtp"]) != (0 if plan["smtp"] else mails):
        bad("spamcop", "%s mails are sent, expected %d" % (rec["smtp"], mails))
    if sorted(rec["records"]) != sorted(records):
        bad("plugins", "the site plugins record %s, expected %s" % (rec["records"], records))
    old = seen.get(m["id"])
    new = rec["seen"].get(m["id"])
    states = {old}
    for x in cls:
        states = {x} | (states | ({None} if old else set()) if rec["dbfail"] else set())
    if new not in states:
        bad("local", "the message was recorded as %r and is now as %r, expected %s" % (old, new, sorted(states, key=str)))
    if old and new and old != new:
        sim.probe("class changed")
    for i in set(seen) | set(rec["seen"]):
        if i != m["id"] and seen.get(i) != rec["seen"].get(i):
            bad("local", "another message, %s, is now recorded as %r" % (i, rec["seen"].get(i)))
    seen.clear()
    seen.update(rec["seen"])
    failed = set()
    if progs and plan["razor"] != {"returncode": 0}:
        failed.add("razor failed")
    if digests and plan["pyzor"]:
        failed.add("pyzor failed")
    if mails and plan["smtp"]:
        failed.add("spamcop failed")
    if cls and rec["dbfail"]:
        failed.add("bayes failed")
    if any(x["raises"] != "pass" for x in recorders if x["name"] in [y[0] for y in records]):
        failed.add("plugin raised")
    for x in sorted(failed):
        sim.probe(x)
    return bool(failed) and len(progs) + bool(digests) + mails + len(records) + bool(cls) > 1


def note(sim, f):
    s, v = f["set"], f["remove"]
    sim.probe("both" if s is not None and v is not None else "set" if s is not None else "remove" if v is not None else
              "not asked to report")
    for t in (s, v):
        if t is not None:
            sim.probe("both targets" if len(t) == 2 else min(t) if t else "no target")
    for name in ("settext", "removetext"):
        if "file" in f.get(name, "").lower() or "remotely" in f.get(name, "").lower():
            sim.probe("unknown target")
    sim.probe("default class" if f["default"] else "spam" if f["spam"] else "ham")


def setup():
    H.preload()
