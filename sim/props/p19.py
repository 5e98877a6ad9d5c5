"""P19: the command line and the daemon judge a message alike.

The same configuration, preferences, messages and outages are given to the command line tool in one simulated
world and to a daemon in another.  What the tool prints must be what the daemon answers, message by message,
and when it reports or revokes, both must have told the same to the same services."""
import itertools
import re

from .. import gen
from .. import harness as H
from ..core import Violation, iso
from .p12 import SCHEMA as AWL
from .p13 import DB, create

QUICK_RUNS = 260
THOROUGH_RUNS = 12000
RULE = ("one run = a deployment (1-7 groups of plugins and rules, reporters, the whitelist and the classifier, report templates, added "
        "headers, report_safe 0-2, user preferences), 1-5 messages given as files, directories or on standard input, one mode of the "
        "tool, outages of DNS zones, programs, servers, relay and database; non-trivial when several messages matched rules or an "
        "external service was told something")
REAL = ["scripts/match.py main; oad.py main, oa.server, protocol", "parser, context, rules, ruleset, message, received parser",
        "all plugins that ship", "SQLAlchemy, SQLite (files)", "oa.dns_interface, dnspython stub resolver, pyspf, dkimpy"]
STUB = ["DNS servers, razor programs, pyzor.client.BatchClient, smtplib.SMTP", "sockets, clock, file system root",
        "standard input and output of the tool (bytes in memory)"]
ASSUMPTIONS = ["the tool ends every report and message it prints with a line break", "reports and revocations of the tool are those of "
               "TELL with both targets, spam for a report", "messages of one directory may be taken in any order"]
PROBES = ["mode report-only", "mode message", "mode test", "mode report", "mode revoke", "stdin", "file", "directory", "several files",
          "directory and files", "user", "no preferences", "not lazy", "spam", "ham", "not utf8", "crlf", "awl", "bayes", "outage",
          "told razor", "told pyzor", "told spamcop", "learnt", "bounce", "dash"]
REPORTERS = {"razor": "loadplugin oa.plugins.razor2.Razor2Plugin",
             "pyzor": "loadplugin oa.plugins.pyzor.PyzorPlugin\npyzor_servers pz1.example:24441,pz2.example:24442",
             "spamcop": "loadplugin oa.plugins.spam_cop.SpamCopPlugin\nspamcop_to_address x@spamcop.example",
             "bayes": "loadplugin oa.plugins.bayes.BayesPlugin\nbayes_sql_dsn sqlite:////simfs/db/bayes.db\n"
                      "bayes_min_spam_num 1\nbayes_min_ham_num 1\nbody BAYES_H eval:check_bayes('0.6','1.00')\n"
                      "body BAYES_L eval:check_bayes('0.00','0.4')",
             "awl": "loadplugin oa.plugins.awl.AutoWhiteListPlugin\nuser_awl_dsn sqlite:////simfs/db/awl.db\n"
                    "header AWL eval:check_from_in_auto_whitelist()\npriority AWL -1000"}
OUTAGES = {"razor": [{"duration": None}, {"returncode": 3}, {"error": OSError(2, "no")}],
           "pyzor": ["timeout", "comm", "protocol", "gaierror", "denied"],
           "spamcop": [("connect", "refused"), ("mail", "disconnect"), ("helo", "reset")],
           "dns": ["timeout", "servfail", "nxdomain", "garbage"],
           "db": [1, 3, 8]}


def world(sim, files, prefs, names, outages):
    w = H.new_world(sim)
    gen.internet(w)
    w.db_switch = 0
    w.seed_random(3)
    if "awl" in names:
        db = w.db("/simfs/db/awl.db")
        db.execute(AWL)
        db.commit()
        db.close()
    if "bayes" in names:
        create(w)
    H.put_config(w, files)
    for u in sorted(prefs):
        H.put_user(w, u, prefs[u])
    if "razor" in outages:
        for prog in ("razor-report", "razor-revoke", "razor-check"):
            w.programs[prog] = lambda args: dict(outages["razor"])
    else:
        for prog in ("razor-report", "razor-revoke"):
            w.programs[prog] = lambda args: {"returncode": 0}
    if "pyzor" in outages:
        w.pyzor_plan = lambda server, op: outages["pyzor"] if "pz2" in server else "ok"
    if "spamcop" in outages:
        w.smtp_plan = lambda step, session: outages["spamcop"][1] if step == outages["spamcop"][0] else "ok"
    if "dns" in outages:
        w.dns.mode = lambda name, qtype, server, nth: outages["dns"][1] if outages["dns"][0] in name else "ok"
    if "db" in outages:
        import sqlite3
        calls = [0]

        def dbplan(op, sql, conn):
            calls[0] += 1
            return sqlite3.OperationalError("disk I/O error") if calls[0] >= outages["db"] else None
        w.db_plan = dbplan
    return w


def effects(w, names):
    w.db_plan = None
    w.db_reap()
    out = {"programs": [(c.args[0], c.input) for c in w.children],
           "execs": [e[e.index("exec") + 1] for e in w.externals if "exec" in e],
           "pyzor": [e[1:4] for e in w.pyzor_log],
           "mails": [(s["host"], s["port"], [str(m)[:0] for m in s["mails"]]) for s in w.smtp_sessions]}
    if "bayes" in names:
        c = w.db(DB)
        out["tokens"] = sorted(map(repr, c.execute("SELECT token, spam_count, ham_count FROM bayes_token").fetchall()))
        out["seen"] = sorted(c.execute("SELECT msgid, flag FROM bayes_seen").fetchall())
        c.close()
    if "awl" in names:
        c = w.db("/simfs/db/awl.db")
        out["history"] = sorted(c.execute("SELECT email, ip, count, totscore, signedby FROM awl").fetchall())
        c.close()
    return out


def by_tool(sim, files, prefs, names, outages, msgs, argv, places, stdin):
    w = world(sim, files, prefs, names, outages)
    for p, k in places:
        w.write(p, msgs[k])
    if not [n for n in names if n in ("awl", "bayes")]:
        w.list_order = lambda vp, x: sim.shuffled("listing", x) if "/msgs" in vp else x
    out = H.tool(w, argv, stdin)
    H.finish(sim)
    return out, effects(w, names)


def by_daemon(sim, files, prefs, names, outages, requests):
    w = world(sim, files, prefs, names, outages)
    d = H.Daemon(w).start()
    out = []
    for group in requests:
        out.append([d.ask(r) for r in group])
    H.finish(sim)
    return out, effects(w, names)


def config(sim):
    pool = [f.name for f in gen.FRAGS if f.name not in ("plain", "razor", "pyzor")]
    names = ["plain"] + sim.shuffled("frags", pool)[:sim.int("nfrags", 0, 5)]
    files, dummy = gen.config(sim, names, keep=80)
    lines = []
    for n in sorted(REPORTERS):
        if sim.chance("has " + n, 30):
            names.append(n)
            lines.append(REPORTERS[n])
    if "razor" in names and sim.chance("razor rule", 60):
        lines.append("\n".join(gen.FRAG["razor"].rules))
    if "pyzor" in names and sim.chance("pyzor rule", 60):
        lines.append("\n".join(gen.FRAG["pyzor"].rules))
    lines += ["report_safe %d" % sim.choose("report_safe", 3), "required_score %s" % sim.pick("required", [1.0, 2.5, 5.0]),
              "allow_user_rules 1", "dns_available yes"]
    if sim.chance("tmpl", 50):
        lines += ["clear_report_template", "report got _SCORE_ of _REQD_ for _TESTSSCORES_", "report _REPORT_", "report _SUMMARY_"]
    files["99_z.cf"] = "\n".join(lines) + "\n"
    user = gen.user_lines(sim, [n for n in names if n in gen.FRAG])
    return files, user, names


def run(sim):
    files, userlines, names = config(sim)
    user = "ann" if sim.chance("user", 50) else None
    sim.probe("user" if user else "no preferences")
    prefs = {"ann": userlines} if user else {}
    mode = sim.wpick("mode", [("report-only", 25), ("message", 30), ("test", 12), ("report", 20), ("revoke", 13)])
    if mode in ("report", "revoke") and not {"razor", "pyzor", "spamcop", "bayes"} & set(names):
        mode = "message"
    if mode == "test":
        for n in ("awl", "bayes"):
            if n in names:
                mode = "message"
    sim.probe("mode " + mode)
    for n in ("awl", "bayes"):
        if n in names:
            sim.probe(n)
    outages = {}
    for what, percent in (("dns", 20), ("razor", 20), ("pyzor", 20), ("spamcop", 20), ("db", 8)):
        if (what in names or what == "dns" or what == "db" and mode not in ("report", "revoke")) and sim.chance("outage", percent):
            sim.probe("outage")
            x = sim.pick("how", OUTAGES[what])
            outages[what] = (sim.pick("zone", ["bl.example", "multi.example", "dbl.example", "signer.example"]), x) if what == "dns" else x
    msgs = []
    for k in range(sim.wpick("nmsgs", [(1, 30), (2, 30), (3, 25), (5, 15)])):
        extra = ["Date: Tue, 14 Nov 2023 10:00:00 +0000"] if mode == "report" and sim.chance("fresh", 60) else []
        m = b"Message-ID: <n%d@x.example>\r\nX-Filler: x\r\n" % k + gen.message(sim, extra=extra)
        if sim.chance("lf", 30):
            m = m.replace(b"\r\n", b"\n")
        else:
            sim.probe("crlf")
        try:
            m.decode("utf8")
        except UnicodeDecodeError:
            sim.probe("not utf8")
        msgs.append(m)
    argv = ["-C", H.CONF, "-S", H.SITE] + sim.pick("prefs", [["-p", "/home/ann/.spamassassin/user_prefs"],
                                                             ["--prefs-file", "/home/ann/.spamassassin/user_prefs"]])
    if sim.chance("lazy", 25):
        sim.probe("not lazy")
        argv.append("-dl")
    argv += {"report-only": [sim.pick("spelling", ["-R", "--report-only"])], "message": [], "test": ["-t"],
             "report": ["--report"], "revoke": ["-k"]}[mode]
    # where the messages are
    places, order, stdin = [], [], b""
    how = sim.wpick("how", [("stdin", 25 if len(msgs) == 1 else 0), ("dash", 8 if len(msgs) == 1 else 0), ("files", 45),
                            ("directory", 30), ("mixed", 15 if len(msgs) > 2 else 0)])
    if how in ("stdin", "dash"):
        sim.probe(how)
        stdin = msgs[0]
        order = [[0]]
        argv += ["-"] if how == "dash" else []
    else:
        group = list(range(len(msgs)))
        nfiles = {"files": len(msgs), "directory": 0, "mixed": 1}[how]
        sim.probe({"files": "several files" if len(msgs) > 1 else "file", "directory": "directory", "mixed": "directory and files"}[how])
        for k in group[:nfiles]:
            places.append(("/simfs/mail/one%d" % k, k))
            argv.append(places[-1][0])
            order.append([k])
        if group[nfiles:]:
            for k in group[nfiles:]:
                places.append(("/simfs/mail/msgs/m%d" % k, k))
            argv.append("/simfs/mail/msgs" + sim.pick("slash", ["", "/"]))
            order.append(group[nfiles:])
    cmds = {"report-only": ["REPORT"], "message": ["PROCESS"], "test": ["PROCESS", "REPORT"]}.get(mode, ["TELL"])
    headers = {"report": ["Message-class: spam", "Set: local, remote"], "revoke": ["Message-class: ham", "Remove: local, remote"]}
    requests = [[H.make_request(c, m, user, headers=headers.get(mode, [])) for c in cmds] for m in msgs]
    (printed, code, error), e1 = iso(sim, by_tool, files, prefs, names, outages, msgs, argv, places, stdin)
    answers, e2 = iso(sim, by_daemon, files, prefs, names, outages, requests)

    def bad(kind, text):
        raise Violation(kind, "match %s, outages %s: %s\nmessages %r\nconfiguration:\n%s\npreferences:\n%s" % (
            " ".join(argv), outages, text, [m[:400] for m in msgs], "\n".join(files[x] for x in sorted(files)), userlines if user else None))

    if error or code:
        bad("died", "the tool ends with status %s: %s, having printed %r" % (code, error, printed[-300:]))
    want = []
    matched = 0
    for group, m in zip(answers, msgs):
        parts = []
        for raw, cmd in zip(group, cmds):
            r = H.Response(raw, cmd)
            if r.problem or r.code != 0:
                bad("daemon", "the daemon answers %s with %r" % (cmd, raw))
            if r.spam is not None:
                sim.probe("spam" if r.spam else "ham")
                matched += float(r.score) != 0
            if b"before OrangeAssassin" in r.body:
                sim.probe("bounce")
            parts.append(r.body + b"\n")
        want.append(normal(b"".join(parts)))
    if mode in ("report", "revoke"):
        if printed != b"%d message(s) examined\n" % len(msgs):
            bad("count", "the tool prints %r for %d messages" % (printed, len(msgs)))
    else:
        got = normal(printed)
        perms = [list(itertools.permutations(g)) for g in order]
        if [n for n in names if n in ("awl", "bayes")] or max(len(g) for g in order) > 4:
            perms = [[tuple(g)] for g in order]
        if len(order) == 1 and len(order[0]) > 4 and sorted(got) == sorted(b"".join(want)):
            pass                       # too many orders to try
        elif not any(b"".join(want[k] for g in p for k in g) == got for p in itertools.product(*perms)):
            bad("printed", "the tool prints\n%r\nthe daemon answers\n%r" % (got, want))
    keys = sorted(e1) if mode != "test" else []        # (two requests for each)
    for x in keys:
        a, b = e1[x], e2[x]
        if max(len(g) for g in order) > 1:
            a, b = sorted(map(repr, a)), sorted(map(repr, b))
        if a != b:
            bad("told", "%s: the tool leaves %r\nthe daemon %r" % (x, a, b))
    told = False
    if mode in ("report", "revoke"):
        for x, label in (("execs", "told razor"), ("pyzor", "told pyzor"), ("mails", "told spamcop"), ("seen", "learnt")):
            if e1.get(x):
                told = True
                sim.probe(label)
    return {"nontrivial": told or matched > 1, "sample": {"argv": argv, "plugins": names, "outages": {k: repr(v) for k, v in outages.items()}}}


WHEN = re.compile(br"(with OrangeAssassin \(version [^)]*\); )[^\n]*")
DATE = re.compile(br"(?m)^(Date: )[A-Z][a-z][a-z], .*$")


def normal(data):
    """Without boundaries, and without the time of a bounce."""
    return DATE.sub(br"\1now", WHEN.sub(br"\1now", H.normalise(data)))


def setup():
    H.preload()
    import scripts.match  # noqa
