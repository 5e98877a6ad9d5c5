"""P23: a request leaves nothing behind.

The same few requests come round after round, from senders, with words and for users the daemon has never seen,
while the servers, programs and databases around it fail and clients break off.  After each one no socket, file,
sub-process, thread, timer, mail session or transaction may be left, and what the daemon keeps in memory, as far as
it can be reached from its own objects, must not grow from round to round."""
import gc
import os
import re

from .. import gen, leaks
from .. import harness as H
from ..core import Violation, iso
from . import p08
from .p12 import SCHEMA as AWL
from .p13 import create as create_bayes

QUICK_RUNS = 110
THOROUGH_RUNS = 7000
ROUNDS = 7
RULE = ("one run = a deployment (2-8 groups of plugins, the database plugins on SQLAlchemy or MySQL connections, reporters), %d rounds "
        "of the same 2-4 requests with new senders, hosts, words and users, 0-2 faults for some of them, clients that break off, and "
        "reloads; non-trivial when a fault or a broken client was met in every round" % ROUNDS)
REAL = ["oad.py main, oa.server, protocol, socketserver's request loop, parser, context, rules, ruleset, message", "all plugins that ship",
        "SQLAlchemy, SQLite (files)", "dnspython stub resolver, pyspf, dkimpy"]
STUB = ["sockets, clock, file system root", "DNS servers, sub-processes, pyzor client, SMTP, pymysql connections (on SQLite)"]
ASSUMPTIONS = ["memory is what can be reached from the server object and the oa modules, weak references and caches with a maximum "
               "size excepted; memory inside the interpreter and other libraries' modules is not looked at",
               "it grows when every one of the last %d rounds adds to it" % (ROUNDS - 3),
               "what a timed out helper leaves may take 30 s to go"]
PROBES = ["fault " + k for k in p08.KINDS] + ["mysql", "reload", "reset", "silent", "garbage", "noread", "new users", "user", "TELL", "report",
                                             "smtp failed", "awl", "bayes", "razor", "pyzor", "new hosts", "new senders", "new words",
                                             "new header", "new addresses", "autolearn", "spamcop report"]


def fresh(raw, kinds, k):
    """The k-th variant of a message: the same shape, with names nobody has seen."""
    text = raw.decode("latin-1")
    if "senders" in kinds:
        text = re.sub(r"\b([a-z][a-z.]*)@", lambda m: "%s.k%04d@" % (m.group(1), k), text)
    if "hosts" in kinds:
        text = re.sub(r"\b((?:[a-z0-9-]+\.)+(?:example|com|org))\b", lambda m: "k%04d.%s" % (k, m.group(1)), text)
    if "addresses" in kinds:
        text = re.sub(r"\b(203\.0|198\.51)\.(\d+)\.(\d+)\b", lambda m: "%s.%d.%d" % (m.group(1), 10 + k // 100, 100 + k % 100), text)
    if "header" in kinds:
        text = "X-K%04d: k%04d\r\n" % (k, k) + text
    if "words" in kinds:
        text += "\r\nqz%04dish rk%04dable zorb%04d\r\n" % (k, k, k)
    return text.encode("latin-1")


def life(sim, mysql, files, prefs, names, classes, slots, kinds, reload_):
    import socketserver
    if mysql:
        H.without_sqlalchemy()
    w = H.new_world(sim)
    gen.internet(w)
    w.db_switch = 0
    w.seed_random(3)
    if "awl" in names:
        db = w.db("/simfs/db/awl.db")
        db.execute(AWL)
        db.commit()
        db.close()
    if "bayes" in names:
        create_bayes(w)
    p08.instrument(w, classes)
    H.put_config(w, files)
    for u in sorted(prefs):
        H.put_user(w, u, prefs[u])
    servers, files_, conns = [], [], []
    init = socketserver.BaseServer.__init__

    def register(self, *a, **kw):
        servers.append(self)
        init(self, *a, **kw)
    socketserver.BaseServer.__init__ = register

    def opened(vp, mode, f):
        files_.append((vp, f))
        return f
    w.open_wrap = opened
    # what is dropped but not closed counts as left behind: only the collections below find it
    gc.disable()
    d = H.Daemon(w).start()
    del files_[:]
    okprog = w.programs["razor-check"]
    k = ndb = kept = 0
    sizes = []
    before = after = None
    disturbed = 0

    def check(what):
        sim.block(lambda: not extra(), 30.0, "left over")
        bad = []
        if not d.alive:
            raise Violation("died", "%s: the daemon died: %s" % (what, d.error))
        for c in conns:
            if not c.closed or c.sock is None or c.sock._io_refs:
                bad.append("the connection of client %d" % c.n)
        bad += ["a thread or timer (%s)" % t.name for t in extra()]
        bad += ["the sub-process %s" % p.args[0] for p in w.children if p.returncode is None]
        bad += ["the file %s" % vp for vp, f in files_ if not f.closed]
        bad += ["a mail session with %s" % s.get("host") for s in w.smtp_sessions if s.get("open")]
        for c in w.db_conns:
            if c.in_transaction:
                bad.append("an open transaction")
        if bad:
            raise Violation("left behind", "%s leaves %s" % (what, ", ".join(bad)))
        if any("mail" in s["steps"] for s in w.smtp_sessions):
            sim.probe("spamcop report")
        del files_[:], w.children[:], w.smtp_sessions[:]

    def extra():
        return [t for t in sim.tasks if t.proc is d.proc and t is not d.task and not t.done]

    for rnd in range(ROUNDS):
        for n, (kind, cmd, raw, user, faults, how) in enumerate(slots):
            k += 1
            msg = raw if raw is None else fresh(raw, kinds, k)
            if user == "new":
                user = "k%04d" % k
            headers = ["Message-class: " + how["class"], how["tell"]] if cmd == "TELL" else []
            data = H.make_request(cmd, msg, user, headers=headers) if kind != "garbage" else how["bytes"]
            p08.arm(w, faults, okprog)
            w.smtp_plan = lambda step, session: how["smtp"][1] if how.get("smtp") and step == how["smtp"][0] else "ok"
            for prog in ("razor-report", "razor-revoke"):
                w.programs[prog] = lambda args: dict(how.get("razor") or {})
            c = w.connect(d.port)
            c.n = k
            conns[:] = [c]
            if kind == "reset":
                c.deliver(data[:how["at"] * len(data) // 100])
                if how["at"] == 100:
                    c.finish()
                    c.window = 3
                sim.after(1.0, c.abort)
                sim.fault("reset")
            elif kind == "silent":
                c.deliver(data[:how["at"] * len(data) // 101])
                sim.fault("client falls silent")
            else:
                if kind == "noread":
                    c.window = 1
                    sim.fault("client stops reading")
                c.deliver(data)
                c.finish()
            sim.block(lambda: c.closed or not d.alive, 3000.0, "closed")
            w.tripwires = []
            if w.fired or kind != "good":
                disturbed += 1
            for i in w.fired:
                sim.probe("fault " + faults[i]["kind"])
            w.db_plan = w.db_connect_plan = None
            check("request %d of round %d (%s %s, user %s%s)" % (n, rnd, kind, cmd, user, "".join(
                ", " + repr({x: f[x] for x in f if x != "rules"}) for f in faults)))
        del w.logs[:], w.opened[:]
        if reload_ == "every" or reload_ == "some" and rnd % 2:
            d.reload()
            d.settle()
            check("a reload")
        sim.advance(5)
        ndb += len(w.db_conns) - kept
        gc.collect()
        kept = len(w.db_conns)
        start = [("server%d" % i, s) for i, s in enumerate(servers)] + leaks.roots(("oa", "spoon"))
        before, after = after, ({} if rnd in (2, ROUNDS - 1) else None)
        if rnd == 2:
            first = after
        a, b = leaks.measure(start, ("oa", "spoon"), after)
        sizes.append((a, b, ndb, len(tree(w))))
        sim.event("size", *sizes[-1][2:])
    H.finish(sim)
    last = after
    grown = sorted(((last.get(p, 0) - first.get(p, 0), p) for p in last if last[p] > first.get(p, 0)), reverse=True)[:12]
    return sizes, grown, disturbed


def tree(w):
    out = []
    for base, dirs, names in os.walk(w.root):
        out += names
    return out


def run(sim):
    files, prefs, names, classes, accounts, deps = p08.config(sim)
    mysql = ("awl" in names or "bayes" in names) and sim.chance("mysql", 35)
    lines = []
    if mysql:
        sim.probe("mysql")
        for n, key in (("awl", "user_awl_dsn"), ("bayes", "bayes_sql_dsn")):
            if n in names:
                lines.append("%s DBI:mysql:%s:db.example.org" % (key, n))
    reporting = sim.chance("reporting", 35)
    report = [r for r in (("spam_cop.SpamCopPlugin", "spamcop"), ("razor2.Razor2Plugin", "razor"), ("pyzor.PyzorPlugin", "pyzor"))
              if reporting and r[1] == "spamcop" or sim.chance(r[1], 30)]
    for cls, n in report:
        sim.probe("report")
        if n not in names:
            lines.append("loadplugin oa.plugins." + cls)
    if any(n == "spamcop" for dummy, n in report):
        lines.append("spamcop_to_address x@spamcop.example")
    if "bayes" in names and sim.chance("auto", 50):
        sim.probe("autolearn")
        lines += ["loadplugin oa.plugins.auto_learn_threshold.AutoLearnThreshold", "bayes_auto_learn_threshold_spam 0.1",
                  "bayes_auto_learn_threshold_nonspam 0.05"]
    for n in names:
        if n in PROBES:
            sim.probe(n)
    files["99_zz.cf"] = "\n".join(lines) + "\n"
    kinds = [x for x in ("senders", "hosts", "addresses", "header", "words") if sim.chance("new " + x, 60)]
    for x in kinds:
        sim.probe("new " + x)
    slots = []
    for slot in range(sim.int("nslots", 2, 4)):
        kind = sim.wpick("client", [("good", 74), ("reset", 10), ("silent", 5), ("noread", 5), ("garbage", 6)])
        cmd = sim.wpick("cmd", [("SYMBOLS", 25), ("REPORT", 18), ("PROCESS", 20), ("TELL", 20), ("HEADERS", 5), ("CHECK", 5),
                                ("REPORT_IFSPAM", 5), ("PING", 2)])
        if reporting and not slot:
            kind, cmd = "good", "TELL"
        if kind != "good":
            sim.probe(kind)
        if cmd == "TELL":
            sim.probe("TELL")
        user = sim.wpick("user", [(None, 50), ("ann", 25), ("new", 25)])
        if user:
            sim.probe("user" if user == "ann" else "new users")
        raw = None if cmd == "PING" else gen.message(sim)
        if cmd == "TELL" and any(n == "spamcop" for dummy2, n in report) and sim.chance("recent", 85):
            raw = ("Received: from a.example (a.example [203.0.113.9]) by mx.local.example with ESMTP id 1; " + gen.date(
                sim.now - 300) + "\r\n").encode() + raw
        faults = []
        for dummy2 in range(sim.wpick("nfaults", [(0, 45), (1, 40), (2, 15)])):
            faults.append(p08.make_fault(sim, names, classes, [r for r in accounts[None][0]], deps))
        how = {"class": sim.pick("class", ["spam", "spam", "ham"]), "tell": sim.pick("tell", ["Set: local", "Set: local, remote", "Set: local, remote", "Set: remote",
                                                                                     "Remove: local, remote", "Remove: remote"]),
               "at": sim.pick("at", [0, 20, 70, 99, 100]),
               "bytes": sim.pick("garbage", [b"HELO x\r\n\r\n", b"", b"CHECK\r\n\r\n", b"CHECK SPAMC/1.2\r\nContent-length: x\r\n\r\nabc",
                                             b"CHECK SPAMC/1.2\r\nCompress: zlib\r\nContent-length: 3\r\n\r\nabc", b"\xff\xfe",
                                             b"TELL SPAMC/1.2\r\n\r\n", b"CHECK SPAMC/1.2\r\nContent-length: 90\r\n\r\nabc"])}
        if reporting and not slot:
            faults = []
            how.update({"class": "spam", "tell": "Set: local, remote"})
        if sim.chance("smtpfault", 60):
            sim.probe("smtp failed")
            how["smtp"] = (sim.pick("step", ["connect", "helo", "mail", "quit"]),
                           sim.pick("how", ["refused", "disconnect", "response", "reset", "hang", "connect554", "recipients", "helo"]))
        how["razor"] = sim.pick("razorhow", [{}, {"duration": None}, {"returncode": 2}, {"error": OSError(2, "no")}, {"epipe": True},
                                             {"duration": None, "stubborn": True}])
        slots.append((kind, cmd, raw, user, faults, how))
    reload_ = sim.wpick("reload", [(None, 60), ("every", 20), ("some", 20)])
    if reload_:
        sim.probe("reload")
    sizes, grown, disturbed = iso(sim, life, mysql, files, prefs, names, classes, slots, kinds, reload_, cpu=120)
    tail = sizes[2:]
    for i, (what, least) in enumerate((("items in containers", 1), ("characters in strings", 8), ("database connections", 1), ("files", 1))):
        if all(b[i] - a[i] >= least for a, b in zip(tail, tail[1:])):
            raise Violation("growth", "the %s the daemon keeps grow with every round of %s (new %s, reload %s): %s\n%s" % (
                what, [(s[0], s[1], s[3], [{x: f[x] for x in f if x != "rules"} for f in s[4]]) for s in slots], kinds, reload_,
                [s[i] for s in sizes], "\n".join("+%d %s" % g for g in grown)))
    return {"nontrivial": disturbed >= ROUNDS, "sample": {"plugins": names, "slots": [s[:2] + (s[3],) for s in slots], "sizes": sizes}}


def setup():
    H.preload()
