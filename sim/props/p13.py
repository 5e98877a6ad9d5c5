"""P13: learning and forgetting keep the token database consistent.

One to three daemons share one token database.  Messages are learnt as spam or ham, learnt again, learnt
as the other class, forgotten and checked, one after the other or at the same time, while database calls
fail, other processes hold the lock and daemons die inside a call.  After every round the tables are held
against what the set of learnt messages says they must be."""
import hashlib
import itertools
import re
import signal

from .. import gen
from .. import harness as H
from ..core import Violation, iso

QUICK_RUNS = 200
THOROUGH_RUNS = 9000
RULE = ("one run = 1-5 messages (plain ones of known words, and generated ones with any headers, parts and dates), each first "
        "learnt alone into an empty database, then 1-3 daemons on one database and 4-12 rounds of one operation or several at the "
        "same time (learn as spam, as ham, forget, check), with database failures, locks held by others and deaths inside database "
        "calls; non-trivial when a message was relearnt or forgotten, two operations ran at the same time or a fault hit")
REAL = ["oad.py main, oa.server, protocol, parser, message, ruleset", "oa.plugins.bayes, oa.db.bayes", "SQLAlchemy, SQLite (files, locks)"]
STUB = ["sockets, clock, file system root", "pymysql connections (variant without SQLAlchemy): the same statements on SQLite",
        "a site plugin calls forget_message() for messages marked with an ignored header (no command does)"]
ASSUMPTIONS = ["SQLite's own recovery is trusted: a process that dies loses what it had not committed",
               "an operation whose database call failed may have happened, not have happened, or, for a change of class, have "
               "forgotten the message only"]
PROBES = ["learnt spam", "learnt ham", "learnt again", "relearnt", "forgotten", "not learnt, ignored", "at the same time",
          "same message at the same time", "fault, not done", "fault, done", "fault, half done", "crash", "locked", "mysql",
          "user", "no message id", "generated message", "scan"]
WORDS = ["zorbel", "quantz", "mirabel", "fluxion", "garnet", "tropic", "velvet", "wombat", "crimson", "lantern"]
FORGETTER = '''
import oa.plugins.base
class Forgetter(oa.plugins.base.BasePlugin):
    eval_rules = ("check_forget",)
    def check_forget(self, msg, target=None):
        if msg.msg["X-Forget"]:
            bayes = self.ctxt.plugins["BayesPlugin"]
            bayes.forget_message(msg, msg.msgid)
        return False
'''
SCHEMA = """
CREATE TABLE bayes_expire (id INTEGER PRIMARY KEY, runtime INTEGER);
CREATE TABLE bayes_global_vars (variable VARCHAR(30) PRIMARY KEY, value VARCHAR(200));
CREATE TABLE bayes_seen (id INTEGER NOT NULL, msgid VARCHAR(200) NOT NULL, flag VARCHAR(1), PRIMARY KEY (id, msgid));
CREATE TABLE bayes_token (id INTEGER NOT NULL, token BLOB NOT NULL, spam_count INTEGER, ham_count INTEGER, atime INTEGER,
  PRIMARY KEY (id, token));
CREATE TABLE bayes_vars (id INTEGER PRIMARY KEY, username VARCHAR(200), spam_count INTEGER, ham_count INTEGER, token_count INTEGER,
  last_expire INTEGER, last_atime_delta INTEGER, last_expire_reduce INTEGER, oldest_token_age INTEGER DEFAULT 2147483647,
  newest_token_age INTEGER)
"""
DB = "/simfs/db/bayes.db"


def create(w):
    db = w.db(DB)
    for s in SCHEMA.split(";"):
        db.execute(s)
    db.commit()
    db.close()


def tables(w):
    """-> {message id: class}, {token: (spam, ham)}, (spam messages, ham messages)"""
    c = w.db(DB)
    seen = dict(c.execute("SELECT msgid, flag FROM bayes_seen").fetchall())
    n = c.execute("SELECT count(*) FROM bayes_seen").fetchone()[0]
    tokens = {}
    for t, s, h in c.execute("SELECT token, spam_count, ham_count FROM bayes_token").fetchall():
        if s or h:
            a, b = tokens.get(bytes(t), (0, 0))
            tokens[bytes(t)] = (a + s, b + h)
    rows = c.execute("SELECT spam_count, ham_count FROM bayes_vars").fetchall()
    c.close()
    if n != len(seen):
        raise Violation("seen twice", "a message is recorded twice as learnt: %s" % seen)
    return seen, tokens, (sum(x[0] for x in rows), sum(x[1] for x in rows))


def config(w, lines, prefs):
    w.write("/simfs/site/forgetter.py", FORGETTER)
    H.put_config(w, {"10.cf": "\n".join(lines) + "\n"})
    for u in prefs:
        H.put_user(w, u, prefs[u])


def alone(sim, mysql, lines, requests):
    """What each message leaves in an empty database."""
    if mysql:
        H.without_sqlalchemy()
    w = H.new_world(sim)
    create(w)
    config(w, lines, {})
    out = []
    for req in requests:
        d = H.Daemon(w).start()
        d.ask(req)
        out.append(tables(w))
        d.signal(signal.SIGTERM)
        sim.block(lambda: not d.alive, 60, "stopped")
        w.db_reap()
        c = w.db(DB)
        for t in ("seen", "token", "vars"):
            c.execute("DELETE FROM bayes_" + t)
        c.commit()
        c.close()
    H.finish(sim)
    return out


def life(sim, mysql, lines, prefs, ndaemons, rounds, weight):
    if mysql:
        H.without_sqlalchemy()
    w = H.new_world(sim)
    w.db_switch = weight
    create(w)
    config(w, lines, prefs)
    ds = [H.Daemon(w, name="oad%d" % k, port=783 + k).start() for k in range(ndaemons)]
    out = []
    for r in rounds:
        for d in ds:
            if not d.alive:
                d.start()
        hits = []
        calls = [0]
        fault = r["fault"]

        def plan(op, sql, conn):
            calls[0] += 1
            if fault and fault[0] == "call" and calls[0] in fault[1]:
                hits.append((sim.current.proc.name, calls[0], op, (sql or "")[:30]))
                if fault[2].startswith("crash"):
                    return fault[2]
                import sqlite3
                return sqlite3.OperationalError(fault[2])
            return None

        w.db_plan = plan
        w.db_connect_plan = None
        if fault and fault[0] == "connect":
            left = [fault[1]]

            def refuse():
                left[0] -= 1
                if left[0] == 0:
                    hits.append((sim.current.proc.name, 0))
                    return True
                return None
            w.db_connect_plan = refuse
        if fault and fault[0] == "lock":
            holder = w.db(DB)
            holder.isolation_level = None
            holder.execute("BEGIN IMMEDIATE")
            sim.fault("lock held by another")

            def release(h=holder):
                h.execute("ROLLBACK")
                h.close()
            sim.after(fault[1], release)
        conns = [(d, ds[d].send(req)) for d, req in r["sends"]]
        sim.block(lambda: all(c.closed or not ds[d].alive for d, c in conns), 3000, "round")
        w.db_plan = w.db_connect_plan = None
        sim.advance(1 if not (fault and fault[0] == "lock") else fault[1] + 1)
        w.db_reap()
        out.append(([bytes(c.out) if c.closed else None for d, c in conns], hits, tables(w), [d.alive for d in ds]))
    H.finish(sim)
    return out


def plain(sim, k):
    words = sim.subset("words", WORDS, 60) or ["zorbel"]
    head = ["From: %s" % sim.pick("from", ["Ann <ann@one.example>", "bob@two.example"]), "To: %s" % sim.pick("to", gen.PEOPLE)]
    if sim.chance("recv", 50):
        head.insert(0, "Received: from a.example (a.example [5.6.7.8]) by mx.local.example with ESMTP id A%d; %s" % (
            k, sim.pick("recvdate", ["Tue, 14 Nov 2023 20:00:00 +0000", "garbage", "Tue, 14 Nov 2033 20:00:00 +0000", "",
                                     "Fri, 31 Feb 2023 25:61:00 +0000"])))
    if sim.chance("subject", 70):
        head.append("Subject: %s" % sim.pick("subj", ["hello", "win e.g. now", "=?utf-8?b?w6nDqQ==?="]))
    lines = [" ".join(words)]
    if sim.chance("odd", 60):
        lines.append(sim.pick("oddv", ["see e.g this and a@b there", "www.clock-speed.net http://a.b.c/d", "caf\u00e9 na\u00efve",
                                       "x" * 60 + " " + "A1" * 10, "wait...... what -- ever", "\u3053\u3093\u306b\u3061\u306f\u4e16\u754c",
                                       "$31,000,000 now!!! f*ck", "a.b.c.d.e.f.g.h", "\x0c\x0b tab\tbed", "@@@ a@ @b .@."]))
    if sim.chance("twice", 30):
        lines.append(words[0] + " " + words[0].upper())
    return head, "\r\n".join(lines) + "\r\n", words


def run(sim):
    mysql = sim.chance("mysql", 25)
    lines = ["loadplugin oa.plugins.bayes.BayesPlugin", "loadplugin Forgetter /simfs/site/forgetter.py", "allow_user_rules 1",
             "body W_ZORBEL /zorbel/", "header FORGET eval:check_forget()", "bayes_ignore_headers X-Forget"]
    if mysql:
        sim.probe("mysql")
        lines += ["bayes_sql_dsn DBI:mysql:bayes:db.example.org", "bayes_sql_username u", "bayes_sql_password p"]
    else:
        lines.append("bayes_sql_dsn " + sim.pick("dsn", ["sqlite:////simfs/db/bayes.db", "DBI:SQLite:dbname=/simfs/db/bayes.db"]))
    scan = sim.chance("scan", 35)
    if scan:
        sim.probe("scan")
        lines += ["body BAYES_50 eval:check_bayes('0.4', '0.6')", "bayes_min_spam_num 1", "bayes_min_ham_num 1"]
    prefs = {"ann": "score W_ZORBEL 2\n"}
    msgs = []
    for k in range(sim.int("nmsgs", 1, 5)):
        mid = "<m%d.%d@x.example>" % (k, k * 7)
        if sim.chance("generated", 45):
            sim.probe("generated message")
            raw = gen.message(sim)
            raw = re.sub(rb"(?im)^message-id:.*\r?\n", b"", raw)
            raw = ("Message-ID: %s\r\n" % mid).encode() + raw
            words = None
        else:
            head, body, words = plain(sim, k)
            if sim.chance("noid", 20):
                sim.probe("no message id")
                head.append("Date: Tue, 14 Nov 2023 20:%02d:00 +0000" % k)
                mid = None
            else:
                head.append("Message-ID: " + mid)
            raw = ("\r\n".join(head) + "\r\n\r\n" + body).encode()
        msgs.append({"raw": raw, "words": words, "id": mid and mid.strip("<>")})

    def request(op, m, user):
        if op == "spam" or op == "ham":
            return H.make_request("TELL", m["raw"], user, headers=["Message-class: " + op, "Set: local"])
        if op == "forget":
            return H.make_request("CHECK", b"X-Forget: yes\r\n" + m["raw"], user)
        return H.make_request("CHECK", m["raw"], user)

    ref = iso(sim, alone, mysql, lines, [request("spam", m, None) for m in msgs])
    check_alone(sim, msgs, ref)
    ndaemons = sim.wpick("ndaemons", [(2, 50), (1, 25), (3, 25)])
    rounds = []
    for k in range(sim.int("nrounds", 4, 12)):
        n = 1 if ndaemons == 1 else sim.wpick("together", [(1, 50), (2, 35), (3, 15)])
        sends, ops = [], []
        for j in range(n):
            m = sim.choose("which message", len(msgs))
            if j and sim.chance("same", 50):
                m = ops[0][1]
            op = sim.wpick("op", [("spam", 34), ("ham", 30), ("forget", 26), ("check", 10)])
            user = "ann" if sim.chance("user", 25) else None
            if user:
                sim.probe("user")
            sends.append((j % ndaemons if n > 1 else sim.int("which", 0, ndaemons - 1), request(op, msgs[m], user)))
            ops.append((op, m))
        fault = None
        if sim.chance("fault", 40):
            kind = sim.wpick("faultkind", [("call", 74), ("connect", 8), ("lock", 18)])
            if kind == "call":
                fault = ("call", [sim.wpick("callno", [(sim.int("few", 1, 12), 50), (sim.int("many", 1, 80 * n), 50)])],
                         sim.pick("fate", ["disk I/O error", "database or disk is full", "crash before", "crash after",
                                           "crash before", "crash after"]))
            elif kind == "connect":
                fault = ("connect", sim.int("conno", 1, 2 * n))
            else:
                fault = ("lock", sim.pick("locktime", [1.0, 3.0, 4.9, 8.0, 20.0]))
        rounds.append({"sends": sends, "ops": ops, "fault": fault})
    # at last, faults have stopped: everything works again
    for m in range(len(msgs)):
        op = sim.pick("lastop", ["spam", "ham", "forget"])
        rounds.append({"sends": [(0, request(op, msgs[m], None))], "ops": [(op, m)], "fault": None})
    weight = sim.pick("weight", [30, 60, 10])
    got = iso(sim, life, mysql, lines, prefs, ndaemons, rounds, weight)
    state = {}
    interesting = False
    for k, (rec, r) in enumerate(zip(got, rounds)):
        if judge(sim, k, rec, r, msgs, state):
            interesting = True
    return {"nontrivial": interesting, "sample": {
        "mysql": mysql, "daemons": ndaemons, "messages": [m["raw"].decode("latin1")[:300] for m in msgs],
        "rounds": [(r["ops"], r["fault"]) for r in rounds]}}


def check_alone(sim, msgs, ref):
    for m, (seen, tokens, counts) in zip(msgs, ref):
        def bad(text):
            raise Violation("learning", "%s\nthe message %r learnt into an empty database: seen %s, messages %s, %d tokens" % (
                text, m["raw"], seen, counts, len(tokens)))
        if len(seen) != 1 or list(seen.values()) != ["s"] or counts != (1, 0):
            bad("the message was not learnt")
        mid = list(seen)[0]
        if m["id"] and mid != m["id"]:
            bad("it was learnt as %r" % mid)
        m["id"] = mid
        if set(tokens.values()) - {(1, 0)}:
            bad("a token was not counted once: %s" % sorted(tokens.values()))
        if m["words"]:
            for word in WORDS:
                if (hashlib.sha1(word.encode()).digest()[-5:] in tokens) != (word in m["words"]):
                    bad("the word %s is %s" % (word, "missing" if word in m["words"] else "counted though it is not there"))
        m["tokens"] = set(tokens)
    if len({m["id"] for m in msgs}) < len(msgs):
        raise Violation("learning", "two different messages are taken for one: %s" % [m["raw"] for m in msgs])


def outcome(op, st):
    """The class a message has after an operation."""
    return {"spam": "s", "ham": "h", "forget": None, "check": st}[op]


def half(op, st):
    """The states an operation that failed may leave."""
    out = {st, outcome(op, st)}
    if op in ("spam", "ham") and st not in (None, outcome(op, st)):
        out.add(None)
    return out


def judge(sim, k, rec, r, msgs, state):
    raws, hits, (seen, tokens, counts), alive = rec
    n = len(r["ops"])
    fault = r["fault"]
    interesting = False

    def bad(kind, text):
        raise Violation(kind, "round %d (%s; fault %s, hit %s): %s\nbefore %s\nafter  %s, messages %s\n%s" % (
            k, ["%s message %d on daemon %d" % (op, m, r["sends"][j][0]) for j, (op, m) in enumerate(r["ops"])], fault, hits, text,
            state, seen, counts, ["%d: %r" % (i, m["raw"]) for i, m in enumerate(msgs)]))

    crashed = bool(hits) and fault[0] == "call" and fault[2].startswith("crash")
    for raw, (op, m) in zip(raws, r["ops"]):
        if not raw:
            if not crashed:
                bad("no answer", "no answer without a crash")
            continue
        resp = H.Response(raw, "TELL" if op in ("spam", "ham") else "CHECK")
        if resp.problem or resp.code != 0:
            bad("no answer", "answered %r (%s)" % (raw, resp.problem))
    troubled = bool(hits) or bool(fault) and fault[0] == "lock" and fault[1] > 4
    extra = set(seen) - {m["id"] for m in msgs}
    if extra:
        bad("seen", "learnt under an unknown id: %s" % extra)
    for i, m in enumerate(msgs):
        ops = [op for op, x in r["ops"] if x == i]
        st = state.get(m["id"])
        allowed = {st}
        for order in itertools.permutations(ops):
            cur = {st}
            for op in order:
                cur = set().union(*((half(op, s) if troubled else {outcome(op, s)}) for s in cur))
            allowed |= cur
        if ops and not troubled:
            allowed = set()
            for order in itertools.permutations(ops):
                s = st
                for op in order:
                    s = outcome(op, s)
                allowed.add(s)
        new = seen.get(m["id"])
        if new not in allowed:
            bad("class", "message %d is now %r, expected one of %s" % (i, new, sorted(allowed, key=str)))
        if len(ops) == 1:
            full = outcome(ops[0], st)
            if troubled and full != st:
                sim.probe("fault, done" if new == full else "fault, not done" if new == st else "fault, half done")
            elif ops[0] in ("spam", "ham"):
                sim.probe("learnt again" if st == full else "relearnt" if st else "learnt " + ops[0])
                interesting |= bool(st)
            elif ops[0] == "forget":
                sim.probe("forgotten" if st else "not learnt, ignored")
                interesting |= bool(st)
        elif ops:
            sim.probe("same message at the same time")
    if n > 1:
        sim.probe("at the same time")
        interesting = True
    if crashed:
        sim.probe("crash")
    if fault and fault[0] == "lock":
        sim.probe("locked")
    # the tables are those of exactly this set of learnt messages
    want = {}
    for m in msgs:
        c = seen.get(m["id"])
        for t in m["tokens"] if c else ():
            a, b = want.get(t, (0, 0))
            want[t] = (a + (c == "s"), b + (c == "h"))
    total = (sum(1 for m in msgs if seen.get(m["id"]) == "s"), sum(1 for m in msgs if seen.get(m["id"]) == "h"))
    if counts != total:
        bad("messages", "%s spam and ham messages are counted, but %s are recorded as learnt" % (counts, total))
    if tokens != want:
        diff = {t.hex(): (tokens.get(t), want.get(t)) for t in set(tokens) | set(want) if tokens.get(t) != want.get(t)}
        bad("tokens", "%d of %d token counts differ from those of the learnt messages (counted, expected): %s" % (
            len(diff), len(want), sorted(diff.items())[:6]))
    state.clear()
    state.update(seen)
    return interesting or bool(hits)


def setup():
    H.preload()
