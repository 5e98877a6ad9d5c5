"""P12: the automatic whitelist keeps an exact history per sender.

One to three daemons share one history database.  Messages of a few senders are checked one after
the other or at the same time, while database calls fail, other processes hold the lock and daemons
die inside a call.  The table is read before and after every round and held against a model."""
import ipaddress
import itertools
import re

from .. import gen
from .. import harness as H
from ..core import Violation, iso

QUICK_RUNS = 300
THOROUGH_RUNS = 16000
RULE = ("one run = 1-3 daemons on one database, a factor and address masks, 4-12 rounds of one message or of several at "
        "the same time (sender, relay, signature, user and score vary), with database failures, locks held by others and "
        "deaths inside database calls; non-trivial when two daemons counted one sender at the same time or a fault hit")
REAL = ["oad.py main, oa.server, protocol, parser, ruleset", "oa.plugins.awl, base", "SQLAlchemy, SQLite (files, locks)"]
STUB = ["sockets, clock, file system root", "pymysql connections (variant without SQLAlchemy): the same statements on SQLite"]
ASSUMPTIONS = ["one rule per ruleset uses the automatic whitelist, with a priority after all the others",
               "SQLite's own recovery is trusted: a process that dies loses what it had not committed",
               "a message whose database call failed may have been counted or not, once"]
PROBES = ["first message", "adjusted", "mean zero", "at the same time", "same sender at the same time", "entry taken over",
          "user", "fault, not counted", "crash, counted", "crash, not counted", "locked", "mysql", "ipv6", "signed"]
SENDERS = ["ann@one.example", "bob@one.example", "ann@two.example"]
RELAYS = ["5.6.7.8", "5.6.99.1", "5.7.0.1", "8.8.8.8", "2001:4860::5", "2001:4860:1::5", "10.1.2.3", None]
SCORES = [("alpha", 1.0), ("beta", 4.0), ("gamma", -2.0), ("delta", 16.0), ("omega", -3.0)]
SCHEMA = ("CREATE TABLE awl (username varchar(255) NOT NULL DEFAULT '', email varchar(200) NOT NULL DEFAULT '', "
          "ip varchar(40) NOT NULL DEFAULT '', count int(11) NOT NULL DEFAULT '0', totscore float NOT NULL DEFAULT '0', "
          "signedby varchar(255) NOT NULL DEFAULT '', PRIMARY KEY (username, email, signedby, ip))")


def life(sim, mysql, lines, prefs, ndaemons, rounds, rows, weight):
    if mysql:
        H.without_sqlalchemy()
    w = H.new_world(sim)
    w.db_switch = weight
    db = w.db("/simfs/db/awl.db")
    db.execute(SCHEMA)
    for row in rows:
        db.execute("INSERT INTO awl (username, email, ip, count, totscore, signedby) VALUES (?,?,?,?,?,?)", row)
    db.commit()
    db.close()

    def table():
        c = w.db("/simfs/db/awl.db")
        r = sorted(c.execute("SELECT username, email, ip, signedby, count, totscore FROM awl").fetchall())
        c.close()
        return r

    H.put_config(w, {"10.cf": "\n".join(lines) + "\n"})
    for u in prefs:
        H.put_user(w, u, prefs[u])
    ds = [H.Daemon(w, name="oad%d" % k, port=783 + k).start() for k in range(ndaemons)]
    out = []
    for r in rounds:
        for d in ds:
            if not d.alive:
                d.start()
        hits = []
        calls = [0]
        fault = r["fault"]

        def plan(op, sql, conn):
            calls[0] += 1
            if fault and fault[0] == "call" and calls[0] in fault[1]:
                hits.append((sim.current.proc.name, calls[0]))
                if fault[2].startswith("crash"):
                    return fault[2]
                import sqlite3
                return sqlite3.OperationalError(fault[2])
            return None

        w.db_plan = plan
        w.db_connect_plan = None
        if fault and fault[0] == "connect":
            left = [fault[1]]

            def refuse():
                left[0] -= 1
                if left[0] == 0:
                    hits.append((sim.current.proc.name, 0))
                    return True
                return None
            w.db_connect_plan = refuse
        holder = None
        if fault and fault[0] == "lock":
            holder = w.db("/simfs/db/awl.db")
            holder.isolation_level = None
            holder.execute("BEGIN IMMEDIATE")
            sim.fault("lock held by another")

            def release(h=holder):
                h.execute("ROLLBACK")
                h.close()
            sim.after(fault[1], release)
        before = table()
        conns = [(d, ds[d].send(req)) for d, req in r["sends"]]
        sim.block(lambda: all(c.closed or not ds[d].alive for d, c in conns), 3000, "round")
        w.db_plan = w.db_connect_plan = None
        sim.advance(1 if not holder else fault[1] + 1)
        w.db_reap()
        out.append((before, [(bytes(c.out) if c.closed else None) for d, c in conns], hits, table(),
                    [d.alive for d in ds]))
    H.finish(sim)
    return out


def netkey(ip, conf):
    """The network a relay belongs to, as stored."""
    if ip is None:
        return "none"
    a = ipaddress.ip_address(ip)
    if a.is_private:
        return "none"
    n = ipaddress.ip_network("%s/%d" % (ip, conf["v4" if a.version == 4 else "v6"]), strict=False)
    return re.sub(r"(\.0){1,3}$", "", str(n.network_address))


def run(sim):
    mysql = sim.chance("mysql", 25)
    conf = {"factor": 0.5, "v4": 16, "v6": 48}
    lines = ["loadplugin oa.plugins.awl.AutoWhiteListPlugin", "allow_user_rules 1",
             "header AWL eval:check_from_in_auto_whitelist()", "priority AWL -1000",
             "report P=_AWLPRESCORE_ M=_AWLMEAN_ C=_AWLCOUNT_ T=_TESTS_", "trusted_networks 10.0.0.0/8"]
    for word, score in SCORES:
        lines += ["body B_%s /%s/" % (word.upper(), word), "score B_%s %s" % (word.upper(), score)]
    if mysql:
        sim.probe("mysql")
        lines += ["user_awl_dsn DBI:mysql:awl:db.example.org", "user_awl_sql_username u", "user_awl_sql_password p"]
    else:
        lines.append("user_awl_dsn " + sim.pick("dsn", ["sqlite:////simfs/db/awl.db", "DBI:SQLite:dbname=/simfs/db/awl.db"]))
    if sim.chance("factor", 60):
        conf["factor"] = sim.pick("factorv", [1.0, 0.25, 0.0])
        lines.append("auto_whitelist_factor %s" % conf["factor"])
    if sim.chance("v4", 30):
        conf["v4"] = sim.pick("v4v", [24, 32, 8])
        lines.append("auto_whitelist_ipv4_mask_len %d" % conf["v4"])
    if sim.chance("v6", 25):
        conf["v6"] = sim.pick("v6v", [32, 64])
        lines.append("auto_whitelist_ipv6_mask_len %d" % conf["v6"])
    prefs = {"ann": "score B_ALPHA 2\n", "bea": "auto_whitelist_factor 0.75\n"}
    site_user = "simuser"
    ndaemons = sim.wpick("ndaemons", [(2, 50), (1, 25), (3, 25)])
    rows = []
    if sim.chance("none rows", 30):
        rows.append((site_user, sim.pick("noner", SENDERS), "none", 2, sim.pick("nonet", [10.0, -4.0, 0.0]), ""))
    rows.append(("someone", SENDERS[0], "5.6", 3, 30.0, ""))
    senders = SENDERS[:sim.int("nsenders", 1, 3)]
    relays = [sim.pick("relays", RELAYS) for dummy in range(sim.int("nrelays", 1, 3))]
    if sim.chance("one relay", 40):
        relays = ["5.6.7.8"]
    signers = [""] + (["one.example"] if sim.chance("signed", 35) else [])
    rounds, facts = [], []
    for k in range(sim.int("nrounds", 4, 12)):
        n = 1 if ndaemons == 1 else sim.wpick("together", [(1, 45), (2, 35), (3, 20)])
        sends, fact = [], []
        for j in range(n):
            words = [x for x in SCORES if sim.chance("word", 40)]
            user = sim.wpick("user", [(None, 75), ("ann", 15), ("bea", 10)])
            f = {"email": sim.pick("sender", senders), "ip": sim.pick("relay", relays), "signed": sim.pick("sig", signers),
                 "user": user or site_user, "factor": 0.75 if user == "bea" else conf["factor"],
                 "score": sum(2.0 if user == "ann" and x[0] == "alpha" else x[1] for x in words)}
            f["net"] = netkey(f["ip"], conf)
            head = []
            if f["ip"]:
                head.append("Received: from a.example (a.example [%s])\r\n\tby mx.local.example (Postfix) with ESMTP id "
                            "A%d%d; Tue, 14 Nov 2023 20:00:00 +0000" % (f["ip"], k, j))
            if f["signed"]:
                sim.probe("signed")
                head.append("DKIM-Signature: v=1; a=rsa-sha256; d=%s; s=sel; h=from; bh=AAAA; b=AAAA" % f["signed"])
            head += ["From: %s" % sim.pick("fromform", ["%s", "Name <%s>"]) % f["email"], "Subject: m%d%d" % (k, j)]
            body = " ".join(x[0] for x in words) or "nothing"
            req = H.make_request("REPORT", ("\r\n".join(head) + "\r\n\r\n" + body + "\r\n").encode(), user)
            sends.append((j % ndaemons if n > 1 else sim.int("which", 0, ndaemons - 1), req))
            fact.append(f)
        fault = None
        if sim.chance("fault", 35):
            kind = sim.wpick("faultkind", [("call", 70), ("connect", 12), ("lock", 18)])
            if kind == "call":
                fault = ("call", [sim.int("callno", 1, 9 * n)], sim.pick("fate", [
                    "disk I/O error", "database or disk is full", "crash before", "crash after", "crash before", "crash after"]))
            elif kind == "connect":
                fault = ("connect", sim.int("conno", 1, 2 * n))
            else:
                fault = ("lock", sim.pick("locktime", [1.0, 3.0, 4.9, 8.0, 20.0]))
        rounds.append({"sends": sends, "fault": fault})
        facts.append(fact)
    weight = sim.pick("weight", [30, 60, 10])
    got = iso(sim, life, mysql, lines, prefs, ndaemons, rounds, rows, weight)
    interesting = False
    for k, (rec, r, fact) in enumerate(zip(got, rounds, facts)):
        if judge(sim, k, rec, r, fact):
            interesting = True
    return {"nontrivial": interesting, "sample": {"mysql": mysql, "daemons": ndaemons, "settings": conf, "rounds": [
        ([(f["email"], f["net"], f["signed"], f["user"], f["score"]) for f in fact], r["fault"])
        for r, fact in zip(rounds, facts)]}}


def ident(row):
    return row[0], row[1], row[3], row[2]


def judge(sim, k, rec, r, fact):
    before, raws, hits, after, alive = rec
    n = len(fact)
    what = "round %d (%s; fault %s, hit %s)" % (k, ["%s %s %s, relay %s, user %s, score %s" % (
        r["sends"][j][0], f["email"], f["signed"] or "unsigned", f["ip"], f["user"], f["score"])
        for j, f in enumerate(fact)], r["fault"], hits)

    def bad(kind, text):
        raise Violation(kind, "%s: %s\nbefore %s\nafter  %s" % (what, text, before, after))

    fault = r["fault"]
    crashed = bool(hits) and fault[0] == "call" and fault[2].startswith("crash")
    b = {ident(x): (x[4], x[5]) for x in before if x[4]}
    a = {ident(x): (x[4], x[5]) for x in after if x[4]}
    if n > 1:
        sim.probe("at the same time")
    # what each message must or may have done
    status = []
    for f, raw in zip(fact, raws):
        f["key"] = (f["user"], f["email"], f["signed"], f["net"])
        f["none"] = (f["user"], f["email"], f["signed"], "none")
        if not raw:
            if not crashed:
                bad("no answer", "no answer without a crash")
            status.append("maybe")
            continue
        resp = H.Response(raw, "REPORT")
        if resp.problem or resp.code != 0:
            bad("no verdict", "answered %r (%s)" % (raw, resp.problem))
        f["resp"] = resp
        status.append("maybe" if (hits and not crashed) or (fault and fault[0] == "lock" and fault[1] > 4) else "yes")
        if f["user"] in ("ann", "bea"):
            sim.probe("user")
        if f["ip"] and ":" in f["ip"]:
            sim.probe("ipv6")
    mixed = any(f["net"] != "none" and (f["none"] in b or any(g["key"] == f["none"] for g in fact)) for f in fact)
    # the table: some set of the uncertain messages makes it right
    sure = [f for f, s in zip(fact, status) if s == "yes"]
    unsure = [f for f, s in zip(fact, status) if s == "maybe"]
    fits = None
    for m in range(len(unsure) + 1):
        for extra in itertools.combinations(unsure, m):
            for order in itertools.permutations(sure + list(extra)) if mixed else [sure + list(extra)]:
                t = dict(b)
                for f in order:
                    if f["net"] != "none" and f["key"] not in t and f["none"] in t:
                        t[f["key"]] = t.pop(f["none"])
                    c, tot = t.get(f["key"], (0, 0.0))
                    t[f["key"]] = (c + 1, tot + f["score"])
                if same(t, a):
                    fits = extra, order
            if fits is None and mixed and same(group(counted(b, sure + list(extra))), group(a)) and n > 1:
                fits = extra, None
            # an entry may have been taken over by a message that was then not counted
            if fits is None and unsure and mixed and same(group(counted(b, sure + list(extra))), group(a)):
                fits = extra, None
    if fits is None:
        bad("history", "the table is not what counting each message exactly once gives")
    if hits or fault and fault[0] == "lock":
        lost = [f for f in unsure if f not in fits[0]]
        if crashed:
            sim.probe("crash, not counted" if lost else "crash, counted")
        elif lost:
            sim.probe("fault, not counted")
        if fault[0] == "lock":
            sim.probe("locked")
    if mixed and fits[1] is not None and any(f["net"] != "none" and f["none"] in b for f in fact):
        sim.probe("entry taken over")
    # the adjustments
    for j, f in enumerate(fact):
        if not raws[j]:
            continue
        text = f["resp"].body.decode("utf8", "replace")
        others = [g for i, g in enumerate(fact) if i != j]
        means = set()
        for m in range(len(others) + 1):
            for first in itertools.permutations(others, m):
                t = dict(b)
                for g in first:
                    if g["net"] != "none" and g["key"] not in t and g["none"] in t:
                        t[g["key"]] = t.pop(g["none"])
                    c, tot = t.get(g["key"], (0, 0.0))
                    t[g["key"]] = (c + 1, tot + g["score"])
                key = f["key"]
                if key not in t and f["none"] in t:
                    key = f["none"]
                c, tot = t.get(key, (0, 0.0))
                means.add(tot / c if c else None)
        if status[j] == "maybe" or mixed and n > 1:
            means.add(None)
        allowed = {("%.1f" % (f["score"] + (0 if mean is None else (mean - f["score"]) * f["factor"]))) for mean in means}
        if f["resp"].score not in allowed:
            bad("adjustment", "message %d (factor %s) gets the score %s, expected %s (means %s)" % (
                j, f["factor"], f["resp"].score, sorted(allowed), sorted(means, key=str)))
        m = re.search(r"P=(\S+) M=(\S+) C=(\S+)", text)
        if m and not m.group(1).startswith("@"):
            sim.probe("adjusted")
            if m.group(1) != "%2.1f" % f["score"]:
                bad("adjustment", "the score before the adjustment is said to be %s" % m.group(1))
            if 0.0 in means:
                sim.probe("mean zero")
            if m.group(2) not in {"%2.1f" % x for x in means if x is not None}:
                bad("adjustment", "the mean is said to be %s, expected one of %s" % (m.group(2), means))
        elif None not in means:
            bad("adjustment", "not adjusted (%r) although there is a history: %s" % (text, means))
        else:
            sim.probe("first message")
        if not re.search(r"T=", text):
            bad("report", "the report is %r" % text)
    keys = [f["key"] for f in fact]
    together = len(set(keys)) < len(keys)
    if together:
        sim.probe("same sender at the same time")
    return together or bool(hits)


def counted(t, fs):
    t = dict(t)
    for f in fs:
        c, tot = t.get(f["key"], (0, 0.0))
        t[f["key"]] = (c + 1, tot + f["score"])
    return t


def group(t):
    """Per sender and signer, whatever the network."""
    out = {}
    for key in t:
        c, tot = out.get(key[:3], (0, 0.0))
        out[key[:3]] = (c + t[key][0], tot + t[key][1])
    return out


def same(t, u):
    return t.keys() == u.keys() and all(t[x][0] == u[x][0] and abs(t[x][1] - u[x][1]) < 1e-6 for x in t)


def setup():
    H.preload()
