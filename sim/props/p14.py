"""P14: automatic learning follows its thresholds and learns a message at most once.

A daemon (or two sharing one token database) checks messages that hit a random mix of rules: of every type
and flag, negative and positive.  Whether each message is to be learnt, and as what, follows from a small
model of the documented conditions; the tables are read after every message.  Database failures, deaths and
earlier training by hand come in between; none of it may change the verdict."""
import itertools

from .. import harness as H
from ..core import Violation, iso
from .p13 import DB, create, tables

QUICK_RUNS = 220
THOROUGH_RUNS = 12000
RULE = ("one run = 4-12 rules (header, body, uri, rawbody, full, meta, eval; tflags learn, noautolearn, userconf, net, nice, "
        "autolearn_force), thresholds, a required score, 1-2 daemons on one token database, 5-16 messages, some again or taught by "
        "hand before, with database failures, locks and deaths; non-trivial when a message was learnt automatically")
REAL = ["oad.py main, oa.server, protocol, parser, rules, ruleset", "oa.plugins.auto_learn_threshold, bayes, oa.db.bayes",
        "SQLAlchemy, SQLite (files, locks)"]
STUB = ["sockets, clock, file system root", "pymysql connections (variant without SQLAlchemy): the same statements on SQLite",
        "the classifier's verdict: rules named BAYES_99 and BAYES_00 that match words"]
ASSUMPTIONS = ["scores and thresholds are multiples of 0.25, so that sums are exact",
               "a check whose database call failed may have learnt the message or not, as what the model says"]
PROBES = ["learnt spam", "learnt ham", "between the thresholds", "too few header points", "too few body points", "forced",
          "learned points disagree", "not above the required score", "not below the required score", "on error, agrees",
          "on error, disagrees", "already learnt", "taught by hand before", "equal to a threshold", "fault", "crash", "locked",
          "mysql", "user", "bayes off", "net off", "at the same time", "noautolearn", "userconf", "meta", "eval"]
WORDS = ["zorbel", "quantz", "mirabel", "fluxion", "garnet", "tropic", "velvet", "wombat", "crimson", "lantern", "hazel", "indigo"]
TYPES = [("header", 30), ("body", 30), ("uri", 10), ("rawbody", 5), ("full", 5), ("evalh", 7), ("evalb", 7)]
PLUGIN = '''
import oa.plugins.base
class Words(oa.plugins.base.BasePlugin):
    eval_rules = ("check_word",)
    def check_word(self, msg, word, target=None):
        return word in msg.raw_msg
'''


def life(sim, mysql, lines, prefs, ndaemons, rounds, weight):
    if mysql:
        H.without_sqlalchemy()
    w = H.new_world(sim)
    w.db_switch = weight
    create(w)
    w.write("/simfs/site/words.py", PLUGIN)
    H.put_config(w, {"10.cf": "\n".join(lines) + "\n"})
    for u in prefs:
        H.put_user(w, u, prefs[u])
    ds = [H.Daemon(w, name="oad%d" % k, port=783 + k).start() for k in range(ndaemons)]
    out = []
    for r in rounds:
        for d in ds:
            if not d.alive:
                d.start()
        hits = []
        calls = [0]
        fault = r["fault"]

        def plan(op, sql, conn):
            calls[0] += 1
            if fault and fault[0] == "call" and calls[0] >= fault[1] and (not hits or fault[3]):
                hits.append((sim.current.proc.name, calls[0], op))
                if fault[2].startswith("crash"):
                    return fault[2]
                import sqlite3
                return sqlite3.OperationalError(fault[2])
            return None

        w.db_plan = plan
        w.db_connect_plan = None
        if fault and fault[0] == "connect":
            def refuse():
                hits.append((sim.current.proc.name, 0))
                return True
            w.db_connect_plan = refuse
        if fault and fault[0] == "lock":
            holder = w.db(DB)
            holder.isolation_level = None
            holder.execute("BEGIN IMMEDIATE")
            sim.fault("lock held by another")

            def release(h=holder):
                h.execute("ROLLBACK")
                h.close()
            sim.after(fault[1], release)
        conns = [(d, ds[d].send(req)) for d, req in r["sends"]]
        sim.block(lambda: all(c.closed or not ds[d].alive for d, c in conns), 3000, "round")
        w.db_plan = w.db_connect_plan = None
        sim.advance(1 if not (fault and fault[0] == "lock") else fault[1] + 1)
        w.db_reap()
        seen, tokens, counts = tables(w)
        out.append(([bytes(c.out) if c.closed else None for d, c in conns], hits, seen, counts))
    H.finish(sim)
    return out


def decide(rules, hit, conf, total):
    """The documented conditions: -> ("s", "h" or None, why)"""
    if not conf["use_bayes"]:
        return None, "bayes off"
    points = head = body = learnt = 0.0
    forced = False
    for r in rules:
        if r["name"] not in hit or r["name"].startswith("__") or not r["eff"]:
            continue
        if "noautolearn" in r["flags"] or "userconf" in r["flags"]:
            continue
        if r["kind"] == "header":
            head += r["eff"]
        elif r["kind"] in ("body", "uri"):
            body += r["eff"]
        elif r["kind"] == "meta" and "net" not in r["flags"]:
            head += r["eff"]
            body += r["eff"]
        if "learn" in r["flags"]:
            learnt += r["eff"]
            continue
        forced |= "autolearn_force" in r["flags"]
        points += r["eff"]
    low = -99 if forced else 3
    agree99, agree00 = "BAYES_99" in hit, "BAYES_00" in hit
    if points >= conf["spam"]:
        if head < low:
            return None, "too few header points"
        if body < low:
            return None, "too few body points"
        if learnt < -1:
            return None, "learned points disagree"
        if total <= conf["required"]:
            return None, "not above the required score"
        if conf["on_error"] and agree99:
            return None, "on error, agrees"
        return "s", "forced" if forced else "on error, disagrees" if conf["on_error"] else "learnt spam"
    if points < conf["ham"]:
        if learnt > 1:
            return None, "learned points disagree"
        if total >= conf["required"]:
            return None, "not below the required score"
        if conf["on_error"] and agree00:
            return None, "on error, agrees"
        return "h", "on error, disagrees" if conf["on_error"] else "learnt ham"
    return None, "equal to a threshold" if points == conf["ham"] else "between the thresholds"


def run(sim):
    mysql = sim.chance("mysql", 20)
    conf = {"ham": 0.1, "spam": 12.0, "required": 5.0, "on_error": False, "use_bayes": True}
    lines = ["loadplugin oa.plugins.bayes.BayesPlugin", "loadplugin oa.plugins.auto_learn_threshold.AutoLearnThreshold",
             "loadplugin Words /simfs/site/words.py", "allow_user_rules 1", "report T=_TESTS_"]
    if sim.chance("order", 30):
        lines[0], lines[1] = lines[1], lines[0]
    if mysql:
        sim.probe("mysql")
        lines += ["bayes_sql_dsn DBI:mysql:bayes:db.example.org", "bayes_sql_username u", "bayes_sql_password p"]
    else:
        lines.append("bayes_sql_dsn sqlite:////simfs/db/bayes.db")
    if sim.chance("ham", 60):
        conf["ham"] = sim.pick("hamv", [1.0, -1.0, 0.5, -0.5, 2.0])
        lines.append("bayes_auto_learn_threshold_nonspam %s" % conf["ham"])
    if sim.chance("spam", 75):
        conf["spam"] = sim.pick("spamv", [6.0, 8.0, 4.0, 7.5, 2.0])
        lines.append("bayes_auto_learn_threshold_spam %s" % conf["spam"])
    if sim.chance("required", 50):
        conf["required"] = sim.pick("requiredv", [3.0, 7.0, 9.0, 1.0, 0.0])
        lines.append("required_score %s" % conf["required"])
    if sim.chance("onerror", 30):
        conf["on_error"] = True
        lines.append("bayes_auto_learn_on_error 1")
    if sim.chance("bayesoff", 6):
        sim.probe("bayes off")
        conf["use_bayes"] = False
        lines.append("use_bayes 0")
    nonet = sim.chance("netoff", 10)
    if nonet:
        sim.probe("net off")
        lines.append("use_network 0")
    auto = sim.chance("autolearn", 12)
    if auto:
        lines.append("autolearn 1")
    rules = []
    for k in range(sim.int("nrules", 4, 12)):
        word = WORDS[k]
        kind = sim.wpick("type", TYPES) if len(rules) < 3 or not sim.chance("meta", 12) else "meta"
        name = "R%d" % k
        if kind in ("body", "header") and sim.chance("classifier", 22):
            name = sim.pick("classname", ["BAYES_99", "BAYES_00"])
            if any(r["name"] == name for r in rules):
                name = "R%d" % k
        of = None
        if kind == "header":
            lines.append("header %s X-Words =~ /%s/" % (name, word))
        elif kind == "evalh":
            sim.probe("eval")
            lines.append("header %s eval:check_word('%s')" % (name, word))
        elif kind == "evalb":
            sim.probe("eval")
            lines.append("body %s eval:check_word('%s')" % (name, word))
        elif kind == "uri":
            lines.append("uri %s /%s/" % (name, word))
        elif kind == "meta":
            sim.probe("meta")
            of = [r["name"] for r in sim.shuffled("metaof", [r for r in rules if r["of"] is None])[:2]]
            lines.append("meta %s %s" % (name, " && ".join(of)))
        else:
            lines.append("%s %s /%s/" % (kind, name, word))
        flags = []
        if name.startswith("BAYES"):
            flags.append("learn")
            score = sim.pick("bayesscore", [3.5, 1.0, 4.0] if name == "BAYES_99" else [-2.0, -1.0, -0.5])
        else:
            score = sim.wpick("score", [(sim.pick("pos", [1.0, 2.5, 3.0, 4.0, 6.0, 0.5]), 72),
                                        (sim.pick("neg", [-1.0, -0.5, -3.0, -6.0]), 28)])
            flags = sim.wpick("flags", [([], 66), (["noautolearn"], 9), (["userconf"], 6), (["net"], 6), (["learn"], 5),
                                        (["autolearn_force"], 8)])
        if flags:
            lines.append("tflags %s %s" % (name, " ".join(flags)))
        lines.append("score %s %s" % (name, score))
        eff = score
        if (nonet and "net" in flags) or (auto and "noautolearn" in flags) or (not conf["use_bayes"] and "learn" in flags):
            eff = 0
        rules.append({"name": name, "word": word, "type": kind, "flags": flags, "score": score, "eff": eff, "of": of,
                      "kind": {"evalh": "header", "evalb": "body"}.get(kind, kind)})
    prefs = {"ann": "required_score %s\n" % (conf["required"] + 2)}
    ndaemons = sim.wpick("ndaemons", [(1, 65), (2, 35)])
    weight = sim.pick("weight", [30, 60, 10])
    msgs, rounds = [], []
    for k in range(sim.int("nrounds", 5, 16)):
        n = 2 if ndaemons == 2 and sim.chance("together", 35) else 1
        sends, acts = [], []
        for j in range(n):
            if msgs and (j and sim.chance("same", 60) or sim.chance("again", 22)):
                m = sim.pick("againwhich", msgs)
                if j and sim.chance("really same", 70):
                    m = acts[0]["m"]
            else:
                hit = set(r["name"] for r in rules if r["of"] is None and sim.chance("hit", sim.pick("rate", [25, 50, 75])))
                m = {"id": "m%d.%d@x.example" % (k, j), "hit": hit}
                msgs.append(m)
                words = {"header": [], "body": [], "uri": []}
                for r in rules:
                    if r["name"] in hit:
                        words["header" if r["type"] in ("header", "evalh") else "uri" if r["type"] == "uri" else "body"].append(r["word"])
                m["raw"] = ("From: ann@one.example\r\nSubject: message %d\r\nMessage-ID: <%s>\r\nX-Words: %s\r\n\r\n"
                            "plain text %s\r\n%s\r\n" % (k, m["id"], " ".join(words["header"]) or "none", " ".join(words["body"]),
                                                         " ".join("http://%s.example/" % x for x in words["uri"]))).encode()
            m.setdefault("all", set(m["hit"]) | {r["name"] for r in rules if r["of"] and all(x in m["hit"] for x in r["of"])})
            user = "ann" if sim.chance("user", 20) else None
            act = sim.wpick("act", [("check", 84), ("spam", 8), ("ham", 8)])
            if act == "check":
                req = H.make_request("REPORT", m["raw"], user)
            else:
                req = H.make_request("TELL", m["raw"], user, headers=["Message-class: " + act, "Set: local"])
            if user:
                sim.probe("user")
            d = j if n > 1 else sim.int("which", 0, ndaemons - 1)
            sends.append((d, req))
            acts.append({"m": m, "act": act, "user": user, "d": d})
        fault = None
        if sim.chance("fault", 30):
            kind = sim.wpick("faultkind", [("call", 74), ("connect", 10), ("lock", 16)])
            if kind == "call":
                fault = ("call", sim.wpick("callno", [(sim.int("few", 1, 10), 60), (sim.int("many", 1, 60), 40)]),
                         sim.pick("fate", ["disk I/O error", "database or disk is full", "crash before", "crash after"]),
                         sim.chance("forever", 30))
            elif kind == "connect":
                fault = ("connect",)
            else:
                fault = ("lock", sim.pick("locktime", [1.0, 3.0, 8.0, 20.0]))
        rounds.append({"sends": sends, "acts": acts, "fault": fault})
    got = iso(sim, life, mysql, lines, prefs, ndaemons, rounds, weight)
    state = {}
    interesting = False
    for k, (rec, r) in enumerate(zip(got, rounds)):
        if judge(sim, k, rec, r, rules, conf, state, lines):
            interesting = True
    return {"nontrivial": interesting, "sample": {
        "settings": conf, "rules": [(r["name"], r["type"], r["flags"], r["score"]) for r in rules],
        "rounds": [([(a["act"], a["m"]["id"], sorted(a["m"]["all"])) for a in r["acts"]], r["fault"]) for r in rounds]}}


def judge(sim, k, rec, r, rules, conf, state, lines):
    raws, hits, seen, counts = rec
    fault = r["fault"]

    def bad(kind, text):
        raise Violation(kind, "round %d (%s; fault %s, hit %s): %s\nconfiguration:\n%s" % (
            k, [(a["act"], a["m"]["id"], a["user"], sorted(a["m"]["all"]), "on oad%d" % a["d"]) for a in r["acts"]], fault, hits,
            text, "\n".join(lines)))

    crashed = bool(hits) and fault[0] == "call" and fault[2].startswith("crash")
    troubled = bool(hits) or bool(fault) and fault[0] == "lock" and fault[1] > 4
    interesting = False
    score = {x["name"]: x for x in rules}
    steps = []
    for a, raw in zip(r["acts"], raws):
        m = a["m"]
        hit = {x for x in m["all"] if score[x]["eff"]}
        total = sum(score[x]["eff"] for x in hit)
        required = conf["required"] + (2 if a["user"] else 0)
        if not raw:
            if not crashed:
                bad("no answer", "no answer without a crash")
        else:
            resp = H.Response(raw, "REPORT" if a["act"] == "check" else "TELL")
            if resp.problem or resp.code != 0:
                bad("no answer", "answered %r (%s)" % (raw, resp.problem))
            if a["act"] == "check":
                text = resp.body.decode("utf8", "replace").strip()
                tests = set(text.split("T=", 1)[1].split()[0].split(",")) - {"none"} if "T=" in text else None
                if tests != hit:
                    bad("verdict", "matched %s instead of %s" % (tests and sorted(tests), sorted(hit)))
                if abs(float(resp.score) - total) > 0.051 or resp.spam != (total >= required):
                    bad("verdict", "score %s (%s) instead of %s, required %s" % (resp.score, resp.spam, total, required))
        if a["act"] == "check":
            for x in hit:
                for f in ("noautolearn", "userconf"):
                    if f in score[x]["flags"]:
                        sim.probe(f)
            want, why = decide(rules, hit, dict(conf, required=required), total)
            steps.append((m["id"], "auto", want))
            if len(r["acts"]) == 1 and not troubled:
                if want and m["id"] in state:
                    sim.probe("already learnt")
                    if state[m["id"]] != want:
                        sim.probe("taught by hand before")
                else:
                    sim.probe(why)
                    interesting |= bool(want)
        else:
            why = "told"
            steps.append((m["id"], "hand", {"spam": "s", "ham": "h"}[a["act"]] if conf["use_bayes"] else None))
    if len(steps) > 1:
        sim.probe("at the same time")
    if crashed:
        sim.probe("crash")
    elif hits:
        sim.probe("fault")
    elif fault and fault[0] == "lock":
        sim.probe("locked")
    # what may be recorded now: the messages of this round in any order, the failed ones or not
    ids = {s[0] for s in steps}
    for i in set(seen) | set(state):
        if i not in ids and seen.get(i) != state.get(i):
            bad("class", "another message, %s, became %r" % (i, seen.get(i)))
    for i in ids:
        mine = [s for s in steps if s[0] == i]
        allowed = set()
        for order in itertools.permutations(mine):
            cur = {state.get(i)}
            for dummy, how, want in order:
                nxt = set()
                for s in cur:
                    if how == "auto":
                        nxt.add(s or want)
                    else:
                        nxt.add(want or s)
                    if troubled:
                        nxt.add(s)
                        if how == "hand" and s:
                            nxt.add(None)
                cur = nxt
            allowed |= cur
        if seen.get(i) not in allowed:
            bad("class", "%s was %r and is now recorded as %r, expected %s (%s)" % (
                i, state.get(i), seen.get(i), sorted(allowed, key=str), why))
    have = (sum(1 for x in seen.values() if x == "s"), sum(1 for x in seen.values() if x == "h"))
    if counts != have:
        bad("counts", "%s messages are counted but %s recorded as learnt" % (counts, have))
    state.clear()
    state.update(seen)
    return interesting


def setup():
    H.preload()
