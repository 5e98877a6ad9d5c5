"""P20: a collaborative digest check survives any mix of failing servers.

One daemon with the Pyzor plugin and several servers, each of which answers, refuses, fails, stalls
or sends nonsense, anew for each message.  The verdict of every message is computed from the plan
by a small model and compared."""
from .. import gen, kit
from .. import harness as H
from ..core import Violation, iso

QUICK_RUNS = 800
THOROUGH_RUNS = 30000
RULE = ("one run = a list of 0-4 servers, a maximum, a timeout, 3-8 messages (some by users with other "
        "settings) and, for each message and server, an answer or a failure; non-trivial when some server "
        "failed for a message that another server listed")
REAL = ["oad.py main, oa.server, protocol, parser, ruleset", "oa.plugins.pyzor, pyzor.digest"]
STUB = ["pyzor.client.BatchClient (the installed one does not run on Python 3); the real exceptions",
        "sockets, clock, DNS, file system root"]
ASSUMPTIONS = ["one rule per ruleset uses check_pyzor"]
PROBES = ["matched after a failure", "whitelisted", "below the maximum", "no server answered", "switched off",
          "user settings", "reported"]
MODES = [("ok", 45), ("timeout", 12), ("comm", 8), ("protocol", 6), ("incomplete", 5), ("gaierror", 6),
         ("oserror", 6), ("denied", 6), ("garbage", 6)]
SERVERS = ["pz1.example:24441", "pz2.example:24442", "pz3.example:24441", "pz1.example:24443"]


def life(sim, files, prefs, script):
    w = H.new_world(sim)
    gen.internet(w)
    H.put_config(w, files)
    for u in prefs:
        H.put_user(w, u, prefs[u])
    d = H.Daemon(w).start()
    out = []
    for req, plan in script:
        w.pyzor_plan = lambda server, op: plan.get(server, "ok")
        n = len(w.pyzor_log)
        t = sim.now
        raw = d.ask(req)
        out.append((raw, [e[1:3] for e in w.pyzor_log[n:]], [e[4] for e in w.pyzor_log[n:]], sim.now - t))
        sim.advance(1)
    H.finish(sim)
    return out


def run(sim):
    n = sim.wpick("nservers", [(2, 30), (1, 10), (3, 30), (4, 25), (0, 5)])
    conf = {"max": 5, "timeout": 3.5, "servers": ["public.pyzor.org:24441", "oa.pyzor.org:24441"], "use": True}
    lines = ["loadplugin oa.plugins.pyzor.PyzorPlugin"]
    if n:
        conf["servers"] = SERVERS[:n]
        lines.append("pyzor_servers " + ",".join(SERVERS[:n]))
    if sim.chance("max", 70):
        conf["max"] = sim.pick("maxv", [3, 1, 7])
        lines.append("pyzor_max %d" % conf["max"])
    if sim.chance("timeout", 60):
        conf["timeout"] = sim.pick("timeoutv", [1.5, 8.0, 0.25])
        lines.append("pyzor_timeout %s" % conf["timeout"])
    if sim.chance("off", 6):
        conf["use"] = False
        lines.append("use_pyzor 0")
    lines += ["allow_user_rules 1", "full PZ eval:check_pyzor()", "score PZ 1.5",
              "body BEFORE /text/", "body AFTER /text/", "score BEFORE 0.25", "score AFTER 0.25",
              "priority BEFORE -5", "priority AFTER 5", "report T=_TESTS_"]
    if sim.chance("prio", 30):
        lines.append("priority PZ " + sim.pick("priov", ["-50", "50"]))
    ann = {"max": sim.pick("umax", [2, 9])}
    prefs = {"ann": "pyzor_max %d\n" % ann["max"], "bea": "use_pyzor 0\n"}
    if sim.chance("utimeout", 50):
        ann["timeout"] = 6.25
        prefs["ann"] += "pyzor_timeout 6.25\n"
    script, confs = [], []
    for k in range(sim.int("nmsg", 3, 8)):
        plan = {}
        for s in conf["servers"]:
            m = sim.wpick("mode", MODES)
            if m == "ok":
                m = (sim.pick("count", [conf["max"], 0, 1, conf["max"] - 1, 50]), sim.wpick("wl", [(0, 75), (1, 15), (9, 10)]))
            plan[s] = m
        user = sim.wpick("user", [(None, 80), ("ann", 14), ("bea", 6)])
        c = dict(conf)
        if user == "ann":
            c.update(ann)
        if user == "bea":
            c["use"] = False
        cmd = sim.wpick("cmd", [("REPORT", 80), ("TELL", 20)])
        headers = ["Message-class: spam", "Set: local, remote"] if cmd == "TELL" else []
        req = H.make_request(cmd, b"Subject: s%d\r\n\r\nsome text number %d of this message\r\n" % (k, k), user,
                             headers=headers)
        script.append((req, plan))
        confs.append((cmd, user, c))
    got = iso(sim, life, {"10.cf": "\n".join(lines) + "\n"}, prefs, script)
    interesting = False
    for k, ((raw, asked, timeouts, took), (req, plan), (cmd, user, c)) in enumerate(zip(got, script, confs)):
        what = "message %d (%s, user %s), with the servers %s," % (k, cmd, user, [
            (s, plan[s]) for s in c["servers"]])
        r = H.Response(raw, cmd)
        if r.problem or r.code != 0:
            raise Violation("no verdict", "%s is answered %r (%s)" % (what, raw, r.problem))
        if cmd == "TELL":
            sim.probe("reported")
            want = [("report", s) for s in c["servers"]] if c["use"] else []
            if asked != want:
                raise Violation("report", "%s makes the requests %s, expected %s" % (what, asked, want))
            continue
        if user:
            sim.probe("user settings")
        if not c["use"]:
            sim.probe("switched off")
            if asked:
                raise Violation("switched off", "%s makes the requests %s although use_pyzor is off" % (what, asked))
        answered = [plan[s] for s in c["servers"] if isinstance(plan[s], tuple)]
        hits = [a for a in answered if a[0] >= c["max"] and not a[1]]
        want = bool(hits) and c["use"]
        text = r.body.decode("utf8", "replace")
        tests = text.split("T=", 1)[1].split("\n")[0].strip().split(",")
        if ("PZ" in tests) != want:
            raise Violation("verdict", "%s: the rule %s, but the servers that answered say %s (maximum %d); asked: %s" % (
                what, "matched" if "PZ" in tests else "did not match", answered, c["max"], asked))
        if sorted(set(tests) - {"PZ"}) != ["AFTER", "BEFORE"]:
            raise Violation("other rules", "%s: matched %s" % (what, tests))
        if len(set(asked)) != len(asked) or set(asked) - {("check", s) for s in c["servers"]}:
            raise Violation("asked twice", "%s makes the requests %s" % (what, asked))
        if any(t != c["timeout"] for t in timeouts):
            raise Violation("timeout", "%s uses the timeouts %s, configured is %s" % (what, timeouts, c["timeout"]))
        if took > len(asked) * max(c["timeout"], 0.1) + 1:
            raise Violation("slow", "%s takes %.2f s" % (what, took))
        if c["use"]:
            failed = len(answered) < len(c["servers"])
            if failed and hits and not isinstance(plan[c["servers"][0]], tuple):
                sim.probe("matched after a failure")
                interesting = True
            if not answered:
                sim.probe("no server answered")
            if any(a[1] for a in answered):
                sim.probe("whitelisted")
            if any(a[0] == c["max"] - 1 for a in answered):
                sim.probe("below the maximum")
    return {"nontrivial": interesting, "sample": {"servers": conf["servers"], "plans": [p for dummy, p in script]}}


def setup():
    H.preload()
