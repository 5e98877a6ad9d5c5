"""P05: user preferences layer on the site configuration and stay private.

One daemon answers requests of several users (and of none, and with hostile user names) in random
order; a freshly started daemon whose site configuration ends with the user's preferences answers
each alone.  Same bytes expected; the files opened meanwhile are audited."""
import errno
import os

from .. import gen, kit
from .. import harness as H
from ..core import Violation, iso

QUICK_RUNS = 330
THOROUGH_RUNS = 8000
RULE = ("one run = one random deployment, 2-4 users with random, absent, broken or unreadable preferences, "
        "4-10 requests in random order with possible edits and reloads between; non-trivial when two users "
        "of the run have different answers to one message")
REAL = ["oad.py main, oa.server (user rulesets)", "configuration parser", "protocol commands", "ruleset",
        "message plugins"]
STUB = ["sockets and select", "DNS servers", "clock", "file system root (scratch directory, with read faults)"]
ASSUMPTIONS = ["preference files change only together with a reload (the daemon caches them)",
               "what a broken preference file means for its own user is not specified beyond a complete answer"]
PROBES = ["user rules off", "user rules on", "hostile name", "absent preferences", "broken preferences",
          "unreadable preferences", "edit and reload", "preferences matter", "nearly equal names", "odd but honest name"]
# Names that are nearly those of others, but are not.
USERS = ["ann", "bea", "carl smith", "eve.x", "Bea", "carl", "ann@example.com", "eve_x", "0", "None"]
HOSTILE = ["d\xf6rte", "../simfs/decoy", "/simfs/decoy", "ann/../bea", "bea/", "./bea", "..", ".", "", "../home/bea",
           "bea/../bea", "/home/bea", "nosuch/../bea", "x" * 5000, "bea\x00", "..\\bea", "~bea", "*", "be?"]
BROKEN = ["required_score abc", "report_safe maybe", "add_header nobody X y", "trusted_networks nonsense",
          "loadplugin oa.plugins.nope.Nope", "body U_BAD /(/", "score", "include user_prefs", "\xff\xfe\x00",
          "dns_available perhaps", "header U_BAD2 eval:no_such_function()"]


def setup():
    H.preload()


def own(user):
    return "/home/%s/.spamassassin/user_prefs" % user


def life(sim, files, prefs, acts, unreadable):
    w = H.new_world(sim)
    gen.internet(w)
    H.put_config(w, files)
    w.write("/simfs/decoy/.spamassassin/user_prefs", "body DECOY /./\nscore DECOY 77\n")
    w.write("/home/.spamassassin/user_prefs", "body DECOY /./\nscore DECOY 78\n")
    w.write("/.spamassassin/user_prefs" if False else "/home/user_prefs", "body DECOY /./\nscore DECOY 79\n")
    for u in prefs:
        H.put_user(w, u, prefs[u])
    broken_now = set(unreadable)

    def faults(vp, mode):
        for u in broken_now:
            if vp == own(u):
                return OSError(errno.EACCES, "Permission denied")
        return None
    w.open_faults = faults
    d = H.Daemon(w).start()
    out = []
    for i, act in enumerate(acts):
        if act[0] == "edit":
            for u, text in act[1].items():
                H.put_user(w, u, text)
            d.reload()
            if not d.alive:
                raise Violation("died", "the daemon died in a reload: %s" % (d.error,))
            continue
        if act[0] == "readable":
            broken_now.discard(act[1])
            d.reload()
            continue
        sim.advance(act[3])
        w.seed_random(100 + i)
        del w.opened[:]
        t = sim.now
        raw = d.ask(act[2])
        user = act[1]
        for vp, mode, dummy in w.opened:
            real_ = os.path.normpath(vp)
            if real_.startswith(("/home", "/simfs/decoy")) and not (
                    user is not None and user not in ("", ".", "..") and "/" not in user and vp == own(user)):
                raise Violation("privacy", "a request for user %r opened %s" % (user, vp))
        out.append((t, raw))
    H.finish(sim)
    return out


def run(sim):
    files, names = gen.config(sim, nmax=5, net=sim.chance("net", 20))
    allow = not sim.chance("off", 15)
    if allow:
        files["00_users.cf"] = "allow_user_rules 1\n"
        if sim.chance("yes", 20):
            files["00_users.cf"] += sim.pick("comment", ["# ok\n", "allow_user_rules 1\n"])
    elif sim.chance("explicit", 50):
        files["00_users.cf"] = "allow_user_rules 0\n"
    sim.probe("user rules on" if allow else "user rules off")
    users = sim.shuffled("users", USERS)[:sim.int("nusers", 2, 4)]
    if sim.chance("alike", 30):
        sim.probe("nearly equal names")
        users = list(sim.pick("pair", [("Bea", "bea"), ("carl smith", "carl"), ("ann@example.com", "ann"),
                                       ("eve.x", "eve_x")]))
    if "bea" not in users:
        users.append("bea")

    def pref(u, k):
        if sim.chance("absent", 12):
            sim.probe("absent preferences")
            return None
        text = gen.user_lines(sim, names)
        text += "body OWN_%d /./\nscore OWN_%d 0.%d\n" % (users.index(u), users.index(u), 1 + k)
        if sim.chance("broken", 15):
            sim.probe("broken preferences")
            pos = sim.choose("brokenpos", 3)
            bad = sim.pick("brokenline", BROKEN) + "\n"
            text = bad + text if pos == 1 else text + bad
            return text, bad
        return text
    hard = {}      # user -> may be broken in a way that stops its loading
    prefs = {}

    def assign(u, k, into):
        p = pref(u, k)
        bad = isinstance(p, tuple)
        hard[len(marks), u] = bad
        into[u] = p[0] if bad else p
    marks = [None]
    for u in users:
        assign(u, 1, prefs)
    unreadable = [u for u in users if prefs[u] is not None and sim.chance("unreadable", 8)]
    for u in unreadable:
        sim.probe("unreadable preferences")
    states = [dict(prefs)]
    blind = [set(unreadable)]
    acts, reqs = [], []
    msgs = [gen.message(sim, dkim=False) for dummy in range(sim.int("nmsgs", 1, 3))]
    now_blind = set(unreadable)
    for dummy in range(sim.int("nreq", 4, 9)):
        if sim.chance("edit", 10):
            sim.probe("edit and reload")
            if now_blind and sim.chance("readable", 50):
                u = sorted(now_blind)[0]
                now_blind = now_blind - {u}
                acts.append(("readable", u))
            else:
                change = {}
                marks.append(None)
                for u in users:
                    hard[len(marks), u] = hard[len(marks) - 1, u]
                for u in sim.subset("edited", users, 50):
                    assign(u, 5, change)
                acts.append(("edit", change))
                prefs = dict(prefs, **change)
            continue
        who = sim.wpick("who", [("user", 60), ("none", 20), ("hostile", 20)])
        user = sim.pick("user", users) if who == "user" else None if who == "none" else sim.pick("hostile", HOSTILE)
        if who == "hostile":
            sim.probe("hostile name")
        elif user not in (None, "ann", "bea"):
            sim.probe("odd but honest name")
        cmd = sim.wpick("cmd", kit.VERDICTS + [("CHECK", 8), ("HEADERS", 10), ("REPORT_IFSPAM", 8)])
        m = sim.choose("msg", len(msgs))
        acts.append(("ask", user, H.make_request(cmd, msgs[m], user), sim.pick("gap", [0, 0.5, 40])))
        p = prefs.get(user) if who == "user" and allow else None
        reqs.append((cmd, user, m, p, who == "user" and allow and user in now_blind,
                     who == "user" and allow and hard[len(marks), user]))
    got = iso(sim, life, files, states[0], acts, unreadable)
    answers = {}
    matters = False
    for i, ((cmd, user, m, p, isblind, ishard), (t, raw)) in enumerate(zip(reqs, got)):
        r = H.Response(raw, cmd)
        if r.problem or r.code != 0:
            raise Violation("no answer", "request %d (%s for user %r) is answered %r (%s)" % (
                i, cmd, user, raw, r.problem))
        if b"DECOY" in raw or r.score in ("77.0", "78.0", "79.0"):
            raise Violation("privacy", "a decoy rule matched for user %r" % (user,))
        if isblind or ishard and p is not None:
            continue
        conf = dict(files)
        if p is not None:
            conf["zz_user.cf"] = p

        def setup_(w):
            gen.internet(w)
            H.put_config(w, conf)
        alone = iso(sim, H.oneshot, setup_, [H.make_request(cmd, msgs[m])], (), t)[0]
        kit.compare("layering", "request %d (%s for user %r, user rules %s, preferences %r)" % (
            i, cmd, user, allow, p), raw, alone, "site configuration plus preferences")
        if p is not None:
            sim.probe("preferences matter")
        answers.setdefault((cmd, m), set()).add(H.normalise(raw))
        if len(answers[cmd, m]) > 1:
            matters = True
    return {"nontrivial": matters or len({p for c, u, m, p, b, h in reqs}) > 1 and allow,
            "sample": {"plugins": names, "allow": allow, "requests": [(c, u) for c, u, m, p, b, h in reqs]}}
