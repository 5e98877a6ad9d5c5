"""P02: reload is atomic and takes effect for every user.

The site's configuration changes version by version; reloads (some of them failing) run on their
threads while requests of several users are served, every line of the server a possible thread
switch.  Each answer must be the answer of one version that was current at some moment of the
request, in order, and of the newest version once its reload has finished."""
import errno
import os

from .. import gen, kit
from .. import harness as H
from ..core import Violation, iso

QUICK_RUNS = 240
THOROUGH_RUNS = 8000
RULE = ("one run = 2-4 configuration versions in one file, replaced atomically and each followed by one or two SIGUSR1, "
        "with 5-12 requests of 3 users scattered over the reloads; non-trivial when a request overlapped a "
        "reload and the versions give different answers")
REAL = ["oad.py main, signal handlers, reload threads, request loop of oa.server and spoon",
        "configuration parser, user rulesets, ruleset, message plugins"]
STUB = ["thread scheduler (parked threads, line-level preemption in oa/server.py, call-level elsewhere in oa)",
        "sockets, select, signals, clock, DNS, file system root"]
ASSUMPTIONS = ["the configuration file of a version is replaced atomically (rename)",
               "preferences change (appear, disappear) together with a version; until its reload has finished "
               "either state of them may be used"]
PROBES = ["request overlaps reload", "two reloads at once", "broken version", "reload hits an I/O error",
          "versions differ", "answer under the old version during reload",
          "answer under the new version during reload", "preferences appear", "preferences change",
          "preferences go"]
USERS = ["ann", "bea", None]
BROKEN = ["required_score abc\n", "report_safe yes\n", "add_header nobody X y\n",
          "loadplugin LocalPlugin /simfs/site/plugins/missing.py\n"]


def version(sim, k, allow):
    files, names = gen.config(sim, nmax=3, net=False)
    text = files["init.pre"] + "".join(files[n] for n in sorted(files) if n.endswith(".cf"))
    # something of each kind that tells the versions apart
    text += "body V_%d /./\nscore V_%d 0.%d\ndescribe V_%d version %d\n" % (k, k, k + 1, k, k)
    text += "report version %d score _SCORE_ of _REQD_\nadd_header all Version %d\n" % (k, k)
    text += "required_score %s\n" % sim.pick("req", ["5", "2.5", "0.2"])
    if allow:
        text += "allow_user_rules %d\n" % (0 if sim.chance("allow0", 12) else 1)
    return text


def put_users(w, prefs):
    for u in sorted(prefs):
        if prefs[u] is not None:
            H.put_user(w, u, prefs[u])
        else:
            vp = "/home/%s/.spamassassin/user_prefs" % u
            if os.path.exists(w.path(vp)):
                w.unlink(vp)


class State(object):
    pass


def reloading(d):
    return d.alive and (d.proc.pending or d.task.in_handler or any(
        not t.done and getattr(t, "thread", None) is not None and "load_config" in repr(
            getattr(t.thread, "_target", "")) for t in d.sim.tasks if t.proc is d.proc))


def life(sim, versions, valid, prefs, script, requests, final):
    w = H.new_world(sim)
    gen.internet(w)
    put_users(w, prefs[0])
    H.put_config(w, {"10_all.cf": versions[0]})
    sim.switch_weight = 6
    H.preempt(sim, lines=("/oa/server.py", "/spoon/server.py"),
              calls=("/oa/rules/parser.py", "/oa/protocol/", "/oa/context.py", "/oa/conf.py",
                     "/oa/rules/ruleset.py", "/oa/plugins/"), line_percent=script["line"],
              call_percent=script["call"])
    d = H.Daemon(w).start()
    st = State()
    st.low = st.disk = 0
    st.armed = None
    st.dirty = False
    conns = []

    def refresh():
        """Nothing is being reloaded and no fault hit a reload of what is on disk now: if that is
        valid, it is in force.  (If it is not, an earlier one stays; which one depends on whether
        its reload read it in time.)"""
        if not reloading(d) and not st.dirty and valid[st.disk]:
            st.low = st.disk

    def close(conn):
        conn.high = st.disk
        conn.hit = conn.hit or reloading(d)
    w.on_close = close

    def faults(vp, mode):
        if st.armed is not None and getattr(sim.current, "thread", None) is not None \
                and vp.startswith(H.SITE):
            st.armed[1] -= 1
            if st.armed[1] < 0:
                n, st.armed = st.armed[0], None
                st.dirty = True
                return OSError(n, "injected")
        return None
    w.open_faults = faults

    def send(i, collect=conns):
        cmd, user, data = i
        refresh()
        c = d.send(data)
        if c.refused:
            raise Violation("down", "the daemon does not listen any more")
        c.low = st.low
        c.high = None
        c.cmd, c.user, c.data = i
        c.hit = bool(reloading(d))
        collect.append(c)
        return c

    k = 0
    for act in script["acts"]:
        kind = act[0]
        if kind == "send":
            send(requests[act[1]])
        elif kind == "wait":
            sim.advance(act[1])
        elif kind == "steps":
            for dummy in range(act[1]):
                sim.yield_point("client", 60)
        elif kind == "drain":
            sim.block(lambda: all(c.closed for c in conns) or not d.alive, 5000, "drain")
        elif kind == "version":
            k += 1
            if act[2]:
                st.armed = [act[2], act[3]]
            refresh()
            put_users(w, prefs[k])
            w.write(H.SITE + "/10_all.cf", versions[k])
            st.disk = k
            if not valid[k]:
                sim.probe("broken version")
            st.dirty = False          # this reload is a new chance, a fault may set it again
            d.signal(10)
            if act[1]:
                sim.probe("two reloads at once")
                sim.advance(act[1])
                d.signal(10)
        elif kind == "settle":
            d.settle()
        if not d.alive:
            raise Violation("died", "the daemon died: %s" % (d.error,))
    d.settle()
    if not d.alive:
        raise Violation("died", "the daemon died: %s" % (d.error,))
    st.armed = None
    if st.dirty:
        sim.probe("reload hits an I/O error")
        if sim.chance("reload again", 60):
            st.dirty = False
            d.signal(10)
            d.settle()
    if not sim.block(lambda: all(c.closed for c in conns), 5000, "drain"):
        raise Violation("no answer", "a request sent around a reload is never answered")
    for i in final:
        c = send(i)
        sim.block(lambda: c.closed, 5000, "final")
        if not c.closed:
            raise Violation("no answer", "a request after the reloads is never answered")
    sim.tracer = None
    H.finish(sim)
    return [(c.cmd, c.user, c.data, c.low, c.high, c.hit, bytes(c.out)) for c in conns]


def run(sim):
    n = sim.int("versions", 2, 4)
    allow = sim.chance("allow", 85)
    versions, valid = [], []
    for k in range(n):
        if k and sim.chance("broken", 20):
            text = version(sim, k, allow) + sim.pick("brokenhow", BROKEN)
            valid.append(False)
        else:
            text = version(sim, k, allow)
            valid.append(True)
        versions.append(text)
    prefs = []
    for k in range(n):
        prefs.append({})
        for j, u in enumerate(USERS[:2]):
            text = "score V_0 1\nscore V_1 2\nscore V_2 3\nbody U_X /./\nscore U_X 0.%d\n%s" % (
                j + 5, "required_score 0.9\n" if sim.chance("ureq", 50) else "")
            if k and not sim.chance("prefs change", 25):
                text = prefs[k - 1][u]
            elif sim.chance("no prefs", 25):
                text = None
            if k and text != prefs[k - 1][u]:
                sim.probe("preferences " + ("go" if text is None else "appear" if prefs[k - 1][u] is None else "change"))
            prefs[k][u] = text
    msgs = [gen.message(sim, dkim=False) for dummy in range(2)]

    def req():
        cmd = sim.wpick("cmd", kit.VERDICTS)
        user = sim.wpick("user", [("ann", 40), ("bea", 30), (None, 30)])
        return cmd, user, H.make_request(cmd, sim.pick("msg", msgs), user)
    requests, acts = [], []

    def reqs(lo, hi):
        for dummy in range(sim.int("reqs", lo, hi)):
            requests.append(req())
            acts.append(("send", len(requests) - 1))
            if sim.chance("gap", 30):
                acts.append(("steps", sim.int("steps", 1, 30)))
            elif sim.chance("wait", 20):
                acts.append(("wait", sim.pick("waitlen", [0.05, 0.2])))
    reqs(0, 3)
    if sim.chance("drain", 60):
        acts.append(("drain",))
    for k in range(1, n):
        err = sim.pick("errno", [errno.EIO, errno.EACCES, errno.EMFILE]) if sim.chance("fault", 15) else 0
        acts.append(("version", sim.wpick("twice", [(0, 75), (0.01, 10), (0.15, 15)]), err, 0))
        reqs(1, 3)
        if sim.chance("drain", 40):
            acts.append(("drain",))
        if sim.chance("settle", 55):
            acts.append(("settle",))
            reqs(0, 1)
    script = {"acts": acts, "line": sim.pick("line", [4, 1, 15]), "call": sim.pick("call", [1, 0, 4])}
    final = [req() for dummy in range(sim.int("nfinal", 1, 3))]
    got = iso(sim, life, versions, valid, prefs, script, requests, final)

    refs, wanted = {}, {}
    for cmd, user, data, low, high, hit, raw in got:
        for k in range(low, high + 1):
            for j in range(k, high + 1):
                if valid[k]:
                    one = wanted.setdefault((k, j if len(set(map(repr, prefs))) > 1 else 0), [])
                    if (cmd, user, data) not in one:
                        one.append((cmd, user, data))
    for k in range(n):
        if valid[k]:
            # any answer may turn out to be a stale one
            one = wanted.setdefault((k, k if len(set(map(repr, prefs))) > 1 else 0), [])
            one.extend(g[:3] for i, g in enumerate(got) if g[:3] not in one and g[:3] not in [h[:3] for h in got[:i]])
    for k, j in sorted(wanted):
        def setup_(w, k=k, j=j):
            gen.internet(w)
            put_users(w, prefs[j])
            H.put_config(w, {"10_all.cf": versions[k]})
        out = iso(sim, H.oneshot, setup_, [data for cmd, user, data in wanted[k, j]])
        for (cmd, user, data), raw in zip(wanted[k, j], out):
            refs.setdefault((k, prefs[j].get(user), data), strip(raw))

    def ref(k, user, data, low, high):
        """The answers of version k with any preferences that may have been read."""
        if not valid[k]:
            return []
        return [refs[k, prefs[j].get(user), data] for j in range(max(k, low), high + 1)]

    now = 0
    overlap = differ = False
    for i, (cmd, user, data, low, high, hit, raw) in enumerate(got):
        answer = strip(raw)
        allowed = [k for k in range(low, high + 1) if valid[k]]
        match = [k for k in allowed if answer in ref(k, user, data, low, high)]
        if hit:
            overlap = True
            sim.probe("request overlaps reload")
        if len({repr(ref(k, user, data, low, high)) for k in allowed}) > 1:
            differ = True
            sim.probe("versions differ")
            if match == [allowed[0]]:
                sim.probe("answer under the old version during reload")
            elif match:
                sim.probe("answer under the new version during reload")
        if not match:
            others = sorted({x[0] for x in refs if x[1:] in [(p.get(user), data) for p in prefs]
                             and refs[x] == answer})
            raise Violation("mixture" if not others else "stale" if others[0] < low else "early"
                            if others[0] > high else "preferences",
                            "request %d (%s, user %s), while versions %s may be in force, is answered\n%r\n"
                            "which is the answer of %s; expected e.g.\n%r" % (
                                i, cmd, user, allowed, raw[:500],
                                "version %s" % others if others else "no version",
                                ref(allowed[-1], user, data, low, high)[-1][:500]))
        later = [k for k in match if k >= now]
        if not later:
            raise Violation("back", "request %d is answered under version %s after an earlier one was "
                            "answered under version %d" % (i, match, now))
        now = min(later)
    return {"nontrivial": overlap and differ,
            "sample": {"versions": n, "valid": valid, "acts": [a[0] for a in acts], "answers": len(got)}}


def strip(raw):
    """Without the parts that depend on the time of day."""
    raw = H.normalise(raw)
    return b"\n".join(l for l in raw.split(b"\n") if not l.startswith((b"Received: from localhost", b"Date:",
                                                                       b"Content-length:")))


def setup():
    H.preload()
