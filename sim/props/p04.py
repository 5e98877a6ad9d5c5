"""P04: every pre-forked worker serves the current configuration and obeys stop.

The real master forks simulated workers.  Reloads, worker deaths, requests and stops are scheduled
at random; once a reload has settled every answer, whichever worker gives it, is the new version's;
a stop ends every worker and then the master."""
import signal

from .. import gen, kit
from .. import harness as H
from ..core import Violation, iso

QUICK_RUNS = 260
THOROUGH_RUNS = 8000
RULE = ("one run = 1-4 workers, 1-3 configuration versions installed by reloads to the master (some broken), worker "
        "deaths, 4-14 requests, then a stop; non-trivial when at least two workers answered and a reload happened")
REAL = ["oad.py main", "oa.server.PreForkServer, signal handlers, reload and shutdown threads", "spoon, socketserver",
        "configuration parser, ruleset"]
STUB = ["fork (the child is a deep copy of the server that re-enters the fork loop)", "process scheduler, signals, waitpid",
        "sockets and select with one shared accept queue", "clock", "file system root"]
ASSUMPTIONS = ["signals are delivered between any two simulator steps of the target's main thread",
               "a configuration version is replaced atomically"]
PROBES = ["reload", "two reloads", "broken version", "worker died", "stop while idle", "stop while a request runs",
          "stop during a reload", "stop twice", "reload and stop together", "several workers answered",
          "early reload", "early stop", "worker answers after reload", "busy worker at reload", "single worker"]


def setup():
    H.preload()


def version(k):
    return ("body V_%d /./\nscore V_%d %d.5\nreport version %d of _SCORE_\nadd_header all Version %d\n"
            "required_score %d\n" % (k, k, k + 1, k, k, 3))


def life(sim, base, nver, valid, nworkers, script, msg):
    w = H.new_world(sim)
    gen.internet(w)
    files = dict(base)
    files["99_v.cf"] = version(0)
    H.put_config(w, files)
    sim.switch_weight = script["weight"]
    if script["lines"]:
        H.preempt(sim, lines=("/oa/server.py", "/spoon/server.py"), line_percent=script["lines"])
    d = H.Daemon(w, ["--prefork", str(nworkers)])
    H.install_fork(w, d)
    d.start(wait=False)
    sim.block(lambda: d.task.done or 15 in d.proc.handlers and 783 in w.listeners, 600, "start")
    if d.task.done:
        raise H.StartFailed(d.error or d.exit)
    conns = []
    state = {"low": 0, "disk": 0, "deaths": 0}

    def workers():
        return [p for p in sim.procs.values() if p.parent is d.proc]

    def alive():
        return [p for p in workers() if p.alive]

    def family_idle():
        for p in [d.proc] + workers():
            if not p.alive:
                continue
            if p.pending or p.main_task is None or p.main_task.in_handler:
                return False
            for t in sim.tasks:
                if t.proc is p and t is not p.main_task and not t.done:
                    return False
        return True

    def started():
        want = 0 if nworkers <= 1 else nworkers
        return len(workers()) >= want

    def settle():
        ok = sim.block(lambda: family_idle() and started() or not d.alive, 400, "settle")
        if not d.alive:
            raise Violation("died", "the master died: %s" % (d.error,))
        if not ok:
            raise Violation("no progress", "a reload does not end within 400 simulated seconds (workers %s of %d)" % (
                len(workers()), nworkers))

    def ask(hold=False):
        c = w.connect(d.port)
        if c.refused:
            raise Violation("down", "nobody listens")
        data = H.make_request("PROCESS", msg)
        c.low, c.high = state["low"], None
        c.deliver(data[:-5] if hold else data)
        if hold:
            def rest():
                c.deliver(data[-5:])
                c.finish()
            sim.after(hold, rest)
        else:
            c.finish()
        conns.append(c)
        return c
    w.on_close = lambda c: setattr(c, "high", state["disk"])
    stopped = False
    for act in script["acts"]:
        kind = act[0]
        if kind == "ask":
            ask(act[1])
            if act[2]:
                sim.block(lambda: all(c.closed for c in conns) or not d.alive, 2000, "ask")
        elif kind == "burst":
            for dummy in range(act[1]):
                ask()
        elif kind == "wait":
            sim.advance(act[1])
        elif kind == "settled":
            settle()
            sim.block(lambda: all(c.closed for c in conns), 2000, "quiet")
            if valid[state["disk"]] and state["disk"] not in state.get("dirty", ()):
                state["low"] = state["disk"]
        elif kind == "reload":
            state["disk"] = act[1]
            sim.probe("reload")
            if not valid[act[1]]:
                sim.probe("broken version")
            if any(c.accepted_at is not None and not c.closed for c in conns):
                sim.probe("busy worker at reload")
            w.write(H.SITE + "/99_v.cf", version(act[1]) + ("" if valid[act[1]] else "required_score abc\n"))
            d.signal(10)
            if act[2] is not None:
                sim.probe("two reloads")
                sim.advance(act[2])
                d.signal(10)
        elif kind == "kill":
            a = alive()
            if len(a) > 1:
                sim.probe("worker died")
                sim.fault("worker killed")
                p = a[act[1] % len(a)]
                for c in conns:
                    if c.accepted_by is p and not c.closed:
                        c.lost = True
                        c.closed = True
                        c.high = state["disk"]
                sim.send_signal(p.pid, signal.SIGKILL)
        if not d.alive and not stopped:
            raise Violation("died", "the master died: %s" % (d.error,))
    # the stop
    st = script["stop"]
    if st["busy"]:
        sim.probe("stop while a request runs")
        ask(0.7)
        sim.advance(0.2)
    else:
        sim.probe("stop while idle")
    if st["reload"]:
        sim.probe("reload and stop together")
        d.signal(10)
        if st["reload"] > 1:
            sim.advance(0.01)
            sim.probe("stop during a reload")
    t0 = sim.now
    d.signal(15)
    if st["twice"] is not None:
        sim.probe("stop twice")
        sim.advance(st["twice"])
        if d.alive:
            d.signal(15)
    sim.block(lambda: not d.alive, 400, "stop")
    if d.alive:
        raise Violation("not stopped", "the master still runs 400 simulated seconds after the stop; live workers: %s" % [
            p.name for p in alive()])
    if alive():
        raise Violation("orphans", "workers %s outlive the master" % [p.name for p in alive()])
    if sim.now - t0 > 60:
        raise Violation("slow stop", "stopping took %.1f simulated seconds" % (sim.now - t0))
    if d.error:
        raise Violation("died", "the master ended with %s" % d.error)
    for c in conns:
        if c.accepted_by is not None and not c.closed:
            raise Violation("cut off", "a request accepted before the stop got no answer")
    sim.tracer = None
    H.finish(sim)
    return [(c.low, state["disk"] if c.high is None else c.high, c.accepted_by.name if c.accepted_by else None,
             getattr(c, "lost", False), bytes(c.out)) for c in conns]


def run(sim):
    nworkers = sim.wpick("workers", [(2, 40), (3, 30), (4, 15), (1, 15)])
    if nworkers == 1:
        sim.probe("single worker")
    base, names = gen.config(sim, nmax=2, net=False, reports=False, glob=())
    nver = sim.int("nver", 1, 3)
    valid = [True]
    for k in range(1, nver + 1):
        valid.append(not sim.chance("broken", 15))
    acts = []

    def some():
        for dummy in range(sim.int("nasks", 0, 3)):
            what = sim.wpick("what", [("ask", 50), ("burst", 30), ("wait", 20)])
            if what == "ask":
                acts.append(("ask", sim.wpick("hold", [(0, 60), (0.3, 30), (3.0, 10)]), sim.chance("wait for it", 60)))
            elif what == "burst":
                acts.append(("burst", sim.int("nburst", 2, 4)))
            else:
                acts.append(("wait", sim.pick("waitlen", [0.05, 0.15, 1.0])))
    early = sim.chance("early", 30)
    if early:
        sim.probe("early reload")
    else:
        acts.append(("wait", 0.5))
        some()
    for k in range(1, nver + 1):
        if sim.chance("kill", 15) and nworkers > 1:
            acts.append(("kill", sim.int("victim", 0, 3)))
        acts.append(("reload", k, sim.wpick("again", [(None, 80), (0.02, 10), (0.15, 10)])))
        if sim.chance("kill2", 8) and nworkers > 1:
            acts.append(("kill", sim.int("victim", 0, 3)))
        some()
        if sim.chance("settle", 70):
            acts.append(("settled",))
            acts.append(("burst", sim.int("nburst", 2, 4)))
            some()
    earlystop = sim.chance("early stop", 6)
    if earlystop:
        acts = []
        sim.probe("early stop")
    script = {"acts": acts, "weight": sim.pick("weight", [5, 2, 15]), "lines": sim.pick("lines", [0, 3, 10]),
              "stop": {"busy": sim.chance("busy", 40) and not earlystop,
                       "reload": sim.wpick("stopreload", [(0, 75), (1, 12), (2, 13)]),
                       "twice": sim.wpick("twice", [(None, 75), (0.0, 8), (0.05, 9), (0.3, 8)])}}
    msg = gen.message(sim, dkim=False) or b"Subject: x\r\n\r\nbody\r\n"
    got = iso(sim, life, base, nver, valid, nworkers, script, msg)
    refs = {}
    for k in range(nver + 1):
        if valid[k]:
            def setup_(w, k=k):
                gen.internet(w)
                files = dict(base)
                files["99_v.cf"] = version(k)
                H.put_config(w, files)
            refs[k] = strip(iso(sim, H.oneshot, setup_, [H.make_request("PROCESS", msg)])[0])
    who = set()
    for i, (low, high, name, lost, raw) in enumerate(got):
        if lost or name is None:
            continue
        who.add(name)
        allowed = [k for k in range(low, high + 1) if valid[k]]
        match = [k for k in allowed if refs[k] == strip(raw)]
        if not match:
            others = [k for k in refs if refs[k] == strip(raw)]
            raise Violation("stale" if others else "mixture",
                            "request %d, answered by %s while versions %s may be in force, got the answer of version %s:\n%r" % (
                                i, name, allowed, others, raw[:500]))
        if low > 0:
            sim.probe("worker answers after reload")
    if len(who) > 1:
        sim.probe("several workers answered")
    return {"nontrivial": len(who) > 1 and bool(acts),
            "sample": {"workers": nworkers, "valid": valid, "acts": [a[0] for a in acts], "stop": script["stop"],
                       "answers": len(got)}}


def strip(raw):
    raw = H.normalise(raw)
    return b"\n".join(l for l in raw.split(b"\n") if not l.startswith((b"Received: from localhost", b"Date:",
                                                                       b"Content-length:")))
