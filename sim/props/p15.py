"""P15: the daemon starts, stops and cleans up in every order of events.

The real main program of oad.py (detached or in the foreground, one process or pre-forked) and its
``reload`` and ``stop`` actions run as simulated processes.  Starts (some of which must fail: the
port is taken, the configuration is broken, a fork or the process id file fails), requests in
progress, reloads, stops and plain signals are interleaved, every line of oad.py, oa/server.py and
spoon a possible switch."""
import errno
import os
import signal

from .. import gen, kit
from .. import harness as H
from ..core import SimCrash, SimExit, StopSim, Violation, iso

QUICK_RUNS = 260
THOROUGH_RUNS = 9000
RULE = ("one run = up to three lives of the daemon on one process id file and port, with 3-9 events each "
        "(requests held open, reload and stop commands, plain signals, a second daemon started on the same "
        "port, broken configuration, failing forks and files); non-trivial when a stop met a request, a reload, "
        "another stop or a start in progress")
REAL = ["oad.py main program with its arguments, actions and process id file", "spoon daemon, signal handling and serve loops",
        "oa.server, protocol, parser, ruleset"]
STUB = ["process identity, fork (the child re-runs the program up to its fork), signals, scheduler",
        "sockets, select, clock, file system root"]
ASSUMPTIONS = ["no SIGKILL and no reuse of process ids", "one port per process id file",
               "clients in progress finish sending or hang up within 10 s"]
PROBES = ["detached", "foreground", "prefork", "stop meets request", "stop meets reload", "stop twice",
          "second daemon refused", "broken start", "fork fails", "pidfile fails", "stop during start",
          "start during stop", "stop when stopped", "reload took effect", "several lives"]
BOUND = 60.0


def procs(sim):
    return [p for p in sim.procs.values() if p.alive and "launch" in p.data]


def pidfile(w):
    try:
        with open(w.path(H.PIDFILE)) as f:
            return f.read()
    except IOError:
        return None


class Life(object):
    """The deployment, as its administrator sees it."""

    def __init__(self, sim, w, plan):
        self.sim = sim
        self.w = w
        self.plan = plan
        self.conns = []
        self.stops = 0
        self.masters = set()
        self.actions = []
        self.serial = 0
        self.k = 0
        self.interesting = False
        self.detached = set()       # pids of masters that wrote the process id file
        self.args = []
        self.stop_at = None

    # -------------------------------------------------- what is running
    def master(self):
        p = self.w.holders.get(783)
        return p if p is not None and p.alive else None

    def launch(self, args, name):
        """Run oad.py with these arguments -> Daemon."""
        sim = self.sim
        d = H.Daemon(self.w, args, name=name)
        H.install_fork(self.w, d)
        d.proc = sim.new_proc(name)
        d.proc.parent = sim.main.proc
        d.proc.data["launch"] = d.proc.pid
        d.detach = "-d" in args
        d.task = sim.spawn(name, d._main, d.proc, main=True)
        return d

    def action(self, what):
        sim = self.sim
        self.serial += 1
        name = "%s%d" % (what, self.serial)
        a = H.Daemon(self.w, [what], name=name)
        a.proc = sim.new_proc(name)
        a.proc.parent = sim.main.proc
        a.proc.data["action"] = what
        a.task = sim.spawn(name, a._main, a.proc, main=True)
        self.actions.append(a)
        return a

    def wait_start(self, d):
        """Until it serves (its process id file written) or all of its processes are gone."""
        sim, w = self.sim, self.w
        mine = lambda: [p for p in procs(sim) if p.data["launch"] == d.proc.pid]
        def up():
            m = self.master()
            return m is not None and m.data.get("launch") == d.proc.pid and 15 in m.handlers and (
                not d.detach or pidfile(w) == "%d\n" % m.pid)
        if not sim.block(lambda: up() or not mine(), 600, "start"):
            m = self.master()
            if m is not None and m.data.get("launch") == d.proc.pid:
                raise Violation("pidfile", "the daemon serves as process %d, but its process id file says %r" % (
                    m.pid, pidfile(w)))
            raise Violation("stuck", "the daemon neither serves nor gives up: %s" % [p.name for p in mine()])
        m = self.master()
        if m is not None and m.data.get("launch") == d.proc.pid:
            self.masters.add(m.pid)
            if d.detach:
                self.detached.add(m.pid)
            return m
        return None

    def check_pidfile(self, when):
        m = self.master()
        text = pidfile(self.w)
        if m is not None and m.pid in self.detached and not self.stops and text != "%d\n" % m.pid:
            raise Violation("pidfile", "%s: process %d serves, and was not asked to stop, but the process id "
                            "file says %r" % (when, m.pid, text))

    # -------------------------------------------------- clients
    def send(self, hold=0.0):
        sim, w = self.sim, self.w
        data = self.plan["requests"][self.serial % len(self.plan["requests"])]
        c = w.connect(783)
        if c.refused:
            return
        self.serial += 1
        self.conns.append(c)
        c.life = self
        if hold:
            k = len(data) // 2
            c.deliver(data[:k])
            sim.after(hold, lambda: (c.deliver(data[k:]), c.finish()))
        else:
            c.deliver(data)
            c.finish()

    def in_progress(self):
        return [c for c in self.conns if c.accepted_by is not None and not c.closed]

    def reloading(self):
        return any(not t.done and "load_config" in repr(getattr(getattr(t, "thread", None), "_target", ""))
                   for t in self.sim.tasks if t.proc.alive)

    def note_stop(self):
        sim = self.sim
        self.stops += 1
        if self.stop_at is None:
            self.stop_at = sim.now
        for cond, name in ((self.in_progress(), "stop meets request"), (self.reloading(), "stop meets reload"),
                           (self.stops > 1, "stop twice")):
            if cond:
                sim.probe(name)
                self.interesting = True

    def wait_gone(self, why):
        sim, w = self.sim, self.w
        if not sim.block(lambda: not procs(sim), BOUND, "stopped"):
            raise Violation("not stopped", "%s, but %g s later these processes are alive: %s" % (
                why, BOUND, [p.name for p in procs(sim)]))
        text = pidfile(w)
        if text is not None:
            raise Violation("stale pidfile", "%s, no process is left, but the process id file still says %r" % (
                why, text))
        self.check_answers()

    def check_answers(self):
        for c in self.conns:
            if c.accepted_by is None or not c.closed:
                continue
            r = H.Response(bytes(c.out), "SYMBOLS")
            if r.problem or r.code != 0:
                raise Violation("cut off", "a request accepted by %s at %.3f got %r (%s)" % (
                    c.accepted_by.name, c.accepted_at - sim_start(self.sim), bytes(c.out)[:200], r.problem))
        self.conns = [c for c in self.conns if c.accepted_by is not None and not c.closed]


def sim_start(sim):
    return sim.start


def life(sim, plan):
    w = H.new_world(sim)
    gen.internet(w)
    H.put_config(w, plan["files"])
    sim.switch_weight = 8
    H.preempt(sim, lines=("/scripts/oad.py", "/oa/server.py", "/spoon/server.py", "/spoon/daemon.py"),
              calls=("/oa/rules/parser.py", "/oa/protocol/", "/socketserver.py"), line_percent=plan["line"], call_percent=2)
    L = Life(sim, w, plan)

    def kill(pid, signum):
        me = sim.current.proc
        what = me.data.get("action")
        if what:
            p = sim.procs.get(pid)
            m = L.master()
            if p is None or "launch" not in p.data or (m is not None and p is not m and pid not in L.masters):
                raise Violation("wrong process", "%s signals process %d, but the serving one is %s" % (
                    what, pid, m and m.pid))
            if signum != {"reload": signal.SIGUSR1, "stop": signal.SIGTERM}[what]:
                raise Violation("wrong signal", "%s sends signal %d" % (what, signum))
            if what == "stop":
                L.note_stop()
        sim.send_signal(pid, signum)
    os.kill = kill

    def on_accept(c):
        m = L.master()
        if m is not None:
            L.masters.add(m.pid)
            if "-d" in m.data["argv"]:
                L.detached.add(m.pid)
                if pidfile(w) != "%d\n" % m.pid:
                    raise Violation("pidfile", "process %d (master %d) accepts a connection, but the process id "
                                    "file says %r" % (c.accepted_by.pid, m.pid, pidfile(w)))
    w.on_accept = on_accept

    def on_remove(vp):
        if vp == H.PIDFILE and L.in_progress():
            text = pidfile(w)
            m = L.master()
            if m is not None and text == "%d\n" % m.pid:
                raise Violation("early removal", "%s removes the process id file while a request is still in progress"
                                % sim.current.proc.name)
    w.on_remove = on_remove

    for n, part in enumerate(plan["lives"]):
        if n:
            sim.probe("several lives")
        one_life(sim, w, L, part)
        if part["kind"] == "overlap":
            continue
    sim.tracer = None
    H.finish(sim)
    return L.interesting


def one_life(sim, w, L, part):
    args = list(part["args"])
    L.stops = 0
    L.stop_at = None
    sim.probe("detached" if "-d" in args else "foreground")
    if "--prefork" in args:
        sim.probe("prefork")
    fault = part["fault"]
    w.fork_fault = w.open_faults = None
    if fault and fault[0] == "fork":
        left = [fault[1]]

        def fork_fault():
            left[0] -= 1
            if left[0] < 0:
                return OSError(errno.EAGAIN, "Resource temporarily unavailable")
        w.fork_fault = fork_fault
    elif fault and fault[0] == "pidfile":
        w.open_faults = lambda vp, mode: OSError(fault[1], "injected") if vp == H.PIDFILE and "w" in mode else None
    elif fault and fault[0] == "config":
        good = L.plan["files"]
        H.put_config(w, {"10_all.cf": good["10_all.cf"] + "\nrequired_score abc\n"})
        args.append("-P")
    d = L.launch(args, "oad%d" % L.serial)
    L.serial += 1
    if part["early"] is not None:
        for dummy in range(part["early"]):
            sim.yield_point("client", 70)
        target = L.master() or d.proc
        if target.alive:
            sim.probe("stop during start")
            L.interesting = True
            L.note_stop()
            sim.send_signal(target.pid, signal.SIGTERM)
    m = L.wait_start(d)
    w.fork_fault = w.open_faults = None
    if m is None:
        if fault is None and part["early"] is None:
            raise Violation("start", "a sound start ends without a serving process: %s" % (d.error,))
        if fault:
            sim.probe({"fork": "fork fails", "pidfile": "pidfile fails", "config": "broken start"}[fault[0]])
        L.wait_gone("a start that failed (%s) is over" % (fault,))
        if fault and fault[0] == "config":
            H.put_config(w, {"10_all.cf": L.plan["files"]["10_all.cf"]})
        return
    if fault and fault[0] == "config":
        raise Violation("start", "the daemon starts in paranoid mode on broken configuration")
    for act in part["acts"]:
        kind = act[0]
        if kind == "req":
            L.send(act[1])
        elif kind == "action":
            if act[1] == "reload" and act[2] and not L.stops:
                L.k += 1
                version(w, L)
            L.action(act[1])
        elif kind == "signal":
            m = L.master()
            if m is not None:
                if act[1] == 15:
                    L.note_stop()
                sim.send_signal(m.pid, act[1])
        elif kind == "steps":
            for dummy in range(act[1]):
                sim.yield_point("client", 60)
        elif kind == "wait":
            sim.advance(act[1])
        elif kind == "second":
            second(sim, w, L, act)
        elif kind == "settle":
            settle(sim, w, L)
        L.check_pidfile("after %s" % (act[0],))
    if not L.stops:
        settle(sim, w, L)
        if "-d" in args:
            L.action("stop")
        else:
            L.note_stop()
            sim.send_signal(L.master().pid, signal.SIGTERM)
    if part["kind"] == "overlap":
        # the next one is started before this one is gone: it serves, or it gives up
        d2 = L.launch(args, "oad%d" % L.serial)
        L.serial += 1
        sim.probe("start during stop")
        L.interesting = True
        sim.block(lambda: all(a.task.done for a in L.actions), BOUND, "actions")
        m2 = L.wait_start(d2)
        if m2 is not None:
            L.stops = 0
            L.check_pidfile("after a start during a stop")
            L.note_stop()
            sim.send_signal(m2.pid, signal.SIGTERM)
    sim.block(lambda: all(a.task.done for a in L.actions), BOUND, "actions")
    L.wait_gone("the daemon was told to stop")
    if part["after"]:
        sim.probe("stop when stopped")
        a = L.action("stop")
        sim.block(lambda: a.task.done, BOUND, "stop")
    for a in L.actions:
        if not a.task.done:
            raise Violation("stuck", "the command %s never ends" % a.name)
    L.actions = []


def version(w, L):
    H.put_config(w, {"10_all.cf": L.plan["files"]["10_all.cf"] + "body V_%d /./\nscore V_%d 0.1\n" % (L.k, L.k)})


def settle(sim, w, L):
    """Everything asked for so far has happened."""
    sim.block(lambda: all(a.task.done for a in L.actions), BOUND, "actions")
    m = L.master()

    def idle():
        return not any(p.pending or p.main_task.in_handler for p in procs(sim)) and not L.reloading()
    sim.block(idle, BOUND, "idle")
    if L.stops:
        return
    if m is None or not m.alive:
        raise Violation("died", "the daemon is gone although nobody stopped it")
    if not sim.block(lambda: not L.in_progress() and all(c.closed or c.refused for c in L.conns), BOUND, "answers"):
        raise Violation("no answer", "requests are not answered within %g s" % BOUND)
    L.check_answers()
    c = w.connect(783)
    c.deliver(L.plan["requests"][0])
    c.finish()
    sim.block(lambda: c.closed, BOUND, "answer")
    r = H.Response(bytes(c.out), "SYMBOLS")
    if r.problem:
        raise Violation("no answer", "after a reload: %s" % r.problem)
    if L.k:
        if "V_%d" % L.k not in r.symbols:
            raise Violation("reload lost", "the reload command has no effect: %s without V_%d" % (r.symbols, L.k))
        sim.probe("reload took effect")


def second(sim, w, L, act):
    """Somebody starts the daemon again although it is running."""
    before = pidfile(w)
    old = L.master()
    if old is None or L.stops:
        return
    d = L.launch(act[1], "second%d" % L.serial)
    L.serial += 1
    if act[2]:
        L.send(0.0)
    mine = lambda: [p for p in procs(sim) if p.data["launch"] == d.proc.pid]
    if not sim.block(lambda: not mine(), BOUND, "second"):
        raise Violation("second daemon", "a second daemon on the same port does not give up")
    if not old.alive or L.master() is not old:
        raise Violation("second daemon", "a second daemon on the same port displaces the first")
    if pidfile(w) != before:
        raise Violation("pidfile", "a second daemon, which could not start, changed the process id file from %r to %r" % (
            before, pidfile(w)))
    sim.probe("second daemon refused")


def run(sim):
    files, names = gen.config(sim, nmax=2, net=False)
    text = files["init.pre"] + "".join(files[n] for n in sorted(files) if n.endswith(".cf"))
    text += "body ALWAYS /./\nscore ALWAYS 0.2\n"
    plan = {"files": {"10_all.cf": text}, "line": sim.pick("line", [6, 2, 20])}
    plan["requests"] = [H.make_request("SYMBOLS", b"Subject: x%d\r\n\r\nsome text\r\n" % k) for k in range(2)]
    lives = []
    for dummy in range(sim.int("lives", 1, 3)):
        args = [] if sim.chance("foreground", 25) else ["-d"]
        if sim.chance("prefork", 30):
            args += ["--prefork", "2"]
        fault = None
        if sim.chance("fault", 15):
            kinds = [("config",)]
            if "-d" in args:
                kinds += [("fork", 0), ("fork", 1), ("pidfile", errno.ENOSPC), ("pidfile", errno.EACCES)]
            fault = sim.pick("faultkind", kinds)
        early = sim.int("early", 0, 120) if not fault and sim.chance("early", 15) else None
        acts = []
        for dummy2 in range(sim.int("acts", 2, 8)):
            k = sim.wpick("act", [("req", 30), ("steps", 20), ("wait", 6), ("reload", 14), ("stop", 8),
                                  ("sigterm", 5), ("sigusr1", 7), ("second", 8), ("settle", 8)])
            if k == "req":
                acts.append(("req", sim.pick("hold", [0.0, 0.05, 2.0, 8.0])))
            elif k == "steps":
                acts.append(("steps", sim.int("steps", 1, 40)))
            elif k == "wait":
                acts.append(("wait", sim.pick("waitlen", [0.01, 0.1, 1.0])))
            elif k in ("reload", "stop") and "-d" in args:
                acts.append(("action", k, sim.chance("newversion", 60)))
            elif k in ("sigterm", "stop"):
                acts.append(("signal", 15))
            elif k in ("sigusr1", "reload"):
                acts.append(("signal", 10))
            elif k == "second":
                acts.append(("second", ["-d"] if sim.chance("second detached", 60) else [], sim.chance("req", 50)))
            else:
                acts.append(("settle",))
        lives.append({"args": args, "fault": fault, "early": early, "acts": acts,
                      "kind": "overlap" if sim.chance("overlap", 20) else "plain", "after": sim.chance("after", 30)})
    plan["lives"] = lives
    interesting = iso(sim, life, plan)
    return {"nontrivial": interesting,
            "sample": [(p["args"], p["fault"], p["early"], [a[0:2] for a in p["acts"]], p["kind"]) for p in lives]}


def setup():
    H.preload()
