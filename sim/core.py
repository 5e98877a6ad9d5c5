"""The simulator: one seed -> one execution.

Everything that is decided during a run is decided by ``Sim.choose`` and recorded; a replay
file is the list of recorded decisions.  Tasks are real threads that are parked and released
one at a time, so that the simulator and nothing else decides who runs.
"""
import _thread
import collections
import hashlib
import heapq
import io
import os
import pickle
import random as _random
import signal as _signal
import sys
import time as _time
import traceback

_Random = _random.Random
_real_time = _time.time
_real_monotonic = _time.monotonic
_real_fork = os.fork
_real_waitpid = os.waitpid
_real_exit = os._exit
_real_kill = os.kill
_real_getpid = os.getpid
_real_pipe = os.pipe
_allocate_lock = _thread.allocate_lock

CUR = None          # the simulation of this process

EPOCH = 1700000000.0    # Tue Nov 14 22:13:20 UTC 2023


class Violation(Exception):
    """The property under test is broken."""

    def __init__(self, kind, detail=""):
        super(Violation, self).__init__(kind, detail)
        self.kind = kind
        self.detail = detail


class Known(Exception):
    """A run stopped at a listed finding."""


class HarnessError(Exception):
    """The machinery itself is broken (never a violation).

    The code under test catches exceptions broadly, so the first one is remembered."""

    def __init__(self, *args):
        super(HarnessError, self).__init__(*args)
        if CUR is not None and CUR.broken is None:
            CUR.broken = "%s\n%s" % (" ".join(map(str, args)), "".join(traceback.format_stack(limit=12)))


class SimCrash(BaseException):
    """The simulated process dies here (power loss / SIGKILL)."""


class SimExit(BaseException):
    """os._exit / sys.exit of a simulated process."""

    def __init__(self, code=0):
        super(SimExit, self).__init__(code)
        self.code = code


class StopSim(BaseException):
    """Unwinds a task at the end of a scenario."""


class Proc(object):
    """A simulated operating system process."""

    def __init__(self, sim, name, pid):
        self.sim = sim
        self.name = name
        self.pid = pid
        self.handlers = {}
        self.pending = []
        self.alive = True
        self.exit_code = None
        self.main_task = None
        self.parent = None
        self.reaped = False
        self.data = {}

    def __repr__(self):
        return "<Proc %s %s>" % (self.pid, self.name)


class Task(object):
    def __init__(self, sim, name, fn, proc):
        self.sim = sim
        self.name = name
        self.fn = fn
        self.proc = proc
        self.lock = _allocate_lock()
        self.lock.acquire()
        self.done = False
        self.pred = None            # None: ready to run
        self.deadline = None
        self.exc = None
        self.result = None
        self.kill = None            # exception to raise at the next resume
        self.in_handler = False
        self.started = False

    def __repr__(self):
        return "<Task %s>" % self.name


class Sim(object):
    def __init__(self, seed=0, choices=None, max_steps=400000, max_choices=60000):
        self.seed = seed
        self.replay = list(choices) if choices is not None else None
        self.rpos = 0
        self.rng = _Random(seed)
        self.choices = []
        self.labels = []
        self.stats = collections.Counter()
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.events = []
        self.trace_hash = hashlib.sha1()
        self.now = EPOCH
        self.skew = 0.0
        self.start = EPOCH
        self.steps = 0
        self.max_steps = max_steps
        self.max_choices = max_choices
        self.queue = []
        self.qseq = 0
        self.tasks = []
        self.procs = {}
        self.next_pid = 1000
        self.current = None
        self.main = None
        self.failure = None
        self.switch_weight = 0      # percent chance to switch at a preemption point
        self.preempt_on = False
        self.no_preempt = 0
        self.quiet = 0
        self.sim_time_total = 0.0
        self.known = []
        self.samples = []
        self.broken = None

    # ------------------------------------------------------------ decisions
    def choose(self, label, n):
        """An integer in [0, n).  0 must always be the simplest alternative."""
        if n <= 1:
            return 0
        if self.replay is not None:
            if self.rpos < len(self.replay):
                v = self.replay[self.rpos]
                self.rpos += 1
                v = v if 0 <= v < n else (v % n)
            else:
                v = 0
        else:
            v = self.rng.randrange(n)
        return self._record(label, v)

    def _record(self, label, v):
        self.choices.append(v)
        self.labels.append(label)
        if len(self.choices) > self.max_choices:
            raise HarnessError("too many decisions (%s)" % label)
        return v

    def weighted(self, label, weights):
        """Index into weights, drawn by weight (recorded as the plain index)."""
        n = len(weights)
        if n <= 1:
            return 0
        if self.replay is not None:
            return self.choose(label, n)
        total = sum(weights)
        x = self.rng.randrange(total)
        for i, w in enumerate(weights):
            if x < w:
                break
            x -= w
        return self._record(label, i)

    def wpick(self, label, pairs):
        """A value from [(value, weight), ...]."""
        return pairs[self.weighted(label, [w for dummy, w in pairs])][0]

    def chance(self, label, percent):
        """True with the given probability; False is the simple outcome."""
        if percent <= 0:
            return False
        if percent >= 100:
            return True
        return bool(self.weighted(label, [100 - percent, percent]))

    def pick(self, label, seq):
        return seq[self.choose(label, len(seq))]

    def subset(self, label, seq, percent=50):
        return [x for x in seq if self.chance(label, percent)]

    def shuffled(self, label, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.choose(label, len(seq))))
        return out

    def int(self, label, lo, hi):
        return lo + self.choose(label, hi - lo + 1)

    # ------------------------------------------------------------ log
    def event(self, *what):
        """Record what happened (part of the determinism proof and of the replay file)."""
        if self.quiet:
            return
        line = (round(self.now - self.start, 6), self.current.name if self.current else "-") + what
        self.trace_hash.update(repr(line).encode("utf8", "replace"))
        if len(self.events) < 4000:
            self.events.append(line)

    def fault(self, kind):
        self.faults[kind] += 1
        self.event("fault", kind)

    def probe(self, name, n=1):
        self.probes[name] += n

    # ------------------------------------------------------------ clock
    def time(self):
        return self.now + self.skew

    def advance(self, seconds):
        """Let simulated time pass in the current task (other tasks may run meanwhile)."""
        if seconds <= 0:
            return
        self.block(lambda: False, timeout=seconds, label="sleep")

    def warp(self, seconds):
        """Let a long idle time pass at once: whatever was due in between happens afterwards."""
        self.event("warp", seconds)
        self.now += seconds

    def at(self, when, fn):
        self.qseq += 1
        heapq.heappush(self.queue, (when, self.qseq, fn))

    def after(self, delay, fn):
        self.at(self.now + delay, fn)

    # ------------------------------------------------------------ tasks
    def attach_main(self):
        proc = self.new_proc("main")
        t = Task(self, "main", None, proc)
        t.started = True
        proc.main_task = t
        self.tasks.append(t)
        self.current = self.main = t
        return t

    def new_proc(self, name):
        pid = self.next_pid
        self.next_pid += 1
        p = Proc(self, name, pid)
        self.procs[pid] = p
        return p

    def spawn(self, name, fn, proc=None, main=False):
        t = Task(self, name, fn, proc or self.current.proc)
        if main:
            t.proc.main_task = t
        self.tasks.append(t)
        _thread.start_new_thread(self._bootstrap, (t,))
        return t

    def _bootstrap(self, t):
        t.lock.acquire()
        t.started = True
        tracer = self.tracer
        if tracer is not None:
            sys.settrace(tracer)
        try:
            if t.kill is not None:
                raise t.kill
            t.result = t.fn()
        except Violation as v:
            if self.failure is None:
                self.failure = v
        except (SimCrash, SimExit, StopSim) as e:
            t.exc = e
        except HarnessError as e:
            self.failure = self.failure or e
        except BaseException as e:
            t.exc = e
            t.tb = traceback.format_exc()
            self.event("task died", t.name, type(e).__name__)
        finally:
            sys.settrace(None)
        t.done = True
        try:
            if t.proc.main_task is t:
                self.proc_exit(t.proc, t.exc)
            self._switch_away(t)
        except BaseException as e:     # pragma: no cover
            if self.failure is None:
                self.failure = HarnessError("scheduler: %r %s" % (e, traceback.format_exc()))
            self.current = self.main
            self.main.lock.release()

    tracer = None

    def proc_exit(self, proc, exc=None):
        if not proc.alive:
            return
        proc.alive = False
        if isinstance(exc, SimExit):
            proc.exit_code = exc.code
        elif isinstance(exc, SimCrash):
            proc.exit_code = -9
        elif exc is None or isinstance(exc, StopSim):
            proc.exit_code = 0
        else:
            proc.exit_code = 1
        self.event("exit", proc.name, proc.exit_code)
        self._orphans(proc)
        # its other threads die with it
        for t in self.tasks:
            if t.proc is proc and not t.done and t is not self.current:
                t.kill = SimCrash()
                t.pred = None

    def _orphans(self, proc):
        """The init process reaps whom no parent waits for."""
        for p in self.procs.values():
            if not p.alive and not p.reaped and (p is proc or p.parent is proc) and (
                    p.parent is None or not p.parent.alive):
                p.reaped = True

    def _runnable(self):
        out = []
        for t in self.tasks:
            if t.done:
                continue
            if t.pred is None or t.kill is not None:
                out.append(t)
            elif t.proc.pending and t is t.proc.main_task and not t.in_handler:
                out.append(t)
            elif t.deadline is not None and t.deadline <= self.now:
                out.append(t)
            elif t.pred():
                out.append(t)
        return out

    def _run_due(self):
        ran = False
        while self.queue and self.queue[0][0] <= self.now:
            dummy, dummy, fn = heapq.heappop(self.queue)
            fn()
            ran = True
        return ran

    def _next_runnable(self, cur):
        """Pick who runs next; advances the clock when nobody can."""
        if len(self.tasks) > 64:
            self.tasks = [t for t in self.tasks if not t.done or t is cur]
        while True:
            self._run_due()
            if self.failure is not None:
                return self.main
            run = self._runnable()
            if run:
                break
            when = None
            for t in self.tasks:
                if not t.done and t.deadline is not None:
                    when = t.deadline if when is None else min(when, t.deadline)
            if self.queue:
                when = self.queue[0][0] if when is None else min(when, self.queue[0][0])
            if when is None:
                self.failure = Violation("deadlock", "no task can make progress: %s" % [
                    (t.name) for t in self.tasks if not t.done])
                return self.main
            if when > self.now:
                self.now = when
        if len(run) == 1:
            return run[0]
        # the current task first: index 0 means "no switch"
        if cur in run:
            run.remove(cur)
            run.insert(0, cur)
        i = self.choose("sched", len(run))
        return run[i]

    def _switch_away(self, t):
        """Called by a finished task: give the baton to somebody else."""
        nxt = self._next_runnable(t)
        self.current = nxt
        nxt.lock.release()

    def _switch_to(self, nxt):
        cur = self.current
        if nxt is cur:
            return
        self.stats["switches"] += 1
        self.event("run", nxt.name)
        self.current = nxt
        nxt.lock.release()
        cur.lock.acquire()
        self._resumed(cur)

    def _resumed(self, cur):
        if cur is self.main and self.failure is not None:
            raise self.failure
        if cur.kill is not None:
            k = cur.kill
            cur.kill = None
            raise k

    def step(self):
        self.steps += 1
        if not self.current.proc.alive and self.current is not self.main:
            raise SimCrash()        # what runs while a killed process unwinds never happened
        if self.steps > self.max_steps:
            raise Violation("no progress", "more than %d simulated steps" % self.max_steps)

    def yield_point(self, label, percent=None):
        """A point where another task may run (preemption is a seeded decision)."""
        self.step()
        cur = self.current
        if self.no_preempt:
            return
        self._run_due()
        if cur.proc.pending:
            self.run_signals()
        if len(self.tasks) == 1:
            return
        run = [t for t in self._runnable() if t is not cur]
        if not run:
            return
        w = self.switch_weight if percent is None else percent
        if w <= 0 or not self.chance("preempt", w):
            return
        nxt = run[self.choose("to", len(run))]
        self._switch_to(nxt)
        if cur.proc.pending:
            self.run_signals()

    def block(self, pred, timeout=None, label="wait"):
        """Park the current task until pred() holds or the timeout passes.  True if pred held."""
        self.step()
        cur = self.current
        deadline = None if timeout is None else self.now + max(0.0, timeout)
        while True:
            if cur.proc.pending:
                self.run_signals()
            self._run_due()
            if pred():
                return True
            if deadline is not None and self.now >= deadline:
                return False
            cur.pred = pred
            cur.deadline = deadline
            try:
                nxt = self._next_runnable(cur)
                if nxt is not cur:
                    cur_pred = cur.pred
                    self._switch_to(nxt)
                elif self.failure is not None:
                    self._resumed(cur)
            finally:
                cur.pred = None
                cur.deadline = None

    # ------------------------------------------------------------ signals
    def send_signal(self, pid, signum):
        p = self.procs.get(pid)
        if p is None or (not p.alive and p.reaped):
            raise ProcessLookupError(3, "No such process")
        if not p.alive:
            return
        self.event("signal", p.name, int(signum))
        h = p.handlers.get(int(signum), _signal.SIG_DFL)
        if int(signum) == 9 or (h in (_signal.SIG_DFL, 0) and int(signum) in (15, 10, 12, 2, 1)):
            # default action: the process is gone
            p.alive = False
            p.exit_code = -int(signum)
            self._orphans(p)
            for t in self.tasks:
                if t.proc is p and not t.done:
                    t.kill = SimCrash()
            return
        if h == _signal.SIG_IGN or int(signum) == 0:
            return
        if int(signum) not in p.pending:       # standard signals do not queue
            p.pending.append(int(signum))

    def run_signals(self):
        cur = self.current
        p = cur.proc
        if cur is not p.main_task or cur.in_handler:
            return
        while p.pending:
            signum = p.pending.pop(0)
            h = p.handlers.get(signum)
            if callable(h):
                cur.in_handler = True
                saved = cur.pred, cur.deadline
                cur.pred = None
                cur.deadline = None
                try:
                    self.event("handler", p.name, signum)
                    h(signum, None)
                finally:
                    cur.in_handler = False
                    cur.pred, cur.deadline = saved


# ---------------------------------------------------------------- isolation
class _Remote(Exception):
    pass


def iso(sim, fn, *args, **kwargs):
    """Run fn(sim, *args) in a forked copy of this (pristine) process and merge what the
    simulator recorded there.  The copy is thrown away, so nothing it changed in the modules
    under test survives."""
    limit = kwargs.pop("cpu", 60)
    r, w = _real_pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = _real_fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            base = len(sim.choices)
            ebase = len(sim.events)
            _signal.setitimer(_signal.ITIMER_PROF, limit)
            try:
                res = ("ok", fn(sim, *args))
                if sim.broken:
                    res = ("harness", sim.broken)
            except Violation as v:
                res = ("violation", (v.kind, v.detail)) if not sim.broken else ("harness", sim.broken)
            except HarnessError as e:
                res = ("harness", "%s\n%s" % (e, traceback.format_exc()))
            except BaseException:
                res = ("harness", traceback.format_exc())
            _signal.setitimer(_signal.ITIMER_PROF, 0)
            state = (sim.choices[base:], sim.labels[base:], sim.rng.getstate(), sim.rpos,
                     sim.stats, sim.faults, sim.probes, sim.events[ebase:], sim.trace_hash.hexdigest(),
                     sim.now, sim.steps, sim.next_pid, sim.sim_time_total, sim.known, sim.samples)
            data = pickle.dumps((res, state), 4)
            with os.fdopen(w, "wb", closefd=False) as f:
                f.write(data)
            os.close(w)
        except BaseException:
            try:
                os.write(2, ("iso: %s\n" % traceback.format_exc()).encode("utf8", "replace"))
            except BaseException:
                pass
            code = 3
        _real_exit(code)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    dummy, status = _real_waitpid(pid, 0)
    data = b"".join(chunks)
    if not data:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) == _signal.SIGPROF:
            raise Violation("hang", "the code under test does not terminate (more than %d s of CPU)"
                            % limit)
        raise HarnessError("isolated run died, status %s" % status)
    res, state = pickle.loads(data)
    (ch, labels, rngstate, sim.rpos, sim.stats, sim.faults, sim.probes, events, h, now, sim.steps,
     sim.next_pid, sim.sim_time_total, sim.known, sim.samples) = state
    sim.choices.extend(ch)
    sim.labels.extend(labels)
    sim.rng.setstate(rngstate)
    sim.events.extend(events)
    sim.trace_hash.update(h.encode())
    kind, val = res
    if kind == "ok":
        return val
    if kind == "violation":
        raise Violation(*val)
    raise HarnessError(val)


def minimise(fails, choices, budget_s=25.0, max_tries=400):
    """Shrink a list of decisions while ``fails(choices)`` stays true."""
    t0 = _real_monotonic()
    tries = [0]

    def ok():
        return _real_monotonic() - t0 < budget_s and tries[0] < max_tries

    def test(c):
        tries[0] += 1
        return fails(c)

    best = list(choices)
    # drop the tail
    n = len(best)
    lo = 0
    size = n // 2
    while size >= 1 and ok():
        if len(best) > size and test(best[:-size]):
            best = best[:-size]
        else:
            size //= 2
    # zero blocks and delete blocks
    changed = True
    while changed and ok():
        changed = False
        size = max(1, len(best) // 2)
        while size >= 1 and ok():
            i = 0
            while i < len(best) and ok():
                cand = best[:i] + best[i + size:]
                if len(cand) < len(best) and test(cand):
                    best = cand
                    changed = True
                    continue
                if any(best[i:i + size]):
                    cand = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                    if test(cand):
                        best = cand
                        changed = True
                i += size
            size //= 2
        for i in range(len(best)):
            if not ok():
                break
            while best[i] > 1 and ok():
                cand = list(best)
                cand[i] = best[i] // 2
                if test(cand):
                    best = cand
                    changed = True
                else:
                    break
    while best and best[-1] == 0:
        best.pop()
    return best, tries[0]
