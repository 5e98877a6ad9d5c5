"""The simulated world: every seam through which OrangeAssassin meets nondeterminism.

``World(sim, root).install()`` replaces, inside this (forked, throw-away) process only:
threads and locks, clocks and timers, sockets and selectors, DNS packets, files below the
simulated prefixes, sub-processes, SMTP, process identity, signals and forks, randomness.
"""
import builtins
import calendar
import collections
import datetime
import errno
import io
import os
import random
import signal
import socket
import socketserver
import subprocess
import sys
import threading
import time

from . import core
from .core import HarnessError, SimCrash, SimExit, Violation

real = {}

PREFIXES = ("/simfs", "/home", "/etc/resolv.conf", "/var/run", "/run", "/var/log", "/root")


# ------------------------------------------------------------------ threads
def _sim():
    return core.CUR


class SimLock(object):
    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        sim = _sim()
        sim.yield_point("lock")
        if self._owner is not None:
            if not blocking:
                return False
            if not sim.block(lambda: self._owner is None,
                             None if timeout is None or timeout < 0 else timeout, "lock"):
                return False
        self._owner = sim.current
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._owner = None
        _sim().yield_point("unlock")

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner is _sim().current

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0

    def __deepcopy__(self, memo):
        return type(self)()


class SimRLock(SimLock):
    def acquire(self, blocking=True, timeout=-1):
        sim = _sim()
        if self._owner is sim.current:
            self._count += 1
            return True
        if SimLock.acquire(self, blocking, timeout):
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner is not _sim().current:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            SimLock.release(self)

    def __enter__(self):
        return self.acquire()

    def _release_save(self):
        c = self._count
        self._count = 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c


class SimCondition(object):
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else SimRLock()
        self.acquire = self._lock.acquire
        self.release = self._lock.release
        self._waiters = []

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        w = [False]
        self._waiters.append(w)
        saved = self._lock._release_save() if hasattr(self._lock, "_release_save") \
            else self._lock.release()
        ok = _sim().block(lambda: w[0], timeout, "cond")
        if w in self._waiters:
            self._waiters.remove(w)
        if hasattr(self._lock, "_acquire_restore"):
            self._lock._acquire_restore(saved)
        else:
            self._lock.acquire()
        return ok

    def wait_for(self, predicate, timeout=None):
        end = None if timeout is None else _sim().now + timeout
        result = predicate()
        while not result:
            left = None if end is None else end - _sim().now
            if left is not None and left <= 0:
                break
            self.wait(left)
            result = predicate()
        return result

    def notify(self, n=1):
        for w in self._waiters[:n]:
            w[0] = True
        del self._waiters[:n]
        _sim().yield_point("notify")

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class SimEvent(object):
    def __init__(self):
        self._flag = False

    def is_set(self):
        return self._flag

    isSet = is_set

    def set(self):
        self._flag = True
        _sim().yield_point("event set")

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        if self._flag:
            return True
        return _sim().block(lambda: self._flag, timeout, "event")

    def __deepcopy__(self, memo):
        e = SimEvent()
        e._flag = self._flag
        return e

    def _at_fork_reinit(self):
        pass


def _thread_start(self):
    sim = _sim()
    if getattr(self, "_sim_task", None) is not None:
        raise RuntimeError("threads can only be started once")
    sim.stats["threads"] += 1
    name = "%s/t%d" % (sim.current.proc.name, sim.stats["threads"])

    def run():
        try:
            self.run()
        except (SimCrash, SimExit, core.StopSim, Violation, HarnessError):
            raise
        except SystemExit:
            pass

    self._sim_task = sim.spawn(name, run)
    self._sim_task.thread = self
    sim.event("thread", name)
    sim.yield_point("thread start")


def _thread_join(self, timeout=None):
    t = getattr(self, "_sim_task", None)
    if t is None:
        raise RuntimeError("cannot join thread before it is started")
    _sim().block(lambda: t.done, timeout, "join")


def _thread_alive(self):
    t = getattr(self, "_sim_task", None)
    return t is not None and not t.done


# ------------------------------------------------------------------ network
class Conn(object):
    """One client connection, driven by the scenario."""

    def __init__(self, world, port):
        self.world = world
        self.port = port
        self.inbuf = bytearray()     # client -> server, delivered
        self.eof = False             # client finished sending
        self.reset = None            # exception raised at the server on its next call
        self.out = bytearray()       # server -> client
        self.closed = False          # server closed its side
        self.wclosed = False         # server shut down writing
        self.accepted_by = None
        self.accepted_at = None
        self.window = None           # bytes the client will still read (None: all)
        self.refused = False
        self.sock = None             # the server's end
        self.peer = ("127.0.0.1", 40000 + world.next_port())
        self.recv_bytes = 0
        self.short_reads = None

    # --- client side
    def deliver(self, data):
        self.inbuf.extend(data)

    def finish(self):
        self.eof = True

    def abort(self):
        self.reset = ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")

    @property
    def done(self):
        return self.closed or self.refused


class SimSocket(object):
    """Stands in for socket.socket."""
    family = socket.AF_INET
    type = socket.SOCK_STREAM
    proto = 0
    _next_fd = 100

    def __init__(self, family=-1, type=-1, proto=-1, fileno=None, conn=None):
        self.conn = conn
        self.listening = None
        self.addr = None
        self._timeout = None
        self._closed = False
        self._io_refs = 0
        SimSocket._next_fd += 1
        self._fd = SimSocket._next_fd
        self.family = family
        self.type = type

    @property
    def world(self):
        return WORLD

    def __deepcopy__(self, memo):
        return self

    def fileno(self):
        return -1 if self._closed else self._fd

    def setsockopt(self, *a):
        return None

    def getsockopt(self, *a):
        return 0

    def setblocking(self, flag):
        self._timeout = None if flag else 0.0

    def settimeout(self, t):
        self._timeout = t

    def gettimeout(self):
        return self._timeout

    def getblocking(self):
        return self._timeout != 0.0

    def bind(self, addr):
        if self.world.bind_error:
            raise self.world.bind_error
        if addr[1] and self.world.port_held(addr[1]):
            _sim().fault("address in use")
            raise OSError(errno.EADDRINUSE, "Address already in use")
        self.addr = addr

    def getsockname(self):
        return self.addr or ("0.0.0.0", 0)

    def getpeername(self):
        return self.conn.peer

    def listen(self, backlog=5):
        if self.addr is None:
            raise HarnessError("listen before bind")
        w = self.world
        if not w.port_held(self.addr[1]):
            for c in w.listeners.get(self.addr[1], ()):
                c.reset = c.closed = True
            w.listeners[self.addr[1]] = collections.deque()
        w.holders[self.addr[1]] = _sim().current.proc
        self.listening = w.listeners[self.addr[1]]

    def accept(self):
        sim = _sim()
        sim.yield_point("accept")
        q = self.listening
        if not q:
            if self._timeout == 0.0:
                raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
            if not sim.block(lambda: bool(q) or self._closed, self._timeout, "accept"):
                raise socket.timeout("timed out")
        if self._closed:
            raise OSError(errno.EBADF, "Bad file descriptor")
        e = self.world.accept_fault() if self.world.accept_fault else None
        if e is not None:
            raise e
        conn = q.popleft()
        conn.accepted_by = sim.current.proc
        conn.accepted_at = sim.now
        sim.event("accept", sim.current.proc.name, conn.peer[1])
        if self.world.on_accept:
            self.world.on_accept(conn)
        conn.sock = SimSocket(conn=conn)
        return conn.sock, conn.peer

    def connect(self, addr):
        _sim().event("unexpected connect", str(addr))
        self.world.unexpected.append("connect %r" % (addr,))
        raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")

    def connect_ex(self, addr):
        self.world.unexpected.append("connect %r" % (addr,))
        return errno.ECONNREFUSED

    def sendto(self, *a):
        self.world.unexpected.append("sendto %r" % (a[-1],))
        raise OSError(errno.ENETUNREACH, "Network is unreachable")

    # --- connected socket, server side
    def recv(self, n, flags=0):
        c = self.conn
        sim = _sim()
        sim.yield_point("recv")
        if c is None or self._closed:
            raise OSError(errno.EBADF, "Bad file descriptor")
        if not (c.inbuf or c.eof or c.reset):
            if self._timeout == 0.0:
                raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
            if not sim.block(lambda: c.inbuf or c.eof or c.reset, self._timeout, "recv"):
                raise socket.timeout("timed out")
        if c.inbuf:
            if c.short_reads:
                n = min(n, c.short_reads())
            data = bytes(c.inbuf[:n])
            if not (flags & socket.MSG_PEEK):
                del c.inbuf[:n]
                c.recv_bytes += len(data)
            return data
        if c.reset:
            raise c.reset
        return b""

    def recv_into(self, buf, nbytes=0, flags=0):
        data = self.recv(nbytes or len(buf), flags)
        buf[:len(data)] = data
        return len(data)

    def send(self, data, flags=0):
        c = self.conn
        sim = _sim()
        sim.yield_point("send")
        if self._closed or c is None:
            raise OSError(errno.EBADF, "Bad file descriptor")
        if c.reset:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        data = bytes(data)
        if c.window is not None:
            if c.window <= 0:
                if not sim.block(lambda: c.window is None or c.window > 0 or c.reset,
                                 self._timeout, "send"):
                    raise socket.timeout("timed out")
                if c.reset:
                    raise BrokenPipeError(errno.EPIPE, "Broken pipe")
            if c.window is not None:
                data = data[:c.window]
                c.window -= len(data)
        c.out.extend(data)
        return len(data)

    def sendall(self, data, flags=0):
        data = bytes(data)
        while data:
            n = self.send(data, flags)
            data = data[n:]

    def makefile(self, mode="r", buffering=None, **kw):
        raw = socket.SocketIO(self, "".join(x for x in mode if x in "rw"))
        self._io_refs += 1
        if buffering is None or buffering < 0:
            buffering = io.DEFAULT_BUFFER_SIZE
        if buffering == 0:
            return raw
        if "r" in mode and "w" in mode:
            buf = io.BufferedRWPair(raw, raw, buffering)
        elif "r" in mode:
            buf = io.BufferedReader(raw, buffering)
        else:
            buf = io.BufferedWriter(raw, buffering)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, **kw)

    def _decref_socketios(self):
        if self._io_refs > 0:
            self._io_refs -= 1

    _reuse = _drop = lambda self: None

    def shutdown(self, how):
        c = self.conn
        if c is not None:
            if c.reset:
                raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")
            c.wclosed = True

    def close(self):
        if self._closed:
            return
        self._closed = True
        if self.conn is not None:
            self.conn.closed = True
            if self.world.on_close:
                self.world.on_close(self.conn)
            _sim().event("closed", self.conn.peer[1], len(self.conn.out))
        # closing a listening socket in one process leaves the others' open

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def detach(self):
        return self._fd


class SimSelector(object):
    def __init__(self):
        self.files = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        pass

    def register(self, fileobj, events, data=None):
        self.files.append((fileobj, events, data))

    def unregister(self, fileobj):
        self.files = [f for f in self.files if f[0] is not fileobj]

    def _ready(self):
        out = []
        for fileobj, events, data in self.files:
            sock = getattr(fileobj, "socket", fileobj)
            if sock.listening is not None and sock.listening:
                out.append((fileobj, events))
            elif sock.conn is not None and (sock.conn.inbuf or sock.conn.eof or sock.conn.reset):
                out.append((fileobj, events))
        return out

    def select(self, timeout=None):
        sim = _sim()
        sim.yield_point("select")
        w = WORLD
        if w.on_select:
            w.on_select()
        sim.block(lambda: bool(self._ready()), timeout, "select")
        return self._ready()


# ------------------------------------------------------------------ DNS
class SimDNS(object):
    """Authoritative answers and outages for every name; see ``query``."""

    def __init__(self, world):
        self.world = world
        self.zone = {}            # (name, type) -> list of rdata text
        self.exists = set()
        self.mode = lambda name, qtype, server, nth: "ok"
        self.latency = lambda name, qtype, server, nth: 0.01
        self.log = []             # (time, name, type, server, port, source)
        self.count = collections.Counter()
        self.default_nx = True
        self.dispatch = None

    def add(self, name, qtype, *rdata):
        name = name.lower().rstrip(".")
        self.zone.setdefault((name, qtype), []).extend(rdata)
        while "." in name:
            self.exists.add(name)
            name = name.split(".", 1)[1]
        self.exists.add(name)

    def query(self, q, where, timeout, port, via):
        import dns.exception
        import dns.flags
        import dns.message
        import dns.name
        import dns.rcode
        import dns.rdatatype
        import dns.rrset
        sim = _sim()
        question = q.question[0]
        name = question.name.to_text(omit_final_dot=True).lower()
        qtype = dns.rdatatype.to_text(question.rdtype)
        self.count[name] += 1
        nth = self.count[name]
        self.log.append((sim.now, name, qtype, where, port, self._source(), timeout))
        self.world.external("dns", name, qtype)
        sim.event("dns", name, qtype, where, port)
        sim.stats["dns packets"] += 1
        mode = self.mode(name, qtype, where, nth)
        lat = self.latency(name, qtype, where, nth)
        if mode != "ok":
            sim.fault("dns " + mode)
        if mode == "timeout" or (timeout is not None and lat >= timeout):
            sim.advance(timeout if timeout is not None else 1e6)
            raise dns.exception.Timeout
        sim.advance(lat)
        if mode == "garbage":
            raise dns.exception.FormError("DNS message is malformed.")
        if mode == "refused_conn":
            raise OSError(errno.ECONNREFUSED, "Connection refused")
        r = dns.message.make_response(q)
        if mode in ("servfail", "refused"):
            r.set_rcode(dns.rcode.SERVFAIL if mode == "servfail" else dns.rcode.REFUSED)
            return r
        if mode in ("yxdomain", "formerr", "notimp"):
            r.set_rcode(dns.rcode.from_text(mode.upper()))
            return r
        if mode == "truncated" and via == "udp":
            r.flags |= dns.flags.TC
            return r
        if mode == "nxdomain":
            r.set_rcode(dns.rcode.NXDOMAIN)
            return r
        if mode == "empty":
            return r
        data = self.zone.get((name, qtype))
        if data is None:
            if name not in self.exists:
                r.set_rcode(dns.rcode.NXDOMAIN)
            return r
        data = list(data)
        rrset = dns.rrset.from_text(question.name, 300, "IN", qtype, *data)
        r.find_rrset(r.answer, question.name, rrset.rdclass, rrset.rdtype, create=True).update(rrset)
        return r

    @staticmethod
    def _source():
        f = sys._getframe(2)
        n = 0
        while f is not None and n < 40:
            fn = f.f_code.co_filename
            if fn.endswith("/spf.py") and "site-packages" in fn:
                return "spf"
            f = f.f_back
            n += 1
        return "oa"

    def udp(self, q, where, timeout=None, port=53, *a, **kw):
        return self.query(q, where, timeout, port, "udp")

    def tcp(self, q, where, timeout=None, port=53, *a, **kw):
        return self.query(q, where, timeout, port, "tcp")


# ------------------------------------------------------------------ subprocess
class SimPopen(object):
    def __init__(self, args, *a, **kw):
        w = WORLD
        sim = _sim()
        if isinstance(args, str):
            args = [args]
        self.args = list(args)
        w.external("exec", os.path.basename(self.args[0]), " ".join(map(str, self.args[1:])))
        sim.event("exec", " ".join(map(str, self.args)))
        sim.stats["subprocesses"] += 1
        handler = w.programs.get(os.path.basename(self.args[0]))
        if handler is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory: %r" % self.args[0])
        plan = handler(self.args)       # dict: error, duration, returncode, out, err
        if plan.get("error"):
            sim.fault("exec " + type(plan["error"]).__name__)
            raise plan["error"]
        self.plan = plan
        self.pid = w.next_port() + 5000
        self.returncode = None
        self._sim_started = sim.now
        self._sim_killed = False
        self._sim_exited = False
        self.input = b""
        self.stdin = _PopenIn(self)
        self.stdout = _PopenOut(self, "out")
        self.stderr = _PopenOut(self, "err")
        d = plan.get("duration", 0.05)
        if d is None:
            sim.fault("exec hang")
            self._end = None
        else:
            self._end = sim.now + d
        w.children.append(self)

    def _finished(self):
        return self._sim_killed or (self._end is not None and _sim().now >= self._end)

    def _reap(self):
        if self.returncode is None:
            self.returncode = -9 if self._sim_killed and not (
                self._end is not None and self._end <= self._killed_at) \
                else self._code()
            self._sim_exited = True

    def _code(self):
        rc = self.plan.get("returncode", 0)
        return rc(self.input) if callable(rc) else rc

    def poll(self):
        if self._finished():
            self._reap()
        return self.returncode

    def wait(self, timeout=None):
        sim = _sim()
        left = None if self._end is None else max(0.0, self._end - sim.now)
        if left is not None and (timeout is None or left <= timeout):
            if sim.block(lambda: self._sim_killed, left, "subprocess") or self._finished():
                self._reap()
                return self.returncode
        elif not sim.block(lambda: self._sim_killed, timeout, "subprocess"):
            raise subprocess.TimeoutExpired(self.args, timeout)
        self._reap()
        return self.returncode

    def communicate(self, input=None, timeout=None):
        if input is not None and not isinstance(input, (bytes, bytearray)):
            raise TypeError("a bytes-like object is required, not %r" % type(input).__name__)
        if input:
            self.input += bytes(input)
        if self.plan.get("epipe"):
            _sim().fault("exec closed stdin")      # Popen.communicate ignores EPIPE
        self.wait(timeout)
        if self._sim_killed:
            return self.plan.get("out", b"")[:0], b""
        return self.plan.get("out", b""), self.plan.get("err", b"")

    def kill(self):
        if self.returncode is None and not self._sim_killed:
            self._sim_killed = True
            self._killed_at = _sim().now
            _sim().event("kill", self.args[0])

    def terminate(self):
        self.send_signal(15)

    def send_signal(self, sig):
        if self.plan.get("stubborn") and sig != 9:
            _sim().fault("exec ignores signal")
            _sim().event("ignored", self.args[0], int(sig))
        else:
            self.kill()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


class _PopenIn(object):
    def __init__(self, p):
        self.p = p

    def write(self, data):
        if self.p.plan.get("epipe"):
            _sim().fault("exec closed stdin")
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        self.p.input += data
        return len(data)

    def flush(self):
        pass

    def close(self):
        pass


class _PopenOut(object):
    def __init__(self, p, which):
        self.p = p
        self.which = which

    def read(self, n=-1):
        self.p.wait()
        if self.p._sim_killed:
            return b""
        return self.p.plan.get(self.which, b"")

    def readlines(self):
        return self.read().splitlines(True)

    def close(self):
        pass


# ------------------------------------------------------------------ databases
_sqlite = {}


def _sqlite_types():
    """SQLite connections and cursors with a seam at every call: another process may run, the call
    may fail, the process may die before or after it.  Locks are waited for in simulated time."""
    if _sqlite:
        return _sqlite["conn"]
    from sqlite3 import dbapi2

    def call(conn, op, sql, fn):
        sim = conn._w.sim
        w = conn._w
        if conn._proc is not None and not conn._proc.alive:
            raise SimCrash()
        sim.yield_point("db", w.db_switch)
        fate = w.db_plan(op, sql, conn) if w.db_plan is not None else None
        if fate == "crash before":
            w.db_crash()
        if isinstance(fate, BaseException):
            sim.fault("db %s" % fate)
            raise fate
        deadline = sim.now + conn._timeout
        while True:
            w.db_reap()
            try:
                r = fn()
                break
            except dbapi2.OperationalError as e:
                if "locked" not in str(e) and "busy" not in str(e):
                    raise
                sim.probe("database locked")
                if sim.now >= deadline:
                    sim.event("db", "lock timeout")
                    raise
                sim.advance(0.05)
        word = (sql or "").split(None, 1)[0].upper() if sql else op
        if word not in ("SELECT", "PRAGMA"):
            w.db_log.append((sim.now, sim.current.proc.name, word))
        sim.event("db", word)
        if fate == "crash after":
            w.db_crash()
        return r

    class SimCursor(dbapi2.Cursor):
        def __init__(self, con):
            dbapi2.Cursor.__init__(self, con)
            self._con = con

        def execute(self, sql, params=()):
            return call(self._con, "execute", sql, lambda: dbapi2.Cursor.execute(self, sql, params))

        def executemany(self, sql, params=()):
            return call(self._con, "execute", sql, lambda: dbapi2.Cursor.executemany(self, sql, params))

    class SimConn(dbapi2.Connection):
        _w = None
        _proc = None
        _timeout = 5.0

        def cursor(self, factory=None):
            return dbapi2.Connection.cursor(self, SimCursor)

        def commit(self):
            if not self.in_transaction:
                return None
            return call(self, "commit", None, lambda: dbapi2.Connection.commit(self))

        def rollback(self):
            if self._proc is not None and not self._proc.alive:
                raise SimCrash()
            self._w.sim.event("db", "rollback")
            return dbapi2.Connection.rollback(self)

        def close(self):
            if self in self._w.db_conns:
                self._w.db_conns.remove(self)
            return dbapi2.Connection.close(self)

    _sqlite["conn"] = SimConn
    return SimConn


class SimMySQL(object):
    """Stands in for a pymysql connection: the same calls on an SQLite database."""

    def __init__(self, w, host=None, port=3306, user=None, passwd=None, db=None):
        import pymysql
        w.external("mysql", host, port, user, passwd, db)
        e = w.db_connect_plan() if w.db_connect_plan is not None else None
        if e is not None:
            w.sim.fault("db connect")
            raise pymysql.OperationalError(2003, "Can't connect to MySQL server on %r" % host)
        self._conn = w.sqlite("/simfs/db/%s.db" % db)

    def cursor(self):
        return SimMyCursor(self._conn)

    def _run(self, fn):
        import pymysql
        import sqlite3
        try:
            return fn()
        except sqlite3.IntegrityError as e:
            raise pymysql.IntegrityError(1062, str(e))
        except sqlite3.Error as e:
            raise pymysql.OperationalError(1205, str(e))

    def commit(self):
        return self._run(self._conn.commit)

    def rollback(self):
        return self._run(self._conn.rollback)

    def close(self):
        self._conn.close()


class SimMyCursor(object):
    def __init__(self, conn):
        self._conn = conn
        self._rows = []

    def execute(self, sql, params=()):
        if not isinstance(params, (tuple, list)):
            params = (params,)
        sql = sql.replace("%s", "?").replace("INSERT IGNORE", "INSERT OR IGNORE").replace("`", '"')

        def run():
            c = self._conn.cursor()
            c.execute(sql, tuple(params))
            if sql.lstrip().upper().startswith("SELECT"):
                self._rows = c.fetchall()
                n = len(self._rows)
            else:
                n = c.rowcount
            c.close()
            return n
        return SimMySQL._run(self, run)

    def fetchall(self):
        r, self._rows = self._rows, []
        return tuple(r)

    def fetchone(self):
        return self._rows.pop(0) if self._rows else None

    def close(self):
        pass


# ------------------------------------------------------------------ pyzor
class SimPyzor(object):
    """Stands in for pyzor.client.BatchClient (the installed one does not run on Python 3); the
    exceptions and the response class are the real ones."""

    def __init__(self, accounts=None, timeout=None, spec=None, batch_size=10):
        self.timeout = 5 if timeout is None else timeout

    def __deepcopy__(self, memo):
        return self

    def _ask(self, op, digest, address):
        import pyzor
        w = WORLD
        sim = _sim()
        host, port = address[0], int(address[1])
        w.external("pyzor", op, "%s:%d" % (host, port))
        sim.event("pyzor", op, host, port, str(digest)[:8])
        w.pyzor_log.append((sim.now, op, "%s:%d" % (host, port), digest, self.timeout))
        mode = w.pyzor_plan("%s:%d" % (host, port), op)
        if mode not in ("ok",) and not isinstance(mode, tuple):
            sim.fault("pyzor " + mode)
        if mode == "timeout":
            sim.advance(self.timeout)
            raise pyzor.TimeoutError("Reading response timed-out.")
        sim.advance(0.02)
        if mode == "comm":
            raise pyzor.CommError("Unable to send")
        if mode == "protocol":
            raise pyzor.ProtocolError("received unexpected thread id")
        if mode == "incomplete":
            raise pyzor.IncompleteMessageError("pyzor.proto_version not present")
        if mode == "gaierror":
            raise socket.gaierror(-2, "Name or service not known")
        if mode == "oserror":
            raise OSError(errno.ENETUNREACH, "Network is unreachable")
        return mode

    def check(self, digest, address=("public.pyzor.org", 24441)):
        import email.message
        mode = self._ask("check", digest, address)
        r = email.message.Message()
        if mode == "denied":
            r["Code"], r["Diag"] = "403", "Forbidden"
            return r
        count, wl = WORLD.pyzor_counts(digest, "%s:%d" % (address[0], int(address[1]))) if mode == "ok" \
            else ("many", "0") if mode == "garbage" else mode
        r["Code"], r["Diag"] = "200", "OK"
        r["Count"], r["WL-Count"] = str(count), str(wl)
        return r

    def report(self, digest, address=("public.pyzor.org", 24441)):
        self._ask("report", digest, address)

    def whitelist(self, digest, address=("public.pyzor.org", 24441)):
        self._ask("whitelist", digest, address)

    def ping(self, address=("public.pyzor.org", 24441)):
        self._ask("ping", "", address)

    def force(self):
        pass

    def flush(self):
        pass


# ------------------------------------------------------------------ SMTP
class SimSMTP(object):
    """smtplib.SMTP whose every step may fail or hang."""

    def __init__(self, host="", port=0, local_hostname=None, timeout=None, **kw):
        import smtplib
        w = WORLD
        self._timeout = timeout
        self.host = host
        self.port = port
        self.dead = False
        self.session = {"host": host, "port": port, "mails": [], "steps": []}
        self._mark(False)
        w.smtp_sessions.append(self.session)
        if host:
            code, text = self.connect(host, port)
            if code != 220:
                self.close()
                raise smtplib.SMTPConnectError(code, text)

    def _mark(self, is_open):
        self.open = self.session["open"] = is_open

    def _step(self, name):
        import smtplib
        w = WORLD
        sim = _sim()
        w.external("smtp", name, "%s:%s" % (self.host, self.port))
        sim.event("smtp", name, self.host, self.port)
        self.session["steps"].append(name)
        plan = w.smtp_plan(name, self.session)
        if plan == "ok":
            sim.advance(0.05)
            return
        sim.fault("smtp %s %s" % (name, plan))
        early = name == "connect"
        if plan in ("refused", "gaierror") and early:
            raise (ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused") if plan == "refused" else
                   socket.gaierror(-2, "Name or service not known"))
        if plan == "hang":
            t = self._timeout
            if t is None or not isinstance(t, (int, float)):
                t = socket.getdefaulttimeout()
            if t is None:
                w.smtp_hung = True
                sim.advance(1e7)
            else:
                sim.advance(t)
            if early:
                raise socket.timeout("timed out")
        if plan in ("refused", "gaierror", "disconnect", "reset", "hang"):
            # smtplib closes the connection and says so
            self._mark(False)
            raise smtplib.SMTPServerDisconnected("Connection unexpectedly closed")
        if early:
            # a greeting other than 220 is returned, the connection stays open for now
            self._mark(True)
            self.dead = True
            return 554
        if name == "quit":
            return 554
        if plan == "helo" and name == "helo":
            return 500
        if plan == "recipients":
            raise smtplib.SMTPRecipientsRefused({"x": (550, b"no")})
        if plan in ("response", "connect554", "helo"):
            raise smtplib.SMTPDataError(554, b"Rejected")
        raise HarnessError("smtp plan %r" % plan)

    def connect(self, host="localhost", port=0, *a, **kw):
        self.host = host
        self.port = port
        self.session["host"] = host
        self.session["port"] = port
        code = self._step("connect")
        if code:
            return (code, b"No")
        self._mark(True)
        return (220, b"ok")

    def _need_open(self):
        import smtplib
        if not self.open:
            raise smtplib.SMTPServerDisconnected("please run connect() first")
        if self.dead:
            self._mark(False)
            raise smtplib.SMTPServerDisconnected("Connection unexpectedly closed")

    def helo(self, *a):
        self._need_open()
        code = self._step("helo")
        if code:
            self.refused_helo = True
            return (code, b"no")
        return (250, b"ok")

    ehlo = helo

    def ehlo_or_helo_if_needed(self):
        return self.helo()

    def set_debuglevel(self, *a):
        pass

    def sendmail(self, from_addr, to_addrs, msg, *a, **kw):
        import smtplib
        self._need_open()
        if getattr(self, "refused_helo", False):
            # sendmail says hello again, and again is refused
            raise smtplib.SMTPHeloError(500, b"no")
        self._step("mail")
        if isinstance(to_addrs, str):
            to_addrs = [to_addrs]
        if isinstance(msg, str):
            msg.encode("ascii")          # smtplib: must be ASCII
        self.session["mails"].append((from_addr, tuple(to_addrs), msg))
        return {}

    def send_message(self, msg, from_addr=None, to_addrs=None, *a, **kw):
        return self.sendmail(from_addr or msg["From"], to_addrs or [msg["To"]], msg.as_string())

    def rset(self):
        return (250, b"ok")

    def noop(self):
        return (250, b"ok")

    def quit(self):
        self._need_open()
        self._step("quit")
        self._mark(False)
        return (221, b"bye")

    def close(self):
        self._mark(False)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


# ------------------------------------------------------------------ the world
WORLD = None


class World(object):
    def __init__(self, sim, root):
        global WORLD
        WORLD = self
        self.sim = sim
        self.root = root
        self.listeners = {}
        self.holders = {}
        self._port = 0
        self.bind_error = None
        self.on_accept = None
        self.accept_fault = None
        self.on_close = None
        self.on_select = None
        self.unexpected = []
        self.dns = SimDNS(self)
        self.programs = {}
        self.children = []
        self.smtp_sessions = []
        self.smtp_plan = lambda step, session: "ok"
        self.smtp_hung = False
        self.db_conns = []
        self.db_plan = None         # fn(op, sql, conn) -> None, an exception, "crash before", "crash after"
        self.db_connect_plan = None  # fn() -> true to fail
        self.db_switch = 30         # percent
        self.db_log = []
        self.pyzor_log = []         # (time, operation, server, digest, timeout)
        self.pyzor_plan = lambda server, op: "ok"
        self.pyzor_counts = lambda digest, server: (int(digest[:2], 16) % 12, 1 if digest[2] in "01" else 0)
        self.opened = []            # virtual paths opened
        self.open_faults = None     # fn(path, mode) -> exception or None
        self.list_order = None      # fn(path, names) -> names
        self.externals = []         # every contact with the outside
        self.logs = []
        self.log_level = 20
        self.request_seed = 0
        self.fork_script = {}

    def next_port(self):
        self._port += 1
        return self._port

    def external(self, *what):
        self.externals.append(what)

    # ------------------------------------------------------------ databases
    def sqlite(self, database, timeout=5.0, **kw):
        from sqlite3 import dbapi2
        e = self.db_connect_plan() if self.db_connect_plan is not None else None
        if e:
            self.sim.fault("db connect")
            raise dbapi2.OperationalError("unable to open database file")
        kw.pop("check_same_thread", None)
        kw["factory"] = _sqlite_types()
        c = real["sqlite"](self.path(database), timeout=0, check_same_thread=False, **kw)
        c._w = self
        c._proc = self.sim.current.proc
        c._timeout = timeout
        self.db_conns.append(c)
        return c

    def db_reap(self):
        """The connections of processes that died are gone, with what they had not committed."""
        for c in list(self.db_conns):
            if not c._proc.alive:
                c.close()

    def db_crash(self):
        sim = self.sim
        sim.fault("crash in database call")
        proc = sim.current.proc
        sim.send_signal(proc.pid, 9)
        self.db_reap()
        raise SimCrash()

    def db(self, database):
        """A plain connection for the scenario itself."""
        return real["sqlite"](self.path(database), timeout=0, check_same_thread=False)

    # ------------------------------------------------------------ files
    def path(self, p):
        """Virtual path -> real path."""
        if isinstance(p, bytes):
            try:
                return self.path(p.decode("utf8")).encode("utf8")
            except UnicodeDecodeError:
                return p
        if not isinstance(p, str):
            if hasattr(p, "__fspath__"):
                return self.path(p.__fspath__())
            return p
        for pre in PREFIXES:
            if p == pre or p.startswith(pre + "/"):
                return self.root + p
        return p

    def virtual(self, p):
        p = os.fspath(p) if hasattr(p, "__fspath__") else p
        if isinstance(p, bytes):
            p = p.decode("utf8", "replace")
        if isinstance(p, str) and p.startswith(self.root + "/"):
            return p[len(self.root):]
        return p

    def write(self, p, data, keep_time=False):
        """Replace a file; its time is the simulated one, in whole seconds, or (keep_time) that of the
        file it replaces, as tools that restore or synchronise files do."""
        rp = self.path(p)
        stamp = float(int(self.sim.time()))
        if keep_time:
            try:
                stamp = real["stat"](rp).st_mtime
            except OSError:
                pass
        d = os.path.dirname(rp)
        if not real["isdir"](d):
            os.makedirs(d)
        if isinstance(data, str):
            data = data.encode("utf8")
        with real["open"](rp + ".new~", "wb") as f:
            f.write(data)
        os.utime(rp + ".new~", (stamp, stamp))
        real["rename"](rp + ".new~", rp)

    def unlink(self, p):
        try:
            real["unlink"](self.path(p))
        except OSError:
            pass

    # ------------------------------------------------------------ install
    def install(self):
        sim = self.sim
        sim.world = self
        core.CUR = sim
        if sim.main is None:
            sim.attach_main()
        w = self

        # threads
        threading.Lock = SimLock
        threading.RLock = SimRLock
        threading.Condition = SimCondition
        threading.Event = SimEvent
        threading.Thread.start = _thread_start
        threading.Thread.join = _thread_join
        threading.Thread.is_alive = _thread_alive
        threading.Thread.daemon = property(lambda s: s.__dict__.get("_sim_daemon", False),
                                           lambda s, v: s.__dict__.__setitem__("_sim_daemon", bool(v)))
        thread_init = threading.Thread.__init__

        def init(self, *a, **kw):
            thread_init(self, *a, **kw)
            self.__dict__["_sim_daemon"] = bool(kw.get("daemon"))
        threading.Thread.__init__ = init

        # clocks
        rl, rg = time.localtime, time.gmtime
        time.time = lambda: sim.time()
        time.time_ns = lambda: int(sim.time() * 1e9)
        time.monotonic = lambda: sim.now - core.EPOCH + 1000.0
        time.perf_counter = time.monotonic
        time.sleep = lambda s: sim.advance(s)
        time.localtime = lambda *a: rl(*(a if a and a[0] is not None else (sim.time(),)))
        time.gmtime = lambda *a: rg(*(a if a and a[0] is not None else (sim.time(),)))
        rs, rc = time.strftime, time.ctime
        time.strftime = lambda f, *a: rs(f, *(a or (time.localtime(),)))
        time.ctime = lambda *a: rc(*(a or (sim.time(),)))

        # network
        import dns.query
        socket.socket = SimSocket
        socket.create_connection = self._create_connection
        socket.gethostname = lambda: "sim.example.org"
        socket.getfqdn = lambda *a: "sim.example.org"
        socket.getaddrinfo = self._getaddrinfo
        socket.gethostbyname = lambda h: self._resolve(h)
        socketserver._ServerSelector = SimSelector
        import select
        dns.query.udp = self.dns.udp
        dns.query.tcp = self.dns.tcp
        import dns.resolver
        dns.resolver.default_resolver = None
        resolve = dns.resolver.Resolver.query
        self.lookups = []

        def query(res, *a, **kw):
            # (start, end, source, name, answered?, type): every look-up any code makes
            t = _sim().now
            ok = False
            source = SimDNS._source()
            try:
                r = resolve(res, *a, **kw)
                ok = True
                return r
            finally:
                self.lookups.append((t, _sim().now, source, str(a[0] if a else kw.get("qname")), ok,
                                     str(a[1] if len(a) > 1 else kw.get("rdtype", "A"))))

        dns.resolver.Resolver.query = query
        import smtplib
        smtplib.SMTP = SimSMTP
        smtplib.SMTP_SSL = SimSMTP
        import pyzor.client
        pyzor.client.BatchClient = SimPyzor
        pyzor.client.Client = SimPyzor

        # databases
        import pymysql
        import sqlite3
        from sqlite3 import dbapi2
        if "sqlite" not in real:
            real["sqlite"] = dbapi2.connect
        sqlite3.connect = dbapi2.connect = self.sqlite
        pymysql.connect = lambda *a, **kw: SimMySQL(w, *a, **kw)

        # files
        real["open"] = builtins.open
        real["stat"] = os.stat
        real["isdir"] = os.path.isdir
        real["unlink"] = os.unlink
        real["rename"] = os.rename
        real["listdir"] = os.listdir

        def sopen(file, mode="r", *a, **kw):
            if isinstance(file, int):
                return real["open"](file, mode, *a, **kw)
            rp = w.path(file)
            vp = w.virtual(file)
            mapped = rp is not file and rp != file
            if mapped or (isinstance(vp, str) and vp.startswith("/etc/")):
                w.opened.append((vp, mode, sim.now))
                sim.event("open", vp, mode)
                sim.yield_point("open")
                if w.open_faults is not None:
                    e = w.open_faults(vp, mode)
                    if e is not None:
                        sim.fault("open " + errno.errorcode.get(e.errno, "?"))
                        raise e
            f = real["open"](rp, mode, *a, **kw)
            if mapped and w.open_wrap is not None:
                f = w.open_wrap(vp, mode, f)
            return f

        builtins.open = sopen
        io.open = sopen
        for name in ("stat", "lstat", "access", "remove", "unlink", "mkdir", "rmdir", "chmod",
                     "readlink", "utime", "chdir", "scandir"):
            orig = getattr(os, name)
            setattr(os, name, self._pathfn(name, orig))
        import importlib.machinery
        loader = importlib.machinery.SourceFileLoader

        def get_data(self, path):
            with sopen(path, "rb") as f:
                return f.read()
        loader.get_data = get_data
        loader.path_stats = lambda self, path: (_ for _ in ()).throw(OSError("no bytecode cache"))
        ol = os.listdir

        def listdir(path="."):
            vp = w.virtual(path)
            names = sorted(ol(w.path(path)))
            sim.yield_point("listdir")
            if w.open_faults is not None:
                e = w.open_faults(vp, "list")
                if e is not None:
                    sim.fault("listdir " + errno.errorcode.get(e.errno, "?"))
                    raise e
            if w.list_order is not None:
                names = w.list_order(vp, names)
            return names

        os.listdir = listdir
        rn = os.rename
        os.rename = lambda a, b, **k: rn(w.path(a), w.path(b), **k)
        os.replace = os.rename
        oo = os.open
        os.open = lambda p, *a, **k: oo(w.path(p), *a, **k)

        # sub-processes
        subprocess.Popen = SimPopen

        # process identity, signals, forks
        def getpid():
            p = sim.current.proc
            return p.data["replayed"] if p.data.get("fork_script") and "replayed" in p.data else p.pid
        os.getpid = getpid
        os.getppid = lambda: sim.current.proc.parent.pid if sim.current.proc.parent else 1
        os.kill = sim.send_signal
        os.fork = self._fork
        os.waitpid = self._waitpid
        os._exit = self._exit
        os.setsid = lambda: None
        os.umask = lambda m: 0o22
        os.dup2 = lambda *a, **k: None
        signal.signal = self._signal
        signal.getsignal = lambda s: sim.current.proc.handlers.get(int(s), signal.SIG_DFL)
        os.environ["LOGNAME"] = "simuser"
        os.environ["HOME"] = "/root"
        os.environ["TZ"] = "UTC"
        time.tzset()

        # randomness
        self.seed_random(0)
        os.urandom = lambda n: bytes(bytearray(random.getrandbits(8) for dummy in range(n)))
        base = core._Random

        class SimRandom(base):
            """random.Random(): unseeded generators are seeded by the simulator."""

            def __init__(self, x=None):
                if x is None:
                    w.unseeded += 1
                    x = random.getrandbits(64)
                base.__init__(self, x)
        random.Random = SimRandom
        import uuid
        uuid.uuid4 = lambda: uuid.UUID(int=random.getrandbits(128), version=4)

        # logging
        import logging
        logging.raiseExceptions = False
        log = logging.getLogger("oa-logger")
        log.propagate = False
        log.handlers = [_Capture(self)]
        log.setLevel(self.log_level)
        for name in ("pyzor", "razor", "sqlalchemy", "root"):
            lg = logging.getLogger(name)
            lg.handlers = [logging.NullHandler()]
            lg.propagate = False
        logging.getLogger().handlers = [logging.NullHandler()]
        import warnings
        warnings.simplefilter("ignore")
        self._probe_rules()
        return self

    def _probe_rules(self):
        """Count which rules match (coverage of the generators; observes only)."""
        import oa.rules.ruleset
        cls = oa.rules.ruleset.RuleSet
        real_match = cls.match
        sim = self.sim

        def match(ruleset, msg, *a, **kw):
            try:
                return real_match(ruleset, msg, *a, **kw)
            finally:
                for name in getattr(msg, "rules_checked", None) or ():
                    if msg.rules_checked[name]:
                        sim.probe("rule " + name)
        cls.match = match

    open_wrap = None
    on_remove = None
    unseeded = 0

    def seed_random(self, n):
        random.seed(n)

    def _pathfn(self, name, orig):
        def fn(p, *a, **k):
            if name in ("remove", "unlink"):
                self.sim.step()
                self.sim.event(name, str(self.virtual(p)))
                if self.on_remove is not None:
                    self.on_remove(self.virtual(p))
            if isinstance(p, int):
                return orig(p, *a, **k)
            return orig(self.path(p), *a, **k)
        fn.__name__ = name
        return fn

    def _create_connection(self, addr, timeout=None, *a, **k):
        self.unexpected.append("connect %r" % (addr,))
        raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")

    def _getaddrinfo(self, host, port, *a, **k):
        self.unexpected.append("getaddrinfo %r" % (host,))
        raise socket.gaierror(-2, "Name or service not known")

    def _resolve(self, host):
        self.unexpected.append("gethostbyname %r" % (host,))
        raise socket.gaierror(-2, "Name or service not known")

    def _signal(self, signum, handler):
        p = self.sim.current.proc
        old = p.handlers.get(int(signum), signal.SIG_DFL)
        p.handlers[int(signum)] = handler
        self.sim.yield_point("signal")
        return old

    # fork: see sim/procs.py for the re-execution of a forked serve loop
    fork_hook = None
    fork_fault = None

    def _fork(self):
        if self.fork_hook is None:
            raise HarnessError("unexpected fork")
        return self.fork_hook()

    def _waitpid(self, pid, options=0):
        sim = self.sim
        me = sim.current.proc
        if pid == -1:
            kids = [p for p in sim.procs.values() if p.parent is me and not p.reaped]
        else:
            kids = [p for p in sim.procs.values() if p.pid == pid and p.parent is me and
                    not p.reaped]
        if not kids:
            raise ChildProcessError(errno.ECHILD, "No child processes")
        dead = [p for p in kids if not p.alive]
        if not dead:
            if options & os.WNOHANG:
                return (0, 0)
            sim.block(lambda: any(not p.alive for p in kids), None, "waitpid")
            dead = [p for p in kids if not p.alive]
        p = dead[0]
        p.reaped = True
        code = p.exit_code or 0
        return p.pid, (code << 8) if code >= 0 else -code

    def _exit(self, code=0):
        raise SimExit(code)

    # ------------------------------------------------------------ clients
    def port_held(self, port):
        """The live process, if any, that listens on a port (or whose children still do)."""
        holder = self.holders.get(port)
        if holder is None or holder.alive:
            return holder
        for p in self.sim.procs.values():
            if p.alive and p.parent is holder and p.data.get("server") is not None:
                return p
        return None

    def connect(self, port=783):
        c = Conn(self, port)
        q = self.listeners.get(port)
        if q is None or self.port_held(port) is None:
            c.refused = True
            return c
        q.append(c)
        return c


class _Capture(object):
    level = 0

    def __init__(self, world):
        self.world = world

    def handle(self, record):
        w = self.world
        try:
            text = record.getMessage()
        except Exception as e:
            text = "UNFORMATTABLE %r" % (record.msg,)
        if record.exc_info and record.exc_info[0]:
            import traceback
            text += "\n" + "".join(traceback.format_exception(*record.exc_info))
        if len(w.logs) < 5000:
            w.logs.append((record.levelno, text))
        return True

    def acquire(self):
        pass

    def release(self):
        pass

    def setFormatter(self, f):
        pass

    def setLevel(self, n):
        pass

    def createLock(self):
        pass
