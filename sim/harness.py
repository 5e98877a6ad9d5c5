"""Deployments, the simulated daemon (the real ``scripts/oad.py`` main program), and clients."""
import copy
import errno
import io
import os
import re
import signal
import sys
import types

from . import core
from .core import HarnessError, SimCrash, SimExit, StopSim, Violation
from . import world as world_mod
from .world import World

SITE = "/simfs/site"
CONF = "/simfs/conf"
PIDFILE = "/var/run/oad.pid"


def preload():
    """Import everything once, before the simulated runs fork off."""
    import dkim
    import dns.query
    import dns.resolver
    import email.mime.multipart
    import langdetect
    import oa.server
    import scripts.match
    import scripts.oad
    import smtplib
    import spf
    import subprocess
    for name in ("dump_text", "whitelist_subject", "image_info", "relay_country", "uri_detail",
                 "textcat", "replace_tags", "short_circuit", "body_eval", "dns_eval", "spf",
                 "wlbl_eval", "razor2", "free_mail", "spam_cop", "relay_eval", "header_eval", "dkim",
                 "mime_eval", "uri_eval", "auto_learn_threshold", "pdf_info", "pyzor", "awl", "bayes"):
        try:
            __import__("oa.plugins." + name)
        except Exception:
            sys.modules.pop("oa.plugins." + name, None)
    stub_geoip()
    shim_dnspython()
    warm_database()
    # slow initialisation, the same for every simulated process: the regex cache
    re._MAXCACHE = 20000
    for name in sorted(sys.modules):
        if name == "oa" or name.startswith("oa."):
            for value in list(vars(sys.modules[name]).values()):
                if type(value).__name__ == "Regex" and isinstance(getattr(value, "pattern", 0), str):
                    try:
                        re.compile(value.pattern, value.flags)
                    except re.error:
                        pass
    import email
    import email.header
    import email.utils
    m = email.message_from_string("From: a <b@c.d>\nSubject: =?utf-8?Q?caf=C3=A9?=\nContent-Type: "
                                  "multipart/mixed; boundary=x\n\n--x\n\na\n--x--\n")
    m.as_string()
    email.header.decode_header(m["Subject"])
    email.utils.getaddresses([m["From"]])
    for part in m.walk():
        part.get_payload(decode=True)
    langdetect.detect_langs("This is an English sentence about nothing.")


GEO = {"203.0.113.9": "RU", "203.0.113.77": "US", "198.51.100.7": "DE", "192.0.2.200": "US"}


class FakeGeoIP(object):
    def __init__(self, path, *args, **kwargs):
        if "missing" in path:
            raise IOError("no such database")

    def country_code_by_addr(self, addr):
        return GEO.get(addr, "")


def shim_dnspython():
    """The installed pyspf passes ``lifetime`` to dns.resolver.query, which the installed
    dnspython does not know yet; deployments have a pair of versions that fit."""
    import inspect
    import dns.resolver
    real = dns.resolver.query
    if "lifetime" in inspect.signature(real).parameters:
        return

    def query(qname, rdtype=1, *args, **kwargs):
        lifetime = kwargs.pop("lifetime", None)
        res = dns.resolver.get_default_resolver()
        old = res.lifetime
        if lifetime is not None:
            res.lifetime = lifetime
        try:
            return real(qname, rdtype, *args, **kwargs)
        finally:
            res.lifetime = old
    dns.resolver.query = query


def warm_database():
    """SQLAlchemy loads and compiles much on first use."""
    try:
        from sqlalchemy import create_engine
        from sqlalchemy.orm import sessionmaker
        import oa.db.bayes.sqlalchemy as tables
    except ImportError:
        return
    e = create_engine("sqlite://")
    tables.Base.metadata.create_all(e)
    s = sessionmaker(bind=e)()
    s.query(tables.BayesToken).filter(tables.BayesToken.token == b"x").first()
    s.close()
    e.dispose()


def without_sqlalchemy():
    """What an installation without SQLAlchemy imports (only the modules that depend on it)."""
    names = ("oa.plugins.base", "oa.plugins.awl", "oa.plugins.bayes", "oa.plugins.auto_learn_threshold")
    for name in list(sys.modules):
        if name in names or name.startswith("oa.db"):
            del sys.modules[name]
    gone = {}
    for name in list(sys.modules):
        if name == "sqlalchemy" or name.startswith("sqlalchemy."):
            gone[name] = sys.modules.pop(name)
    sys.modules["sqlalchemy"] = None
    try:
        for name in names:
            __import__(name)
    finally:
        del sys.modules["sqlalchemy"]
        sys.modules.update(gone)


def stub_geoip():
    import pygeoip
    pygeoip.GeoIP = FakeGeoIP


def new_world(sim):
    """A World with an empty file system of its own."""
    n = getattr(sim, "_roots", 0)
    sim._roots = n + 1
    root = os.path.join(sim.scratch, "r%d-%d" % (core._real_getpid() if n < 0 else 0, n))
    import shutil
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    w = World(sim, root)
    for d in (SITE, CONF, "/home", "/var/run", "/var/log", "/run", "/root", "/etc", "/simfs/db"):
        os.makedirs(root + d)
    w.install()
    w.write("/etc/resolv.conf", "nameserver 192.0.2.53\n")
    return w


def put_config(w, files, keep_time=False, old=None):
    """files: {virtual path or bare name: text}; bare names go to the site directory."""
    for name in sorted(files):
        text = files[name]
        p = name if name.startswith("/") else SITE + "/" + name
        if old is not None and name in old and old[name] == text:
            continue
        if text is None:
            w.unlink(p)
        else:
            w.write(p, text, keep_time)


def put_user(w, user, text):
    p = "/home/%s/.spamassassin/user_prefs" % user
    if text is None:
        w.unlink(p)
    else:
        w.write(p, text)


class Daemon(object):
    """The OrangeAssassin daemon as a simulated process."""

    def __init__(self, w, args=(), name="oad", site=SITE, conf=CONF, port=783, tell=True):
        self.w = w
        self.sim = w.sim
        self.argv = ["oad", "-C", conf, "-S", site, "-r", PIDFILE, "-p", str(port),
                     "-i", "0.0.0.0", "--log-file", "/var/log/oad.log"] + (["--allow-tell"] if tell else []) + list(args)
        self.port = port
        self.name = name
        self.proc = None
        self.task = None
        self.error = None
        self.exit = None

    def start(self, wait=True):
        sim = self.sim
        self.proc = sim.new_proc(self.name)
        self.proc.parent = sim.main.proc
        self.task = sim.spawn(self.name, self._main, self.proc, main=True)
        if wait:
            # it is up when it listens and has installed the last signal handler
            sim.block(lambda: self.port in self.w.listeners and 15 in self.proc.handlers or
                      self.task.done, 600, "start")
            if self.task.done:
                raise StartFailed(self.error or self.exit)
        return self

    def _main(self):
        import scripts.oad
        set_argv(self.sim, self.argv)
        sys.stderr = self.w.stderr = Stderr()
        try:
            try:
                scripts.oad.main()
            finally:
                if not isinstance(sys.exc_info()[1], (SimCrash, SimExit, StopSim)):
                    join_threads(self.sim)
        except SystemExit as e:
            self.exit = e.code
        except StopSim:
            raise
        except (SimCrash, SimExit, Violation, HarnessError):
            raise
        except BaseException as e:
            import traceback
            self.error = "%s: %s" % (type(e).__name__, e)
            self.tb = traceback.format_exc()
            raise

    @property
    def alive(self):
        return self.proc is not None and self.proc.alive

    def signal(self, signum):
        self.sim.send_signal(self.proc.pid, signum)

    def reload(self, wait=True):
        """SIGUSR1, then wait until the reload threads it started are gone."""
        n = len(self.sim.tasks)
        self.signal(signal.SIGUSR1)
        if wait:
            self.settle()

    def settle(self, timeout=120):
        """Until the process is idle again: no pending signals and no live extra threads."""
        sim = self.sim
        def idle():
            return not self.alive or (not self.proc.pending and not self.task.in_handler and not any(
                not t.done for t in sim.tasks
                if t.proc is self.proc and t is not self.task and
                not isinstance(getattr(t, "thread", None), _timer())))
        return sim.block(idle, timeout, "settle")

    # ------------------------------------------------------------ requests
    def send(self, data, plan=None):
        """Open a connection and schedule the delivery of data.

        plan: list of (delay, nbytes) segments; the rest follows at once; then EOF of the
        sending side (a half close), as the usual client does."""
        c = self.w.connect(self.port)
        if c.refused:
            return c
        sim = self.sim
        if plan is None:
            c.deliver(data)
            c.finish()
            return c
        t = sim.now
        pos = 0
        for delay, n in plan:
            t += delay
            piece = data[pos:pos + n]
            pos += len(piece)
            if delay == 0 and t == sim.now:
                c.deliver(piece)
            else:
                sim.at(t, lambda p=piece: c.deliver(p))
        rest = data[pos:]

        def end():
            c.deliver(rest)
            c.finish()
        if t > sim.now:
            sim.at(t, end)
        else:
            end()
        return c

    def ask(self, data, plan=None, timeout=100000.0):
        c = self.send(data, plan)
        if c.refused:
            return None
        self.sim.block(lambda: c.closed or not self.alive, timeout, "response")
        if not c.closed:
            return None
        return bytes(c.out)

    def request(self, cmd, msg=None, user=None, plan=None, **opts):
        return self.ask(make_request(cmd, msg, user, **opts), plan)


class Argv(list):
    """sys.argv, as the simulated processes see it: to each its own."""

    def __init__(self, sim):
        self.sim = sim

    def __getitem__(self, i):
        return self.sim.current.proc.data["argv"][i]

    def __len__(self):
        return len(self.sim.current.proc.data["argv"])

    def __iter__(self):
        return iter(self.sim.current.proc.data["argv"])


def set_argv(sim, argv):
    sim.current.proc.data["argv"] = list(argv)
    if not isinstance(sys.argv, Argv):
        sys.argv = Argv(sim)


class Stderr(io.StringIO):
    def fileno(self):
        return 2


def join_threads(sim):
    """What the interpreter does at the end of the main program: wait for the other threads."""
    me = sim.current
    sim.block(lambda: not any(
        t.proc is me.proc and t is not me and not t.done and not getattr(getattr(t, "thread", None), "daemon", False)
        for t in sim.tasks), None, "exit")


def _timer():
    import threading
    return threading.Timer


class StartFailed(Violation):
    """The daemon did not come up on a configuration it should accept."""

    def __init__(self, why):
        Violation.__init__(self, "start", why)


def to_bytes(x):
    return x.encode("utf8") if isinstance(x, str) else x


def make_request(cmd, msg=None, user=None, length=True, headers=(), tail=b""):
    out = [("%s SPAMC/1.5\r\n" % cmd).encode()]
    body = b""
    if msg is not None:
        body = to_bytes(msg)
    if user is not None:
        out.append(("User: %s\r\n" % user).encode("utf8"))
    for h in headers:
        out.append(to_bytes(h) + b"\r\n")
    if length and msg is not None:
        out.append(("Content-length: %d\r\n" % len(body)).encode())
    out.append(b"\r\n")
    return b"".join(out) + body + tail


RESP = re.compile(br"^SPAMD/\S+ (\d+) (.*?)\r\n", re.S)


class Response(object):
    """A parsed protocol response; ``problem`` says what is not well formed."""

    def __init__(self, raw, cmd):
        self.raw = raw
        self.cmd = cmd
        self.problem = None
        self.code = None
        self.spam = self.score = self.required = None
        self.body = b""
        self.headers = []
        if raw is None:
            self.problem = "no response"
            return
        if not raw:
            self.problem = "empty response"
            return
        m = RESP.match(raw)
        if not m:
            self.problem = "no status line"
            return
        self.code = int(m.group(1))
        rest = raw[m.end():]
        if self.code != 0:
            if rest:
                self.problem = "bytes after an error line"
            return
        if cmd in ("PING", "SKIP"):
            if rest:
                self.problem = "bytes after the status line"
            return
        if cmd == "TELL":
            self.headers = [l for l in rest.decode("utf8", "replace").split("\r\n") if l]
            return
        m = re.match(br"Spam: (True|False) ; (-?[\d.]+|nan|-?inf) / (-?[\d.]+)\r\n"
                     br"Content-length: (\d+)\r\n\r\n", rest)
        if not m:
            self.problem = "malformed verdict %r" % rest[:200]
            return
        self.spam = m.group(1) == b"True"
        self.score = m.group(2).decode()
        self.required = m.group(3).decode()
        self.length = int(m.group(4))
        self.body = rest[m.end():]
        if len(self.body) != self.length:
            self.problem = "Content-length %d but %d body bytes" % (self.length, len(self.body))

    @property
    def verdict(self):
        return (self.code, self.spam, self.score, self.required)

    @property
    def symbols(self):
        text = self.body.decode("utf8", "replace")
        return [x for x in text.split(",") if x]


def oneshot(sim, setup, requests, args=(), now=None):
    """For ``iso``: start a fresh daemon and answer the requests -> list of raw responses."""
    w = new_world(sim)
    if now is not None:
        sim.now = now
    setup(w)
    d = Daemon(w, args).start()
    out = []
    for data in requests:
        w.seed_random(7)
        out.append(d.ask(data))
    return out


def finish(sim):
    if os.environ.get("SIM_DEBUG"):
        sys.__stdout__.write("\n".join(map(str, sim.world.logs)) + "\n")
        sys.__stdout__.flush()
    sim.sim_time_total += sim.now - sim.start


BOUNDARY = re.compile(br"={5,}\d+==")


def normalise(raw):
    """Removes what is random by design (MIME boundaries)."""
    if raw is None:
        return None
    return BOUNDARY.sub(b"===============B==", raw)


# -------------------------------------------------------------------- forks
def install_fork(w, daemon):
    """os.fork for the pre-forking master: the child is a deep copy of the server which
    re-executes the master's fork loop up to its own fork."""
    sim = w.sim
    import oa.context
    import oa.dns_interface

    def copied(self, memo):
        # a fork copies everything; pickling, which copy would use, leaves things out
        new = object.__new__(type(self))
        memo[id(self)] = new
        new.__dict__.update(copy.deepcopy(self.__dict__, memo))
        return new
    oa.context._Context.__deepcopy__ = copied
    oa.dns_interface.DNSInterface.__deepcopy__ = copied

    def reexecute(me):
        """A fork on the way to the serve loop: the child runs the program again from its start,
        under its parent's identity and undisturbed, until it gets to the same fork."""
        if w.fork_fault is not None:
            e = w.fork_fault()
            if e is not None:
                sim.fault("fork " + errno.errorcode.get(e.errno, "?"))
                raise e
        proc = sim.new_proc(me.name + "'")
        proc.parent = me
        proc.data["argv"] = list(me.data["argv"])
        past = me.data.setdefault("past", [])
        proc.data["fork_script"] = list(past) + [0]
        proc.data["past"] = list(past) + [0]
        proc.data["replayed"] = me.pid
        proc.data["launch"] = me.data.get("launch", me.pid)
        past.append(proc.pid)

        def run():
            proc.data["held"] = True
            sim.no_preempt += 1
            sim.quiet += 1
            try:
                daemon._main()
            finally:
                release(proc)
        sim.spawn(proc.name, run, proc, main=True)
        sim.event("fork", proc.name)
        sim.stats["forks"] += 1
        sim.yield_point("fork", 30)
        return proc.pid

    def release(proc):
        if proc.data.pop("held", None):
            sim.no_preempt -= 1
            sim.quiet -= 1

    def fork_hook():
        me = sim.current.proc
        script = me.data.get("fork_script")
        if script is not None and script:
            pid = script.pop(0)
            if not script:
                release(me)
            return pid
        f = sys._getframe(1)
        server = None
        while f is not None:
            s = f.f_locals.get("self")
            if s is not None and hasattr(s, "serve_forever") and hasattr(s, "RequestHandlerClass"):
                server = s
                break
            f = f.f_back
        if server is None:
            return reexecute(me)
        kids = me.data.setdefault("kids", [])
        proc = sim.new_proc("worker%d" % (len(kids) + 1))
        proc.parent = me
        memo = {}
        child = copy.deepcopy(server, memo)
        proc.data["fork_script"] = list(kids) + [0]
        proc.data["server"] = child
        if "launch" in me.data:
            proc.data["launch"] = me.data["launch"]
        for sig, h in me.handlers.items():
            if isinstance(h, types.MethodType) and h.__self__ is server:
                h = types.MethodType(h.__func__, child)
            proc.handlers[sig] = h
        kids.append(proc.pid)

        def run():
            try:
                child.serve_forever()
            except SimExit:
                raise
            except SystemExit as e:
                raise SimExit(e.code or 0)
        sim.spawn(proc.name, run, proc, main=True)
        sim.event("fork", proc.name)
        sim.stats["forks"] += 1
        sim.yield_point("fork")
        return proc.pid

    w.fork_hook = fork_hook


# --------------------------------------------------------------- preemption
def preempt(sim, lines=(), calls=(), line_percent=4, call_percent=1):
    """Make every line of the given source files, and every call of a function in the others, a
    point where another task may run (CPython may switch threads there, too).  Call before the
    tasks are spawned."""
    cache = {}

    def kind(code):
        k = cache.get(code)
        if k is None:
            fn = code.co_filename.replace("\\", "/")
            k = 0
            if any(fn.endswith(x) for x in lines):
                k = 2
            elif any(x in fn for x in calls):
                k = 1
            cache[code] = k
        return k

    def local(frame, event, arg):
        if event == "line":
            sim.yield_point("line", line_percent)
        return local

    def tracer(frame, event, arg):
        if event != "call":
            return None
        k = kind(frame.f_code)
        if not k:
            return None
        if k == 1:
            sim.yield_point("call", call_percent)
            return None
        sim.yield_point("line", line_percent)
        return local
    sim.tracer = tracer


# -------------------------------------------------------------- command line
def tool(w, argv, stdin=b"", module="scripts.match", timeout=1000000.0):
    """Run a command line program -> (bytes on standard output, exit status, what it died of)."""
    import importlib
    sim = w.sim
    res = {"code": 0, "error": None}
    old = sys.stdin, sys.stdout, sys.stderr
    out = io.TextIOWrapper(io.BytesIO(), encoding="utf8", write_through=True)

    def main():
        set_argv(sim, ["match"] + list(argv))
        try:
            try:
                importlib.import_module(module).main()
            finally:
                if not isinstance(sys.exc_info()[1], (SimCrash, SimExit, StopSim)):
                    join_threads(sim)
        except SystemExit as e:
            res["code"] = e.code or 0
        except (StopSim, SimCrash, SimExit, Violation, HarnessError):
            raise
        except BaseException as e:
            res["code"] = 1
            res["error"] = "%s: %s" % (type(e).__name__, e)

    sys.stdin = io.TextIOWrapper(io.BytesIO(stdin), encoding="utf8")
    sys.stdout = out
    sys.stderr = w.stderr = Stderr()
    try:
        proc = sim.new_proc("match")
        proc.parent = sim.main.proc
        task = sim.spawn("match", main, proc, main=True)
        if not sim.block(lambda: task.done, timeout, "match"):
            res["error"] = "still running after %s s" % timeout
    finally:
        data = out.buffer.getvalue()
        sys.stdin, sys.stdout, sys.stderr = old
    return data, res["code"], res["error"]
