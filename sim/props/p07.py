"""P07: no client can take the service down or change other clients' answers.

Hostile and broken clients (garbage, truncation, resets, silence, clients that stop reading) come
between, before and together with well-formed ones.  Every well-formed request gets the answer of a
fresh daemon that never met the others, within the daemon's idle limit per bad client ahead of it;
what the protocol does not allow gets a protocol error; the daemon is alive at the end."""
import errno
import zlib

from .. import gen, kit
from .. import harness as H
from ..core import Violation, iso

QUICK_RUNS = 360
THOROUGH_RUNS = 10000
RULE = ("one run = one deployment, 3-6 well-formed and 2-8 bad clients in random order and overlap; non-trivial when "
        "a well-formed request followed or overlapped a bad client that was served")
REAL = ["oad.py main, oa.server, protocol commands, socketserver's request loop", "message parser", "ruleset"]
STUB = ["sockets (resets, silence, zero windows, accept errors decided by the simulator)", "clock", "file system root"]
ASSUMPTIONS = ["one silent client may hold a single-process daemon for its idle limit of 300 s per read or write"]
BAD = [("garbage", 10), ("badheader", 10), ("badlength", 8), ("short", 8), ("badzlib", 6), ("empty", 5),
       ("reset", 16), ("silent", 8), ("noread", 8), ("longline", 3), ("junk", 5), ("weird", 10), ("accept", 5),
       ("dribble", 4)]
PROBES = ["bad " + b for b, dummy in BAD] + ["protocol error", "reset before the request", "reset inside the request",
                                             "reset while answering", "overlap", "answer after a bad client",
                                             "prefork"]
GARBAGE = [b"HELO x\r\n\r\n", b"CHECK\r\n\r\n", b"\r\n", b" \r\n\r\n", b"CHECK SPAMC/1.2 extra\r\n\r\n", b"\xff\xfe\x00\r\n\r\n",
           b"GET / HTTP/1.1\r\nHost: x\r\n\r\n", b"CHECKSPAMC/1.2\r\n\r\n", b"check\x00 SPAMC/1.2\r\n\r\n", b"LEARN SPAMC/1.5\r\n\r\n",
           b"PROCESS", b"PING", b"12 34\r\n", "\u0441HECK SPAMC/1.2\r\n\r\n".encode("utf8"), b"__class__ SPAMC/1.2\r\n\r\n"]
BADHEAD = [b"no colon here", b"=", b"User", b"\xff\xff", b"Content-length 12", b"."]
BADLEN = [b"Content-length: abc", b"Content-length: -1", b"Content-length:", b"Content-length: 1e3", b"Content-length: 0x10",
          b"Content-length: 12 12", b"Content-length: 1.5", b"Content-length: \xff", b"Content-length: -99999999999999999999",
          b"Content-length: 1,000", b"Content-length: --5", b"content-length: None"]


def setup():
    H.preload()


def nested(n):
    out = []
    for i in range(n):
        out.append("Content-Type: multipart/mixed; boundary=b%d\r\n\r\n--b%d\r\n" % (i, i))
    return ("From: a@b.c\r\n" + "".join(out) + "\r\nx\r\n").encode()


def weird(sim):
    """Requests that are allowed, with contents that may break a parser: any complete answer or none is
    fine for these, but nobody else may notice."""
    kind = sim.choose("weird", 12)
    if kind == 0:
        msg = nested(sim.pick("depth", [20, 150, 600]))
    elif kind == 1:
        msg = b"".join(b"X-H%d: v\r\n" % i for i in range(2000)) + b"\r\nbody\r\n"
    elif kind == 2:
        msg = b"Subject: =?utf-8?B?////?= =?x?q?=FF?=\r\nFrom: =?utf-8?Q?=ED=A0=80?= <a@b.c>\r\n\r\n\xed\xa0\x80\r\n"
    elif kind == 3:
        msg = b"Content-Type: text/plain; charset=utf-7\r\n\r\n+2AA-+AAA-\r\n"
    elif kind == 4:
        msg = b"Content-Type: text/html; charset=\"\x00\"\r\n\r\n<a href='http://[::1'>x</a><![foo\r\n"
    elif kind == 5:
        msg = b"Received: from [300.1.1.1] (x [999.9.9.9]) by y; x\r\nDate: Mon, 99 Foo 20000 99:99:99 +9999\r\n\r\nx"
    elif kind == 6:
        msg = b"From: " + b"<" * 500 + b">" * 500 + b"\r\nTo: " + b"(" * 500 + b"\r\n\r\nx\r\n"
    elif kind == 7:
        msg = b"\x00" * 300
    elif kind == 8:
        msg = b"Content-Type: text/plain; charset=rot13\r\n\r\nuryyb\r\n"
    elif kind == 9:
        msg = b"Content-Type: multipart/mixed\r\n\r\n--x\r\n\r\ny\r\n"
    elif kind == 10:
        msg = zlib.compress(b"a" * 2000000)
        return b"CHECK SPAMC/1.5\r\nCompress: zlib\r\nContent-length: %d\r\n\r\n" % len(msg) + msg
    else:
        msg = b"Content-Type: message/rfc822\r\n\r\nContent-Type: message/rfc822\r\n\r\nSubject: \xf0\x9f\r\n\r\n"
    return H.make_request(sim.pick("wcmd", ["PROCESS", "SYMBOLS", "REPORT", "HEADERS"]), msg)


def bad_client(sim, users):
    """-> (kind, bytes, behaviour dict, must be a protocol error)"""
    kind = sim.wpick("bad", BAD)
    sim.probe("bad " + kind)
    cmd = sim.pick("bcmd", ["CHECK", "PROCESS", "REPORT", "SYMBOLS", "TELL", "HEADERS"])
    msg = gen.message(sim, dkim=False)
    good = H.make_request(cmd, msg, sim.pick("buser", users))
    line = b"%s SPAMC/1.5\r\n" % cmd.encode()
    if kind == "garbage":
        return kind, sim.pick("garbage", GARBAGE), {}, True
    if kind == "badheader":
        return kind, line + b"User: ann\r\n" + sim.pick("badhead", BADHEAD) + b"\r\n\r\n" + msg, {}, True
    if kind == "badlength":
        return kind, line + sim.pick("badlen", BADLEN) + b"\r\n\r\n" + msg, {}, True
    if kind == "short":
        return kind, line + b"Content-length: %d\r\n\r\n" % (len(msg) + sim.pick("missing", [1, 100, 10 ** 12])) + msg, {}, True
    if kind == "badzlib":
        z = zlib.compress(msg + b"x" * 50)
        z = sim.pick("z", [b"nonsense", z[:-9], b"", b"x" + z])
        return kind, line + b"Compress: zlib\r\nContent-length: %d\r\n\r\n" % len(z) + z, {}, True
    if kind == "empty":
        return kind, b"", {}, False
    if kind == "reset":
        where = sim.pick("resetat", ["before", "inside", "answer"])
        sim.probe({"before": "reset before the request", "inside": "reset inside the request",
                   "answer": "reset while answering"}[where])
        return kind, good, {"reset": where, "at": sim.int("resetpos", 0, max(1, len(good) - 1))}, False
    if kind == "silent":
        return kind, good[:sim.int("silentpos", 0, max(1, len(good) - 1))], {"noeof": True}, False
    if kind == "noread":
        return kind, good, {"window": sim.pick("window", [0, 1, 10])}, False
    if kind == "dribble":
        return kind, good[:20], {"dribble": good[20:40]}, False
    if kind == "longline":
        return kind, sim.pick("long", [b"A" * 300000, b"CHECK SPAMC/1.2\r\nX: " + b"y" * 300000,
                                       b"CHECK SPAMC/1.2\r\n" + b"X: y\r\n" * 5000]), {}, False
    if kind == "junk":
        return kind, bytes(sim.choose("byte", 256) for dummy in range(sim.int("njunk", 1, 60))), {}, False
    if kind == "accept":
        return kind, b"", {"accept": sim.pick("aerr", [errno.ECONNABORTED, errno.EMFILE, errno.EAGAIN])}, False
    return kind, weird(sim), {}, False


def life(sim, setup_, clients, args, gap):
    w = H.new_world(sim)
    setup_(w)
    if "--prefork" in args:
        sim.switch_weight = 4
    d = H.Daemon(w, args)
    if "--prefork" in args:
        H.install_fork(w, d)
    d.start()
    conns = []
    acc = []

    def accept_fault():
        if acc:
            n = acc.pop()
            sim.fault("accept %s" % errno.errorcode[n])
            return OSError(n, "injected")
        return None
    w.accept_fault = accept_fault
    w.on_close = lambda c: setattr(c, "at", sim.now)
    for i, (kind, data, how, must) in enumerate(clients):
        sim.advance(gap[i])
        if kind == "accept":
            acc.append(how["accept"])
            continue
        c = w.connect(d.port)
        if c.refused:
            raise Violation("down", "the daemon does not listen any more")
        c.since = sim.now
        c.i = i
        c.kind = kind
        conns.append(c)
        if how.get("reset") == "before":
            c.abort()
            sim.fault("reset")
            continue
        if how.get("reset") == "inside":
            c.deliver(data[:how["at"]])
            sim.after(1.0, c.abort)
            sim.fault("reset")
            continue
        if how.get("reset") == "answer":
            c.deliver(data)
            c.finish()
            c.window = 5
            sim.after(2.0, c.abort)
            sim.fault("reset")
            continue
        if "window" in how:
            c.window = how["window"]
            sim.fault("client stops reading")
        c.deliver(data)
        if how.get("noeof"):
            sim.fault("client falls silent")
        elif "dribble" in how:
            for k, b in enumerate(how["dribble"]):
                sim.after(40.0 * (k + 1), lambda b=b: c.deliver(bytes([b])))
            sim.after(40.0 * 22, c.finish)
        else:
            c.finish()
        if kind == "good":
            w.seed_random(3)
            c.ahead = sum(1 for x in conns if not x.closed and x is not c)
    limit = 900.0 * (2 + len(clients))
    sim.block(lambda: all(c.closed for c in conns if c.kind == "good") or not d.alive, limit, "good answers")
    if not d.alive:
        raise Violation("died", "the daemon died: %s\n%s" % (d.error, getattr(d, "tb", "")))
    for c in conns:
        if c.kind == "good" and not c.closed:
            raise Violation("stuck", "a well-formed request is not answered within %d simulated seconds "
                            "(clients %s)" % (limit, [k for k, dummy, dummy2, dummy3 in clients]))
    sim.block(lambda: all(c.closed for c in conns) or not d.alive, limit, "all closed")
    open_ = [c.kind for c in conns if not c.closed]
    if open_ and d.alive:
        raise Violation("leak", "connections of bad clients are never closed: %s" % open_)
    # and still serving
    r = d.request("PING")
    if r is None or b"PONG" not in r:
        raise Violation("down", "after the bad clients, PING is answered %r" % (r,))
    H.finish(sim)
    return [(c.i, getattr(c, "at", sim.now), bytes(c.out)) for c in conns]


def run(sim):
    files, names = gen.config(sim, nmax=3, net=False)
    users = [None, "ann"]
    files["00_u.cf"] = "allow_user_rules 1\n"

    def setup_(w):
        gen.internet(w)
        H.put_config(w, files)
        H.put_user(w, "ann", gen_user)
    gen_user = gen.user_lines(sim, names)
    ngood, nbad = sim.int("ngood", 2, 5), sim.int("nbad", 1, 7)
    msgs = [gen.message(sim, dkim=False) for dummy in range(2)]
    clients = []
    order = sim.shuffled("order", ["good"] * ngood + ["bad"] * nbad)
    for what in order:
        if what == "good":
            cmd = sim.wpick("cmd", kit.VERDICTS + [("PING", 6), ("HEADERS", 10)])
            clients.append(("good", H.make_request(cmd, None if cmd == "PING" else sim.pick("msg", msgs),
                                                   sim.pick("user", users) if cmd != "PING" else None),
                            {"cmd": cmd}, False))
        else:
            clients.append(bad_client(sim, users))
    args = []
    if sim.chance("prefork", 12):
        sim.probe("prefork")
        args = ["--prefork", str(sim.int("workers", 2, 3))]
    gap = [sim.wpick("gap", [(0, 45), (0.3, 30), (30, 15), (700, 10)]) for dummy in clients]
    if 0 in gap[1:]:
        sim.probe("overlap")
    got = iso(sim, life, setup_, clients, args, gap)
    after = False
    bad_seen = False
    for i, t, raw in got:
        kind, data, how, must = clients[i]
        if kind == "good":
            ref = iso(sim, H.oneshot, setup_, [data], (), t)[0]
            a, b = strip(raw), strip(ref)
            if a != b:
                raise Violation("affected", "well-formed request %d (%s) among %s is answered\n%s\nbut alone\n%s" % (
                    i, how["cmd"], [c[0] for c in clients], kit.show(a, b), kit.show(b, a)))
            if bad_seen:
                after = True
                sim.probe("answer after a bad client")
            continue
        bad_seen = True
        if must:
            sim.probe("protocol error")
            lines = raw.split(b"\r\n")
            f = lines[0].split(b" ", 2)
            if len(f) < 3 or not f[0].startswith(b"SPAMD/") or not f[1].isdigit() or f[1] == b"0":
                raise Violation("silence", "a request the protocol does not allow (%s, %r) is answered %r "
                                "instead of a protocol error" % (kind, data[:200], raw[:300]))
        elif raw and how.get("reset") != "answer" and "window" not in how and not raw.startswith(b"SPAMD/"):
            raise Violation("babble", "%s: %r is answered %r" % (kind, data[:100], raw[:300]))
    return {"nontrivial": after, "sample": {"clients": [c[0] for c in clients], "args": args}}


def strip(raw):
    raw = H.normalise(raw)
    return b"\n".join(x for x in raw.split(b"\n") if not x.startswith((b"Received: from localhost", b"Date:")))
