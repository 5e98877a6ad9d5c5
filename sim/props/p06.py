"""P06: requests are framed by bytes, with one well-formed response.

The same request is sent to one daemon cut into random segments with random delays, short reads
and a slow reader, and to a fresh daemon in one piece; a plugin of the scenario reports the digest
of the message that was judged."""
import hashlib
import zlib

from .. import gen, kit
from .. import harness as H
from ..core import Violation, iso

QUICK_RUNS = 360
THOROUGH_RUNS = 10000
RULE = ("one run = one deployment and 2-6 requests (plain or compressed, with or without Content-length, up to "
        "100 kB, any encoding), each cut into up to 12 segments delivered over up to minutes of simulated time, "
        "some at once with another connection; non-trivial when a cut fell inside the request")
REAL = ["oad.py main, oa.server, all protocol commands, socketserver's stream buffering", "message parser", "ruleset"]
STUB = ["sockets (segments, short reads, slow readers decided by the simulator)", "clock", "file system root"]
ASSUMPTIONS = ["a client pauses for less than the daemon's idle limit",
               "dates of the moment in a bounce are masked before comparing"]
PROBES = ["compressed", "no Content-length", "Content-length without end of stream", "cut inside a character",
          "cut inside a header line", "cut inside the body", "cut between CR and LF", "larger than one chunk",
          "larger than 64k", "marks at read boundaries", "blank stretch", "slow reader", "bytes after the message", "not UTF-8", "overlapping connections"]
PLUGIN = '''
import hashlib
import oa.plugins.base

class WirePlugin(oa.plugins.base.BasePlugin):
    eval_rules = ("wire_any",)

    def wire_any(self, msg, target=None):
        raw = msg.raw_msg.replace("\\r\\n", "\\n").replace("\\r", "\\n")
        msg.plugin_tags["RAWSUM"] = "%d-%s" % (
            len(raw), hashlib.sha1(raw.encode("utf8", "surrogateescape")).hexdigest())
        return True
'''
EXTRA = ("loadplugin WirePlugin /simfs/site/wire.py\nheader WIRE eval:wire_any()\nscore WIRE 0.01\n"
         "clear_headers\nadd_header all Wire _RAWSUM_\n"
         "report wire=_RAWSUM_\n")
COMMANDS = [("PROCESS", 32), ("HEADERS", 14), ("REPORT", 14), ("REPORT_IFSPAM", 6), ("SYMBOLS", 14), ("CHECK", 8),
            ("TELL", 6), ("PING", 4), ("SKIP", 2)]


def setup():
    H.preload()


def digest(data):
    data = data.replace(b"\r\n", b"\n").replace(b"\r", b"\n")
    return ("%d-%s" % (len(data.decode("utf8", "surrogateescape")), hashlib.sha1(data).hexdigest())).encode()


def body(sim):
    kind = sim.wpick("bodykind", [("mail", 42), ("big", 28), ("multi", 14), ("latin", 8), ("blank", 8)])
    if kind == "mail":
        return gen.message(sim, dkim=False)
    unit = sim.pick("unit", ["hello my friend \xe9\xe8 ", "\u20ac", "\U0001f600x", "caf\xe9\r\n", "a\nb\rc\r\n",
                             "plain ascii line\r\n"])
    head = "From: a@example.com\r\nTo: b@local.example\r\nSubject: s %s\r\n\r\n" % unit.strip()
    if kind == "latin":
        return ("Subject: x\r\n\r\n" + "caf\xe9 \xfe\xff " * sim.int("rep", 1, 30)).encode("latin-1")
    if kind == "multi":
        return (head + unit * sim.int("rep", 1, 60)).encode("utf8")
    if kind == "blank":
        # Long runs of nothing: what is read at once may hold no text at all.
        sim.probe("blank stretch")
        unit = sim.pick("blankunit", [b"\r\n", b" ", b"\n", b"\t", b"\0", b" \r\n"])
        run = unit * (sim.pick("blanksize", [8192, 16384, 20000, 70000]) // len(unit))
        return head.encode("utf8") + b"before\r\n" + run + b"the end %s\r\n" % sim.pick("after", [b"viagra", b"money"])
    size = sim.pick("size", [8190, 8191, 8192, 8193, 16384, 20000, 65536, 65537, 100000])
    data = head.encode("utf8")
    u = unit.encode("utf8")
    room = size - len(data)
    data += u * (room // len(u))
    data += b"x" * (size - len(data))
    if sim.chance("marks", 50):
        # Something that means something to mail software where a read may end.
        sim.probe("marks at read boundaries")
        mark = sim.pick("mark", [b"\r\n.\r\n", b"\r\n.\r\n", b"\r\n\r\n", b"\n\n", b"\r\n", b".", b"\0\0", b"\n.\n", b"\x1a",
                                 b"SPAMD/1.1 0 EX_OK\r\n", b"\r\n.\r\nQUIT\r\n"])
        step = sim.pick("markstep", [1024, 4096, 8192])
        shift = sim.pick("markshift", ["before", "before", "across", "after"])
        for at in range(step, len(data), step):
            pos = at - len(mark) if shift == "before" else at - len(mark) // 2 if shift == "across" else at
            if 200 < pos < len(data) - len(mark):
                data = data[:pos] + mark + data[pos + len(mark):]
    return data


def cuts(sim, data, hdr):
    n = sim.wpick("ncuts", [(0, 5), (1, 25), (3, 35), (6, 25), (12, 10)])
    out = set()
    for dummy in range(n):
        where = sim.wpick("where", [("any", 30), ("header", 25), ("body", 20), ("multibyte", 15), ("crlf", 10)])
        if where == "header":
            pos = sim.int("pos", 0, max(0, hdr))
        elif where == "body":
            pos = hdr + sim.int("pos", 0, max(0, len(data) - hdr))
        elif where == "multibyte":
            cand = [i for i in range(hdr, min(len(data), hdr + 3000)) if data[i] & 0xC0 == 0x80] or [hdr]
            pos = sim.pick("pos", cand)
        elif where == "crlf":
            cand = [i for i in range(1, min(len(data), 4000)) if data[i:i + 1] == b"\n"] or [1]
            pos = sim.pick("pos", cand)
        else:
            pos = sim.int("pos", 0, len(data))
        if 0 < pos < len(data):
            out.add(pos)
            if pos < hdr:
                sim.probe("cut inside a header line")
            else:
                sim.probe("cut inside the body")
            if data[pos - 1:pos + 1] == b"\r\n":
                sim.probe("cut between CR and LF")
            if data[pos] & 0xC0 == 0x80:
                sim.probe("cut inside a character")
    return sorted(out)


def make(sim, users):
    cmd = sim.wpick("cmd", COMMANDS)
    data = b"" if cmd in ("PING", "SKIP") else body(sim)
    compressed = data and sim.chance("compress", 20)
    wire = zlib.compress(data) if compressed else data
    length = cmd in ("PING", "SKIP") or sim.chance("length", 65)
    line = b"%s SPAMC/1.%d\r\n" % (sim.pick("case", [cmd, cmd, cmd.lower(), cmd.capitalize()]).encode(),
                                   sim.int("minor", 2, 5))
    heads = []
    if compressed:
        sim.probe("compressed")
        heads.append(b"Compress: zlib")
    user = sim.pick("user", users)
    if user and cmd not in ("PING", "SKIP"):
        heads.append(b"User: " + user.encode())
    if length and cmd not in ("PING", "SKIP"):
        name = sim.pick("clname", [b"Content-length", b"Content-Length", b"content-length", b"CONTENT-LENGTH "])
        heads.append(b"%s: %s%d%s" % (name, b" " * sim.choose("pad", 3), len(wire), b" " * sim.choose("pad2", 2)))
    if cmd == "TELL":
        heads.append(b"Message-class: spam")
        heads.append(b"Set: local")
    if sim.chance("more", 20):
        heads.append(b"X-Unknown-\xc3\xa9: va:lue\xff")
    heads = sim.shuffled("heads", heads)
    eol = sim.pick("eol", [b"\r\n", b"\r\n", b"\r\n", b"\n"])
    line = line.rstrip() + eol
    head = line + b"".join(h + eol for h in heads) + eol
    if cmd in ("PING", "SKIP"):
        head = line + eol
    tail = b""
    eof = True
    if length and cmd not in ("PING", "SKIP"):
        if sim.chance("tail", 25):
            tail = sim.pick("tailv", [b"\r\n", b"\r\n\r\n", b"junk", b"PING SPAMC/1.2\r\n\r\n"])
            sim.probe("bytes after the message")
        if sim.chance("noeof", 40):
            eof = False
            sim.probe("Content-length without end of stream")
    elif cmd not in ("PING", "SKIP"):
        sim.probe("no Content-length")
    if len(wire) > 8192:
        sim.probe("larger than one chunk")
    if len(wire) > 65536:
        sim.probe("larger than 64k")
    full = head + wire + tail
    pieces, last = [], 0
    t = 0.0
    for pos in cuts(sim, full, len(head)):
        pieces.append((t, full[last:pos]))
        last = pos
        t += sim.pick("delay", [0.001, 0, 0.2, 5, 120])
    pieces.append((t, full[last:]))
    window = None
    if sim.chance("slow", 20):
        window = sim.pick("window", [1, 7, 100, 4096])
        sim.probe("slow reader")
    return {"cmd": cmd, "data": data, "full": full, "pieces": pieces, "eof": eof, "window": window,
            "short": sim.pick("short", [None, None, 1, 3, 1000]), "user": user,
            "together": sim.chance("together", 20), "seed": sim.int("mseed", 1, 1000)}


def life(sim, setup_, reqs):
    w = H.new_world(sim)
    setup_(w)
    d = H.Daemon(w).start()
    conns = []

    def launch(r):
        c = w.connect(d.port)
        if r["short"] and len(r["full"]) < 20000:
            c.short_reads = lambda n=r["short"]: n
        t0 = sim.now
        for t, piece in r["pieces"]:
            if t == 0:
                c.deliver(piece)
            else:
                sim.at(t0 + t, lambda p=piece: c.deliver(p))
        if r["eof"]:
            t = r["pieces"][-1][0]
            if t == 0:
                c.finish()
            else:
                sim.at(t0 + t, c.finish)
        if r["window"] is not None:
            c.window = r["window"]
            c.grow = r["window"]

            def more():
                if not c.closed:
                    c.grow *= 4
                    c.window += c.grow
                    sim.after(7.0, more)
            sim.after(3.0, more)
        conns.append((c, r))
        return c

    def on_close(c):
        c.at = sim.now
    w.on_close = on_close
    for r in reqs:
        w.seed_random(5)
        c = launch(r)
        if r["together"]:
            sim.probe("overlapping connections")
            continue
        if not sim.block(lambda: all(x.closed for x, y in conns) or not d.alive, 20000, "answers"):
            raise Violation("no answer", "a request is never answered: %s" % [
                (y["cmd"], y["full"][:200]) for x, y in conns if not x.closed])
    sim.block(lambda: all(x.closed for x, y in conns) or not d.alive, 20000, "answers")
    if not d.alive:
        raise Violation("died", "the daemon died: %s" % (d.error,))
    if not all(x.closed for x, y in conns):
        raise Violation("no answer", "a request is never answered")
    H.finish(sim)
    return [(c.at, bytes(c.out)) for c, r in conns]


def strip(raw):
    raw = H.normalise(raw)
    return b"\n".join(x for x in raw.split(b"\n") if not x.startswith((b"Received: from localhost", b"Date:")))


def run(sim):
    files, names = gen.config(sim, nmax=3, net=False)
    files["99_wire.cf"] = EXTRA + ("allow_user_rules 1\n" if sim.chance("allow", 50) else "")
    files["wire.py"] = PLUGIN
    users = [None, "ann"]

    def setup_(w):
        gen.internet(w)
        H.put_config(w, files)
        H.put_user(w, "ann", "required_score 0.1\nbody ANN /./\n")
    reqs = [make(sim, users) for dummy in range(sim.int("nreq", 2, 6))]
    got = iso(sim, life, setup_, reqs)
    bare = []
    for r, (t, raw) in zip(reqs, got):
        ref = iso(sim, H.oneshot, setup_, [r["full"]], (), t)[0]
        what = "%s of %d bytes (%d segments)" % (r["cmd"], len(r["full"]), len(r["pieces"]))
        if strip(raw) != strip(ref):
            a, b = strip(raw), strip(ref)
            raise Violation("segments", "%s, first bytes %r: is answered\n%s\nbut in one piece\n%s" % (
                what, r["full"][:200], kit.show(a, b), kit.show(b, a)))
        if r["cmd"] == "SKIP":
            continue
        resp = H.Response(raw, r["cmd"])
        if resp.problem or resp.code != 0:
            raise Violation("malformed", "%s: %s: %r" % (what, resp.problem, raw[:600]))
        if raw.count(b"SPAMD/") > 1 and b"SPAMD/" not in r["full"] and resp.body.count(b"SPAMD/") < raw.count(b"SPAMD/") - 1:
            raise Violation("two responses", "%s: %r" % (what, raw[:600]))
        if r["cmd"] in ("PING", "TELL"):
            continue
        sums = resp.body
        if r["cmd"] in ("PROCESS", "HEADERS", "REPORT"):
            want = digest(r["data"])
            lossy = digest(r["data"].decode("utf8", "ignore").encode("utf8"))
            if want != lossy:
                sim.probe("not UTF-8")
            if want in sums:
                pass
            elif want != lossy and lossy in sums and "non-utf8" in sim.known_ids:
                sim.known.append("non-utf8")
            elif b"ire=" in sums or b"Wire:" in sums:
                raise Violation("bytes", "%s: the message judged is not the one sent (%s expected): %r" % (
                    what, want, sums[-300:]))
            elif r["cmd"] != "REPORT" or b"no report template" not in sums:
                bare.append(r["cmd"])
    return {"nontrivial": any(len(r["pieces"]) > 1 for r in reqs),
            "sample": {"requests": [(r["cmd"], len(r["full"]), len(r["pieces"]), r["eof"], r["window"])
                                    for r in reqs], "without digest": bare}}
