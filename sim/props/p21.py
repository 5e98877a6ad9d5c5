"""P21: loading the configuration does not depend on the order or timing of the file system.

One random configuration is laid out over several files (.pre and .cf of the site and of the default
directory, included files, preferences).  A daemon that meets it on a file system which lists
directories in any order, with any file times, stray files, and a failing or vanishing file, must answer
like one that is given the same lines in a single file in the documented order, or refuse to load."""
import errno
import os

from .. import gen, kit
from .. import harness as H
from ..core import Violation, iso
from .p02 import strip

QUICK_RUNS = 260
THOROUGH_RUNS = 9000
RULE = ("one run = 3-9 files of one configuration with overriding lines, 2-4 requests, one hostile file system (listing "
        "order, times, stray files, one error at start or at a reload) and three deployments; non-trivial when the order of "
        "the files matters (applied in reverse, some answer differs) or a fault hit")
REAL = ["oad.py main, reload, oa.server, protocol", "oa.config (file selection), parser (includes, conditionals)",
        "ruleset, rules, plugins without network access"]
STUB = ["file system root, directory listings, open and read errors", "sockets, clock, signals"]
ASSUMPTIONS = ["name order is the order of code points", "a directory or a file of another extension is no configuration",
               "a file that vanishes before it is read may be left out"]
PROBES = ["order matters", "site overrides default", "one directory", "include", "nested include", "stray files", "times",
          "listing shuffled", "reload", "user", "fault at start", "fault at reload", "read error midway",
          "vanished", "load refused", "file left out", "loaded again after the fault", "no final newline", "crlf", "preferences fail", "ifplugin"]
NAMES = ["10_a", "9_b", "Z", "a", "_x", "local", "50_x", "50_X", "50-x", "0", "v320", "init", "aa.bb", "zz_last", "20 spaced"]
STRAY = ["README", "10_a.cf.bak", "20_old.cf~", "x.cfg", "local.cf.dpkg-dist", ".local.cf.swp", "cf", "pre", "sub/99.cf",
         "99_dir.cf/in.cf", "notes.CF", "30_c.cf.rpmnew", "zz.pre.orig"]
EVIL = "required_score -100\nbody EVIL /./\nscore EVIL 50\nscore T_HELLO 9\nadd_header all Evil yes\nreport evil\n"
RULES = ["T_HELLO", "T_MONEY", "T_VIAGRA", "T_SUBJ", "T_X"]


def layout(sim, lines, pre):
    """-> [(directory kind, name, [lines])] in the documented order, included: {name: [lines]}"""
    one = sim.chance("one directory", 20)
    names = {}
    files = []
    for kind in ("site.pre", "conf.pre", "conf.cf", "site.cf"):
        if one and kind.startswith("conf"):
            continue
        n = sim.wpick(kind, [(0, 20), (1, 35), (2, 30), (3, 15)] if kind != "site.cf" else [(1, 30), (2, 40), (3, 30)])
        names[kind] = sorted(sim.shuffled("names", NAMES)[:n])
        files += [(kind, name) for name in names[kind]]
    slots = [[] for dummy in files]
    pres = [i for i, (k, dummy) in enumerate(files) if k.endswith(".pre")] or [0]
    for l in pre:
        slots[sim.pick("pre file", pres)].append(l)
    cfs = [i for i, (k, dummy) in enumerate(files) if k.endswith(".cf")]
    at = sorted(sim.choose("cut", len(lines) + 1) for dummy in cfs[1:])
    for i, (a, b) in zip(cfs, zip([0] + at, at + [len(lines)])):
        slots[i] += lines[a:b]
    # lines for which the last one counts, in several files
    for dummy in range(sim.int("overrides", 2, 8)):
        i = sim.choose("override at", len(files))
        r = sim.pick("override rule", RULES)
        slots[i].insert(sim.choose("at", len(slots[i]) + 1), sim.pick("override", [
            "score %s %s" % (r, sim.pick("value", ["0.5", "1", "2", "-3", "7"])),
            "required_score %s" % sim.pick("value", ["1", "4", "9"]), "describe %s said in file %d" % (r, i),
            "body T_X /%s/" % sim.pick("value", ["hello", "e", "nothing-like-it", "money"]),
            "add_header all Which file %d" % i, "report_safe %s" % sim.pick("value", ["0", "1"]),
            "clear_report_template", "report from file %d" % i]))
    included = {}
    for k in range(sim.wpick("includes", [(0, 55), (1, 30), (2, 15)])):
        sim.probe("include")
        name = "inc%d.%s" % (k, sim.pick("ext", ["inc", "cf.in", "txt"]))
        body = ["score %s %s" % (sim.pick("r", RULES), sim.pick("value", ["0.25", "1.25", "6"])),
                "report include %d" % k]
        if included and sim.chance("nested", 60):
            sim.probe("nested include")
            # a relative name is beside the file that includes it
            body.insert(sim.choose("at", 3), "include inc0." + [n for n in included][0].split(".", 1)[1])
        included[name] = body
        i = sim.choose("include at", len(files))
        slots[i].insert(sim.choose("at", len(slots[i]) + 1), "include " + name)
    for i in cfs:
        if sim.chance("ifplugin", 15):
            sim.probe("ifplugin")
            slots[i] += ["ifplugin " + sim.pick("plugin", ["Mail::SpamAssassin::Plugin::Nothing", "BodyEval", "HeaderEval"]),
                         "score T_HELLO 0.75", "else", "score T_HELLO 0.8", "endif"]
    return one, [(k, n, s) for (k, n), s in zip(files, slots)], included


def flat(files, included, without=()):
    """The lines in the documented order, included files where they are included."""
    out = []

    def put(where, lines):
        for l in lines:
            if l.startswith("include "):
                if (where, l.split()[1]) not in without and l.split()[1] not in without:
                    put(where, included[l.split()[1]])
            else:
                out.append(l)
    for kind, name, lines in files:
        if (kind, name) not in without:
            put(kind.split(".")[0], lines)
    return "\n".join(out) + "\n"


def write(w, fs, one, files, included):
    for kind, name, lines in files:
        d = H.SITE if one or kind.startswith("site") else H.CONF
        end = fs["ends"].get((kind, name), "\n")
        text = end.join(lines) + ("" if (kind, name) in fs["cut"] else end)
        w.write("%s/%s.%s" % (d, name, kind.split(".")[1]), text)
    for d in (H.SITE, H.CONF):
        for name in included:
            w.write("%s/%s" % (d, name), "\n".join(included[name]) + "\n")


def life(sim, fs, one, files, included, prefs, requests):
    w = H.new_world(sim)
    gen.internet(w)
    w.write(H.SITE + "/README", "x")
    w.write(H.CONF + "/README", "x")
    for u in prefs:
        H.put_user(w, u, prefs[u])
    old = fs["mode"] in ("reload", "fault at reload")
    if old:
        w.write(H.SITE + "/init.cf", fs["old"])
        d = H.Daemon(w, fs["args"], conf=H.SITE if one else H.CONF).start()
        w.unlink(H.SITE + "/init.cf")
    write(w, fs, one, files, included)
    for name in fs["stray"]:
        for base in (H.SITE, H.CONF):
            w.write(base + "/" + name, EVIL)
    for i, (kind, name, lines) in enumerate(files):
        p = w.path("%s/%s.%s" % (H.SITE if one or kind.startswith("site") else H.CONF, name, kind.split(".")[1]))
        if fs["times"]:
            t = 1700000000 + fs["times"][i]
            os.utime(p, (t, t))
    if fs["shuffle"]:
        def order(vp, names):
            got = [n for dummy, n in sorted((fs["shuffle"][sum(map(ord, n)) % len(fs["shuffle"])], n) for n in names)]
            if got != sorted(names):
                sim.fault("unsorted listing")
            return got
        w.list_order = order
    hit = []
    if fs["fault"]:
        how, target, n = fs["fault"]

        def faults(vp, mode):
            if vp == target and how in ("open", "list") and (mode == "list") == (how == "list") and not hit:
                hit.append(how)
                return OSError(n, "injected")
        w.open_faults = faults
        if how == "read":
            def wrap(vp, mode, f):
                if vp == target and "r" in mode and not hit:
                    hit.append("read")
                    return Torn(sim, f, n)
                return f
            w.open_wrap = wrap
        elif how == "vanish":
            before = w.list_order

            def gone(vp, names):
                if before:
                    names = before(vp, names)
                if vp == os.path.dirname(target):
                    hit.append("vanish")
                    sim.fault("file vanishes")
                    w.unlink(target)
                return names
            w.list_order = gone
    if old:
        d.reload()
        d.settle()
    else:
        d = H.Daemon(w, fs["args"], conf=H.SITE if one else H.CONF)
        try:
            d.start()
        except H.StartFailed:
            d = None
    out = []

    def ask():
        got = []
        for data in requests:
            w.seed_random(7)
            got.append(d.ask(data))
        out.append(got)
    if d is None:
        out.append(None)
    else:
        ask()
        if fs["fault"]:
            # the fault is over
            d.reload()
            d.settle()
            ask()
    H.finish(sim)
    return out, list(hit)


class Torn(object):
    """A file whose read fails after some lines."""

    def __init__(self, sim, f, n):
        self.sim = sim
        self.f = f
        self.n = n

    def _count(self):
        self.n -= 1
        if self.n < 0:
            self.sim.fault("read EIO")
            raise OSError(errno.EIO, "injected")

    def __iter__(self):
        return self

    def __next__(self):
        self._count()
        return next(self.f)

    def readline(self, *a):
        self._count()
        return self.f.readline(*a)

    def read(self, *a):
        raise OSError(errno.EIO, "injected")

    def readlines(self, *a):
        raise OSError(errno.EIO, "injected")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def __getattr__(self, name):
        return getattr(self.f, name)


def reference(sim, text, prefs, requests):
    def setup_(w):
        gen.internet(w)
        H.put_config(w, {"10.cf": text})
        for u in prefs:
            H.put_user(w, u, prefs[u])
    return [strip(x) for x in iso(sim, H.oneshot, setup_, requests)]


def run(sim):
    cfg, names = gen.config(sim, nmax=3, net=False, reports=sim.chance("reports", 50))
    pre = [l for l in cfg["init.pre"].split("\n") if l]
    lines = [l for n in sorted(cfg) if n != "init.pre" for l in cfg[n].split("\n") if l]
    lines += ["body T_X /never/", "score T_HELLO 1", "report V=_TESTSSCORES_ _REQD_", "allow_user_rules 1"]
    one, files, included = layout(sim, lines, pre)
    if one:
        sim.probe("one directory")
    prefs = {}
    user = None
    if sim.chance("user", 35):
        sim.probe("user")
        user = "ann"
        prefs["ann"] = gen.user_lines(sim, names) + "score T_HELLO 0.9\n"
    requests = []
    for dummy in range(sim.int("nreq", 2, 4)):
        cmd = sim.wpick("cmd", kit.VERDICTS)
        msg = gen.message(sim, dkim=False) if sim.chance("random", 50) else (
            "From: alice@example.com\r\nTo: user@local.example\r\nSubject: an offer\r\n\r\n%s\r\n" % sim.pick(
                "text", ["hello, money", "buy viagra", "hello", "money and viagra"])).encode()
        requests.append(H.make_request(cmd, msg, user if sim.chance("as user", 60) else None))
    fs = {"stray": sim.subset("stray", STRAY) if sim.chance("strays", 55) else [],
          "times": None, "shuffle": None, "fault": None, "mode": "start", "args": [],
          "ends": {}, "cut": set(), "old": "body OLD /./\nscore OLD 3\nreport old _SCORE_\n"}
    fs["stray"] = [s for s in fs["stray"] if s.split("/")[0] not in {"%s.%s" % (n, k.split(".")[1]) for k, n, l in files}]
    if fs["stray"]:
        sim.probe("stray files")
    if sim.chance("times", 55):
        sim.probe("times")
        fs["times"] = [sim.pick("time", [0, 5, -86400 * 400, -3600, 86400, 86400 * 4000]) for dummy in files]
    if sim.chance("shuffled", 75):
        sim.probe("listing shuffled")
        fs["shuffle"] = [sim.choose("order", 100) for dummy in range(17)]
    for k, n, l in files:
        if sim.chance("crlf", 8):
            sim.probe("crlf")
            fs["ends"][k, n] = "\r\n"
        if sim.chance("cut", 15):
            sim.probe("no final newline")
            fs["cut"].add((k, n))
    if sim.chance("reload", 40):
        sim.probe("reload")
        fs["mode"] = "reload"
    victim = None
    if sim.chance("fault", 45):
        kind, name, body = sim.pick("victim", files)
        d = H.SITE if one or kind.startswith("site") else H.CONF
        vp = "%s/%s.%s" % (d, name, kind.split(".")[1])
        victim = (kind, name)
        mine = [l.split()[1] for l in body if l.startswith("include ")]
        if mine and sim.chance("included", 50):
            body = included[mine[0]]
            vp = "%s/%s" % (d, mine[0])
            victim = (kind.split(".")[0], mine[0])
        how = sim.wpick("how", [("open", 40), ("read", 35), ("list", 10), ("vanish", 15)])
        if user and sim.chance("own", 30):
            sim.probe("preferences fail")
            vp, victim = "/home/ann/.spamassassin/user_prefs", ("prefs", "ann")
            body = prefs["ann"].split("\n")
            how = sim.pick("how2", ["open", "read"])
        if how == "list":
            vp = d
        fs["fault"] = (how, vp, sim.choose("after", len(body) + 1) if how == "read" else
                       sim.pick("errno", [errno.EIO, errno.EACCES, errno.EMFILE, errno.ENOENT]))
        sim.probe("fault at reload" if fs["mode"] == "reload" else "fault at start")
    want = reference(sim, flat(files, included), prefs, requests)
    reverse = reference(sim, flat(files[::-1], included), prefs, requests)
    matters = reverse != want
    if matters:
        sim.probe("order matters")
    if any(k == "conf.cf" for k, dummy, s in files):
        sim.probe("site overrides default")
    out, hit = iso(sim, life, fs, one, files, included, prefs, requests)
    shown = "\n".join("--- %s: %s\n%s" % (k, n, "\n".join(s)) for k, n, s in files) + "\nincluded: %s\nprefs: %s\nfile system: %s" % (
        included, prefs, fs)
    if not hit:
        if out[0] is None:
            raise Violation("refused", "nothing fails, and the daemon does not start\n" + shown)
        check(sim, want, out[0], requests, shown, "the files are not applied like")
        return {"nontrivial": matters, "sample": {"files": [f[:2] for f in files], "mode": fs["mode"]}}
    if victim[0] == "prefs":
        bare = reference(sim, flat(files, included), {}, requests)
        for i, b in enumerate(out[0] or []):
            if strip(b) not in (want[i], bare[i]):
                raise Violation("half loaded", "the preferences cannot be read, and request %d is answered\n%r\nas neither "
                                "with them\n%r\nnor without them\n%r\n%s" % (i, b, want[i], bare[i], shown))
        if out[0] is None:
            raise Violation("refused", "the preferences of a user cannot be read, and the daemon does not start\n" + shown)
        check(sim, want, out[1], requests, shown, "after a reload without any fault, the files are not applied like")
        return {"nontrivial": True, "sample": {"files": [f[:2] for f in files], "fault": fs["fault"]}}
    how = fs["fault"][0]
    if how == "read":
        sim.probe("read error midway")
    if how == "vanish":
        sim.probe("vanished")
    got = out[0] and [strip(x) for x in out[0]]
    if got is None:
        sim.probe("load refused")
    else:
        allowed = [("without " + victim[1], reference(sim, flat(files, included, {victim}), prefs, requests))]
        if fs["mode"] == "reload":
            allowed.append(("the old configuration", reference(sim, fs["old"], prefs, requests)))
        if how == "list":
            allowed = allowed[1:]
        if got == want:
            if how == "vanish":
                pass            # it made no difference
            elif allowed and allowed[0][1] == want or fs["mode"] == "reload" and allowed[-1][1] == want:
                pass
            elif how == "read" and fs["fault"][2] > 0:
                pass            # the error came after the last line
        elif got == (allowed[0][1] if allowed else None) and how != "list":
            sim.probe("file left out")
        elif fs["mode"] == "reload" and got == allowed[-1][1]:
            sim.probe("load refused")
        else:
            i = [a == b for a, b in zip(want, got)].index(False)
            raise Violation("half loaded", "%s fails while %s is read, and request %d is answered\n%r\nas neither the whole "
                            "configuration does\n%r\nnor one %s\n%s" % (
                                how, fs["fault"][1], i, got[i][:600], want[i][:600],
                                "; nor one ".join("%s: %r" % (a, b[i][:600]) for a, b in allowed), shown))
        if how != "vanish":
            sim.probe("loaded again after the fault")
            check(sim, want, out[1], requests, shown, "after a reload without any fault, the files are not applied like")
    return {"nontrivial": True, "sample": {"files": [f[:2] for f in files], "mode": fs["mode"], "fault": fs["fault"]}}


def check(sim, want, got, requests, shown, what):
    for i, (a, b) in enumerate(zip(want, got)):
        b = strip(b)
        if a != b:
            raise Violation("order", "request %d: %s the same lines in one file, in order:\n%r\ninstead of\n%r\n%s" % (
                i, what, b[:800], a[:800], shown))


def setup():
    H.preload()
