"""P01: no influence of earlier traffic.

One daemon answers a random history; a freshly started daemon answers each request alone, at
the same simulated time and with the same answers of the network.  Same bytes expected."""
from .. import gen, kit
from .. import harness as H
from ..core import iso

QUICK_RUNS = 420
THOROUGH_RUNS = 8000
RULE = ("one run = one random deployment (plugin mix, options, rules, users) and one history of "
        "2-7 requests; non-trivial when at least two answers of the history are verdicts with "
        "different matched rules; distinct by the trace hash")
REAL = ["oad.py main, oa.server (all request handling)", "protocol commands", "configuration parser",
        "ruleset", "all message plugins except AWL, Bayes, Razor2, Pyzor, SpamCop",
        "dnspython stub resolver, pyspf, dkimpy, langdetect, PIL, PyPDF2"]
STUB = ["sockets and select (simulated network)", "DNS servers (simulated zone data)", "clock",
        "file system root (redirected to a scratch directory)", "GeoIP database reader"]
ASSUMPTIONS = ["MIME boundaries drawn at random by the email package are masked before comparing"]
PROBES = ["spam", "ham", "user", "report_safe bounce", "same message twice"] + kit.rule_probes()


def setup():
    H.preload()


def history(sim, setup_, requests, args, gaps):
    w = H.new_world(sim)
    setup_(w)
    d = H.Daemon(w, args).start()
    out = []
    for i, ((cmd, data), gap) in enumerate(zip(requests, gaps)):
        sim.advance(gap)
        w.seed_random(100 + i)
        t = sim.now
        out.append((t, d.ask(data)))
    H.finish(sim)
    return out


def run(sim):
    files, names = gen.config(sim, nmax=7)
    users = ["ann", "bea"]
    prefs = {u: gen.user_lines(sim, names) for u in users}
    if sim.chance("allow_user_rules", 60):
        files["00_users.cf"] = "allow_user_rules 1\n"
    args = ["-dl"] if sim.chance("dl", 15) else []

    def setup_(w):
        gen.internet(w)
        H.put_config(w, files)
        for u in users:
            H.put_user(w, u, prefs[u])

    n = sim.int("nreq", 2, 7)
    requests = kit.make_requests(sim, users, n)
    gaps = [sim.pick("gap", [0.5, 0, 30, 400]) for dummy in requests]
    got = iso(sim, history, setup_, requests, args, gaps)
    seen = set()
    for i, ((cmd, data), (t, raw)) in enumerate(zip(requests, got)):
        alone = iso(sim, H.oneshot, setup_, [data], args, t)[0]
        kit.note(sim, raw, cmd, seen)
        kit.compare("history", "request %d of %d (%s) after the history" % (i + 1, n, cmd), raw, alone,
                    "alone")
    return {"nontrivial": len(seen) > 1,
            "sample": {"plugins": names, "requests": [c for c, dummy in requests], "args": args}}
