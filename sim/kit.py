"""Pieces shared by the scenarios."""
from . import gen
from . import harness as H
from .core import Violation, iso

CMDS = [("SYMBOLS", 25), ("CHECK", 8), ("REPORT", 14), ("REPORT_IFSPAM", 8), ("PROCESS", 22),
        ("HEADERS", 13), ("PING", 5), ("TELL", 5)]
VERDICTS = [("SYMBOLS", 45), ("REPORT", 25), ("PROCESS", 30)]


# cannot match: not implemented, or the rule always fails
NEVER = ("R_ILL", "R_UNP", "D_TXT", "D_TYPE", "M_QP")


def rule_probes(frags=None):
    return ["rule " + r.split()[1] for f in (frags or gen.FRAGS) for x in f.rules
            for r in x.split("\n") if ("eval:" in r or r.startswith("uri_detail"))
            and r.split()[1] not in NEVER]


def make_requests(sim, users, n, cmds=CMDS, again=15, message=gen.message, hasuser=40):
    """-> [(command, request bytes)]"""
    out = []
    msgs = []
    for dummy in range(n):
        cmd = sim.wpick("cmd", cmds)
        user = sim.pick("user", users) if users and sim.chance("hasuser", hasuser) else None
        if msgs and sim.chance("again", again):
            msg = sim.pick("again", msgs)
            sim.probe("same message twice")
        else:
            msg = message(sim)
        msgs.append(msg)
        if user:
            sim.probe("user")
        headers = []
        if cmd == "TELL":
            headers = ["Message-class: " + sim.pick("class", ["spam", "ham"]),
                       sim.pick("tell", ["Set: local", "Remove: local"])]
        if cmd == "PING":
            msg = None
        out.append((cmd, H.make_request(cmd, msg, user, headers=headers)))
    return out


def show(a, b):
    """The differing part of a."""
    if a is None or b is None:
        return repr(a)[:600]
    k = 0
    while k < min(len(a), len(b)) and a[k] == b[k]:
        k += 1
    return "%r ... differs at %d: %r" % (a[:120], k, a[max(0, k - 60):k + 200])


def compare(kind, what, raw, ref, reflabel):
    a, b = H.normalise(raw), H.normalise(ref)
    if a != b:
        raise Violation(kind, "%s is answered\n%s\nbut %s\n%s" % (what, show(a, b), reflabel, show(b, a)))


def note(sim, raw, cmd, seen):
    """Coverage bookkeeping for one answer."""
    r = H.Response(raw, cmd)
    if r.spam is not None:
        sim.probe("spam" if r.spam else "ham")
        seen.add((r.score, tuple(r.symbols) if cmd == "SYMBOLS" else None))
    if b"before OrangeAssassin" in r.body:
        sim.probe("report_safe bounce")
    return r
