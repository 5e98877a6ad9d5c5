"""P17: abuse reports go out once, only for fresh mail, to the configured relay.

One daemon with the SpamCop and Razor plugins over simulated days: reports of messages of every age
and shape, clock jumps, and a relay that fails at any step.  The mails that arrive at the simulated
relay are compared with those that had to be sent."""
import email
import email.utils
import re

from .. import gen
from .. import harness as H
from ..core import Violation, iso

QUICK_RUNS = 700
THOROUGH_RUNS = 26000
RULE = ("one run = SpamCop settings (addresses, size limit, switch; a user's own), 3-9 requests over simulated days with "
        "clock jumps, each with a message of some age, header shape, size and encoding and a relay that may fail at "
        "any step; non-trivial when some report was sent, another one had to be left out and one failed")
REAL = ["oad.py main, oa.server, protocol, parser, ruleset, message", "oa.plugins.spam_cop, razor2", "email package",
        "oa.dns_interface, dnspython stub resolver"]
STUB = ["smtplib.SMTP (every step may fail)", "clock, sockets, DNS servers", "razor programs", "file system root"]
ASSUMPTIONS = ["a message whose newest Received header has no readable date may or may not be reported",
               "ages within a minute of the two days are not generated"]
PROBES = ["sent", "too old", "disabled", "bad address", "future", "no date", "truncated", "8-bit", "several semicolons",
          "zone", "relay failed", "no mail exchanger", "clock jump", "user", "revoke", "not a report", "razor failed",
          "newer header first", "local only"]
STEPS = ["refused", "gaierror", "disconnect", "response", "reset", "hang", "connect554", "recipients", "helo"]
DAY = 86400


def life(sim, files, prefs, script):
    w = H.new_world(sim)
    gen.internet(w)
    w.dns.add("multi.example", "MX", "20 mx2.multi.example.", "10 mx1.multi.example.")
    H.put_config(w, files)
    for u in prefs:
        H.put_user(w, u, prefs[u])
    d = H.Daemon(w).start()
    out = []
    for op in script:
        if op[0] == "wait":
            sim.warp(op[1])
            continue
        if op[0] == "jump":
            sim.skew += op[1]
            continue
        dummy, build, plan = op
        cmd, user, headers, data = build(sim.time())
        w.smtp_plan = lambda step, session: plan["smtp"][1] if plan["smtp"] and step == plan["smtp"][0] else "ok"
        w.dns.mode = lambda name, qtype, server, nth: plan["dns"] if qtype == "MX" else "ok"
        for prog in ("razor-report", "razor-revoke"):
            w.programs[prog] = lambda args: dict(plan["razor"])
        n = len(w.smtp_sessions)
        x = len(w.externals)
        raw = d.ask(H.make_request(cmd, data, user, headers=headers))
        sim.advance(1)
        execs = [e for e in w.externals[x:] if "exec" in e]
        out.append((raw, w.smtp_sessions[n:], execs, data))
    alive = d.ask(H.make_request("SYMBOLS", b"Subject: x\r\n\r\nlast words\r\n"))
    H.finish(sim)
    return out, alive


def message(sim, now_to_date, spec, k):
    """The text of the message; `now_to_date` turns an age into a date."""
    received = []
    for age, zone, shape in spec["received"]:
        date = now_to_date(age, zone)
        tail = {"plain": "; " + date, "none": "", "bad": "; yesterday at noon", "semi":
                " (using TLSv1.2; cipher=AES; bits=256); " + date, "fold": ";\r\n\t" + date,
                "comment": "; " + date + " (CET)", "empty": ";"}[shape]
        received.append("Received: from a.example (a.example [203.0.113.9])\r\n\tby mx.local.example (Postfix) "
                        "with ESMTP id %d%s" % (k, tail))
    head = received + ["From: <x@spammy.example>", "To: user@local.example", "Subject: " + spec["subject"]]
    body = "".join("line %d %s\r\n" % (i, spec["word"]) for i in range(spec["lines"]))
    return ("\r\n".join(head) + "\r\n\r\n" + body).encode("utf8")


def run(sim):
    conf = {"to": "spamassassin-submit@spam.spamcop.net", "from": "", "size": 50, "off": False}
    lines = ["loadplugin oa.plugins.spam_cop.SpamCopPlugin", "loadplugin oa.plugins.razor2.Razor2Plugin",
             "allow_user_rules 1", "body LAST /last words/", "trusted_networks 10.0.0.0/8"]

    def settings(c, percent):
        out = []
        if sim.chance("to", percent):
            c["to"] = sim.pick("tov", ["x@spamcop.example", "me@multi.example", "nobody", "x@nomx.example", "@"])
            out.append("spamcop_to_address " + c["to"])
        if sim.chance("from", percent):
            c["from"] = "reporter@local.example"
            out.append("spamcop_from_address " + c["from"])
        if sim.chance("size", percent):
            c["size"] = sim.pick("sizev", [1, 2, 5])
            out.append("spamcop_max_report_size %d" % c["size"])
        if sim.chance("off", percent / 4.):
            c["off"] = True
            out.append("dont_report_to_spamcop 1")
        return out

    lines += settings(conf, 60)
    ann = dict(conf)
    annlines = settings(ann, 40) + ["describe LAST mine"]
    script, facts = [], []
    for k in range(sim.int("nreq", 3, 9)):
        what = sim.wpick("between", [(None, 60), ("wait", 25), ("jump", 15)])
        if what == "wait":
            script.append(("wait", sim.pick("waitv", [60, 3600, DAY, 3 * DAY])))
        elif what == "jump":
            sim.probe("clock jump")
            script.append(("jump", sim.pick("jumpv", [-3600, -3 * DAY, 3 * DAY, 90 * DAY, -90 * DAY])))
        spec = {"received": [], "subject": "hello", "word": "buy", "lines": sim.pick("lines", [1, 5, 60, 150, 900])}
        for dummy in range(sim.wpick("nrcv", [(1, 55), (2, 35), (0, 10)])):
            age = sim.pick("age", [60, 3600, DAY, 2 * DAY - 300, 2 * DAY + 300, 3 * DAY, 400 * DAY, -3600, -5 * DAY, 0])
            spec["received"].append((age, sim.wpick("zone", [(0, 75), (5 * 3600, 12), (-8 * 3600, 13)]), sim.wpick(
                "shape", [("plain", 55), ("semi", 10), ("fold", 10), ("comment", 10), ("none", 5), ("bad", 5), ("empty", 5)])))
        if sim.chance("8bit", 25):
            spec["word"] = sim.pick("word8", [u"caf\xe9", u"\u20ac\u20ac\u20ac", u"\U0001f600"])
            if sim.chance("8subj", 30):
                spec["subject"] = spec["word"]
        user = sim.wpick("user", [(None, 70), ("ann", 30)])
        cmd, headers = sim.wpick("cmd", [
            (("TELL", ["Message-class: spam", "Set: local, remote"]), 50), (("TELL", ["Message-class: spam", "Set: remote"]), 25),
            (("TELL", ["Message-class: ham", "Remove: remote"]), 8), (("REPORT", []), 7), (("PROCESS", []), 4),
            (("TELL", ["Message-class: spam", "Set: local"]), 6)])
        plan = {"smtp": None, "dns": "ok", "razor": {"returncode": 0}}
        if sim.chance("relay", 35):
            plan["smtp"] = (sim.pick("step", ["connect", "helo", "mail", "quit"]), sim.pick("how", STEPS))
        if sim.chance("mx", 10):
            plan["dns"] = sim.pick("mxmode", ["timeout", "nxdomain", "servfail", "empty", "yxdomain"])
        if sim.chance("razor", 20):
            plan["razor"] = sim.pick("razorv", [{"duration": None}, {"returncode": 3}, {"error": OSError(2, "no")},
                                                {"epipe": True, "returncode": 1}])

        def build(now, spec=spec, cmd=cmd, headers=headers, user=user, k=k):
            def date(age, zone):
                t = now - age
                s = email.utils.formatdate(t + zone)
                return s.replace("-0000", "%s%02d00" % ("-" if zone < 0 else "+", abs(zone) // 3600))
            return cmd, user, headers, message(sim, date, spec, k)

        script.append(("ask", build, plan))
        facts.append((cmd, headers, user, ann if user else conf, spec, plan))
    got, alive = iso(sim, life, {"10.cf": "\n".join(lines) + "\n"}, {"ann": "\n".join(annlines) + "\n"}, script)
    seen = set()
    for k, (rec, fact) in enumerate(zip(got, facts)):
        seen.add(judge(sim, k, rec, fact))
    r = H.Response(alive, "SYMBOLS")
    if r.problem or b"LAST" not in r.body:
        raise Violation("daemon", "after the reports the daemon answers %r" % alive)
    return {"nontrivial": {"sent", "withheld", "failed"} <= seen,
            "sample": {"settings": [x for x in lines if "spamcop" in x], "requests": [
                (f[0], f[2], f[4]["received"], f[5]["smtp"]) for f in facts]}}


def parse_mail(mail):
    if isinstance(mail, str):
        mail = mail.encode("ascii")
    if re.search(b"(?<!\r)\n|\r(?!\n)", mail) and b"\r\n" in mail:
        return None, "mixed line ends"
    # what the receiver gets: take the report apart by hand, as bytes
    m = re.search(br'boundary="([^"]+)"', mail)
    if not m:
        return None, "no boundary"
    parts = re.split(br"\r?\n?--" + re.escape(m.group(1)) + br"(?:--)?\r?\n?", mail)
    for p in parts[1:]:
        head, dummy, body = p.replace(b"\r\n", b"\n").partition(b"\n\n")
        if b"message/rfc822" in head:
            return (parts[0].replace(b"\r\n", b"\n"), head, body), None
    return None, "no message part"


def judge(sim, k, rec, fact):
    raw, sessions, execs, data = rec
    cmd, headers, user, c, spec, plan = fact
    what = "request %d (%s %s, user %s, settings %s, Received %s, relay %s, MX %s)" % (
        k, cmd, headers, user, c, spec["received"], plan["smtp"], plan["dns"])

    def bad(kind, text):
        raise Violation(kind, "%s: %s" % (what, text))

    r = H.Response(raw, cmd)
    if r.problem or r.code != 0:
        bad("no answer", "answered %r (%s)" % (raw, r.problem))
    if user:
        sim.probe("user")
    mails = [(s["host"], s["port"]) + m for s in sessions for m in s["mails"]]
    if len(sessions) > 1 or len(mails) > 1:
        bad("more than once", "%d sessions, %d mails" % (len(sessions), len(mails)))
    local = cmd == "TELL" and headers[1:] == ["Set: local"]
    progs = [e[e.index("exec") + 1] for e in execs]
    if cmd == "TELL":
        want = ["razor-revoke"] if "Remove: remote" in headers else [] if local else ["razor-report"]
        if progs != want:
            bad("other reporters", "the programs %s are run, expected %s" % (progs, want))
        if plan["razor"] != {"returncode": 0}:
            sim.probe("razor failed")
    if cmd != "TELL" or "Remove: remote" in headers or local:
        sim.probe("not a report" if cmd != "TELL" else "local only" if local else "revoke")
        if sessions:
            bad("unasked", "a report is sent")
        return "other"
    if c["off"]:
        sim.probe("disabled")
        if sessions:
            bad("disabled", "a report is sent although dont_report_to_spamcop is set")
        return "withheld"
    if not re.match(".+@.+", c["to"]):
        sim.probe("bad address")
        if sessions:
            bad("address", "a report is sent to %r" % c["to"])
        return "withheld"
    if not spec["received"] or spec["received"][0][2] in ("none", "bad", "empty"):
        sim.probe("no date")
        may, must = True, False
    else:
        age, zone, shape = spec["received"][0]
        must = may = age < 2 * DAY
        if shape == "semi":
            sim.probe("several semicolons")
        if zone:
            sim.probe("zone")
            # the header is read as if it were in the daemon's own time zone
            read = age - zone < 2 * DAY
            if read != must:
                if "received-zone" in sim.known_ids and bool(sessions) == read:
                    sim.known.append("received-zone")
                    must, may = False, True
        if age < 0:
            sim.probe("future")
        if len(spec["received"]) > 1 and age < 2 * DAY < spec["received"][1][0]:
            sim.probe("newer header first")
    if plan["dns"] != "ok" or c["to"].endswith("nomx.example"):
        sim.probe("no mail exchanger")
        must = may = False
    if sessions and not may:
        bad("not allowed", "a report is sent")
    if not must and not may:
        sim.probe("too old")
        return "withheld"
    if must and not sessions:
        bad("not sent", "no session with the relay")
    if not sessions:
        return "withheld"
    s = sessions[0]
    dom = c["to"].split("@")[1]
    hosts = {"multi.example": ["mx1.multi.example", "mx2.multi.example"]}.get(dom, ["in.spamcop.example"])
    if s["host"] not in hosts or s["port"] != 587:
        bad("relay", "the session is with %s port %s" % (s["host"], s["port"]))
    if plan["smtp"] and plan["smtp"][0] != "quit":
        sim.probe("relay failed")
        if mails:
            bad("relay", "a mail although the relay failed")
        return "failed"
    if not mails:
        bad("not sent", "the session makes the steps %s and no mail" % s["steps"])
    sender, to, mail = mails[0][2:]
    if to != (c["to"],):
        bad("address", "the report goes to %s" % (to,))
    if sender != c["from"]:
        bad("sender", "the report comes from %r" % sender)
    parsed, problem = parse_mail(mail)
    if problem:
        bad("report", "the report is malformed (%s)" % problem)
    top, head, body = parsed
    if (b"To: " + c["to"].encode()) not in top.split(b"\n"):
        bad("report", "no To header in %r" % top)
    original = data.replace(b"\r\n", b"\n")
    limit = c["size"] * 1024
    sim.probe("sent")
    if any(b > 127 for b in data):
        sim.probe("8-bit")
    marker = b"\n[truncated by OrangeAssassin]\n"
    if body.rstrip(b"\n") == original.rstrip(b"\n"):
        if len(original) > limit:
            bad("size", "%d bytes are attached, the limit is %d" % (len(body), limit))
        return "sent"
    if len(data) <= limit:
        bad("content", "the attached message differs from the original (%d bytes): %r" % (len(data), body[:300]))
    i = body.find(marker)
    if i < 0:
        bad("content", "the original (%d bytes) is attached as %d other bytes, not marked as truncated" % (len(data), len(body)))
    kept = body[:i]
    sim.probe("truncated")
    if not (original.startswith(kept) or data.replace(b"\r\n", b"\n").startswith(kept)) or len(kept) > limit:
        bad("size", "%d bytes are kept of %d, the limit is %d" % (len(kept), len(original), limit))
    if len(kept) + kept.count(b"\n") < limit - 8:
        bad("size", "only %d bytes are kept of %d, the limit is %d" % (len(kept), len(original), limit))
    return "sent"


def setup():
    H.preload()
