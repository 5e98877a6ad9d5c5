"""P24: a damaged or hostile message is judged like an intact one, except for what is damaged.

A message whose parts are known is damaged in one or more places - extra hostile headers, a value
replaced by something no parser expects, bytes garbled inside one header or part, a hostile extra
part, a lost tail - and sent to the same daemon as the intact one.  Every request gets one complete
verdict, and every rule that reads only undamaged parts (its reads are declared below) decides as it
does for the intact message."""
from .. import gen, kit
from .. import harness as H
from ..core import Violation, iso

QUICK_RUNS = 420
THOROUGH_RUNS = 12000
RULE = ("one run = one deployment with the anchor rules and up to 7 random rule groups and plugins, the intact message, "
        "2-5 damaged versions of it (1-4 damages each) in random order, each judged by two commands; non-trivial when an "
        "anchor rule that matches the intact message was compared on a damaged one")
REAL = ["oad.py main, oa.server, all protocol commands", "message parser, received parser, Python's email and html parsers",
        "ruleset and rules", "every plugin of the chosen groups"]
STUB = ["clock", "file system root", "DNS resolver, sockets, external programs (simulated, answering)"]
ASSUMPTIONS = ["the bytes of a damaged part contain no line end, so that it stays one part",
               "a line that is no header line ends the header block: everything after it counts as damaged"]
EAGER = ["-dl"]
KINDS = [("extra", 34), ("replace", 18), ("noise", 18), ("part", 14), ("drop", 6), ("cut", 10), ("line", 5)]
OTHER = [("PROCESS", 30), ("REPORT", 25), ("HEADERS", 20), ("REPORT_IFSPAM", 10), ("CHECK", 8), ("TELL", 7)]
ANCHORS = {
    # rule: (reads, lower-case header names whose presence elsewhere matters)
    "A_SUBJ": ({"h:Subject"}, ()),
    "A_FROM": ({"h:From"}, ("from",)),
    "A_FNAME": ({"h:From"}, ("from",)),
    "A_TO": ({"h:To"}, ()),
    "A_XH": ({"h:X-Anchor"}, ()),
    "A_EX": ({"h:X-Anchor"}, ()),
    "A_LIST": ({"h:List-Id"}, ()),
    "A_RCVD": ({"h:Received"}, ()),
    "A_BODY": ({"mime", "ph:text", "p:text"}, ("content-type", "content-transfer-encoding", "mime-version")),
    "A_RAW": ({"mime", "ph:text", "p:text"}, ("content-type", "content-transfer-encoding", "mime-version")),
    "A_HTML": ({"mime", "ph:html", "p:html"}, ("content-type", "content-transfer-encoding", "mime-version")),
    "A_URI": ({"mime", "ph:text", "p:text"}, ("content-type", "content-transfer-encoding", "mime-version")),
    "A_FULL": ({"p:text"}, ()),
    "A_MIME": ({"mime", "ph:note"}, ("content-type", "content-transfer-encoding", "mime-version")),
    "A_GIF": ({"mime", "ph:gif", "p:gif"}, ("content-type", "content-transfer-encoding", "mime-version")),
    "A_RBL": ({"h:Received"}, ()),
    "A_FREE": ({"h:From"}, ("from", "resent-from")),
    "A_META": ({"h:Subject", "mime", "ph:text", "p:text"}, ("content-type", "content-transfer-encoding", "mime-version")),
}
RULES = """
header A_SUBJ Subject =~ /anchor-subject/
header A_FROM From:addr =~ /^anchor\\@gmail\\.com$/
header A_FNAME From:name =~ /Anchor Sender/
header A_TO To =~ /anchor-rcpt/
header A_XH X-Anchor =~ /fine value/
header A_EX exists:X-Anchor
header A_LIST List-Id =~ /anchor-list/
header A_RCVD Received =~ /anchor-hop/
body A_BODY /anchor needle/
rawbody A_RAW /anchor needle/
body A_HTML /anchor markup/
uri A_URI /anchor\\.example\\/path/
full A_FULL /anchor needle/
mimeheader A_MIME Content-Type =~ /anchor-note/
body A_GIF eval:image_named('anchor.gif')
header A_RBL eval:check_rbl('anch', 'bl.example')
header A_FREE eval:check_freemail_from()
meta A_META A_SUBJ && A_BODY
report T=_TESTS_
"""
PROBES = ["damage " + k for k, dummy in KINDS] + [
    "anchor " + a for a in sorted(ANCHORS)] + [
    "undecodable header", "hostile Received", "hostile HTML", "hostile charset", "hostile address", "bad date",
    "separator character in a header", "lone surrogate bytes", "NUL", "eager", "alternative", "several damages"]
ENCODED = ["=?undefined?q?a=FF?=", "=?idna?q?a..=2E?=", "=?punycode?q?=FF?=", "=?utf-8?b?A?=", "=?utf-8?b?AAAAA?=",
           "=?utf-8?q?=ED=A0=80?=", "=?zlib?q?x?=", "=?hex?q?zz?=", "=?rot13?q?a?=", "=?base64?q?a?=", "=?utf-7?q?+2AA-?=",
           "=?unicode_escape?q?=5Cx?=", "=?raw_unicode_escape?q?=5CuZ?=", "=?utf-16?q?a?=", "=?utf-32?b?/////w==?=",
           "=?utf-32?b?AA==?=", "=?\0?q?a?=", "=??q??=", "=?utf-8?x?a?=", "=?utf-8?q??=", "=?us-ascii?q?=E9?=",
           "=?utf-8*en?q?x?=", "=?x-unknown?b?AAAA?=", "=?iso-2022-jp?b?GyRC?=", "=?utf-8?b?====?=", "=?mbcs?q?=E9?=",
           "=?utf_8_sig?q?=E9?=", "=?idna?b?w6k=?=", "=?cp65001?q?=E9?=", "=?utf-8?q?a?=\t=?utf-8?b?!?=", "=?oem?q?=E9?="]
ADDR = ["<", "<<<a@b>", "a@", "@b", "a", "\"", "\"unterminated", "(((", "a,b,;:,", "undisclosed-recipients:;",
        "x:a@b.c,d@e;", "<@route:a@b.c>", "a@b@c", "\"a\\", "<>", "a@[1.2.3.4]", "a@[", "@", "a@..", "a b c@d e",
        "(a@b.c", "(x)<y@z>(", ",,,,", "a@" + "x" * 300, "=?utf-8?b?AAAAA?= <a@b.c>", ";", ":", "<a@b.c", "root"]
RECEIVED = ["from a (b [1.2.3.4]) by c with ESMTP id 1; Mon, 99 Foo 20000 99:99:99 +9999",
            "from [fe80::1%eth0] by x; x", "from x ([999.1.1.1]) by y", "from x (y [1.2.3.04]) by z with SMTP id 1",
            "from unknown (HELO x) (1.2.3.999) by y with SMTP; 1 Jan 2000 00:00:00", "from a ([IPv6:::ffff:1.2.3.4]) by b",
            "by x with SMTP; x", "(qmail 1 invoked by uid 0)", "from localhost", "from 1.2.3.4:25 by x",
            "from a.b (c.d [::g]) by e.f", "from x by y with local", "from x by y", "from", "from ", "x", "",
            "from a ([IPv6:2001:db8::1]) by b with ESMTP id 2; Mon, 1 Jan 2001 00:00:00 +0000", "from a ([::]) by b",
            "from [1.2.3.4] (helo=[1.2.3.04]) by y with smtp (Exim 4.20) id 12-34-AB; x", "from x (y [1.2.3]) by z",
            "from x (HELO y) (z@1.2.3.04) by w with SMTP; x", "from a ([0000.1.1.1]) by b", "from a ([01.2.3.4] b) by c",
            "from a ([IPv6:1:2:3:4:5:6:7:8:9]) by b", "from a ([IPv6:1.2.3.4]) by b", "from a ([::ffff:1.2.3.04]) by c",
            "from a ([1.2.3.4], [1.2.3.04]) by c with ESMTP id 1; x", "; ; ;", "from x (y@z [1.2.3.4] (may be forged)) by",
            "from =?utf-8?b?AAAAA?= by x", "from a{b} ({0} [{ip}]) by {x} with %s id %(y)s; z"]
DATES = ["Mon, 32 Jan 2000 00:00:00 +9999", "Mon, 1 Jan 0000 00:00:00 +0000", "Mon, 1 Jan 99999999999 00:00:00 +0000",
         "1 Jan 2000 25:61:61 GMT", "Mon, 1 Jan 2000 00:00:00 +99999999", "Mon, 1 Jan 2000", "Thu, 01 Jan 1970 00:00:00 -9959",
         "0", "-1", "Mon, 1 Jan -5 00:00:00", "Mon, 00 Foo 2000 00:00", "Mon,", "1 Jan 10000 00:00:00 +0000", "x x x x x x"]
TEMPLATE = ["%s %d %(x)s {0} {x}", "_SCORE_ _REPORT_ _HEADER(From)_ _TESTSSCORES(,)_", "\\1 \\g<x> $1", "{ip} {", "%",
            "_HEADER(Subject)_", "__TESTS__", "(?P<x>", "[[["]
TYPES = ["multipart/mixed", "multipart/mixed; boundary=\"\"", "multipart/mixed; boundary*=utf-8''%FF",
         "text/plain; charset=\"\0\"", "text/plain; charset=undefined", "text/html; charset=idna",
         "text/plain; charset*=x''y", "text/plain; charset*0=a; charset*1=b", "text", "/", "message/rfc822",
         "message/delivery-status", "message/partial", "message/external-body", "text/html; charset=utf-16",
         "text/plain; charset=utf-32", "text/plain; charset=hex", "text/html; charset=zlib", "image/gif; name==?x?q?=FF?=",
         "application/pdf; name=\"=?undefined?q?x?=\"", "text/plain; name*=undefined''x", "text/plain; format=flowed; =x",
         "text/plain; charset=unicode_escape", "text/html; charset=punycode", "text/plain; charset=utf_16_le", "text/html",
         "image/gif; name=x.gif", "image/png; name=x.png", "image/jpeg; name=x.jpg", "application/pdf; name=x.pdf",
         "text/rtf; charset==?utf-8?b?AAAAA?=", "TEXT/HTML; CHARSET=UNDEFINED", "text/plain; charset=utf-8; charset=hex",
         "text/plain;;;", ";", "text/plain; charset=" + "u" * 300, "text/plain; charset='utf-8", "text/plain; charset=utf-7",
         "text/html; charset=iso2022_jp", "text/plain; charset=raw_unicode_escape", "audio/", "*/*", "text/plain; charset=mbcs"]
CTE = ["base64", "quoted-printable", "x-uuencode", "uuencode", "7bit", "BINARY", "base64\0", "", "x-uue", "base64;", "utf-8",
       "=?utf-8?b?AAAAA?="]
CD = ["attachment; filename*0*=undefined''%ff; filename*1=x", "attachment; filename=", "inline; filename==?idna?q?a..b?=",
      "attachment; filename=\"=?utf-8?b?AAAAA?=\"", "attachment; filename*=utf-8''%ED%A0%80.gif", "attachment", "",
      "attachment; filename*1*=x; filename*3=y", "attachment; filename=x.pdf", "attachment; filename*=''x.gif"]
BODIES = [b"words\r\n", b"<a href='http://[::1'>x</a><![foo\r\n", b"<a href='http://a:99999999/'>", b"<a href=//>",
          b"<img src=cid:x width=abc height=-1>", b"<![CDATA[x", b"<!DOCTYPE [<!ENTITY a 'b'>", b"&#99999999999;&#xD800;&#x110000;",
          b"<!--", b"<a href='http://x@[1.2.3]:b/'>", b"<![if x", b"<!x[y", b"</", b"<a <b <c", b"<![", b"<!DOCTYPE x [<!FOO",
          b"<!ELEMENT", b"<?x", b"<a href=http://%zz/%>t</a>", b"<area href='x'><form action='http://['>", b"<a href>x</a>",
          b"<font size=abc color=#zz>x</font><table><tr><td><style>a{b:c</style>", b"<style><!--", b"<script>", b"<title>",
          b"begin 644 x\r\n!!!\r\nend\r\n", b"begin", b"begin 644 x\r\n\x00\xff\r\n", b"QUFB", b"Q", b"====", b"=\r\n=ZZ=", b"\x00\x01",
          b"+2AA-+AAA-", b"http://%zz/ http://[fe80::1%25]/ http://a..b http://1.2.3.4.5 http://0x7f.1/",
          b"http://user:pw@x.com:x/ mailto:a@ mailto:@b http://[::1 https://] //x http:// http://\xe9.com/", b"\xed\xa0\x80", b"\xff" * 40,
          b"y" * 3000, b"GIF89a", b"GIF89a\x00", b"\x89PNG\r\n\x1a\n\x00\x00", b"\xff\xd8\xff", b"\xff\xd8\xff\xc0\x00", b"%PDF-1.4 /Title (\\",
          b"%PDF-1.4\r\n/MediaBox [ x y z ]\r\n/CreationDate (D:x", b"%PDF-", b"Subject: x\r\n\r\nSubject: y", b"", b"\r\n", b"R0lGODlh",
          b"iVBORw0KGgo=", b"/9j/", b"JVBERi0=", b"a\x85b\xe2\x80\xa8c\x0bd", b"\xef\xbb\xbf", b"\xff\xfea", b"=?utf-8?b?AAAAA?=",
          b"x@ @y a@b.c@d.e \"q q\"@z ", b"(((((((((((((((((((((((((((((((((", b"\\" * 50, b"\x1b$B\x1b", b"%s{0}_SCORE_"]
SEPS = ["a\x0bb", "a\x0cb", "a\x1cb", "a\x1db", "a\x1eb", "a\x85b", "a\u2028b", "a\u2029b"]
NAMES = ["From", "To", "Cc", "Reply-To", "Subject", "Received", "Received", "Received", "Date", "Message-ID", "Content-Type",
         "Content-Transfer-Encoding", "Content-Disposition", "MIME-Version", "Return-Path", "X-Envelope-From", "Envelope-To",
         "Envelope-Sender", "EnvelopeFrom", "Resent-From", "Resent-To", "X-Originating-IP", "X-Orig-IP", "X-Yahoo-Post-IP", "List-Id",
         "Sender", "X-Spam-Status", "X-Spam-Flag", "Received-SPF", "DKIM-Signature", "Authentication-Results", "X-Anchor", "",
         "X-Mailer", "In-Reply-To", "References", "Content-Language", "Status", "Precedence", "X-Message-Info", "X-Env",
         "X-" + "n" * 200, "x.y", "%s", "{0}", "_SCORE_", "__class__"]
LINES = [b"no colon at all", b"From someone", b"X Y: z", b"X\x00: y", b"\xc3\xa9: x", b">From x", b"-- ", b"X-Tab\t: y", b"\x0b"]


def setup():
    H.preload()


def value(sim, name):
    low = name.lower()
    pool = [("enc", 25), ("addr", 8), ("rcv", 6), ("date", 5), ("tmpl", 8), ("type", 5), ("sep", 6), ("raw", 12), ("long", 2)]
    if low in ("received", "x-originating-ip", "x-orig-ip", "x-yahoo-post-ip"):
        pool += [("rcv", 80)]
    elif low in ("from", "to", "cc", "reply-to", "sender", "return-path") or "envelope" in low or "resent" in low:
        pool += [("addr", 80)]
    elif low == "date":
        pool += [("date", 80)]
    elif low == "content-type":
        pool += [("type", 80)]
    elif low == "content-transfer-encoding":
        pool += [("cte", 80)]
    elif low == "content-disposition":
        pool += [("cd", 80)]
    kind = sim.wpick("value", pool)
    if kind == "enc":
        sim.probe("undecodable header")
        v = sim.pick("v", ENCODED)
        if sim.chance("enc2", 30):
            v += sim.pick("sep", [" ", "", "\r\n "]) + sim.pick("v", ENCODED)
        if sim.chance("encaddr", 20):
            v += " <x@y.example>"
    elif kind == "addr":
        sim.probe("hostile address")
        v = sim.pick("v", ADDR)
    elif kind == "rcv":
        sim.probe("hostile Received")
        v = sim.pick("v", RECEIVED)
    elif kind == "date":
        sim.probe("bad date")
        v = sim.pick("v", DATES)
    elif kind == "type":
        v = sim.pick("v", TYPES)
    elif kind == "cte":
        v = sim.pick("v", CTE)
    elif kind == "cd":
        v = sim.pick("v", CD)
    elif kind == "sep":
        sim.probe("separator character in a header")
        v = sim.pick("v", SEPS)
    elif kind == "raw":
        v = sim.pick("v", [b"\xff\xfe", b"\xed\xa0\x80", b"\0", b"\xe9" * 5, b"\xf0\x9f\x98\x80", b"\x80<\x81@\x82>", b"a\0b@c.d",
                           b"[\xff.1.2.3]", b"\xc2", b"\x1b\x07", b"\t", b""])
        sim.probe("lone surrogate bytes" if b"\xed\xa0" in v else "NUL" if b"\0" in v else "raw bytes")
        return v
    elif kind == "long":
        v = sim.pick("v", ["a", "<", "(", "\"", "=?", ",", "[", "a@b,"]) * sim.pick("n", [100, 1000])
    else:
        v = sim.pick("v", TEMPLATE)
    if sim.chance("mixed", 12):
        v += " " + sim.pick("v", ADDR + RECEIVED + TEMPLATE)
    return v.encode("utf8", "surrogatepass")


def part_head(sim):
    ct = sim.pick("ct", TYPES).encode("utf8")
    sim.probe("hostile charset" if b"harset" in ct.lower() else "hostile type")
    out = b"Content-Type: " + ct + b"\r\n"
    if sim.chance("cte", 50):
        out += b"Content-Transfer-Encoding: " + sim.pick("cte", CTE).encode("utf8") + b"\r\n"
    if sim.chance("cd", 40):
        out += b"Content-Disposition: " + sim.pick("cd", CD).encode("utf8") + b"\r\n"
    if sim.chance("ph", 15):
        name = sim.pick("phname", ["Content-ID", "Subject", "X-Anchor", "Received", "From"])
        out += name.encode() + b": " + value(sim, name) + b"\r\n"
    return out


def part_body(sim):
    out = b"".join(sim.pick("pbody", BODIES) for dummy in range(sim.int("nbody", 1, 3)))
    if b"<" in out:
        sim.probe("hostile HTML")
    if sim.chance("b64", 12):
        out = gen.b64(out).encode()
    return out


def base(sim):
    """-> list of [segment id, head bytes, value bytes, end bytes]; only the value is ever garbled."""
    t = sim.time()
    hops = [h for h in gen.HOPS if h[2] in gen.LISTED]
    out = []

    def head(name, val, seg=None):
        out.append([seg or "h:" + name, name.encode() + b": ", val.encode("utf8"), b"\r\n"])
    hop = sim.pick("hop", hops)
    head("Received", "from %s (%s [%s]) by anchor-hop.local.example (Postfix) with ESMTP id 4F1; %s" % (
        hop[0], hop[1], hop[2], gen.date(t - 60)))
    names = ["From", "To", "Subject", "X-Anchor", "List-Id", "Date", "Message-ID", "Cc", "Reply-To", "Return-Path", "X-Mailer"]
    vals = {"From": "Anchor Sender <anchor@gmail.com>", "To": "anchor-rcpt <user@local.example>",
            "Subject": "the anchor-subject line", "X-Anchor": "a fine value", "List-Id": "<anchor-list.example>",
            "Date": gen.date(t), "Message-ID": "<a.b@gmail.com>", "Cc": "carol@example.com", "Reply-To": "other@hotmail.com",
            "Return-Path": "<anchor@gmail.com>", "X-Mailer": "bulk 1"}
    keep = names[:5] + [n for n in names[5:] if sim.chance("keep", 65)]
    for n in sim.shuffled("order", keep):
        head(n, vals[n])
    sub = sim.pick("sub", ["mixed", "mixed", "alternative", "related"])
    if sub == "alternative":
        sim.probe("alternative")
    head("MIME-Version", "1.0", "mime")
    head("Content-Type", "multipart/%s; boundary=\"anchorb\"" % sub, "mime")
    out.append(["mime", b"\r\n", b"", b""])
    parts = sim.shuffled("parts", ["text", "html", "note", "gif"])
    for p in parts:
        out.append(["mime", b"--anchorb\r\n", b"", b""])
        if p == "text":
            out.append(["ph:text", b"Content-Type: ", b"text/plain; charset=utf-8", b"\r\n"])
            out.append(["ph:text", b"\r\n", b"", b""])
            out.append(["p:text", b"", ("first words http://anchor.example/path%d and an anchor needle here" % sim.int("u", 1, 9)).encode(),
                        b"\r\n"])
        elif p == "html":
            out.append(["ph:html", b"Content-Type: ", b"text/html; charset=utf-8", b"\r\n"])
            out.append(["ph:html", b"\r\n", b"", b""])
            out.append(["p:html", b"", b"<html><body><p>an anchor markup line</p></body></html>", b"\r\n"])
        elif p == "note":
            out.append(["ph:note", b"Content-Type: ", b"text/plain; name=\"anchor-note.txt\"", b"\r\n"])
            out.append(["ph:note", b"\r\n", b"", b""])
            out.append(["p:note", b"", b"nothing to see", b"\r\n"])
        else:
            out.append(["ph:gif", b"Content-Type: ", b"image/gif; name=\"anchor.gif\"", b"\r\n"])
            out.append(["ph:gif", b"Content-Transfer-Encoding: base64\r\nContent-Disposition: ",
                        b"attachment; filename=\"anchor.gif\"", b"\r\n"])
            out.append(["ph:gif", b"\r\n", b"", b""])
            out.append(["p:gif", b"", gen.b64(gen.gif(20, 30)).strip().encode(), b"\r\n"])
    out.append(["end", b"--anchorb--\r\n", b"", b""])
    return out


def join(segs):
    return b"".join(s[1] + s[2] + s[3] for s in segs)


def headers_end(segs):
    """Index of the segment holding the blank line after the headers."""
    return next(i for i, s in enumerate(segs) if s[0] == "mime" and s[1] == b"\r\n")


def damage(sim, segs):
    """Damage a copy; -> (segments, touched segment ids, names of extra headers, description)"""
    segs = [list(s) for s in segs]
    touched, extra, desc = set(), set(), []
    n = sim.wpick("ndamage", [(1, 45), (2, 30), (3, 15), (4, 10)])
    if n > 1:
        sim.probe("several damages")
    for dummy in range(n):
        kind = sim.wpick("damage", KINDS)
        sim.probe("damage " + kind)
        sim.fault("damage " + kind)
        if kind == "extra":
            name = sim.pick("name", NAMES)
            v = value(sim, name)
            low = name.lower()
            at = headers_end(segs)
            if low != "received" and sim.chance("top", 40):
                at = 0
            segs.insert(at, ["x:" + low, name.encode() + b": ", v, b"\r\n"])
            extra.add(low)
            desc.append("extra %s: %r" % (name, v[:80]))
        elif kind in ("replace", "noise"):
            can = [i for i, s in enumerate(segs) if s[2] and (kind == "noise" or s[0].startswith("h:"))]
            i = sim.pick("seg", can)
            s = segs[i]
            touched.add(s[0])
            if kind == "replace":
                s[2] = value(sim, s[0][2:])
            else:
                data = bytearray(s[2])
                for k in range(sim.pick("nnoise", [1, 2, 5, 30])):
                    b = sim.choose("byte", 256)
                    if b in (10, 13):
                        b = 0
                    pos = sim.choose("pos", len(data) + 1)
                    how = sim.choose("how", 3)
                    if how == 0 and pos < len(data):
                        data[pos] = b
                    elif how == 1 and pos < len(data):
                        del data[pos]
                    else:
                        data.insert(pos, b)
                s[2] = bytes(data)
            desc.append("%s %s -> %r" % (kind, s[0], bytes(s[2])[:80]))
        elif kind == "part":
            if segs[-1][0] != "end":
                continue
            head, body = part_head(sim), part_body(sim)
            if sim.chance("nested", 15):
                for k in range(sim.pick("depth", [1, 3, 60])):
                    body = b"--n%d\r\n" % k + head + b"\r\n" + body + b"\r\n"
                    head = b"Content-Type: multipart/mixed; boundary=n%d\r\n" % k
            segs.insert(len(segs) - 1, ["x:part", b"--anchorb\r\n" + head + b"\r\n", body, b"\r\n"])
            desc.append("part %r %r" % (head[:100], body[:100]))
        elif kind == "drop":
            can = [i for i, s in enumerate(segs) if s[0].startswith("h:") or s[0].startswith("p:")]
            i = sim.pick("seg", can)
            touched.add(segs[i][0])
            desc.append("drop %s" % segs[i][0])
            if segs[i][0].startswith("h:"):
                del segs[i]
            else:
                segs[i][2] = b""
        elif kind == "line":
            at = sim.int("at", 0, headers_end(segs))
            line = sim.pick("line", LINES)
            for s in segs:
                if s[0] != "p:text":
                    touched.add(s[0])
            extra.add("content-type")
            segs.insert(at, ["x:line", b"", line, b"\r\n"])
            desc.append("line %r" % line)
        else:
            data = join(segs)
            size = sim.int("cut", 1, max(1, len(data) - 1))
            got, at, done = [], 0, False
            for s in segs:
                n = len(s[1]) + len(s[2]) + len(s[3])
                if done or at + n > size:
                    if not done:
                        raw = (s[1] + s[2] + s[3])[:size - at]
                        got.append(["x:cut", raw, b"", b""])
                        done = True
                    touched.add(s[0])
                else:
                    got.append(s)
                at += n
            # what is left of a multipart message needs the delimiter after a part
            last = [s[0] for s in got if s[0].startswith("p")]
            if last:
                touched.update({last[-1], "p" + last[-1][last[-1].index(":"):]})
            if len(got) <= headers_end(segs):
                touched.add("mime")
            segs = got
            desc.append("cut at %d" % size)
            break
    # "mime" is the frame of the parts: only its header lines and the parts before a cut matter
    if any(d.startswith("cut") for d in desc) and any(s[0] == "mime" and s[1] == b"\r\n" for s in segs):
        frame = {"mime"} if any(d.startswith(("replace mime", "noise mime", "line")) for d in desc) else set()
        touched = (touched - {"mime"}) | frame
    return segs, touched, extra, "; ".join(desc)


def usable(rule, touched, extra):
    reads, names = ANCHORS[rule]
    return not (reads & touched) and not any(n in extra for n in names)


def life(sim, setup_, args, reqs):
    w = H.new_world(sim)
    setup_(w)
    d = H.Daemon(w, args).start()
    out = []
    for cmd, raw in reqs:
        out.append(d.ask(raw))
        if not d.alive:
            raise Violation("died", "the daemon died at %r: %s" % (raw[:300], d.error))
        sim.advance(1.0)
    H.finish(sim)
    return out


def request(sim, cmd, msg):
    headers = ["Message-class: spam", "Set: local"] if cmd == "TELL" else []
    return H.make_request(cmd, msg, headers=headers)


def run(sim):
    pool = [f.name for f in gen.FRAGS if f.name not in ("plain", "short", "rbl", "freemail", "image", "lists", "dkim", "spf")]
    pool += ["lists", "dkim", "spf"]
    names = ["plain", "rbl", "freemail", "image"] + sim.shuffled("frags", pool)[:sim.int("nfrags", 0, 7)]
    glob = ["trusted_networks 10.0.0.0/8", "report_safe 0", "report_safe 2", "envelope_sender_header X-Env",
            "always_trust_envelope_sender 1", "report_contact root@local.example"]
    if sim.chance("orig", 50):
        glob.append("originating_ip_headers X-Orig-IP X-Originating-IP")
    files, names = gen.config(sim, names=names, glob=glob)
    files["60_anchor.cf"] = RULES
    args = []
    if sim.chance("eager", 40):
        args = EAGER
        sim.probe("eager")
    segs = base(sim)
    jobs = [("intact", segs, set(), set(), "intact")]
    for dummy in range(sim.int("nmsg", 2, 5)):
        jobs.append(("damaged",) + damage(sim, segs))
    jobs = [jobs[0]] + sim.shuffled("jobs", jobs[1:]) + [jobs[0]]
    reqs = []
    for job in jobs:
        msg = join(job[1])
        cmds = ["SYMBOLS"]
        if job[0] == "damaged":
            cmds.append(sim.wpick("other", OTHER))
        for cmd in cmds:
            reqs.append((cmd, request(sim, cmd, msg)))

    def setup_(w):
        gen.internet(w)
        H.put_config(w, files)
    got = iso(sim, life, setup_, args, reqs)
    want = None
    compared = 0
    k = 0
    for job in jobs:
        kind, parts, touched, extra, desc = job
        for cmd in ["SYMBOLS"] + (["other"] if kind == "damaged" else []):
            cmd, raw = reqs[k]
            resp = H.Response(got[k], cmd)
            k += 1
            if resp.problem or resp.code != 0:
                raise Violation("no verdict", "%s of a message with damage [%s] is answered %r (%s); the message: %r" % (
                    cmd, desc, (got[k - 1] or b"")[:200], resp.problem or "code %s" % resp.code, join(parts)[:1500]))
            if cmd != "SYMBOLS":
                continue
            hit = set(resp.symbols)
            if want is None:
                want = hit & set(ANCHORS)
                if want != set(ANCHORS):
                    raise Violation("anchors", "%s do not match the intact message %r" % (
                        sorted(set(ANCHORS) - want), join(parts)[:1500]))
                continue
            for rule in sorted(want):
                if not usable(rule, touched, extra):
                    continue
                compared += 1
                sim.probe("anchor " + rule)
                if rule not in hit:
                    raise Violation("lost", "%s does not match a message with damage [%s] that it does not read; "
                                    "matched: %s; the message: %r" % (rule, desc, sorted(hit), join(parts)[:1500]))
    return {"nontrivial": compared > len(ANCHORS),
            "sample": {"plugins": names, "damage": [j[4][:300] for j in jobs], "compared": compared}}
