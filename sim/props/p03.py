"""P03: a reloaded daemon behaves like one freshly started on the same files.

One daemon lives through several configuration versions (edits of every kind, broken versions,
requests in between); after the last reload its answers are compared, byte by byte, with those
of a daemon started on the final files."""
import re

from .. import gen, kit
from .. import harness as H
from ..core import Violation, iso

QUICK_RUNS = 420
THOROUGH_RUNS = 8000
RULE = ("one run = a first configuration, 1-4 edits (regenerated or mutated files, other plugins, user "
        "preferences, plugin code, broken versions) each followed by a reload and traffic, then 2-5 requests "
        "compared with a fresh daemon; non-trivial when the last reload changed at least one file that the "
        "daemon reads and at least one compared answer is a verdict with a matched rule")
REAL = ["oad.py main, signal handling and reload thread", "configuration parser, contexts, plugin loader",
        "all message plugins except AWL, Bayes, Razor2, Pyzor, SpamCop"]
STUB = ["sockets and select (simulated network)", "DNS servers (simulated zone data)", "clock",
        "file system root (redirected to a scratch directory)", "GeoIP database reader", "signal delivery"]
ASSUMPTIONS = ["MIME boundaries drawn at random by the email package are masked before comparing",
               "Python modules named by loadplugin without a path are code of the installation, not configuration"]
PROBES = ["edit regenerate", "edit delete file", "edit rename file", "edit user prefs", "edit remove user prefs",
          "edit broken rule", "edit binary junk", "edit plugin code", "edit append", "edit drop lines",
          "edit options", "edit same size", "file times kept", "edit touch nothing", "reload without traffic", "custom plugin",
          "user asked before and after", "version that cannot be loaded"]
USERS = ["ann", "bea"]

PLUGIN = '''
from oa.plugins.base import BasePlugin

class LocalPlugin(BasePlugin):
    eval_rules = (%(rules)s)
    options = {"local_word": ("append", %(default)r), "local_limit": ("int", %(limit)d)}
%(methods)s
'''


def plugin_code(sim):
    sim.probe("custom plugin")
    names = sim.subset("methods", ["check_local_a", "check_local_b"], 70) or ["check_local_a"]
    methods = ""
    for n in names:
        kind = sim.choose("pkind", 3)
        body = ["return any(w in msg.text for w in self['local_word'])",
                "return len(msg.text) > self['local_limit']",
                "return 'trains' in msg.text"][kind]
        methods += "\n    def %s(self, msg, target=None):\n        %s\n" % (n, body)
    return PLUGIN % {"rules": "".join("%r, " % n for n in names), "methods": methods,
                     "default": sim.pick("default", [[], ["hello"], ["money", "viagra"]]),
                     "limit": sim.pick("limit", [10, 60, 200])}


CUSTOM = ["loadplugin LocalPlugin /simfs/site/plugins/localplug.py"]
CUSTOM_LINES = ["body L_A eval:check_local_a()", "body L_B eval:check_local_b()", "score L_A 1.25",
                "score L_B 2.5", "local_word trains", "local_word pills", "local_limit 30"]
OPTIONS = ["required_score 2", "required_score 9", "report_safe 0", "report_safe 2", "trusted_networks 203.0.113.0/24",
           "internal_networks 10.0.0.0/8", "dns_server 192.0.2.54", "dns_query_restriction deny bl.example",
           "originating_ip_headers X-Orig-IP", "use_network 0", "skip_rbl_checks 1", "add_header all Opt _SCORE_",
           "report extra _SCORE_", "clear_report_template", "clear_headers", "allow_user_rules 0", "allow_user_rules 1",
           "default_dns_timeout 1", "dns_available no", "ok_locales en", "msa_networks 10.9.0.0/16",
           "envelope_sender_header X-Env", "clear_trusted_networks", "blacklist_from *@gmail.com",
           "whitelist_subject hello", "freemail_whitelist eve9@freemail.example", "local_word hello",
           "autolearn 1", "use_bayes 0", "remove_header all Level", "dns_options rotate", "add_header all New _TESTS_"]
BROKEN = ["body BROKEN /unclosed(/", "header", "score", "meta BAD (", "loadplugin no.such.Plugin", "ifplugin Foo",
          "trusted_networks 999.1.1.1", "include /simfs/site/10_a.cf", "required_score abc", "body X eval:nope()",
          "loadplugin LocalPlugin /simfs/site/plugins/missing.py", "report_safe yes", "add_header nobody X y"]


def version(sim):
    files, names = gen.config(sim, nmax=5)
    if sim.chance("custom", 30):
        files["init.pre"] += "\n".join(CUSTOM) + "\n"
        files["plugins/localplug.py"] = plugin_code(sim)
        files["60_local.cf"] = "\n".join(sim.subset("clines", CUSTOM_LINES, 70)) + "\n"
    if sim.chance("allow", 70):
        files["00_users.cf"] = "allow_user_rules 1\n"
    return files, names


EDITS = [("regenerate", 26), ("delete file", 8), ("rename file", 6), ("user prefs", 16), ("remove user prefs", 6),
         ("broken rule", 8), ("binary junk", 3), ("plugin code", 10), ("append", 10), ("drop lines", 12),
         ("options", 14), ("same size", 12), ("touch nothing", 3)]


def edit(sim, files, names, prefs):
    """-> (new files, new names, changed)"""
    kind = sim.wpick("edit", EDITS)
    sim.probe("edit " + kind)
    old = dict(files)
    files = dict(files)
    cf = [n for n in sorted(files) if n.endswith(".cf")]
    if kind == "regenerate":
        files, names = version(sim)
    elif kind == "delete file" and cf:
        del files[sim.pick("file", cf)]
    elif kind == "rename file" and cf:
        n = sim.pick("file", cf)
        files["9" + n] = files.pop(n)
    elif kind == "user prefs":
        prefs[sim.pick("user", USERS)] = gen.user_lines(sim, names)
    elif kind == "remove user prefs":
        prefs[sim.pick("user", USERS)] = None
    elif kind == "broken rule":
        files["70_broken.cf"] = "\n".join(sim.subset("broken", BROKEN, 25)) + "\n"
    elif kind == "binary junk":
        files["71_junk.cf"] = "\udcff\udcfe body X\n score \udc80\n".encode("utf8", "surrogateescape")
    elif kind == "plugin code":
        if "plugins/localplug.py" not in files:
            files["init.pre"] = files.get("init.pre", "") + "\n".join(CUSTOM) + "\n"
            files["60_local.cf"] = "\n".join(CUSTOM_LINES) + "\n"
        files["plugins/localplug.py"] = plugin_code(sim)
    elif kind == "append" and cf:
        f = gen.FRAG[sim.pick("frag", [x.name for x in gen.FRAGS])]
        n = sim.pick("file", cf)
        lines = (["loadplugin " + f.plugin] if f.plugin else []) + list(f.options) + \
            sim.subset("rules", f.rules, 50) + sim.subset("vars", f.variants, 40)
        files[n] = text(files[n]) + "\n".join(lines) + "\n"
    elif kind == "drop lines" and cf:
        n = sim.pick("file", cf)
        files[n] = "\n".join(l for l in text(files[n]).split("\n") if not sim.chance("drop", 25)) + "\n"
    elif kind == "same size" and cf:
        n = sim.pick("file", cf)
        files[n] = re.sub(r"(?m)^(score \S+ -?)([1-8])", lambda m: m.group(1) + str(int(m.group(2)) + 1), text(files[n]))
    elif kind == "options":
        files["80_opts.cf"] = "\n".join(sim.subset("opts", OPTIONS, 20)) + "\n"
    return files, names, files != old


def text(x):
    return x.decode("utf8", "replace") if isinstance(x, bytes) else x


def life(sim, versions, traffic, final, args, stamps):
    w = H.new_world(sim)
    gen.internet(w)
    prev = {}
    out = None
    d = None
    for k, (files, prefs) in enumerate(versions):
        for n in prev:
            if n not in files:
                w.unlink(H.SITE + "/" + n)
        H.put_config(w, files, stamps[k], prev)
        for u in USERS:
            H.put_user(w, u, prefs[u])
        prev = files
        sim.event("version", k)
        if d is None:
            d = H.Daemon(w, args).start()
        else:
            d.reload()
            if not d.alive:
                raise Violation("died", "the daemon died on reload %d: %s" % (k, d.error))
        if k < len(versions) - 1:
            if not traffic[k]:
                sim.probe("reload without traffic")
            for cmd, data in traffic[k]:
                w.seed_random(5)
                d.ask(data)
            sim.advance(1)
    out = []
    for cmd, data in final:
        w.seed_random(7)
        out.append((sim.now, d.ask(data)))
    H.finish(sim)
    return out


def run(sim):
    files, names = version(sim)
    prefs = {u: gen.user_lines(sim, names) if sim.chance("prefs", 80) else None for u in USERS}
    args = ["-dl"] if sim.chance("dl", 10) else []
    versions = [(files, dict(prefs))]
    traffic = []
    stamps = [False]
    changed = False
    for dummy in range(sim.int("edits", 1, 4)):
        traffic.append(kit.make_requests(sim, USERS, sim.int("n", 0, 3)))
        files, names, changed = edit(sim, files, names, prefs)
        versions.append((files, dict(prefs)))
        stamps.append(sim.chance("keep times", 25))
        if stamps[-1]:
            sim.probe("file times kept")
    final = kit.make_requests(sim, USERS, sim.int("final", 2, 4), hasuser=50)
    if any(b"\r\nUser: " in data for t in traffic for c, data in t) and \
            any(b"\r\nUser: " in data for c, data in final):
        sim.probe("user asked before and after")
    unsure = False      # preferences edited together with a version that was never loaded
    got = iso(sim, life, versions, traffic, final, args, stamps)
    lastprefs = versions[-1][1]
    import os
    if os.environ.get("SIM_DEBUG"):
        for f, p in versions:
            print("=" * 30)
            for n in f: print("--", n); print(f[n])
            print(p)
    for j in range(len(versions) - 1, -1, -1):
        # a version that cannot be loaded leaves the one before in force
        last, prefs_j = versions[j]

        def setup_(w):
            gen.internet(w)
            H.put_config(w, last)
            for u in USERS:
                H.put_user(w, u, lastprefs[u])
        try:
            fresh = iso(sim, H.oneshot, setup_, [data for c, data in final], args, got[0][0])
            break
        except Violation as v:
            if v.kind != "start" or j == 0:
                raise
            sim.probe("version that cannot be loaded")
            if prefs_j != versions[j - 1][1]:
                unsure = True
    seen = set()
    for i, ((cmd, data), (t, raw), ref) in enumerate(zip(final, got, fresh)):
        kit.note(sim, raw, cmd, seen)
        if unsure and b"\r\nUser: " in data:
            continue
        kit.compare("stale", "request %d (%s) after %d reloads" % (i + 1, cmd, len(versions) - 1), raw, ref,
                    "by a fresh daemon")
    return {"nontrivial": changed and any(len(x[1] or ()) for x in seen if x[1] is not None),
            "sample": {"edits": len(versions) - 1, "plugins": names, "final files": sorted(last), "requests": [c for c, x in final]}}


def setup():
    H.preload()
