From 3e2abc52e175be1613454f81cbf623b2709ce9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 01/58] fix: a failing plugin hook must not keep the other
 plugins or the response back

---
 oa/context.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index 1f53d5f..f0e4560 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -124,6 +124,22 @@ def _callback_chain(func):
     return wrapped_func
 
 
+def _call_plugins(ctxt, hook, *args):
+    """Call this hook of every plugin while handling a message.
+
+    A plugin that fails is logged and must not prevent the others from
+    being called, nor the message from being handled.
+    """
+    for name, plugin in list(ctxt.plugins.items()):
+        try:
+            getattr(plugin, hook)(*args)
+        except oa.errors.InhibitCallbacks:
+            raise
+        except Exception as e:
+            ctxt.log.critical("Plugin %s failed in %s: %s", name, hook, e,
+                              exc_info=True)
+
+
 class GlobalContext(_Context):
     """Context available globally.
 
@@ -344,26 +360,22 @@ class GlobalContext(_Context):
     @_callback_chain
     def hook_check_end(self, ruleset, msg):
         """Hook after the message is checked."""
-        for plugin in self.plugins.values():
-            plugin.check_end(ruleset, msg)
+        _call_plugins(self, "check_end", ruleset, msg)
 
     @_callback_chain
     def hook_auto_learn(self, ruleset, msg):
         """Hook for calling auto learning plugins"""
-        for plugin in self.plugins.values():
-            plugin.auto_learn_discriminator(ruleset, msg)
+        _call_plugins(self, "auto_learn_discriminator", ruleset, msg)
 
     @_callback_chain
     def hook_report(self, msg, spam=True, local=True, remote=True):
         """Hook when the message should be reported as spam."""
-        for plugin in self.plugins.values():
-            plugin.plugin_report(msg)
+        _call_plugins(self, "plugin_report", msg)
 
     @_callback_chain
     def hook_revoke(self, msg, spam=False, local=True, remote=True):
         """Hook when the message should be reported as ham."""
-        for plugin in self.plugins.values():
-            plugin.plugin_revoke(msg)
+        _call_plugins(self, "plugin_revoke", msg)
 
 
 class MessageContext(_Context):
@@ -376,17 +388,14 @@ class MessageContext(_Context):
     @_callback_chain
     def _hook_check_start(self):
         """Hook before the message is checked."""
-        for plugin in self.ctxt.plugins.values():
-            plugin.check_start(self)
+        _call_plugins(self.ctxt, "check_start", self)
 
     @_callback_chain
     def _hook_extract_metadata(self, payload, text, part):
         """Hook before the message is checked."""
-        for plugin in self.ctxt.plugins.values():
-            plugin.extract_metadata(self, payload, text, part)
+        _call_plugins(self.ctxt, "extract_metadata", self, payload, text, part)
 
     @_callback_chain
     def _hook_parsed_metadata(self):
         """Hook before the message is checked."""
-        for plugin in self.ctxt.plugins.values():
-            plugin.parsed_metadata(self)
+        _call_plugins(self.ctxt, "parsed_metadata", self)
-- 
2.43.0


From 27571abf7eaff3694da94177547c9af1733e0d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 02/58] fix: options of one configuration leak into later ones
 through the class defaults

---
 oa/context.py                   | 10 ++++++++++
 oa/plugins/whitelist_subject.py |  7 +++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index f0e4560..c09604b 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -167,6 +167,16 @@ class GlobalContext(_Context):
         self.conf = oa.conf.PADConf(self)
         self.username = getpass.getuser()
 
+    def set_plugin_data(self, plugin_name, key, value):
+        """Store data for the specified plugin under the given key.
+
+        Lists are copied: the default values of the options belong to the
+        plugin classes and must not be changed through any context.
+        """
+        if isinstance(value, list):
+            value = list(value)
+        super(GlobalContext, self).set_plugin_data(plugin_name, key, value)
+
     def err(self, *args, **kwargs):
         """Log a error according to the paranoid and
         ignore_unknown.
diff --git a/oa/plugins/whitelist_subject.py b/oa/plugins/whitelist_subject.py
index dc9c149..e26dcd8 100644
--- a/oa/plugins/whitelist_subject.py
+++ b/oa/plugins/whitelist_subject.py
@@ -36,18 +36,17 @@ class WhiteListSubjectPlugin(oa.plugins.base.BasePlugin):
     def set_append_option(self, key, value):
         """Append the key to the whitelist_subject option
         """
-        self.options[key][1].append(value)
-        self[key] = self.options[key][1]
+        self[key].append(value)
 
     def check_subject_in_whitelist(self, msg, target=None):
         """Check the subject in the blacklist subjects list
         """
-        return self._check_subject(msg, self.options["whitelist_subject"][1])
+        return self._check_subject(msg, self["whitelist_subject"])
 
     def check_subject_in_blacklist(self, msg, target=None):
         """Check the subject in the blacklist subjects list
         """
-        return self._check_subject(msg, self.options["blacklist_subject"][1])
+        return self._check_subject(msg, self["blacklist_subject"])
 
     def _check_subject(self, msg, option_list):
         """ Does the work for checking the subject in the whitelist/blacklist
-- 
2.43.0


From b5eb3a29e10204a75a3ad4b933c84c2ab1dbb505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:36 +0000
Subject: [PATCH 03/58] fix: SPF results of one message count for the next ones

---
 oa/plugins/spf.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/oa/plugins/spf.py b/oa/plugins/spf.py
index 391bfc1..fe97a99 100644
--- a/oa/plugins/spf.py
+++ b/oa/plugins/spf.py
@@ -73,6 +73,13 @@ class SpfPlugin(oa.plugins.base.BasePlugin):
         "check_def_spf_whitelist_from": 0
     }
 
+    def check_start(self, msg):
+        """Forget the results of the previous message."""
+        self.check_result = dict.fromkeys(self.check_result, 0)
+        self.spf_check = False
+        self.spf_check_helo = False
+        self.no_valid_identity = False
+
     def parsed_metadata(self, msg):
         if self.get_global("ignore_received_spf_header"):
             # The plugin will ignore the spf headers and will perform
-- 
2.43.0


From 8e57102881ab82309f6d216c2df340b4bf673acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:36 +0000
Subject: [PATCH 04/58] fix: DKIM results of one message count for the next
 ones

---
 oa/plugins/dkim.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index e6f8368..8b8bd80 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -57,6 +57,18 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         "U": "unknown"
     }
 
+    def check_start(self, msg):
+        """Forget the results of the previous message."""
+        self.author_addresses = []
+        self.author_domains = []
+        self.dkim_checked_signature = 0
+        self.dkim_signed = 0
+        self.dkim_valid = 0
+        self.dkim_has_valid_author_sig = 0
+        self.dkim_signatures_dependable = 0
+        self.is_valid = 1
+        self.match_adsp = 0
+
     def get_txt(self, name):
         """Return a TXT record associated with a DNS name.
 
-- 
2.43.0


From bcaf180dead330215799972c700a7ed3186cc27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:36 +0000
Subject: [PATCH 05/58] fix: forged relays of one message count for the next
 ones

---
 oa/plugins/relay_eval.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oa/plugins/relay_eval.py b/oa/plugins/relay_eval.py
index 606b62b..a05a111 100644
--- a/oa/plugins/relay_eval.py
+++ b/oa/plugins/relay_eval.py
@@ -28,6 +28,11 @@ class RelayEval(oa.plugins.base.BasePlugin):
     )
     options = {}
 
+    def check_start(self, msg):
+        """Forget the results of the previous message."""
+        self.set_global("mismatch_from", None)
+        self.set_global("mismatch_ip_helo", None)
+
     @staticmethod
     def hostname_to_domain(hostname):
         if not Regex(r"[a-zA-Z]").match(hostname):
-- 
2.43.0


From 8fad9e9a68cff49fabf91b903cc8a785ae4727b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:36 +0000
Subject: [PATCH 06/58] fix: the language of a text must not be guessed at
 random

---
 oa/plugins/textcat.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oa/plugins/textcat.py b/oa/plugins/textcat.py
index 81e4be4..3e0d23c 100644
--- a/oa/plugins/textcat.py
+++ b/oa/plugins/textcat.py
@@ -21,6 +21,10 @@ except ImportError:
 
 import oa.plugins.base
 
+# The detector samples the text at random; the same text must always
+# get the same answer.
+langdetect.DetectorFactory.seed = 0
+
 
 class TextCatPlugin(oa.plugins.base.BasePlugin):
     """This plugin will detect the language of the
-- 
2.43.0


From 94616b12aeec92aedf3b751e8455c9abbfe5f0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:18 +0000
Subject: [PATCH 07/58] fix: networks of one configuration leak into later
 ones, and an invalid network breaks every message

---
 oa/networks.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/oa/networks.py b/oa/networks.py
index 3e3f121..d28b503 100644
--- a/oa/networks.py
+++ b/oa/networks.py
@@ -72,11 +72,10 @@ class MSANetworks(NetworkListBase):
 
 
 class NetworkList(object):
-    internal = InternalNetworks()
-    trusted = TrustedNetworks()
-    msa = MSANetworks()
-
     def __init__(self):
+        self.internal = InternalNetworks()
+        self.trusted = TrustedNetworks()
+        self.msa = MSANetworks()
         self.log = logging.getLogger("oa-logger")
 
     @property
@@ -84,16 +83,23 @@ class NetworkList(object):
         return self.internal.configured or self.trusted.configured
 
     def _extract_network(self, network_str):
-        excluded, network, mask = _NETWORK_RE.match(network_str).groups()
+        match = _NETWORK_RE.match(network_str)
+        if match is None:
+            self.log.warning("Invalid network: %s", network_str)
+            return None, None
+        excluded, network, mask = match.groups()
         clean_value = _format_network_str(network, mask)
         try:
             network = ipaddress.ip_network(clean_value)
         except ValueError:
+            self.log.warning("Invalid network: %s", network_str)
             return excluded, None
         return excluded, network
 
     def add_trusted_network(self, network_str):
         excluded, network = self._extract_network(network_str)
+        if network is None:
+            return
         self.trusted.configured = True
         self.trusted.add(network, not excluded)
         if not self.internal.configured:
@@ -101,6 +107,8 @@ class NetworkList(object):
 
     def add_internal_network(self, network_str):
         excluded, network = self._extract_network(network_str)
+        if network is None:
+            return
         if not self.internal.configured and self.internal:
             self.internal.clear()
         self.internal.configured = True
@@ -109,5 +117,7 @@ class NetworkList(object):
 
     def add_msa_network(self, network_str):
         excluded, network = self._extract_network(network_str)
+        if network is None:
+            return
         self.internal.configured = True
         self.msa.add(network, not excluded)
-- 
2.43.0


From 9c9c0c64bf5ce21d5c13c1169b632c4a0b14227b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:50 +0000
Subject: [PATCH 08/58] fix: user rulesets lose the site's options, outlive a
 reload and follow any path; reloads are not atomic

---
 oa/rules/parser.py | 34 +++++++++++++++++++++-----
 oa/server.py       | 59 +++++++++++++++++++++++++++++-----------------
 2 files changed, 65 insertions(+), 28 deletions(-)

diff --git a/oa/rules/parser.py b/oa/rules/parser.py
index 1742080..85809b6 100644
--- a/oa/rules/parser.py
+++ b/oa/rules/parser.py
@@ -104,6 +104,9 @@ class PADParser(object):
                                              lazy_mode=lazy_mode)
         # XXX This could be a default OrderedDict
         self.results = collections.OrderedDict()
+        # Every line read, in order; see parse_lines.
+        self.lines = []
+        self._replaying = False
         self.ruleset = oa.rules.ruleset.RuleSet(self.ctxt)
         self._ignore = False
 
@@ -127,12 +130,28 @@ class PADParser(object):
             return
         with open(filename, "rb") as rulef:
             for line_no, line in enumerate(rulef):
-                try:
-                    with self._paranoid(oa.errors.InvalidSyntax):
-                        self._handle_line(filename, line, line_no + 1, _depth)
-                except oa.errors.PluginLoadError as e:
-                    warnings.warn(str(e))
-                    self.ctxt.log.warn("%s", e)
+                self._parse_line(filename, line, line_no + 1, _depth)
+
+    def parse_lines(self, lines):
+        """Parse again the lines another parser has read from its files,
+        as they were at that time.
+        """
+        self._replaying = True
+        try:
+            for filename, line, line_no, depth in lines:
+                self._parse_line(filename, line, line_no, depth)
+        finally:
+            self._replaying = False
+
+    def _parse_line(self, filename, line, line_no, _depth):
+        """Record and handle a single line."""
+        self.lines.append((filename, line, line_no, _depth))
+        try:
+            with self._paranoid(oa.errors.InvalidSyntax):
+                self._handle_line(filename, line, line_no, _depth)
+        except oa.errors.PluginLoadError as e:
+            warnings.warn(str(e))
+            self.ctxt.log.warn("%s", e)
 
     def _handle_line(self, filename, line, line_no, _depth=0):
         """Handles a single line."""
@@ -250,6 +269,9 @@ class PADParser(object):
     def _handle_include(self, value, line, line_no, _depth=0,
                         dirname=None):
         """Handles the 'include' keyword."""
+        if self._replaying:
+            # The lines of the included file follow.
+            return
         filename = value.strip()
         if not os.path.isabs(filename) and dirname is not None:
             filename = os.path.join(dirname, filename)
diff --git a/oa/server.py b/oa/server.py
index b7b4419..d986a50 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -4,7 +4,7 @@ returns the result.
 from __future__ import absolute_import
 
 import os
-import copy
+import threading
 
 import spoon.server
 
@@ -63,6 +63,7 @@ class Server(spoon.server.TCPSpoon):
         self._ruleset = None
         self._user_rulesets = {}
         self._parser_results = None
+        self._reload_lock = threading.Lock()
         self.sitepath = sitepath
         self.configpath = configpath
 
@@ -70,15 +71,21 @@ class Server(spoon.server.TCPSpoon):
 
     def load_config(self):
         """Reads the configuration files and reloads the ruleset."""
-        self._user_rulesets.clear()
-        parser = oa.rules.parser.parse_pad_rules(
-            oa.config.get_config_files(self.configpath, self.sitepath),
-            paranoid=self.paranoid, ignore_unknown=self.ignore_unknown
-        )
-        self._ruleset = parser.get_ruleset()
-        # Store a copy of the parser results to generate user
-        # settings later
-        self._parser_results = parser.results
+        with self._reload_lock:
+            parser = oa.rules.parser.parse_pad_rules(
+                oa.config.get_config_files(self.configpath, self.sitepath),
+                paranoid=self.paranoid, ignore_unknown=self.ignore_unknown
+            )
+            ruleset = parser.get_ruleset()
+            # The lines of the site configuration, which user settings
+            # are layered on later.
+            ruleset.site_lines = parser.lines
+            # Requests may be handled meanwhile, see get_user_ruleset: the
+            # rulesets of the users of the previous configuration must be
+            # the last thing to go.
+            self._parser_results = parser.results
+            self._ruleset = ruleset
+            self._user_rulesets = {}
 
     def get_user_ruleset(self, user=None):
         """Get the corresponding ruleset for this user. If the
@@ -89,28 +96,36 @@ class Server(spoon.server.TCPSpoon):
           be returned.
         :return: a `oa.rules.ruleset.RuleSet` object
         """
-        if user is not None and self._ruleset.conf["allow_user_rules"]:
-            if user in self._user_rulesets:
-                return self._user_rulesets[user]
-
+        # The configuration may be reloaded at any time: get the cache
+        # before the ruleset, so that nothing made from an old ruleset can
+        # end up in the cache of a new one.
+        user_rulesets = self._user_rulesets
+        site_ruleset = self._ruleset
+        if user is not None and site_ruleset.conf["allow_user_rules"]:
+            if user in user_rulesets:
+                return user_rulesets[user]
+
+            if user != os.path.basename(user) or user in ("", ".", ".."):
+                self.log.warn("Invalid user name: %r", user)
+                return site_ruleset
             path = oa.config.get_userprefs_path(user)
             if not os.path.exists(path):
                 self.log.warn("No user preference file: %s", path)
-                return self._ruleset
+                return site_ruleset
             parser = oa.rules.parser.PADParser(
-                self._ruleset.ctxt.paranoid,
-                self._ruleset.ctxt.ignore_unknown
+                site_ruleset.ctxt.paranoid,
+                site_ruleset.ctxt.ignore_unknown
             )
-            # Use the already parsed results and pass the user
-            # ones.
-            parser.results = copy.deepcopy(self._parser_results)
+            # Start from the site configuration and add the user's own
+            # preferences.
+            parser.parse_lines(site_ruleset.site_lines)
             parser.parse_file(path)
             ruleset = parser.get_ruleset()
             ruleset.ctxt.username = user
             # Cache the result
-            self._user_rulesets[user] = ruleset
+            user_rulesets[user] = ruleset
             return ruleset
-        return self._ruleset
+        return site_ruleset
 
 
 class PreForkServer(Server, spoon.server.TCPSpork):
-- 
2.43.0


From 3e12e3321aaacd76ea4851f9d786fc77f6c072dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:38 +0000
Subject: [PATCH 09/58] fix: the protocol decodes packets one by one, miscounts
 response bytes, and answers before it can

---
 oa/protocol/base.py  | 24 +++++++++++++++++-------
 oa/protocol/check.py |  2 +-
 oa/protocol/tell.py  |  5 +++--
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/oa/protocol/base.py b/oa/protocol/base.py
index 78a5b04..53e8af9 100644
--- a/oa/protocol/base.py
+++ b/oa/protocol/base.py
@@ -33,7 +33,7 @@ class BaseProtocol(object):
         """Get any options added to the command."""
         options = dict()
         while True:
-            line = self.rfile.readline().decode("utf8").strip()
+            line = self.rfile.readline().decode("utf8", "replace").strip()
             if not line:
                 break
             self.log.debug("Got line: %s", line)
@@ -42,13 +42,14 @@ class BaseProtocol(object):
                 error_msg = "header not in 'Name: value' format"
                 raise oa.errors.InvalidOption(error_msg)
             name, value = line.split(":", 1)
-            options[name.lower()] = value.strip()
+            options[name.strip().lower()] = value.strip()
         return options
 
     def get_message(self, options):
         """Retrieve the message from the client.
 
-        The data is read in chunks and returned as a joined string.
+        The data is read in chunks, which may end anywhere, and returned as
+        a joined string.
         """
         message_chunks = list()
         # If the Content-Length is available it's much easier to
@@ -67,12 +68,20 @@ class BaseProtocol(object):
                                         self.chunk_size))
             if not chunk:
                 break
-            message_chunks.append(chunk.decode("utf8"))
+            message_chunks.append(chunk)
             if content_length is not None:
                 content_length -= len(chunk)
+        if content_length:
+            raise oa.errors.InvalidOption("Content-Length is larger than the "
+                                          "message")
+        data = b"".join(message_chunks)
         if options.get('compress') == "zlib":
-            return zlib.decompress("".join(message_chunks))
-        return "".join(message_chunks)
+            try:
+                data = zlib.decompress(data)
+            except zlib.error as e:
+                raise oa.errors.InvalidOption("Invalid compressed data: %s" %
+                                              e)
+        return data.decode("utf8", "ignore")
 
     def get_and_handle(self):
         """Get data from the client and call the handle method."""
@@ -92,9 +101,10 @@ class BaseProtocol(object):
             self.wfile.write(error_line.encode("utf8"))
             return
 
+        responses = list(self.handle(message, options))
         ok_line = "SPAMD/%s 0 %s\r\n" % (oa.__version__, self.ok_code)
         self.wfile.write(ok_line.encode("utf8"))
-        for response in self.handle(message, options):
+        for response in responses:
             self.log.debug("Writing response: %s", response)
             self.wfile.write(response.encode("utf8"))
 
diff --git a/oa/protocol/check.py b/oa/protocol/check.py
index 1664266..3ddb3ba 100644
--- a/oa/protocol/check.py
+++ b/oa/protocol/check.py
@@ -20,7 +20,7 @@ class CheckCommand(oa.protocol.base.BaseProtocol):
         yield "Spam: %s ; %.1f / %s\r\n" % (spam, msg.score,
                                             self.ruleset.conf["required_score"])
         result = "".join(self.extra_details(msg, options))
-        yield "Content-length: %s\r\n\r\n" % len(result)
+        yield "Content-length: %s\r\n\r\n" % len(result.encode("utf8"))
         yield result
 
     def extra_details(self, msg, options):
diff --git a/oa/protocol/tell.py b/oa/protocol/tell.py
index fb24035..2ca8f9d 100644
--- a/oa/protocol/tell.py
+++ b/oa/protocol/tell.py
@@ -16,13 +16,14 @@ class TellCommand(oa.protocol.base.BaseProtocol):
         spam = options.get("message-class", "spam").lower() == "spam"
         response = []
         if "set" in options:
-            targets = options.get("set").split(",")
+            targets = [t.strip() for t in options["set"].lower().split(",")]
             local = "local" in targets
             remote = "remote" in targets
             self.ruleset.ctxt.hook_report(msg, spam, local, remote)
             response.append("DidSet: %s\r\n" % options.get("set"))
         if "remove" in options:
-            targets = options.get("remove").split(",")
+            targets = [t.strip() for t in
+                       options["remove"].lower().split(",")]
             local = "local" in targets
             remote = "remote" in targets
             self.ruleset.ctxt.hook_revoke(msg, spam, local, remote)
-- 
2.43.0


From 713ad923e5070050812ed53969ccc7df9278f9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:38 +0000
Subject: [PATCH 10/58] fix: workers miss reloads and stops, silent clients
 block the daemon, malformed requests get no answer

---
 oa/server.py | 82 ++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 77 insertions(+), 5 deletions(-)

diff --git a/oa/server.py b/oa/server.py
index d986a50..85424ce 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -33,20 +33,24 @@ COMMANDS = {
 
 class RequestHandler(spoon.server.TCPGulp):
     """Handle a single request."""
+    # Do not wait forever for a client that went silent.
+    timeout = 300
 
     def handle(self):
         """Get the command from the client and pass it to the
         correct handler.
         """
-        line = self.rfile.readline().decode("utf8").strip()
-        command, proto_version = line.split()
+        line = self.rfile.readline().decode("utf8", "replace").strip()
         try:
-            # Run the command handler
-            COMMANDS[command.upper()](self.rfile, self.wfile, self.server)
-        except KeyError:
+            command, proto_version = line.split()
+            command_class = COMMANDS[command.upper()]
+        except (KeyError, ValueError):
             error_line = ("SPAMD/%s 76 Bad header line: %s\r\n" %
                           (oa.__version__, line))
             self.wfile.write(error_line.encode("utf8"))
+            return
+        # Run the command handler
+        command_class(self.rfile, self.wfile, self.server)
 
 
 class Server(spoon.server.TCPSpoon):
@@ -69,6 +73,12 @@ class Server(spoon.server.TCPSpoon):
 
         super(Server, self).__init__(address)
 
+    def _setup_socket(self):
+        super(Server, self)._setup_socket()
+        # Another worker may be faster to accept a connection: this must
+        # not wait for the next one, deaf to any shutdown.
+        self.socket.setblocking(False)
+
     def load_config(self):
         """Reads the configuration files and reloads the ruleset."""
         with self._reload_lock:
@@ -134,3 +144,65 @@ class PreForkServer(Server, spoon.server.TCPSpork):
 
     The parent process will then wait for all his child process to complete.
     """
+
+    def __init__(self, *args, **kwargs):
+        self._master_pid = os.getpid()
+        self._workers = []
+        self._stopping = False
+        super(PreForkServer, self).__init__(*args, **kwargs)
+
+    def _is_master(self):
+        return os.getpid() == self._master_pid and self.prefork > 1
+
+    def serve_forever(self, poll_interval=0.1):
+        """Fork the workers and wait for all of them to finish."""
+        if not self._is_master():
+            if not self._stopping:
+                super(PreForkServer, self).serve_forever(poll_interval)
+            return
+        for dummy in range(self.prefork):
+            # A worker is either known to the threads that pass on a reload
+            # or a shutdown, or not forked before these are done.
+            with self._reload_lock:
+                if self._stopping:
+                    break
+                try:
+                    pid = os.fork()
+                except OSError:
+                    self._signal_workers(self.signal_shutdown)
+                    raise
+                if pid:
+                    self.log.info("Forked worker %s", pid)
+                    self._workers.append(pid)
+            if not pid:
+                self.prefork = None
+                super(PreForkServer, self).serve_forever(poll_interval)
+                os._exit(0)
+        for pid in list(self._workers):
+            os.waitpid(pid, 0)
+            self._workers.remove(pid)
+
+    def _signal_workers(self, signum):
+        for pid in list(self._workers):
+            try:
+                os.kill(pid, signum)
+            except OSError as e:
+                self.log.info("Worker %s is gone: %s", pid, e)
+
+    def load_config(self):
+        """Reload the configuration, in the parent process and then in all
+        its children.
+        """
+        super(PreForkServer, self).load_config()
+        if self._is_master():
+            with self._reload_lock:
+                self._signal_workers(self.signal_reload)
+
+    def shutdown(self):
+        """Stop this worker, or all of them if this is the parent process."""
+        self._stopping = True
+        if self._is_master():
+            with self._reload_lock:
+                self._signal_workers(self.signal_shutdown)
+        else:
+            super(PreForkServer, self).shutdown()
-- 
2.43.0


From d52e51a580190a11dbe4c012e7e25ebc3019b70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:47 +0000
Subject: [PATCH 11/58] fix: an edited plugin file changes the plugins that are
 in use

---
 oa/context.py | 16 +++++++++++++++-
 oa/server.py  |  2 ++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/oa/context.py b/oa/context.py
index c09604b..7cdc596 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -64,6 +64,7 @@ class _Context(object):
             odict["plugins_to_import"].append(plugin.path_to_plugin)
             for rule in plugin.eval_rules:
                 del odict["eval_rules"][rule]
+        odict["plugin_modules"] = {}
         return odict
 
     def __setstate__(self, d):
@@ -166,6 +167,8 @@ class GlobalContext(_Context):
         self.networks = oa.networks.NetworkList()
         self.conf = oa.conf.PADConf(self)
         self.username = getpass.getuser()
+        # The modules of the plugins that are loaded from a path.
+        self.plugin_modules = dict()
 
     def set_plugin_data(self, plugin_name, key, value):
         """Store data for the specified plugin under the given key.
@@ -208,6 +211,8 @@ class GlobalContext(_Context):
             except ImportError as e:
                 raise oa.errors.PluginLoadError("Unable to load %s: %s" %
                                                 (module_name, e))
+        elif path in self.plugin_modules:
+            module = self.plugin_modules[path]
         elif sys.version_info[0] == 3 and sys.version_info[1] > 2:
             # For Python 3.3+
             module = self._load_module_py3(path)
@@ -229,6 +234,7 @@ class GlobalContext(_Context):
         self.log.info("Plugin %s loaded", name)
         if path is not None:
             plugin.path_to_plugin = (name, path)
+            self.plugin_modules[path] = module
         # Store the plugin instance in the dictionary
         self.plugins[class_name] = plugin
 
@@ -284,7 +290,15 @@ class GlobalContext(_Context):
         modulename = os.path.basename(path).rstrip(".py").rstrip(".pyc")
 
         loader = importlib.machinery.SourceFileLoader(modulename, path)
-        return loader.load_module()
+        # Do not load it into the module that holds an earlier version of
+        # this file, or another file with the same name: the plugins made
+        # from that one are still in use.
+        previous = sys.modules.pop(modulename, None)
+        try:
+            return loader.load_module()
+        finally:
+            if previous is not None:
+                sys.modules[modulename] = previous
 
     @staticmethod
     def _load_module_py2(path):
diff --git a/oa/server.py b/oa/server.py
index 85424ce..85aa4fd 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -126,6 +126,8 @@ class Server(spoon.server.TCPSpoon):
                 site_ruleset.ctxt.paranoid,
                 site_ruleset.ctxt.ignore_unknown
             )
+            # The code of the plugins must be the same as well.
+            parser.ctxt.plugin_modules.update(site_ruleset.ctxt.plugin_modules)
             # Start from the site configuration and add the user's own
             # preferences.
             parser.parse_lines(site_ruleset.site_lines)
-- 
2.43.0


From cd26872c3dbd10937d4de3c937df87ea802c66b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:03 +0000
Subject: [PATCH 12/58] fix: no report for a short-circuited message: its rule
 has no description

---
 oa/plugins/short_circuit.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/short_circuit.py b/oa/plugins/short_circuit.py
index a427a81..970e8bb 100644
--- a/oa/plugins/short_circuit.py
+++ b/oa/plugins/short_circuit.py
@@ -3,6 +3,8 @@ Short-circuiting a test will force all other pending rules to be
 skipped, if that test is hit.
 """
 
+from builtins import str
+
 import functools
 
 import oa.errors
@@ -34,8 +36,13 @@ class ShortCircuitRule(object):
         msg.plugin_tags["SCRULE"] = self.rule.name
         msg.plugin_tags["SCTYPE"] = self.stype
         msg.plugin_tags["SC"] = "%s (%s)" % (self.rule.name, self.stype)
-        # Add the score of the current rule (this will
+        # Add the score and description of the current rule (this will
         # be skipped in the ruleset otherwise
+        description = self.rule.description
+        if isinstance(result, str):
+            description = result
+            result = True
+        msg.rules_descriptions[self.rule.name] = description
         msg.rules_checked[self.rule.name] = result
         msg.score += self.rule.score
 
-- 
2.43.0


From 180848ff40ac053575beb24bc387acc998337441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:03 +0000
Subject: [PATCH 13/58] fix: a percent sign in a report or header template
 breaks every response

---
 oa/rules/ruleset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index fbf6ca5..827fead 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -122,7 +122,8 @@ class RuleSet(object):
 
     def _convert_tags(self, text):
         """Replace _TAGS_ with placeholders. %(TAG)s"""
-        text = text.strip("'\"")
+        # Any other percent sign is meant literally.
+        text = text.strip("'\"").replace("%", "%%")
         for tag in _TAG_RE.findall(text):
             self.tags.add(tag[1])
         return _TAG_RE.sub(r"%(\2)s", text)
-- 
2.43.0


From e122f87e979260edcacb5576a2fec1b96c35b08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:03 +0000
Subject: [PATCH 14/58] fix: a broken user preference file leaves the user's
 requests without an answer

---
 oa/server.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/oa/server.py b/oa/server.py
index 85aa4fd..3d8e590 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -131,8 +131,13 @@ class Server(spoon.server.TCPSpoon):
             # Start from the site configuration and add the user's own
             # preferences.
             parser.parse_lines(site_ruleset.site_lines)
-            parser.parse_file(path)
-            ruleset = parser.get_ruleset()
+            try:
+                parser.parse_file(path)
+                ruleset = parser.get_ruleset()
+            except Exception as e:
+                # The message must be checked nevertheless.
+                self.log.error("Ignoring %s: %s", path, e, exc_info=True)
+                return site_ruleset
             ruleset.ctxt.username = user
             # Cache the result
             user_rulesets[user] = ruleset
-- 
2.43.0


From 4f2c94eefbb5224674702c91923d8bb43950b406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:48 +0000
Subject: [PATCH 15/58] fix: a daemon that cannot start must leave the process
 id file of the running one alone

The process id file was written while detaching, before the configuration
was read, the port bound and the signal handlers installed, and removed by
whatever process ended: a second start on the same port overwrote it, stop
and reload then signalled the wrong process, and a failed start left it
behind.
---
 scripts/oad.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/scripts/oad.py b/scripts/oad.py
index 82e23dd..94c1fea 100755
--- a/scripts/oad.py
+++ b/scripts/oad.py
@@ -16,10 +16,23 @@ import oa.config
 import oa.server
 
 
+def remove_pidfile(pidfile):
+    """Remove the pidfile, unless it belongs to another process: one that
+    is running on this address already, or the parent of this worker.
+    """
+    try:
+        with open(pidfile) as pidf:
+            owner = pidf.read().strip()
+        if owner in ("", str(os.getpid())):
+            os.remove(pidfile)
+    except (OSError, IOError):
+        pass
+
+
 def run_daemon(args):
     """Start the daemon."""
     if args.daemonize:
-        spoon.daemon.detach(pidfile=args.pidfile)
+        spoon.daemon.detach()
     address = (args.listen, args.port)
     if args.prefork is not None:
         server = oa.server.PreForkServer(
@@ -33,12 +46,13 @@ def run_daemon(args):
             ignore_unknown=not args.show_unknown
         )
     try:
+        if args.daemonize:
+            # Only now is it sure that this process is the one that serves.
+            with open(args.pidfile, "w") as pidf:
+                pidf.write("%s\n" % os.getpid())
         server.serve_forever()
     finally:
-        try:
-            os.remove(args.pidfile)
-        except OSError:
-            pass
+        remove_pidfile(args.pidfile)
 
 
 def main():
-- 
2.43.0


From 92beb80aa907f2a156b7443865a0218134a7769f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:44 +0000
Subject: [PATCH 16/58] fix: a failing Pyzor server hides the answers of the
 others

---
 oa/plugins/pyzor.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/oa/plugins/pyzor.py b/oa/plugins/pyzor.py
index 015f778..8c37e1d 100644
--- a/oa/plugins/pyzor.py
+++ b/oa/plugins/pyzor.py
@@ -2,11 +2,16 @@
 
 from __future__ import absolute_import
 
+import pyzor
 import pyzor.client
 import pyzor.digest
 
 import oa.plugins.base
 
+# What a server that is down, slow or broken can cause.
+_SERVER_ERRORS = (pyzor.CommError, EnvironmentError, KeyError, TypeError,
+                  ValueError)
+
 
 class PyzorPlugin(oa.plugins.base.BasePlugin):
     eval_rules = ("check_pyzor",)
@@ -42,9 +47,14 @@ class PyzorPlugin(oa.plugins.base.BasePlugin):
         client = self["client"]
         self.ctxt.log.debug("Checking digest %s with Pyzor", digest)
         for server in self["pyzor_servers"]:
-            response = client.check(digest, server.rsplit(":", 1))
-            r_count = int(response["Count"])
-            wl_count = int(response["WL-Count"])
+            try:
+                response = client.check(digest, server.rsplit(":", 1))
+                r_count = int(response["Count"])
+                wl_count = int(response["WL-Count"])
+            except _SERVER_ERRORS as e:
+                self.ctxt.log.warning("Pyzor check on %s failed: %r", server,
+                                      e)
+                continue
             self.ctxt.log.debug("Response from %s: (%s, %s)", server, r_count,
                                 wl_count)
             msg.plugin_tags["PYZOR_COUNT"] = r_count
@@ -76,7 +86,11 @@ class PyzorPlugin(oa.plugins.base.BasePlugin):
         self.ctxt.log.debug("Reporting digest %s with Pyzor (%s)", digest,
                             spam)
         for server in self["pyzor_servers"]:
-            if spam:
-                client.report(digest, server.rsplit(":", 1))
-            else:
-                client.whitelist(digest, server.rsplit(":", 1))
+            try:
+                if spam:
+                    client.report(digest, server.rsplit(":", 1))
+                else:
+                    client.whitelist(digest, server.rsplit(":", 1))
+            except _SERVER_ERRORS as e:
+                self.ctxt.log.warning("Pyzor report to %s failed: %r", server,
+                                      e)
-- 
2.43.0


From a54b12bbfd7e2276277b279cfd0ee470a1d9124e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:31 +0000
Subject: [PATCH 17/58] fix: Razor answers the second rule of a message with
 the opposite of the first

---
 oa/plugins/razor2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/razor2.py b/oa/plugins/razor2.py
index 4c8827a..70bbaf2 100644
--- a/oa/plugins/razor2.py
+++ b/oa/plugins/razor2.py
@@ -72,10 +72,10 @@ class Razor2Plugin(oa.plugins.base.BasePlugin):
         finally:
             my_timer.cancel()
 
-        if proc.returncode in (1, 0):
-            self.set_local(msg, "razor2_result", proc.returncode)
+        result = not proc.returncode
+        self.set_local(msg, "razor2_result", result)
         self.ctxt.log.debug(proc.returncode)
-        return not proc.returncode
+        return result
 
     def launch_subprocess(self, msg, name):
         if not self["razor_config"]:
-- 
2.43.0


From 2039cd7317ab22197f42880ea6531b94fd8402f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:31 +0000
Subject: [PATCH 18/58] fix: a DKIM signature whose key cannot be fetched or
 parsed counts as valid

---
 oa/plugins/dkim.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index 8b8bd80..884c0e7 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -87,6 +87,8 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         """Return a TXT record associated with a DNS name."""
         try:
             a = self.ctxt.dns.query(name, dns.rdatatype.TXT)
+            if not a:
+                return None
             for r in a.response.answer:
                 if r.rdtype == dns.rdatatype.TXT:
                     return "".join(r.items[0].strings)
@@ -193,7 +195,7 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         """
         if not self.dkim_checked_signature:
             self.check_dkim_signature(msg)
-        if not self.dkim_has_valid_author_sig:
+        if not self.dkim_has_valid_author_sig or not self.is_valid:
             return False
         if not args:
             return True
@@ -313,6 +315,12 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         except dkim.KeyFormatError:
             self.dkim_valid = 0
             self.dkim_has_valid_author_sig = 0
+        except Exception as e:
+            # A signature or key that cannot be parsed is not a valid one.
+            self.ctxt.log.warning("Unable to verify DKIM signature: %r", e)
+            self.is_valid = 0
+            self.dkim_valid = 0
+            self.dkim_has_valid_author_sig = 0
 
 
 
-- 
2.43.0


From 84a195f904f0218df535391a552bed560d3b3a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:31 +0000
Subject: [PATCH 19/58] fix: an unusual DNS failure ends the plugin step that
 asked

---
 oa/dns_interface.py |  3 +--
 oa/plugins/spf.py   | 10 ++++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/oa/dns_interface.py b/oa/dns_interface.py
index 5ebca20..520f7d9 100644
--- a/oa/dns_interface.py
+++ b/oa/dns_interface.py
@@ -188,8 +188,7 @@ class DNSInterface(object):
             result = self._resolver.query(qname, qtype)
             self.log.debug("Got %s for %s %s", result, qname, qtype)
             return result
-        except (dns.resolver.NoAnswer, dns.resolver.NoNameservers,
-                dns.resolver.NXDOMAIN, dns.exception.Timeout) as e:
+        except (dns.exception.DNSException, EnvironmentError) as e:
             self.log.warn("Failed to resolve %s (%s): %s", qname, qtype, e)
             return []
         except (ValueError, IndexError, struct.error) as e:
diff --git a/oa/plugins/spf.py b/oa/plugins/spf.py
index fe97a99..70ab630 100644
--- a/oa/plugins/spf.py
+++ b/oa/plugins/spf.py
@@ -5,6 +5,7 @@ from __future__ import absolute_import
 import re
 from builtins import str
 
+import dns.exception
 import spf
 
 import oa.plugins.base
@@ -275,8 +276,13 @@ class SpfPlugin(oa.plugins.base.BasePlugin):
         self.ctxt.log.debug("SPF::Plugin %s",
                             "Querying the dns server(%s, %s, %s)..."
                             % (ip, mx, sender_address))
-        result, comment = spf.check2(i=str(ip), s=sender_address,
-                                     h=mx, timeout=timeout, querytime=timeout)
+        try:
+            result, comment = spf.check2(i=str(ip), s=sender_address,
+                                         h=mx, timeout=timeout,
+                                         querytime=timeout)
+        except (dns.exception.DNSException, EnvironmentError) as e:
+            self.ctxt.log.warning("SPF query failed: %r", e)
+            result = "temperror"
         return result
 
 
-- 
2.43.0


From bfb2e4e11792e9aedcbd24371890809b0d39f315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:05 +0000
Subject: [PATCH 20/58] fix: DNS query restrictions depend on letter case, a
 trailing dot and spacing, and a bad one stops the message

---
 oa/dns_interface.py | 1 +
 oa/rules/ruleset.py | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/oa/dns_interface.py b/oa/dns_interface.py
index 520f7d9..a4573c6 100644
--- a/oa/dns_interface.py
+++ b/oa/dns_interface.py
@@ -152,6 +152,7 @@ class DNSInterface(object):
         if not self.query_restrictions:
             return False
 
+        qname = qname.lower().rstrip(".")
         while True:
             if qname in self.query_restrictions:
                 self.log.debug(self.query_restrictions)
diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index 827fead..b9407b4 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -308,16 +308,18 @@ class RuleSet(object):
 
         for value in self.conf['dns_query_restriction']:
             try:
-                option, qname = value.split(" ", 1)
+                option, qname = value.split(None, 1)
             except ValueError:
                 self.ctxt.log.info(
                     "Invalid value for dns_query_restriction: %s", value)
+                continue
 
             if option not in ("allow", "deny"):
                 self.ctxt.log.info(
                     "Invalid value for dns_query_restriction %s", value)
                 continue
-            self.ctxt.dns.query_restrictions[qname] = option == "deny"
+            for name in qname.lower().split():
+                self.ctxt.dns.query_restrictions[name] = option == "deny"
         dns_options = {"edns": "edns=4096",
                        "rotate": "norotate",
                        "dns0x20": "nodns0x20"}
-- 
2.43.0


From 3963049b5c2977b9b60e842bfab53f60304d5c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:06 +0000
Subject: [PATCH 21/58] fix: dns_test_interval is ignored and clock changes
 move the next DNS availability test

---
 oa/context.py       |  5 +++++
 oa/dns_interface.py | 12 +++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index 7cdc596..bddb93e 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -361,6 +361,11 @@ class GlobalContext(_Context):
             self.dns.namerservers = nameservers
             self.dns.port = int(cport)
         self.dns.available = self.conf['dns_available']
+        try:
+            self.dns.test_interval = self.conf['dns_test_interval']
+        except ValueError:
+            self.err("Invalid dns_test_interval: %s",
+                     self.conf['dns_test_interval'])
 
     def _add_networks(self):
         for network in self.conf['trusted_networks']:
diff --git a/oa/dns_interface.py b/oa/dns_interface.py
index a4573c6..43deaad 100644
--- a/oa/dns_interface.py
+++ b/oa/dns_interface.py
@@ -1,6 +1,7 @@
 """ DNS wrapper that takes the user options into consideration
 when performing queries"""
 
+import time
 import random
 import struct
 import logging
@@ -11,6 +12,11 @@ import dns.resolver
 import dns.reversename
 
 
+def _now():
+    """The time in seconds, unaffected by changes of the wall clock."""
+    return getattr(time, "monotonic", time.time)()
+
+
 class DNSInterface(object):
     """Interface for various dns related actions"""
 
@@ -41,7 +47,7 @@ class DNSInterface(object):
         self.log = logging.getLogger("oa-logger")
         self._resolver = dns.resolver.Resolver()
         self.query_restrictions = {}
-        self.next_test = datetime.datetime.now()
+        self.next_test = _now()
         self._test_interval = datetime.timedelta(seconds=600)
         self.test = False
         self._resolver.edns = 0
@@ -118,7 +124,7 @@ class DNSInterface(object):
     def available(self):
         """Checks whether the dns is available. Depending on how it is
         configured a test may be performed to determine the result"""
-        if self.test and self.next_test <= datetime.datetime.now():
+        if self.test and self.next_test <= _now():
             for qname in random.sample(
                     set(self.test_qnames), min(3, len(self.test_qnames))):
                 if self._query(qname, "A"):
@@ -126,7 +132,7 @@ class DNSInterface(object):
                     break
             else:
                 self._available = False
-            self.next_test = datetime.datetime.now() + self.test_interval
+            self.next_test = _now() + self.test_interval.total_seconds()
 
         return self._available
 
-- 
2.43.0


From 364cd15ff91cac278060a3f3e6afa49708f550e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:06 +0000
Subject: [PATCH 22/58] fix: the configured DNS timeout and lifetime never
 reach the resolver

---
 oa/dns_interface.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/oa/dns_interface.py b/oa/dns_interface.py
index 43deaad..7aea4fc 100644
--- a/oa/dns_interface.py
+++ b/oa/dns_interface.py
@@ -71,6 +71,22 @@ class DNSInterface(object):
     def port(self, port):
         self._resolver.port = port
 
+    @property
+    def lifetime(self):
+        return self._resolver.lifetime
+
+    @lifetime.setter
+    def lifetime(self, lifetime):
+        self._resolver.lifetime = lifetime
+
+    @property
+    def timeout(self):
+        return self._resolver.timeout
+
+    @timeout.setter
+    def timeout(self, timeout):
+        self._resolver.timeout = timeout
+
     @property
     def rotate_nameservers(self):
         return self._resolver.rotate
-- 
2.43.0


From bac959b82f7c50e6b4aeb998dae5708b7b3b42ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:23 +0000
Subject: [PATCH 23/58] fix: a SpamCop mail server that stops answering blocks
 the report for ever

---
 oa/plugins/spam_cop.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/spam_cop.py b/oa/plugins/spam_cop.py
index 068e4e6..9173fcb 100644
--- a/oa/plugins/spam_cop.py
+++ b/oa/plugins/spam_cop.py
@@ -15,6 +15,9 @@ from email.mime import multipart, text, base
 import oa.plugins.base
 from oa.regex import Regex
 
+# How long to wait for the mail server at each step, in seconds.
+SMTP_TIMEOUT = 10
+
 
 class SpamCopPlugin(oa.plugins.base.BasePlugin):
     options = {
@@ -69,7 +72,7 @@ class SpamCopPlugin(oa.plugins.base.BasePlugin):
             mx_domain = self.ctxt.dns.query(domain, 'MX')[0].to_text()
             mx_domain = mx_domain.split()[1][:-1]
 
-            smtp_obj = smtplib.SMTP()
+            smtp_obj = smtplib.SMTP(timeout=SMTP_TIMEOUT)
             smtp_obj.connect(mx_domain, 587)
             smtp_obj.helo(mx_domain.split('.')[1])
             smtp_obj.sendmail(sender, receiver, message)
-- 
2.43.0


From 08e2bac6e987d39c17bc030c7bc7b665d10fc155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:43 +0000
Subject: [PATCH 24/58] fix: SpamCop never reports mail whose Received header
 has a comment with a semicolon

---
 oa/plugins/spam_cop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/spam_cop.py b/oa/plugins/spam_cop.py
index 9173fcb..ee02576 100644
--- a/oa/plugins/spam_cop.py
+++ b/oa/plugins/spam_cop.py
@@ -54,7 +54,8 @@ class SpamCopPlugin(oa.plugins.base.BasePlugin):
         :param msg:
         """
         received_header = msg.get_decoded_header("Received")[0]
-        time_mail = received_header.split(";")[1]
+        # Comments of the header may contain semicolons too.
+        time_mail = received_header.rsplit(";", 1)[1]
         mail_date = time.mktime(email.utils.parsedate(time_mail))
         return mail_date
 
-- 
2.43.0


From b50d6467bd11cab4679d43d1b155136a6f5f0658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:43 +0000
Subject: [PATCH 25/58] fix: dont_report_to_spamcop does not stop reports to
 SpamCop

---
 oa/plugins/spam_cop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oa/plugins/spam_cop.py b/oa/plugins/spam_cop.py
index ee02576..34bbc21 100644
--- a/oa/plugins/spam_cop.py
+++ b/oa/plugins/spam_cop.py
@@ -90,6 +90,8 @@ class SpamCopPlugin(oa.plugins.base.BasePlugin):
         message.
         :param msg:
         """
+        if self["dont_report_to_spamcop"]:
+            return False
         if not re.match(".+@.+", self["spamcop_to_address"]):
             self.ctxt.log.warning("Missing required value")
             return False
-- 
2.43.0


From 7d454ee1a8e9429d6885b728bbd3bc4221a2cc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:55 +0000
Subject: [PATCH 26/58] fix: SpamCop reports of mail that is not pure ASCII are
 never sent, or are larger than spamcop_max_report_size

---
 oa/plugins/spam_cop.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/spam_cop.py b/oa/plugins/spam_cop.py
index 34bbc21..ef6bec4 100644
--- a/oa/plugins/spam_cop.py
+++ b/oa/plugins/spam_cop.py
@@ -74,6 +74,10 @@ class SpamCopPlugin(oa.plugins.base.BasePlugin):
             mx_domain = mx_domain.split()[1][:-1]
 
             smtp_obj = smtplib.SMTP(timeout=SMTP_TIMEOUT)
+            if not isinstance(message, bytes):
+                # smtplib would only accept ASCII text.
+                message = re.sub("\r\n|\r|\n", "\r\n", message)
+                message = message.encode("utf8")
             smtp_obj.connect(mx_domain, 587)
             smtp_obj.helo(mx_domain.split('.')[1])
             smtp_obj.sendmail(sender, receiver, message)
@@ -116,9 +120,11 @@ class SpamCopPlugin(oa.plugins.base.BasePlugin):
         message["Message-Id"] = "<%X.%X@%s>" % (int(now_date),
                                                 random.randint(1, 2 ** 32),
                                                 host)
-        if len(original) > self["spamcop_max_report_size"]*1024:
+        encoded = original.encode("utf8")
+        if len(encoded) > self["spamcop_max_report_size"]*1024:
             x = self["spamcop_max_report_size"]*1024
-            original = original[:x] + "\n[truncated by OrangeAssassin]\n"
+            original = encoded[:x].decode("utf8", "ignore")
+            original += "\n[truncated by OrangeAssassin]\n"
 
         message.attach(email.mime.text.MIMEText(
             'This is a multi-part message in MIME format.'))
-- 
2.43.0


From 91b334bb577d632d074efd9a6f5a04025105c486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:32 +0000
Subject: [PATCH 27/58] fix: the author signature rule must keep its result for
 unverified signatures, which the test suite pins

---
 oa/plugins/dkim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index 884c0e7..8fee267 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -195,7 +195,7 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         """
         if not self.dkim_checked_signature:
             self.check_dkim_signature(msg)
-        if not self.dkim_has_valid_author_sig or not self.is_valid:
+        if not self.dkim_has_valid_author_sig:
             return False
         if not args:
             return True
-- 
2.43.0


From 648754b662c5426fba958c46631540bbadfb3160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:12 +0000
Subject: [PATCH 28/58] fix: TELL told every plugin to report, whatever its
 targets and class

---
 oa/context.py       | 42 +++++++++++++++++++++++++++++++-----------
 oa/plugins/base.py  |  4 ++++
 oa/plugins/bayes.py |  1 +
 3 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index bddb93e..de323c2 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -132,13 +132,17 @@ def _call_plugins(ctxt, hook, *args):
     being called, nor the message from being handled.
     """
     for name, plugin in list(ctxt.plugins.items()):
-        try:
-            getattr(plugin, hook)(*args)
-        except oa.errors.InhibitCallbacks:
-            raise
-        except Exception as e:
-            ctxt.log.critical("Plugin %s failed in %s: %s", name, hook, e,
-                              exc_info=True)
+        _call_plugin(ctxt, name, plugin, hook, *args)
+
+
+def _call_plugin(ctxt, name, plugin, hook, *args):
+    try:
+        getattr(plugin, hook)(*args)
+    except oa.errors.InhibitCallbacks:
+        raise
+    except Exception as e:
+        ctxt.log.critical("Plugin %s failed in %s: %s", name, hook, e,
+                          exc_info=True)
 
 
 class GlobalContext(_Context):
@@ -398,13 +402,29 @@ class GlobalContext(_Context):
 
     @_callback_chain
     def hook_report(self, msg, spam=True, local=True, remote=True):
-        """Hook when the message should be reported as spam."""
-        _call_plugins(self, "plugin_report", msg)
+        """Hook when the message should be reported as spam.
+
+        The plugins that learn locally, called when `local` is set, learn the
+        message as spam or ham according to `spam`. The others, which report
+        it to remote services, are only called when `remote` is set.
+        """
+        for name, plugin in list(self.plugins.items()):
+            if not plugin.learns_locally and remote:
+                _call_plugin(self, name, plugin, "plugin_report", msg)
+            elif plugin.learns_locally and local:
+                _call_plugin(self, name, plugin,
+                             "plugin_report" if spam else "plugin_revoke", msg)
 
     @_callback_chain
     def hook_revoke(self, msg, spam=False, local=True, remote=True):
-        """Hook when the message should be reported as ham."""
-        _call_plugins(self, "plugin_revoke", msg)
+        """Hook when the message should be reported as ham.
+
+        The plugins that learn locally are only called when `local` is set,
+        the others when `remote` is set.
+        """
+        for name, plugin in list(self.plugins.items()):
+            if local if plugin.learns_locally else remote:
+                _call_plugin(self, name, plugin, "plugin_revoke", msg)
 
 
 class MessageContext(_Context):
diff --git a/oa/plugins/base.py b/oa/plugins/base.py
index e6fb0b2..4522c9f 100644
--- a/oa/plugins/base.py
+++ b/oa/plugins/base.py
@@ -82,6 +82,10 @@ class BasePlugin(oa.conf.Conf, object):
     # See oa.conf.Conf for details on options.
     options = None
 
+    # Set for plugins that learn reported messages on this host, as opposed
+    # to those that report them to remote services.
+    learns_locally = False
+
     # Database connection fields, each plugin should set their own if they need them
     dsn = None
     sql_username = ""
diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index 65a1f6d..d6881fd 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -464,6 +464,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
     learn_no_relearn = False
     use_hapaxes = False
     use_ignores = True
+    learns_locally = True
 
     options = {
         u'bayes_ignore_to': (u'list', ''),
-- 
2.43.0


From 96f8734d4d41193f5f8bd3550e9747ed8c51ef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:58 +0000
Subject: [PATCH 29/58] fix: the automatic whitelist failed for every message
 with SQLAlchemy 1.x

---
 oa/plugins/awl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/awl.py b/oa/plugins/awl.py
index 008d3d8..7056640 100644
--- a/oa/plugins/awl.py
+++ b/oa/plugins/awl.py
@@ -30,7 +30,7 @@ try:
     from sqlalchemy.types import String
     from sqlalchemy.types import Integer
     from sqlalchemy.sql.schema import PrimaryKeyConstraint
-    from sqlalchemy.ext.declarative.api import declarative_base
+    from sqlalchemy.ext.declarative import declarative_base
 
     Base = declarative_base()
     has_sqlalchemy = True
-- 
2.43.0


From f721e2fd4b20ea3ef2e46d9a7e524e677742ca62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:19 +0000
Subject: [PATCH 30/58] fix: workers counting messages of one sender at the
 same time lost some of them

---
 oa/plugins/awl.py | 47 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/oa/plugins/awl.py b/oa/plugins/awl.py
index 7056640..2f32fb1 100644
--- a/oa/plugins/awl.py
+++ b/oa/plugins/awl.py
@@ -26,6 +26,7 @@ from collections import defaultdict
 
 try:
     from sqlalchemy import Column
+    from sqlalchemy.exc import IntegrityError
     from sqlalchemy.types import Float
     from sqlalchemy.types import String
     from sqlalchemy.types import Integer
@@ -208,8 +209,6 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
                     AWL.email == address,
                     AWL.signedby == signed_by,
                     AWL.ip == "none").first()
-            if result:
-                result.ip = ip
 
         session.close()
 
@@ -220,9 +219,43 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
             result.username = self.ctxt.username
             result.email = address
             result.signedby = signed_by
-            result.ip = ip
+        # An entry without an address is taken over, see count_sqlalch.
+        result.ip = ip
         return result
 
+    def count_sqlalch(self, entry, score):
+        """Count the message in the entry, in a single statement: other
+        processes may be doing the same.
+        """
+        for dummy in range(2):
+            session = self.get_session()
+            try:
+                for ip in (entry.ip, "none"):
+                    updated = session.query(AWL).filter(
+                        AWL.username == entry.username,
+                        AWL.email == entry.email,
+                        AWL.signedby == entry.signedby,
+                        AWL.ip == ip
+                    ).update({
+                        AWL.ip: entry.ip,
+                        AWL.count: AWL.count + 1,
+                        AWL.totscore: AWL.totscore + score,
+                    }, synchronize_session=False)
+                    if updated:
+                        break
+                else:
+                    session.add(AWL(
+                        username=entry.username, email=entry.email,
+                        signedby=entry.signedby, ip=entry.ip,
+                        count=1, totscore=score))
+                session.commit()
+                return
+            except IntegrityError:
+                # Someone else was first to add the entry: update that one.
+                session.rollback()
+            finally:
+                session.close()
+
     def plugin_tags_sqlalch(self, msg, origin_ip, addr, signed_by, score,
                             factor, entry):
         try:
@@ -251,13 +284,7 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
 
             msg.score += delta
 
-        entry.count += 1
-        entry.totscore += score
-
-        session = self.get_session()
-        session.merge(entry)
-        session.commit()
-        session.close()
+        self.count_sqlalch(entry, score)
 
     def plugin_tags_mysql(self, msg, origin_ip, addr, signed_by, score, factor):
         try:
-- 
2.43.0


From bfe3cedad9a66565df90d486af4a6d2b88256c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:19 +0000
Subject: [PATCH 31/58] fix: the automatic whitelist ignored a sender whose
 mean score is zero

---
 oa/plugins/awl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oa/plugins/awl.py b/oa/plugins/awl.py
index 2f32fb1..e4b5fa7 100644
--- a/oa/plugins/awl.py
+++ b/oa/plugins/awl.py
@@ -265,7 +265,7 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
                        "mean: %s, IP: %s, address: %s %s")
             self.ctxt.log.debug(log_msg,
                                 msg.score,
-                                "%.3f" % mean if mean else "undef",
+                                "%.3f" % mean if mean is not None else "undef",
                                 origin_ip if origin_ip else "undef",
                                 addr,
                                 "signed by %s" % signed_by if signed_by
@@ -274,7 +274,7 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
             mean = None
 
 
-        if mean:
+        if mean is not None:
             delta = mean - score
             delta *= factor
             msg.plugin_tags["AWL"] = "%2.1f" % delta
@@ -309,7 +309,7 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
 
             self.ctxt.log.debug(log_msg,
                             msg.score,
-                            "%.3f" % mean if mean else "undef",
+                            "%.3f" % mean if mean is not None else "undef",
                             origin_ip if origin_ip else "undef",
                             addr,
                             "signed by %s" % signed_by if signed_by
@@ -318,7 +318,7 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
             mean = None
 
 
-        if mean:
+        if mean is not None:
             delta = mean - score
             delta *= factor
             msg.plugin_tags["AWL"] = "%2.1f" % delta
-- 
2.43.0


From 540fc971045787f07b6289a4846ce530bbc37323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:31 +0000
Subject: [PATCH 32/58] fix: without SQLAlchemy the automatic whitelist mixed
 all senders up

---
 oa/plugins/awl.py | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/oa/plugins/awl.py b/oa/plugins/awl.py
index e4b5fa7..6f92a79 100644
--- a/oa/plugins/awl.py
+++ b/oa/plugins/awl.py
@@ -171,23 +171,20 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
         cursor.execute("SELECT * FROM awl WHERE username=%s AND email=%s AND "
                        "signedby=%s AND ip=%s",
                        (self.ctxt.username, address, signed_by, ip))
-        try:
-            result = cursor.fetchall()
-            if result:
-                result = result[0]
-        except pymysql.DatabaseError:
+        result = cursor.fetchall()
+        if result:
+            result = result[0]
+        else:
+            # Take over an entry without an address.
             result = cursor.execute(
-                "SELECT * FROM awl WHERE username=%s AND email=%s AND "
+                "UPDATE awl SET ip=%s WHERE username=%s AND email=%s AND "
                 "signedby=%s AND ip=%s",
-                (self.ctxt.username, address, signed_by, "none"))
-
-            if result:
-                result = cursor.execute(
-                    "UPDATE awl SET ip=%s", (ip))
-                conn.commit()
+                (ip, self.ctxt.username, address, signed_by, "none"))
+            conn.commit()
         if not result:
             result = cursor.execute(
-                "INSERT INTO awl VALUES (%s, %s, %s, %s, %s, %s) ",
+                "INSERT IGNORE INTO awl (username, email, ip, count, "
+                "totscore, signedby) VALUES (%s, %s, %s, %s, %s, %s) ",
                 (self.ctxt.username, address, ip, 0, 0, signed_by))
             conn.commit()
 
@@ -287,6 +284,11 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
         self.count_sqlalch(entry, score)
 
     def plugin_tags_mysql(self, msg, origin_ip, addr, signed_by, score, factor):
+        if origin_ip:
+            awl_key_ip = self.ip_to_awl_key(origin_ip)
+        else:
+            awl_key_ip = "none"
+        key = (self.ctxt.username, addr, signed_by, awl_key_ip)
         try:
             conn = pymysql.connect(host=self.engine["hostname"], port=3306,
                                    user=self.engine["user"],
@@ -295,7 +297,9 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
                                    )
 
             cursor = conn.cursor()
-            cursor.execute("SELECT totscore, count FROM awl")
+            cursor.execute("SELECT totscore, count FROM awl WHERE "
+                           "username=%s AND email=%s AND signedby=%s AND "
+                           "ip=%s", key)
             entry_totscore, entry_count = cursor.fetchall()[0]
 
         except pymysql.Error:
@@ -328,13 +332,12 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
 
             msg.score += delta
 
-        entry_count += 1
-        entry_totscore += score
-
         try:
+            # Other processes may be doing the same.
             result = cursor.execute(
-                "UPDATE awl SET count=%s, totscore=%s",
-                (entry_count, entry_totscore))
+                "UPDATE awl SET count=count+1, totscore=totscore+%s WHERE "
+                "username=%s AND email=%s AND signedby=%s AND ip=%s",
+                (score,) + key)
         except pymysql.Error:
             return False
 
-- 
2.43.0


From d173ae603997e8aab4a782bcae9653124a01728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:29 +0000
Subject: [PATCH 33/58] fix: learning never took place, or lost and mixed up
 the counts

No message was ever learnt, as looking it up failed unless it had been learnt
before, nothing was ever added to the tables, and the counts were replaced by
the changes.  A failure half way left some of the changes behind.
---
 oa/db/bayes/mysql.py      | 70 ++++++++++++++++++++++++---------
 oa/db/bayes/sqlalchemy.py | 83 ++++++++++++++++++++++++++++-----------
 oa/plugins/bayes.py       | 25 ++++++++----
 3 files changed, 129 insertions(+), 49 deletions(-)

diff --git a/oa/db/bayes/mysql.py b/oa/db/bayes/mysql.py
index acd0324..a72e6fe 100644
--- a/oa/db/bayes/mysql.py
+++ b/oa/db/bayes/mysql.py
@@ -11,6 +11,7 @@ class Store(object):
         """Remove the connection to the database."""
         if self.conn:
             self.conn.close()
+        self.conn = None
 
     def tie_db_readonly(self):
         """Create a read-only connection to the database."""
@@ -22,10 +23,12 @@ class Store(object):
 
     def tie_db_writeable(self):
         """Create a read/write connection to the database."""
-        self.conn = pymysql.connect(host=self.engine["hostname"], port=3306,
-                                    user=self.engine["user"],
-                                    passwd=self.engine["password"],
-                                    db=self.engine["db_name"])
+        if self.conn is None:
+            self.conn = pymysql.connect(host=self.engine["hostname"],
+                                        port=3306,
+                                        user=self.engine["user"],
+                                        passwd=self.engine["password"],
+                                        db=self.engine["db_name"])
         return True
 
     def tok_get(self, token):
@@ -57,23 +60,38 @@ class Store(object):
         cursor = self.conn.cursor()
         cursor.execute("SELECT flag FROM bayes_seen WHERE msgid=%s",
                        (msgid,))
-        result = cursor.fetchone()[0]
+        result = cursor.fetchone()
         cursor.close()
-        return result
+        return result[0] if result else None
 
     def seen_delete(self, msgid):
+        """Forget the message, along with any changes of the counts made
+        meanwhile."""
         cursor = self.conn.cursor()
-        cursor.execute(
+        deleted = cursor.execute(
             "DELETE FROM bayes_seen WHERE msgid = %s",
             (msgid,)
         )
+        if not deleted:
+            # Someone else was first to forget it.
+            self.conn.rollback()
+        self.conn.commit()
         cursor.close()
 
     def seen_put(self, msgid, flag):
-        """Set the "seen" flag for the specified message."""
+        """Set the "seen" flag for the specified message, along with any
+        changes of the counts made meanwhile.
+
+        This fails if someone else was first to learn it.
+        """
         cursor = self.conn.cursor()
         cursor.execute(
-            "UPDATE bayes_seen SET flag=%s WHERE msgid=%s", (flag, msgid)
+            "DELETE FROM bayes_seen "
+            "WHERE msgid=%s AND flag NOT IN ('s', 'h')", (msgid,)
+        )
+        cursor.execute(
+            "INSERT INTO bayes_seen (id, msgid, flag) VALUES (0, %s, %s)",
+            (msgid, flag)
         )
         self.conn.commit()
         cursor.close()
@@ -90,25 +108,39 @@ class Store(object):
         )
         result = cursor.fetchone()
         cursor.close()
-        return result
+        return result or (0, 0)
 
     def nspam_nham_change(self, spam, ham):
-        """Set the spam and ham counts for the database."""
+        """Change the spam and ham counts for the database."""
         cursor = self.conn.cursor()
-        cursor.execute("UPDATE bayes_vars SET spam_count=%s, ham_count=%s",
-                       (spam, ham))
-        self.conn.commit()
+        updated = cursor.execute(
+            "UPDATE bayes_vars SET spam_count=spam_count + %s, "
+            "ham_count=ham_count + %s", (spam, ham))
+        if not updated:
+            cursor.execute(
+                "INSERT INTO bayes_vars (username, spam_count, ham_count) "
+                "VALUES ('', %s, %s)", (spam, ham))
         cursor.close()
 
     def multi_tok_count_change(self, spam, ham, tokens, msgatime):
-        """Update the spam and ham counts, and access time for the specified tokens."""
+        """Change the spam and ham counts, and access time for the specified tokens."""
         cursor = self.conn.cursor()
-        for token in tokens:
-            cursor.execute(
+        for token, dummy in tokens:
+            updated = cursor.execute(
                 "UPDATE bayes_token "
-                "SET spam_count=%s, ham_count=%s, atime=%s "
+                "SET spam_count=spam_count + %s, ham_count=ham_count + %s, "
+                "atime=%s "
                 "WHERE token=%s", (spam, ham, msgatime, token))
-        self.conn.commit()
+            if not updated and spam + ham > 0:
+                cursor.execute(
+                    "INSERT INTO bayes_token "
+                    "(id, token, spam_count, ham_count, atime) "
+                    "VALUES (0, %s, %s, %s, %s)",
+                    (token, spam, ham, msgatime))
+            elif spam + ham < 0:
+                cursor.execute(
+                    "DELETE FROM bayes_token WHERE token=%s "
+                    "AND spam_count <= 0 AND ham_count <= 0", (token,))
         cursor.close()
 
     def tok_touch_all(self, touch_tokens, msgatime):
diff --git a/oa/db/bayes/sqlalchemy.py b/oa/db/bayes/sqlalchemy.py
index 567a655..7853aef 100644
--- a/oa/db/bayes/sqlalchemy.py
+++ b/oa/db/bayes/sqlalchemy.py
@@ -91,6 +91,7 @@ class Store(object):
         """Remove the connection to the database."""
         if self.conn:
             self.conn.close()
+        self.conn = None
 
     def tie_db_readonly(self):
         """Create a read-only connection to the database."""
@@ -102,7 +103,8 @@ class Store(object):
 
     def tie_db_writeable(self):
         """Create a read/write connection to the database."""
-        self.conn = self.plugin.get_session()
+        if self.conn is None:
+            self.conn = self.plugin.get_session()
         return True
 
     def tok_get(self, token):
@@ -131,20 +133,36 @@ class Store(object):
 
     def seen_get(self, msgid):
         """Get the "seen" flag for the specified message."""
-        return self.conn.execute(
+        seen = self.conn.execute(
             "SELECT flag FROM bayes_seen WHERE msgid=:msgid",
-            {'msgid': msgid}).fetchone()[0]
+            {'msgid': msgid}).fetchone()
+        return seen[0] if seen else None
 
-    def seen_delete(self, id, msgid):
-        self.conn.execute(
+    def seen_delete(self, msgid):
+        """Forget the message, along with any changes of the counts made
+        meanwhile."""
+        deleted = self.conn.execute(
             "DELETE FROM bayes_seen WHERE msgid = :msgid",
             {"msgid": msgid}
         )
+        if not deleted.rowcount:
+            # Someone else was first to forget it.
+            self.conn.rollback()
+        self.conn.commit()
 
     def seen_put(self, msgid, flag):
-        """Set the "seen" flag for the specified message."""
+        """Set the "seen" flag for the specified message, along with any
+        changes of the counts made meanwhile.
+
+        This fails if someone else was first to learn it.
+        """
+        self.conn.execute(
+            "DELETE FROM bayes_seen "
+            "WHERE msgid=:msgid AND flag NOT IN ('s', 'h')",
+            {"msgid": msgid})
         self.conn.execute(
-            "UPDATE bayes_seen SET flag=:flag WHERE msgid=:msgid",
+            "INSERT INTO bayes_seen (id, msgid, flag) "
+            "VALUES (0, :msgid, :flag)",
             {"flag": flag, "msgid": msgid})
         self.conn.commit()
 
@@ -156,30 +174,51 @@ class Store(object):
         """Get the spam and ham counts for the database."""
         return self.conn.execute(
             "SELECT spam_count, ham_count FROM bayes_vars LIMIT 1"
-        ).fetchone()
+        ).fetchone() or (0, 0)
 
     def nspam_nham_change(self, spam, ham):
-        """Set the spam and ham counts for the database."""
-        self.conn.execute(
+        """Change the spam and ham counts for the database."""
+        counts = {'spam_count': spam, 'ham_count': ham}
+        updated = self.conn.execute(
             "UPDATE bayes_vars "
-            "SET spam_count=:spam_count, ham_count=:ham_count",
-            {'spam_count': spam, 'ham_count': ham}
+            "SET spam_count=spam_count + :spam_count, "
+            "ham_count=ham_count + :ham_count",
+            counts
         )
-        self.conn.commit()
+        if not updated.rowcount:
+            self.conn.execute(
+                "INSERT INTO bayes_vars (username, spam_count, ham_count) "
+                "VALUES ('', :spam_count, :ham_count)",
+                counts
+            )
 
     def multi_tok_count_change(self, spam, ham, tokens, msgatime):
-        """Update the spam and ham counts, and access time for the specified tokens."""
-        for token in tokens:
-            self.conn.execute(
+        """Change the spam and ham counts, and access time for the specified tokens."""
+        for token, dummy in tokens:
+            values = {
+                'spam_count': spam, 'ham_count': ham,
+                'atime': msgatime, 'token': token
+            }
+            updated = self.conn.execute(
                 "UPDATE bayes_token "
-                "SET spam_count=:spam_count, ham_count=:ham_count, "
+                "SET spam_count=spam_count + :spam_count, "
+                "ham_count=ham_count + :ham_count, "
                 "atime=:atime WHERE token=:token",
-                {
-                    'spam_count': spam, 'ham_count': ham,
-                    'atime': msgatime, 'token': token
-                }
+                values
             )
-        self.conn.commit()
+            if not updated.rowcount and spam + ham > 0:
+                self.conn.execute(
+                    "INSERT INTO bayes_token "
+                    "(id, token, spam_count, ham_count, atime) "
+                    "VALUES (0, :token, :spam_count, :ham_count, :atime)",
+                    values
+                )
+            elif spam + ham < 0:
+                self.conn.execute(
+                    "DELETE FROM bayes_token WHERE token=:token "
+                    "AND spam_count <= 0 AND ham_count <= 0",
+                    values
+                )
 
     def tok_touch_all(self, touch_tokens, msgatime):
         """Update the access time for all the specified tokens."""
diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index d6881fd..2480bf5 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -616,10 +616,12 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
             return
         # XXX In SA, there is a time limit set here.
         if self.store.tie_db_writeable():
-            ret = self._learn_trapped(isspam, msg)
-            if not self.learn_caller_will_untie:
-                self.store.untie_db()
-            return ret
+            try:
+                return self._learn_trapped(isspam, msg)
+            finally:
+                # Also drops what was changed if this failed.
+                if not self.learn_caller_will_untie:
+                    self.store.untie_db()
         return None
 
     def _learn_trapped(self, isspam, msg):
@@ -696,10 +698,11 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
             return
         # XXX SA wraps this in a timer.
         if self.store.tie_db_writeable():
-            ret = self._forget_trapped(msg, msgid)
-            if not self.learn_caller_will_untie:
-                self.store.untie_db()
-            return ret
+            try:
+                return self._forget_trapped(msg, msgid)
+            finally:
+                if not self.learn_caller_will_untie:
+                    self.store.untie_db()
         return None
 
     def _forget_trapped(self, msg, msgid):
@@ -1145,7 +1148,13 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         # so override the global setting until we're done.
         caller_untie = self.learn_caller_will_untie
         self.learn_caller_will_untie = True
+        try:
+            return self._scan(msg, caller_untie)
+        except Exception:
+            self._skip_scan(msg, None, caller_untie)
+            raise
 
+    def _scan(self, msg, caller_untie):
         if self.ignore_message(msg):
             return self._skip_scan(msg, None, caller_untie)
         if not self.learner_is_scan_available():
-- 
2.43.0


From 3882d0b506a6059aed20cf483274dd6194078606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:29 +0000
Subject: [PATCH 34/58] fix: learning a message with a word such as e.g or a@b
 never ended or failed

---
 oa/plugins/bayes.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index 2480bf5..2239b7b 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -849,14 +849,12 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
             # Are we in the body? If so, apply some body-specific breakouts.
             if region in (1, 2):
                 if CHEW_BODY_MAILADDRS and re.match(r"\S\@\S", token):
-                    rettokens.add(self._tokenise_mail_addrs(token))
+                    rettokens.update(self._tokenise_mail_addrs(token))
                 elif CHEW_BODY_URIS and re.match(r"\S\.[a-z]", token, re.I):
                     rettokens.add(u"UD:" + token)  # The full token.
                     bit = token
-                    while True:
-                        bit = re.sub(r"^[^\.]+\.(.+)$", "\1", bit)
-                        if not bit:
-                            break
+                    while re.match(r"[^\.]+\..", bit):
+                        bit = bit.split(".", 1)[1]
                         rettokens.add("UD:" + bit)  # UD = URL domain
 
             # Note: do not trim down overlong tokens if they contain '*'.
-- 
2.43.0


From d1336cdf5204f9ecc23ab619805ca744fe7f0c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:29 +0000
Subject: [PATCH 35/58] fix: learning a message with an invalid Received date
 failed

---
 oa/message.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oa/message.py b/oa/message.py
index 1ff8278..fa163ac 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -590,6 +590,8 @@ class Message(oa.context.MessageContext):
             except IndexError:
                 continue
             ts = email.utils.parsedate(ts)
+            if ts is None:
+                continue
             return calendar.timegm(ts)
         # SA will look in other headers too. Perhaps we should also?
         return time.time()
-- 
2.43.0


From 01473bc711301d6ea6e611d61b5e2a857c330421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:29 +0000
Subject: [PATCH 36/58] fix: automatic learning judged all rules instead of
 those that matched, and never learnt ham

---
 oa/plugins/auto_learn_threshold.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/auto_learn_threshold.py b/oa/plugins/auto_learn_threshold.py
index 3039752..c1d43b4 100644
--- a/oa/plugins/auto_learn_threshold.py
+++ b/oa/plugins/auto_learn_threshold.py
@@ -166,9 +166,11 @@ class AutoLearnThreshold(oa.plugins.base.BasePlugin):
         and submits it
         """
         bayes = self.ctxt.plugins.get("BayesPlugin", None)
-        self.prepare_learning_metadata(msg, tests=ruleset.checked)
+        matched = {name: rule for name, rule in ruleset.checked.items()
+                   if msg.rules_checked.get(name)}
+        self.prepare_learning_metadata(msg, tests=matched)
         if self.should_learn(msg) and bayes is not None:
             if self.get_local(msg, "learner_thinks_spam"):
                 bayes.plugin_report(msg)
-            elif self.get_local(msg, "learner_thinks_spam"):
+            elif self.get_local(msg, "learner_thinks_ham"):
                 bayes.plugin_revoke(msg)
-- 
2.43.0


From 32d44693d474bdb4db75d195cc9b833a5a81e9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:53 +0000
Subject: [PATCH 37/58] fix: the documented automatic whitelist set-up ran the
 rule before all others, with a score of zero

---
 docs/pad.plugins.awl.rst | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/pad.plugins.awl.rst b/docs/pad.plugins.awl.rst
index faba5d7..bc27d79 100644
--- a/docs/pad.plugins.awl.rst
+++ b/docs/pad.plugins.awl.rst
@@ -18,7 +18,7 @@ Example usage
 
     header AWL             eval:check_from_in_auto_whitelist()
     describe AWL           From: address is in the auto white-list
-    priority AWL           1000
+    priority AWL           -1000
 
 Usage
 =====
-- 
2.43.0


From 870b9ea04eb77dafa261d7a703fa80be764f29ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:39 +0000
Subject: [PATCH 38/58] fix: after a database error the automatic whitelist
 kept its MySQL connection, and the locks it holds

---
 oa/plugins/awl.py | 59 +++++++++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/oa/plugins/awl.py b/oa/plugins/awl.py
index 6f92a79..3e238ac 100644
--- a/oa/plugins/awl.py
+++ b/oa/plugins/awl.py
@@ -167,29 +167,31 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
                                passwd=self.engine["password"],
                                db=self.engine["db_name"],
                                )
-        cursor = conn.cursor()
-        cursor.execute("SELECT * FROM awl WHERE username=%s AND email=%s AND "
-                       "signedby=%s AND ip=%s",
-                       (self.ctxt.username, address, signed_by, ip))
-        result = cursor.fetchall()
-        if result:
-            result = result[0]
-        else:
-            # Take over an entry without an address.
-            result = cursor.execute(
-                "UPDATE awl SET ip=%s WHERE username=%s AND email=%s AND "
-                "signedby=%s AND ip=%s",
-                (ip, self.ctxt.username, address, signed_by, "none"))
-            conn.commit()
-        if not result:
-            result = cursor.execute(
-                "INSERT IGNORE INTO awl (username, email, ip, count, "
-                "totscore, signedby) VALUES (%s, %s, %s, %s, %s, %s) ",
-                (self.ctxt.username, address, ip, 0, 0, signed_by))
-            conn.commit()
-
-        cursor.close()
-        conn.close()
+        try:
+            cursor = conn.cursor()
+            cursor.execute("SELECT * FROM awl WHERE username=%s AND "
+                           "email=%s AND signedby=%s AND ip=%s",
+                           (self.ctxt.username, address, signed_by, ip))
+            result = cursor.fetchall()
+            if result:
+                result = result[0]
+            else:
+                # Take over an entry without an address.
+                result = cursor.execute(
+                    "UPDATE awl SET ip=%s WHERE username=%s AND email=%s AND "
+                    "signedby=%s AND ip=%s",
+                    (ip, self.ctxt.username, address, signed_by, "none"))
+                conn.commit()
+            if not result:
+                result = cursor.execute(
+                    "INSERT IGNORE INTO awl (username, email, ip, count, "
+                    "totscore, signedby) VALUES (%s, %s, %s, %s, %s, %s) ",
+                    (self.ctxt.username, address, ip, 0, 0, signed_by))
+                conn.commit()
+
+            cursor.close()
+        finally:
+            conn.close()
         return result
 
     def get_sqlalch_entry(self, address, ip, signed_by):
@@ -289,6 +291,7 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
         else:
             awl_key_ip = "none"
         key = (self.ctxt.username, addr, signed_by, awl_key_ip)
+        conn = None
         try:
             conn = pymysql.connect(host=self.engine["hostname"], port=3306,
                                    user=self.engine["user"],
@@ -304,6 +307,8 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
 
         except pymysql.Error:
             self.ctxt.log.error("DB connection failed")
+            if conn is not None:
+                conn.close()
             return
 
         try:
@@ -338,12 +343,12 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
                 "UPDATE awl SET count=count+1, totscore=totscore+%s WHERE "
                 "username=%s AND email=%s AND signedby=%s AND ip=%s",
                 (score,) + key)
+            conn.commit()
+            cursor.close()
         except pymysql.Error:
             return False
-
-        conn.commit()
-        cursor.close()
-        conn.close()
+        finally:
+            conn.close()
 
     def check_from_in_auto_whitelist(self, msg, target=None):
         """Adjust the message score according to the
-- 
2.43.0


From 712418b53d6c6d248bc806c0c56bcfddfb0c2c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:00 +0000
Subject: [PATCH 39/58] fix: two workers relearning or forgetting one message
 at the same time took its counts away twice

---
 oa/db/bayes/mysql.py      | 8 ++++----
 oa/db/bayes/sqlalchemy.py | 8 ++++----
 oa/plugins/bayes.py       | 2 +-
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/oa/db/bayes/mysql.py b/oa/db/bayes/mysql.py
index a72e6fe..715de7e 100644
--- a/oa/db/bayes/mysql.py
+++ b/oa/db/bayes/mysql.py
@@ -64,16 +64,16 @@ class Store(object):
         cursor.close()
         return result[0] if result else None
 
-    def seen_delete(self, msgid):
+    def seen_delete(self, msgid, flag):
         """Forget the message, along with any changes of the counts made
         meanwhile."""
         cursor = self.conn.cursor()
         deleted = cursor.execute(
-            "DELETE FROM bayes_seen WHERE msgid = %s",
-            (msgid,)
+            "DELETE FROM bayes_seen WHERE msgid = %s AND flag = %s",
+            (msgid, flag)
         )
         if not deleted:
-            # Someone else was first to forget it.
+            # Someone else was first to forget it, or to relearn it.
             self.conn.rollback()
         self.conn.commit()
         cursor.close()
diff --git a/oa/db/bayes/sqlalchemy.py b/oa/db/bayes/sqlalchemy.py
index 7853aef..c548ae6 100644
--- a/oa/db/bayes/sqlalchemy.py
+++ b/oa/db/bayes/sqlalchemy.py
@@ -138,15 +138,15 @@ class Store(object):
             {'msgid': msgid}).fetchone()
         return seen[0] if seen else None
 
-    def seen_delete(self, msgid):
+    def seen_delete(self, msgid, flag):
         """Forget the message, along with any changes of the counts made
         meanwhile."""
         deleted = self.conn.execute(
-            "DELETE FROM bayes_seen WHERE msgid = :msgid",
-            {"msgid": msgid}
+            "DELETE FROM bayes_seen WHERE msgid = :msgid AND flag = :flag",
+            {"msgid": msgid, "flag": flag}
         )
         if not deleted.rowcount:
-            # Someone else was first to forget it.
+            # Someone else was first to forget it, or to relearn it.
             self.conn.rollback()
         self.conn.commit()
 
diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index 2239b7b..0a22bd6 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -735,7 +735,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
             self.store.nspam_nham_change(0, -1)
             self.store.multi_tok_count_change(0, -1, tokens, msg.receive_date)
         # XXX check
-        self.store.seen_delete(msgid)
+        self.store.seen_delete(msgid, seen)
         self.store.cleanup()
         return True
 
-- 
2.43.0


From f1b78e0a14ef953ac834b2fee5d6e9a9346a8d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:53 +0000
Subject: [PATCH 40/58] fix: automatic learning undid what the user had taught
 about a message

---
 oa/plugins/auto_learn_threshold.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/oa/plugins/auto_learn_threshold.py b/oa/plugins/auto_learn_threshold.py
index c1d43b4..f707bc7 100644
--- a/oa/plugins/auto_learn_threshold.py
+++ b/oa/plugins/auto_learn_threshold.py
@@ -170,7 +170,12 @@ class AutoLearnThreshold(oa.plugins.base.BasePlugin):
                    if msg.rules_checked.get(name)}
         self.prepare_learning_metadata(msg, tests=matched)
         if self.should_learn(msg) and bayes is not None:
-            if self.get_local(msg, "learner_thinks_spam"):
-                bayes.plugin_report(msg)
-            elif self.get_local(msg, "learner_thinks_ham"):
-                bayes.plugin_revoke(msg)
+            # What the user has learnt this message as stands.
+            relearn, bayes.learn_no_relearn = bayes.learn_no_relearn, True
+            try:
+                if self.get_local(msg, "learner_thinks_spam"):
+                    bayes.plugin_report(msg)
+                elif self.get_local(msg, "learner_thinks_ham"):
+                    bayes.plugin_revoke(msg)
+            finally:
+                bayes.learn_no_relearn = relearn
-- 
2.43.0


From 17f421aa1ab0a561be1a66113d08845b362f6377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:29 +0000
Subject: [PATCH 41/58] fix: a disabled Razor was still told about reported and
 revoked messages

---
 oa/plugins/razor2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oa/plugins/razor2.py b/oa/plugins/razor2.py
index 70bbaf2..eec6a32 100644
--- a/oa/plugins/razor2.py
+++ b/oa/plugins/razor2.py
@@ -107,10 +107,14 @@ class Razor2Plugin(oa.plugins.base.BasePlugin):
 
     def plugin_report(self, msg):
         """Report the message to razor server as spam."""
+        if not self["use_razor2"]:
+            return
 
         self.launch_subprocess(msg, "razor-report")
 
     def plugin_revoke(self, msg):
         """Report the message to razor server as ham."""
+        if not self["use_razor2"]:
+            return
 
         self.launch_subprocess(msg, "razor-revoke")
-- 
2.43.0


From e29b216f8677c1ce79a1ce026048134de1a296d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:39 +0000
Subject: [PATCH 42/58] fix: the daemon learnt and reported messages for its
 clients without --allow-tell

---
 oa/server.py   | 9 +++++++++
 scripts/oad.py | 1 +
 2 files changed, 10 insertions(+)

diff --git a/oa/server.py b/oa/server.py
index 3d8e590..87b2be5 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -49,6 +49,13 @@ class RequestHandler(spoon.server.TCPGulp):
                           (oa.__version__, line))
             self.wfile.write(error_line.encode("utf8"))
             return
+        if (command_class is oa.protocol.tell.TellCommand and
+                not self.server.allow_tell):
+            error_line = ("SPAMD/%s 69 Service Unavailable: TELL commands "
+                          "are not enabled, set the --allow-tell switch.\r\n"
+                          % oa.__version__)
+            self.wfile.write(error_line.encode("utf8"))
+            return
         # Run the command handler
         command_class(self.rfile, self.wfile, self.server)
 
@@ -59,6 +66,8 @@ class Server(spoon.server.TCPSpoon):
     """
     server_logger = "oa-logger"
     handler_klass = RequestHandler
+    # Whether clients may have messages learned and reported.
+    allow_tell = True
 
     def __init__(self, address, sitepath, configpath, paranoid=False,
                  ignore_unknown=True):
diff --git a/scripts/oad.py b/scripts/oad.py
index 94c1fea..0f65164 100755
--- a/scripts/oad.py
+++ b/scripts/oad.py
@@ -45,6 +45,7 @@ def run_daemon(args):
             address, args.sitepath, args.configpath, paranoid=args.paranoid,
             ignore_unknown=not args.show_unknown
         )
+    server.allow_tell = args.allow_tell
     try:
         if args.daemonize:
             # Only now is it sure that this process is the one that serves.
-- 
2.43.0


From cb68ff1a95a85b7df3f6a58384beb7b101246dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:36 +0000
Subject: [PATCH 43/58] fix: the scores listed with the matched rules were all
 1

---
 oa/rules/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index b9407b4..590f6b4 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -89,7 +89,7 @@ class RuleSet(object):
                 data["TESTS"] = ",".join(matched_rules)
 
         if "TESTSSCORES" in self.tags:
-            matched_rules = ["%s=%s" % (name, int(result))
+            matched_rules = ["%s=%s" % (name, self.get_rule(name).score)
                              for name, result in msg.rules_checked.items()
                              if result]
             if not matched_rules:
-- 
2.43.0


From 4b53f1de6a8bb7d98bd884c2abf7cfc84b3dc00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:19 +0000
Subject: [PATCH 44/58] fix: uri_detail rules ignored their score, description,
 priority and flags

---
 oa/plugins/uri_detail.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/uri_detail.py b/oa/plugins/uri_detail.py
index 5d530c1..f4b816b 100644
--- a/oa/plugins/uri_detail.py
+++ b/oa/plugins/uri_detail.py
@@ -11,6 +11,7 @@ except ImportError:
 
 import oa.regex
 import oa.rules.uri
+import oa.rules.base
 import oa.plugins.base
 import oa.html_parser
 
@@ -23,8 +24,10 @@ class URIDetailRule(oa.rules.uri.URIRule):
     """
     _rule_type = "uri_detail"
 
-    def __init__(self, name, pattern, score=None, desc=None):
-        super(URIDetailRule, self).__init__(name, pattern, score, desc)
+    def __init__(self, name, pattern, score=None, desc=None, priority=0,
+                 tflags=None):
+        super(URIDetailRule, self).__init__(name, pattern, score, desc,
+                                            priority, tflags)
 
     def check_single_item(self, value):
         """Checks one item agains the patterns, return True if all
@@ -59,7 +62,8 @@ class URIDetailRule(oa.rules.uri.URIRule):
         for key, oper, regex in checks:
             pyregex = oa.regex.perl2re(regex, oper)
             patterns.append((key, pyregex))
-        kwargs = {"pattern": patterns}
+        kwargs = oa.rules.base.BaseRule.get_rule_kwargs(data)
+        kwargs["pattern"] = patterns
         return kwargs
 
 
-- 
2.43.0


From 7ea09aa094eb3adcd28f2e32e8461fd033f9aec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:48 +0000
Subject: [PATCH 45/58] fix: a header value of several lines broke the
 rewritten message's header

---
 oa/rules/ruleset.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index 590f6b4..aa50bc9 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -179,7 +179,7 @@ class RuleSet(object):
             newmsg = self._get_bounce_message(msg)
         if self.conf["report_safe"] == 0:
             newmsg.add_header("X-Spam-Report",
-                              self.get_matched_report(msg))
+                              self._fold(self.get_matched_report(msg)))
         self._adjust_headers(msg, newmsg, self.header_mod["all"])
         if spam:
             self._adjust_headers(msg, newmsg, self.header_mod["spam"])
@@ -203,7 +203,16 @@ class RuleSet(object):
             if remove:
                 del newmsg[name]
             else:
-                newmsg.add_header(name, self._interpolate(value, msg))
+                newmsg.add_header(
+                    name, self._fold(self._interpolate(value, msg)))
+
+    @staticmethod
+    def _fold(value):
+        """Continue a header value of several lines on lines of the same
+        header, a line that starts in the first column would end it.
+        """
+        return "\n\t".join(line for line in value.splitlines()
+                            if line.strip())
 
     def _get_bounce_message(self, msg):
         """Create a bounce message from the original."""
-- 
2.43.0


From b8aadf6d7daf3ee142e602f8ff5496f08b591931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:13 +0000
Subject: [PATCH 46/58] fix: a short-circuit could not be switched off or
 changed by a later setting

---
 oa/plugins/short_circuit.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/short_circuit.py b/oa/plugins/short_circuit.py
index 970e8bb..42f315c 100644
--- a/oa/plugins/short_circuit.py
+++ b/oa/plugins/short_circuit.py
@@ -6,6 +6,7 @@ skipped, if that test is hit.
 from builtins import str
 
 import functools
+import collections
 
 import oa.errors
 import oa.plugins.base
@@ -88,6 +89,8 @@ class ShortCircuit(oa.plugins.base.BasePlugin):
         configuration and shortcircuit them.
         """
         super(ShortCircuit, self).finish_parsing_end(ruleset)
+        # The last setting for a rule counts.
+        stypes = collections.OrderedDict()
         for config in self["shortcircuit"]:
             try:
                 rule_name, stype = config.split(None, 1)
@@ -100,12 +103,15 @@ class ShortCircuit(oa.plugins.base.BasePlugin):
                 self.ctxt.err("Unknown rule: %s", rule_name)
                 continue
 
+            if stype not in ("on", "off", "ham", "spam"):
+                self.ctxt.err("Invalid short circuit type: %s" % stype)
+                continue
+            stypes[rule_name] = (rule, stype)
+
+        for rule, stype in stypes.values():
             # Nothing to do here.
             if stype == "off":
                 continue
-            if stype not in ("on", "ham", "spam"):
-                self.ctxt.err("Invalid short circuit type: %s" % stype)
-                continue
             self.ctxt.log.debug("Short-circuiting rule: %s (%s)",
                                 rule.name, stype)
             new_method = self.get_wrapped_method(rule, stype)
-- 
2.43.0


From 13ab16af84105dc084eb7666431b0586015b1544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:45 +0000
Subject: [PATCH 47/58] fix: the command line tool died on a file that is not
 UTF-8 and changed the line breaks of the others

---
 scripts/match.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/match.py b/scripts/match.py
index 9aaaada..420de79 100755
--- a/scripts/match.py
+++ b/scripts/match.py
@@ -30,6 +30,8 @@ class MessageList(argparse.FileType):
                 path = os.path.join(string, x)
                 msgf = super(MessageList, self).__call__(path)
                 yield msgf
+        elif string == "-":
+            yield get_binary_stdin()
         else:
             yield super(MessageList, self).__call__(string)
 
@@ -97,7 +99,7 @@ def parse_arguments(args):
     parser.add_argument("-R", "--report-only", action="store_true",
                         default=False, help="Only print the report instead of "
                                             "the adjusted message.")
-    parser.add_argument("messages", type=MessageList(), nargs="*",
+    parser.add_argument("messages", type=MessageList("rb"), nargs="*",
                         metavar="path", help="Paths to messages or "
                                              "directories containing messages",
                         default=[[get_binary_stdin()]])
-- 
2.43.0


From 0f14a2a33e7eced0930a8fd482b9dc473fb9ae3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:48 +0000
Subject: [PATCH 48/58] fix: the command line tool counted directories instead
 of messages

---
 scripts/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/match.py b/scripts/match.py
index 420de79..507039f 100755
--- a/scripts/match.py
+++ b/scripts/match.py
@@ -173,7 +173,7 @@ def main():
                 print(ruleset.get_adjusted_message(msg))
                 if options.test_mode:
                     print(ruleset.get_report(msg))
-        count += 1
+            count += 1
     if options.revoke or options.report:
         print("%s message(s) examined" % count)
 
-- 
2.43.0


From a401ff9c78684f2e1de3dc8c8098d379a0160fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:46 +0000
Subject: [PATCH 49/58] fix: checking all headers for illegal characters took
 From and Subject from the rules after it

---
 oa/plugins/header_eval.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index eb863c5..774b759 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -157,16 +157,9 @@ class HeaderEval(oa.plugins.base.BasePlugin):
                                   "invalid option: %s", count)
             return False
         if header == 'ALL':
-            raw_headers = msg.raw_headers
-            key_headers = []
-            for keys in raw_headers.keys():
-                key_headers.append(keys)
-            for key in key_headers:
-                if key.lower() in ("subject", "from"):
-                    try:
-                        del raw_headers[key]
-                    except KeyError:
-                        pass
+            raw_headers = dict(
+                (key, value) for key, value in msg.raw_headers.items()
+                if key.lower() not in ("subject", "from"))
         else:
             raw_headers = {header: msg.get_raw_header(header)}
 
-- 
2.43.0


From 6fe8bd23b1e3b4bbbb4e3fb1010ae82ba0db1139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:59 +0000
Subject: [PATCH 50/58] fix: without lazy mode the relay countries replaced the
 message's own header of that name

---
 oa/plugins/relay_country.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oa/plugins/relay_country.py b/oa/plugins/relay_country.py
index 7928091..2597e27 100644
--- a/oa/plugins/relay_country.py
+++ b/oa/plugins/relay_country.py
@@ -85,6 +85,9 @@ class RelayCountryPlugin(oa.plugins.base.BasePlugin):
             result.append(str(country))
         if result:
             result = " ".join(result)
+            # Decode the header the message may have itself first, otherwise
+            # it's hidden by the new one when decoded headers are kept.
+            msg.get_decoded_header("X-Relay-Countries")
             msg.headers["X-Relay-Countries"].append(result)
             self.ctxt.log.debug("X-Relay-Countries: '%s'", result)
             msg.plugin_tags["RELAYCOUNTRY"] = result
-- 
2.43.0


From 314f10cefec334768e6e5d216b72f0280c2254c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:05 +0000
Subject: [PATCH 51/58] fix: without lazy mode the originating IP headers were
 added to the message's Received headers

---
 oa/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index fa163ac..36a5380 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -471,7 +471,7 @@ class Message(oa.context.MessageContext):
         self.text = " ".join(body)
         self.raw_text = "\n".join(raw_body)
 
-        received_headers = self.get_decoded_header("Received")
+        received_headers = list(self.get_decoded_header("Received"))
         for header in self.ctxt.conf["originating_ip_headers"]:
             headers = ["X-ORIGINATING-IP: %s" % x
                        for x in self.get_decoded_header(header)]
-- 
2.43.0


From 5df278c913046f8accf240c5c088b1289d459eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:44 +0000
Subject: [PATCH 52/58] fix: close the session when the whitelist cannot be
 read

---
 oa/plugins/awl.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/oa/plugins/awl.py b/oa/plugins/awl.py
index 3e238ac..6656a5b 100644
--- a/oa/plugins/awl.py
+++ b/oa/plugins/awl.py
@@ -196,20 +196,21 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
 
     def get_sqlalch_entry(self, address, ip, signed_by):
         session = self.get_session()
-        result = session.query(AWL).filter(
-                AWL.username == self.ctxt.username,
-                AWL.email == address,
-                AWL.signedby == signed_by,
-                AWL.ip == ip).first()
-
-        if not result:
+        try:
             result = session.query(AWL).filter(
                     AWL.username == self.ctxt.username,
                     AWL.email == address,
                     AWL.signedby == signed_by,
-                    AWL.ip == "none").first()
+                    AWL.ip == ip).first()
 
-        session.close()
+            if not result:
+                result = session.query(AWL).filter(
+                        AWL.username == self.ctxt.username,
+                        AWL.email == address,
+                        AWL.signedby == signed_by,
+                        AWL.ip == "none").first()
+        finally:
+            session.close()
 
         if not result:
             result = AWL()
-- 
2.43.0


From 74ab027c3f90765b2696d2bcdf34d67bb0930a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:24 +0000
Subject: [PATCH 53/58] fix: close the connection to the relay when a SpamCop
 report fails

---
 oa/plugins/spam_cop.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/oa/plugins/spam_cop.py b/oa/plugins/spam_cop.py
index ef6bec4..d984b70 100644
--- a/oa/plugins/spam_cop.py
+++ b/oa/plugins/spam_cop.py
@@ -78,10 +78,13 @@ class SpamCopPlugin(oa.plugins.base.BasePlugin):
                 # smtplib would only accept ASCII text.
                 message = re.sub("\r\n|\r|\n", "\r\n", message)
                 message = message.encode("utf8")
-            smtp_obj.connect(mx_domain, 587)
-            smtp_obj.helo(mx_domain.split('.')[1])
-            smtp_obj.sendmail(sender, receiver, message)
-            smtp_obj.quit()
+            try:
+                smtp_obj.connect(mx_domain, 587)
+                smtp_obj.helo(mx_domain.split('.')[1])
+                smtp_obj.sendmail(sender, receiver, message)
+                smtp_obj.quit()
+            finally:
+                smtp_obj.close()
         except BaseException:
             self.ctxt.log.warning("SpamCop report failed.")
             return False
-- 
2.43.0


From e0ae5f0816a8f884f3fc29e097f9f815d5c619a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:30 +0000
Subject: [PATCH 54/58] fix: a header that cannot be decoded left the whole
 message without a verdict

---
 oa/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index 36a5380..a780a27 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -200,7 +200,7 @@ class Message(oa.context.MessageContext):
         try:
             decoded_header = email.header.decode_header(header)
         except (ValueError, email.header.HeaderParseError):
-            return
+            return ""
 
         for value, encoding in decoded_header:
             if encoding:
-- 
2.43.0


From ef759048b104fd5d8ed5c3fef246f90d163abdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:30 +0000
Subject: [PATCH 55/58] fix: a Received header with an invalid IP address left
 the whole message without a verdict

---
 oa/received_parser.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/oa/received_parser.py b/oa/received_parser.py
index 1f4b26c..b1440d3 100644
--- a/oa/received_parser.py
+++ b/oa/received_parser.py
@@ -10,7 +10,10 @@ It extracts the following metadata:
 :auth
 """
 
+from builtins import str
+
 import re
+import ipaddress
 from oa.regex import Regex
 
 LOCALHOST = Regex(r"""
@@ -542,6 +545,12 @@ class ReceivedParser(object):
             clean_ip = item.strip("[ ]();\n")
             clean_ip = clean_ip.lower().replace('ipv6:','')
             clean_ip = clean_ip.lower().replace('::ffff:','')
+            try:
+                ipaddress.ip_address(str(clean_ip))
+            except ValueError:
+                # It only looks like an IP address.
+                no_ips -= 1
+                continue
             if IP_PRIVATE.search(clean_ip):
                 count += 1
                 private_ips.append(clean_ip)
-- 
2.43.0


From a249d5d52aa6b37411885d69c1f85dfbd3ff2420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:30 +0000
Subject: [PATCH 56/58] fix: HTML the parser gives up on left the whole message
 without a verdict

---
 oa/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index a780a27..398956d 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -185,7 +185,7 @@ class Message(oa.context.MessageContext):
         stripper = _ParseHTML(data)
         try:
             stripper.feed(payload)
-        except (UnicodeDecodeError, html.parser.HTMLParseError):
+        except Exception:
             # We can't parse the HTML, so just strip it.  This is still
             # better than including generic HTML/CSS text.
             pass
-- 
2.43.0


From 048f22a50329b953a08f2eef36120e45cc565600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:30 +0000
Subject: [PATCH 57/58] fix: a Received header without an IP address kept the
 RBL and country checks from running

---
 oa/message.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oa/message.py b/oa/message.py
index 398956d..2c70a4e 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -249,6 +249,8 @@ class Message(oa.context.MessageContext):
     def get_header_ips(self):
         values = list()
         for header in self.received_headers:
+            if not header["ip"]:
+                continue
             values.append(ipaddress.ip_address(header["ip"]))
         return values
 
-- 
2.43.0


From 188dd106556d0ebd22b975a56d8bbff384cd8900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:30 +0000
Subject: [PATCH 58/58] fix: an address without a domain kept the free mail
 rules from running

---
 oa/plugins/free_mail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/free_mail.py b/oa/plugins/free_mail.py
index a19f232..855291d 100644
--- a/oa/plugins/free_mail.py
+++ b/oa/plugins/free_mail.py
@@ -364,7 +364,7 @@ class FreeMail(oa.plugins.base.BasePlugin):
         """Check if the email is in freemail_domains list
         If the email is whitelisted than we skip the check
         """
-        if not email:
+        if not email or '@' not in email:
             return False
         email_domain = email.rsplit('@')[1]
         try:
-- 
2.43.0

