From 3c454dbc630b20a0f4f6bc911b7a33c6c44e35fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:11 +0000
Subject: [PATCH 01/56] fix: advanced scores are selected even if the first one
 is zero

---
 oa/rules/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/rules/base.py b/oa/rules/base.py
index a36bdc2..b03c309 100644
--- a/oa/rules/base.py
+++ b/oa/rules/base.py
@@ -73,7 +73,7 @@ class BaseRule(object):
                 self.score = 0
                 return
 
-        if len(self._scores) != 4 or self.score == 0:
+        if len(self._scores) != 4:
             # Nothing to do
             return
         flags = ruleset.conf["use_bayes"], ruleset.conf["use_network"]
-- 
2.43.0


From 214da3f8fb19a3107ea37ecede44d78e03311879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:11 +0000
Subject: [PATCH 02/56] fix: mimeheader rules keep their configured priority

---
 oa/rules/header.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oa/rules/header.py b/oa/rules/header.py
index 38c9a94..0a0c5c1 100644
--- a/oa/rules/header.py
+++ b/oa/rules/header.py
@@ -46,7 +46,9 @@ class _PatternMimeHeaderRule(MimeHeaderRule):
     def __init__(self, name, pattern=None, header_name=None, score=None,
                  desc=None, priority=0, tflags=None):
         super(_PatternMimeHeaderRule, self).__init__(name, score=score,
-                                                     desc=desc, tflags=tflags)
+                                                     desc=desc,
+                                                     priority=priority,
+                                                     tflags=tflags)
         self._header_name = header_name
         self._pattern = pattern
 
-- 
2.43.0


From 7ed30104ce5c9726894c5e060ec0b825655a64e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:11 +0000
Subject: [PATCH 03/56] fix: uri_detail rules keep their score, description,
 priority and flags

---
 oa/plugins/uri_detail.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/uri_detail.py b/oa/plugins/uri_detail.py
index 5d530c1..931e895 100644
--- a/oa/plugins/uri_detail.py
+++ b/oa/plugins/uri_detail.py
@@ -11,6 +11,7 @@ except ImportError:
 
 import oa.regex
 import oa.rules.uri
+import oa.rules.base
 import oa.plugins.base
 import oa.html_parser
 
@@ -23,8 +24,11 @@ class URIDetailRule(oa.rules.uri.URIRule):
     """
     _rule_type = "uri_detail"
 
-    def __init__(self, name, pattern, score=None, desc=None):
-        super(URIDetailRule, self).__init__(name, pattern, score, desc)
+    def __init__(self, name, pattern, score=None, desc=None, priority=0,
+                 tflags=None):
+        super(URIDetailRule, self).__init__(name, pattern, score=score,
+                                            desc=desc, priority=priority,
+                                            tflags=tflags)
 
     def check_single_item(self, value):
         """Checks one item agains the patterns, return True if all
@@ -59,7 +63,8 @@ class URIDetailRule(oa.rules.uri.URIRule):
         for key, oper, regex in checks:
             pyregex = oa.regex.perl2re(regex, oper)
             patterns.append((key, pyregex))
-        kwargs = {"pattern": patterns}
+        kwargs = oa.rules.base.BaseRule.get_rule_kwargs(data)
+        kwargs["pattern"] = patterns
         return kwargs
 
 
-- 
2.43.0


From 1465459226d8183abddde7d30a753bb74a609d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:11 +0000
Subject: [PATCH 04/56] fix: a short-circuited rule is described like any other
 matching rule

---
 oa/plugins/short_circuit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oa/plugins/short_circuit.py b/oa/plugins/short_circuit.py
index a427a81..e72a95f 100644
--- a/oa/plugins/short_circuit.py
+++ b/oa/plugins/short_circuit.py
@@ -36,6 +36,11 @@ class ShortCircuitRule(object):
         msg.plugin_tags["SC"] = "%s (%s)" % (self.rule.name, self.stype)
         # Add the score of the current rule (this will
         # be skipped in the ruleset otherwise
+        if isinstance(result, str):
+            msg.rules_descriptions[self.rule.name] = result
+            result = True
+        else:
+            msg.rules_descriptions[self.rule.name] = self.rule.description
         msg.rules_checked[self.rule.name] = result
         msg.score += self.rule.score
 
-- 
2.43.0


From 6b70c343080d2709991e67ad5100edab61456e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:19 +0000
Subject: [PATCH 05/56] fix: the first match operator of a header rule is its
 operator

---
 oa/rules/header.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/oa/rules/header.py b/oa/rules/header.py
index 0a0c5c1..4f3290f 100644
--- a/oa/rules/header.py
+++ b/oa/rules/header.py
@@ -5,6 +5,17 @@ import oa.errors
 import oa.rules.base
 
 
+_MATCH_OP_P = oa.regex.Regex(r"=~|!~")
+
+
+def _get_match_op(value):
+    """Get the first match operator in the value of a rule, the rest of the
+    value (the regex) might also contain the text of an operator.
+    """
+    match = _MATCH_OP_P.search(value)
+    return match.group() if match else None
+
+
 class MimeHeaderRule(oa.rules.base.BaseRule):
     """Abstract class for all MIME header rules."""
     _rule_type = "BODY: "
@@ -18,11 +29,8 @@ class MimeHeaderRule(oa.rules.base.BaseRule):
         kwargs = cls.get_rule_kwargs(data)
         value = data["value"].strip()
 
-        if "=~" in value:
-            match_op = "=~"
-        elif "!~" in value:
-            match_op = "!~"
-        else:
+        match_op = _get_match_op(value)
+        if match_op is None:
             raise oa.errors.InvalidRule(name, "Missing match operator")
 
         header_name, pattern = value.split(match_op, 1)
@@ -84,12 +92,7 @@ class HeaderRule(oa.rules.base.BaseRule):
         kwargs = cls.get_rule_kwargs(data)
         value = data["value"]
 
-        match_op = None
-        if "=~" in value:
-            match_op = "=~"
-        elif "!~" in value:
-            match_op = "!~"
-
+        match_op = _get_match_op(value)
         if match_op is not None:
             header_name, pattern = value.split(match_op, 1)
             header_name = header_name.strip()
-- 
2.43.0


From 8df130a61b570f6c6c9783e3668671a80e8fed52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:19 +0000
Subject: [PATCH 06/56] fix: only remove the prefix of exists: and eval: rules

---
 oa/rules/eval_.py  | 5 ++++-
 oa/rules/header.py | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/oa/rules/eval_.py b/oa/rules/eval_.py
index 0bba136..999b4e2 100644
--- a/oa/rules/eval_.py
+++ b/oa/rules/eval_.py
@@ -79,7 +79,10 @@ class EvalRule(oa.rules.base.BaseRule):
     @staticmethod
     def get_rule_kwargs(data):
         kwargs = oa.rules.base.BaseRule.get_rule_kwargs(data)
-        kwargs["eval_rule"] = data['value'].lstrip('eval:').strip()
+        value = data['value'].strip()
+        if value.startswith('eval:'):
+            value = value[len('eval:'):]
+        kwargs["eval_rule"] = value.strip()
         if "target" in data:
             kwargs["target"] = data['target']
         return kwargs
diff --git a/oa/rules/header.py b/oa/rules/header.py
index 4f3290f..b9c99e7 100644
--- a/oa/rules/header.py
+++ b/oa/rules/header.py
@@ -117,7 +117,7 @@ class HeaderRule(oa.rules.base.BaseRule):
                 kwargs["header_name"] = header_name.strip()
                 return _PatternHeaderRule(name, **kwargs)
         elif value.startswith("exists:"):
-            kwargs["header_name"] = value.lstrip("exists:").strip()
+            kwargs["header_name"] = value[len("exists:"):].strip()
             return _ExistsHeaderRule(name, **kwargs)
 
 
-- 
2.43.0


From ff3574a6e64ffcbc14dd10958766a1e37bed0b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:19 +0000
Subject: [PATCH 07/56] fix: header rules that are not understood are invalid

---
 oa/rules/header.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oa/rules/header.py b/oa/rules/header.py
index b9c99e7..e102c6a 100644
--- a/oa/rules/header.py
+++ b/oa/rules/header.py
@@ -41,6 +41,7 @@ class MimeHeaderRule(oa.rules.base.BaseRule):
             kwargs["header_name"] = header_name.strip()
             if mod == "raw":
                 return _PatternMimeRawHeaderRule(name, **kwargs)
+            raise oa.errors.InvalidRule(name, "Invalid modifier: %s" % mod)
         else:
             kwargs["header_name"] = header_name.strip()
             return _PatternMimeHeaderRule(name, **kwargs)
@@ -113,12 +114,15 @@ class HeaderRule(oa.rules.base.BaseRule):
                     return _PatternAddrHeaderRule(name, **kwargs)
                 if mod == "name":
                     return _PatternNameHeaderRule(name, **kwargs)
+                raise oa.errors.InvalidRule(name,
+                                            "Invalid modifier: %s" % mod)
             else:
                 kwargs["header_name"] = header_name.strip()
                 return _PatternHeaderRule(name, **kwargs)
         elif value.startswith("exists:"):
             kwargs["header_name"] = value[len("exists:"):].strip()
             return _ExistsHeaderRule(name, **kwargs)
+        raise oa.errors.InvalidRule(name, "Missing match operator")
 
 
 class _ExistsHeaderRule(HeaderRule):
-- 
2.43.0


From 511e07578bd74f712d1c070d59e983c31aa0b1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:19 +0000
Subject: [PATCH 08/56] fix: reject empty expressions and unknown match
 operators

---
 oa/regex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/regex.py b/oa/regex.py
index f7de36b..4b18fee 100644
--- a/oa/regex.py
+++ b/oa/regex.py
@@ -85,7 +85,7 @@ def perl2re(pattern, match_op="=~"):
     """Convert a Perl type regex to a Python one."""
     # We don't need to consider the pre-flags
     pattern = pattern.strip().lstrip("mgs")
-    delim = pattern[0]
+    delim = pattern[:1]
     try:
         rev_delim = DELIMS[delim]
     except KeyError:
@@ -109,6 +109,7 @@ def perl2re(pattern, match_op="=~"):
         elif match_op == "!~": return NotMatchPattern(re.compile(pattern, flags))
     except re.error as e:
         raise oa.errors.InvalidRegex("Invalid regex %r: %s" % (pattern, e))
+    raise oa.errors.InvalidRegex("Invalid match operator %r" % match_op)
 
 
 class Regex(object):
-- 
2.43.0


From af4077fa8eeff03ad30c59a4f97eba1929283909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:15 +0000
Subject: [PATCH 09/56] fix: an invalid option value only costs its own line

---
 oa/rules/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oa/rules/parser.py b/oa/rules/parser.py
index 1742080..e411ff4 100644
--- a/oa/rules/parser.py
+++ b/oa/rules/parser.py
@@ -133,6 +133,11 @@ class PADParser(object):
                 except oa.errors.PluginLoadError as e:
                     warnings.warn(str(e))
                     self.ctxt.log.warn("%s", e)
+                except oa.errors.PluginError as e:
+                    # An option has been given an invalid value.
+                    self.ctxt.err("%s:%s %s", filename, line_no + 1, e)
+                    if self.ctxt.paranoid:
+                        raise
 
     def _handle_line(self, filename, line, line_no, _depth=0):
         """Handles a single line."""
-- 
2.43.0


From 25b28360466f6156847d8885f44cf4660e26c254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:15 +0000
Subject: [PATCH 10/56] fix: scores, eval arguments and meta expressions that
 are invalid make the rule invalid

---
 oa/rules/base.py  | 3 +++
 oa/rules/eval_.py | 2 +-
 oa/rules/meta.py  | 5 ++++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/oa/rules/base.py b/oa/rules/base.py
index b03c309..e393103 100644
--- a/oa/rules/base.py
+++ b/oa/rules/base.py
@@ -113,6 +113,9 @@ class BaseRule(object):
             kwargs["score"] = list(map(float, data["score"].strip().split()))
         except KeyError:
             pass
+        except ValueError:
+            raise oa.errors.InvalidRule("score", "Invalid score: %s" %
+                                        data["score"])
         try:
             kwargs["desc"] = data["describe"].strip()
         except KeyError:
diff --git a/oa/rules/eval_.py b/oa/rules/eval_.py
index 999b4e2..c9921de 100644
--- a/oa/rules/eval_.py
+++ b/oa/rules/eval_.py
@@ -43,7 +43,7 @@ class EvalRule(oa.rules.base.BaseRule):
         except (TypeError, ValueError, AttributeError):
             raise oa.errors.InvalidRule(self.name, "Invalid eval rule: %s" %
                                         eval_rule)
-        except SyntaxError:
+        except Exception:
             err_msg = "Invalid arguments for eval rule: %s" % eval_rule
             raise oa.errors.InvalidRule(self.name, err_msg)
 
diff --git a/oa/rules/meta.py b/oa/rules/meta.py
index d9e85ba..ed375a0 100644
--- a/oa/rules/meta.py
+++ b/oa/rules/meta.py
@@ -52,7 +52,10 @@ class MetaRule(oa.rules.base.BaseRule):
         rule_match = "match = lambda msg: %s" % rule
         # XXX we should check for potentially unsafe code or run it in
         # XXX RestrictedPython.
-        _code_obj = compile(rule_match, "<meta>", "exec")
+        try:
+            _code_obj = compile(rule_match, "<meta>", "exec")
+        except (SyntaxError, ValueError) as e:
+            raise oa.errors.InvalidRule(self.name, "Invalid meta rule: %s" % e)
 
         oa.rules.base.BaseRule.postparsing(self, ruleset)
         for subrule_name in subrules:
-- 
2.43.0


From 064b1fb3bfe373b13fe8cd3f7cfec1f785995f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:04 +0000
Subject: [PATCH 11/56] fix: network lists belong to one configuration

---
 oa/networks.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/oa/networks.py b/oa/networks.py
index 3e3f121..af3e2f4 100644
--- a/oa/networks.py
+++ b/oa/networks.py
@@ -72,12 +72,11 @@ class MSANetworks(NetworkListBase):
 
 
 class NetworkList(object):
-    internal = InternalNetworks()
-    trusted = TrustedNetworks()
-    msa = MSANetworks()
-
     def __init__(self):
         self.log = logging.getLogger("oa-logger")
+        self.internal = InternalNetworks()
+        self.trusted = TrustedNetworks()
+        self.msa = MSANetworks()
 
     @property
     def configured(self):
-- 
2.43.0


From 382e0a909e3ff08f0b4b1d53e162bd8e64ae8434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:37 +0000
Subject: [PATCH 12/56] fix: an invalid network is ignored, not fatal

---
 oa/networks.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/oa/networks.py b/oa/networks.py
index af3e2f4..692b2a7 100644
--- a/oa/networks.py
+++ b/oa/networks.py
@@ -83,7 +83,10 @@ class NetworkList(object):
         return self.internal.configured or self.trusted.configured
 
     def _extract_network(self, network_str):
-        excluded, network, mask = _NETWORK_RE.match(network_str).groups()
+        match = _NETWORK_RE.match(network_str)
+        if match is None:
+            return None, None
+        excluded, network, mask = match.groups()
         clean_value = _format_network_str(network, mask)
         try:
             network = ipaddress.ip_network(clean_value)
@@ -93,6 +96,9 @@ class NetworkList(object):
 
     def add_trusted_network(self, network_str):
         excluded, network = self._extract_network(network_str)
+        if network is None:
+            self.log.warning("Ignoring invalid network: %s", network_str)
+            return
         self.trusted.configured = True
         self.trusted.add(network, not excluded)
         if not self.internal.configured:
@@ -100,6 +106,9 @@ class NetworkList(object):
 
     def add_internal_network(self, network_str):
         excluded, network = self._extract_network(network_str)
+        if network is None:
+            self.log.warning("Ignoring invalid network: %s", network_str)
+            return
         if not self.internal.configured and self.internal:
             self.internal.clear()
         self.internal.configured = True
@@ -108,5 +117,8 @@ class NetworkList(object):
 
     def add_msa_network(self, network_str):
         excluded, network = self._extract_network(network_str)
+        if network is None:
+            self.log.warning("Ignoring invalid network: %s", network_str)
+            return
         self.internal.configured = True
         self.msa.add(network, not excluded)
-- 
2.43.0


From cd542e2acee287339479e539ae3411d94d94c485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:37 +0000
Subject: [PATCH 13/56] fix: a plugin that cannot be found is reported as a
 plugin load error

---
 oa/context.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index 1f53d5f..c74d8fc 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -176,20 +176,28 @@ class GlobalContext(_Context):
 
         if path is None:
             # The plugin should be sys.path already
+            if "." not in name:
+                raise oa.errors.PluginLoadError("No module specified for "
+                                                "plugin %s" % name)
             module_name, class_name = name.rsplit(".", 1)
             try:
                 module = importlib.import_module(module_name)
             except ImportError as e:
                 raise oa.errors.PluginLoadError("Unable to load %s: %s" %
                                                 (module_name, e))
-        elif sys.version_info[0] == 3 and sys.version_info[1] > 2:
-            # For Python 3.3+
-            module = self._load_module_py3(path)
         else:
-            # For Python 2 and < 3.3
-            module = self._load_module_py2(path)
-
-        plugin_class = getattr(module, class_name)
+            try:
+                if sys.version_info[0] == 3 and sys.version_info[1] > 2:
+                    # For Python 3.3+
+                    module = self._load_module_py3(path)
+                else:
+                    # For Python 2 and < 3.3
+                    module = self._load_module_py2(path)
+            except (IOError, OSError, ImportError, SyntaxError) as e:
+                raise oa.errors.PluginLoadError("Unable to load %s from %s: "
+                                                "%s" % (name, path, e))
+
+        plugin_class = getattr(module, class_name, None)
         if plugin_class is None:
             raise oa.errors.PluginLoadError("Missing plugin %s in %s" %
                                             (class_name, path))
@@ -214,7 +222,7 @@ class GlobalContext(_Context):
             self.log.debug("Registering eval rule: %s.%s", class_name, rule)
             if rule in self.eval_rules:
                 self.log.warning("Redefining eval rule: %s", rule)
-            eval_rule = getattr(plugin, rule)
+            eval_rule = getattr(plugin, rule, None)
             if eval_rule is None:
                 raise oa.errors.PluginLoadError("Undefined eval rule %s in "
                                                  "%s" % (rule, class_name))
-- 
2.43.0


From b25bf40f2fe03845ce946dc39f6538b98e4c7301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:37 +0000
Subject: [PATCH 14/56] fix: invalid header and DNS restriction lines are
 skipped

---
 oa/rules/ruleset.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index fbf6ca5..22463fb 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -154,12 +154,15 @@ class RuleSet(object):
         instead of added.
         """
         self.ctxt.log.debug("Adding header rule: %s (%s)", value, remove)
-        if not remove:
-            msg_status, header_name, header_value = value.split(None, 2)
-            header_value = self._convert_tags(header_value)
-        else:
-            msg_status, header_name = value.split(None, 1)
-            header_value = None
+        try:
+            if not remove:
+                msg_status, header_name, header_value = value.split(None, 2)
+                header_value = self._convert_tags(header_value)
+            else:
+                msg_status, header_name = value.split(None, 1)
+                header_value = None
+        except ValueError:
+            raise oa.errors.InvalidRule("add_header", value)
 
         msg_status = msg_status.lower()
         if msg_status not in self.header_mod:
@@ -300,10 +303,14 @@ class RuleSet(object):
             self._convert_tags(value)
             for value in self.conf["unsafe_report"]
         )
-        for value in self.conf["add_header"]:
-            self._add_header_rule(value, False)
-        for value in self.conf["remove_header"]:
-            self._add_header_rule(value, True)
+        for option, remove in (("add_header", False), ("remove_header", True)):
+            for value in self.conf[option]:
+                try:
+                    self._add_header_rule(value, remove)
+                except oa.errors.InvalidRule as e:
+                    self.ctxt.err(e)
+                    if self.ctxt.paranoid:
+                        raise
 
         for value in self.conf['dns_query_restriction']:
             try:
@@ -311,6 +318,7 @@ class RuleSet(object):
             except ValueError:
                 self.ctxt.log.info(
                     "Invalid value for dns_query_restriction: %s", value)
+                continue
 
             if option not in ("allow", "deny"):
                 self.ctxt.log.info(
-- 
2.43.0


From 2f50b9cf26fc2688014c31703adfb964fbe778b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:37 +0000
Subject: [PATCH 15/56] fix: lang lines are skipped when the locale is not
 known

---
 oa/rules/parser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/oa/rules/parser.py b/oa/rules/parser.py
index e411ff4..7fe474e 100644
--- a/oa/rules/parser.py
+++ b/oa/rules/parser.py
@@ -200,9 +200,12 @@ class PADParser(object):
                 value = value.split()
 
             if rtype == "lang":
-                locale.setlocale(locale.LC_ALL, '')
-                locale_language = locale.getlocale(locale.LC_MESSAGES)[0]
-                if not locale_language.startswith(name):
+                try:
+                    locale.setlocale(locale.LC_ALL, '')
+                    locale_language = locale.getlocale(locale.LC_MESSAGES)[0]
+                except (locale.Error, ValueError):
+                    locale_language = None
+                if not (locale_language or "").startswith(name):
                     self.ctxt.log.debug("Lang argument does not"
                                         "correspond with locales")
                     return
-- 
2.43.0


From 4a81718bf8a5880604e40378a826d049cdb52c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:14 +0000
Subject: [PATCH 16/56] fix: replace_rules ignores rules that are not defined

---
 oa/plugins/replace_tags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/replace_tags.py b/oa/plugins/replace_tags.py
index 9746ed2..f010087 100644
--- a/oa/plugins/replace_tags.py
+++ b/oa/plugins/replace_tags.py
@@ -120,10 +120,10 @@ class ReplaceTags(oa.plugins.base.BasePlugin):
         for rule_name in self["replace_rules"]:
             try:
                 rule_results = results[rule_name]
+                rule_value = rule_results["value"]
             except KeyError:
                 self.ctxt.err("No such rule defined: %s", rule_name)
                 continue
-            rule_value = rule_results["value"]
             new_rule_value = self.replace_tags(rule_value)
             self.ctxt.log.debug("Replaced %r with %r in %s", rule_value,
                                 new_rule_value, rule_name)
-- 
2.43.0


From 841364278b7dbe3deeed12fe6065b372995f09f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:01 +0000
Subject: [PATCH 17/56] fix: blocklist rules with invalid arguments do not stop
 the loading

---
 oa/plugins/dns_eval.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/dns_eval.py b/oa/plugins/dns_eval.py
index df445ca..3c27620 100644
--- a/oa/plugins/dns_eval.py
+++ b/oa/plugins/dns_eval.py
@@ -57,8 +57,13 @@ class DNSEval(oa.plugins.base.BasePlugin):
                     continue
                 # This eval rule actually check one rbl servers
                 # and adds a zone id.
-                zone_id = rule.eval_args[0].rsplit("-")[0].strip()
-                rbl_server = rule.eval_args[1]
+                try:
+                    zone_id = rule.eval_args[0].rsplit("-")[0].strip()
+                    rbl_server = rule.eval_args[1]
+                except (IndexError, AttributeError):
+                    self.ctxt.err("Invalid arguments for %s in rule %s",
+                                  name, rule.name)
+                    continue
                 zones[zone_id] = rbl_server
         self["zones"] = zones
 
-- 
2.43.0


From 84c4157843d2a1afcb91f22a43eb5e4ec4fa9a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:08 +0000
Subject: [PATCH 18/56] fix: uri_detail honours pattern flags

---
 oa/plugins/uri_detail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/uri_detail.py b/oa/plugins/uri_detail.py
index 931e895..f737cc8 100644
--- a/oa/plugins/uri_detail.py
+++ b/oa/plugins/uri_detail.py
@@ -16,7 +16,7 @@ import oa.plugins.base
 import oa.html_parser
 
 URI_DRREG = oa.regex.Regex(
-        r"(?P<key>\w*)\s+(?P<op>[\=\!\~]{1,2})\s+(?P<regex>/.*?/)")
+        r"(?P<key>\w*)\s+(?P<op>[\=\!\~]{1,2})\s+(?P<regex>/.*?/\w*)")
 
 
 class URIDetailRule(oa.rules.uri.URIRule):
-- 
2.43.0


From 3b76486d6455932581dd9c2e504115742a77b8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:08 +0000
Subject: [PATCH 19/56] fix: expressions with excessive repeat counts are
 invalid

---
 oa/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/regex.py b/oa/regex.py
index 4b18fee..1112469 100644
--- a/oa/regex.py
+++ b/oa/regex.py
@@ -107,7 +107,7 @@ def perl2re(pattern, match_op="=~"):
         if match_op == "=~":
             return MatchPattern(re.compile(pattern, flags))
         elif match_op == "!~": return NotMatchPattern(re.compile(pattern, flags))
-    except re.error as e:
+    except (re.error, OverflowError) as e:
         raise oa.errors.InvalidRegex("Invalid regex %r: %s" % (pattern, e))
     raise oa.errors.InvalidRegex("Invalid match operator %r" % match_op)
 
-- 
2.43.0


From 2d3f8c6ee1f8d845b4920b56a02b93d36e70451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:54 +0000
Subject: [PATCH 20/56] fix: list options start from a copy of their default

---
 oa/conf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oa/conf.py b/oa/conf.py
index f6b4daf..308a3c3 100644
--- a/oa/conf.py
+++ b/oa/conf.py
@@ -38,6 +38,9 @@ class Conf(object):
         self._plugin_name = self.__class__.__name__
         if self.options:
             for key, (dummy, value) in self.options.items():
+                if isinstance(value, list):
+                    # The defaults are shared by all the contexts.
+                    value = list(value)
                 self.set_global(key, value)
 
     def __setitem__(self, key, value):
-- 
2.43.0


From 205d928addaba7d99408517673d762a5481bb562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:54 +0000
Subject: [PATCH 21/56] fix: invalid subject whitelist expressions are ignored

---
 oa/plugins/whitelist_subject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/whitelist_subject.py b/oa/plugins/whitelist_subject.py
index dc9c149..e46eb22 100644
--- a/oa/plugins/whitelist_subject.py
+++ b/oa/plugins/whitelist_subject.py
@@ -28,7 +28,7 @@ class WhiteListSubjectPlugin(oa.plugins.base.BasePlugin):
         if key in self.options:
             try:
                 Regex(value.strip()).compile()
-            except re.error:
+            except (re.error, OverflowError):
                 return
             self.set_append_option(key, value)
             self.inhibit_further_callbacks()
-- 
2.43.0


From 552aa4e5645d3e2de3821817d0f093fcc008daf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:54 +0000
Subject: [PATCH 22/56] fix: Regex.subn

---
 oa/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/regex.py b/oa/regex.py
index 1112469..efc7754 100644
--- a/oa/regex.py
+++ b/oa/regex.py
@@ -141,7 +141,7 @@ class Regex(object):
         return self.compile().sub(repl, string, count)
 
     def subn(self, repl, string, count=0):
-        return self.compile().sub(repl, string, count)
+        return self.compile().subn(repl, string, count)
 
     def split(self, string, maxsplit=0):
         return self.compile().split(string, maxsplit)
-- 
2.43.0


From 68a35c5eccce7e0cbe19af8de30772da17172321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:39 +0000
Subject: [PATCH 23/56] fix: Content-length counts bytes

---
 oa/protocol/check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/protocol/check.py b/oa/protocol/check.py
index 1664266..3ddb3ba 100644
--- a/oa/protocol/check.py
+++ b/oa/protocol/check.py
@@ -20,7 +20,7 @@ class CheckCommand(oa.protocol.base.BaseProtocol):
         yield "Spam: %s ; %.1f / %s\r\n" % (spam, msg.score,
                                             self.ruleset.conf["required_score"])
         result = "".join(self.extra_details(msg, options))
-        yield "Content-length: %s\r\n\r\n" % len(result)
+        yield "Content-length: %s\r\n\r\n" % len(result.encode("utf8"))
         yield result
 
     def extra_details(self, msg, options):
-- 
2.43.0


From b6c76863abdc72f0d14cb47559e07dff54791095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:39 +0000
Subject: [PATCH 24/56] fix: malformed request lines get an error reply,
 internal errors do not

---
 oa/server.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/oa/server.py b/oa/server.py
index b7b4419..586ef7c 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -38,15 +38,17 @@ class RequestHandler(spoon.server.TCPGulp):
         """Get the command from the client and pass it to the
         correct handler.
         """
-        line = self.rfile.readline().decode("utf8").strip()
-        command, proto_version = line.split()
+        line = self.rfile.readline().decode("utf8", "replace").strip()
         try:
-            # Run the command handler
-            COMMANDS[command.upper()](self.rfile, self.wfile, self.server)
-        except KeyError:
+            command, proto_version = line.split()
+            handler = COMMANDS[command.upper()]
+        except (ValueError, KeyError):
             error_line = ("SPAMD/%s 76 Bad header line: %s\r\n" %
                           (oa.__version__, line))
             self.wfile.write(error_line.encode("utf8"))
+            return
+        # Run the command handler
+        handler(self.rfile, self.wfile, self.server)
 
 
 class Server(spoon.server.TCPSpoon):
-- 
2.43.0


From 5acbb207e6e14edb03dfef3da6d8978d0bd0282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:39 +0000
Subject: [PATCH 25/56] fix: headers that are not UTF-8 do not stop the handler

---
 oa/protocol/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/protocol/base.py b/oa/protocol/base.py
index 78a5b04..2aca467 100644
--- a/oa/protocol/base.py
+++ b/oa/protocol/base.py
@@ -33,7 +33,7 @@ class BaseProtocol(object):
         """Get any options added to the command."""
         options = dict()
         while True:
-            line = self.rfile.readline().decode("utf8").strip()
+            line = self.rfile.readline().decode("utf8", "replace").strip()
             if not line:
                 break
             self.log.debug("Got line: %s", line)
-- 
2.43.0


From 74fcdb2a4d6b36353153da3d5f670a9b17d231d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:39 +0000
Subject: [PATCH 26/56] fix: the message is decoded in one piece after it is
 decompressed

---
 oa/protocol/base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/oa/protocol/base.py b/oa/protocol/base.py
index 2aca467..e0730ab 100644
--- a/oa/protocol/base.py
+++ b/oa/protocol/base.py
@@ -67,12 +67,16 @@ class BaseProtocol(object):
                                         self.chunk_size))
             if not chunk:
                 break
-            message_chunks.append(chunk.decode("utf8"))
+            message_chunks.append(chunk)
             if content_length is not None:
                 content_length -= len(chunk)
+        message = b"".join(message_chunks)
         if options.get('compress') == "zlib":
-            return zlib.decompress("".join(message_chunks))
-        return "".join(message_chunks)
+            try:
+                message = zlib.decompress(message)
+            except zlib.error:
+                raise oa.errors.InvalidOption("Invalid compressed message")
+        return message.decode("utf8", "ignore")
 
     def get_and_handle(self):
         """Get data from the client and call the handle method."""
-- 
2.43.0


From 196aa739a1d9d424bb1f9520d46a5ec64e5676de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:39 +0000
Subject: [PATCH 27/56] fix: user rule sets of the previous configuration do
 not survive a reload

---
 oa/server.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/oa/server.py b/oa/server.py
index 586ef7c..a42aa0d 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -72,15 +72,18 @@ class Server(spoon.server.TCPSpoon):
 
     def load_config(self):
         """Reads the configuration files and reloads the ruleset."""
-        self._user_rulesets.clear()
         parser = oa.rules.parser.parse_pad_rules(
             oa.config.get_config_files(self.configpath, self.sitepath),
             paranoid=self.paranoid, ignore_unknown=self.ignore_unknown
         )
-        self._ruleset = parser.get_ruleset()
+        ruleset = parser.get_ruleset()
+        self._ruleset = ruleset
         # Store a copy of the parser results to generate user
         # settings later
         self._parser_results = parser.results
+        # Requests that are still being handled keep the previous
+        # dictionary, so nothing built from the old results survives.
+        self._user_rulesets = {}
 
     def get_user_ruleset(self, user=None):
         """Get the corresponding ruleset for this user. If the
@@ -92,8 +95,9 @@ class Server(spoon.server.TCPSpoon):
         :return: a `oa.rules.ruleset.RuleSet` object
         """
         if user is not None and self._ruleset.conf["allow_user_rules"]:
-            if user in self._user_rulesets:
-                return self._user_rulesets[user]
+            user_rulesets = self._user_rulesets
+            if user in user_rulesets:
+                return user_rulesets[user]
 
             path = oa.config.get_userprefs_path(user)
             if not os.path.exists(path):
@@ -110,7 +114,7 @@ class Server(spoon.server.TCPSpoon):
             ruleset = parser.get_ruleset()
             ruleset.ctxt.username = user
             # Cache the result
-            self._user_rulesets[user] = ruleset
+            user_rulesets[user] = ruleset
             return ruleset
         return self._ruleset
 
-- 
2.43.0


From 2b052948720e87a14241cd7bb9712205192d96d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:39 +0000
Subject: [PATCH 28/56] fix: user names cannot select files outside of the
 user's own preferences

---
 oa/config.py | 7 ++++++-
 oa/server.py | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/oa/config.py b/oa/config.py
index 479a0ea..08e728e 100644
--- a/oa/config.py
+++ b/oa/config.py
@@ -121,5 +121,10 @@ def get_config_files(config_path, siteconfig_path, userpref_path=None):
 
 
 def get_userprefs_path(user):
-    """Get the path to the user preference location."""
+    """Get the path to the user preference location.
+
+    Returns None if this is not the name of a user.
+    """
+    if user in ("", os.curdir, os.pardir) or os.path.basename(user) != user:
+        return None
     return os.path.join("/home", user, ".spamassassin", "user_prefs")
diff --git a/oa/server.py b/oa/server.py
index a42aa0d..a42ddfd 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -100,6 +100,9 @@ class Server(spoon.server.TCPSpoon):
                 return user_rulesets[user]
 
             path = oa.config.get_userprefs_path(user)
+            if path is None:
+                self.log.warn("Invalid user name: %r", user)
+                return self._ruleset
             if not os.path.exists(path):
                 self.log.warn("No user preference file: %s", path)
                 return self._ruleset
-- 
2.43.0


From 34f2333ac0b55c8328a5b2cdc1c30459ff09502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:39 +0000
Subject: [PATCH 29/56] fix: TELL understands targets separated by spaces

---
 oa/protocol/tell.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/oa/protocol/tell.py b/oa/protocol/tell.py
index fb24035..648fa43 100644
--- a/oa/protocol/tell.py
+++ b/oa/protocol/tell.py
@@ -12,17 +12,22 @@ class TellCommand(oa.protocol.base.BaseProtocol):
     has_options = True
     has_message = True
 
+    @staticmethod
+    def get_targets(value):
+        """Get the names in a comma separated list."""
+        return [target.strip().lower() for target in value.split(",")]
+
     def handle(self, msg, options):
         spam = options.get("message-class", "spam").lower() == "spam"
         response = []
         if "set" in options:
-            targets = options.get("set").split(",")
+            targets = self.get_targets(options.get("set"))
             local = "local" in targets
             remote = "remote" in targets
             self.ruleset.ctxt.hook_report(msg, spam, local, remote)
             response.append("DidSet: %s\r\n" % options.get("set"))
         if "remove" in options:
-            targets = options.get("remove").split(",")
+            targets = self.get_targets(options.get("remove"))
             local = "local" in targets
             remote = "remote" in targets
             self.ruleset.ctxt.hook_revoke(msg, spam, local, remote)
-- 
2.43.0


From bfe4d1be68e059c59c7e9c2d409fa2fc72ebecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:39 +0000
Subject: [PATCH 30/56] fix: messages set as ham are not reported as spam

---
 oa/context.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index c74d8fc..cd7fd52 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -363,9 +363,12 @@ class GlobalContext(_Context):
 
     @_callback_chain
     def hook_report(self, msg, spam=True, local=True, remote=True):
-        """Hook when the message should be reported as spam."""
+        """Hook when the message should be reported."""
         for plugin in self.plugins.values():
-            plugin.plugin_report(msg)
+            if spam:
+                plugin.plugin_report(msg)
+            else:
+                plugin.plugin_revoke(msg)
 
     @_callback_chain
     def hook_revoke(self, msg, spam=False, local=True, remote=True):
-- 
2.43.0


From 119123097b8d59ae9cb369f5b9389a7657bad9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:06 +0000
Subject: [PATCH 31/56] fix: user rule sets start from the plugins and options
 of the site

---
 oa/rules/parser.py | 18 ++++++++++++++++++
 oa/server.py       |  7 +++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/oa/rules/parser.py b/oa/rules/parser.py
index 7fe474e..5233d6d 100644
--- a/oa/rules/parser.py
+++ b/oa/rules/parser.py
@@ -104,6 +104,8 @@ class PADParser(object):
                                              lazy_mode=lazy_mode)
         # XXX This could be a default OrderedDict
         self.results = collections.OrderedDict()
+        # Everything else that was configured: plugins and options
+        self.options = []
         self.ruleset = oa.rules.ruleset.RuleSet(self.ctxt)
         self._ignore = False
 
@@ -189,6 +191,7 @@ class PADParser(object):
         elif rtype == "ifplugin":
             self._handle_ifplugin(value)
         elif rtype == "loadplugin":
+            self.options.append((rtype, value))
             self._handle_loadplugin(value)
         elif rtype in KNOWN_2_RTYPE or rtype in self.ctxt.cmds:
             try:
@@ -217,6 +220,7 @@ class PADParser(object):
                         raise oa.errors.InvalidSyntax(filename, line_no, line,
                                                       "Missing argument")
 
+                    self.options.append((rtype, value))
                     if not self.ctxt.hook_parse_config(rtype, value):
                         self.ctxt.err("%s:%s Ignoring unknown"
                                       "configuration line: %s",
@@ -251,6 +255,7 @@ class PADParser(object):
                 self.results[name][rtype] = value
 
         else:
+            self.options.append((rtype, value))
             if not self.ctxt.hook_parse_config(rtype, value):
                 self.ctxt.err("%s:%s Ignoring unknown configuration line: %s",
                               filename, line_no, line)
@@ -291,6 +296,19 @@ class PADParser(object):
         else:
             self.ctxt.log.warn("Plugin not available: %s", value)
 
+    def add_options(self, options):
+        """Configure the plugins and options another parser has found."""
+        for rtype, value in options:
+            self.options.append((rtype, value))
+            try:
+                if rtype == "loadplugin":
+                    self._handle_loadplugin(value)
+                else:
+                    self.ctxt.hook_parse_config(rtype, value)
+            except oa.errors.PluginError as e:
+                # Already reported by the parser that found it.
+                self.ctxt.log.debug("%s", e)
+
     def get_ruleset(self):
         """Create and return the corresponding ruleset for the parsed files."""
         self.ctxt.hook_parsing_start(self.results)
diff --git a/oa/server.py b/oa/server.py
index a42ddfd..3263df8 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -65,6 +65,7 @@ class Server(spoon.server.TCPSpoon):
         self._ruleset = None
         self._user_rulesets = {}
         self._parser_results = None
+        self._parser_options = None
         self.sitepath = sitepath
         self.configpath = configpath
 
@@ -81,6 +82,7 @@ class Server(spoon.server.TCPSpoon):
         # Store a copy of the parser results to generate user
         # settings later
         self._parser_results = parser.results
+        self._parser_options = parser.options
         # Requests that are still being handled keep the previous
         # dictionary, so nothing built from the old results survives.
         self._user_rulesets = {}
@@ -110,8 +112,9 @@ class Server(spoon.server.TCPSpoon):
                 self._ruleset.ctxt.paranoid,
                 self._ruleset.ctxt.ignore_unknown
             )
-            # Use the already parsed results and pass the user
-            # ones.
+            # Use the already parsed options and results and pass the
+            # user ones.
+            parser.add_options(self._parser_options)
             parser.results = copy.deepcopy(self._parser_results)
             parser.parse_file(path)
             ruleset = parser.get_ruleset()
-- 
2.43.0


From 6cb75c05e47e02bf9a6c210d6ab9233cbc975906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:33 +0000
Subject: [PATCH 32/56] fix: a conditional block ends with its file

---
 oa/rules/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oa/rules/parser.py b/oa/rules/parser.py
index 5233d6d..8fc752e 100644
--- a/oa/rules/parser.py
+++ b/oa/rules/parser.py
@@ -127,6 +127,8 @@ class PADParser(object):
         if not os.path.isfile(filename):
             self.ctxt.log.warn("Ignoring %s, not a file", filename)
             return
+        # Conditional blocks don't extend over the files.
+        self._ignore = False
         with open(filename, "rb") as rulef:
             for line_no, line in enumerate(rulef):
                 try:
@@ -140,6 +142,7 @@ class PADParser(object):
                     self.ctxt.err("%s:%s %s", filename, line_no + 1, e)
                     if self.ctxt.paranoid:
                         raise
+        self._ignore = False
 
     def _handle_line(self, filename, line, line_no, _depth=0):
         """Handles a single line."""
-- 
2.43.0


From 29b2e3ffdf32e69a3da675b1f63a13f5bb823d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:41 +0000
Subject: [PATCH 33/56] fix: the external-to-internal handover is the nearest
 external relay

---
 oa/message.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oa/message.py b/oa/message.py
index 1ff8278..fa02aff 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -419,9 +419,9 @@ class Message(oa.context.MessageContext):
         }
         if self.external_relays:
             relays_tags.update({
-                "LASTEXTERNALIP": self.external_relays[-1]['ip'],
-                "LASTEXTERNALRDNS": self.external_relays[-1]['rdns'],
-                "LASTEXTERNALHELO": self.external_relays[-1]['helo']
+                "LASTEXTERNALIP": self.external_relays[0]['ip'],
+                "LASTEXTERNALRDNS": self.external_relays[0]['rdns'],
+                "LASTEXTERNALHELO": self.external_relays[0]['helo']
             })
 
         self._create_plugin_tags(relays_tags)
-- 
2.43.0


From a1231a5806c01c2636bc25cb50132f427f4a4dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:40 +0000
Subject: [PATCH 34/56] fix: restrictions apply to every spelling of a name,
 and resolver errors give no result

---
 oa/dns_interface.py | 9 +++++----
 oa/rules/ruleset.py | 3 ++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/oa/dns_interface.py b/oa/dns_interface.py
index 5ebca20..b75dd9e 100644
--- a/oa/dns_interface.py
+++ b/oa/dns_interface.py
@@ -152,6 +152,8 @@ class DNSInterface(object):
         if not self.query_restrictions:
             return False
 
+        # Names are case insensitive and may be given as absolute names.
+        qname = qname.lower().rstrip(".")
         while True:
             if qname in self.query_restrictions:
                 self.log.debug(self.query_restrictions)
@@ -182,14 +184,13 @@ class DNSInterface(object):
 
     def _query(self, qname, qtype):
         self.log.debug("Querying %s %s", qname, qtype)
-        if qtype == "PTR":
-            qname = dns.reversename.from_address(qname)
         try:
+            if qtype == "PTR":
+                qname = dns.reversename.from_address(qname)
             result = self._resolver.query(qname, qtype)
             self.log.debug("Got %s for %s %s", result, qname, qtype)
             return result
-        except (dns.resolver.NoAnswer, dns.resolver.NoNameservers,
-                dns.resolver.NXDOMAIN, dns.exception.Timeout) as e:
+        except dns.exception.DNSException as e:
             self.log.warn("Failed to resolve %s (%s): %s", qname, qtype, e)
             return []
         except (ValueError, IndexError, struct.error) as e:
diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index 22463fb..bb7811a 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -314,7 +314,7 @@ class RuleSet(object):
 
         for value in self.conf['dns_query_restriction']:
             try:
-                option, qname = value.split(" ", 1)
+                option, qname = value.split()
             except ValueError:
                 self.ctxt.log.info(
                     "Invalid value for dns_query_restriction: %s", value)
@@ -324,6 +324,7 @@ class RuleSet(object):
                 self.ctxt.log.info(
                     "Invalid value for dns_query_restriction %s", value)
                 continue
+            qname = qname.lower().rstrip(".")
             self.ctxt.dns.query_restrictions[qname] = option == "deny"
         dns_options = {"edns": "edns=4096",
                        "rotate": "norotate",
-- 
2.43.0


From c91d868084a3c1d9c05312d840524b20a8cd3447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:48 +0000
Subject: [PATCH 35/56] fix: the DNS options of the configuration reach the
 resolver

---
 oa/context.py       |  5 +++++
 oa/dns_interface.py | 20 +++++++++++++++++++-
 oa/rules/ruleset.py | 19 ++++++-------------
 3 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index cd7fd52..a8b521c 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -306,6 +306,11 @@ class GlobalContext(_Context):
 
         self.dns.lifetime = self.conf["default_dns_lifetime"]
         self.dns.timeout = self.conf["default_dns_timeout"]
+        try:
+            self.dns.test_interval = self.conf["dns_test_interval"]
+        except ValueError:
+            self.err("Invalid dns_test_interval: %s",
+                     self.conf["dns_test_interval"])
         cport = None
         nameservers = []
         for dns_server in self.conf["dns_server"]:
diff --git a/oa/dns_interface.py b/oa/dns_interface.py
index b75dd9e..414aba0 100644
--- a/oa/dns_interface.py
+++ b/oa/dns_interface.py
@@ -65,6 +65,22 @@ class DNSInterface(object):
     def port(self, port):
         self._resolver.port = port
 
+    @property
+    def lifetime(self):
+        return self._resolver.lifetime
+
+    @lifetime.setter
+    def lifetime(self, lifetime):
+        self._resolver.lifetime = lifetime
+
+    @property
+    def timeout(self):
+        return self._resolver.timeout
+
+    @timeout.setter
+    def timeout(self, timeout):
+        self._resolver.timeout = timeout
+
     @property
     def rotate_nameservers(self):
         return self._resolver.rotate
@@ -82,7 +98,9 @@ class DNSInterface(object):
         if value.startswith("no"):
             self._resolver.payload = 512
         else:
-            self._resolver.payload = int(value.split("=", 1)[1])
+            size = value.partition("=")[2]
+            if size.isdecimal():
+                self._resolver.payload = int(size)
 
     @property
     def test_interval(self):
diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index bb7811a..2c7d5b4 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -4,7 +4,6 @@ from builtins import dict
 from builtins import object
 from builtins import str
 
-import re
 import socket
 import email.utils
 import collections
@@ -20,14 +19,6 @@ import oa.regex
 
 _TAG_RE = oa.regex.Regex(r"(_([A-Z_]*?)_)")
 
-_DNS_OPTIONS_RE = oa.regex.Regex(r"""
-[
-(?P<edns>(no)?edns0?=\d*)?,?
-(?P<rotate>(no)?rotate)?,?
-(?P<dns0x20>(no)?dns0x20)?,?
-]
-""", re.I | re.X | re.M)
-
 
 class RuleSet(object):
     """A set of rules used to match against a message."""
@@ -329,10 +320,12 @@ class RuleSet(object):
         dns_options = {"edns": "edns=4096",
                        "rotate": "norotate",
                        "dns0x20": "nodns0x20"}
-        dns_options_match = _DNS_OPTIONS_RE.match(self.conf['dns_options'])
-        if dns_options_match:
-            dns_options.update(dns_options_match.groupdict())
-        self.ctxt.dns.rotate = dns_options['rotate']
+        options = self.conf['dns_options'].lower().replace(",", " ")
+        for option in options.split():
+            for name in dns_options:
+                if option.startswith((name, "no" + name)):
+                    dns_options[name] = option
+        self.ctxt.dns.rotate_nameservers = dns_options['rotate']
         self.ctxt.dns.edns = dns_options['edns']
 
     def call_postparsing(self):
-- 
2.43.0


From 56f9600ec9aec42a8c3fe48b6fcde90dacac3577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:48 +0000
Subject: [PATCH 36/56] fix: no SPF lookups when DNS is not available

---
 oa/plugins/spf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oa/plugins/spf.py b/oa/plugins/spf.py
index 391bfc1..34f8f5f 100644
--- a/oa/plugins/spf.py
+++ b/oa/plugins/spf.py
@@ -248,6 +248,9 @@ class SpfPlugin(oa.plugins.base.BasePlugin):
         timeout = self.get_global("spf_timeout")
         if not msg.external_relays:
             return
+        if not self.ctxt.dns.available:
+            self.ctxt.log.debug("SPF::Plugin DNS querying is not available")
+            return
         mx = msg.external_relays[0]['helo']
         ip = msg.external_relays[0]['ip']
 
-- 
2.43.0


From 1af8a5fea49d0b8420a07f9b99b8147de48a5f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:36 +0000
Subject: [PATCH 37/56] fix: messages never learned before get a seen entry,
 and forgetting removes it in all stores

---
 oa/db/bayes/mysql.py      | 10 +++++++---
 oa/db/bayes/sqlalchemy.py | 16 +++++++++++-----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/oa/db/bayes/mysql.py b/oa/db/bayes/mysql.py
index acd0324..9661b5a 100644
--- a/oa/db/bayes/mysql.py
+++ b/oa/db/bayes/mysql.py
@@ -57,23 +57,27 @@ class Store(object):
         cursor = self.conn.cursor()
         cursor.execute("SELECT flag FROM bayes_seen WHERE msgid=%s",
                        (msgid,))
-        result = cursor.fetchone()[0]
+        result = cursor.fetchone()
         cursor.close()
-        return result
+        return result[0] if result else None
 
     def seen_delete(self, msgid):
+        """Remove the "seen" flag of the specified message."""
         cursor = self.conn.cursor()
         cursor.execute(
             "DELETE FROM bayes_seen WHERE msgid = %s",
             (msgid,)
         )
+        self.conn.commit()
         cursor.close()
 
     def seen_put(self, msgid, flag):
         """Set the "seen" flag for the specified message."""
         cursor = self.conn.cursor()
+        cursor.execute("DELETE FROM bayes_seen WHERE msgid=%s", (msgid,))
         cursor.execute(
-            "UPDATE bayes_seen SET flag=%s WHERE msgid=%s", (flag, msgid)
+            "INSERT INTO bayes_seen (id, msgid, flag) VALUES (0, %s, %s)",
+            (msgid, flag)
         )
         self.conn.commit()
         cursor.close()
diff --git a/oa/db/bayes/sqlalchemy.py b/oa/db/bayes/sqlalchemy.py
index 567a655..4bc6181 100644
--- a/oa/db/bayes/sqlalchemy.py
+++ b/oa/db/bayes/sqlalchemy.py
@@ -131,21 +131,27 @@ class Store(object):
 
     def seen_get(self, msgid):
         """Get the "seen" flag for the specified message."""
-        return self.conn.execute(
+        result = self.conn.execute(
             "SELECT flag FROM bayes_seen WHERE msgid=:msgid",
-            {'msgid': msgid}).fetchone()[0]
+            {'msgid': msgid}).fetchone()
+        return result[0] if result else None
 
-    def seen_delete(self, id, msgid):
+    def seen_delete(self, msgid):
+        """Remove the "seen" flag of the specified message."""
         self.conn.execute(
             "DELETE FROM bayes_seen WHERE msgid = :msgid",
             {"msgid": msgid}
         )
+        self.conn.commit()
 
     def seen_put(self, msgid, flag):
         """Set the "seen" flag for the specified message."""
         self.conn.execute(
-            "UPDATE bayes_seen SET flag=:flag WHERE msgid=:msgid",
-            {"flag": flag, "msgid": msgid})
+            "DELETE FROM bayes_seen WHERE msgid=:msgid", {"msgid": msgid})
+        self.conn.execute(
+            "INSERT INTO bayes_seen (id, msgid, flag) "
+            "VALUES (0, :msgid, :flag)",
+            {"msgid": msgid, "flag": flag})
         self.conn.commit()
 
     def cleanup(self):
-- 
2.43.0


From 1ebbb946f18fca391cadce2723273e53feeaf68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:36 +0000
Subject: [PATCH 38/56] fix: learning and forgetting change the stored counts
 instead of replacing them

---
 oa/db/bayes/mysql.py      | 24 +++++++++++++++++-------
 oa/db/bayes/sqlalchemy.py | 39 +++++++++++++++++++++++++++------------
 oa/plugins/bayes.py       |  4 ++--
 3 files changed, 46 insertions(+), 21 deletions(-)

diff --git a/oa/db/bayes/mysql.py b/oa/db/bayes/mysql.py
index 9661b5a..d7abc01 100644
--- a/oa/db/bayes/mysql.py
+++ b/oa/db/bayes/mysql.py
@@ -94,24 +94,34 @@ class Store(object):
         )
         result = cursor.fetchone()
         cursor.close()
-        return result
+        return result or (0, 0)
 
     def nspam_nham_change(self, spam, ham):
-        """Set the spam and ham counts for the database."""
+        """Change the spam and ham counts for the database."""
         cursor = self.conn.cursor()
-        cursor.execute("UPDATE bayes_vars SET spam_count=%s, ham_count=%s",
-                       (spam, ham))
+        cursor.execute("UPDATE bayes_vars SET spam_count=spam_count+%s, "
+                       "ham_count=ham_count+%s", (spam, ham))
+        if not cursor.rowcount:
+            cursor.execute(
+                "INSERT INTO bayes_vars (username, spam_count, ham_count) "
+                "VALUES ('', %s, %s)", (spam, ham))
         self.conn.commit()
         cursor.close()
 
     def multi_tok_count_change(self, spam, ham, tokens, msgatime):
-        """Update the spam and ham counts, and access time for the specified tokens."""
+        """Change the spam and ham counts, and access time for the specified tokens."""
         cursor = self.conn.cursor()
         for token in tokens:
             cursor.execute(
                 "UPDATE bayes_token "
-                "SET spam_count=%s, ham_count=%s, atime=%s "
-                "WHERE token=%s", (spam, ham, msgatime, token))
+                "SET spam_count=spam_count+%s, ham_count=ham_count+%s, "
+                "atime=%s WHERE token=%s", (spam, ham, msgatime, token))
+            if not cursor.rowcount:
+                cursor.execute(
+                    "INSERT INTO bayes_token "
+                    "(id, token, spam_count, ham_count, atime) "
+                    "VALUES (0, %s, %s, %s, %s)",
+                    (token, spam, ham, msgatime))
         self.conn.commit()
         cursor.close()
 
diff --git a/oa/db/bayes/sqlalchemy.py b/oa/db/bayes/sqlalchemy.py
index 4bc6181..c5dcfad 100644
--- a/oa/db/bayes/sqlalchemy.py
+++ b/oa/db/bayes/sqlalchemy.py
@@ -162,29 +162,44 @@ class Store(object):
         """Get the spam and ham counts for the database."""
         return self.conn.execute(
             "SELECT spam_count, ham_count FROM bayes_vars LIMIT 1"
-        ).fetchone()
+        ).fetchone() or (0, 0)
 
     def nspam_nham_change(self, spam, ham):
-        """Set the spam and ham counts for the database."""
-        self.conn.execute(
+        """Change the spam and ham counts for the database."""
+        result = self.conn.execute(
             "UPDATE bayes_vars "
-            "SET spam_count=:spam_count, ham_count=:ham_count",
+            "SET spam_count=spam_count+:spam_count, "
+            "ham_count=ham_count+:ham_count",
             {'spam_count': spam, 'ham_count': ham}
         )
+        if not result.rowcount:
+            self.conn.execute(
+                "INSERT INTO bayes_vars (username, spam_count, ham_count) "
+                "VALUES ('', :spam_count, :ham_count)",
+                {'spam_count': spam, 'ham_count': ham}
+            )
         self.conn.commit()
 
     def multi_tok_count_change(self, spam, ham, tokens, msgatime):
-        """Update the spam and ham counts, and access time for the specified tokens."""
+        """Change the spam and ham counts, and access time for the specified tokens."""
         for token in tokens:
-            self.conn.execute(
+            values = {
+                'spam_count': spam, 'ham_count': ham,
+                'atime': msgatime, 'token': token
+            }
+            result = self.conn.execute(
                 "UPDATE bayes_token "
-                "SET spam_count=:spam_count, ham_count=:ham_count, "
-                "atime=:atime WHERE token=:token",
-                {
-                    'spam_count': spam, 'ham_count': ham,
-                    'atime': msgatime, 'token': token
-                }
+                "SET spam_count=spam_count+:spam_count, "
+                "ham_count=ham_count+:ham_count, "
+                "atime=:atime WHERE token=:token", values
             )
+            if not result.rowcount:
+                self.conn.execute(
+                    "INSERT INTO bayes_token "
+                    "(id, token, spam_count, ham_count, atime) "
+                    "VALUES (0, :token, :spam_count, :ham_count, :atime)",
+                    values
+                )
         self.conn.commit()
 
     def tok_touch_all(self, touch_tokens, msgatime):
diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index 65a1f6d..b38ec59 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -675,7 +675,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         # a safety measure.
         if msgatime - time.time() > 86400:
             msgatime = time.time()
-        tokens = self.tokenise(msg)
+        tokens = [token for token, _ in self.tokenise(msg)]
         # XXX SA puts this in a timer.
         if isspam:
             self.store.nspam_nham_change(1, 0)
@@ -723,7 +723,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
             self.ctxt.log.debug("bayes: forget: msgid %s not learnt, ignored",
                                 msgid)
             return False
-        tokens = self.tokenise(msg)
+        tokens = [token for token, _ in self.tokenise(msg)]
         if isspam:
             self.store.nspam_nham_change(-1, 0)
             self.store.multi_tok_count_change(-1, 0, tokens, msg.receive_date)
-- 
2.43.0


From bf159c21eb0d4a38ecb82bbd7b9e30b64e2ac88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:55 +0000
Subject: [PATCH 39/56] fix: the auto-whitelist in MySQL reads and changes only
 the entry of the sender

The statements had no WHERE clause (or an incomplete one), so one user's
history was read from and written to every row of the table; connections
and sessions were not closed when a statement failed.
---
 oa/plugins/awl.py | 134 ++++++++++++++++++++++++++++------------------
 1 file changed, 81 insertions(+), 53 deletions(-)

diff --git a/oa/plugins/awl.py b/oa/plugins/awl.py
index 008d3d8..f031c90 100644
--- a/oa/plugins/awl.py
+++ b/oa/plugins/awl.py
@@ -161,57 +161,66 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
 
 
     def get_mysql_entry(self, address, ip, signed_by):
-        conn = pymysql.connect(host=self.engine["hostname"], port=3306,
+        conn = self._mysql_connect()
+        try:
+            cursor = conn.cursor()
+            try:
+                return self._get_mysql_entry(conn, cursor, address, ip,
+                                             signed_by)
+            finally:
+                cursor.close()
+        finally:
+            conn.close()
+
+    def _mysql_connect(self):
+        return pymysql.connect(host=self.engine["hostname"], port=3306,
                                user=self.engine["user"],
                                passwd=self.engine["password"],
-                               db=self.engine["db_name"],
-                               )
-        cursor = conn.cursor()
+                               db=self.engine["db_name"])
+
+    def _get_mysql_entry(self, conn, cursor, address, ip, signed_by):
+        key = (self.ctxt.username, address, signed_by, ip)
         cursor.execute("SELECT * FROM awl WHERE username=%s AND email=%s AND "
-                       "signedby=%s AND ip=%s",
-                       (self.ctxt.username, address, signed_by, ip))
-        try:
-            result = cursor.fetchall()
-            if result:
-                result = result[0]
-        except pymysql.DatabaseError:
-            result = cursor.execute(
-                "SELECT * FROM awl WHERE username=%s AND email=%s AND "
-                "signedby=%s AND ip=%s",
-                (self.ctxt.username, address, signed_by, "none"))
-
-            if result:
-                result = cursor.execute(
-                    "UPDATE awl SET ip=%s", (ip))
+                       "signedby=%s AND ip=%s", key)
+        result = cursor.fetchone()
+        if not result and ip != "none":
+            # Take over the entry made when the address was not known.
+            if cursor.execute(
+                    "UPDATE awl SET ip=%s WHERE username=%s AND email=%s AND "
+                    "signedby=%s AND ip=%s",
+                    (ip, self.ctxt.username, address, signed_by, "none")):
                 conn.commit()
+                cursor.execute(
+                    "SELECT * FROM awl WHERE username=%s AND email=%s AND "
+                    "signedby=%s AND ip=%s", key)
+                result = cursor.fetchone()
         if not result:
-            result = cursor.execute(
-                "INSERT INTO awl VALUES (%s, %s, %s, %s, %s, %s) ",
+            cursor.execute(
+                "INSERT INTO awl (username, email, ip, count, totscore, "
+                "signedby) VALUES (%s, %s, %s, %s, %s, %s)",
                 (self.ctxt.username, address, ip, 0, 0, signed_by))
             conn.commit()
-
-        cursor.close()
-        conn.close()
         return result
 
     def get_sqlalch_entry(self, address, ip, signed_by):
         session = self.get_session()
-        result = session.query(AWL).filter(
-                AWL.username == self.ctxt.username,
-                AWL.email == address,
-                AWL.signedby == signed_by,
-                AWL.ip == ip).first()
-
-        if not result:
+        try:
             result = session.query(AWL).filter(
                     AWL.username == self.ctxt.username,
                     AWL.email == address,
                     AWL.signedby == signed_by,
-                    AWL.ip == "none").first()
-            if result:
-                result.ip = ip
-
-        session.close()
+                    AWL.ip == ip).first()
+
+            if not result:
+                result = session.query(AWL).filter(
+                        AWL.username == self.ctxt.username,
+                        AWL.email == address,
+                        AWL.signedby == signed_by,
+                        AWL.ip == "none").first()
+                if result:
+                    result.ip = ip
+        finally:
+            session.close()
 
         if not result:
             result = AWL()
@@ -255,25 +264,45 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
         entry.totscore += score
 
         session = self.get_session()
-        session.merge(entry)
-        session.commit()
-        session.close()
+        try:
+            session.merge(entry)
+            session.commit()
+        finally:
+            session.close()
 
     def plugin_tags_mysql(self, msg, origin_ip, addr, signed_by, score, factor):
+        awl_key_ip = self.ip_to_awl_key(origin_ip) if origin_ip else "none"
+        key = (self.ctxt.username, addr, signed_by, awl_key_ip)
+        try:
+            conn = self._mysql_connect()
+        except pymysql.Error:
+            self.ctxt.log.error("DB connection failed")
+            return
         try:
-            conn = pymysql.connect(host=self.engine["hostname"], port=3306,
-                                   user=self.engine["user"],
-                                   passwd=self.engine["password"],
-                                   db=self.engine["db_name"],
-                                   )
-
             cursor = conn.cursor()
-            cursor.execute("SELECT totscore, count FROM awl")
-            entry_totscore, entry_count = cursor.fetchall()[0]
-
+            try:
+                self._plugin_tags_mysql(conn, cursor, key, msg, origin_ip,
+                                        score, factor)
+            finally:
+                cursor.close()
+        finally:
+            conn.close()
+
+    def _plugin_tags_mysql(self, conn, cursor, key, msg, origin_ip, score,
+                           factor):
+        _, addr, signed_by, _ = key
+        try:
+            cursor.execute(
+                "SELECT totscore, count FROM awl WHERE username=%s AND "
+                "email=%s AND signedby=%s AND ip=%s", key)
+            row = cursor.fetchone()
         except pymysql.Error:
             self.ctxt.log.error("DB connection failed")
             return
+        if not row:
+            self.ctxt.log.error("auto-whitelist: no entry for %s", addr)
+            return
+        entry_totscore, entry_count = row
 
         try:
             mean = entry_totscore / entry_count
@@ -305,15 +334,14 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
         entry_totscore += score
 
         try:
-            result = cursor.execute(
-                "UPDATE awl SET count=%s, totscore=%s",
-                (entry_count, entry_totscore))
+            cursor.execute(
+                "UPDATE awl SET count=%s, totscore=%s WHERE username=%s AND "
+                "email=%s AND signedby=%s AND ip=%s",
+                (entry_count, entry_totscore) + key)
         except pymysql.Error:
             return False
 
         conn.commit()
-        cursor.close()
-        conn.close()
 
     def check_from_in_auto_whitelist(self, msg, target=None):
         """Adjust the message score according to the
-- 
2.43.0


From 223ab33e293c304b2e9426b31f3e39053dc41b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:55 +0000
Subject: [PATCH 40/56] fix: the Bayes database is untied when learning,
 forgetting or scanning fails

Tying again while tied also left the previous connection open, and a
failing scan left the plugin never untying the database.
---
 oa/db/bayes/mysql.py      |  2 ++
 oa/db/bayes/sqlalchemy.py |  2 ++
 oa/plugins/bayes.py       | 36 +++++++++++++++++++++---------------
 3 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/oa/db/bayes/mysql.py b/oa/db/bayes/mysql.py
index d7abc01..bab60cf 100644
--- a/oa/db/bayes/mysql.py
+++ b/oa/db/bayes/mysql.py
@@ -11,6 +11,7 @@ class Store(object):
         """Remove the connection to the database."""
         if self.conn:
             self.conn.close()
+        self.conn = None
 
     def tie_db_readonly(self):
         """Create a read-only connection to the database."""
@@ -22,6 +23,7 @@ class Store(object):
 
     def tie_db_writeable(self):
         """Create a read/write connection to the database."""
+        self.untie_db()
         self.conn = pymysql.connect(host=self.engine["hostname"], port=3306,
                                     user=self.engine["user"],
                                     passwd=self.engine["password"],
diff --git a/oa/db/bayes/sqlalchemy.py b/oa/db/bayes/sqlalchemy.py
index c5dcfad..20f2e91 100644
--- a/oa/db/bayes/sqlalchemy.py
+++ b/oa/db/bayes/sqlalchemy.py
@@ -91,6 +91,7 @@ class Store(object):
         """Remove the connection to the database."""
         if self.conn:
             self.conn.close()
+        self.conn = None
 
     def tie_db_readonly(self):
         """Create a read-only connection to the database."""
@@ -102,6 +103,7 @@ class Store(object):
 
     def tie_db_writeable(self):
         """Create a read/write connection to the database."""
+        self.untie_db()
         self.conn = self.plugin.get_session()
         return True
 
diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index b38ec59..23bf335 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -615,10 +615,11 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
             return
         # XXX In SA, there is a time limit set here.
         if self.store.tie_db_writeable():
-            ret = self._learn_trapped(isspam, msg)
-            if not self.learn_caller_will_untie:
-                self.store.untie_db()
-            return ret
+            try:
+                return self._learn_trapped(isspam, msg)
+            finally:
+                if not self.learn_caller_will_untie:
+                    self.store.untie_db()
         return None
 
     def _learn_trapped(self, isspam, msg):
@@ -695,10 +696,11 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
             return
         # XXX SA wraps this in a timer.
         if self.store.tie_db_writeable():
-            ret = self._forget_trapped(msg, msgid)
-            if not self.learn_caller_will_untie:
-                self.store.untie_db()
-            return ret
+            try:
+                return self._forget_trapped(msg, msgid)
+            finally:
+                if not self.learn_caller_will_untie:
+                    self.store.untie_db()
         return None
 
     def _forget_trapped(self, msg, msgid):
@@ -1128,13 +1130,6 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
             self.ctxt.log.debug("bayes: not scoring message, returning undef")
         # Do any cleanup we need to do.
         self.store.cleanup()
-
-        # Reset the value accordingly.
-        self.learn_caller_will_untie = caller_untie
-
-        # If our caller won't untie the db, we need to do it.
-        if not caller_untie:
-            self.store.untie_db()
         return score
 
     def scan(self, msg):
@@ -1144,7 +1139,18 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         # so override the global setting until we're done.
         caller_untie = self.learn_caller_will_untie
         self.learn_caller_will_untie = True
+        try:
+            return self._scan_trapped(msg, caller_untie)
+        finally:
+            # Reset the value accordingly.
+            self.learn_caller_will_untie = caller_untie
+
+            # If our caller won't untie the db, we need to do it.
+            if not caller_untie:
+                self.store.untie_db()
 
+    def _scan_trapped(self, msg, caller_untie):
+        """Do the actual scanning work, with the database tied."""
         if self.ignore_message(msg):
             return self._skip_scan(msg, None, caller_untie)
         if not self.learner_is_scan_available():
-- 
2.43.0


From f312bd6c65649cb98be51272e23732e5ad5a632e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:04 +0000
Subject: [PATCH 41/56] fix: auto-learn from the matching rules only, and learn
 ham as ham

Every rule checked was counted as if it had matched, and the branch for ham
repeated the condition for spam.
---
 oa/plugins/auto_learn_threshold.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/auto_learn_threshold.py b/oa/plugins/auto_learn_threshold.py
index 3039752..c1d43b4 100644
--- a/oa/plugins/auto_learn_threshold.py
+++ b/oa/plugins/auto_learn_threshold.py
@@ -166,9 +166,11 @@ class AutoLearnThreshold(oa.plugins.base.BasePlugin):
         and submits it
         """
         bayes = self.ctxt.plugins.get("BayesPlugin", None)
-        self.prepare_learning_metadata(msg, tests=ruleset.checked)
+        matched = {name: rule for name, rule in ruleset.checked.items()
+                   if msg.rules_checked.get(name)}
+        self.prepare_learning_metadata(msg, tests=matched)
         if self.should_learn(msg) and bayes is not None:
             if self.get_local(msg, "learner_thinks_spam"):
                 bayes.plugin_report(msg)
-            elif self.get_local(msg, "learner_thinks_spam"):
+            elif self.get_local(msg, "learner_thinks_ham"):
                 bayes.plugin_revoke(msg)
-- 
2.43.0


From ca6ecb2164ac5f45379bfd9f44f19b287daa6ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:50 +0000
Subject: [PATCH 42/56] fix: close the SMTP connection when sending the SpamCop
 report fails

---
 oa/plugins/spam_cop.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/oa/plugins/spam_cop.py b/oa/plugins/spam_cop.py
index 068e4e6..1bf48a6 100644
--- a/oa/plugins/spam_cop.py
+++ b/oa/plugins/spam_cop.py
@@ -70,10 +70,13 @@ class SpamCopPlugin(oa.plugins.base.BasePlugin):
             mx_domain = mx_domain.split()[1][:-1]
 
             smtp_obj = smtplib.SMTP()
-            smtp_obj.connect(mx_domain, 587)
-            smtp_obj.helo(mx_domain.split('.')[1])
-            smtp_obj.sendmail(sender, receiver, message)
-            smtp_obj.quit()
+            try:
+                smtp_obj.connect(mx_domain, 587)
+                smtp_obj.helo(mx_domain.split('.')[1])
+                smtp_obj.sendmail(sender, receiver, message)
+                smtp_obj.quit()
+            finally:
+                smtp_obj.close()
         except BaseException:
             self.ctxt.log.warning("SpamCop report failed.")
             return False
-- 
2.43.0


From 5958c4449fe2ba865265e8f4f2760964671948e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:50 +0000
Subject: [PATCH 43/56] fix: close the message file when reading it fails

---
 scripts/match.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/match.py b/scripts/match.py
index 9aaaada..4c65024 100755
--- a/scripts/match.py
+++ b/scripts/match.py
@@ -153,10 +153,12 @@ def main():
     count = 0
     for message_list in options.messages:
         for msgf in message_list:
-            raw_msg = msgf.read()
+            try:
+                raw_msg = msgf.read()
+            finally:
+                msgf.close()
             if type(raw_msg) is bytes and PY3:
                 raw_msg = raw_msg.decode("utf-8", "ignore")
-            msgf.close()
             msg = oa.message.Message(ruleset.ctxt, raw_msg)
 
             if options.revoke:
-- 
2.43.0


From fc0b62b41b1b811e78ab82659b397f0e0375a2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:50 +0000
Subject: [PATCH 44/56] fix: do not leave the razor process behind when
 communicating fails

---
 oa/plugins/razor2.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/razor2.py b/oa/plugins/razor2.py
index 4c8827a..f85c2f9 100644
--- a/oa/plugins/razor2.py
+++ b/oa/plugins/razor2.py
@@ -11,6 +11,13 @@ def kill_process(process, log):
     process.kill()
 
 
+def end_process(process):
+    """Do not leave behind a process we failed to communicate with."""
+    if process.poll() is None:
+        process.kill()
+        process.wait()
+
+
 class Razor2Plugin(oa.plugins.base.BasePlugin):
     eval_rules = ("check_razor2",
                   "check_razor2_range")
@@ -71,6 +78,7 @@ class Razor2Plugin(oa.plugins.base.BasePlugin):
             proc.communicate(input=str.encode(msg.raw_msg))
         finally:
             my_timer.cancel()
+            end_process(proc)
 
         if proc.returncode in (1, 0):
             self.set_local(msg, "razor2_result", proc.returncode)
@@ -94,14 +102,15 @@ class Razor2Plugin(oa.plugins.base.BasePlugin):
 
         my_timer = threading.Timer(self["razor_timeout"], kill_process,
                                    [proc, self.ctxt.log])
-        my_timer.start()
         try:
+            my_timer.start()
             proc.communicate(input=str.encode(msg.raw_msg))
             return proc.returncode
         except (IOError, OSError):
             self.ctxt.log.warning("Unable to communicate to " + name)
         finally:
             my_timer.cancel()
+            end_process(proc)
 
         return False
 
-- 
2.43.0


From ce60dae257ab9b09333d68e6f40ff494d53a9f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:25 +0000
Subject: [PATCH 45/56] fix: register the rules pdf_match_fuzzy_md5 and
 image_name_regex and the PDFInfo plugin

---
 oa/plugins/__init__.py   | 2 ++
 oa/plugins/image_info.py | 1 +
 oa/plugins/pdf_info.py   | 1 +
 3 files changed, 4 insertions(+)

diff --git a/oa/plugins/__init__.py b/oa/plugins/__init__.py
index 622eacc..b7d3f8f 100644
--- a/oa/plugins/__init__.py
+++ b/oa/plugins/__init__.py
@@ -11,6 +11,8 @@ REIMPLEMENTED_PLUGINS = {
         "oa.plugins.whitelist_subject.WhiteListSubjectPlugin",
     "Mail::SpamAssassin::Plugin::ImageInfo":
         "oa.plugins.image_info.ImageInfoPlugin",
+    "Mail::SpamAssassin::Plugin::PDFInfo":
+        "oa.plugins.pdf_info.PDFInfoPlugin",
     "Mail::SpamAssassin::Plugin::RelayCountry":
         "oa.plugins.relay_country.RelayCountryPlugin",
     "Mail::SpamAssassin::Plugin::URIDetail":
diff --git a/oa/plugins/image_info.py b/oa/plugins/image_info.py
index c485380..b826319 100644
--- a/oa/plugins/image_info.py
+++ b/oa/plugins/image_info.py
@@ -28,6 +28,7 @@ class BadImageFile(Exception):
 class ImageInfoPlugin(oa.plugins.base.BasePlugin):
     eval_rules = ("image_count",
                   "image_named",
+                  "image_name_regex",
                   "pixel_coverage",
                   "image_size_exact",
                   "image_size_range",
diff --git a/oa/plugins/pdf_info.py b/oa/plugins/pdf_info.py
index 25c1c99..24bd603 100644
--- a/oa/plugins/pdf_info.py
+++ b/oa/plugins/pdf_info.py
@@ -29,6 +29,7 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
         "pdf_named",
         "pdf_name_regex",
         "pdf_match_md5",
+        "pdf_match_fuzzy_md5",
         "pdf_match_details",
         "pdf_is_encrypted",
         "pdf_is_empty_body",
-- 
2.43.0


From 59b6eb22e8d4f8f0746c66743c3399d70be6a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:25 +0000
Subject: [PATCH 46/56] fix: bayes and textcat options with a missing type or a
 default of another type

---
 oa/plugins/bayes.py   | 6 +++---
 oa/plugins/textcat.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index 23bf335..e79b4c3 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -466,8 +466,8 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
     use_ignores = True
 
     options = {
-        u'bayes_ignore_to': (u'list', ''),
-        u'bayes_ignore_from': (u'list', ''),
+        u'bayes_ignore_to': (u'list', []),
+        u'bayes_ignore_from': (u'list', []),
         u"use_learner": (u"bool", True),
         u"use_bayes_rules": (u"bool", True),
         u"detailed_bayes_score": (u"bool", False),
@@ -479,7 +479,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         u'bayes_sql_username': ('str', ''),
         u'bayes_sql_password': ('str', ''),
         u'bayes_auto_expire': ('int', 0),
-        u'bayes_token_sources': ('split', 'header visible invisible uri'),
+        u'bayes_token_sources': ('str', 'header visible invisible uri'),
     }
 
     eval_rules = ("check_bayes",)
diff --git a/oa/plugins/textcat.py b/oa/plugins/textcat.py
index 81e4be4..6ae9e62 100644
--- a/oa/plugins/textcat.py
+++ b/oa/plugins/textcat.py
@@ -27,14 +27,14 @@ class TextCatPlugin(oa.plugins.base.BasePlugin):
     message.
     """
     options = {
-        "ok_languages": ("list", "all"),
+        "ok_languages": ("list", ["all"]),
         "textcat_max_languages": ("int", 5),
         "textcat_acceptable_prob": ("float", 0.70),
         # The rest of these are not used, and are
         # just here for backwards compatibility
         # XXX We should add a warning here if these
         # XXX are used.
-        "inactive_languages": ("list", ""),
+        "inactive_languages": ("list", []),
         "textcat_optimal_ngrams": ("int", 0),
         "textcat_max_ngrams": ("int", 400),
         # We cannot really apply this with our method here.
-- 
2.43.0


From 5c5733c41462417c308eb2e7510a6cf68592cc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:09 +0000
Subject: [PATCH 47/56] fix: percent signs in templates stand for themselves

---
 oa/rules/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index 2c7d5b4..9e67ca7 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -116,7 +116,7 @@ class RuleSet(object):
         text = text.strip("'\"")
         for tag in _TAG_RE.findall(text):
             self.tags.add(tag[1])
-        return _TAG_RE.sub(r"%(\2)s", text)
+        return _TAG_RE.sub(r"%(\2)s", text.replace("%", "%%"))
 
     def get_report(self, msg):
         """Get the Spam report for this message
-- 
2.43.0


From 0dd216e344da2528a7970203d3cfd5533c311e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:09 +0000
Subject: [PATCH 48/56] fix: X-Spam-Report is added to spam only

---
 oa/rules/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index 9e67ca7..41c81f7 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -170,7 +170,7 @@ class RuleSet(object):
             newmsg = email.message_from_string(msg.raw_msg)
         else:
             newmsg = self._get_bounce_message(msg)
-        if self.conf["report_safe"] == 0:
+        if spam and self.conf["report_safe"] == 0:
             newmsg.add_header("X-Spam-Report",
                               self.get_matched_report(msg))
         self._adjust_headers(msg, newmsg, self.header_mod["all"])
-- 
2.43.0


From a0a5a8e037d379c87970749bc1ac4d6ce4b16108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:09 +0000
Subject: [PATCH 49/56] fix: values with several lines stay within their header

---
 oa/rules/ruleset.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index 41c81f7..278c1df 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -171,8 +171,8 @@ class RuleSet(object):
         else:
             newmsg = self._get_bounce_message(msg)
         if spam and self.conf["report_safe"] == 0:
-            newmsg.add_header("X-Spam-Report",
-                              self.get_matched_report(msg))
+            newmsg.add_header("X-Spam-Report", self._header_value(
+                self.get_matched_report(msg)))
         self._adjust_headers(msg, newmsg, self.header_mod["all"])
         if spam:
             self._adjust_headers(msg, newmsg, self.header_mod["spam"])
@@ -196,7 +196,16 @@ class RuleSet(object):
             if remove:
                 del newmsg[name]
             else:
-                newmsg.add_header(name, self._interpolate(value, msg))
+                newmsg.add_header(name, self._header_value(
+                    self._interpolate(value, msg)))
+
+    @staticmethod
+    def _header_value(text):
+        """Indent the lines after the first one, so that they belong to the
+        header and are not taken for headers or the end of the headers.
+        """
+        return "\n ".join(line.strip() for line in text.splitlines()
+                          if line.strip())
 
     def _get_bounce_message(self, msg):
         """Create a bounce message from the original."""
-- 
2.43.0


From 043cbdd38a7a121540b39f08fff9f72c32a9279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:37 +0000
Subject: [PATCH 50/56] fix: check_illegal_chars removed headers from the
 message

---
 oa/plugins/header_eval.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index eb863c5..a62016c 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -157,16 +157,9 @@ class HeaderEval(oa.plugins.base.BasePlugin):
                                   "invalid option: %s", count)
             return False
         if header == 'ALL':
-            raw_headers = msg.raw_headers
-            key_headers = []
-            for keys in raw_headers.keys():
-                key_headers.append(keys)
-            for key in key_headers:
-                if key.lower() in ("subject", "from"):
-                    try:
-                        del raw_headers[key]
-                    except KeyError:
-                        pass
+            raw_headers = {name: values
+                           for name, values in msg.raw_headers.items()
+                           if name.lower() not in ("subject", "from")}
         else:
             raw_headers = {header: msg.get_raw_header(header)}
 
-- 
2.43.0


From 73fa3be565b1fdff40fac1a75851cfd54ef7da2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:30 +0000
Subject: [PATCH 51/56] fix: changing a list of headers does not change the
 cached one

---
 oa/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index fa02aff..8646849 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -117,7 +117,8 @@ class _memoize(object):
             if result is None:
                 result = func(fself, name)
                 cache[name] = result
-            return result
+            # The caller may change the list.
+            return list(result)
 
         return wrapped_func
 
-- 
2.43.0


From dcfa0118d307a5c6b56f6401807183c79f20c16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:45 +0000
Subject: [PATCH 52/56] fix: texts of the message were used as regular
 expressions unescaped

---
 oa/plugins/header_eval.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index a62016c..25d8780 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -134,7 +134,7 @@ class HeaderEval(oa.plugins.base.BasePlugin):
         if not id:
             return False
         comercial_re = Regex(r"(?:item|invoice|order|number|confirmation)"
-                             r".{1,6}%s\s*$" % id, re.X | re.I)
+                             r".{1,6}%s\s*$" % re.escape(id), re.X | re.I)
         if Regex(r"\d{5,}").search(id) and comercial_re.search(subject):
             return False
         return True
@@ -252,10 +252,12 @@ class HeaderEval(oa.plugins.base.BasePlugin):
             return False
         message_id = ''.join(msg.get_decoded_header('Message-Id'))
         if listname == "notifications":
-            if not Regex(r"^<\S+\@{0}".format(server)).search(message_id):
+            if not Regex(r"^<\S+\@{0}".format(
+                    re.escape(server))).search(message_id):
                 return False
         else:
-            msn_addr = Regex(r"^<{0}-\S+\@groups\.msn\.com>".format(listname))
+            msn_addr = Regex(r"^<{0}-\S+\@groups\.msn\.com>".format(
+                re.escape(listname)))
             if not msn_addr.search(message_id):
                 return False
             msn_addr = "{0}-bounce@groups.msn.com".format(listname)
@@ -665,8 +667,8 @@ class HeaderEval(oa.plugins.base.BasePlugin):
             return False
         regex = Regex(r"<[A-Z]{28}\.([^>]+?)>").search(message_id)
         if regex:
-            if Regex(r"\"[^\"]+\"\s*<" + regex.group(1) + ">").search(
-                    from_header):
+            if Regex(r"\"[^\"]+\"\s*<" + re.escape(regex.group(1)) +
+                     ">").search(from_header):
                 return True
         return False
 
@@ -704,7 +706,8 @@ class HeaderEval(oa.plugins.base.BasePlugin):
             dom = regex.group(2)
             if not self.is_domain_valid(dom):
                 return False
-            if Regex(r"\b" + dom + "." + user + "@").search(envelope_from):
+            if Regex(r"\b" + re.escape(dom) + "." + re.escape(user) +
+                     "@").search(envelope_from):
                 return True
         return False
 
-- 
2.43.0


From 7509b2e60dbc50ea2a101b7f70e2ec404fb92b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:26 +0000
Subject: [PATCH 53/56] fix: dkim: what was found in one message was used for
 the next ones

---
 oa/plugins/dkim.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index e6f8368..515dc61 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -57,6 +57,14 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         "U": "unknown"
     }
 
+    def check_start(self, msg):
+        """Forget what was found in the previous message."""
+        self.author_addresses = []
+        self.author_domains = []
+        self.dkim_checked_signature = 0
+        self.is_valid = 1
+        self.match_adsp = 0
+
     def get_txt(self, name):
         """Return a TXT record associated with a DNS name.
 
-- 
2.43.0


From 73e58bcb4eaef9b211146748dc573d951d80b32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:26 +0000
Subject: [PATCH 54/56] fix: spf: what was found in one message was used for
 the next ones

---
 oa/plugins/spf.py | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/oa/plugins/spf.py b/oa/plugins/spf.py
index 34f8f5f..4e4b1e3 100644
--- a/oa/plugins/spf.py
+++ b/oa/plugins/spf.py
@@ -23,6 +23,26 @@ AUTHRES_RE = Regex(r"""
 """, re.I | re.S | re.X | re.M)
 
 
+RESULTS = (
+    "check_spf_pass",
+    "check_spf_neutral",
+    "check_spf_none",
+    "check_spf_fail",
+    "check_spf_softfail",
+    "check_spf_permerror",
+    "check_spf_temperror",
+    "check_spf_helo_pass",
+    "check_spf_helo_neutral",
+    "check_spf_helo_none",
+    "check_spf_helo_fail",
+    "check_spf_helo_softfail",
+    "check_spf_helo_permerror",
+    "check_spf_helo_temperror",
+    "check_spf_whitelist_from",
+    "check_def_spf_whitelist_from",
+)
+
+
 class SpfPlugin(oa.plugins.base.BasePlugin):
     spf_check = False
     spf_check_helo = False
@@ -54,24 +74,14 @@ class SpfPlugin(oa.plugins.base.BasePlugin):
         "ignore_received_spf_header": ("bool", False),
         "use_newest_received_spf_header": ("bool", False)
     }
-    check_result = {
-        "check_spf_pass": 0,
-        "check_spf_neutral": 0,
-        "check_spf_none": 0,
-        "check_spf_fail": 0,
-        "check_spf_softfail": 0,
-        "check_spf_permerror": 0,
-        "check_spf_temperror": 0,
-        "check_spf_helo_pass": 0,
-        "check_spf_helo_neutral": 0,
-        "check_spf_helo_none": 0,
-        "check_spf_helo_fail": 0,
-        "check_spf_helo_softfail": 0,
-        "check_spf_helo_permerror": 0,
-        "check_spf_helo_temperror": 0,
-        "check_spf_whitelist_from": 0,
-        "check_def_spf_whitelist_from": 0
-    }
+    check_result = dict.fromkeys(RESULTS, 0)
+
+    def check_start(self, msg):
+        """Forget what was found in the previous message."""
+        self.spf_check = False
+        self.spf_check_helo = False
+        self.no_valid_identity = False
+        self.check_result = dict.fromkeys(RESULTS, 0)
 
     def parsed_metadata(self, msg):
         if self.get_global("ignore_received_spf_header"):
-- 
2.43.0


From ebf370b53a9e2b3ff1ae12d4c488ec1042ab5bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:26 +0000
Subject: [PATCH 55/56] fix: relay_eval: what was found in one message was used
 for the next ones

---
 oa/plugins/relay_eval.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oa/plugins/relay_eval.py b/oa/plugins/relay_eval.py
index 606b62b..711f301 100644
--- a/oa/plugins/relay_eval.py
+++ b/oa/plugins/relay_eval.py
@@ -28,6 +28,11 @@ class RelayEval(oa.plugins.base.BasePlugin):
     )
     options = {}
 
+    def check_start(self, msg):
+        """Forget what was found in the previous message."""
+        self.set_global("mismatch_from", None)
+        self.set_global("mismatch_ip_helo", None)
+
     @staticmethod
     def hostname_to_domain(hostname):
         if not Regex(r"[a-zA-Z]").match(hostname):
-- 
2.43.0


From 92bfa732fc4db177dc383f1d32201bc2e81e81f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:42 +0000
Subject: [PATCH 56/56] fix: context: a plugin file was executed into the
 module of another one of the same name

SourceFileLoader.load_module() executes the file again into the module of
that name if there is one.  Loading a plugin for a second configuration (or
another file with the same name) replaced the globals that the plugins of the
first configuration were using: super(Plugin, self) raised TypeError.
---
 oa/context.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oa/context.py b/oa/context.py
index a8b521c..2c43600 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -265,6 +265,9 @@ class GlobalContext(_Context):
         """Load module in Python 3."""
         modulename = os.path.basename(path).rstrip(".py").rstrip(".pyc")
 
+        # The module that has this name now might be in use: it must not be
+        # executed again with the contents of this file.
+        sys.modules.pop(modulename, None)
         loader = importlib.machinery.SourceFileLoader(modulename, path)
         return loader.load_module()
 
@@ -275,6 +278,7 @@ class GlobalContext(_Context):
 
         for suffix, open_type, file_type in imp.get_suffixes():
             if path.endswith(suffix):
+                sys.modules.pop(modulename, None)
                 with open(path, open_type) as sourcef:
                     return imp.load_module(modulename, sourcef, path,
                                            (suffix, open_type, file_type))
-- 
2.43.0

