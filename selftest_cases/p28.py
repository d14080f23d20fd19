C = "oa/context.py"
M = "oa/message.py"
R = "oa/rules/parser.py"
B = "oa/plugins/bayes.py"
PZ = "oa/plugins/pyzor.py"
SC = "oa/plugins/short_circuit.py"
CE = '''        """Hook after the message is checked."""
        for plugin in self.plugins.values():
            plugin.check_end(ruleset, msg)
'''
PC = '''        self.conf.parse_config(key, value)
        for plugin in self.plugins.values():
            if plugin.parse_config(key, value):
                break
'''
WRAP = '''        try:
            func(*args, **kwargs)
        except oa.errors.InhibitCallbacks:
            return True
        return False
'''
UNL = '''        for rule in plugin.eval_rules:
            self.eval_rules.pop(rule, None)
        for rule_type in plugin.cmds or ():
            self.cmds.pop(rule_type, None)
        self.pop_plugin_data(name)
        del self.plugins[name]
'''
LER = '''            if eval_rule is None:
                raise oa.errors.PluginLoadError("Undefined eval rule %s in "
                                                 "%s" % (rule, class_name))
            self.eval_rules[rule] = eval_rule
'''
XM = '''        for plugin in self.ctxt.plugins.values():
            plugin.extract_metadata(self, payload, text, part)
'''
GET = '''        self.ctxt.hook_parsing_end(self.ruleset)
        self.ctxt.log.info("%s rules loaded", len(self.ruleset.checked))
        self.ruleset.post_parsing()
'''
CASES = [
    ("P28", "bad", "first-only", [(C, CE, CE + "            break\n")]),
    ("P28", "bad", "continue-on-inhibit", [(C, CE, '''        for plugin in self.plugins.values():
            try:
                plugin.check_end(ruleset, msg)
            except oa.errors.InhibitCallbacks:
                continue
''')]),
    ("P28", "bad", "swallow-all-after", [(C, CE, '''        for plugin in self.plugins.values():
            if not plugin.check_end(ruleset, msg):
                return
''')]),
    ("P28", "bad", "swapped", [(C, "plugin.check_end(ruleset, msg)", "plugin.check_end(msg, ruleset)")]),
    ("P28", "bad", "other-method", [(C, "plugin.auto_learn_discriminator(ruleset, msg)", "plugin.check_end(ruleset, msg)")]),
    ("P28", "bad", "reversed", [(C, CE, CE.replace("self.plugins.values()", "reversed(list(self.plugins.values()))"))]),
    ("P28", "bad", "wrap-true", [(C, WRAP, WRAP.replace("return False", "return True"))]),
    ("P28", "bad", "wrap-no-catch", [(C, WRAP, "        func(*args, **kwargs)\n        return False\n")]),
    ("P28", "bad", "conf-last", [(C, PC, PC.split("\n", 1)[1] + "        self.conf.parse_config(key, value)\n")]),
    ("P28", "bad", "conf-never", [(C, PC, PC.split("\n", 1)[1])]),
    ("P28", "bad", "no-break", [(C, PC, PC.replace("if plugin.parse_config(key, value):\n                break", "plugin.parse_config(key, value)"))]),
    ("P28", "bad", "break-on-false", [(C, PC, PC.replace("if plugin", "if not plugin"))]),
    ("P28", "bad", "report-always", [(C, '''            if spam:
                plugin.plugin_report(msg)
            else:
                plugin.plugin_revoke(msg)
''', "            plugin.plugin_report(msg)\n")]),
    ("P28", "bad", "text-payload", [(C, XM, XM.replace("payload, text, part", "text, payload, part"))]),
    ("P28", "bad", "only-text", [(C, XM, '''        for plugin in self.ctxt.plugins.values():
            if text:
                plugin.extract_metadata(self, payload, text, part)
''')]),
    ("P28", "bad", "msg-class", [(C, "plugin.parsed_metadata(self)", "plugin.parsed_metadata(self.ctxt)")]),
    ("P28", "bad", "unload-keeps-rules", [(C, UNL, UNL.replace('''        for rule in plugin.eval_rules:
            self.eval_rules.pop(rule, None)
''', ""))]),
    ("P28", "bad", "unload-keeps-cmds", [(C, UNL, UNL.replace('''        for rule_type in plugin.cmds or ():
            self.cmds.pop(rule_type, None)
''', ""))]),
    ("P28", "bad", "unload-keeps-data", [(C, UNL, UNL.replace("        self.pop_plugin_data(name)\n", ""))]),
    ("P28", "bad", "unload-keeps-plugin", [(C, UNL, UNL.replace("        del self.plugins[name]\n", ""))]),
    ("P28", "bad", "unload-cmds-none", [(C, UNL, UNL.replace("plugin.cmds or ()", "plugin.cmds"))]),
    ("P28", "bad", "unload-strict", [(C, UNL, UNL.replace("self.eval_rules.pop(rule, None)", "self.eval_rules.clear()"))]),
    ("P28", "bad", "no-unload-on-replace", [(C, "            self.unload_plugin(class_name)\n", "")]),
    ("P28", "bad", "replace-full-name", [(C, "if class_name in self.plugins:", "if name in self.plugins:")]),
    ("P28", "bad", "keep-first", [(C, "            self.eval_rules[rule] = eval_rule\n", "            self.eval_rules.setdefault(rule, eval_rule)\n")]),
    ("P28", "ok", "keep-first-cmds-replaced-anyway", [(C, "            self.cmds[rule_type] = rule_class\n", "            self.cmds.update({rule_type: rule_class})\n")]),
    ("P28", "bad", "no-cmds", [(C, "        self._load_cmds(plugin, class_name)\n", "")]),
    ("P28", "bad", "first-rule", [(C, LER, LER + "            break\n")]),
    ("P28", "bad", "missing-rule", [(C, LER, '''            if eval_rule is not None:
                self.eval_rules[rule] = eval_rule
''')]),
    ("P28", "bad", "full-name-key", [(C, "        self.plugins[class_name] = plugin\n", "        self.plugins[name] = plugin\n")]),
    ("P28", "bad", "no-path", [(C, "plugin.path_to_plugin = (name, path)", "plugin.path_to_plugin = (class_name, None)")]),
    ("P28", "bad", "subclass", [(C, "if not issubclass(plugin_class, oa.plugins.base.BasePlugin):", "if not issubclass(plugin_class, oa.plugins.base.BasePlugin) and path:")]),
    ("P28", "bad", "no-super", [(PZ, "        super(PyzorPlugin, self).finish_parsing_end(ruleset)\n", "")]),
    ("P28", "bad", "super-sometimes", [(SC, "        super(ShortCircuit, self).finish_parsing_end(ruleset)\n", "        if self['shortcircuit']:\n            super(ShortCircuit, self).finish_parsing_end(ruleset)\n")]),
    ("P28", "bad", "parsed-early", [(M, "        self._parse_message()\n        self._hook_parsed_metadata()\n", "        self._hook_parsed_metadata()\n        self._parse_message()\n")]),
    ("P28", "bad", "extract-text-only", [(M, "            self._hook_extract_metadata(payload, text, part)\n", "            if payload is not None:\n                self._hook_extract_metadata(payload, text, part)\n")]),
    ("P28", "bad", "extract-once", [(M, "            self._hook_extract_metadata(payload, text, part)\n", "        self._hook_extract_metadata(payload, text, part)\n")]),
    ("P28", "bad", "start-late", [(M, "        self._hook_check_start()\n", ""), (M, "        self._hook_parsed_metadata()\n", "        self._hook_check_start()\n        self._hook_parsed_metadata()\n")]),
    ("P28", "bad", "stale-text", [(M, "            text = None\n            if payload is not None:", "            if payload is not None:"), (M, "        body = list(self.get_decoded_header(\"Subject\"))\n", "        body = list(self.get_decoded_header(\"Subject\"))\n        text = None\n")]),
    ("P28", "bad", "start-after", [(R, "        self.ctxt.hook_parsing_start(self.results)\n", ""), (R, GET, "        self.ctxt.hook_parsing_start(self.results)\n" + GET)]),
    ("P28", "bad", "end-after-post", [(R, GET, "        self.ruleset.post_parsing()\n        self.ctxt.hook_parsing_end(self.ruleset)\n")]),
    ("P28", "bad", "end-if-rules", [(R, "        self.ctxt.hook_parsing_end(self.ruleset)\n", "        if self.results:\n            self.ctxt.hook_parsing_end(self.ruleset)\n")]),
    ("P28", "bad", "results-copy", [(R, "self.ctxt.hook_parsing_start(self.results)", "self.ctxt.hook_parsing_start(dict(self.results))")]),
    # the same behaviour written differently
    ("P28", "ok", "helper", [(C, CE, '''        self._tell("check_end", ruleset, msg)

    def _tell(self, event, *args):
        for plugin in self.plugins.values():
            getattr(plugin, event)(*args)
''')]),
    ("P28", "ok", "items", [(C, CE, CE.replace("for plugin in self.plugins.values():", "for _, plugin in self.plugins.items():"))]),
    ("P28", "ok", "names", [(C, CE, '''        for name in list(self.plugins):
            self.plugins[name].check_end(ruleset, msg)
''')]),
    ("P28", "ok", "keywords", [(C, "plugin.check_end(ruleset, msg)", "plugin.check_end(msg=msg, ruleset=ruleset)")]),
    ("P28", "ok", "wrap-flag", [(C, WRAP, '''        stopped = False
        try:
            func(*args, **kwargs)
        except oa.errors.InhibitCallbacks:
            stopped = True
        return stopped
''')]),
    ("P28", "ok", "parse-return", [(C, PC, PC.replace("                break\n", "                return\n"))]),
    ("P28", "ok", "parse-any", [(C, PC, '''        self.conf.parse_config(key, value)
        any(plugin.parse_config(key, value)
            for plugin in self.plugins.values())
''')]),
    ("P28", "ok", "report-pick", [(C, '''            if spam:
                plugin.plugin_report(msg)
            else:
                plugin.plugin_revoke(msg)
''', '''            method = plugin.plugin_report if spam else plugin.plugin_revoke
            method(msg)
''')]),
    ("P28", "ok", "unload-order", [(C, UNL, '''        self.pop_plugin_data(name)
        self.plugins.pop(name)
        for rule_type in plugin.cmds or {}:
            if rule_type in self.cmds:
                del self.cmds[rule_type]
        for rule in plugin.eval_rules:
            if rule in self.eval_rules:
                del self.eval_rules[rule]
''')]),
    ("P28", "ok", "unload-pop-first", [(C, "        plugin = self.plugins[name]\n        # Delete", "        plugin = self.plugins.pop(name)\n        # Delete"), (C, "        del self.plugins[name]\n", "")]),
    ("P28", "ok", "unload-helper", [(C, UNL, '''        self._forget(self.eval_rules, plugin.eval_rules)
        self._forget(self.cmds, plugin.cmds or ())
        self.pop_plugin_data(name)
        del self.plugins[name]

    @staticmethod
    def _forget(registry, names):
        for name in names:
            registry.pop(name, None)
''')]),
    ("P28", "ok", "rules-then-cmds", [(C, '''        self._load_cmds(plugin, class_name)
        self._load_eval_rules(plugin, class_name)
''', '''        self._load_eval_rules(plugin, class_name)
        self._load_cmds(plugin, class_name)
''')]),
    ("P28", "ok", "collect-rules", [(C, LER, LER.replace("            self.eval_rules[rule] = eval_rule\n", "            found[rule] = eval_rule\n        self.eval_rules.update(found)\n")), (C, "        for rule in plugin.eval_rules:\n            self.log.debug(\"Reg", "        found = {}\n        for rule in plugin.eval_rules:\n            self.log.debug(\"Reg")]),
    ("P28", "ok", "try-unload", [(C, '''        if name not in self.plugins:
            raise oa.errors.PluginLoadError("Plugin %s not loaded." % name)

        plugin = self.plugins[name]
''', '''        try:
            plugin = self.plugins[name]
        except KeyError:
            raise oa.errors.PluginLoadError("Plugin %s not loaded." % name)
''')]),
    ("P28", "ok", "super-later", [(B, '''        super(BayesPlugin, self).finish_parsing_end(ruleset)
        self.store = Store(self)
''', '''        end = super(BayesPlugin, self).finish_parsing_end
        end(ruleset)
        self.store = Store(self)
''')]),
    ("P28", "ok", "super-py3", [(PZ, "super(PyzorPlugin, self)", "super()")]),
    ("P28", "ok", "message-helper", [(M, "        self._parse_message()\n        self._hook_parsed_metadata()\n", "        self._fill()\n\n    def _fill(self):\n        self._parse_message()\n        self._hook_parsed_metadata()\n")]),
    ("P28", "ok", "add-helper", [(R, "                    rule = rule_class.get_rule(name, data)\n                    self.ruleset.add_rule(rule)\n", "                    self._add(rule_class, name, data)\n"), (R, "    def get_ruleset(self):", '''    def _add(self, rule_class, name, data):
        self.ruleset.add_rule(rule_class.get_rule(name, data))

    def get_ruleset(self):''')]),
]
