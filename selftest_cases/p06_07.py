P, R, B, M, EV, CO, CX, N, H = ("oa/rules/parser.py", "oa/rules/ruleset.py", "oa/rules/base.py", "oa/rules/meta.py", "oa/rules/eval_.py", "oa/conf.py", "oa/context.py", "oa/networks.py", "oa/rules/header.py")
CASES = [
("P06", "bad", "regex not contained", [(P, "                with self._paranoid(oa.errors.InvalidRule,\n                                    oa.errors.InvalidRegex):", "                with self._paranoid(oa.errors.InvalidRule):")]),
("P06", "bad", "paranoid swallowed", [(P, "            self.ctxt.err(e)\n            if self.ctxt.paranoid:\n                raise\n\n", "            self.ctxt.err(e)\n\n")]),
("P06", "bad", "paranoid inverted", [(P, "            self.ctxt.err(e)\n            if self.ctxt.paranoid:\n                raise\n\n", "            self.ctxt.err(e)\n            if not self.ctxt.paranoid:\n                raise\n\n")]),
("P06", "bad", "with around loop", [(P, '''            for line_no, line in enumerate(rulef):
                try:
                    with self._paranoid(oa.errors.InvalidSyntax):
                        self._handle_line(filename, line, line_no + 1, _depth)
''', '''            for line_no, line in enumerate(rulef):
                try:
                    ok = False
                    with self._paranoid(oa.errors.InvalidSyntax):
                        self._handle_line(filename, line, line_no + 1, _depth)
                        ok = True
                    if not ok:
                        break
''')]),
("P06", "bad", "not logged", [(P, "            self.ctxt.err(e)\n            if self.ctxt.paranoid:\n                raise\n\n", "            if self.ctxt.paranoid:\n                raise\n\n")]),
("P06", "bad", "keeps invalid", [(R, "                    del rule_list[name]\n", "                    pass\n")]),
("P06", "bad", "stored first", [(R, "        rule.preprocess(self)\n        if rule.should_check():\n", "        self.not_checked[rule.name] = rule\n        rule.preprocess(self)\n        if rule.should_check():\n")]),
("P06", "bad", "missing arg", [(P, '''            try:
                rtype, name, value = line.split(None, 2)
            except ValueError:
                raise oa.errors.InvalidSyntax(filename, line_no, line,
                                              "Missing argument")
            if rtype''', '''            rtype, name, value = line.split(None, 2)
            if rtype''')]),
("P06", "bad", "score conversion", [(B, "        except ValueError:\n            raise oa.errors.InvalidRule(\"score\"", "        except TypeError:\n            raise oa.errors.InvalidRule(\"score\"")]),
("P06", "bad", "priority", [(B, "            self.priority = int(priority)\n        except ValueError:", "            self.priority = int(priority)\n        except TypeError:")]),
("P06", "bad", "meta undefined", [(M, "            except KeyError:\n                raise oa.errors.InvalidRule(self.name, \"Undefined subrule", "            except AttributeError:\n                raise oa.errors.InvalidRule(self.name, \"Undefined subrule")]),
("P06", "bad", "eval undefined", [(EV, "        except KeyError:\n            raise oa.errors.InvalidRule(self.name, \"Undefined eval", "        except AttributeError:\n            raise oa.errors.InvalidRule(self.name, \"Undefined eval")]),
("P06", "bad", "eval no match", [(EV, "        except (TypeError, ValueError, AttributeError):", "        except (TypeError, ValueError):"), (EV, "        except Exception:\n            err_msg", "        except SyntaxError:\n            err_msg")]),
("P06", "bad", "int option", [(CO, "                self.set_global(global_key, int(value))\n        except ValueError:", "                self.set_global(global_key, int(value))\n        except TypeError:")]),
("P06", "bad", "plugin import", [(CX, "            except ImportError as e:", "            except AttributeError as e:")]),
("P06", "bad", "network", [(N, "        except ValueError:\n            return excluded, None", "        except TypeError:\n            return excluded, None")]),
("P06", "bad", "header op", [(H, '''        if match_op is None:
            raise oa.errors.InvalidRule(name, "Missing match operator")

        header_name, pattern = value.split(match_op, 1)''', '''        header_name, pattern = value.split("=~", 1)''')]),
("P06", "bad", "no type ignored silently", [(P, '''                self.ctxt.err(e)
                if self.ctxt.paranoid:
                    raise e
''', '''                if self.ctxt.paranoid:
                    raise e
''')]),
("P06", "bad", "unknown silent", [(P, '''            if not self.ctxt.hook_parse_config(rtype, value):
                self.ctxt.err("%s:%s Ignoring unknown configuration line: %s",
                              filename, line_no, line)
''', '''            self.ctxt.hook_parse_config(rtype, value)
''')]),
("P06", "bad", "ifplugin", [(P, '''        try:
            plugin_name = plugin_name.rsplit(".", 1)[1]
        except IndexError:
            pass
''', '''        plugin_name = plugin_name.rsplit(".", 1)[1]
''')]),
("P06", "ok", "helper", [(P, '''        except exceptions as e:
            self.ctxt.err(e)
            if self.ctxt.paranoid:
                raise
''', '''        except exceptions as e:
            self._report(e)
            if not self.ctxt.paranoid:
                return
            raise

    def _report(self, error):
        """Log the error."""
        self.ctxt.err(error)
''')]),
("P06", "ok", "explicit try", [(P, '''                    with self._paranoid(oa.errors.InvalidSyntax):
                        self._handle_line(filename, line, line_no + 1, _depth)
''', '''                    self._handle_line(filename, line, line_no + 1, _depth)
                except oa.errors.InvalidSyntax as e:
                    self.ctxt.err(e)
                    if self.ctxt.paranoid:
                        raise
''')]),
("P06", "ok", "ifplugin split", [(P, '''        try:
            plugin_name = plugin_name.rsplit(".", 1)[1]
        except IndexError:
            pass
''', '''        plugin_name = plugin_name.rsplit(".", 1)[-1]
''')]),
("P06", "ok", "partition", [(P, '''        try:
            rtype, value = line.split(None, 1)
        except ValueError:
            # Some plugin might know how to handle this line
            rtype, value = line, ""
''', '''        parts = line.split(None, 1)
        if len(parts) == 2:
            rtype, value = parts
        else:
            # Some plugin might know how to handle this line
            rtype, value = line, ""
''')]),
("P06", "ok", "get_ruleset loop", [(P, '''            try:
                rule_type = data["type"]
            except KeyError:
                e = oa.errors.InvalidRule(name, "No rule type defined.")
                self.ctxt.err(e)
                if self.ctxt.paranoid:
                    raise e
            else:
                with self._paranoid(oa.errors.InvalidRule,
                                    oa.errors.InvalidRegex):
                    try:
                        rule_class = RULES[rule_type]
                    except KeyError:
                        # A plugin might have been loaded that
                        # can handle this.
                        rule_class = self.ctxt.cmds[rule_type]
                    self.ctxt.log.debug("Adding rule %s with: %s", name, data)
                    rule = rule_class.get_rule(name, data)
                    self.ruleset.add_rule(rule)
''', '''            with self._paranoid(oa.errors.InvalidRule,
                                oa.errors.InvalidRegex):
                self._load_rule(name, data)
'''), (P, "def get_ruleset(self):", '''def _load_rule(self, name, data):
        """Create one rule."""
        rule_type = data.get("type")
        if rule_type is None:
            raise oa.errors.InvalidRule(name, "No rule type defined.")
        if rule_type in RULES:
            rule_class = RULES[rule_type]
        else:
            rule_class = self.ctxt.cmds[rule_type]
        self.ctxt.log.debug("Adding rule %s with: %s", name, data)
        self.ruleset.add_rule(rule_class.get_rule(name, data))

    def get_ruleset(self):''')]),
("P06", "ok", "delete later", [(R, '''        for rule_list in (self.checked, self.not_checked):
            for name, rule in list(rule_list.items()):
                try:
                    rule.postparsing(self)
                except oa.errors.InvalidRule as e:
                    self.ctxt.err(e)
                    if self.ctxt.paranoid:
                        raise
                    del rule_list[name]
''', '''        self._finish_rules(self.checked)
        self._finish_rules(self.not_checked)

    def _finish_rules(self, rule_list):
        for name in list(rule_list):
            try:
                rule_list[name].postparsing(self)
            except oa.errors.InvalidRule as e:
                self.ctxt.err(e)
                if self.ctxt.paranoid:
                    raise
                rule_list.pop(name)
''')]),
]
CASES += [
("P07", "bad", "line depth not passed", [(P, "self._handle_line(filename, line, line_no + 1, _depth)", "self._handle_line(filename, line, line_no + 1)")]),
("P07", "bad", "include depth not passed", [(P, "self._handle_include(value, line, line_no, _depth,", "self._handle_include(value, line, line_no, 0,")]),
("P07", "bad", "not incremented", [(P, "self.parse_file(filename, _depth=_depth + 1)", "self.parse_file(filename, _depth=_depth)")]),
("P07", "bad", "start again", [(P, "self.parse_file(filename, _depth=_depth + 1)", "self.parse_file(filename)")]),
("P07", "bad", "double", [(P, "self.parse_file(filename, _depth=_depth + 1)", "self.parse_file(filename, _depth=_depth + 2)")]),
("P07", "bad", "no limit", [(P, "        if _depth > MAX_RECURSION:\n            raise oa.errors.MaxRecursionDepthExceeded()\n", "")]),
("P07", "bad", "equality", [(P, "        if _depth > MAX_RECURSION:\n            raise oa.errors.M", "        if _depth == MAX_RECURSION:\n            raise oa.errors.M")]),
("P07", "bad", "quiet", [(P, "            raise oa.errors.MaxRecursionDepthExceeded()\n", "            return\n")]),
("P07", "bad", "swallowed", [(P, "            self.parse_file(filename, _depth=_depth + 1)", "            try:\n                self.parse_file(filename, _depth=_depth + 1)\n            except oa.errors.MaxRecursionDepthExceeded:\n                return")]),
("P07", "bad", "swallowed at line", [(P, "                except oa.errors.PluginLoadError as e:\n                    warn", "                except (oa.errors.PluginLoadError,\n                        oa.errors.MaxRecursionDepthExceeded) as e:\n                    warn")]),
("P07", "bad", "after the file", [(P, "        if _depth > MAX_RECURSION:\n            raise oa.errors.MaxRecursionDepthExceeded()\n", ""), (P, "                    self.ctxt.err(\"%s:%s %s\", filename, line_no + 1, e)\n                    if self.ctxt.paranoid:\n                        raise\n", "                    self.ctxt.err(\"%s:%s %s\", filename, line_no + 1, e)\n                    if self.ctxt.paranoid:\n                        raise\n        if _depth > MAX_RECURSION:\n            raise oa.errors.MaxRecursionDepthExceeded()\n")]),
("P07", "bad", "meta not passed", [(M, "subrule.postparsing(ruleset, _depth=_depth + 1)", "subrule.postparsing(ruleset)")]),
("P07", "bad", "meta not counted", [(M, "subrule.postparsing(ruleset, _depth=_depth + 1)", "subrule.postparsing(ruleset, _depth=_depth)")]),
("P07", "bad", "meta no limit", [(M, "        if _depth > MAX_RECURSION:", "        if _depth < 0:")]),
("P07", "bad", "meta quiet", [(M, '''            raise oa.errors.InvalidRule(self.name, "Maximum recursion depth "
                                                    "for meta rules has been "
                                                    "exceeded.")
''', "            return\n")]),
("P07", "bad", "meta marks first", [(M, "        for subrule_name in subrules:\n            try:\n                subrule =", "        self._location[\"match\"] = None\n        for subrule_name in subrules:\n            try:\n                subrule =")]),
("P07", "bad", "meta swallow", [(M, "            except KeyError:\n", "            except oa.errors.InvalidRule:\n                continue\n            except KeyError:\n")]),
("P07", "bad", "base does not take it", [(B, "    def postparsing(self, ruleset, _depth=0):", "    def postparsing(self, ruleset):")]),
("P07", "bad", "cyclic kept", [(R, "                    del rule_list[name]\n", "                    pass\n")]),
("P07", "ok", "ge", [(P, "        if _depth > MAX_RECURSION:", "        if _depth >= MAX_RECURSION + 1:")]),
("P07", "ok", "limit changed", [(P, "MAX_RECURSION = 10", "MAX_RECURSION = 8")]),
("P07", "ok", "renamed", [(M, "subrule.postparsing(ruleset, _depth=_depth + 1)", "level = 1 + _depth\n                subrule.postparsing(ruleset, level)")]),
("P07", "ok", "helper", [(P, "        if _depth > MAX_RECURSION:\n            raise oa.errors.MaxRecursionDepthExceeded()\n", "        self._check_depth(_depth)\n"), (P, "    def _handle_line(", "    @staticmethod\n    def _check_depth(depth):\n        if not depth <= MAX_RECURSION:\n            raise oa.errors.MaxRecursionDepthExceeded()\n\n    def _handle_line(")]),
("P07", "ok", "meta helper", [(M, '''            try:
                subrule = ruleset.get_rule(subrule_name)
                # Call any postparsing for this subrule to ensure that the rule
                # is usable. (For example when the meta rule references other
                # meta rules).
                subrule.postparsing(ruleset, _depth=_depth + 1)
            except KeyError:
                raise oa.errors.InvalidRule(self.name, "Undefined subrule "
                                                        "referenced %r" %
                                            subrule_name)
            self._location[subrule_name] = subrule.match
''', '''            self._add_subrule(ruleset, subrule_name, _depth + 1)
'''), (M, "    def match(self, msg):", '''    def _add_subrule(self, ruleset, subrule_name, depth):
        try:
            subrule = ruleset.get_rule(subrule_name)
            subrule.postparsing(ruleset, _depth=depth)
        except KeyError:
            raise oa.errors.InvalidRule(self.name, "Undefined subrule "
                                                    "referenced %r" %
                                        subrule_name)
        self._location[subrule_name] = subrule.match

    def match(self, msg):''')]),
]
