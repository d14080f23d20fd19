AWL = "oa/plugins/awl.py"
B = "oa/plugins/bayes.py"
C = "oa/conf.py"
PY = "oa/plugins/pyzor.py"
BE = "oa/plugins/body_eval.py"
CASES = [
("P08", "bad", "misspelt read", [(PY, 'timeout=self["pyzor_timeout"]', 'timeout=self["pyzor_time_out"]')]),
("P08", "bad", "another default", [(PY, '"pyzor_max": ("int", 5)', '"pyzor_max": ("int", 6)')]),
("P08", "bad", "another type", [(PY, '"pyzor_max": ("int", 5)', '"pyzor_max": ("str", "5")')]),
("P08", "bad", "unknown type", [(PY, '"pyzor_max": ("int", 5)', '"pyzor_max": ("integer", 5)')]),
("P08", "bad", "clear names no option", [(C, '"clear_headers": ("clear", ["add_header", "remove_header"])', '"clear_headers": ("clear", ["add_headers", "remove_header"])')]),
("P08", "bad", "clear misses one", [(C, '"clear_msa_networks": ("clear", ["msa_networks"])', '"clear_msa_networks": ("clear", ["internal_networks"])')]),
("P08", "bad", "clear stops after the first", [(C, """            self.set_global(real_key, [])
""", """            self.set_global(real_key, [])
            break
""")]),
("P08", "bad", "clear shares one list", [(C, """        for real_key in real_keys:
            self.set_global(real_key, [])
""", """        self.set_global(key, [])
""")]),
("P08", "bad", "hours are minutes", [(C, "timedelta(hours=value)", "timedelta(minutes=value)")]),
("P08", "bad", "negative durations", [(C, "if not isinstance(value, float) or value < 0:", "if not isinstance(value, float):")]),
("P08", "bad", "bool by truth", [(C, 'value.lower() in ("1", "true")', 'bool(value)')]),
("P08", "bad", "zero ignored", [(C, """            if value:
                self.set_global(global_key, int(value))""", """            if int(value):
                self.set_global(global_key, int(value))""")]),
("P08", "bad", "append replaces", [(C, "        self.get_global(key).append(value)", "        self.set_global(key, [value])")]),
("P08", "bad", "append once", [(C, "        self.get_global(key).append(value)", "        if value not in self.get_global(key):\n            self.get_global(key).append(value)")]),
("P08", "bad", "split by comma", [(C, "self.get_global(key).extend(value.split(separator))", "self.get_global(key).extend(value.split(','))")]),
("P08", "bad", "line not kept from others", [(C, "            self.inhibit_further_callbacks()", "            if not self.options[key][0] == 'str':\n                self.inhibit_further_callbacks()")]),
("P08", "ok", "helper", [(PY, 'timeout=self["pyzor_timeout"]', 'timeout=self._t("timeout")'), (PY, "    def finish_parsing_end(self, ruleset):", "    def _t(self, name):\n        return self['pyzor_' + name]\n\n    def finish_parsing_end(self, ruleset):")]),
("P08", "ok", "durations from a table", [(C, """            if unit == "m":
                time_unit = timedelta(minutes=value)
            elif unit == "h":
                time_unit = timedelta(hours=value)
            elif unit == "d":
                time_unit = timedelta(days=value)
            elif unit == "w":
                time_unit = timedelta(weeks=value)
            elif unit == "s":
                time_unit = timedelta(seconds=value)
            else:
                return

            value = time_unit.total_seconds()
""", """            factor = {"s": 1, "m": 60, "h": 3600, "d": 86400,
                      "w": 604800}.get(unit)
            if factor is None:
                return
            value = value * factor
""")]),
("P08", "ok", "bool by names", [(C, 'self.set_global(global_key, value.lower() in ("1", "true"))', 'value = value.lower()\n        self.set_global(global_key, value == "1" or value == "true")')]),
("P08", "ok", "setter by name", [(C, """            set_func = getattr(self, "set_%s_option" % self.options[key][0])
            set_func(key, value)
""", """            kind = self.options[key][0]
            getattr(self, "set_" + kind + "_option")(key, value)
""")]),
("P09", "bad", "not registered", [(BE, '        "tvd_vertical_words",\n', '')]),
("P09", "bad", "misspelt", [(BE, '        "tvd_vertical_words",\n', '        "tvd_vertical_word",\n')]),
("P09", "bad", "no target", [(BE, "def check_stock_info(self, msg, minwords, target=None):", "def check_stock_info(self, msg, minwords):")]),
("P09", "bad", "target first", [(BE, "def check_stock_info(self, msg, minwords, target=None):", "def check_stock_info(self, msg, target=None, minwords=1):")]),
("P09", "bad", "taken twice", [(BE, '        "tvd_vertical_words",\n', '        "tvd_vertical_words",\n        "check_pyzor",\n'), (BE, "    def check_start(self, msg):", "    def check_pyzor(self, msg, target=None):\n        return False\n\n    def check_start(self, msg):")]),
("P09", "bad", "wrong class", [("oa/plugins/__init__.py", "oa.plugins.dkim.DKIMPlugin", "oa.plugins.dkim.DKIM")]),
("P09", "bad", "wrong module", [("oa/plugins/__init__.py", "oa.plugins.relay_eval.RelayEval", "oa.plugins.header_eval.RelayEval")]),
("P09", "bad", "mapped twice", [("oa/plugins/__init__.py", "oa.plugins.relay_eval.RelayEval", "oa.plugins.header_eval.HeaderEval")]),
("P09", "bad", "hook of another shape", [(B, "def check_start(self, msg):", "def check_start(self, msg, ruleset):")]),
("P09", "bad", "command of another kind", [("oa/server.py", '"SKIP": oa.protocol.noop.SkipCommand', '"SKIP": oa.protocol.base.BaseProtocol')]),
("P09", "bad", "command in lower case", [("oa/server.py", '"SKIP": ', '"Skip": ')]),
("P09", "bad", "rule type without a class", [("oa/rules/parser.py", '"uri": oa.rules.uri.URIRule', '"uri": oa.rules.uri.Regex')]),
("P09", "bad", "rule type not read", [("oa/rules/parser.py", '        "rawbody",  # Specifies a RawBodyRule\n', '')]),
("P09", "bad", "argument of a rule class renamed", [("oa/rules/eval_.py", 'kwargs["eval_rule"] = value.strip()', 'kwargs["rule"] = value.strip()')]),
("P09", "bad", "documented example", [("oa/plugins/image_info.py", "def image_named(self, msg, name, target=None):", "def image_named(self, msg, name, size, target=None):")]),
("P09", "ok", "another name", [(BE, "def check_stock_info(self, msg, minwords, target=None):", "def check_stock_info(self, msg, minimum, target=None):\n        minwords = minimum")]),
("P09", "ok", "keyword target", [(BE, "def check_stock_info(self, msg, minwords, target=None):", "def check_stock_info(self, msg, minwords, *, target=None):")]),
("P09", "ok", "helper", [(BE, "    def check_start(self, msg):", "    def _shape(self, msg, target=None):\n        return False\n\n    def check_start(self, msg):")]),
]
