S = "oa/server.py"
G = "oa/config.py"
B = "oa/protocol/base.py"
BUILD = '''            parser = oa.rules.parser.PADParser(
                self._ruleset.ctxt.paranoid,
                self._ruleset.ctxt.ignore_unknown
            )
            # Use the already parsed options and results and pass the
            # user ones.
            parser.add_options(self._parser_options)
            parser.results = copy.deepcopy(self._parser_results)
            parser.parse_file(path)
            ruleset = parser.get_ruleset()
            ruleset.ctxt.username = user
            # Cache the result
            user_rulesets[user] = ruleset
            return ruleset
'''
STORE = '''        ruleset = parser.get_ruleset()
        self._ruleset = ruleset
        # Store a copy of the parser results to generate user
        # settings later
        self._parser_results = parser.results
        self._parser_options = parser.options
        # Requests that are still being handled keep the previous
        # dictionary, so nothing built from the old results survives.
        self._user_rulesets = {}
'''
CASES = [
    ("P17", "bad", "shared-results", [(S, "copy.deepcopy(self._parser_results)", "self._parser_results")]),
    ("P17", "bad", "shallow", [(S, "copy.deepcopy(self._parser_results)", "copy.copy(self._parser_results)")]),
    ("P17", "bad", "cache-lower", [(S, "user_rulesets[user] = ruleset", "user_rulesets[user.lower()] = ruleset")]),
    ("P17", "bad", "cache-key", [(S, "            if user in user_rulesets:\n                return user_rulesets[user]\n",
                                  "            if user.lower() in user_rulesets:\n                return user_rulesets[user.lower()]\n")]),
    ("P17", "bad", "no-allow", [(S, '        if user is not None and self._ruleset.conf["allow_user_rules"]:',
                                 '        if user is not None:')]),
    ("P17", "bad", "late-base", [(S, '''            parser.results = copy.deepcopy(self._parser_results)
            parser.parse_file(path)
''', '''            parser.parse_file(path)
            parser.results = copy.deepcopy(self._parser_results)
''')]),
    ("P17", "bad", "cached-first", [(S, '''        if user is not None and self._ruleset.conf["allow_user_rules"]:
            user_rulesets = self._user_rulesets
            if user in user_rulesets:
                return user_rulesets[user]
''', '''        user_rulesets = self._user_rulesets
        if user in user_rulesets:
            return user_rulesets[user]
        if user is not None and self._ruleset.conf["allow_user_rules"]:
''')]),
    ("P17", "bad", "negative-cache", [(S, '''                self.log.warn("No user preference file: %s", path)
''', '''                self.log.warn("No user preference file: %s", path)
                user_rulesets[user] = self._ruleset
''')]),
    ("P17", "bad", "username-site", [(S, "            ruleset.ctxt.username = user\n", "            self._ruleset.ctxt.username = user\n")]),
    ("P17", "bad", "dotdot", [(G, '("", os.curdir, os.pardir)', '("", os.curdir)')]),
    ("P17", "bad", "slash", [(G, " or os.path.basename(user) != user", "")]),
    ("P17", "bad", "lower-path", [(G, 'os.path.join("/home", user,', 'os.path.join("/home", user.lower().strip("."),')]),
    ("P17", "bad", "stale-ruleset", [(B, "            self.ruleset = self.server.get_user_ruleset(user)\n",
                                      "            if user:\n                self.ruleset = self.server.get_user_ruleset(user.strip('@'))\n")]),
    ("P17", "bad", "wrong-option", [(B, 'user = options.get("user")', 'user = options.get("user", "root")')]),
    ("P17", "ok", "get", [(S, '''            if user in user_rulesets:
                return user_rulesets[user]
''', '''            cached = user_rulesets.get(user)
            if cached is not None:
                return cached
''')]),
    ("P17", "ok", "helper", [(S, BUILD, '''            ruleset = self._build(path)
            ruleset.ctxt.username = user
            user_rulesets[user] = ruleset
            return ruleset
'''), (S, "    def get_user_ruleset(", '''    def _build(self, path):
        site = self._ruleset
        parser = oa.rules.parser.PADParser(site.ctxt.paranoid,
                                           site.ctxt.ignore_unknown)
        parser.results = copy.deepcopy(self._parser_results)
        parser.add_options(self._parser_options)
        parser.parse_file(path)
        return parser.get_ruleset()

    def get_user_ruleset(''')]),
    ("P17", "ok", "guard", [(S, '''        if user is not None and self._ruleset.conf["allow_user_rules"]:
            user_rulesets''', '''        if user is None:
            return self._ruleset
        if self._ruleset.conf["allow_user_rules"]:
            user_rulesets''')]),
    ("P17", "ok", "path-helper", [(G, '''    if user in ("", os.curdir, os.pardir) or os.path.basename(user) != user:
        return None
''', '''    if not user or user == "." or user == "..":
        return None
    if "/" in user:
        return None
''')]),
    ("P22", "bad", "clear", [(S, "        self._user_rulesets = {}\n\n    def get", "        self._user_rulesets.clear()\n\n    def get"), ]),
    ("P22", "bad", "no-clear", [(S, "        self._user_rulesets = {}\n\n    def get", "\n    def get"), ]),
    ("P22", "bad", "early", [(S, "        ruleset = parser.get_ruleset()\n        self._ruleset = ruleset\n",
                              "        self._parser_results = parser.results\n        ruleset = parser.get_ruleset()\n        self._ruleset = ruleset\n")]),
    ("P22", "bad", "early-cache", [(S, '        parser = oa.rules.parser.parse_pad_rules(\n            oa.config',
                                    '        self._user_rulesets = {}\n        parser = oa.rules.parser.parse_pad_rules(\n            oa.config')]),
    ("P22", "bad", "cache-before", [(S, STORE, '''        ruleset = parser.get_ruleset()
        self._user_rulesets = {}
        self._ruleset = ruleset
        self._parser_results = parser.results
        self._parser_options = parser.options
''')]),
    ("P22", "bad", "old-options", [(S, "        self._parser_options = parser.options\n", "        if self._parser_options is None:\n            self._parser_options = parser.options\n")]),
    ("P22", "bad", "old-results", [(S, "        self._parser_results = parser.results\n", "")]),
    ("P22", "bad", "store-again", [(S, "            user_rulesets[user] = ruleset", "            self._user_rulesets[user] = ruleset")]),
    ("P22", "bad", "late-container", [(S, '''            user_rulesets[user] = ruleset''', '''            user_rulesets = self._user_rulesets
            user_rulesets[user] = ruleset''')]),
    ("P22", "bad", "reset-none", [(S, '        """Reads the configuration files and reloads the ruleset."""\n',
                                   '        """Reads the configuration files and reloads the ruleset."""\n        self._ruleset = None\n')]),
    ("P22", "ok", "order", [(S, STORE, '''        ruleset = parser.get_ruleset()
        self._parser_options = parser.options
        self._parser_results = parser.results
        self._ruleset = ruleset
        self._user_rulesets = dict()
''')]),
    ("P22", "ok", "install", [(S, STORE, '''        self._install(parser, parser.get_ruleset())

    def _install(self, parser, ruleset):
        self._ruleset = ruleset
        self._parser_results = parser.results
        self._parser_options = parser.options
        self._user_rulesets = {}
        self.log.info("Configuration loaded")
''')]),
]
