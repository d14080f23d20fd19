C = "oa/conf.py"
N = "oa/networks.py"
X = "oa/context.py"
S = "oa/server.py"
R = "oa/rules/parser.py"
F = "oa/plugins/free_mail.py"
D = "oa/dns_interface.py"
K = "oa/plugins/wlbl_eval.py"
INIT = """            for key, (dummy, value) in self.options.items():
                if isinstance(value, list):
                    # The defaults are shared by all the contexts.
                    value = list(value)
                self.set_global(key, value)
"""
CLEAR = """        for real_key in real_keys:
            self.set_global(real_key, [])
"""
APPEND = """        self.get_global(key).append(value)
"""
LISTS = """        self.internal = InternalNetworks()
        self.trusted = TrustedNetworks()
        self.msa = MSANetworks()
"""
COPY = """            parser.results = copy.deepcopy(self._parser_results)
"""
PY3 = """        sys.modules.pop(modulename, None)
        loader = importlib.machinery.SourceFileLoader(modulename, path)
        return loader.load_module()
"""
LIFE = """        self.dns.lifetime = self.conf["default_dns_lifetime"]
"""
CASES = [
    ("P02", "bad", "no-copy", [(C, INIT, """            for key, (dummy, value) in self.options.items():
                self.set_global(key, value)
""")]),
    ("P02", "bad", "copy-dicts-only", [(C, "isinstance(value, list):", "isinstance(value, dict):"), (C, "value = list(value)", "value = dict(value)")]),
    ("P02", "bad", "clear-to-default", [(C, CLEAR, """        for real_key in real_keys:
            self.set_global(real_key, self.options[real_key][1])
""")]),
    ("P02", "bad", "append-default", [(C, APPEND, """        self.options[key][1].append(value)
        self.set_global(key, self.options[key][1])
""")]),
    ("P02", "bad", "changed-default-option", [(C, """        self.set_global(global_key, value.lower() in ("1", "true"))
""", """        value = value.lower() in ("1", "true")
        self.options[global_key] = ("bool", value)
        self.set_global(global_key, value)
""")]),
    ("P02", "bad", "networks-on-class", [(N, """class NetworkList(object):
    def __init__(self):
        self.log = logging.getLogger("oa-logger")
""" + LISTS, """class NetworkList(object):
    internal = InternalNetworks()
    trusted = TrustedNetworks()
    msa = MSANetworks()

    def __init__(self):
        self.log = logging.getLogger("oa-logger")
""")]),
    ("P02", "bad", "default-argument", [(X, """    def __init__(self, paranoid=False, ignore_unknown=True, lazy_mode=True):
""", """    def __init__(self, paranoid=False, ignore_unknown=True, lazy_mode=True,
                 plugins={}):
"""), (X, "        self.plugins = dict()\n", "        self.plugins = plugins\n")]),
    ("P02", "bad", "results-not-copied", [(S, COPY, """            parser.results = self._parser_results
""")]),
    ("P02", "bad", "results-shallow-in-place", [(S, COPY, """            parser.results = self._parser_results
            parser.results.update(copy.deepcopy(self._parser_results))
""")]),
    ("P02", "bad", "results-kept", [(S, """            ruleset.ctxt.username = user
""", """            ruleset.ctxt.username = user
            self._parser_options = parser.options
""")]),
    ("P02", "bad", "options-shared-list", [(S, """            parser.add_options(self._parser_options)
""", """            parser.options = self._parser_options
""")]),
    ("P02", "bad", "main-ruleset-marked", [(S, """            path = oa.config.get_userprefs_path(user)
""", """            self._ruleset.ctxt.username = user
            path = oa.config.get_userprefs_path(user)
""")]),
    ("P02", "bad", "default-timeout", [(X, LIFE, LIFE + """        socket.setdefaulttimeout(self.conf["default_dns_timeout"])
"""), (X, "import sys\n", "import sys\nimport socket\n")]),
    ("P02", "bad", "default-resolver", [(D, """        self._resolver = dns.resolver.Resolver()
        self.query_restrictions""", """        self._resolver = dns.resolver.get_default_resolver()
        self.query_restrictions""")]),
    ("P02", "bad", "environment", [(X, LIFE, LIFE + """        os.environ["OA_DNS"] = str(self.dns.lifetime)
""")]),
    ("P02", "bad", "module-global", [(X, LIFE, """        global LIFETIME
        LIFETIME = self.conf["default_dns_lifetime"]
        self.dns.lifetime = LIFETIME
"""), (X, "class _Context(object):", "LIFETIME = None\n\n\nclass _Context(object):")]),
    ("P02", "bad", "class-attribute", [(X, LIFE, """        type(self.dns).test_qnames = list(self.dns.test_qnames)
        oa.dns_interface.DNSInterface.default_lifetime = self.conf[
            "default_dns_lifetime"]
""" + LIFE)]),
    ("P02", "bad", "class-via-instance", [(X, LIFE, """        self.__class__.default_lifetime = self.conf[
            "default_dns_lifetime"]
""" + LIFE)]),
    ("P02", "bad", "class-list-grown", [(X, LIFE, """        self.dns.test_qnames.extend(self.conf["dns_server"])
""" + LIFE)]),
    ("P02", "bad", "rule-table", [(R, """                        rule_class = self.ctxt.cmds[rule_type]
""", """                        rule_class = self.ctxt.cmds[rule_type]
                        RULES[rule_type] = rule_class
""")]),
    ("P02", "bad", "rule-types-of-plugin", [(X, """    def _load_cmds(self, plugin, class_name):
""", """    def _load_cmds(self, plugin, class_name):
        import oa.rules.parser
        oa.rules.parser.RULES.update(plugin.cmds or {})
""")]),
    ("P02", "bad", "module-executed-again", [(X, PY3, """        loader = importlib.machinery.SourceFileLoader(modulename, path)
        return loader.load_module()
""")]),
    ("P02", "ok", "copy-module", [(C, INIT, """            for key, (dummy, value) in self.options.items():
                self.set_global(key, copy.copy(value))
"""), (C, "class Conf(object):", "import copy\n\n\nclass Conf(object):")]),
    ("P02", "ok", "ifexp", [(C, INIT, """            for key in self.options:
                value = self.options[key][1]
                self.set_global(key, list(value) if isinstance(value, list)
                                else value)
""")]),
    ("P02", "ok", "slice-and-continue", [(C, INIT, """            for key, (dummy, value) in self.options.items():
                if not isinstance(value, list):
                    self.set_global(key, value)
                    continue
                self.set_global(key, value[:])
""")]),
    ("P02", "ok", "type-test", [(C, INIT, """            for key, (dummy, value) in self.options.items():
                if type(value) is not list:
                    own = value
                else:
                    own = value.copy()
                self.set_global(key, own)
""")]),
    ("P02", "ok", "helper", [(C, INIT, """            for key, (dummy, value) in self.options.items():
                self.set_global(key, self._own(value))

    @staticmethod
    def _own(value):
        if isinstance(value, (list, dict)):
            return type(value)(value)
        return value
""")]),
    ("P02", "ok", "update", [(C, INIT, """            values = {key: list(value) if isinstance(value, list)
                      else value
                      for key, (dummy, value) in self.options.items()}
            for key, value in values.items():
                self[key] = value
""")]),
    ("P02", "ok", "networks-helper", [(N, LISTS, """        self._new_lists()

    def _new_lists(self):
        self.internal, self.trusted, self.msa = (
            InternalNetworks(), TrustedNetworks(), MSANetworks())
""")]),
    ("P02", "ok", "results-copied-first", [(S, """            parser.add_options(self._parser_options)
""" + COPY, """            results = copy.deepcopy(self._parser_results)
            parser.add_options(list(self._parser_options))
            parser.results.update(results)
""")]),
    ("P02", "ok", "spec-loader", [(X, PY3, """        spec = importlib.util.spec_from_file_location(modulename, path)
        module = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(module)
        return module
""")]),
    ("P02", "ok", "forget-helper", [(X, PY3, """        GlobalContext._forget(modulename)
        loader = importlib.machinery.SourceFileLoader(modulename, path)
        return loader.load_module()

    @staticmethod
    def _forget(modulename):
        if modulename in sys.modules:
            del sys.modules[modulename]
""")]),
    ("P02", "ok", "own-list-of-names", [(X, LIFE, """        self.dns.test_qnames = list(self.dns.test_qnames)
""" + LIFE)]),
    ("P02", "bad", "results-shallow", [(S, COPY, """            parser.results = copy.copy(self._parser_results)
""")]),
    ("P02", "bad", "results-shallow-dict", [(S, COPY, """            parser.results = type(parser.results)()
            for name, data in self._parser_results.items():
                parser.results[name] = data
""")]),
    ("P02", "bad", "results-shallow-update", [(S, COPY, """            parser.results.update(self._parser_results)
""")]),
    ("P02", "bad", "results-shallow-comp", [(S, COPY, """            parser.results = collections.OrderedDict(
                (name, self._parser_results[name])
                for name in self._parser_results)
"""), (S, "import copy\n", "import copy\nimport collections\n")]),
    ("P02", "bad", "results-shallow-helper", [(S, COPY, """            parser.results = self._own(self._parser_results)
"""), (S, """    def get_user_ruleset(self""", """    def _own(self, results):
        return results.copy()

    def get_user_ruleset(self""")]),
    ("P02", "ok", "results-two-levels", [(S, COPY, """            for name, data in self._parser_results.items():
                parser.results[name] = dict(data)
""")]),
    ("P02", "ok", "results-two-levels-comp", [(S, COPY, """            parser.results = collections.OrderedDict(
                (name, data.copy())
                for name, data in self._parser_results.items())
"""), (S, "import copy\n", "import copy\nimport collections\n")]),
    ("P02", "ok", "results-two-levels-helper", [(S, COPY, """            parser.results = self._own(self._parser_results)
"""), (S, """    def get_user_ruleset(self""", """    def _own(self, results):
        own = {}
        for name in results:
            own[name] = dict(results[name])
        return own

    def get_user_ruleset(self""")]),
    ("P02", "ok", "results-pickled", [(S, COPY, """            parser.results = copy.deepcopy(self._parser_results)
            parser.results.update({})
""")]),
]
