"""More changes P01 and P02 have to see."""
CASES = [('P01',
  'bad',
  'evalmethod-last-result',
  [('oa/rules/eval_.py',
    '        return self.method(*((msg,) + self.eval_args), '
    'target=self.target)\n',
    '        try:\n'
    '            self.last = self.method(*((msg,) + self.eval_args),\n'
    '                                    target=self.target)\n'
    '        except Exception:\n'
    '            if getattr(self, "last", None) is None:\n'
    '                raise\n'
    '        return self.last\n')]),
 ('P01',
  'bad',
  'match-error-keeps-result',
  [('oa/rules/ruleset.py',
    '                    result = False\n                if isinstance',
    "                    result = getattr(rule, 'last_result', False)\n"
    '                rule.last_result = result\n'
    '                if isinstance')]),
 ('P01',
  'bad',
  'rule-description',
  [('oa/rules/ruleset.py',
    '                    msg.rules_descriptions[name] = result\n'
    '                    result = True\n'
    '                elif',
    '                    rule.description = result\n'
    '                    msg.rules_descriptions[name] = result\n'
    '                    result = True\n'
    '                elif')]),
 ('P01',
  'bad',
  'sc-rule-score',
  [('oa/plugins/short_circuit.py',
    '        msg.score += self.rule.score\n',
    "        self.rule.score += self.spam_score if self.stype == 'spam' else "
    '0\n'
    '        msg.score += self.rule.score\n')]),
 ('P01',
  'bad',
  'required-score',
  [('oa/protocol/check.py',
    '            spam = True\n',
    '            spam = True\n'
    "            self.ruleset.conf['required_score'] = min(msg.score, "
    '5.0)\n')]),
 ('P01',
  'bad',
  'wlbl-grow',
  [('oa/plugins/wlbl_eval.py',
    '                if Regex(regex).search(address):\n'
    '                    self.set_local(msg, param, 1)\n',
    '                if Regex(regex).search(address):\n'
    "                    self['all_spam_to'].append(address)\n"
    '                    self.set_local(msg, param, 1)\n')]),
 ('P01',
  'bad',
  'tags-grow',
  [('oa/rules/ruleset.py',
    '        data.update(msg.plugin_tags)\n',
    '        data.update(msg.plugin_tags)\n'
    '        self.tags.update(msg.plugin_tags)\n')]),
 ('P01',
  'bad',
  'header-mod',
  [('oa/rules/ruleset.py',
    '        if header_only:\n            return newmsg',
    "        if msg.plugin_tags.get('LANGUAGES'):\n"
    "            self.header_mod['all'].append((False, 'X-Spam-Languages', "
    "msg.plugin_tags['LANGUAGES']))\n"
    '        if header_only:\n'
    '            return newmsg')]),
 ('P01',
  'bad',
  'stop-not-checked',
  [('oa/rules/ruleset.py',
    '            self.ctxt.log.debug("Stop processing the messages as "',
    '            self.not_checked.update(self.checked)\n'
    '            for done in msg.rules_checked:\n'
    '                self.checked.pop(done, None)\n'
    '            self.ctxt.log.debug("Stop processing the messages as "')]),
 ('P01',
  'bad',
  'rule-disabled-on-error',
  [('oa/rules/ruleset.py',
    '                    result = False\n                if isinstance',
    '                    result = False\n'
    '                    rule.score = 0\n'
    '                if isinstance')]),
 ('P01',
  'bad',
  'eval-disabled-on-error',
  [('oa/rules/eval_.py',
    '            return False\n\n    @staticmethod',
    '            self.eval_rule = lambda msg: False\n'
    '            return False\n'
    '\n'
    '    @staticmethod')]),
 ('P01',
  'bad',
  'meta-cached',
  [('oa/rules/meta.py',
    '        return self._location["match"](msg)\n',
    '        if "result" not in self._location:\n'
    '            self._location["result"] = self._location["match"](msg)\n'
    '        return self._location["result"]\n')]),
 ('P01',
  'bad',
  'meta-cached-id',
  [('oa/rules/meta.py',
    '        return self._location["match"](msg)\n',
    '        key = id(msg)\n'
    '        if key not in self._seen:\n'
    '            self._seen[key] = self._location["match"](msg)\n'
    '        return self._seen[key]\n'),
   ('oa/rules/meta.py',
    '        self._location = {}\n',
    '        self._location = {}\n        self._seen = {}\n')]),
 ('P01',
  'bad',
  'default-arg',
  [('oa/rules/ruleset.py',
    '    def _adjust_headers(self, msg, newmsg, rules):\n',
    '    def _adjust_headers(self, msg, newmsg, rules, done={}):\n'),
   ('oa/rules/ruleset.py',
    '                newmsg.add_header(name, self._header_value(\n'
    '                    self._interpolate(value, msg)))',
    '                if value not in done:\n'
    '                    done[value] = self._interpolate(value, msg)\n'
    '                newmsg.add_header(name, '
    'self._header_value(done[value]))')]),
 ('P01',
  'bad',
  'conf-report',
  [('oa/rules/ruleset.py',
    '        return self._interpolate(self.conf["report"], msg) + "\\n"',
    '        self.conf["report"] = self._interpolate(self.conf["report"], '
    'msg)\n'
    '        return self.conf["report"] + "\\n"')]),
 ('P02',
  'bad',
  'interp-class',
  [('oa/rules/ruleset.py',
    '    header_start = "X-Spam-"\n',
    '    header_start = "X-Spam-"\n'
    '    header_mod = {"spam": [], "ham": [], "all": []}\n'),
   ('oa/rules/ruleset.py',
    '        self.header_mod = {\n'
    '            "spam": [],\n'
    '            "ham": [],\n'
    '            "all": [],\n'
    '        }\n',
    '')]),
 ('P02',
  'bad',
  'tags-class',
  [('oa/rules/ruleset.py',
    '    header_start = "X-Spam-"\n',
    '    header_start = "X-Spam-"\n    tags = set()\n'),
   ('oa/rules/ruleset.py', '        self.tags = set()\n', '')]),
 ('P02',
  'bad',
  'score-default',
  [('oa/rules/base.py',
    '                    score = [-1.0]\n'
    '            if score is None:\n'
    '                score = [1.0]\n'
    '        self._scores = score\n',
    '                    score = [-1.0]\n'
    '            if score is None:\n'
    '                score = _DEFAULT\n'
    '        self._scores = score\n'),
   ('oa/rules/base.py',
    'class BaseRule(object):',
    '_DEFAULT = [1.0]\n\n\nclass BaseRule(object):'),
   ('oa/rules/base.py',
    '        self.score = _ADVANCED_SCORING[flags](self._scores)',
    '        self._scores[:] = [_ADVANCED_SCORING[flags](self._scores)]\n'
    '        self.score = self._scores[0]')]),
 ('P02',
  'bad',
  'cmds-class',
  [('oa/context.py',
    '            self.cmds[rule_type] = rule_class',
    '            rule_class._rule_type = rule_type\n'
    '            self.cmds[rule_type] = rule_class')]),
 ('P02',
  'bad',
  'cmds-pop',
  [('oa/context.py',
    '            self.cmds.pop(rule_type, None)',
    '            plugin.cmds.pop(rule_type, None)\n'
    '            self.cmds.pop(rule_type, None)'),
   ('oa/context.py',
    'for rule_type in plugin.cmds or ():',
    'for rule_type in list(plugin.cmds or ()):')]),
 ('P02',
  'bad',
  'plugin-path-class',
  [('oa/context.py',
    '            plugin.path_to_plugin = (name, path)',
    '            plugin_class.path_to_plugin = (name, path)')]),
 ('P02',
  'bad',
  'sys-path',
  [('oa/context.py',
    '        # The module that has this name now might',
    '        sys.path.insert(0, os.path.dirname(path))\n'
    '        # The module that has this name now might')]),
 ('P02',
  'bad',
  'log-level',
  [('oa/context.py',
    "        self.dns.available = self.conf['dns_available']",
    "        self.dns.available = self.conf['dns_available']\n"
    "        self.log.setLevel(logging.DEBUG if self.conf['dns_available'] "
    "== 'yes' else logging.INFO)")]),
 ('P02',
  'bad',
  'user-username',
  [('oa/server.py',
    '            ruleset.ctxt.username = user',
    '            self._ruleset.ctxt.username = user\n'
    '            ruleset.ctxt.username = user')]),
 ('P02',
  'bad',
  'user-opts-alias',
  [('oa/server.py',
    '            parser.parse_file(path)\n            ruleset',
    '            parser.ctxt.conf = self._ruleset.conf\n'
    '            parser.parse_file(path)\n'
    '            ruleset')]),
 ('P02',
  'bad',
  'user-shared-dns',
  [('oa/server.py',
    '            parser.parse_file(path)\n            ruleset',
    '            parser.ctxt.dns = self._ruleset.ctxt.dns\n'
    '            parser.parse_file(path)\n'
    '            ruleset')]),
 ('P02',
  'bad',
  'user-shared-rules',
  [('oa/server.py',
    '            ruleset.ctxt.username = user',
    '            for name, rule in self._ruleset.checked.items():\n'
    '                rule.preprocess(ruleset)\n'
    '            ruleset.ctxt.username = user')]),
 ('P02',
  'bad',
  'nets-alias',
  [('oa/networks.py',
    '    _always_accepted = (\n'
    '        (ipaddress.ip_network(str("127.0.0.0/8")), True),\n'
    '        (ipaddress.ip_network(str("::1")), True),\n'
    '    )\n',
    '    _always_accepted = [\n'
    '        (ipaddress.ip_network(str("127.0.0.0/8")), True),\n'
    '        (ipaddress.ip_network(str("::1")), True),\n'
    '    ]\n'),
   ('oa/networks.py',
    '    def clear(self):\n'
    '        self._networks = []\n'
    '        self._networks.extend(self._always_accepted)\n',
    '    def clear(self):\n'
    '        self._networks = self._always_accepted\n')]),
 ('P02',
  'bad',
  'nets-class',
  [('oa/networks.py', '        self.msa = MSANetworks()\n', ''),
   ('oa/networks.py',
    'class NetworkList(object):\n',
    'class NetworkList(object):\n    msa = MSANetworks()\n\n')]),
 ('P02',
  'bad',
  'nets-module',
  [('oa/networks.py',
    '        self.msa = MSANetworks()\n',
    '        self.msa = _MSA\n'),
   ('oa/networks.py',
    'class NetworkList(object):\n',
    '_MSA = MSANetworks()\n\n\nclass NetworkList(object):\n')]),
 ('P02',
  'bad',
  'clear-default',
  [('oa/conf.py',
    '            self.set_global(real_key, [])',
    '            self.set_global(real_key, self.options[real_key][1])')]),
 ('P02',
  'bad',
  'option-default-changed',
  [('oa/conf.py',
    '        self.set_global(global_key, value.split(separator))',
    '        self.set_global(global_key, value.split(separator))\n'
    "        self.options[global_key] = ('list', value.split(separator))")]),
 ('P02',
  'bad',
  'options-alias',
  [('oa/rules/parser.py',
    '        for rtype, value in options:\n'
    '            self.options.append((rtype, value))\n',
    '        self.options = options\n'
    '        for rtype, value in options:\n')]),
 ('P02',
  'bad',
  'server-options-extend',
  [('oa/server.py',
    '            parser.parse_file(path)\n',
    '            parser.parse_file(path)\n'
    '            '
    'self._parser_options.extend(parser.options[len(self._parser_options):])\n')]),
 ('P02',
  'bad',
  'rules-update',
  [('oa/rules/parser.py',
    '        self.ctxt.hook_parsing_start(self.results)',
    '        RULES.update(self.ctxt.cmds)\n'
    '        self.ctxt.hook_parsing_start(self.results)')]),
 ('P02',
  'bad',
  'results-default',
  [('oa/rules/parser.py',
    '                self.results[name] = dict()\n',
    '                self.results[name] = NEW\n'),
   ('oa/rules/parser.py',
    'class PADParser',
    'NEW = {}\n\n\nclass PADParser')]),
 ('P02',
  'bad',
  'reimpl',
  [('oa/rules/parser.py',
    '        if plugin_name:\n            self.ctxt.load_plugin',
    '        if path:\n'
    '            oa.plugins.REIMPLEMENTED_PLUGINS[value] = plugin_name\n'
    '        if plugin_name:\n'
    '            self.ctxt.load_plugin')]),
 ('P02',
  'bad',
  'plugin-cache',
  [('oa/context.py',
    '        plugin = plugin_class(self)\n',
    '        plugin = _PLUGINS.get(plugin_class)\n'
    '        if plugin is None:\n'
    '            plugin = _PLUGINS[plugin_class] = plugin_class(self)\n'),
   ('oa/context.py',
    'class _Context(object)',
    '_PLUGINS = {}\n\n\nclass _Context(object)')]),
 ('P02',
  'bad',
  'plugin-on-class',
  [('oa/context.py',
    '        plugin = plugin_class(self)\n',
    "        plugin = plugin_class.__dict__.get('instance')\n"
    '        if plugin is None:\n'
    '            plugin = plugin_class.instance = plugin_class(self)\n')]),
 ('P02',
  'bad',
  'locale',
  [('oa/rules/parser.py',
    '                    locale_language = '
    'locale.getlocale(locale.LC_MESSAGES)[0]',
    '                    locale.setlocale(locale.LC_MESSAGES, name)\n'
    '                    locale_language = '
    'locale.getlocale(locale.LC_MESSAGES)[0]')]),
 ('P02',
  'bad',
  'env',
  [('oa/rules/parser.py',
    '        self.ctxt.hook_parsing_end(self.ruleset)',
    "        os.environ['OA_CONTACT'] = self.ctxt.conf['report_contact']\n"
    '        self.ctxt.hook_parsing_end(self.ruleset)')]),
 ('P02',
  'bad',
  'langdetect',
  [('oa/plugins/textcat.py',
    '        super(TextCatPlugin, self).set_list_option(global_key, value,\n'
    '                                                   separator)',
    '        super(TextCatPlugin, self).set_list_option(global_key, value,\n'
    '                                                   separator)\n'
    '        langdetect.DetectorFactory.seed = len(value)')]),
 ('P02',
  'bad',
  'header-start',
  [('oa/rules/ruleset.py',
    '        self.header_mod[msg_status].append',
    "        if remove and header_name == 'X-Spam-ALL':\n"
    "            RuleSet.header_start = 'X-'\n"
    '        self.header_mod[msg_status].append')]),
 ('P02',
  'bad',
  'header-start-type',
  [('oa/rules/ruleset.py',
    '        self.header_mod[msg_status].append',
    "        if remove and header_name == 'X-Spam-ALL':\n"
    "            type(self).header_start = 'X-'\n"
    '        self.header_mod[msg_status].append')]),
 ('P02',
  'bad',
  'init-default',
  [('oa/rules/ruleset.py',
    '    def __init__(self, ctxt):',
    '    def __init__(self, ctxt, tags=set()):'),
   ('oa/rules/ruleset.py',
    '        self.tags = set()',
    '        self.tags = tags')]),
 ('P02',
  'bad',
  'closure-list',
  [('oa/plugins/base.py',
    'connect_string = None\n        self',
    'connect_string = None\n        _DSNS.append(self.dsn)\n        self'),
   ('oa/plugins/base.py',
    'class BasePlugin(',
    '_DSNS = []\n\n\nclass BasePlugin(')]),
 ('P02',
  'bad',
  'user-net-alias',
  [('oa/server.py',
    '            parser.parse_file(path)\n',
    '            parser.ctxt.networks.trusted = '
    'self._ruleset.ctxt.networks.trusted\n'
    '            parser.parse_file(path)\n')]),
 ('P02',
  'bad',
  'user-tags-alias',
  [('oa/server.py',
    '            parser.parse_file(path)\n',
    '            parser.ruleset.tags = self._ruleset.tags\n'
    '            parser.ruleset.header_mod = self._ruleset.header_mod\n'
    '            parser.parse_file(path)\n')]),
 ('P02',
  'bad',
  'user-plugin-data',
  [('oa/server.py',
    '            parser.parse_file(path)\n',
    '            '
    'parser.ctxt.plugin_data.update(self._ruleset.ctxt.plugin_data)\n'
    '            parser.parse_file(path)\n')]),
 ('P02',
  'bad',
  'user-parser',
  [('oa/server.py',
    '            parser.parse_file(path)\n            ruleset',
    '            parser.ctxt = self._ruleset.ctxt\n'
    '            parser.parse_file(path)\n'
    '            ruleset')]),
 ('P02',
  'bad',
  'user-reloads',
  [('oa/server.py',
    '            parser.parse_file(path)\n            ruleset',
    '            parser.parse_file(path)\n'
    '            self._parser_results = parser.results\n'
    '            ruleset')]),
 ('P02',
  'bad',
  'user-setting',
  [('oa/server.py',
    '            ruleset.ctxt.username = user',
    "            self._ruleset.conf['required_score'] = "
    "ruleset.conf['required_score']\n"
    '            ruleset.ctxt.username = user')]),
 ('P01',
  'bad',
  'spf-global-result',
  [('oa/plugins/spf.py',
    '        self.check_result = dict.fromkeys(RESULTS, 0)\n\n    def parsed',
    '        self.check_result.update(check_spf_pass=0)\n\n    def parsed')]),
 ('P01',
  'bad',
  'option-from-msg',
  [('oa/plugins/textcat.py',
    '        if "all" in ok_languages:',
    '        if not langs:\n'
    "            self['ok_languages'] = ['all']\n"
    '        if "all" in ok_languages:')]),
 ('P01',
  'bad',
  'log-extra',
  [('oa/plugins/textcat.py',
    '        langs = [lang.lang',
    '        self.ctxt.last_langs = results or getattr(self.ctxt, '
    "'last_langs', [])\n"
    '        results = self.ctxt.last_langs\n'
    '        langs = [lang.lang')]),
 ('P01',
  'bad',
  'memo-class',
  [('oa/message.py',
    '        self._cache_name = cache_name\n',
    '        self._cache_name = cache_name\n        self._all = {}\n'),
   ('oa/message.py',
    '            cache = getattr(fself, self._cache_name)',
    '            cache = self._all')]),
 ('P01',
  'bad',
  'memo-class-nested',
  [('oa/message.py',
    '        @functools.wraps(func)\n        def wrapped_func(fself, name):',
    '        cache = {}\n'
    '\n'
    '        @functools.wraps(func)\n'
    '        def wrapped_func(fself, name):'),
   ('oa/message.py',
    '            cache = getattr(fself, self._cache_name)\n',
    '')])]
