B, H, R, P, X = ("oa/rules/base.py", "oa/rules/header.py", "oa/rules/ruleset.py",
              "oa/rules/parser.py", "oa/regex.py")
M, U, UD, BO = "oa/message.py", "oa/rules/uri.py", "oa/plugins/uri_detail.py", "oa/rules/body.py"
CASES = [
("P10", "bad", "adv swapped", [(B, "(False, True): lambda scores: scores[1]", "(False, True): lambda scores: scores[2]"), (B, "(True, False): lambda scores: scores[2]", "(True, False): lambda scores: scores[1]")]),
("P10", "bad", "flags order", [(B, 'flags = ruleset.conf["use_bayes"], ruleset.conf["use_network"]', 'flags = ruleset.conf["use_network"], ruleset.conf["use_bayes"]')]),
("P10", "bad", "net flag", [(B, 'if not ruleset.conf["use_network"] and "net"', 'if ruleset.conf["use_network"] and "net"')]),
("P10", "bad", "uri tflags", [(U, "priority=priority, tflags=tflags)", "priority=priority)")]),
("P10", "bad", "hidden nonzero", [(B, '            return False\n        elif', '            return bool(self.tflags)\n        elif')]),
("P10", "bad", "drop zero", [(B, '        self.score = self._scores[0]', '        self.score = self._scores[0] or 1.0')]),
("P10", "bad", "add before preprocess", [(R, '        rule.preprocess(self)\n        if rule.should_check():\n            self.checked[rule.name] = rule\n        else:\n            self.not_checked[rule.name] = rule\n', '        if rule.should_check():\n            self.checked[rule.name] = rule\n        else:\n            self.not_checked[rule.name] = rule\n        rule.preprocess(self)\n')]),
("P10", "bad", "mime prio", [(H, 'desc=desc,\n                                                     priority=priority,\n', 'desc=desc,\n')]),
("P10", "ok", "refactor kwargs", [(B, '            kwargs["score"] = list(map(float, data["score"].strip().split()))\n        except KeyError:\n            pass\n', '            if "score" in data:\n                kwargs["score"] = [float(x) for x in data["score"].split()]\n'),
   (B, '        try:\n            kwargs["priority"] = data["priority"].strip()\n        except KeyError:\n            pass\n', '        priority = data.get("priority")\n        if priority is not None:\n            kwargs["priority"] = priority.strip()\n')]),
("P10", "ok", "refactor preprocess", [(B, '        flags = ruleset.conf["use_bayes"], ruleset.conf["use_network"]\n        self.score = _ADVANCED_SCORING[flags](self._scores)', '        conf = ruleset.conf\n        index = 0\n        if conf["use_bayes"]:\n            index += 2\n        if conf["use_network"]:\n            index += 1\n        self.score = self._scores[index]')]),
("P10", "ok", "flag helper", [(B, '    def preprocess(self, ruleset):\n', '    def _disabled(self, conf):\n        flags = self.tflags or ()\n        return (("net" in flags and not conf["use_network"]) or\n                ("noautolearn" in flags and conf["autolearn"]) or\n                ("learn" in flags and not conf["use_bayes"]) or\n                ("userconf" in flags and not conf["user_config"]))\n\n    def preprocess(self, ruleset):\n        if self._disabled(ruleset.conf):\n            self.score = 0\n            return\n'), (B, '        if self.tflags:\n            if not ruleset', '        if False:\n            if not ruleset')]),
("P30", "bad", "asc", [(R, "key=itemgetter(1), reverse=False", "key=itemgetter(1), reverse=True")]),
("P30", "bad", "key name", [(R, "key=itemgetter(1), reverse=False", "key=itemgetter(0), reverse=False")]),
("P30", "bad", "le", [(B, "return other.priority <= self.priority", "return other.priority >= self.priority")]),
("P30", "bad", "lt score", [(B, "return other.priority < self.priority", "return (other.priority, other.score) < (self.priority, self.score)")]),
("P30", "bad", "post before hook", [(P, '        self.ctxt.hook_parsing_end(self.ruleset)\n', ''), (P, '        self.ruleset.post_parsing()\n', '        self.ruleset.post_parsing()\n        self.ctxt.hook_parsing_end(self.ruleset)\n')]),
("P30", "bad", "reversed asc (unstable)", [(R, "sorted(self.checked.items(), key=itemgetter(1), reverse=False))", "reversed(sorted(self.checked.items(), key=itemgetter(1), reverse=True)))")]),
("P30", "ok", "key prio", [(R, "key=itemgetter(1), reverse=False", "key=lambda item: item[1].priority, reverse=True")]),
("P30", "ok", "neg prio", [(R, "key=itemgetter(1), reverse=False", "key=lambda item: -item[1].priority")]),
("P30", "ok", "list sort", [(R, "        self.checked = collections.OrderedDict(\n            sorted(self.checked.items(), key=itemgetter(1), reverse=False))", "        rules = list(self.checked.items())\n        rules.sort(key=itemgetter(1))\n        self.checked = collections.OrderedDict(rules)")]),
("P31", "bad", "not match", [(X, "return 0 if self._pattern.search(text) else 1", "return 0 if self._pattern.match(text) else 1")]),
("P31", "bad", "swapped", [(X, 'return 1 if self._pattern.search(text) else 0', 'return 0 if self._pattern.search(text) else 1')]),
("P31", "bad", "flag m", [(X, '"m": re.MULTILINE', '"m": re.DOTALL')]),
("P31", "bad", "no flags neg", [(X, 'NotMatchPattern(re.compile(pattern, flags))', 'NotMatchPattern(re.compile(pattern))')]),
("P31", "bad", "op dropped", [(H, 'kwargs["pattern"] = oa.regex.perl2re(pattern, match_op)\n            if header_name == "ALL"', 'kwargs["pattern"] = oa.regex.perl2re(pattern)\n            if header_name == "ALL"')]),
("P31", "bad", "membership", [(H, '        match_op = _get_match_op(value)\n        if match_op is not None:', '        match_op = "=~" if "=~" in value else "!~" if "!~" in value else None\n        if match_op is not None:')]),
("P31", "bad", "rsplit", [(H, 'value.split(match_op, 1)\n            header_name = ', 'value.rsplit(match_op, 1)\n            header_name = ')]),
("P31", "bad", "except", [(X, "    except (re.error, OverflowError) as e:", "    except ValueError as e:"), (X, "InvalidRegex(\"Invalid regex %r: %s\"", "InvalidRegex(\"Invalid  regex %r: %s\"")]),
("P31", "bad", "uri_detail op", [(UD, "oa.regex.perl2re(regex, oper)", "oa.regex.perl2re(regex)")]),
("P31", "ok", "refactor perl2re", [(X, '        if match_op == "=~":\n            return MatchPattern(re.compile(pattern, flags))\n        elif match_op == "!~": return NotMatchPattern(re.compile(pattern, flags))\n', '        compiled = re.compile(pattern, flags)\n'), (X, '    raise oa.errors.InvalidRegex("Invalid match operator %r" % match_op)', '    if match_op == "=~":\n        return MatchPattern(compiled)\n    if match_op == "!~":\n        return NotMatchPattern(compiled)\n    raise oa.errors.InvalidRegex("Invalid match operator %r" % match_op)')]),
("P31", "ok", "flags loop", [(X, 'flags = reduce(operator.or_, (FLAGS.get(flag, 0) for flag in flags_str), 0)', 'flags = 0\n    for flag in flags_str:\n        flags |= FLAGS.get(flag, 0)')]),
("P31", "ok", "bool pattern", [(X, "return 1 if self._pattern.search(text) else 0", "return int(self._pattern.search(text) is not None)")]),
("P32", "bad", "body raw", [(BO, "self._pattern.match(msg.text)", "self._pattern.match(msg.raw_text)")]),
("P32", "bad", "first only", [(H, '''        for value in msg.get_decoded_header(self._header_name):
            if self._pattern.match(value):
                return True
        return False''', '''        for value in msg.get_decoded_header(self._header_name):
            return bool(self._pattern.match(value))
        return False''')]),
("P32", "bad", "swap addr name", [(H, 'if mod == "addr":\n                    return _PatternAddr', 'if mod == "addr":\n                    return _PatternName')]),
("P32", "bad", "tocc", [(H, '_headers = ("To", "Cc")', '_headers = ("To",)')]),
("P32", "bad", "exists decoded", [(H, "return self._header_name in msg.raw_headers", "return self._header_name in msg.headers")]),
("P32", "bad", "raw decoded", [(H, "for value in msg.get_raw_header(self._header_name):", "for value in msg.get_decoded_header(self._header_name):")]),
("P32", "ok", "any", [(H, '''        for value in msg.get_decoded_header(self._header_name):
            if self._pattern.match(value):
                return True
        return False''', '''        values = msg.get_decoded_header(self._header_name)
        return any(self._pattern.match(value) for value in values)''')]),
("P32", "ok", "helper", [(H, '''        for value in msg.get_decoded_header(self._header_name):
            if self._pattern.match(value):
                return True
        return False''', '''        return self._any(msg.get_decoded_header(self._header_name))

    def _any(self, values):
        found = False
        for value in values:
            if self._pattern.match(value):
                found = True
                break
        return found''')]),
]
