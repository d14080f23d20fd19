R = "oa/rules/ruleset.py"
C = "oa/protocol/check.py"
P = "oa/protocol/process.py"
M = "oa/message.py"
MATCHED = '''        report = []
        for name, result in msg.rules_checked.items():
            if not result:
                continue
            rule = self.get_rule(name)
            report.append('''
SUMM = '''            if not result:
                continue
            rule = self.get_rule(name)
            if rule.score'''
CASES = [
    ("P24", "bad", "all-rules", [(R, MATCHED, MATCHED.replace(
        "if not result", "if result is None"))]),
    ("P24", "bad", "true-only", [(R, MATCHED, MATCHED.replace(
        "if not result", "if result is not True"))]),
    ("P24", "bad", "first-25", [(R, '        report = "\\r\\n".join(report)',
                                 '        report = "\\r\\n".join(report[:25])')]),
    ("P24", "bad", "checked-only", [(R, SUMM, SUMM.replace(
        "get_rule(name)", "get_rule(name, checked_only=True)"))]),
    ("P24", "bad", "hide-subrules", [(R, SUMM, SUMM.replace(
        "if not result", "if not result or name.startswith('__')"))]),
    ("P24", "bad", "set-of-names", [(R, '''            matched_rules = [name for name, result in msg.rules_checked.items()
                             if result]
            if not''', '''            matched_rules = [name for name in self.checked
                             if msg.rules_checked.get(name)]
            if not''')]),
    ("P24", "bad", "tests-none", [(R, 'data["TESTS"] = "none"',
                                   'data["TESTS"] = ""')]),
    ("P24", "bad", "wrong-desc", [(R, "msg.rules_descriptions[name])",
                                   "self.get_rule(list(msg.rules_checked)[0])"
                                   ".description)")]),
    ("P24", "bad", "verdict", [(R, '"YES" if spam else "NO"',
                                '"NO" if spam else "YES"')]),
    ("P24", "bad", "strict", [(R, '''        spam = msg.score >= self.conf["required_score"]
        data =''', '''        spam = msg.score > self.conf["required_score"]
        data =''')]),
    ("P24", "bad", "reqd", [(R, 'data["REQD"] = "%0.1f"', 'data["REQD"] = "%d"')]),
    ("P24", "bad", "no-escape", [(R, 'text.replace("%", "%%")', "text")]),
    ("P24", "bad", "cached-in-ruleset", [(R, '''        if msg.interpolate_data:
            return text % msg.interpolate_data
''', '''        if getattr(self, "cached", None):
            return text % self.cached
        self.cached = msg.interpolate_data
''')]),
    ("P24", "bad", "retemplate", [(R, '''        data.update(msg.plugin_tags)
        return text % msg.interpolate_data''', '''        for tag, value in msg.plugin_tags.items():
            data[tag] = value.replace("_SCORE_", data["SCORE"])
        return text % msg.interpolate_data''')]),
    ("P24", "bad", "double", [(R, '''        data.update(msg.plugin_tags)
        return text % msg.interpolate_data''', '''        for tag, value in msg.plugin_tags.items():
            text = text.replace("%%(%s)s" % tag, value)
        return text % msg.interpolate_data''')]),
    ("P24", "bad", "tags-late", [(R, "data.update(msg.plugin_tags)\n", "pass\n")]),
    ("P24", "bad", "report-once", [(R, '''        if "REPORT" in self.tags:
''', '''        if "REPORT" in self.tags and "SUMMARY" in self.tags:
''')]),
    ("P24", "bad", "last-line", [(R, '''        self.conf["report"] = "\\n".join(
            self._convert_tags(value)
            for value in self.conf["report"]
        )''', '''        self.conf["report"] = "\\n".join(
            self._convert_tags(value)
            for value in self.conf["report"][-1:]
        )''')]),
    ("P24", "bad", "unsafe-own", [(R, '''            for value in self.conf["unsafe_report"]
''', '''            for value in self.conf["report"]
''')]),
    ("P24", "bad", "status-case", [(R, "        msg_status = msg_status.lower()\n", "")]),
    ("P24", "bad", "ham-for-spam", [(R, '''            self._adjust_headers(msg, newmsg, self.header_mod["ham"])
        if header_only''', '''            self._adjust_headers(msg, newmsg, self.header_mod["spam"])
        if header_only''')]),
    ("P24", "bad", "one-bad-all-bad", [(R, '''                try:
                    self._add_header_rule(value, remove)
                except oa.errors.InvalidRule as e:
                    self.ctxt.err(e)
                    if self.ctxt.paranoid:
                        raise

''', '''                try:
                    self._add_header_rule(value, remove)
                except oa.errors.InvalidRule as e:
                    self.ctxt.err(e)
                    if self.ctxt.paranoid:
                        raise
                    break

''')]),
    ("P24", "bad", "remove-adds", [(R, '("remove_header", True)):',
                                    '("remove_header", False)):')]),
    ("P24", "bad", "no-prefix", [(R, "header_name = self.header_start + header_name",
                                  "header_name = header_name")]),
    ("P24", "bad", "split-value", [(R, "value.split(None, 2)", "value.split()[:3]")]),
    ("P24", "bad", "silent", [(R, '''                    self.ctxt.err(e)
                    if self.ctxt.paranoid:
                        raise

        for value in self.conf['dns''', '''                    if self.ctxt.paranoid:
                        raise

        for value in self.conf['dns''')]),
    ("P24", "bad", "symbols", [(C, '''        yield ",".join(name for name, result in msg.rules_checked.items()
                       if result)''', '''        yield ",".join(name for name, result in msg.rules_checked.items()
                       if result and not name.startswith("__"))''')]),
    ("P24", "bad", "ifspam-strict", [(C, '''        if msg.score < self.ruleset.conf["required_score"]:
            return''', '''        if msg.score <= self.ruleset.conf["required_score"]:
            return''')]),
    ("P24", "bad", "headers-full", [(P, ", header_only=True", "")]),
    ("P24", "ok", "loop", [(R, '''            matched_rules = [name for name, result in msg.rules_checked.items()
                             if result]
            if not matched_rules:
                data["TESTS"] = "none"
            else:
                data["TESTS"] = ",".join(matched_rules)
''', '''            matched = []
            for name in msg.rules_checked:
                if msg.rules_checked[name]:
                    matched.append(name)
            data["TESTS"] = ",".join(matched) or "none"
''')]),
    ("P24", "ok", "helper", [(R, '''    def get_summary_report(self, msg):
        """Get summary report."""
        summary = []
        for name, result in msg.rules_checked.items():
            if not result:
                continue
            rule = self.get_rule(name)
''', '''    def _matching(self, msg):
        for name, result in msg.rules_checked.items():
            if result:
                yield self.get_rule(name)

    def get_summary_report(self, msg):
        """Get summary report."""
        summary = []
        for rule in self._matching(msg):
''')]),
    ("P24", "ok", "update", [(R, '''        data["YESNOCAPS"] = "YES" if spam else "NO"
        data["YESNO"] = "Yes" if spam else "No"
''', '''        if spam:
            data.update({"YESNOCAPS": "YES", "YESNO": "Yes"})
        else:
            data.update(YESNOCAPS="NO", YESNO="No")
''')]),
    ("P24", "ok", "partition", [(R, '''            for value in self.conf[option]:
                try:
                    self._add_header_rule(value, remove)
                except oa.errors.InvalidRule as e:
                    self.ctxt.err(e)
                    if self.ctxt.paranoid:
                        raise
''', '''            self._header_rules(self.conf[option], remove)
'''), (R, '''    def call_postparsing(self):
''', '''    def _header_rules(self, values, remove):
        for value in values:
            try:
                self._add_header_rule(value, remove)
            except oa.errors.InvalidRule as e:
                self.ctxt.err(e)
                if self.ctxt.paranoid:
                    raise

    def call_postparsing(self):
''')]),
    ("P24", "ok", "convert", [(R, '''        for tag in _TAG_RE.findall(text):
            self.tags.add(tag[1])
''', '''        self.tags.update(tag for _, tag in _TAG_RE.findall(text))
''')]),
    ("P24", "ok", "symbols-list", [(C, '''        yield ",".join(name for name, result in msg.rules_checked.items()
                       if result)''', '''        names = []
        for name, result in msg.rules_checked.items():
            if result:
                names.append(name)
        yield ",".join(names)''')]),

    ("P25", "bad", "same-object", [(R, "newmsg = email.message_from_string(msg.raw_msg)",
                                    "newmsg = msg.msg")]),
    ("P25", "bad", "shallow", [(R, "newmsg = email.message_from_string(msg.raw_msg)",
                                "import copy\n            newmsg = copy.copy(msg.msg)")]),
    ("P25", "bad", "text-only", [(R, "original_attachment.set_payload(msg.raw_msg)",
                                  "original_attachment.set_payload(msg.raw_text)")]),
    ("P25", "bad", "cut", [(R, "original_attachment.set_payload(msg.raw_msg)",
                            "original_attachment.set_payload(msg.raw_msg[:100000])")]),
    ("P25", "bad", "safe-2", [(R, 'if self.conf["report_safe"] == 2:',
                               'if self.conf["report_safe"] >= 1:')]),
    ("P25", "bad", "header-bounce", [(R, "if not spam or header_only or self",
                                      "if not spam or self")]),
    ("P25", "bad", "ham-bounce", [(R, "if not spam or header_only or self",
                                   "if header_only or self")]),
    ("P25", "bad", "report-header-any", [(R, 'if spam and self.conf["report_safe"] == 0:',
                                          'if self.conf["report_safe"] == 0:')]),
    ("P25", "bad", "report-header-1", [(R, 'if spam and self.conf["report_safe"] == 0:',
                                        'if spam and self.conf["report_safe"] <= 1:')]),
    ("P25", "bad", "bounce-2-only", [(R, 'header_only or self.conf["report_safe"] == 0',
                                      'header_only or self.conf["report_safe"] < 2')]),
    ("P25", "bad", "header-body", [(R, '''newmsg.as_string().split("\\n\\n", 1)[0] + "\\n\\n"''',
                                    '''newmsg.as_string().rsplit("\\n\\n", 1)[0] + "\\n\\n"''')]),
    ("P25", "bad", "header-end", [(R, '''newmsg.as_string().split("\\n\\n", 1)[0] + "\\n\\n"''',
                                   '''newmsg.as_string().split("\\n\\n", 1)[0]''')]),
    ("P25", "bad", "strip-own", [(R, '''        for remove, name, value in rules:
            if remove:
''', '''        for remove, name, value in rules:
            del newmsg["X-Spam-Old"]
            if remove:
''')]),
    ("P25", "bad", "strip-original", [(R, '''        for remove, name, value in rules:
            if remove:
''', '''        for remove, name, value in rules:
            del msg.msg[name]
            if remove:
''')]),
    ("P25", "bad", "no-report", [(R, "report_message = self.get_report(msg) + self.get_unsafe_report(msg)",
                                  "report_message = self.get_report(msg)")]),
    ("P25", "bad", "raw-value", [(R, '''self._header_value(
                    self._interpolate(value, msg))''', "self._interpolate(value, msg)")]),
    ("P25", "bad", "value-cut", [(R, '''        return "\\n ".join(line.strip() for line in text.splitlines()
                          if line.strip())''', '''        return text.strip().split("\\n")[0]''')]),
    ("P25", "bad", "value-blank", [(R, '''        return "\\n ".join(line.strip() for line in text.splitlines()
                          if line.strip())''', '''        return "\\n ".join(text.splitlines())''')]),
    ("P25", "bad", "replace-raw", [(R, '''        newmsg.preamble = "This''', '''        msg.raw_msg = msg.raw_msg.rstrip()
        newmsg.preamble = "This''')]),
    ("P25", "bad", "plugin-del", [("oa/plugins/header_eval.py", '''        message = msg.raw_msg
''', '''        message = msg.raw_msg
        del msg.msg["X-Spam-Status"]
''')]),
    ("P25", "bad", "date", [(R, '''        msg_date = msg.msg["Date"] or''', '''        msg.msg["Date"] = msg.msg["Date"] or ""
        msg_date = msg.msg["Date"] or''')]),
    ("P25", "ok", "deepcopy", [(R, "newmsg = email.message_from_string(msg.raw_msg)",
                                "import copy\n            newmsg = copy.deepcopy(msg.msg)")]),
    ("P25", "ok", "partition", [(R, '''newmsg.as_string().split("\\n\\n", 1)[0] + "\\n\\n"''',
                                 '''newmsg.as_string().partition("\\n\\n")[0] + "\\n\\n"''')]),
    ("P25", "ok", "helper", [(R, '''        if not spam or header_only or self.conf["report_safe"] == 0:
            newmsg = email.message_from_string(msg.raw_msg)
        else:
            newmsg = self._get_bounce_message(msg)
''', '''        wrap = spam and not header_only and self.conf["report_safe"] != 0
        if wrap:
            newmsg = self._get_bounce_message(msg)
        else:
            newmsg = self._copy(msg)
'''), (R, '''    def _adjust_headers(self''', '''    def _copy(self, msg):
        return email.message_from_string(msg.raw_msg)

    def _adjust_headers(self''')]),
    ("P25", "ok", "status", [(R, '''        if spam:
            self._adjust_headers(msg, newmsg, self.header_mod["spam"])
        else:
            self._adjust_headers(msg, newmsg, self.header_mod["ham"])
''', '''        status = "spam" if spam else "ham"
        self._adjust_headers(msg, newmsg, self.header_mod[status])
''')]),
    ("P25", "ok", "mimetype", [(R, '''        attach_type = ("message", "rfc882")
        if self.conf["report_safe"] == 2:
            attach_type = ("text", "plain")
''', '''        attach_type = (("text", "plain") if self.conf["report_safe"] == 2
                       else ("message", "rfc882"))
''')]),
    ("P25", "ok", "value-list", [(R, '''        return "\\n ".join(line.strip() for line in text.splitlines()
                          if line.strip())''', '''        lines = []
        for line in text.splitlines():
            line = line.strip()
            if line:
                lines.append(line)
        return "\\n ".join(lines)''')]),
]
