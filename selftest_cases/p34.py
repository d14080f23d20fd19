A = "oa/plugins/auto_learn_threshold.py"
TAIL = '''        if self.should_learn(msg) and bayes is not None:
            if self.get_local(msg, "learner_thinks_spam"):
                bayes.plugin_report(msg)
            elif self.get_local(msg, "learner_thinks_ham"):
                bayes.plugin_revoke(msg)
'''
MATCHED = '''        matched = {name: rule for name, rule in ruleset.checked.items()
                   if msg.rules_checked.get(name)}
'''
CASES = [
    ("P34", "bad", "all-checked", [(A, "tests=matched)", "tests=ruleset.checked)")]),
    ("P34", "bad", "ham-as-spam", [(A, '            elif self.get_local(msg, "learner_thinks_ham"):\n                bayes.plugin_revoke(msg)', '            else:\n                bayes.plugin_report(msg)')]),
    ("P34", "bad", "ham-never", [(A, '            elif self.get_local(msg, "learner_thinks_ham"):\n                bayes', '            elif self.get_local(msg, "learner_thinks_spam"):\n                bayes')]),
    ("P34", "bad", "spam-strict-verdict", [(A, "if msg.score <= self.ctxt.conf", "if msg.score <= 0 * self.ctxt.conf")]),
    ("P34", "bad", "ham-verdict", [(A, "            if msg.score >= self.ctxt.conf['required_score']:", "            if msg.score > self.ctxt.conf['required_score']:")]),
    ("P34", "bad", "threshold-swap", [(A, "points >= self['bayes_auto_learn_threshold_spam']", "points >= self['bayes_auto_learn_threshold_nonspam']")]),
    ("P34", "bad", "threshold-msg-score", [(A, "points >= self['bayes_auto_learn_threshold_spam']", "msg.score >= self['bayes_auto_learn_threshold_spam']")]),
    ("P34", "bad", "ham-threshold", [(A, "points < self['bayes_auto_learn_threshold_nonspam']", "points < self['bayes_auto_learn_threshold_spam']")]),
    ("P34", "bad", "noautolearn", [(A, '["noautolearn", "userconf"]', '["userconf"]')]),
    ("P34", "bad", "userconf", [(A, '["noautolearn", "userconf"]', '["noautolearn"]')]),
    ("P34", "bad", "subset", [(A, 'if set(tflags).intersection(["noautolearn", "userconf"]):', 'if set(tflags).issubset(["noautolearn", "userconf"]):')]),
    ("P34", "bad", "header-min", [(A, "if header_points < min_header_points:", "if header_points < min_body_points - 1:")]),
    ("P34", "bad", "body-min", [(A, "if body_points < min_body_points:", "if body_points + header_points < min_body_points:")]),
    ("P34", "bad", "learned-ham", [(A, "if learned_points < LEARNER_HAM_POINTS:", "if learned_points < MIN_BODY_POINTS_LOW_THRESHOLD:")]),
    ("P34", "bad", "learned-spam", [(A, "if learned_points > LEARNER_SPAM_POINTS:", "if learned_points < LEARNER_HAM_POINTS:")]),
    ("P34", "bad", "learn-counted", [(A, '''                learn_points += rule.score
                continue
''', '''                learn_points += rule.score
''')]),
    ("P34", "bad", "learn-last", [(A, "learn_points += rule.score", "learn_points = rule.score")]),
    ("P34", "bad", "forced-last", [(A, 'autolearn_forced = autolearn_forced or "autolearn_force" in tflags', 'autolearn_forced = "autolearn_force" in tflags')]),
    ("P34", "bad", "forced-always", [(A, "        if autolearn_forced:\n", "        if not autolearn_forced:\n")]),
    ("P34", "bad", "uri", [(A, "('body', 'uri')", "('body', 'full')")]),
    ("P34", "bad", "meta-net", [(A, "elif rule.rule_type == 'meta' and 'net' not in tflags:", "elif rule.rule_type == 'meta':")]),
    ("P34", "bad", "on-error", [(A, "if self['bayes_auto_learn_on_error'] and self.bayes_agrees(msg)", "if self['bayes_auto_learn_on_error'] and not self.bayes_agrees(msg)")]),
    ("P34", "bad", "agrees-any", [(A, "if not learner_thinks_spam and bayes_thinks_ham:", "if learner_thinks_spam and bayes_thinks_ham:")]),
    ("P34", "bad", "bayes-names", [(A, '"BAYES_99" in tests', '"BAYES_00" in tests')]),
    ("P34", "bad", "no-bayes", [(A, "if self.should_learn(msg) and bayes is not None:", "if self.should_learn(msg):")]),
    ("P34", "bad", "should-ignored", [(A, "if self.should_learn(msg) and bayes is not None:", "if bayes is not None:")]),
    ("P34", "ok", "helper", [(A, "    def auto_learn_discriminator(self", '''    def _matched(self, ruleset, msg):
        res = {}
        for name, rule in ruleset.checked.items():
            if not msg.rules_checked.get(name):
                continue
            res[name] = rule
        return res

    def auto_learn_discriminator(self'''), (A, MATCHED, "        matched = self._matched(ruleset, msg)\n")]),
    ("P34", "ok", "names", [(A, MATCHED, '''        matched = dict((name, ruleset.checked[name])
                       for name, result in msg.rules_checked.items()
                       if result and name in ruleset.checked)
''')]),
    ("P34", "ok", "early", [(A, TAIL, '''        if bayes is None or not self.should_learn(msg):
            return
        spam = self.get_local(msg, "learner_thinks_spam")
        (bayes.plugin_report if spam else bayes.plugin_revoke)(msg)
''')]),
    ("P34", "ok", "set-and", [(A, 'if set(tflags).intersection(["noautolearn", "userconf"]):', 'if set(tflags) & {"noautolearn", "userconf"}:')]),
    ("P34", "ok", "any", [(A, 'if set(tflags).intersection(["noautolearn", "userconf"]):', 'if any(flag in tflags for flag in ("noautolearn", "userconf")):')]),
    ("P34", "ok", "combined", [(A, '''            if msg.score <= self.ctxt.conf['required_score']:
                self''', '''            if not msg.score > self.ctxt.conf['required_score']:
                self''')]),
    ("P34", "ok", "agrees", [(A, '''        if learner_thinks_spam and bayes_thinks_spam:
            return True
        if not learner_thinks_spam and bayes_thinks_ham:
            return True
        return False
''', '''        return bool(bayes_thinks_spam if learner_thinks_spam
                    else bayes_thinks_ham)
''')]),
    ("P34", "ok", "list", [(A, "        for name, rule in self.valid_tests(tests):\n            tflags", "        valid = list(self.valid_tests(tests))\n        for name, rule in valid:\n            tflags")]),
    ("P34", "ok", "sums", [(A, "            points += rule.score\n", ""), (A, '''        self.ctxt.log.debug(
            "autolearn_points''', '''        points = sum(rule.score for _, rule in self.valid_tests(tests)
                     if "learn" not in (rule.tflags or []))
        self.ctxt.log.debug(
            "autolearn_points''')]),
]
