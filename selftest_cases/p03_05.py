C, R, S = "oa/protocol/check.py", "oa/rules/ruleset.py", "oa/plugins/short_circuit.py"
CASES = [
("P05", "bad", "exclusive threshold", [(C, 'if msg.score >= self', 'if msg.score > self')]),
("P05", "bad", "tags swapped", [(R, '"YES" if spam else "NO"', '"NO" if spam else "YES"')]),
("P05", "bad", "adjusted exclusive", [(R, '        spam = msg.score >= self.conf["required_score"]\n        if not spam or', '        spam = msg.score > self.conf["required_score"]\n        if not spam or')]),
("P05", "bad", "spam headers on ham", [(R, '        if spam:\n            self._adjust_headers(msg, newmsg, self.header_mod["spam"])', '        if self.header_mod["spam"]:\n            self._adjust_headers(msg, newmsg, self.header_mod["spam"])')]),
("P05", "bad", "ifspam", [(C, 'if msg.score < self.ruleset.conf["required_score"]:\n            return', 'if msg.score <= self.ruleset.conf["required_score"]:\n            return')]),
("P05", "bad", "score before check", [(C, '        self.ruleset.match(msg)\n        if msg', '        score = msg.score\n        self.ruleset.match(msg)\n        if score')]),
("P05", "bad", "rounded", [(C, 'if msg.score >= self', 'if round(msg.score, 1) >= self')]),
("P05", "ok", "helper on ruleset", [
  (R, '    def _interpolate(self, text, msg):', '    def is_spam(self, msg):\n        """Verdict."""\n        return not msg.score < self.conf["required_score"]\n\n    def _interpolate(self, text, msg):'),
  (R, '        spam = msg.score >= self.conf["required_score"]\n        data', '        spam = self.is_spam(msg)\n        data'),
  (R, '        spam = msg.score >= self.conf["required_score"]\n        if not spam or', '        spam = self.is_spam(msg)\n        if not spam or'),
  (C, '        if msg.score >= self.ruleset.conf["required_score"]:\n            spam = True\n        else:\n            spam = False\n', '        spam = self.ruleset.is_spam(msg)\n'),
  (C, 'if msg.score < self.ruleset.conf["required_score"]:\n            return\n        result = super(ReportIfSpamCommand, self).extra_details(msg, options)\n        for line in result:\n            yield line', 'if self.ruleset.is_spam(msg):\n            for line in super(ReportIfSpamCommand, self).extra_details(msg, options):\n                yield line'),
 ]),
("P05", "ok", "reordered", [
  (C, '        if msg.score >= self.ruleset.conf["required_score"]:\n            spam = True\n        else:\n            spam = False\n        yield "Spam: %s ; %.1f / %s\\r\\n" % (spam, msg.score,\n                                            self.ruleset.conf["required_score"])\n', '        required = self.ruleset.conf["required_score"]\n        score = msg.score\n        verdict = "True" if required <= score else "False"\n        yield "Spam: {} ; {:.1f} / {}\\r\\n".format(verdict, score, required)\n'),
  (R, '        if spam:\n            self._adjust_headers(msg, newmsg, self.header_mod["spam"])\n        else:\n            self._adjust_headers(msg, newmsg, self.header_mod["ham"])', '        status = "spam" if spam else "ham"\n        self._adjust_headers(msg, newmsg, self.header_mod[status])'),
 ]),
("P05", "bad", "match.py report before check", [("scripts/match.py", '                ruleset.match(msg)\n                print(ruleset.get_report(msg))\n            else', '                print(ruleset.get_report(msg))\n            else')]),
("P03", "bad", "add twice for str", [(R, '                    msg.rules_descriptions[name] = result\n', '                    msg.rules_descriptions[name] = result\n                    msg.score += rule.score\n')]),
("P03", "bad", "ham score for spam", [(S, 'self.spam_score', 'self.ham_score')]),
("P03", "bad", "recorded after short-circuit", [(R, '                msg.rules_checked[name] = result\n                if result:\n                    msg.score += rule.score', '                if result:\n                    msg.rules_checked[name] = result\n                    msg.score += rule.score')]),
("P04", "bad", "narrow except", [(R, 'except Exception as e:\n                    self.ctxt.log.critical("Unable', 'except (ValueError, TypeError) as e:\n                    self.ctxt.log.critical("Unable')]),
("P04", "bad", "hooks inside try", [(R, '        self.ctxt.hook_check_end(self, msg)\n        self.ctxt.hook_auto_learn(self, msg)', '        else:\n            self.ctxt.hook_check_end(self, msg)\n        self.ctxt.hook_auto_learn(self, msg)')]),
("P04", "ok", "extracted", [(R, '                try:\n                    result = rule.match(msg)\n                except oa.errors.StopProcessing as e:\n                    raise\n                except Exception as e:\n                    self.ctxt.log.critical("Unable to run rule %r: %s",\n                                           name, e, exc_info=True)\n                    result = False\n', '                result = self._run_rule(name, rule, msg)\n'),
   (R, '    def match(self, msg):', '    def _run_rule(self, name, rule, msg):\n        try:\n            return rule.match(msg)\n        except oa.errors.StopProcessing:\n            raise\n        except Exception as e:\n            self.ctxt.log.critical("Unable to run rule %r: %s",\n                                   name, e, exc_info=True)\n        return False\n\n    def match(self, msg):')]),
]
