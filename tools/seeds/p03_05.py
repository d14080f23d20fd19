import os
import runpy
SETUP = runpy.run_path(os.path.join(os.path.dirname(__file__), "common.py"))["SETUP"]
C, R, S = "oa/protocol/check.py", "oa/rules/ruleset.py", "oa/plugins/short_circuit.py"
SEEDS = [
dict(id="P03-1", prop="P03", edits=[(S,
'        msg.score += self.rule.score\n\n        if self.stype == "spam":\n            msg.score += self.spam_score\n',
'        msg.score += self.rule.score\n\n        if self.stype in "spam":\n            msg.score += self.spam_score\n')],
 demo=SETUP + '''
from oa.plugins.short_circuit import ShortCircuitRule
class Rule: name, score, description = "A", 2.0, "d"
for stype, want in (("spam", 102.0), ("on", 2.0), ("ham", -98.0), ("spa", 2.0), ("am", 2.0)):
    rs = load("body A /body/\\n")
    m = mail(rs, MAIL)
    try:
        ShortCircuitRule(Rule, lambda msg: True, stype, 100.0, -100.0)(m)
    except oa.errors.StopProcessing:
        pass
    check(m.score == want, (stype, m.score, want))
''', needs="a short-circuited rule whose type is neither on, ham nor spam", breaks="extra spam score added for a type it is not configured for"),
dict(id="P03-2", prop="P03", edits=[(R,
'                if isinstance(result, str):\n                    msg.rules_descriptions[name] = result\n                    result = True\n                elif',
'                if isinstance(result, str):\n                    msg.rules_descriptions[name] = result\n                elif')],
 demo=SETUP + '''
rs = load("body A /body/\\nscore A 1.5\\nbody B /text/\\nscore B 1\\n")
rs.get_rule("A").match = lambda m: ""
rs.get_rule("B").match = lambda m: "why"
m = mail(rs, MAIL)
rs.match(m)
listed = sorted(n for n, r in m.rules_checked.items() if r is True)
check(abs(m.score - sum(rs.get_rule(n).score for n in listed)) < 1e-9, (m.score, listed))
''', needs="a rule that returns a description string", breaks="the recorded result is the description, not the truth value the score was added for"),
dict(id="P03-3", prop="P03", edits=[(R,
'                msg.rules_checked[name] = result\n                if result:\n                    msg.score += rule.score\n',
'                if result and not msg.rules_checked.get(name):\n                    msg.score += rule.score\n                msg.rules_checked[name] = result\n                if result and "learn" in (rule.tflags or ()):\n                    msg.score += rule.score\n')],
 demo=SETUP + '''
rs = load("body A /body/\\nscore A 1.5\\ntflags A learn\\nbody B /text/\\nscore B 1\\n")
rs.get_rule("A").tflags = ["learn"]
rs.checked["A"] = rs.get_rule("A")
m = mail(rs, MAIL)
rs.match(m)
check(m.score == 2.5, m.score)
''', needs="a matching rule carrying the learn flag", breaks="its score is added twice"),
dict(id="P04-1", prop="P04", edits=[(R,
'                    result = False\n                if isinstance(result, str):',
'                    result = False\n                    if msg.rules_checked.get(name, True) is False:\n                        break\n                if isinstance(result, str):')],
 demo=SETUP + '''
rs = load("body A /body/\\nscore A 1.5\\nbody B /text/\\nscore B 1\\n")
def boom(m): raise ValueError("x")
rs.get_rule("A").match = boom
m = mail(rs, MAIL)
rs.match(m); rs.match(m)
check(m.score == 2.0, m.score)
''', needs="the same message checked twice with a failing rule", breaks="the second failure of a rule ends the whole check"),
dict(id="P04-2", prop="P04", edits=[(R,
'        self.ctxt.hook_check_end(self, msg)\n        self.ctxt.hook_auto_learn(self, msg)',
'        else:\n            self.ctxt.hook_auto_learn(self, msg)\n        self.ctxt.hook_check_end(self, msg)')],
 demo=SETUP + '''
order = []
rs = load("body A /body/\\nscore A 1.5\\n")
rs.ctxt.hook_check_end = lambda r, m: order.append("end")
rs.ctxt.hook_auto_learn = lambda r, m: order.append("learn")
def stop(m): raise oa.errors.StopProcessing("x")
rs.match(mail(rs, MAIL))
check(order == ["end", "learn"], order)
del order[:]
rs.get_rule("A").match = stop
rs.match(mail(rs, MAIL))
check(order == ["end", "learn"], order)
''', needs="a check stopped early, or looking at the order of the two steps", breaks="auto-learning skipped after a stop and run before the end of check"),
dict(id="P05-2", prop="P05", edits=[(R,
'        spam = msg.score >= self.conf["required_score"]\n        data = msg.interpolate_data',
'        spam = float("%0.1f" % msg.score) >= self.conf["required_score"]\n        data = msg.interpolate_data')],
 demo=SETUP + '''
rs = load("required_score 5\\nadd_header all Flag _YESNO_\\nbody A /body/\\nscore A 4.96\\n")
m = mail(rs, MAIL)
rs.match(m)
check(m.score < 5, m.score)
check("X-Spam-Flag: No" in rs.get_adjusted_message(m), "tag says spam")
''', needs="a score that rounds up to the threshold", breaks="YESNO says Yes for a ham message"),
]
