import os
import runpy
HERE = os.path.dirname(__file__)
SETUP = runpy.run_path(os.path.join(HERE, "common.py"))["SETUP"]
R = "oa/rules/ruleset.py"
SEEDS = [
dict(id="P24-3", prop="P24", edits=[(R,
'''        for name, result in msg.rules_checked.items():
            if not result:
                continue
            rule = self.get_rule(name)
            if rule.score == int(rule.score):
''', '''        for name, result in msg.rules_checked.items():
            rule = self.get_rule(name)
            if not result or not rule.score:
                continue
            if rule.score == int(rule.score):
''')],
 demo=SETUP + '''
rs = load("body A /text/\\nscore A 1\\ndescribe A words\\n"
          "body B /text/\\nscore B 1\\ndescribe B free\\n")
rs.checked["B"].score = 0.0
m = mail(rs, MAIL)
rs.match(m)
check("words" in rs.get_summary_report(m), "A")
check("free" in rs.get_summary_report(m), "B")
''', needs="a rule that matched with a score of zero",
 breaks="matched rules without points are missing in the summary"),
dict(id="P25-1", prop="P25", edits=[(R,
'''            if remove:
                del newmsg[name]
''', '''            if remove or name in newmsg:
                del newmsg[name]
            if remove:
                continue
''')],
 demo=SETUP + '''
rs = load("add_header all Origin mx1\\nadd_header all Origin mx2\\n")
m = mail(rs, "X-Spam-Origin: upstream\\n" + MAIL)
rs.match(m)
out = rs.get_adjusted_message(m)
check("X-Spam-Origin: upstream" in out, "a header of the message was lost")
check("X-Spam-Origin: mx1" in out and "X-Spam-Origin: mx2" in out, out)
''', needs="a message that already has a header of the name that is added",
 breaks="adding a header drops the message's own headers of that name"),
dict(id="P25-2", prop="P25", edits=[(R,
'        original_attachment.set_payload(msg.raw_msg)\n',
'        original_attachment.set_payload(msg.msg.as_string())\n')],
 demo=SETUP + '''
rs = load("body A /text/\\nscore A 10\\nreport_safe 1\\n")
raw = ("From: Alice <alice@example.com>\\nSubject:  two  spaces and a long "
       "line that is folded again when it is written out by the library once"
       " more\\n and more\\nContent-Type: multipart/mixed; boundary=xx\\n"
       "\\npreamble\\n--xx\\n\\ntext\\n--xx\\n\\nnever closed\\n")
m = mail(rs, raw)
rs.match(m)
out = rs.get_adjusted_message(m)
check(raw in out, "the attached message is not the original")
''', needs="a message that is not written out as it came: an unclosed multipart, or long folded headers",
 breaks="the attachment is a reformatted message, not the original"),
dict(id="P25-3", prop="P25", edits=[(R,
'''            return newmsg.as_string().split("\\n\\n", 1)[0] + "\\n\\n"
        return newmsg.as_string()
''', '''            return newmsg.as_string().split("\\n\\n", 1)[0] + "\\n\\n"
        newmsg.preamble = newmsg.epilogue = None
        return newmsg.as_string()
''')] if False else [(R,
'''        newmsg.preamble = "This is a multi-part message in MIME format."
''', '''        newmsg.preamble = "This is a multi-part message in MIME format."
        del msg.msg["Bcc"]
''')],
 demo=SETUP + '''
rs = load("body A /text/\\nscore A 10\\nreport_safe 1\\n")
m = mail(rs, "Bcc: Eve <eve@example.net>\\n" + MAIL)
rs.match(m)
before = m.msg.as_string()
rs.get_adjusted_message(m)
check(m.msg.as_string() == before, "the stored message changed")
''', needs="spam with report_safe and a Bcc header, and a look at the parsed message afterwards",
 breaks="making the container removes a header of the stored message"),
dict(id="P24-4", prop="P24", edits=[("oa/protocol/check.py",
"""        yield ",".join(name for name, result in msg.rules_checked.items()
                       if result)
""", """        yield ",".join(name for name, result in msg.rules_checked.items()
                       if result and not name.startswith("__"))
""")],
 demo=SETUP + '''
import oa.protocol.check as pc
rs = load("body __A /text/\\nbody B /text/\\nscore B 1\\nmeta C __A && B\\n"
          "score C 1\\n")
m = mail(rs, MAIL)
rs.match(m)
m.rules_checked["__X"] = True
cmd = object.__new__(pc.SymbolsCommand)
cmd.ruleset = rs
names = "".join(cmd.extra_details(m, {})).split(",")
want = [n for n, r in m.rules_checked.items() if r]
check(sorted(names) == sorted(want), "%s where %s matched" % (names, want))
''', needs="a matched rule whose name starts with two underscores, asked for with SYMBOLS",
 breaks="matched sub-rules are missing in the reply"),
dict(id="P24-5", prop="P24", edits=[(R,
'''            preview = " ".join(msg.raw_text.split("\\n", 3)[:3])[:200] + "[...]"
            data["PREVIEW"] = preview
''', '''            preview = " ".join(msg.raw_text.split("\\n", 3)[:3])[:200] + "[...]"
            data["PREVIEW"] = preview
            text = text.replace("%(PREVIEW)s", preview)
''')],
 demo=SETUP + '''
rs = load("report <_PREVIEW_>\\n")
m = mail(rs, MAIL.replace("This is the body", "Save 100% now, %(SCORE)s"))
rs.match(m)
try:
    out = rs.get_report(m)
except Exception as e:
    check(False, "the report ends with %r" % e)
check("100% now, %(SCORE)s" in out, out)
''', needs="a preview of a message with a percent sign",
 breaks="text of the message is taken for a template"),
]
