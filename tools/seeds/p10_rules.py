import os
import runpy
SETUP = runpy.run_path(os.path.join(os.path.dirname(__file__), "common.py"))["SETUP"]
R, B, H, X = "oa/rules/ruleset.py", "oa/rules/base.py", "oa/rules/header.py", "oa/regex.py"
SEEDS = [
dict(id="P31-1", prop="P31", edits=[(X,
'        return 0 if self._pattern.search(text) else 1',
'        return 0 if not text or self._pattern.search(text) else 1')],
 demo=SETUP + '''
rs = load("header A Subject !~ /x/\\nscore A 1\\n")
m = mail(rs, MAIL.replace("hello world", ""))
check(rs.get_rule("A")._pattern.match("") == 1, "empty text")
''', needs="an empty header value and a negated rule", breaks="a negated expression no longer matches empty text"),
dict(id="P32-1", prop="P32", edits=[(H,
'_headers = ("To", "Cc")', '_headers = ("To", "Bcc")')],
 demo=SETUP + '''
rs = load("header A ToCc =~ /carol/\\nscore A 1\\n")
m = mail(rs, MAIL.replace("Message-ID", "Cc: carol@example.com\\nMessage-ID"))
rs.match(m)
check(m.score == 1, m.score)
''', needs="a message whose Cc is the only match", breaks="ToCc rules do not look at Cc"),
]
