import os
import runpy
SETUP = runpy.run_path(os.path.join(os.path.dirname(__file__), "common.py"))["SETUP"]
B, M, P, S = "oa/rules/base.py", "oa/rules/meta.py", "oa/rules/parser.py", "oa/server.py"
PB, PC, PT = "oa/protocol/base.py", "oa/protocol/check.py", "oa/protocol/tell.py"
NET = SETUP + '''
import io
import oa.server


class Server(oa.server.Server):
    """A server without a socket."""
    def __init__(self, **files):
        self.dir = tempfile.mkdtemp(dir=SCRATCH)
        self.put(**files)
        self.paranoid, self.ignore_unknown = False, True
        self._ruleset = self._parser_results = self._parser_options = None
        self._user_rulesets = {}
        self.sitepath = self.configpath = self.dir
        self.log = logging.getLogger("x")
        self.load_config()

    def put(self, **files):
        for k, v in files.items():
            with open(os.path.join(self.dir, k + ".cf"), "w") as f:
                f.write(v)

    def ask(self, request, reader=io.BytesIO):
        class H(object):
            pass
        h = H()
        h.server, h.rfile, h.wfile = self, reader(request), io.BytesIO()
        oa.server.RequestHandler.handle(h)
        return h.wfile.getvalue()


oa.config.get_userprefs_path = lambda u: os.path.join(SCRATCH, u + "_prefs")
CONF = "body A /body/\\nscore A 3\\nallow_user_rules 1\\n"
'''
SEEDS = [
dict(id="P07-1", prop="P07", edits=[(M,
'subrule.postparsing(ruleset, _depth=_depth + 1)',
'subrule.postparsing(\n                    ruleset, _depth=_depth + (subrule is not self))')],
 demo=SETUP + '''
try:
    rs = load("meta A A || B\\nbody B /b/\\nbody C /c/\\n")
except RecursionError:
    check(False, "endless recursion")
check("A" not in rs.checked and "C" in rs.checked, "C")
''', needs="a meta rule that refers to itself directly", breaks="a meta rule referring to itself recurses without limit"),
dict(id="P10-1", prop="P10", edits=[(B,
'''            if not ruleset.conf["use_bayes"] and "learn" in self.tflags:
                self.score = 0
                return
''', '''            if not ruleset.conf["use_bayes"] and "learn" in self.tflags:
                if len(self._scores) != 4:
                    self.score = 0
                    return
''')],
 demo=SETUP + '''
rs = load("use_bayes 0\\nuse_network 1\\nbody A /a/\\ntflags A learn\\nscore A 1 2 3 4\\n")
check("A" not in rs.checked, "A")
''', needs="a learning rule with four scores while Bayes is off", breaks="rules with the learn flag are not disabled"),
dict(id="P17-1", prop="P17", edits=[(S,
'            parser.results = copy.deepcopy(self._parser_results)\n',
'            parser.results = copy.copy(self._parser_results)\n')],
 demo=NET + '''
s = Server(a=CONF)
for u, t in (("bob", "score A 9\\n"), ("eve", "score B 1\\n")):
    with open(oa.config.get_userprefs_path(u), "w") as f:
        f.write(t)
check(s.get_user_ruleset("bob").get_rule("A").score == 9, "bob")
check(s.get_user_ruleset("eve").get_rule("A").score == 3, "eve sees the score of bob")
''', needs="two users, the first changing a rule of the site", breaks="the preferences of one user change the rules of the next one"),
dict(id="P18-1", prop="P18", edits=[(PC,
'        yield "Content-length: %s\\r\\n\\r\\n" % len(result.encode("utf8"))\n        yield result\n',
'        yield "Content-length: %s\\r\\n\\r\\n" % len(result.encode("utf8"))\n        yield result.rstrip(" ")\n')],
 demo=NET + '''
s = Server(a=CONF + "report_safe 0\\nclear_headers\\n")
m = MAIL.rstrip() + " tail   "
r = s.ask(b"PROCESS SPAMC/1.2\\r\\nContent-length: %d\\r\\n\\r\\n" % len(m) + m.encode())
head, body = r.split(b"\\r\\n\\r\\n", 1)
n = int([l for l in head.split(b"\\r\\n") if l.lower().startswith(b"content-length")][0].split(b":")[1])
check(n == len(body), (n, len(body)))
''', needs="a message that ends in spaces", breaks="the announced length is larger than the body"),
dict(id="P22-1", prop="P22", edits=[(S,
'        self._parser_results = parser.results\n',
'        self._parser_results = self._parser_results or parser.results\n')],
 demo=NET + '''
s = Server(a=CONF)
with open(oa.config.get_userprefs_path("bob"), "w") as f:
    f.write("score B 1\\n")
s.get_user_ruleset("bob")
s.put(a=CONF.replace("A 3", "A 7"))
s.load_config()
check(s.get_user_ruleset("bob").get_rule("A").score == 7, "old score for bob")
''', needs="a reload followed by a request with a user", breaks="user rule sets are still made from the configuration before the reload"),
dict(id="P29-1", prop="P29", edits=[("oa/config.py",
'                sorted(get_files_with_extension(config_path, ".cf")))\n',
'                sorted(get_files_with_extension(config_path, ".cf"),\n                       key=lambda p: os.path.basename(p).split("_")[0]))\n')],
 demo=SETUP + '''
a, b = os.path.join(SCRATCH, "a"), os.path.join(SCRATCH, "b")
os.mkdir(a)
os.mkdir(b)
names = ["20_%s.cf" % c for c in "abcdefgh"]
for n in names:
    open(os.path.join(a, n), "w").close()
os.listdir = lambda p, real=os.listdir: sorted(real(p), reverse=True)
check([os.path.basename(x) for x in oa.config.get_config_files(a, b)] == names, "order")
''', needs="several files with the same numeric prefix", breaks="files with the same prefix load in the order of the directory"),
dict(id="P29-2", prop="P29", edits=[(P,
'                if value.startswith("eval:"):\n',
'                if value.startswith("eval:") and \\\n                        "target" not in self.results[name]:\n')],
 demo=SETUP + '''
p = os.path.join(SCRATCH, "x.cf")
with open(p, "w") as f:
    f.write("body A eval:one()\\nbody A eval:two()\\n")
r = oa.rules.parser.parse_pad_rules([p]).results["A"]
check(r["type"] == "eval" and r["value"] == "eval:two()", r)
''', needs="an eval rule that is defined twice", breaks="the second definition of an eval rule is taken as an expression"),
]
