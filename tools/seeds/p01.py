import os
import runpy
HERE = os.path.dirname(__file__)
SETUP = runpy.run_path(os.path.join(HERE, "common.py"))["SETUP"]
ALT = '''
ALT = """From: a@example.com
To: b@example.com
Subject: x
MIME-Version: 1.0
Content-Type: multipart/alternative; boundary="xx"

--xx
Content-Type: text/plain

%s

--xx
Content-Type: text/html

<html><body>%s</body></html>

--xx--
"""
'''
SEEDS = [
dict(id="P01-1", prop="P01", edits=[("oa/plugins/body_eval.py",
'''        self.set_local(msg, "text_tokens", collections.Counter())
        self.set_local(msg, "html_tokens", collections.Counter())
''', '''        for name, tokens in self.tokens.items():
            self.set_local(msg, name, tokens)
'''), ("oa/plugins/body_eval.py",
'''    def check_start(self, msg):
        """Initialize a empty list''', '''    # What is collected from the parts of a multipart/alternative.
    tokens = {
        "text_tokens": collections.Counter(),
        "html_tokens": collections.Counter(),
    }

    def check_start(self, msg):
        """Initialize a empty list''')],
 demo=SETUP + ALT + '''
CONF = ("loadplugin oa.plugins.body_eval.BodyEval\\n"
        "body R eval:multipart_alternative_difference('90', '100')\\n")


def verdict(first):
    rs = load(CONF)
    if first:
        rs.match(mail(rs, ALT % ("alpha beta gamma delta",
                                 "alpha beta gamma delta")))
    m = mail(rs, ALT % ("alpha beta gamma delta", "one two three four"))
    rs.match(m)
    return bool(m.rules_checked.get("R"))


# each in a process of its own, as the parts may be kept in the module
if len(sys.argv) > 1:
    print(verdict(sys.argv[1] == "1"))
    sys.exit(0)
import subprocess
out = [subprocess.check_output([sys.executable, __file__, x],
                               env=dict(os.environ, DEMO_SCRATCH=SCRATCH)
                               ).split()[-1] for x in "01"]
check(out[0] == b"True", "setup %r" % out)
check(out[0] == out[1], "an earlier message changed the verdict: %r" % out)
''', needs="two messages with multipart/alternative parts checked by one process",
 breaks="the words of all messages are counted together"),
dict(id="P01-2", prop="P01", edits=[("oa/html_parser.py",
'''        self.links = {}
        self.last_start_tag = None
        self.last_link_details = {}
        self.current_link = None
        self.logger = logger
''', '''        self.logger = logger
'''), ("oa/html_parser.py",
'''    corresponding value of the anchor"""

''', '''    corresponding value of the anchor"""

    links = {}
    last_start_tag = None
    last_link_details = {}
    current_link = None

''')],
 demo=SETUP + '''
CONF = ("loadplugin oa.plugins.uri_detail.URIDetailPlugin\\n"
        "uri_detail R domain =~ /evil/\\n")
rs = load(CONF)
HTM = MAIL.replace("Date:", "Content-Type: text/html\\nDate:")
one = mail(rs, HTM + '<a href="http://evil.example/x">x</a>')
rs.match(one)
two = mail(rs, HTM + '<a href="http://good.example/x">x</a>')
rs.match(two)
check(not any("evil" in x for x in two.uri_detail_links),
      "links of an earlier message: %r" % sorted(two.uri_detail_links))
check(not two.rules_checked["R"], "a rule matched an earlier message's link")
''', needs="two messages with links checked by one process",
 breaks="the links of every message are kept in one dictionary of the class"),
dict(id="P01-3", prop="P01", edits=[("oa/plugins/header_eval.py",
'''        self.hotmail_addr_but_no_hotmail_received = 0
        self.hotmail_addr_with_forged_hotmail_received = 0
        rcvd = msg.msg.get("Received")
        if not rcvd:
            return False
''', '''        rcvd = msg.msg.get("Received")
        if not rcvd:
            return False
        self.hotmail_addr_but_no_hotmail_received = 0
        self.hotmail_addr_with_forged_hotmail_received = 0
''')],
 demo=SETUP + '''
CONF = ("loadplugin oa.plugins.header_eval.HeaderEval\\n"
        "header R eval:check_for_forged_hotmail_received_headers()\\n")
rs = load(CONF)
BAD = MAIL.replace("Received: by mx.example.com;",
                   "Received: from x.hotmail.com by mx.example.com;")
one = mail(rs, BAD)
rs.match(one)
check(one.rules_checked["R"], "setup: the forged header is seen")
two = mail(rs, MAIL.split("\\n", 1)[1])
check("Received" not in two.raw_msg, "setup")
rs.match(two)
check(not two.rules_checked["R"], "verdict of the message before")
''', needs="a message with a forged header followed by one without any Received header",
 breaks="the finding about the previous message is reported again"),
dict(id="P01-4", prop="P01", edits=[("oa/plugins/free_mail.py",
'''        self.set_global('body_emails', set())
        self.set_global("check_if_parsed", False)
''', '''        # Keep what has not been looked at yet.
        try:
            pending = self.get_global("check_if_parsed") is False
        except KeyError:
            pending = False
        if not pending:
            self.set_global('body_emails', set())
        self.set_global("check_if_parsed", False)
''')],
 demo=SETUP + '''
CONF = ("loadplugin oa.plugins.free_mail.FreeMail\\n"
        "freemail_domains gmail.com\\n"
        "util_rb_tld com\\n"
        "freemail_max_body_emails 3\\n"
        "freemail_skip_when_over_max 1\\n"
        "header R eval:check_freemail_body()\\n")
TXT = MAIL.replace("Date:", "Content-Type: text/plain\\nDate:")


def verdict(first):
    rs = load(CONF)
    if first:
        rs.match(mail(rs, TXT + "ask a@one.com, b@two.com, c@three.com or "
                      "d@four.com\\n"))
    m = mail(rs, TXT + "write to joe.doe@gmail.com please\\n")
    rs.match(m)
    return bool(m.rules_checked.get("R"))


check(verdict(False), "setup: the address is seen")
check(verdict(True), "the addresses of the message before are counted")
''', needs="a message with more addresses in its body than "
       "freemail_max_body_emails, followed by one with a few",
 breaks="the addresses of a body are forgotten when they have been examined, "
        "which does not happen when there were too many: they are added to "
        "those of the next message"),
]
