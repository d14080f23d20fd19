B = "oa/plugins/body_eval.py"
H = "oa/plugins/header_eval.py"
D = "oa/plugins/dkim.py"
S = "oa/plugins/spf.py"
F = "oa/plugins/free_mail.py"
R = "oa/plugins/relay_eval.py"
P = "oa/html_parser.py"
M = "oa/message.py"
T = "oa/plugins/textcat.py"
ME = "oa/rules/meta.py"
TOK = '''        self.set_local(msg, "text_tokens", collections.Counter())
'''
MADIFF = '''        return minr <= self.get_local(msg, "madiff") <= maxr
'''
HOT = '''        self.hotmail_addr_but_no_hotmail_received = 0
        self.hotmail_addr_with_forged_hotmail_received = 0
        rcvd = msg.msg.get("Received")
        if not rcvd:
            return False
'''
LINKS = '''        self.links = {}
        self.last_start_tag = None
'''
START = '''    def check_start(self, msg):
        """Forget what was found in the previous message."""
'''
CASES = [
    ("P01", "bad", "shared-counter", [(B, TOK, '''        self.set_local(msg, "text_tokens", NONE_YET)
'''), (B, "class BodyEval(", '''NONE_YET = collections.Counter()


class BodyEval(''')]),
    ("P01", "bad", "class-counter", [(B, TOK, '''        self.set_local(msg, "text_tokens", self.none_yet)
'''), (B, "    def check_start(self, msg):", '''    none_yet = collections.Counter()

    def check_start(self, msg):''')]),
    ("P01", "bad", "global-not-local", [(B, '''        self.set_local(msg, "madiff", diff)
''', '''        if diff:
            self.set_global("madiff", diff)
'''), (B, MADIFF, '''        return minr <= (self.get_global("madiff") or 0) <= maxr
''')]),
    ("P01", "ok", "global-each-time", [(B, '''        self.set_local(msg, "madiff", diff)
''', '''        self.set_global("madiff", diff)
'''), (B, MADIFF, '''        return minr <= self.get_global("madiff") <= maxr
''')]),
    ("P01", "bad", "attribute-not-local", [(B, MADIFF, '''        if self.last is None:
            self.last = self.get_local(msg, "madiff")
        return minr <= self.last <= maxr
'''), (B, "    def check_start(self, msg):", '''    last = None

    def check_start(self, msg):''')]),
    ("P01", "bad", "keyed-cache", [(B, MADIFF, '''        if msg.msgid not in CACHE:
            CACHE[msg.msgid] = self.get_local(msg, "madiff")
        return minr <= CACHE[msg.msgid] <= maxr
'''), (B, "class BodyEval(", '''CACHE = {}


class BodyEval(''')]),
    ("P01", "bad", "default-argument", [(B, '''    def multipart_alternative_difference(self, msg, minr, maxr, target=None):''',
     '''    def multipart_alternative_difference(self, msg, minr, maxr, target=None,
                                         seen=[]):'''),
     (B, MADIFF, '''        seen.append(self.get_local(msg, "madiff"))
        return minr <= seen[0] <= maxr
''')]),
    ("P01", "bad", "global-statement", [(B, MADIFF, '''        global last_diff
        if last_diff is None:
            last_diff = self.get_local(msg, "madiff")
        return minr <= last_diff <= maxr
'''), (B, "class BodyEval(", '''last_diff = None


class BodyEval(''')]),
    ("P01", "bad", "reset-after-return", [(H, HOT, '''        rcvd = msg.msg.get("Received")
        if not rcvd:
            return False
        self.hotmail_addr_but_no_hotmail_received = 0
        self.hotmail_addr_with_forged_hotmail_received = 0
''')]),
    ("P01", "bad", "one-not-reset", [(H, HOT, '''        self.hotmail_addr_but_no_hotmail_received = 0
        rcvd = msg.msg.get("Received")
        if not rcvd:
            return False
''')]),
    ("P01", "ok", "reset-in-start", [(H, HOT, '''        rcvd = msg.msg.get("Received")
        if not rcvd:
            return False
'''), (H, "    def check_for_forged_hotmail_received_headers(self,",
       '''    def check_start(self, msg):
        self.hotmail_addr_but_no_hotmail_received = 0
        self.hotmail_addr_with_forged_hotmail_received = 0

    def check_for_forged_hotmail_received_headers(self,''')]),
    ("P01", "bad", "reset-only-sometimes", [(H, HOT, '''        rcvd = msg.msg.get("Received")
        if not rcvd:
            return False
'''), (H, "    def check_for_forged_hotmail_received_headers(self,",
       '''    def check_start(self, msg):
        if not msg.msg.get("Received"):
            return
        self.hotmail_addr_but_no_hotmail_received = 0
        self.hotmail_addr_with_forged_hotmail_received = 0

    def check_for_forged_hotmail_received_headers(self,''')]),
    ("P01", "bad", "class-links", [(P, LINKS, '''        self.last_start_tag = None
'''), (P, "    def __init__(self, logger):", '''    links = {}

    def __init__(self, logger):''')]),
    ("P01", "bad", "module-links", [(P, LINKS, '''        self.links = LINKS
        self.last_start_tag = None
'''), (P, "class HTML(HTMLParser):", '''LINKS = {}


class HTML(HTMLParser):''')]),
    ("P01", "bad", "message-class-attribute", [(M, '''        self.uri_list = set()
''', ""), (M, '''    def __init__(self, global_context, raw_msg):
        """Parse''', '''    uri_list = set()

    def __init__(self, global_context, raw_msg):
        """Parse''')]),
    ("P01", "bad", "dkim-flag", [(D, '''        self.dkim_checked_signature = 0
        self.is_valid = 1
''', '''        self.is_valid = 1
''')]),
    ("P01", "bad", "dkim-domains", [(D, '''        self.author_domains = []
        self.dkim_c''', '''        self.dkim_c''')]),
    ("P01", "bad", "dkim-valid", [(D, '''        self.is_valid = 1
        self.match_adsp''', '''        self.match_adsp''')]),
    ("P01", "bad", "spf-results", [(S, '''        self.check_result = dict.fromkeys(RESULTS, 0)

    def parsed''', '''
    def parsed''')]),
    ("P01", "bad", "spf-helo", [(S, '''        self.spf_check_helo = False
        self.no_valid_identity = False
        self.check_result''', '''        self.no_valid_identity = False
        self.check_result''')]),
    ("P01", "bad", "freemail-flag", [(F, '''        self.set_global("check_if_parsed", False)
''', "")]),
    ("P01", "bad", "freemail-emails", [(F, '''        self.set_global('body_emails', set())
''', "")]),
    ("P01", "bad", "freemail-update", [(F, '''        self.set_global('body_emails', set())
''', '''        if not self.get_global('body_emails'):
            self.set_global('body_emails', set())
''')]),
    ("P01", "bad", "freemail-flag-early", [(F, '''        body_emails = get_global('body_emails')
        freemail_body_emails = []
''', '''        self.set_global("check_if_parsed", True)
        body_emails = get_global('body_emails')
        freemail_body_emails = []
''')]),
    ("P01", "bad", "relay-no-reset", [(R, '''        self.set_global("mismatch_from", None)
''', "")]),
    ("P01", "bad", "config-list-extended", [(T, '''        prob = self["textcat_acceptable_prob"]
''', '''        prob = self["textcat_acceptable_prob"]
        known = self["ok_languages"]
        known.extend(msg.get_decoded_header("Content-Language"))
''')]),
    ("P01", "ok", "config-list-copied", [(T, '''        prob = self["textcat_acceptable_prob"]
''', '''        prob = self["textcat_acceptable_prob"]
        known = list(self["ok_languages"])
        known.extend(msg.get_decoded_header("Content-Language"))
''')]),
    ("P01", "ok", "lazy-from-config", [(B, MADIFF, '''        if self.limit is None:
            self.limit = float(self.ctxt.conf["required_score"])
        return minr <= self.get_local(msg, "madiff") <= maxr
'''), (B, "    def check_start(self, msg):", '''    limit = None

    def check_start(self, msg):''')]),
    ("P01", "ok", "counter-only", [(B, MADIFF, '''        self.last = self.get_local(msg, "madiff")
        return minr <= self.last <= maxr
''')]),
]
