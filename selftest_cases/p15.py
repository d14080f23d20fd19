B = "oa/plugins/bayes.py"
MY = "oa/db/bayes/mysql.py"
SA = "oa/db/bayes/sqlalchemy.py"
CASES = [
    ("P15", "bad", "forget adds", [(B, "self.store.nspam_nham_change(-1, 0)", "self.store.nspam_nham_change(1, 0)")]),
    ("P15", "bad", "forget ham as spam", [(B, "            self.store.nspam_nham_change(0, -1)\n", "            self.store.nspam_nham_change(-1, 0)\n")]),
    ("P15", "bad", "two per token", [(B, "multi_tok_count_change(0, 1, tokens, msgatime)", "multi_tok_count_change(0, 2, tokens, msgatime)")]),
    ("P15", "bad", "seen kept", [(B, "        self.store.seen_delete(msgid)\n", "")]),
    ("P15", "bad", "seen wrong flag", [(B, 'self.store.seen_put(msgid, "s" if isspam else "h")', 'self.store.seen_put(msgid, "h" if isspam else "s")')]),
    ("P15", "bad", "learn twice", [(B, '(seen == "s" and isspam) or (seen == "h" and not isspam)', '(seen == "s" and isspam)')]),
    ("P15", "bad", "no forgetting first", [(B, "                fatal = self.forget_message(msg, msgid)", "                fatal = False")]),
    ("P15", "bad", "other message id", [(B, '''        if not msgid:
            msgid = msg.msgid
        seen''', '''        msgid = msg.msg.get("Message-Id")
        seen''')]),
    ("P15", "bad", "no relearning ignored", [(B, "                if self.learn_no_relearn:", "                if self.learn_no_relearn and isspam:")]),
    ("P15", "bad", "corrupt forgotten", [(B, '''                                    "is neither ham nor spam but '%s', ignored",
                                    msgid, seen)
                return False''', '''                                    "is neither ham nor spam but '%s', ignored",
                                    msgid, seen)
                isspam = False''')]),
    ("P15", "bad", "some tokens", [(B, '''            return False
        tokens = [token for token, _ in self.tokenise(msg)]''', '''            return False
        tokens = [token for token, _ in self.tokenise(msg)][:1]''')]),
    ("P15", "bad", "raw tokens", [(B, '''            return False
        tokens = [token for token, _ in self.tokenise(msg)]''', '''            return False
        tokens = [raw for _, raw in self.tokenise(msg)]''')]),
    ("P15", "bad", "tokens repeated", [(B, "for token in set(tuple(tokens)):", "for token in tokens:")]),
    ("P15", "bad", "forgetting when disabled", [(B, '''        """Unlearn a message."""
        if not self["use_bayes"]:
            return
''', '''        """Unlearn a message."""
''')]),
    ("P15", "bad", "ham minus", [(MY, "ham_count=ham_count+%s\"", "ham_count=ham_count-%s\"")]),
    ("P15", "bad", "insert order", [(SA, '''"VALUES (0, :token, :spam_count, :ham_count, :atime)",''', '''"VALUES (0, :token, :ham_count, :spam_count, :atime)",''')]),
    ("P15", "bad", "insert negative", [(MY, '''                "VALUES ('', %s, %s)", (spam, ham))''', '''                "VALUES ('', %s, %s)", (1, 0))''')]),
    ("P15", "bad", "always inserts", [(SA, '''            if not result.rowcount:
                self.conn''', '''            if result.rowcount:
                self.conn''')]),
    ("P15", "bad", "seen_get wrong column", [(SA, '"SELECT flag FROM bayes_seen WHERE msgid=:msgid"', '"SELECT id FROM bayes_seen WHERE msgid=:msgid"')]),
    ("P15", "ok", "amounts from variables", [(B, '''        if isspam:
            self.store.nspam_nham_change(1, 0)
            self.store.multi_tok_count_change(1, 0, tokens, msgatime)
        else:
            self.store.nspam_nham_change(0, 1)
            self.store.multi_tok_count_change(0, 1, tokens, msgatime)
        self.store.seen_put(msgid, "s" if isspam else "h")''', '''        spam, ham = (1, 0) if isspam else (0, 1)
        self.store.multi_tok_count_change(spam, ham, tokens,
                                          msgatime=msgatime)
        self.store.nspam_nham_change(spam=spam, ham=ham)
        flag = {True: "s", False: "h"}[bool(isspam)]
        self.store.seen_put(msgid, flag)''')]),
    ("P15", "ok", "helper for the tokens", [(B, '''            return False
        tokens = [token for token, _ in self.tokenise(msg)]''', '''            return False
        tokens = []
        for token, _ in self.tokenise(msg):
            tokens.append(token)'''), (B, '''    def tokenise(self, msg):''', '''    def _change(self, spam, ham, tokens, when):
        self.store.nspam_nham_change(spam, ham)
        self.store.multi_tok_count_change(spam, ham, tokens, when)

    def tokenise(self, msg):'''), (B, '''            self.store.nspam_nham_change(-1, 0)
            self.store.multi_tok_count_change(-1, 0, tokens, msg.receive_date)''', '''            self._change(-1, 0, tokens, msg.receive_date)''')]),
    ("P15", "ok", "already learned by table", [(B, '(seen == "s" and isspam) or (seen == "h" and not isspam)', 'seen == ("s" if isspam else "h")')]),
    ("P15", "ok", "tokens sorted", [(B, "for token in set(tuple(tokens)):", "for token in sorted(set(tokens)):")]),
    ("P15", "ok", "tokens in order once", [(B, '''        for token in set(tuple(tokens)):
            if not token:
                continue
''', '''        unique = {token for token in tokens if token}
        for token in unique:
''')]),
]
