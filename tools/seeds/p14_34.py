import os
import runpy
HERE = os.path.dirname(__file__)
SETUP = runpy.run_path(os.path.join(HERE, "common.py"))["SETUP"]
A = "oa/plugins/awl.py"
B = "oa/plugins/bayes.py"
S = "oa/db/bayes/sqlalchemy.py"
T = "oa/plugins/auto_learn_threshold.py"

STORE = SETUP + '''
import sqlalchemy
from sqlalchemy.orm import sessionmaker
import oa.db.bayes.sqlalchemy as db
engine = sqlalchemy.create_engine("sqlite:///" + os.path.join(SCRATCH, "b.db"))
db.Base.metadata.create_all(engine)


class Plugin(object):
    def get_engine(self):
        return engine

    def get_session(self):
        return sessionmaker(bind=engine)()


store = db.Store(Plugin())
store.tie_db_writeable()
'''

BAYES = SETUP + '''
import collections
import oa.plugins.bayes


class Store(object):
    def __init__(self):
        self.seen, self.counts = {}, [0, 0]
        self.tokens = collections.Counter()

    def tie_db_writeable(self): return True
    def untie_db(self): pass
    def cleanup(self): pass
    def get_magic_re(self): return None
    def seen_get(self, m): return self.seen.get(m)
    def seen_put(self, m, f): self.seen[m] = f
    def seen_delete(self, m): self.seen.pop(m, None)
    def nspam_nham_change(self, s, h):
        self.counts[0] += s
        self.counts[1] += h
    def multi_tok_count_change(self, s, h, tokens, atime):
        for t in tokens:
            self.tokens[("s", t)] += s
            self.tokens[("h", t)] += h


class Log(object):
    def debug(self, *a): pass
    warn = info = error = debug


class Ctxt(object):
    log = Log()


class Bayes(oa.plugins.bayes.BayesPlugin):
    ctxt = Ctxt()
    learn_caller_will_untie = learn_no_relearn = False
    values = {"use_bayes": True, "bayes_token_uris": [],
              "bayes_token_inviz": [],
              "bayes_token_body": ["hello world", "hello there"]}
    def __init__(self): self.store = Store()
    def __getitem__(self, k): return self.values[k]
    def _tokenise_headers(self, msg): return {}


class Msg(object):
    msgid, receive_date = "<1@x>", 1


b, m = Bayes(), Msg()
'''

LEARN = SETUP + '''
import oa.plugins.auto_learn_threshold as alt
learned = []


class Bayes(object):
    def plugin_report(self, msg): learned.append("spam")
    def plugin_revoke(self, msg): learned.append("ham")


class Log(object):
    def debug(self, *a): pass
    warn = info = error = debug


class Rule(object):
    def __init__(self, kind, score, tflags=()):
        self.rule_type, self.score, self.tflags = kind, score, list(tflags)


class Ctxt(object):
    log, plugins, conf = Log(), {"BayesPlugin": Bayes()}, {"required_score": 5}


class Auto(alt.AutoLearnThreshold):
    ctxt = Ctxt()
    def __init__(self): self.loc = {}
    def __getitem__(self, k): return self.options[k][1]
    def set_local(self, msg, k, v): self.loc[k] = v
    def get_local(self, msg, k): return self.loc[k]


class RuleSet(object):
    pass


def decide(score, **rules):
    del learned[:]
    rs, msg = RuleSet(), RuleSet()
    rs.checked = rules
    msg.score, msg.rules_checked = score, dict.fromkeys(rules, True)
    Auto().auto_learn_discriminator(rs, msg)
    return learned
'''

SEEDS = [
dict(id="P14-1", prop="P14", edits=[(S,
'"DELETE FROM bayes_seen WHERE msgid = :msgid"',
'"DELETE FROM bayes_seen WHERE msgid LIKE :msgid"')],
 demo=STORE + '''
store.seen_put("<a1b@x>", "s")
store.seen_put("<a_b@x>", "h")
store.seen_delete("<a_b@x>")
check(store.seen_get("<a1b@x>") == "s", "the entry of another message")
check(store.seen_get("<a_b@x>") is None, "its own entry")
''', needs="a message id with a character that SQL patterns use", breaks="forgetting one message removes the seen entries of others"),
dict(id="P14-2", prop="P14", edits=[(S,
'''            ).update({'atime':msgatime})
        self.conn.commit()
''', '''            ).update({'atime':msgatime})
        self.conn.flush()
''')],
 demo=STORE + '''
store.conn.add(db.BayesToken(id=0, token=b"12345", spam_count=1, ham_count=1, atime=1))
store.conn.commit()
store.tok_touch_all([b"12345"], 99)
check(list(store.tok_get_all([b"12345"]))[0][3] == 99, "touched")
store.untie_db()
store.tie_db_readonly()
check(list(store.tok_get_all([b"12345"]))[0][3] == 99, "kept")
''', needs="looking at the database after the session was closed", breaks="the access times of tokens are never committed"),
dict(id="P14-3", prop="P14", edits=[(A,
"""        cursor.execute("SELECT * FROM awl WHERE username=%s AND email=%s AND "
                       "signedby=%s AND ip=%s", key)
        result = cursor.fetchone()
        if not result and""",
"""        cursor.execute("SELECT * FROM awl WHERE username=%s AND email LIKE %s "
                       "AND signedby=%s AND ip=%s", key)
        result = cursor.fetchone()
        if not result and""")],
 demo=SETUP + """
import sqlite3
import oa.plugins.awl as awl
db = sqlite3.connect(os.path.join(SCRATCH, "a.db"))
db.execute("CREATE TABLE awl (username, email, ip, count, totscore, signedby)")
db.execute("INSERT INTO awl VALUES ('u', 'axb@x', 'none', 3, 9.0, '')")


class Cursor(object):
    def __init__(self): self.c = db.cursor()
    def execute(self, q, a=()):
        return self.c.execute(q.replace("%s", "?"), a).rowcount
    def fetchone(self): return self.c.fetchone()
    def close(self): pass


class Conn(object):
    def cursor(self): return Cursor()
    def commit(self): db.commit()
    def close(self): pass


class Ctxt(object):
    username = "u"


class Plugin(awl.AutoWhiteListPlugin):
    ctxt = Ctxt()
    def __init__(self): pass
    def _mysql_connect(self): return Conn()


p = Plugin()
check(p.get_mysql_entry("axb@x", "none", "")[3] == 3, "own entry")
check(not p.get_mysql_entry("a_b@x", "none", ""), "entry of another address")
""", needs="an address with an underscore and a similar address in the table", breaks="a sender gets the history of another one"),
dict(id="P15-1", prop="P15", edits=[(B,
"        for token in set(tuple(tokens)):\n", "        for token in sorted(tokens):\n")],
 demo=BAYES + '''
b.learn_message(m, True)
check(set(b.store.tokens.values()) <= {0, 1}, "a token counted twice")
check(b.store.counts == [1, 0], "counts")
''', needs="a token that occurs in two lines", breaks="a token of the message is counted more than once"),
dict(id="P15-2", prop="P15", edits=[(B,
"        self.store.seen_delete(msgid)\n", "        self.store.seen_delete(msg.msgid)\n")],
 demo=BAYES + '''
b.learn_message(m, True)
m.msgid = "<2@x>"
b.forget_message(m, "<1@x>")
check(b.store.counts == [0, 0], "counts")
check(not b.store.seen, "seen entry left")
''', needs="forgetting by a message id given by the caller", breaks="the message forgotten stays marked as seen"),
dict(id="P34-1", prop="P34", edits=[(T,
'            if set(tflags).intersection(["noautolearn", "userconf"]):\n',
'            if tflags in (["noautolearn"], ["userconf"]):\n')],
 demo=LEARN + '''
check(decide(20, A=Rule("header", 10, ["noautolearn"]), B=Rule("body", 10, ["noautolearn"])) == [], "one flag")
check(decide(20, A=Rule("header", 10, ["nice", "noautolearn"]), B=Rule("body", 10, ["noautolearn", "net"])) == [], "two flags")
check(decide(20, A=Rule("header", 10), B=Rule("body", 10)) == ["spam"], "no flag")
''', needs="a rule with a second flag next to noautolearn", breaks="rules that must not count decide what is learned"),
dict(id="P34-2", prop="P34", edits=[(T,
'''            if learned_points > LEARNER_SPAM_POINTS:
                self.ctxt.log.debug("not learning, learn score: %s > %s",
                                    learned_points, LEARNER_SPAM_POINTS)
                return False
            if msg.score >= self.ctxt.conf['required_score']:
''', '''            if learned_points > LEARNER_SPAM_POINTS:
                self.ctxt.log.debug("not learning, learn score: %s > %s",
                                    learned_points, LEARNER_SPAM_POINTS)
                return False
            if (not autolearn_forced and
                    msg.score >= self.ctxt.conf['required_score']):
''')],
 demo=LEARN + '''
check(decide(0, A=Rule("header", -1)) == ["ham"], "ham")
check(decide(9, A=Rule("header", -1)) == [], "verdict spam")
check(decide(9, A=Rule("header", -1, ["autolearn_force"]), B=Rule("body", 10, ["noautolearn"])) == [], "forced")
''', needs="a rule that forces learning and a score made by rules that do not count", breaks="a message judged spam is learned as ham"),
]
