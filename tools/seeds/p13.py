import os
import runpy
HERE = os.path.dirname(__file__)
SETUP = runpy.run_path(os.path.join(HERE, "common.py"))["SETUP"]
SEEDS = [
dict(id="P13-1", prop="P13", edits=[("oa/plugins/header_eval.py",
'''                    if Regex(r"\\s*" + re.escape(to) + "[,:;!?-]$")\\
                            .search(subject):
''', '''                    if Regex(r"\\s*%s[,:;!?-]$" % to).search(subject):
''')],
 demo=SETUP + '''
rs = load("loadplugin oa.plugins.header_eval.HeaderEval\\n"
          "header R eval:check_for_to_in_subject('user')\\n")
m = mail(rs, MAIL.replace("To: Bob <bob@example.org>",
                          "To: <b.*@example.org>")
         .replace("Subject: hello world", "Subject: the boss!"))
rs.match(m)
check("To: <b.*" in m.raw_msg and "boss!" in m.raw_msg, "setup")
check(not m.rules_checked["R"],
      "the address of the recipient was used as an expression")
''', needs="a recipient whose local part holds expression characters and a subject ending in punctuation",
 breaks="the user name of the recipient is used as a regular expression"),
dict(id="P13-2", prop="P13", edits=[("oa/db/bayes/mysql.py",
'''        cursor.execute("SELECT flag FROM bayes_seen WHERE msgid=%s",
                       (msgid,))
''', '''        query = "SELECT flag FROM bayes_seen WHERE msgid='{}'"
        cursor.execute(query.format(msgid))
''')],
 demo=SETUP + '''
import oa.db.bayes.mysql
asked = []


class Cursor(object):
    def execute(self, text, values=()):
        asked.append(text)

    def fetchone(self):
        return None

    def close(self):
        pass


class Conn(object):
    def cursor(self):
        return Cursor()


s = oa.db.bayes.mysql.Store.__new__(oa.db.bayes.mysql.Store)
s.conn = Conn()
s.seen_get("x' OR '1'='1")
check(asked and not any("OR" in t for t in asked),
      "the message id became part of the statement: %r" % asked)
''', needs="a Message-Id that contains a quote, with the MySQL store",
 breaks="the message id is put into the text of the statement"),
dict(id="P13-3", prop="P13", edits=[("oa/plugins/dkim.py",
'''                    elif value.encode() in self.author_domains:
                        return True
''', '''                    # a signature of a domain is good for those below it
                    elif any(re.search(b"(?:^|\\\\.)" + domain + b"$",
                                       value.encode())
                             for domain in self.author_domains):
                        return True
''')],
 demo=SETUP + '''
rs = load("loadplugin oa.plugins.dkim.DKIMPlugin\\n"
          "whitelist_from_dkim *@example.com example.com\\n"
          "full R eval:check_for_dkim_whitelist_from()\\n")
m = mail(rs, MAIL)
p = [p for p in rs.ctxt.plugins.values()
     if type(p).__name__ == "DKIMPlugin"][0]
p.dkim_checked_signature = True
p.dkim_valid = True
p.author_addresses = ["alice@example.com"]
p.author_domains = [b"example.com"]
good = p.check_for_dkim_whitelist_from(m)
p.author_domains = [b".*"]
bad = p.check_for_dkim_whitelist_from(m)
check(good, "setup")
check(not bad, "a domain from the message was used as an expression")
''', needs="a valid signature whose domain holds expression characters, and whitelist_from_dkim with a signing domain",
 breaks="the signing domain of the message is used as a regular expression"),
]
