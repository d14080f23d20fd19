MY = "oa/db/bayes/mysql.py"
SA = "oa/db/bayes/sqlalchemy.py"
AW = "oa/plugins/awl.py"
CASES = [
    ("P14", "bad", "mysql seen_delete not committed", [(MY, '''            "DELETE FROM bayes_seen WHERE msgid = %s",
            (msgid,)
        )
        self.conn.commit()
''', '''            "DELETE FROM bayes_seen WHERE msgid = %s",
            (msgid,)
        )
''')]),
    ("P14", "bad", "seen_put deletes all", [(MY, '''cursor.execute("DELETE FROM bayes_seen WHERE msgid=%s", (msgid,))
        cursor.execute(
            "INSERT''', '''cursor.execute("DELETE FROM bayes_seen")
        cursor.execute(
            "INSERT''')]),
    ("P14", "bad", "columns swapped", [(SA, '''"SELECT spam_count, ham_count, atime "
            "FROM bayes_token WHERE token=:token",
            {"token": token}''', '''"SELECT ham_count, spam_count, atime "
            "FROM bayes_token WHERE token=:token",
            {"token": token}''')]),
    ("P14", "bad", "orm columns swapped", [(SA, '''BayesToken.token, BayesToken.spam_count,
                    BayesToken.ham_count, BayesToken.atime,''', '''BayesToken.token, BayesToken.ham_count,
                    BayesToken.spam_count, BayesToken.atime,''')]),
    ("P14", "bad", "placeholders swapped", [(MY, '''"atime=%s WHERE token=%s", (spam, ham, msgatime, token))''',
      '''"atime=%s WHERE token=%s", (spam, ham, token, msgatime))''')]),
    ("P14", "bad", "too few values", [(MY, '''"atime=%s WHERE token=%s", (spam, ham, msgatime, token))''',
      '''"atime=%s WHERE token=%s", (spam, ham, token))''')]),
    ("P14", "bad", "touch without commit", [(SA, '''            ).update({'atime':msgatime})
        self.conn.commit()''', '''            ).update({'atime':msgatime})''')]),
    ("P14", "bad", "touch of all", [(SA, '''            self.conn.query(BayesToken).filter(
                BayesToken.token==bytes(token)
            ).update({'atime':msgatime})''', '''            self.conn.query(BayesToken).update({'atime':msgatime})''')]),
    ("P14", "bad", "other signature", [(MY, "def tok_touch_all(self, touch_tokens, msgatime):", "def tok_touch_all(self, msgatime, touch_tokens):")]),
    ("P14", "bad", "commit inside the loop only after update", [(MY, '''                    (token, spam, ham, msgatime))
        self.conn.commit()
''', '''                    (token, spam, ham, msgatime))
            else:
                self.conn.commit()
''')]),
    ("P14", "bad", "text built from the token", [(MY, '''            cursor.execute(
                "SELECT token, spam_count, ham_count, atime "
                "FROM bayes_token WHERE token=%s", (token, )
            )''', '''            cursor.execute(
                "SELECT token, spam_count, ham_count, atime "
                "FROM bayes_token WHERE token='%s'" % token
            )''')]),
    ("P14", "bad", "missing column", [(MY, "`atime` int(11) NOT NULL default '0',", "")]),
    ("P14", "bad", "awl: select of any user", [(AW, '''        cursor.execute("SELECT * FROM awl WHERE username=%s AND email=%s AND "
                       "signedby=%s AND ip=%s", key)
        result = cursor.fetchone()
        if not result and ip''', '''        cursor.execute("SELECT * FROM awl WHERE email=%s AND "
                       "signedby=%s AND ip=%s", key[1:])
        result = cursor.fetchone()
        if not result and ip''')]),
    ("P14", "bad", "awl: update of any address", [(AW, '''                "UPDATE awl SET count=%s, totscore=%s WHERE username=%s AND "
                "email=%s AND signedby=%s AND ip=%s",
                (entry_count, entry_totscore) + key)''', '''                "UPDATE awl SET count=%s, totscore=%s WHERE username=%s AND "
                "email=%s AND signedby=%s",
                (entry_count, entry_totscore) + key[:3])''')]),
    ("P14", "bad", "awl: key order", [(AW, '''        key = (self.ctxt.username, addr, signed_by, awl_key_ip)''', '''        key = (self.ctxt.username, signed_by, addr, awl_key_ip)''')]),
    ("P14", "bad", "awl: take over of any user", [(AW, '''                        AWL.username == self.ctxt.username,
                        AWL.email == address,
                        AWL.signedby == signed_by,
                        AWL.ip == "none").first()''', '''                        AWL.email == address,
                        AWL.signedby == signed_by,
                        AWL.ip == "none").first()''')]),
    ("P14", "bad", "awl: new entry without signer", [(AW, "            result.signedby = signed_by\n", "")]),
    ("P14", "bad", "awl: merge not committed", [(AW, '''            session.merge(entry)
            session.commit()''', '''            session.merge(entry)
            session.flush()''')]),
    ("P14", "bad", "awl: commit missing in mysql", [(AW, '''        except pymysql.Error:
            return False

        conn.commit()''', '''        except pymysql.Error:
            return False''')]),
    ("P14", "bad", "awl: other user", [(AW, '''            result.username = self.ctxt.username''', '''            result.username = self.sql_username''')]),
    ("P14", "ok", "upsert", [(MY, '''        cursor.execute("UPDATE bayes_vars SET spam_count=spam_count+%s, "
                       "ham_count=ham_count+%s", (spam, ham))
        if not cursor.rowcount:
''', '''        updated = cursor.execute(
            "UPDATE bayes_vars SET ham_count=%s+ham_count, "
            "spam_count=%s+spam_count", (ham, spam))
        if updated == 0:
''')]),
    ("P14", "ok", "on duplicate key", [(MY, '''            cursor.execute(
                "UPDATE bayes_token "
                "SET spam_count=spam_count+%s, ham_count=ham_count+%s, "
                "atime=%s WHERE token=%s", (spam, ham, msgatime, token))
            if not cursor.rowcount:
                cursor.execute(
                    "INSERT INTO bayes_token "
                    "(id, token, spam_count, ham_count, atime) "
                    "VALUES (0, %s, %s, %s, %s)",
                    (token, spam, ham, msgatime))
''', '''            cursor.execute(
                "INSERT INTO bayes_token "
                "(id, token, spam_count, ham_count, atime) "
                "VALUES (0, %s, %s, %s, %s) ON DUPLICATE KEY UPDATE "
                "spam_count=spam_count+VALUES(spam_count), "
                "ham_count=ham_count+VALUES(ham_count), "
                "atime=VALUES(atime)",
                (token, spam, ham, msgatime))
''')]),
    ("P14", "ok", "helper and finally", [(MY, '''        cursor = self.conn.cursor()
        cursor.execute(
            "DELETE FROM bayes_seen WHERE msgid = %s",
            (msgid,)
        )
        self.conn.commit()
        cursor.close()
''', '''        self._write("DELETE FROM bayes_seen WHERE msgid = %s", msgid)

    def _write(self, sql, *values):
        cursor = self.conn.cursor()
        try:
            cursor.execute(sql, values)
            self.conn.commit()
        finally:
            cursor.close()
''')]),
    ("P14", "ok", "seen_put updates", [(SA, '''        self.conn.execute(
            "DELETE FROM bayes_seen WHERE msgid=:msgid", {"msgid": msgid})
        self.conn.execute(
            "INSERT INTO bayes_seen (id, msgid, flag) "
            "VALUES (0, :msgid, :flag)",
            {"msgid": msgid, "flag": flag})
        self.conn.commit()''', '''        values = dict(msgid=msgid, flag=flag)
        if self.seen_get(msgid) is None:
            self.conn.execute(
                "INSERT INTO bayes_seen (id, msgid, flag) "
                "VALUES (0, :msgid, :flag)", values)
        else:
            self.conn.execute(
                "UPDATE bayes_seen SET flag=:flag WHERE msgid=:msgid", values)
        self.conn.commit()''')]),
    ("P14", "ok", "awl: filter_by", [(AW, '''            result = session.query(AWL).filter(
                    AWL.username == self.ctxt.username,
                    AWL.email == address,
                    AWL.signedby == signed_by,
                    AWL.ip == ip).first()
''', '''            mine = session.query(AWL).filter_by(
                username=self.ctxt.username)
            result = mine.filter(
                    AWL.email == address).filter(
                    AWL.signedby == signed_by,
                    ip == AWL.ip).first()
''')]),
    ("P14", "ok", "awl: constructor keywords", [(AW, '''            result = AWL()
            result.count = 0
            result.totscore = 0
            result.username = self.ctxt.username
            result.email = address
            result.signedby = signed_by
            result.ip = ip
''', '''            result = AWL(count=0, totscore=0,
                         username=self.ctxt.username, email=address,
                         signedby=signed_by, ip=ip)
''')]),
    ("P14", "ok", "awl: update in the statement", [(AW, '''                "UPDATE awl SET count=%s, totscore=%s WHERE username=%s AND "
                "email=%s AND signedby=%s AND ip=%s",
                (entry_count, entry_totscore) + key)''', '''                "UPDATE awl SET count=count+1, totscore=totscore+%s WHERE "
                "username=%s AND email=%s AND signedby=%s AND ip=%s",
                (score,) + key)''')]),
]
