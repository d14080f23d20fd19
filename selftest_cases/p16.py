A = "oa/plugins/awl.py"
R = "oa/plugins/razor2.py"
SC = "oa/plugins/spam_cop.py"
P = "oa/rules/parser.py"
C = "oa/context.py"
M = "scripts/match.py"
K = "scripts/compile.py"
B = "oa/plugins/bayes.py"
DM = "oa/db/bayes/mysql.py"
DS = "oa/db/bayes/sqlalchemy.py"
GM = '''        conn = self._mysql_connect()
        try:
            cursor = conn.cursor()
            try:
                return self._get_mysql_entry(conn, cursor, address, ip,
                                             signed_by)
            finally:
                cursor.close()
        finally:
            conn.close()
'''
SAVE = '''        session = self.get_session()
        try:
            session.merge(entry)
            session.commit()
        finally:
            session.close()
'''
RZ = '''        try:
            my_timer.start()
            proc.communicate(input=str.encode(msg.raw_msg))
        finally:
            my_timer.cancel()
            end_process(proc)

        if'''
SMTP = '''            smtp_obj = smtplib.SMTP()
            try:
                smtp_obj.connect(mx_domain, 587)
                smtp_obj.helo(mx_domain.split('.')[1])
                smtp_obj.sendmail(sender, receiver, message)
                smtp_obj.quit()
            finally:
                smtp_obj.close()
'''
PF = '''        with open(filename, "rb") as rulef:
            for line_no, line in enumerate(rulef):
                try:
                    with self._paranoid(oa.errors.InvalidSyntax):
                        self._handle_line(filename, line, line_no + 1, _depth)
                except oa.errors.PluginLoadError as e:
                    warnings.warn(str(e))
                    self.ctxt.log.warn("%s", e)
                except oa.errors.PluginError as e:
                    # An option has been given an invalid value.
                    self.ctxt.err("%s:%s %s", filename, line_no + 1, e)
                    if self.ctxt.paranoid:
                        raise
'''
LM = '''        if self.store.tie_db_writeable():
            try:
                return self._learn_trapped(isspam, msg)
            finally:
                if not self.learn_caller_will_untie:
                    self.store.untie_db()
        return None
'''
FM = '''        if self.store.tie_db_writeable():
            try:
                return self._forget_trapped(msg, msgid)
            finally:
                if not self.learn_caller_will_untie:
                    self.store.untie_db()
        return None
'''
KL = '''            orig = self.learn_caller_will_untie
            try:
                self.learn_caller_will_untie = True
                fatal = self.forget_message(msg, msgid)
            finally:
                # Reset the value post-forget() ...
                self.learn_caller_will_untie = orig
'''
CASES = [
    ("P16", "bad", "cursor opened before the try of the connection", [
        (A, GM, '''        conn = self._mysql_connect()
        cursor = conn.cursor()
        try:
            return self._get_mysql_entry(conn, cursor, address, ip,
                                         signed_by)
        finally:
            cursor.close()
            conn.close()
''')]),
    ("P16", "bad", "connection closed only on success", [
        (A, GM, '''        conn = self._mysql_connect()
        cursor = conn.cursor()
        result = self._get_mysql_entry(conn, cursor, address, ip, signed_by)
        cursor.close()
        conn.close()
        return result
''')]),
    ("P16", "bad", "connection not closed for an early return", [
        (A, GM, '''        conn = self._mysql_connect()
        try:
            cursor = conn.cursor()
            result = self._get_mysql_entry(conn, cursor, address, ip,
                                           signed_by)
        except ValueError:
            return None
        else:
            cursor.close()
        conn.close()
        return result
''')]),
    ("P16", "ok", "closing()", [
        (A, GM, '''        with contextlib.closing(self._mysql_connect()) as conn:
            with contextlib.closing(conn.cursor()) as cursor:
                return self._get_mysql_entry(conn, cursor, address, ip,
                                             signed_by)
'''), (A, "import re\n", "import re\nimport contextlib\n")]),
    ("P16", "ok", "result kept, finally combined", [
        (A, GM, '''        conn = self._mysql_connect()
        try:
            cursor = conn.cursor()
            try:
                entry = self._get_mysql_entry(conn, cursor, address, ip,
                                              signed_by)
            finally:
                cursor.close()
        finally:
            conn.close()
        return entry
''')]),
    ("P16", "ok", "cursor goes with the connection", [
        (A, GM, '''        conn = self._mysql_connect()
        try:
            return self._get_mysql_entry(conn, conn.cursor(), address, ip,
                                         signed_by)
        finally:
            conn.close()
''')]),
    ("P16", "bad", "cursor used after the connection is closed", [
        (A, GM, '''        conn = self._mysql_connect()
        try:
            cursor = conn.cursor()
        finally:
            conn.close()
        return self._get_mysql_entry(conn, cursor, address, ip, signed_by)
''')]),
    ("P16", "bad", "session not closed when saving fails", [
        (A, SAVE, '''        session = self.get_session()
        session.merge(entry)
        session.commit()
        session.close()
''')]),
    ("P16", "bad", "session closed on errors of one type only", [
        (A, SAVE, '''        session = self.get_session()
        try:
            session.merge(entry)
            session.commit()
        except ValueError:
            session.close()
            raise
        session.close()
''')]),
    ("P16", "ok", "session closed by hand everywhere", [
        (A, SAVE, '''        session = self.get_session()
        try:
            session.merge(entry)
            session.commit()
        except:
            session.close()
            raise
        session.close()
''')]),
    ("P16", "ok", "session in a helper", [
        (A, SAVE, '''        self._save(entry)

    def _save(self, entry):
        session = self.get_session()
        try:
            session.merge(entry)
            session.commit()
        finally:
            session.close()
''')]),
    ("P16", "bad", "session from a helper not closed", [
        (A, SAVE, '''        session = self._begin(entry)
        session.commit()
        session.close()

    def _begin(self, entry):
        session = self.get_session()
        try:
            session.merge(entry)
        except:
            session.close()
            raise
        return session
''')]),
    ("P16", "ok", "session from a helper", [
        (A, SAVE, '''        session = self._begin(entry)
        try:
            session.commit()
        finally:
            session.close()

    def _begin(self, entry):
        session = self.get_session()
        try:
            session.merge(entry)
        except:
            session.close()
            raise
        return session
''')]),
    ("P16", "bad", "razor process left behind", [
        (R, RZ, RZ.replace("            end_process(proc)\n", ""))]),
    ("P16", "bad", "timer not cancelled on errors", [
        (R, RZ, '''        my_timer.start()
        try:
            proc.communicate(input=str.encode(msg.raw_msg))
        except (IOError, OSError):
            self.ctxt.log.debug("failed")
        my_timer.cancel()
        end_process(proc)

        if''')]),
    ("P16", "bad", "timer started too early", [
        (R, RZ, '''        my_timer.start()
        data = str(msg.raw_msg.missing()).encode()
        try:
            proc.communicate(input=data)
        finally:
            my_timer.cancel()
            end_process(proc)

        if''')]),
    ("P16", "ok", "razor communication in a helper", [
        (R, RZ, '''        self._talk(proc, my_timer, msg)

        if'''), (R, "    def launch_subprocess(", '''    def _talk(self, proc, timer, msg):
        try:
            timer.start()
            proc.communicate(input=str.encode(msg.raw_msg))
        finally:
            timer.cancel()
            end_process(proc)

    def launch_subprocess(''')]),
    ("P16", "bad", "process only looked at", [
        (R, '''    if process.poll() is None:
        process.kill()
        process.wait()
''', '''    if process.poll() is not None:
        process.kill()
        process.wait()
''')]),
    ("P16", "bad", "SMTP left open on errors", [
        (SC, SMTP, SMTP.replace("finally:", "except ValueError:"))]),
    ("P16", "bad", "SMTP left open when connecting fails", [
        (SC, SMTP, '''            smtp_obj = smtplib.SMTP()
            smtp_obj.connect(mx_domain, 587)
            try:
                smtp_obj.helo(mx_domain.split('.')[1])
                smtp_obj.sendmail(sender, receiver, message)
                smtp_obj.quit()
            finally:
                smtp_obj.close()
''')]),
    ("P16", "ok", "SMTP as a context manager", [
        (SC, SMTP, '''            with smtplib.SMTP() as smtp_obj:
                smtp_obj.connect(mx_domain, 587)
                smtp_obj.helo(mx_domain.split('.')[1])
                smtp_obj.sendmail(sender, receiver, message)
''')]),
    ("P16", "ok", "SMTP closed in both handlers", [
        (SC, SMTP, '''            smtp_obj = smtplib.SMTP()
            try:
                smtp_obj.connect(mx_domain, 587)
                smtp_obj.helo(mx_domain.split('.')[1])
                smtp_obj.sendmail(sender, receiver, message)
            except BaseException:
                smtp_obj.close()
                raise
            else:
                smtp_obj.close()
''')]),
    ("P16", "bad", "rule file closed only at the end", [
        (P, PF, PF.replace(
            'with open(filename, "rb") as rulef:\n',
            'rulef = open(filename, "rb")\n            if rulef:\n').replace(
            "            for line_no", "                for line_no", 1)
            if False else '''        rulef = open(filename, "rb")
        for line_no, line in enumerate(rulef):
            self._handle_line(filename, line, line_no + 1, _depth)
        rulef.close()
''')]),
    ("P16", "ok", "rule file closed in finally", [
        (P, PF, '''        rulef = open(filename, "rb")
        try:
            for line_no, line in enumerate(rulef):
                try:
                    with self._paranoid(oa.errors.InvalidSyntax):
                        self._handle_line(filename, line, line_no + 1, _depth)
                except oa.errors.PluginLoadError as e:
                    warnings.warn(str(e))
                    self.ctxt.log.warn("%s", e)
                except oa.errors.PluginError as e:
                    self.ctxt.err("%s:%s %s", filename, line_no + 1, e)
                    if self.ctxt.paranoid:
                        raise
        finally:
            rulef.close()
''')]),
    ("P16", "bad", "whole file read through an unclosed file", [
        (P, '        with open(filename, "rb") as rulef:\n'
            '            for line_no, line in enumerate(rulef):\n',
         '        if True:\n'
         '            for line_no, line in enumerate(open(filename, "rb")):\n'
         )]),
    ("P16", "bad", "module source left open", [
        (C, '''                with open(path, open_type) as sourcef:
                    return imp.load_module(modulename, sourcef, path,
                                           (suffix, open_type, file_type))
''', '''                return imp.load_module(modulename, open(path, open_type),
                                       path, (suffix, open_type, file_type))
''')]),
    ("P16", "bad", "message file not closed on errors", [
        (M, '''            try:
                raw_msg = msgf.read()
            finally:
                msgf.close()
''', '''            raw_msg = msgf.read()
            msgf.close()
''')]),
    ("P16", "bad", "message file not closed when skipped", [
        (M, '''            try:
                raw_msg = msgf.read()
            finally:
                msgf.close()
''', '''            raw_msg = ""
            try:
                raw_msg = msgf.read()
            except IOError as e:
                logger.critical("%s", e)
                continue
            else:
                msgf.close()
''')]),
    ("P16", "ok", "message file with", [
        (M, '''            try:
                raw_msg = msgf.read()
            finally:
                msgf.close()
''', '''            with msgf:
                raw_msg = msgf.read()
''')]),
    ("P16", "bad", "compiled rules written to a file left open", [
        (K, '''        with open(os.path.expanduser(path), "wb") as f:
            pickle.dump(ruleset, f, pickle.HIGHEST_PROTOCOL)
''', '''        f = open(os.path.expanduser(path), "wb")
        pickle.dump(ruleset, f, pickle.HIGHEST_PROTOCOL)
        f.close()
''')]),
    ("P16", "bad", "database left open when learning fails", [
        (B, LM, '''        if self.store.tie_db_writeable():
            result = self._learn_trapped(isspam, msg)
            if not self.learn_caller_will_untie:
                self.store.untie_db()
            return result
        return None
''')]),
    ("P16", "bad", "database left open always", [
        (B, LM, '''        if self.store.tie_db_writeable():
            return self._learn_trapped(isspam, msg)
        return None
''')]),
    ("P16", "bad", "database closed by the inner forget", [
        (B, KL, '''            fatal = self.forget_message(msg, msgid)
''')]),
    ("P16", "bad", "flag not restored when forgetting fails", [
        (B, KL, '''            orig = self.learn_caller_will_untie
            self.learn_caller_will_untie = True
            fatal = self.forget_message(msg, msgid)
            self.learn_caller_will_untie = orig
''')]),
    ("P16", "bad", "flag reset to False", [
        (B, "                self.learn_caller_will_untie = orig\n",
         "                self.learn_caller_will_untie = False\n")]),
    ("P16", "bad", "scan leaves the database open", [
        (B, '''            if not caller_untie:
                self.store.untie_db()

    def _scan''', '''            if caller_untie:
                self.store.untie_db()

    def _scan''')]),
    ("P16", "bad", "scan leaves the database open on errors", [
        (B, '''        try:
            return self._scan_trapped(msg, caller_untie)
        finally:
            # Reset the value accordingly.
            self.learn_caller_will_untie = caller_untie

            # If our caller won't untie the db, we need to do it.
            if not caller_untie:
                self.store.untie_db()
''', '''        result = self._scan_trapped(msg, caller_untie)
        self.learn_caller_will_untie = caller_untie
        if not caller_untie:
            self.store.untie_db()
        return result
''')]),
    ("P16", "ok", "learning with the flag read first", [
        (B, LM, '''        if not self.store.tie_db_writeable():
            return None
        try:
            result = self._learn_trapped(isspam, msg)
        finally:
            if self.learn_caller_will_untie:
                pass
            else:
                self.store.untie_db()
        return result
''')]),
    ("P16", "bad", "old connection of the store not closed", [
        (DM, "        self.untie_db()\n", "")]),
    ("P16", "bad", "old session of the store not closed", [
        (DS, "        self.untie_db()\n", "")]),
    ("P16", "bad", "closed connection kept", [
        (DM, "            self.conn.close()\n        self.conn = None\n",
         "            self.conn.close()\n")]),
    ("P16", "bad", "cursor kept", [
        (DM, '''        result = cursor.fetchone()
        cursor.close()
        return result

    def tok_get_all''', '''        result = cursor.fetchone()
        return result

    def tok_get_all''')]),
    ("P16", "bad", "cursor used after close", [
        (DM, '''        result = cursor.fetchone()
        cursor.close()
        return result

    def tok_get_all''', '''        cursor.close()
        return cursor.fetchone()

    def tok_get_all''')]),
    ("P16", "bad", "cursor kept on an early return", [
        (DM, '''        result = cursor.fetchone()
        cursor.close()
        return result[0] if result else None
''', '''        result = cursor.fetchone()
        if not result:
            return None
        cursor.close()
        return result[0]
''')]),
    ("P16", "ok", "cursor in try/finally", [
        (DM, '''        result = cursor.fetchone()
        cursor.close()
        return result[0] if result else None
''', '''        try:
            result = cursor.fetchone()
        finally:
            cursor.close()
        return result[0] if result else None
''')]),
    ("P16", "ok", "connection closed inline", [
        (DM, '''        self.untie_db()
        self.conn = pymysql''', '''        if self.conn is not None:
            self.conn.close()
            self.conn = None
        self.conn = pymysql''')]),
    ("P16", "ok", "razor helper for starting", [
        (R, '''        try:
            proc = subprocess.Popen(args, stderr=subprocess.PIPE,
                                    stdin=subprocess.PIPE,
                                    stdout=subprocess.PIPE)
        except OSError as e:
''', '''        try:
            proc = self._start(args)
        except OSError as e:
'''), (R, "    def launch_subprocess(", '''    @staticmethod
    def _start(args):
        return subprocess.Popen(args, stderr=subprocess.PIPE,
                                stdin=subprocess.PIPE,
                                stdout=subprocess.PIPE)

    def launch_subprocess(''')]),
]
