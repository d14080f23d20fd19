H = "oa/plugins/header_eval.py"
MY = "oa/db/bayes/mysql.py"
AW = "oa/plugins/awl.py"
RZ = "oa/plugins/razor2.py"
IM = "oa/plugins/image_info.py"
W = "oa/plugins/wlbl_eval.py"
ESC = '''                subject_regex = Regex(r".*" + re.escape(to) + r".*", re.I)
'''
SEEN = '''        cursor.execute("DELETE FROM bayes_seen WHERE msgid=%s", (msgid,))
'''
NAMES = '''            name = part.get_param("name")
            subtype = part.get_content_subtype()
'''
CASES = [
    ("P13", "bad", "to-unescaped", [(H, 're.escape(to) + r".*"',
                                     'to + r".*"')]),
    ("P13", "bad", "escape-then-replace-other", [(H, ESC, '''                quoted = re.escape(to)
                subject_regex = Regex(r".*" + to + r".*", re.I)
''')]),
    ("P13", "bad", "id-unescaped", [(H, '% re.escape(id)', '% id')]),
    ("P13", "bad", "list-unescaped", [(H, "re.escape(listname)",
                                       "listname")]),
    ("P13", "bad", "name-id-unescaped", [(H, "re.escape(regex.group(1))",
                                          "regex.group(1)")]),
    ("P13", "bad", "user-unescaped", [(H, "re.escape(user)", "user")]),
    ("P13", "bad", "sql-text", [(MY, SEEN, '''        cursor.execute("DELETE FROM bayes_seen WHERE msgid='%s'" % msgid)
''')]),
    ("P13", "bad", "sql-join", [(MY, SEEN, '''        query = " ".join(["DELETE FROM bayes_seen WHERE msgid =",
                          repr(msgid)])
        cursor.execute(query)
''')]),
    ("P13", "bad", "awl-sql", [(AW, '''        cursor.execute("SELECT * FROM awl WHERE username=%s AND email=%s AND "
                       "signedby=%s AND ip=%s", key)
        result''', '''        cursor.execute("SELECT * FROM awl WHERE username=%r AND email=%r AND "
                       "signedby=%r AND ip=%r" % key)
        result''')]),
    ("P13", "bad", "command", [(RZ, '''        try:
            proc = subprocess.Popen(args, stderr=subprocess.PIPE,
''', '''        args.append("-from=" + msg.sender_address)
        try:
            proc = subprocess.Popen(args, stderr=subprocess.PIPE,
''')]),
    ("P13", "bad", "file", [(IM, NAMES, NAMES + '''            if name:
                with open("/tmp/" + name, "wb") as dump:
                    dump.write(payload)
''')]),
    ("P13", "bad", "getattr", [(IM, NAMES, NAMES + '''            getattr(self, "_seen_" + subtype, len)(name)
''')]),
    ("P13", "bad", "by-way-of-local-data", [(IM, '''        name_re = oa.regex.perl2re(regex)
        names = self._get_image_names(msg)
''', '''        name_re = oa.regex.perl2re(regex)
        names = self._get_image_names(msg)
        if names and oa.regex.perl2re("/%s/" % names[0]).match(regex):
            return True
''')]),
    ("P13", "bad", "helper", [(H, ESC, '''                subject_regex = self._about(to)
'''), (H, "    def check_illegal_chars(", '''    def _about(self, to):
        return Regex(r".*" + to + r".*", re.I)

    def check_illegal_chars(''')]),
    ("P13", "bad", "pickle", [(IM, NAMES, NAMES + '''            import pickle
            if name == "x.pickle":
                pickle.loads(payload)
''')]),
    ("P13", "bad", "eval-text", [("oa/rules/eval_.py",
                                  "    def match(self, msg):\n",
                                  '''    def match(self, msg):
        if msg.text.isdigit():
            eval(msg.text)
''')]),
    ("P13", "ok", "escape-first", [(H, ESC, '''                quoted = re.escape(to)
                subject_regex = Regex(r".*" + quoted + r".*", re.I)
''')]),
    ("P13", "ok", "escape-into-same-name", [(H, ESC, '''                to = re.escape(to)
                subject_regex = Regex(".*%s.*" % to, re.I)
''')]),
    ("P13", "ok", "escape-all", [(H, '''        subject = msg.msg.get('Subject', "")
        for to in full_to:
            if test == "address":
''', '''        subject = msg.msg.get('Subject', "")
        if test == "any":
            return bool(re.search("|".join(map(re.escape, full_to)), subject))
        for to in full_to:
            if test == "address":
''')]),
    ("P13", "ok", "escape-helper", [(H, ESC, '''                subject_regex = self._about(to)
'''), (H, "    def check_illegal_chars(", '''    @staticmethod
    def _about(address, around=r".*"):
        text = around + re.escape(address) + around
        return Regex(text, re.I)

    def check_illegal_chars(''')]),
    ("P13", "ok", "sql-constant", [(MY, SEEN, '''        query = "DELETE FROM bayes_seen "
        query += "WHERE msgid=%s"
        cursor.execute(query, (msgid,))
''')]),
    ("P13", "ok", "command-config", [(RZ, '''        try:
            proc = subprocess.Popen(args, stderr=subprocess.PIPE,
''', '''        args.append("-timeout=%s" % self["razor_timeout"])
        try:
            proc = subprocess.Popen(args, stderr=subprocess.PIPE,
''')]),
    ("P13", "ok", "number-in-expression", [(H, ESC, '''                subject_regex = Regex(r".{%d}" % len(to) + re.escape(to),
                                      re.I)
''')]),
]
