import os
import runpy
HERE = os.path.dirname(__file__)
SETUP = runpy.run_path(os.path.join(HERE, "common.py"))["SETUP"]
RCVD = '''
RELAYED = """Received: from relay.example.net (relay.example.net [8.8.4.4])
\\tby mx.example.com (Postfix) with ESMTP id 1234567
\\tfor <bob@example.org>; Fri, 28 Jul 2017 18:35:02 +0300
Received: from inner.example.org (inner.example.org [9.9.9.9])
\\tby relay.example.net (Postfix) with ESMTP id 7654321
\\tfor <bob@example.org>; Fri, 28 Jul 2017 18:34:02 +0300
From: Alice <alice@example.com>
To: Bob <bob@example.org>
Subject: hello world
Date: Fri, 28 Jul 2017 18:35:02 +0300

This is the body text.
"""
'''
SEEDS = [
dict(id="P33-1", prop="P33", edits=[("oa/message.py",
'        return self.raw_mime_headers.get(header_name, list())\n',
'        return self.raw_mime_headers[header_name]\n'), ("oa/message.py",
'        return self.raw_headers.get(header_name, list())\n',
'        return self.raw_headers[header_name]\n')],
 demo=SETUP + '''
rs = load("header A exists:X-Missing\\nheader B X-Missing =~ /x/\\n")
m = mail(rs, MAIL)
rs.match(m)
check("X-Missing" not in m.raw_headers, "a header that is not there exists")
check(not m.rules_checked["A"], "rule")
''', needs="a question about a header the message does not have, followed by an exists: rule or a walk over all headers",
 breaks="asking for a missing header adds an empty entry to the message"),
dict(id="P33-3", prop="P33", edits=[("oa/plugins/header_eval.py",
'''        for relay in msg.trusted_relays + msg.untrusted_relays:
            if relay.get('envfrom'):
''', '''        relays = msg.trusted_relays
        relays += msg.untrusted_relays
        for relay in relays:
            if relay.get('envfrom'):
''')],
 demo=SETUP + RCVD + '''
rs = load("loadplugin oa.plugins.header_eval.HeaderEval\\n"
          "header R eval:check_for_matching_env_and_hdr_from()\\n")
m = mail(rs, RELAYED)
before = (list(m.trusted_relays), list(m.untrusted_relays))
rs.match(m)
check((m.trusted_relays, m.untrusted_relays) == before,
      "relays changed by a rule: %d trusted" % len(m.trusted_relays))
''', needs="the rule check_for_matching_env_and_hdr_from, and something that looks at the trusted relays after it",
 breaks="the rule adds the untrusted relays to the trusted ones"),
]
