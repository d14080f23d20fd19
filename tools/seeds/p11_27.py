import os
import runpy
HERE = os.path.dirname(__file__)
SETUP = runpy.run_path(os.path.join(HERE, "common.py"))["SETUP"]
NET = runpy.run_path(os.path.join(HERE, "p06_29.py"))["NET"]
B, P, PB = "oa/rules/base.py", "oa/rules/parser.py", "oa/protocol/base.py"
C, D, E = "oa/context.py", "oa/dns_interface.py", "oa/plugins/dns_eval.py"
M, N = "oa/message.py", "oa/networks.py"
RELAYS = SETUP + '''
def relays(conf, *hops):
    """(trusted, internal) of each relay, from the nearest one on"""
    rs = load(conf)
    text = "".join("Received: from %s (%s [%s]) by x.example; Fri, 28 Jul 2017 "
                   "18:35:02 +0300\\n" % (h, h, ip) for h, ip in hops)
    m = mail(rs, text + "Subject: x\\n\\nbody\\n")
    check(len(m.received_headers) == len(hops), m.received_headers)
    return [(r in m.trusted_relays, r in m.internal_relays)
            for r in m.received_headers]


'''
SEEDS = [
dict(id="P06-2", prop="P06", edits=[(P,
'''                try:
                    rtype, name, value = value.split(None, 2)
                except ValueError:
                    raise oa.errors.InvalidSyntax(filename, line_no, line,
                                                  "Missing argument")

            if name not in''', '''                parts = value.split(None, 2)
                if len(parts) < 2:
                    raise oa.errors.InvalidSyntax(filename, line_no, line,
                                                  "Missing argument")
                rtype, name, value = parts

            if name not in''')],
 demo=SETUP + '''
import locale
locale.setlocale = lambda *a: None
locale.getlocale = lambda *a: ("en_US", "UTF-8")
try:
    rs = load("lang en describe A\\nbody B /b/\\nscore B 2\\n")
except Exception as e:
    check(False, repr(e))
check("B" in rs.checked, "B")
''', needs="a lang line of the process' language that lacks its last argument", breaks="the line stops the loading of the configuration"),
dict(id="P19-2", prop="P19", edits=[(PB,
'                content_length -= len(chunk)\n',
'                content_length -= min(content_length, self.chunk_size)\n')],
 demo=NET + '''
class Short(io.BytesIO):
    def read(self, n=-1):
        return io.BytesIO.read(self, min(n, 100) if n > 0 else n)
s = Server(a="body A /secret/\\nscore A 3\\n")
m = (MAIL + "x y z " * 100 + "secret\\n").encode()
r = s.ask(b"CHECK SPAMC/1.2\\r\\nContent-length: %d\\r\\n\\r\\n" % len(m) + m, reader=Short)
check(b"; 3.0" in r, r)
''', needs="a body that arrives in short reads", breaks="the rest of the message after a short read is not read"),
dict(id="P20-2", prop="P20", edits=[(PB,
'                content_length = int(content_length)\n',
'                content_length = int(float(content_length))\n')],
 demo=NET + '''
s = Server(a=CONF)
for n in (b"1e1", b"inf", b"10.5"):
    try:
        r = s.ask(b"CHECK SPAMC/1.2\\r\\nContent-length: " + n + b"\\r\\n\\r\\nSubject: x\\n\\nbody\\n")
    except Exception as e:
        check(False, repr(e))
    check(b" 76 " in r.split(b"\\r\\n")[0], r)
''', needs="a content length that is a number but no integer", breaks="the malformed length is accepted or ends the handler"),
dict(id="P21-2", prop="P21", edits=[(C,
'            if spam:\n                plugin.plugin_report(msg)\n',
'            if spam and (local or remote):\n                plugin.plugin_report(msg)\n')],
 demo=NET + '''
s = Server(a=CONF)
done = []
class Plugin(object):
    def plugin_report(self, msg): done.append("report")
    def plugin_revoke(self, msg): done.append("revoke")
s._ruleset.ctxt.plugins.clear()
s._ruleset.ctxt.plugins["P"] = Plugin()
s._ruleset.ctxt.hook_report(None, True, False, False)
check("revoke" not in done, done)
''', needs="a Set request that names no known target", breaks="reporting as spam trains the message as not spam"),
dict(id="P30-2", prop="P30", edits=[(B,
'            self.priority = int(priority)\n',
'            self.priority = min(int(priority), 1000)\n')],
 demo=SETUP + '''
rs = load("body A /a/\\npriority A 2000\\nbody B /b/\\npriority B 3000\\n")
check(list(rs.checked) == ["B", "A"], list(rs.checked))
''', needs="two rules with priorities above 1000", breaks="they run in the order of definition"),
dict(id="P05-4", prop="P05", edits=[("oa/rules/ruleset.py",
'''        spam = msg.score >= self.conf["required_score"]
        if ''', '''        spam = round(msg.score, 1) >= self.conf["required_score"]
        if ''')],
 demo=SETUP + '''
rs = load("required_score 5\\nreport_safe 1\\nbody A /body/\\nscore A 4.96\\n")
m = mail(rs, MAIL)
rs.match(m)
check(m.score < 5, m.score)
check("multipart/mixed" not in rs.get_adjusted_message(m), "ham is wrapped")
''', needs="a score that rounds up to the threshold", breaks="a ham message is wrapped like spam"),
dict(id="P11-1", prop="P11", edits=[(D,
'''                    self._available = True
                    break
            else:
                self._available = False
''', '''                    self._available = True
                    break
''')],
 demo=SETUP + '''
import datetime, oa.dns_interface
d = oa.dns_interface.DNSInterface()
d.available = "test"
d.test_interval = "0s"
answers = [["127.0.0.1"], [], [], []]
d._query = lambda q, t="A": answers.pop(0)
check(d.available, "first")
check(not d.available, "second test")
''', needs="two tests of which the second one has no answer", breaks="DNS stays available after a later test fails"),
dict(id="P12-1", prop="P12", edits=[(E,
'''            if results and not subtest:
                return True

            for result in results:
                if subtest.match(str(result)):
                    return True
        return False

    def _check_multi_rbl''', '''            if not results:
                break
            if not subtest:
                return True

            for result in results:
                if subtest.match(str(result)):
                    return True
        return False

    def _check_multi_rbl''')],
 demo=SETUP + '''
import oa.plugins.dns_eval
class Dns(object):
    def reverse_ip(self, ip): return ip
    def query(self, q, t="A"): return ["127.0.0.2"] if q.startswith("2") else []
class Ctxt(object):
    skip_rbl_checks, dns = False, Dns()
class Msg(object):
    def get_untrusted_ips(self): return ["1", "2"]
p = oa.plugins.dns_eval.DNSEval.__new__(oa.plugins.dns_eval.DNSEval)
p.ctxt = Ctxt()
check(p._check_rbl(Msg(), "x") is True, "second address")
check(p._check_rbl(Msg(), "x", subtest="127.0.0.2") is True, "second address")
''', needs="several untrusted relays of which only a later one is listed", breaks="the remaining addresses are not looked up"),
dict(id="P12-2", prop="P12", edits=[(E,
'''        """

        if self.ctxt.skip_rbl_checks:
            return False
''', '''        """

        if self.ctxt.skip_rbl_checks and subtest is None:
            return False
''')],
 demo=SETUP + '''
import oa.plugins.dns_eval
asked = []
class Dns(object):
    def query(self, q, t="A"): return asked.append(q) or ["127.0.0.2"]
class Ctxt(object):
    skip_rbl_checks, dns = True, Dns()
p = oa.plugins.dns_eval.DNSEval.__new__(oa.plugins.dns_eval.DNSEval)
p.ctxt = Ctxt()
for sub in (None, "127.0.0.2"):
    check(p._check_rbl_addr(["a@b.example"], "x", subtest=sub) is False, sub)
check(not asked, asked)
''', needs="a sender rule with a subtest while the checks are disabled", breaks="the blocklist is asked although disabled"),
dict(id="P27-1", prop="P27", edits=[(M,
'''                            if is_internal and not has_auth and not in_internal:
                                is_internal = False
''', '''                            is_internal = bool(has_auth or in_internal)
''')],
 demo=RELAYS + '''
r = relays("trusted_networks 10.1.0.0/16\\ninternal_networks 10.2.0.0/16\\n",
           ("a.example", "10.2.0.1"), ("b.example", "10.1.0.1"), ("c.example", "10.2.0.2"))
check(r == [(True, True), (True, False), (True, False)], r)
''', needs="an internal relay behind a trusted one that is not internal", breaks="relays become internal again behind an external one"),
dict(id="P27-2", prop="P27", edits=[(N,
'            if query in network:\n                return accepted\n',
'            if query in network and accepted:\n                return True\n')],
 demo=RELAYS + '''
r = relays("trusted_networks !10.1.1.0/24\\ntrusted_networks 10.1.0.0/16\\n",
           ("a.example", "10.1.2.1"), ("b.example", "10.1.1.1"))
check([x[0] for x in r] == [True, False], r)
''', needs="an excluded network inside a trusted one", breaks="the exclusion is ignored"),
]
