import os
import runpy
HERE = os.path.dirname(__file__)
SETUP = runpy.run_path(os.path.join(HERE, "common.py"))["SETUP"]
SEEDS = [
dict(id="P08-1", prop="P08", edits=[("oa/plugins/spam_cop.py",
'            x = self["spamcop_max_report_size"]*1024\n',
'            x = self["spamcop_max_size"]*1024\n')],
 demo=SETUP + '''
import oa.plugins.spam_cop as sc
rs = load("loadplugin oa.plugins.spam_cop.SpamCopPlugin\\n"
          "spamcop_max_report_size 1\\n")
plugin = rs.ctxt.plugins["SpamCopPlugin"]
sent = []
plugin.send_mail_method = lambda *a, **k: sent.append(a) or True
sc.SpamCopPlugin.send_mail_method = lambda self, *a, **k: sent.append(a) or True
m = mail(rs, MAIL + "x" * 3000)
sc.SpamCopPlugin.get_mail_date = lambda self, msg: 10
sc.SpamCopPlugin.get_now_date = lambda self: 20
try:
    plugin.plugin_report(m)
except KeyError as e:
    check(False, "the option %s is not declared" % e)
''', needs="reporting a message larger than spamcop_max_report_size",
 breaks="the truncation reads an option that is not declared: the report fails with KeyError"),
dict(id="P08-2", prop="P08", edits=[("oa/conf.py",
'''        for real_key in real_keys:
            self.set_global(real_key, [])
''', '''        for real_key in real_keys:
            self.set_global(real_key, [])
            if key.endswith("_headers"):
                return
''')],
 demo=SETUP + '''
rs = load("add_header all Foo bar\\nremove_header all Level\\nclear_headers\\n")
check(rs.ctxt.conf["add_header"] == [], "add_header")
check(rs.ctxt.conf["remove_header"] == [], "remove_header")
''', needs="clear_headers after a remove_header line",
 breaks="clear_headers clears the added headers only, removals stay configured"),
dict(id="P08-3", prop="P08", edits=[("oa/plugins/awl.py",
'"auto_whitelist_ipv6_mask_len": ("int", 48)', '"auto_whitelist_ipv6_mask_len": ("int", 64)')],
 demo=SETUP + '''
import ipaddress
rs = load("loadplugin oa.plugins.awl.AutoWhiteListPlugin\\n")
plugin = rs.ctxt.plugins["AutoWhiteListPlugin"]
a = plugin.ip_to_awl_key(ipaddress.ip_address(u"2001:db8:1:2::1"))
b = plugin.ip_to_awl_key(ipaddress.ip_address(u"2001:db8:1:3::1"))
check(a == b, "hosts of one /48 have different entries")
''', needs="an IPv6 sender and no auto_whitelist_ipv6_mask_len line",
 breaks="the default is not the documented one: hosts of one /48 no longer share an entry"),
dict(id="P08-4", prop="P08", edits=[("oa/conf.py",
'''                time_unit = timedelta(weeks=value)
''', '''                time_unit = timedelta(value * 24)
''')],
 demo=SETUP + '''
rs = load("")
conf = rs.ctxt.conf
conf.set_timevalue_option("x", "2w")
check(conf["x"] == 14 * 86400, "2w is %s" % conf["x"])
''', needs="a duration given in weeks",
 breaks="weeks are not weeks"),
dict(id="P09-1", prop="P09", edits=[("oa/plugins/relay_eval.py",
'    def check_for_illegal_ip(self, msg, option=None, target=None):', '    def check_for_illegal_ip(self, msg, option=None):')],
 demo=SETUP + '''
rs = load("loadplugin oa.plugins.relay_eval.RelayEval\\n"
          "header ILLEGAL eval:check_for_illegal_ip()\\n")
m = mail(rs, MAIL)
seen = []
m.ctxt.log.critical = lambda *a, **k: seen.append(a)
rs.match(m)
check(not seen, "the rule function fails")
''', needs="a rule using check_for_illegal_ip",
 breaks="the rule function does not accept the target: every rule with it fails and never matches"),
dict(id="P09-2", prop="P09", edits=[("oa/plugins/__init__.py",
'        "oa.plugins.razor2.Razor2Plugin"', '        "oa.plugins.razor2.Razor2"')],
 demo=SETUP + '''
import importlib
import oa.plugins
for name, value in sorted(oa.plugins.REIMPLEMENTED_PLUGINS.items()):
    mod, cls = value.rsplit(".", 1)
    try:
        m = importlib.import_module(mod)
    except ImportError:
        continue
    check(hasattr(m, cls), "%s: %s" % (name, value))
import os
src = open("oa/plugins/razor2.py").read()
cls = oa.plugins.REIMPLEMENTED_PLUGINS["Mail::SpamAssassin::Plugin::Razor2"].rsplit(".", 1)[1]
import ast
check(cls in [n.name for n in ast.walk(ast.parse(src)) if isinstance(n, ast.ClassDef)], "Razor2")
''', needs="a loadplugin line for Razor2 under its SpamAssassin name",
 breaks="the plugin cannot be loaded under its SpamAssassin name"),
dict(id="P09-3", prop="P09", edits=[("oa/plugins/dns_eval.py",
'"check_rbl_from_domain",', '')],
 demo=SETUP + '''
rs = load("loadplugin oa.plugins.dns_eval.DNSEval\\n")
check("check_rbl_from_domain" in rs.ctxt.eval_rules, "check_rbl_from_domain")
''', needs="a rule using check_rbl_from_domain",
 breaks="the rule function is implemented and documented but no longer registered"),
]
