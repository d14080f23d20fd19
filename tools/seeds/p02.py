import os
import runpy
HERE = os.path.dirname(__file__)
SETUP = runpy.run_path(os.path.join(HERE, "common.py"))["SETUP"]
SEEDS = [
dict(id="P02-1", prop="P02", edits=[("oa/conf.py",
'''        for real_key in real_keys:
            self.set_global(real_key, [])
''', '''        for real_key in real_keys:
            dummy, default = self.options[real_key]
            self.set_global(real_key, default)
''')],
 demo=SETUP + '''
def headers(text):
    return list(load(text).conf["add_header"])


plain = headers("")
first = headers("clear_headers\\nadd_header all Organisation Example\\n")
check(len(first) == 1, "the header of the first configuration: %r" % first)
second = headers("")
check(second == plain, "the header another configuration adds is added by "
      "this one: %r" % second)
third = headers("clear_headers\\n")
check(third == [], "cleared headers are %r" % third)
''',
 needs="one configuration that clears a list option and then adds to it, and "
       "another one loaded later in the same process",
 breaks="clear_headers (clear_dns_servers, clear_trusted_networks ...) installs "
      "the list of defaults itself instead of a new list: what the "
      "configuration adds afterwards is a default of every later one"),
dict(id="P02-2", prop="P02", edits=[("oa/dns_interface.py",
'''        self.query_restrictions = {}
''', ''''''), ("oa/dns_interface.py",
'''    def __init__(self):
        self.log = logging''', '''    # Domain -> whether queries are allowed, see dns_query_restriction.
    query_restrictions = {}

    def __init__(self):
        self.log = logging''')],
 demo=SETUP + '''
a = load("dns_query_restriction deny example.com\\n")
b = load("")
check(a.ctxt.dns.is_query_restricted("www.example.com"),
      "the restriction is not applied")
check(not b.ctxt.dns.is_query_restricted("www.example.com"),
      "a restriction of one configuration is applied by another one")
''',
 needs="two configurations in one process, one of them with "
       "dns_query_restriction",
 breaks="the table of query restrictions belongs to the class, so the "
      "restrictions of one configuration hold for all of them"),
dict(id="P02-3", prop="P02", edits=[("oa/dns_interface.py",
'''        self._resolver = dns.resolver.Resolver()
        self.query_restrictions = {}
''', '''        # The one that has read the settings of the system already.
        self._resolver = dns.resolver.get_default_resolver()
        self.query_restrictions = {}
''')],
 demo=SETUP + '''
def timeouts(rs):
    return rs.ctxt.dns.lifetime, rs.ctxt.dns.timeout


a = load("default_dns_lifetime 3\\ndefault_dns_timeout 1\\n")
check(timeouts(a) == (3.0, 1.0), "the configured times: %r" % (timeouts(a),))
b = load("default_dns_lifetime 9\\ndefault_dns_timeout 4\\n")
check(timeouts(b) == (9.0, 4.0), "the configured times: %r" % (timeouts(b),))
check(timeouts(a) == (3.0, 1.0), "loading another configuration changed the "
      "times of the first one to %r" % (timeouts(a),))
''',
 needs="two configurations in one process with different DNS settings, for "
       "example of the site and of a user",
 breaks="all configurations use the one default resolver of the library, so "
        "loading one of them changes the name servers and times of the "
        "others"),
dict(id="P02-4", prop="P02", edits=[("oa/server.py",
'''            parser.results = copy.deepcopy(self._parser_results)
''', '''            parser.results = copy.copy(self._parser_results)
''')],
 demo=SETUP + '''
import oa.server

server = object.__new__(oa.server.Server)
server.paranoid, server.ignore_unknown = False, True
server._user_rulesets = {}
server.log = __import__("logging").getLogger("x")
site = os.path.join(SCRATCH, "site")
os.makedirs(site)
with open(os.path.join(site, "a.cf"), "w") as f:
    f.write("allow_user_rules 1\\nbody R /x/\\nscore R 1.0\\n")
server.sitepath = server.configpath = site
prefs = {}
oa.config.get_userprefs_path = prefs.get
for user, text in (("alice", "score R 7.5\\n"), ("bob", "")):
    prefs[user] = os.path.join(SCRATCH, user)
    with open(prefs[user], "w") as f:
        f.write(text)
server.load_config()


def score(user):
    return server.get_user_ruleset(user).get_rule("R").score


check(score("alice") == 7.5, "the score of alice: %r" % score("alice"))
check(score("bob") == 1.0, "bob gets the score of alice: %r" % score("bob"))
''',
 needs="two users of one daemon whose preferences change the same rule of "
       "the site configuration",
 breaks="only the table of rules is copied for a user, not the entries in it: "
      "the scores one user configures are used for the users after him"),
]
