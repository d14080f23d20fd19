SEEDS = []
SETUP = '''
import oa.config, oa.rules.parser, oa.message, oa.errors
SCRATCH = os.environ.get("DEMO_SCRATCH") or tempfile.mkdtemp()


def load(text, paranoid=False, ignore_unknown=True):
    """The rule set loaded from this configuration text."""
    p = os.path.join(SCRATCH, "rules.cf")
    with open(p, "w") as f:
        f.write(text)
    parser = oa.rules.parser.parse_pad_rules([p], paranoid, ignore_unknown)
    return parser.get_ruleset()


def mail(rs, text):
    return oa.message.Message(rs.ctxt, text)


MAIL = """Received: by mx.example.com; Fri, 28 Jul 2017 18:35:02 +0300
From: Alice <alice@example.com>
To: Bob <bob@example.org>
Subject: hello world
Message-ID: <1@example.com>
Date: Fri, 28 Jul 2017 18:35:02 +0300

This is the body text.
"""


def check(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)
'''
