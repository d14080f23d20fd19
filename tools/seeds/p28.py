import os
import runpy
HERE = os.path.dirname(__file__)
SETUP = runpy.run_path(os.path.join(HERE, "common.py"))["SETUP"]
C = "oa/context.py"
M = "oa/message.py"
P = "oa/plugins/pyzor.py"

PLUG = SETUP + '''
import oa.context, oa.plugins.base
g = oa.context.GlobalContext()


def plugin_file(name, text):
    p = os.path.join(SCRATCH, name.lower() + "x.py")
    with open(p, "w") as f:
        f.write("import oa.plugins.base, oa.rules.body\\n"
                "class %s(oa.plugins.base.BasePlugin):\\n" % name + text)
    return p
'''
SEEDS = [
dict(id="P28-2", prop="P28", edits=[(C,
'''        if class_name in self.plugins:
            self.log.warning("Redefining plugin %s.", class_name)
            self.unload_plugin(class_name)
''', '''        if class_name in self.plugins and path is None:
            self.log.warning("Redefining plugin %s.", class_name)
            self.unload_plugin(class_name)
''')],
 demo=PLUG + '''
a = plugin_file("Same", "    eval_rules = ('r1', 'r2')\\n    def r1(self, msg, target=None): pass\\n    def r2(self, msg, target=None): pass\\n")
g.load_plugin("Same", a)
check(set(g.eval_rules) == {"r1", "r2"}, "first")
b = plugin_file("Same", "    eval_rules = ('r1',)\\n    def r1(self, msg, target=None): pass\\n").replace("samex", "samex")
os.rename(b, os.path.join(SCRATCH, "samey.py"))
g.load_plugin("Same", os.path.join(SCRATCH, "samey.py"))
check(set(g.eval_rules) == {"r1"}, "replaced")
''', needs="replacing a plugin by another version from a file", breaks="rules of the replaced plugin stay callable"),
dict(id="P28-3", prop="P28", edits=[(C,
'''        for plugin in self.ctxt.plugins.values():
            plugin.extract_metadata(self, payload, text, part)
''', '''        for plugin in self.ctxt.plugins.values():
            if plugin.extract_metadata(self, payload, text, part):
                break
''')],
 demo=PLUG + '''
seen = []


class Plug(object):
    def __init__(self, r): self.r = r
    def check_start(self, msg): pass
    def parsed_metadata(self, msg): pass
    def extract_metadata(self, msg, payload, text, part):
        seen.append(self.r)
        return self.r


g.plugins.update(a=Plug(None), b=Plug(True), c=Plug(False))
oa.message.Message(g, MAIL)
check(seen == [None, True, False], "plugins told: %s" % seen)
''', needs="a plugin whose handler returns a true value", breaks="the plugins loaded after it are not told about the parts of the message"),
]
