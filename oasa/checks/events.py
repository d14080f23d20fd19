"""P28: every loaded plugin gets every event until it is unloaded."""
from ..absint import NONE, is_const, show
from ..core import check
from ..model import AnalysisError
from ..util import BasePolicy, driver, mkdict, path_str, reach_names, run
from .protocol import meth_name
from .relays import mklist
from .scoring import MSG
from .tell import bind

P1 = ("obj", "the first plugin", "PLUGIN")
P2 = ("obj", "the second plugin", "PLUGIN")
CONF = ("obj", "the configuration", "CONF")
INHIBIT = "oa.errors.InhibitCallbacks"
GLOBAL = "oa.context.GlobalContext"
MESSAGE = "oa.context.MessageContext"
RULESET = ("sym", "ruleset", None)


def sym(x):
    return ("sym", x, None)


A, B, C = sym("first"), sym("second"), sym("third")
SPAM, HAM = ("const", True), ("const", False)
# (class, hook, arguments, method of the plugins, its arguments)
HOOKS = (
    (GLOBAL, "hook_parse_config", (A, B), "parse_config", (A, B)),
    (GLOBAL, "hook_parsing_start", (A,), "finish_parsing_start", (A,)),
    (GLOBAL, "hook_parsing_end", (A,), "finish_parsing_end", (A,)),
    (GLOBAL, "hook_check_end", (A, B), "check_end", (A, B)),
    (GLOBAL, "hook_auto_learn", (A, B), "auto_learn_discriminator", (A, B)),
    (GLOBAL, "hook_report", (A, SPAM, C, C), "plugin_report", (A,)),
    (GLOBAL, "hook_report", (A, HAM, C, C), "plugin_revoke", (A,)),
    (GLOBAL, "hook_revoke", (A, HAM, C, C), "plugin_revoke", (A,)),
    (MESSAGE, "_hook_check_start", (), "check_start", (MSG,)),
    (MESSAGE, "_hook_extract_metadata", (A, B, C), "extract_metadata",
     (MSG, A, B, C)),
    (MESSAGE, "_hook_parsed_metadata", (), "parsed_metadata", (MSG,)),
)


class Hook(BasePolicy):
    """Monitor: the methods of the plugins called, in order, with how each
    call ended (what it returned, or a request to stop)."""
    known_exc = True

    def __init__(self, p, base, own):
        BasePolicy.__init__(self, p)
        self.base = base
        self.own = own

    def init_mon(self):
        return ()

    def inline(self, I, fi):
        return fi.module.name == "oa.context" and fi.name not in self.own

    def on_call(self, I, st, node, callee, args, kw):
        if callee[0] in ("meth", "attr") and callee[1] in (P1, P2, CONF):
            m = self.base.find(callee[2])
            if m is None:
                return None
            b = bind(m, args, kw, 1)
            what = (callee[1], callee[2], tuple(
                b.get(n) for n in m.params()[1:]))
            out = [("exc", ("exc", INHIBIT, I.site(node)),
                    st.with_mon(st.mon + (what + ("stop",),)))]
            res = (False, True)
            if callee[1] == CONF:
                res = (None,)
            for r in res:
                out.append(("ok", ("const", r),
                            st.with_mon(st.mon + (what + (r,),))))
            return out
        if callee[0] in ("bm", "fn") and callee[1].name in self.own:
            return [("ok", NONE, st)]
        return None


def hooks(ctx):
    p = ctx.p
    base = p.cls("oa.plugins.base.BasePlugin")
    n = 0
    for cname, hook, args, meth, margs in HOOKS:
        cls = p.cls(cname)
        f = cls.find(hook)
        if f is None:
            raise AnalysisError("hook %s not found" % hook)
        m = base.find(meth)
        if m is None:
            raise AnalysisError("plugins have no method %s" % meth)
        self_ = ("sym", "msg" if cname == MESSAGE else "ctxt", cname)
        margs = tuple(self_ if a == MSG else a for a in margs)
        heap = {}
        plugins = mkdict(heap, {"One": P1, "Two": P2}, "plugins")
        g = self_
        if cname == MESSAGE:
            g = ("sym", "global", GLOBAL)
            heap[(self_, "attr", "ctxt")] = g
        heap[(g, "attr", "plugins")] = plugins
        heap[(g, "attr", "conf")] = CONF
        names = ["a%d" % i for i in range(len(args))]
        d = driver(p, "def driver(obj%s):\n    return obj.%s(%s)\n" % (
            "".join(", " + x for x in names), hook, ", ".join(names)))
        a = dict(zip(names, args))
        a["obj"] = self_
        own = {x.name for x in p.cls(GLOBAL).methods.values()
               if settings_only(x)}
        I, outs = run(lambda: Hook(p, base, own), p, d, args=a, heap=heap)
        ctx.saw(I)
        seen = set()
        for k, v, s in outs:
            n += 1
            evs = [e for e in s.mon if not (e[0] == CONF and hook !=
                                            "hook_parse_config")]
            key = "%s%s" % (hook, "" if len(args) < 2 or args[1] not in
                            (SPAM, HAM) else "(spam=%s)" % args[1][1])
            want = [P1, P2]
            if hook == "hook_parse_config":
                want = [CONF, P1, P2]
            stop = False
            done = []
            for w in want:
                if not evs[len(done):]:
                    break
                done.append(w)
                r = evs[len(done) - 1][3]
                if r == "stop" or r is True and meth == "parse_config":
                    stop = r
                    break
            if not stop:
                done = want
            got = [e[0] for e in evs]
            seen.add(tuple((e[0], e[3]) for e in evs))
            if k == "exc":
                ctx.bad("delivery", key, "the event ends with %s (path %s)"
                        % (v[1:2], path_str(s)))
                continue
            if not ctx.expect(got == done, "delivery", key,
                              "the event reaches %s instead of %s (path %s)"
                              % ([x[1] for x in got], [x[1] for x in done],
                                 path_str(s))):
                continue
            for e in evs:
                ctx.expect(e[1] == meth, "method", key, "the plugins get "
                           "%s() for this event" % e[1])
                ctx.expect(e[2] == margs, "arguments", key,
                           "%s gets (%s) instead of (%s)" % (
                               e[1], ", ".join(
                                   "nothing" if x is None else show(x)
                                   for x in e[2]),
                               ", ".join(map(show, margs))))
            if stop is True:
                continue
            ctx.expect(v == ("const", bool(stop)), "answer", key,
                       "the caller is told %s where the event was %s" % (
                           show(v), "stopped" if stop else "not stopped"))
        ctx.expect(((P1, False), (P2, False)) in seen or
                   ((CONF, None), (P1, False), (P2, False)) in seen,
                   "delivery", hook + ":all",
                   "the event never reaches all plugins")
    ctx.floor("paths of events", n, 30)


def settings_only(f):
    """Methods that prepare settings and know nothing of plugins."""
    import ast
    if f.name.startswith(("hook", "_hook", "__")):
        return False
    from ..util import names_in
    return any(isinstance(x, ast.Attribute) and x.attr in (
        "dns", "networks") for x in ast.walk(f.node)) and \
        "plugins" not in names_in(f)


# ------------------------------------------------------ loading and unloading
NEW = ("obj", "the new plugin", "PLUGIN")
OLD = ("obj", "the old plugin", "PLUGIN")
PCLS = sym("the plugin class")
DATA = ("sym", "plugin data", None)


class Load(BasePolicy):
    mods = ("oa.context",)
    known_exc = True

    def __init__(self, p, missing=(), subclass=True):
        BasePolicy.__init__(self, p)
        self.missing = missing
        self.subclass = subclass

    def init_mon(self):
        return ()

    def inline(self, I, fi):
        return fi.module.name == "oa.context" and \
            not fi.name.startswith("_load_module")

    def on_call(self, I, st, node, callee, args, kw):
        if callee == ("ext", "getattr") and len(args) > 1:
            if args[0] == NEW:
                if not is_const(args[1]):
                    raise AnalysisError("rule functions of a plugin are "
                                        "looked up by an unknown name (%s)"
                                        % show(args[1]))
                if args[1][1] in self.missing:
                    if len(args) > 2:
                        return [("ok", args[2], st)]
                    return [("exc", ("exc", "AttributeError",
                                     I.site(node)), st)]
                return [("ok", ("obj", args[1][1], "the new method"), st)]
            if is_const(args[1]) and args[1][1] == "XPlugin":
                return [("ok", PCLS, st)]
        if callee == PCLS:
            return [("ok", NEW, st.with_mon(st.mon + (tuple(args),)))]
        if callee == ("ext", "issubclass"):
            return [("ok", ("const", self.subclass or args[:1] != [PCLS]
                              and args[:1] != (PCLS,)), st)]
        if callee == ("ext", "callable"):
            return [("ok", ("const", True), st)]
        return None


def contents(st, d):
    """A closed dictionary as a python dictionary."""
    ks = st.heap.get((d, "dkeys"))
    if ks is None or (d, "open") in st.heap:
        return None
    out = {}
    for k in ks[1]:
        if not is_const(k):
            return None
        out[k[1]] = st.heap.get((d, "item", k))
    return out


def method(name):
    return ("obj", name, "the new method")


def loading(ctx):
    p = ctx.p
    g = p.cls(GLOBAL)
    for op in ("load_plugin", "unload_plugin"):
        if g.find(op) is None:
            raise AnalysisError("%s not found" % op)
    old = {"plugins": {"One": P1}, "eval_rules": {"r0": sym("R0")},
           "cmds": {"c0": sym("C0")}, "plugin_data": {"One": sym("D0")}}
    mine = {"plugins": {"XPlugin": OLD},
            "eval_rules": {"r1": sym("OLD1"), "r9": sym("OLD9")},
            "cmds": {"c1": sym("OLDC1"), "c9": sym("OLDC9")},
            "plugin_data": {"XPlugin": sym("DX")}}
    new = {"plugins": {"XPlugin": NEW},
           "eval_rules": {"r1": method("r1"), "r2": method("r2")},
           "cmds": {"c1": sym("NEWC1")}, "plugin_data": {}}
    name = "oa.plugins.x.XPlugin"
    by_name = "ctxt.load_plugin(%r)" % name
    by_path = "ctxt.load_plugin('XPlugin', '/etc/x.py')"
    unload = "ctxt.unload_plugin('XPlugin')"
    both = {k: dict(old[k], **mine[k]) for k in old}
    loaded = {k: dict(old[k], **new[k]) for k in old}
    cases = (
        ("load", old, by_name, loaded, None),
        ("load from a path", old, by_path, loaded, None),
        ("load, rule types None", old, by_name, dict(
            loaded, cmds=old["cmds"]), None),
        ("replace", both, by_name, loaded, None),
        ("replace from a path", both, by_path, loaded, None),
        ("unload", both, unload, old, None),
        ("unload, rule types None", dict(both, cmds=old["cmds"]), unload,
         old, None),
        ("unload, no rules", dict(both, eval_rules=old["eval_rules"]), unload,
         old, None),
        ("load, no rules", old, by_name, dict(
            loaded, eval_rules=old["eval_rules"]), None),
        ("load and unload, no rules", old, by_name + "\n    " + unload, old,
         None),
        ("load and unload", old, by_name + "\n    " + unload, old, None),
        ("load and unload, rules redefined", dict(
            old, eval_rules=dict(old["eval_rules"], r1=sym("OTHER"))),
         by_name + "\n    " + unload, old, None),
        ("load, redefining rules of others", dict(
            old, eval_rules=dict(old["eval_rules"], r1=sym("OTHER")),
            cmds=dict(old["cmds"], c1=sym("OTHERC"))), by_name, loaded, None),
        ("load twice", old, by_name + "\n    " + by_name, loaded, None),
        ("unload what is not loaded", old, unload, old, "PluginLoadError"),
        ("load what is no plugin", old, by_name, old, "PluginLoadError"),
        ("load from a path what is no plugin", old, by_path, old,
         "PluginLoadError"),
        ("load with a missing rule", old, by_name, None, "PluginLoadError"),
    )
    n = 0
    for what, before, code, after, fails in cases:
        d = driver(p, "def driver(ctxt):\n    %s\n" % code)
        self_ = ("sym", "ctxt", GLOBAL)
        heap = {}
        dicts = {}
        for k, v in before.items():
            dicts[k] = heap[(self_, "attr", k)] = mkdict(heap, v, k)
        none = "None" in what
        for o, rules, cmds in ((NEW, ("r1", "r2"), {"c1": sym("NEWC1")}),
                               (OLD, ("r1", "r9"), {"c1": sym("OLDC1"),
                                                    "c9": sym("OLDC9")})):
            if "no rules" in what:
                rules = ()
            heap[(o, "attr", "eval_rules")] = (
                "tuple", tuple(("const", r) for r in rules))
            heap[(o, "attr", "cmds")] = NONE if none else mkdict(
                heap, cmds, "cmds of " + o[1])
        missing = ("r2",) if "missing" in what else ()
        I, outs = run(lambda: Load(p, missing, "no plugin" not in what), p,
                      d, args={"ctxt": self_}, heap=heap)
        ctx.saw(I)
        done = 0
        for k, v, s in outs:
            if k == "exc":
                if fails:
                    ctx.expect(v[1].endswith(fails), "loading", what,
                               "fails with %s" % v[1])
                else:
                    # the module may not be found; nothing else may fail
                    ctx.expect(v[1].endswith("PluginLoadError") and
                               ".load_plugin" in code, "loading", what,
                               "fails with %s (path %s)" % (
                                   v[1:2], path_str(s)))
            if k == "ret" and fails:
                ctx.bad("loading", what, "does not fail")
                continue
            if k == "ret" or fails:
                done += 1
                if after is None:
                    continue
                for key in sorted(after):
                    d_ = s.heap.get((self_, "attr", key), dicts[key])
                    got = contents(s, d_)
                    n += 1
                    if got is None:
                        raise AnalysisError(
                            "%s: the contents of %s are not known" % (
                                what, key))
                    want = after[key]
                    if key == "plugin_data":
                        # data may be stored by loading, never left over
                        ctx.expect(got.get("XPlugin") != sym("DX") and
                                   got.get("One") == sym("D0"), "loading",
                                   "%s:%s" % (what, key), "the data of the "
                                   "plugins is %s" % sorted(got))
                        continue
                    ctx.expect(got == want, "loading", "%s:%s" % (
                        what, key), "afterwards %s is {%s} instead of {%s} "
                        "(path %s)" % (key, shown(got), shown(want),
                                       path_str(s)))
                if "XPlugin" in after["plugins"] and not fails:
                    path = s.heap.get((NEW, "attr", "path_to_plugin"))
                    exp = ("tuple", (("const", "XPlugin"),
                                     ("const", "/etc/x.py"))) \
                        if code == by_path else None
                    ctx.expect(path == exp or exp is None and path == NONE,
                               "loading", what + ":path",
                               "the place the plugin was loaded from is %s"
                               % (show(path) if path else "not kept"))
                    for a in s.mon:
                        ctx.expect(a[:1] == (self_,), "loading",
                                   what + ":context", "the plugin is made "
                                   "with %s" % (show(a[0]) if a else
                                                "nothing"))
        ctx.expect(done > 0, "loading", what + ":done", "never succeeds")
    ctx.floor("registries compared", n, 40)


def shown(d):
    return ", ".join("%s: %s" % (k, show(v) if v else v)
                     for k, v in sorted(d.items()))


# ------------------------------------------------- work done by default
DEFAULT = ("finish_parsing_end", "__init__")


class Super(BasePolicy):
    """Monitor: the method of the base class was called."""

    def __init__(self, p, name, base):
        BasePolicy.__init__(self, p)
        self.name = name
        self.base = base
        self.sites = 0

    def init_mon(self):
        return 0

    def inline(self, I, fi):
        return self.name == fi.name and not self.is_base(fi)

    def is_base(self, fi):
        return fi.cls is not None and fi.cls in self.base.mro()

    def on_call(self, I, st, node, callee, args, kw):
        if callee[0] in ("bm", "fn") and callee[1].name == self.name and \
                self.is_base(callee[1]):
            self.sites += 1
            return [("ok", NONE, st.with_mon(min(st.mon + 1, 2)))]
        return None


def defaults(ctx):
    """Plugins that handle an event keep what is done for every plugin."""
    p = ctx.p
    base = p.cls("oa.plugins.base.BasePlugin")
    n = 0
    for c in plugin_classes(p):
        for name in DEFAULT:
            f = c.methods.get(name)
            if f is None:
                continue
            ps = f.params()
            args = {ps[0]: ("sym", "self", c.qual)}
            I, outs = run(lambda: Super(p, name, base), p, f, args=args,
                          self_cls=c)
            ctx.saw(I)
            k = 0
            for kind, v, s in outs:
                if kind == "exc":
                    continue
                k += 1
                n += 1
                ctx.expect(s.mon == 1, "default-work", f.qual,
                           "what every plugin does for this event is done "
                           "%s (path %s)" % (
                               "not at all" if not s.mon else
                               "more than once", path_str(s)))
            ctx.expect(k > 0, "default-work", f.qual + ":ends",
                       "never succeeds")
    ctx.floor("events handled by plugins", n, 5)


def plugin_classes(p):
    base = p.cls("oa.plugins.base.BasePlugin")
    return [c for c in p.classes.values() if c is not base and
            base in c.mro()]


# ------------------------------------------------------ when events happen
PART1 = ("obj", "the text part", "PART")
PART2 = ("obj", "the image part", "PART")
TEXT = ("obj", "the text", "str")


class When(BasePolicy):
    """Monitor: the events of a message in order, with what was stored."""
    mods = ("oa.message", "oa.context")

    def __init__(self, p, names):
        BasePolicy.__init__(self, p)
        self.names = names

    def init_mon(self):
        return ()

    def inline(self, I, fi):
        return fi.module.name in self.mods and fi.qual in self.names and \
            not fi.name.startswith("_hook")

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        if nm and nm.startswith("_hook_"):
            f = self.project.cls(MESSAGE).find(nm)
            if f is None:
                return None
            b = bind(f, args, kw, 1)
            return [("ok", ("const", False), st.with_mon(st.mon + (
                (nm,) + tuple(b.get(x) for x in f.params()[1:]),)))]
        if nm == "walk":
            heap = {}
            o = mklist(heap, [PART1, PART2], "parts")
            for k, v in heap.items():
                st = st.store(k, v)
            return [("ok", o, st)]
        if nm in ("get_content_maintype", "get_content_type",
                  "is_multipart") and callee[0] in ("meth", "attr"):
            text = callee[1] == PART1
            v = {"get_content_maintype": "text" if text else "image",
                 "get_content_type": "text/plain" if text else "image/png",
                 "is_multipart": False}[nm]
            return [("ok", ("const", v), st)]
        if nm == "decode":
            return [("ok", TEXT, st)]
        return None

    def on_attr_store(self, I, st, node, base, name, value):
        if st.mon and st.mon[-1][0] != "stored" and base[0] == "sym" and \
                base[1] == "self":
            return st.with_mon(st.mon + (("stored", name),))


class Build(BasePolicy):
    """Monitor: the events of making the rule set, in order."""
    mods = ("oa.rules.parser",)

    def __init__(self, p, names):
        BasePolicy.__init__(self, p)
        self.names = names

    def init_mon(self):
        return ()

    def inline(self, I, fi):
        return fi.module.name in self.mods and fi.qual in self.names or \
            fi.is_cm

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        if nm in ("hook_parsing_start", "hook_parsing_end", "add_rule",
                  "post_parsing"):
            ev = (nm,) + (tuple(args) if nm.startswith("hook") else ())
            if nm == "add_rule" and ev in st.mon:
                return [("ok", NONE, st)]
            if len(st.mon) > 6:
                return [("ok", NONE, st)]
            return [("ok", NONE, st.with_mon(st.mon + (ev,)))]
        return None


def moments(ctx):
    p = ctx.p
    c = p.cls("oa.message.Message")
    f = c.find("__init__")
    names = reach_names(p, {"_hook_check_start", "_hook_extract_metadata",
                            "_hook_parsed_metadata", "walk"})
    ps = f.params()
    I, outs = run(lambda: When(p, names), p, f, args={
        ps[0]: ("sym", "self", c.qual)}, self_cls=c)
    ctx.saw(I)
    done = 0
    for k, v, s in outs:
        if k == "exc":
            continue
        done += 1
        evs = [e for e in s.mon if e[0] != "stored"]
        got = [e[0] for e in evs]
        want = ["_hook_check_start", "_hook_extract_metadata",
                "_hook_extract_metadata", "_hook_parsed_metadata"]
        if not ctx.expect(got == want, "moment", f.qual,
                          "a message of two parts gives the events %s "
                          "(path %s)" % (", ".join(got) or "none",
                                         path_str(s))):
            continue
        for e, part in ((evs[1], PART1), (evs[2], PART2)):
            text = part == PART1
            ctx.expect(e[3] == part and (
                e[1] != NONE and e[2] != NONE if text else
                e[1] == NONE and e[2] == NONE), "moment",
                f.qual + ":" + part[1], "the plugins get (%s) for %s" % (
                    ", ".join(show(x) if x else "nothing" for x in e[1:]),
                    part[1]))
        ctx.expect(s.mon[-1][0] != "stored", "moment", f.qual + ":last",
                   "%s changes after the plugins were told that everything "
                   "is known" % (s.mon[-1][1:],))
    ctx.expect(done > 0, "moment", f.qual + ":ends", "never succeeds")
    c = p.cls("oa.rules.parser.PADParser")
    f = c.find("get_ruleset")
    names = reach_names(p, {"hook_parsing_start", "hook_parsing_end",
                            "add_rule", "post_parsing"})
    self_ = ("sym", "self", c.qual)
    RES = sym("RESULTS")
    heap = {(self_, "attr", "results"): RES,
            (self_, "attr", "ruleset"): RULESET}
    I, outs = run(lambda: Build(p, names), p, f,
                  args={f.params()[0]: self_}, self_cls=c, heap=heap)
    ctx.saw(I)
    done = 0
    for k, v, s in outs:
        if k == "exc":
            continue
        done += 1
        got = [e for e in s.mon if e[0] != "add_rule"]
        want = [("hook_parsing_start", RES), ("hook_parsing_end", RULESET),
                ("post_parsing",)]
        ctx.expect(got == want, "moment", f.qual, "the events are %s "
                   "(path %s)" % ("; ".join(
                       "%s(%s)" % (e[0], ", ".join(map(show, e[1:])))
                       for e in got), path_str(s)))
        kinds = [e[0] for e in s.mon]
        if "add_rule" in kinds:
            i = kinds.index("add_rule")
            ctx.expect(kinds[:i] == ["hook_parsing_start"] and
                       "add_rule" not in kinds[i + 1:], "moment",
                       f.qual + ":rules", "rules are added outside of the "
                       "start and end of the preparation: %s" % (
                           ", ".join(kinds)))
    ctx.expect(done > 0, "moment", f.qual + ":ends", "never succeeds")


@check("P28", "plugins get every event")
def p28(ctx):
    hooks(ctx)
    loading(ctx)
    defaults(ctx)
    moments(ctx)
