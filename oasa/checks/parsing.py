"""P06, P07: what a bad configuration line or a recursive one costs."""
import ast

from ..absint import (NONE, TRUE, contains, is_const, show, show_cond,
                      subterms)
from ..core import check
from ..model import AnalysisError
from ..util import BasePolicy, driver, mkdict, path_str, run
from .rules_ import RS, rule_classes, rule_heap

E = "oa.errors."
PARSER = ("sym", "parser", "oa.rules.parser.PADParser")
CTXT = ("sym", "ctxt", "oa.context.GlobalContext")


def paranoid_of(s):
    """Truth of the paranoid switch assumed on this path (None: not asked)."""
    for c, p in s.facts.items():
        if c[0] == "truthy" and c[1][0] == "attr" and c[1][2] == "paranoid":
            return p
    return None


class Containment(BasePolicy):
    """Monitor: (errors raised since the last report, anything reported,
    loop state)."""
    known_exc = True
    mods = ("oa.rules.parser",)
    small = 120
    stubs = {}        # attribute/function name -> (results, exceptions)

    def init_mon(self):
        return ("clean",)

    def relevant(self):
        return ()

    def callee_name(self, callee):
        if callee[0] in ("fn", "bm"):
            return callee[1].name
        if callee[0] in ("meth", "attr"):
            return callee[2]
        return None

    def on_call(self, I, st, node, callee, args, kw):
        nm = self.callee_name(callee)
        if nm in self.stubs:
            base = callee[2] if callee[0] == "bm" else callee[1]
            vals, excs = self.stubs[nm]
            st2 = self.stub_event(I, st, nm, base, args, kw) or st
            out = [("ok", v, st2) for v in vals]
            for e in excs:
                out.append(("exc", ("exc", e, I.site(node)),
                            st2.with_mon(("raised", e))))
            return out
        if nm in ("err", "warn", "warning", "error", "critical",
                  "exception") and callee[0] in ("bm", "meth", "attr") or \
                callee == ("ext", "warnings.warn"):
            if st.mon[0] in ("raised",):
                st = st.with_mon(("reported",) + st.mon[1:])
            elif st.mon[0] == "clean":
                st = st.with_mon(("said",))
            return [("ok", NONE, st)]
        return None

    def stub_event(self, I, st, name, base, args, kw):
        return None

    def on_raise(self, I, st, node, exc):
        nm = exc[1] if exc[0] == "exc" else None
        if exc[0] == "obj":
            nm = exc[2]
        if exc[0] == "excval":
            return None
        if nm and str(nm).startswith(E) and st.mon[0] in ("clean", "said"):
            return st.with_mon(("raised", nm))
        return None


class LoopMon(Containment):
    """Also: errors are contained within one iteration of the outer loop."""

    def on_iter(self, I, st, node, it, elem):
        if len(I.frames) == 1:
            return st.with_mon(("clean",))

    def on_iter_end(self, I, st, node, kind):
        if len(I.frames) > 1:
            return None
        if st.mon[0] == "raised":
            self.problems.append(("unreported", node, st))
        if kind in ("brk", "ret"):
            if st.mon[0] in ("raised", "reported"):
                self.problems.append((kind, node, st))
        return st.with_mon(("clean",))

    def __init__(self, project):
        Containment.__init__(self, project)
        self.problems = []


def judge(ctx, rule, what, pol, outs, allowed, escape_ok):
    """allowed: exceptions that may always escape; escape_ok: those that may
    (and must) escape in paranoid mode only."""
    good = True
    for kind, node, st in getattr(pol, "problems", ()):
        if kind == "unreported":
            good = ctx.bad(rule, what + ":unreported", "%s is swallowed "
                           "without being reported (path %s)" % (
                               st.mon[1:], path_str(st)))
        elif kind == "lost":
            good = ctx.bad(rule, what + ":lost", "a rule is neither loaded "
                           "nor reported (path %s)" % path_str(st))
        else:
            good = ctx.bad(rule, what + ":" + kind, "after %s the remaining "
                           "ones are not handled (path %s)" % (
                               st.mon[1:], path_str(st)))
    escaped = set()
    for k, v, s in outs:
        if k == "exc":
            nm = v[1] if v[0] == "exc" else v[2]
            mro = ctx.p.exc_mro(nm)
            if any(a in mro for a in allowed):
                continue
            par = paranoid_of(s)
            if any(a in mro for a in escape_ok):
                if par is True:
                    escaped.add(nm)
                    continue
                good = ctx.bad(rule, what + ":escapes:" + nm, "%s escapes %s "
                               "although paranoid mode is off (path %s)" % (
                                   nm, what, path_str(s)))
            else:
                good = ctx.bad(rule, what + ":escapes:" + nm,
                               "%s (raised at %s) escapes %s and stops "
                               "everything after it" % (
                                   nm, v[2] if len(v) > 2 else "?", what))
        elif s.mon[0] == "raised":
            good = ctx.bad(rule, what + ":unreported", "%s is swallowed "
                           "without being reported (path %s)" % (
                               s.mon[1:], path_str(s)))
        elif paranoid_of(s) is True and s.mon[0] == "reported" and \
                len(s.mon) > 1 and any(
                    a in ctx.p.exc_mro(s.mon[1]) for a in escape_ok):
            good = ctx.bad(rule, what + ":swallowed", "%s is swallowed in "
                           "paranoid mode" % s.mon[1])
    if good is True:
        ctx.ok(rule, what)
    return escaped


def client(ctx, src, mkpol, args, heap=None, mods=None):
    fi = driver(ctx.p, src)
    hold = {}

    def mk():
        hold["p"] = mkpol()
        if mods is not None:
            hold["p"].mods = mods
        return hold["p"]
    I, outs = run(mk, ctx.p, fi, args=args, heap=dict(heap or {}))
    ctx.saw(I)
    return hold["p"], I, outs


class ParseFile(LoopMon):
    stubs = {
        "hook_parse_config": ((("res", "understood"),), (E + "PluginError",)),
        "load_plugin": ((NONE,), (E + "PluginLoadError",)),
        "parse_file": ((NONE,), (E + "MaxRecursionDepthExceeded",)),
        "sub": ((("sym", "TEXT", None),), ()),
        "splitlines": ((("sym", "LINES", None),), ()),
    }

    def on_call(self, I, st, node, callee, args, kw):
        nm = self.callee_name(callee)
        if nm == "parse_file" and len(I.frames) <= 1:
            return None
        if nm == "sub" and callee[0] == "bm" and \
                callee[1].module.name != "oa.regex":
            return None
        return Containment.on_call(self, I, st, node, callee, args, kw)


PARSE_FILE = '''
def driver(parser, filename):
    parser.parse_file(filename)
'''


def parse_file_paths(ctx):
    """Analyses the parsing of one file; nested files are events."""
    fi = ctx.p.func("oa.rules.parser.PADParser.parse_file")
    hold = {}

    class P(ParseFile):
        def on_call(self, I, st, node, callee, args, kw):
            if self.callee_name(callee) == "parse_file":
                base = callee[2] if callee[0] == "bm" else callee[1]
                self.nested.append((list(args), dict(kw), st))
            return Containment.on_call(self, I, st, node, callee, args, kw)

    def mk():
        hold["p"] = P(ctx.p)
        hold["p"].nested = []
        return hold["p"]
    ps = fi.params()
    I, outs = run(mk, ctx.p, fi, args={
        ps[0]: PARSER, ps[1]: ("sym", "filename", None)})
    ctx.saw(I)
    return fi, hold["p"], I, outs


@check("P06", "bad configuration lines are contained")
def p06(ctx):
    p = ctx.p
    # lines of a file
    fi, pol, I, outs = parse_file_paths(ctx)
    esc = judge(ctx, "line", "parse_file", pol, outs,
                {E + "MaxRecursionDepthExceeded", "OSError"},
                {E + "InvalidSyntax", E + "PluginError"})
    for e in ("InvalidSyntax", "PluginError"):
        ctx.expect(E + e in esc, "line-paranoid", e, "in paranoid mode %s is "
                   "not raised to the caller of parse_file" % e)
    unknown = [s for k, v, s in outs if k == "ret"]
    ctx.floor("parse_file outcomes", len(outs), 3)
    unknown_lines(ctx)
    rules_loaded(ctx)
    construction(ctx)
    postparsing(ctx)
    setters(ctx)
    plugins(ctx)
    post_parsing(ctx)


def unknown_lines(ctx):
    """A line nobody understands is reported."""
    class P(ParseFile):
        stubs = dict(ParseFile.stubs)
        stubs["hook_parse_config"] = ((("const", False),), ())

        def init_mon(self):
            return ("clean", 0)

        def on_iter(self, I, st, node, it, elem):
            if len(I.frames) == 1:
                return st.with_mon(("clean",))

        def stub_event(self, I, st, nm, base, args, kw):
            if nm == "hook_parse_config":
                return st.with_mon(("unknown",))

        def on_call(self, I, st, node, callee, args, kw):
            r = ParseFile.on_call(self, I, st, node, callee, args, kw)
            if st.mon[0] == "unknown" and r and self.callee_name(callee) in (
                    "err", "warn", "warning", "error"):
                return [(k, v, s.with_mon(("reported",))) for k, v, s in r]
            return r

        def on_iter_end(self, I, st, node, kind):
            if len(I.frames) == 1:
                self.ends.append(st.mon[0])
    fi = ctx.p.func("oa.rules.parser.PADParser.parse_file")
    hold = {}

    def mk():
        hold["p"] = P(ctx.p)
        hold["p"].ends = []
        return hold["p"]
    ps = fi.params()
    I, outs = run(mk, ctx.p, fi, args={ps[0]: PARSER,
                                       ps[1]: ("sym", "filename", None)})
    ends = hold["p"].ends
    ctx.expect("unknown" not in ends, "unknown-line", "parse_file",
               "a line that is not understood is skipped silently")
    ctx.floor("unknown lines reported", ends.count("reported"), 1)


def rules_loaded(ctx):
    RULE = ("sym", "RULE", "oa.rules.base.BaseRule")

    class P(LoopMon):
        stubs = {
            "get_rule": ((RULE,), (E + "InvalidRule", E + "InvalidRegex")),
            "add_rule": ((NONE,), (E + "InvalidRule",)),
            "hook_parsing_start": ((NONE,), ()),
            "hook_parsing_end": ((NONE,), ()),
            "post_parsing": ((NONE,), ()),
        }

        def item_exc(self, I, st, base, key):
            if key == ("const", "type"):
                return "KeyError"

        def on_call(self, I, st, node, callee, args, kw):
            nm = self.callee_name(callee)
            r = LoopMon.on_call(self, I, st, node, callee, args, kw)
            if nm == "add_rule" and args and args[-1] != RULE:
                self.wrong.append(args[-1])
            if r and nm in ("add_rule",):
                self.added += 1
            return r

        def stub_event(self, I, st, nm, base, args, kw):
            if nm == "add_rule":
                return st.with_mon(("added",))

        def on_iter_end(self, I, st, node, kind):
            if len(I.frames) == 1 and st.mon[0] == "clean":
                self.problems.append(("lost", node, st))
            return LoopMon.on_iter_end(self, I, st, node, kind)
    fi = ctx.p.func("oa.rules.parser.PADParser.get_ruleset")
    hold = {}

    def mk():
        hold["p"] = P(ctx.p)
        hold["p"].wrong, hold["p"].added = [], 0
        return hold["p"]
    I, outs = run(mk, ctx.p, fi, args={fi.params()[0]: PARSER})
    ctx.saw(I)
    pol = hold["p"]
    esc = judge(ctx, "rule", "get_ruleset", pol, outs, (),
                {E + "InvalidRule", E + "InvalidRegex"})
    for e in ("InvalidRule", "InvalidRegex"):
        ctx.expect(E + e in esc, "rule-paranoid", e, "in paranoid mode %s is "
                   "not raised to the caller of get_ruleset" % e)
    ctx.floor("rules added", pol.added, 1)
    ctx.expect(not pol.wrong, "rule", "add_rule", "something else than the "
               "loaded rule is added")
    # a rule that cannot be prepared is not in the rule set
    class A(BasePolicy):
        known_exc = True

        def init_mon(self):
            return (False,)

        def on_call(self, I, st, node, callee, args, kw):
            nm = callee[1].name if callee[0] in ("fn", "bm") else (
                callee[2] if callee[0] == "meth" else None)
            if nm == "preprocess":
                return [("ok", NONE, st),
                        ("exc", ("exc", E + "InvalidRule", I.site(node)),
                         st)]
            if nm in ("postprocess",):
                return [("ok", NONE, st)]
            if nm == "should_check":
                return [("ok", ("res", "should_check"), st)]

        def on_item_store(self, I, st, node, base, key, value):
            if base[0] == "attr" and base[2] in ("checked", "not_checked"):
                return st.with_mon((True,))

        def on_mutate(self, I, st, node, base, meth, args):
            if base[0] == "attr" and base[2] in ("checked", "not_checked"):
                return st.with_mon((True,))
    fi = ctx.p.func("oa.rules.ruleset.RuleSet.add_rule")
    I, outs = run(lambda: A(ctx.p), ctx.p, fi, args={
        fi.params()[0]: RS, fi.params()[1]: RULE})
    ctx.saw(I)
    seen = 0
    for k, v, s in outs:
        if k == "exc":
            seen += 1
            ctx.expect(not s.mon[0], "left-out", "add_rule", "a rule that "
                       "cannot be prepared stays in the rule set")
        else:
            ctx.expect(s.mon[0], "left-out", "add_rule:kept", "a prepared "
                       "rule is not added to the rule set")
    ctx.expect(seen, "left-out", "add_rule:reported", "a rule that cannot be "
               "prepared is not reported to the caller")


LOAD = '''
def driver(cls, name, data):
    return cls.get_rule(name, data)
'''
PREP = '''
def driver(rule, ruleset):
    rule.preprocess(ruleset)
    rule.postprocess(ruleset)
'''


class Construct(BasePolicy):
    known_exc = True
    mods = ("oa.rules", "oa.plugins", "oa.regex")

    def item_exc(self, I, st, base, key):
        if base[0] == "attr" and base[2] in ("eval_rules", "cmds", "checked",
                                             "not_checked"):
            return "KeyError"

    def on_call(self, I, st, node, callee, args, kw):
        # only what the configuration provides can fail
        if callee[0] == "ext" and callee[1] in ("int", "float") and args and \
                contains(args[0], lambda x: x[0] == "mcall" and
                         x[2] in ("groups", "group", "groupdict")):
            return [("ok", ("pcall", callee[1], tuple(args)), st)]
        return None


def construction(ctx):
    ok = (E + "InvalidRule", E + "InvalidRegex")
    n = 0
    for c in rule_classes(ctx):
        heap, d = rule_heap({
            "score": ("sym", "SCORE", None), "describe": ("sym", "D", None),
            "priority": ("sym", "PRIO", None),
            "tflags": ("sym", "FLAGS", None),
            "target": ("sym", "TARGET", None)})
        pol, I, outs = client(ctx, LOAD, lambda: Construct(ctx.p), {
            "cls": ("cls", c), "name": ("sym", "NAME", None), "data": d},
            heap)
        for k, v, s in outs:
            n += 1
            if k == "exc":
                nm = v[1] if v[0] == "exc" else v[2]
                mro = ctx.p.exc_mro(nm)
                ctx.expect(any(a in mro for a in ok), "construct",
                           "%s:%s" % (c.qual, nm), "creating a %s from its "
                           "configuration can fail with %s (%s), which stops "
                           "the loading of all rules" % (
                               c.name, nm, v[2] if len(v) > 2 else ""))
            else:
                ctx.ok("construct", c.qual)
        pol, I, outs = client(ctx, PREP, lambda: Construct(ctx.p), {
            "rule": ("sym", "rule", c.qual), "ruleset": RS})
        for k, v, s in outs:
            if k == "exc":
                nm = v[1] if v[0] == "exc" else v[2]
                ctx.expect(E + "InvalidRule" in ctx.p.exc_mro(nm), "prepare",
                           "%s:%s" % (c.qual, nm), "preparing a %s can fail "
                           "with %s, which stops the loading of all rules" %
                           (c.name, nm))
            else:
                ctx.ok("prepare", c.qual)
        # after parsing
        f = c.find("postparsing")
        if f is not None:
            class PP(Construct):
                def on_call(self, I, st, node, callee, args, kw):
                    nm = callee[1].name if callee[0] in ("fn", "bm") else (
                        callee[2] if callee[0] == "meth" else None)
                    if nm == "postparsing" and len(I.frames) > 1 and \
                            callee[0] != "fn" and not (
                                callee[0] == "bm" and callee[2] ==
                                I.frames[0].self_term):
                        return [("ok", NONE, st), (
                            "exc", ("exc", E + "InvalidRule", I.site(node)),
                            st)]
                    return Construct.on_call(self, I, st, node, callee, args,
                                             kw)
            I, outs = run(lambda: PP(ctx.p), ctx.p, f, args={
                f.params()[0]: ("sym", "rule", c.qual), f.params()[1]: RS})
            ctx.saw(I)
            for k, v, s in outs:
                if k == "exc":
                    nm = v[1] if v[0] == "exc" else v[2]
                    ctx.expect(E + "InvalidRule" in ctx.p.exc_mro(nm),
                               "finish", "%s:%s" % (c.qual, nm), "finishing "
                               "a %s can fail with %s, which stops the "
                               "loading of all rules" % (c.name, nm))
                else:
                    ctx.ok("finish", c.qual)
    ctx.floor("rule construction paths", n, 16)


def postparsing(ctx):
    """Rules that turn out unusable at the end are removed."""
    class P(LoopMon):
        stubs = {"postparsing": ((NONE,), (E + "InvalidRule",))}

        def init_mon(self):
            return ("clean",)

        def on_del(self, I, st, node, base, key):
            if st.mon[0] in ("raised", "reported"):
                return st.with_mon(st.mon[:2] + ("removed", base, key))

        def on_mutate(self, I, st, node, base, meth, args):
            if meth == "pop" and st.mon[0] in ("raised", "reported"):
                return st.with_mon(st.mon[:2] + ("removed", base, args[0]))

        def stub_event(self, I, st, nm, base, args, kw):
            return st.with_mon(("at", base))

        def on_iter(self, I, st, node, it, elem):
            return st.with_mon(("clean",))

        def on_iter_end(self, I, st, node, kind):
            if st.mon[0] == "raised":
                self.problems.append(("unreported", node, st))
            elif st.mon[0] == "reported":
                if len(st.mon) < 3:
                    self.kept.append(st)
                else:
                    self.removed.append((st.mon[3], st.mon[4]))
            if kind in ("brk", "ret") and st.mon[0] in ("raised",
                                                          "reported"):
                self.problems.append((kind, node, st))
            return st.with_mon(("clean",))
    fi = ctx.p.func("oa.rules.ruleset.RuleSet.call_postparsing")
    hold = {}

    def mk():
        hold["p"] = P(ctx.p)
        hold["p"].kept, hold["p"].removed = [], []
        return hold["p"]
    I, outs = run(mk, ctx.p, fi, args={fi.params()[0]: RS})
    ctx.saw(I)
    pol = hold["p"]
    esc = judge(ctx, "finish-all", "call_postparsing", pol, outs, (),
                {E + "InvalidRule"})
    ctx.expect(E + "InvalidRule" in esc, "finish-paranoid", "InvalidRule",
               "in paranoid mode a rule that turns out invalid is not raised")
    ctx.expect(not pol.kept, "left-out", "call_postparsing", "a rule that "
               "turns out unusable stays in the rule set (path %s)" % (
                   path_str(pol.kept[0]) if pol.kept else ""))
    ctx.expect(pol.removed, "left-out", "call_postparsing:removed", "no rule "
               "that turns out unusable is removed")
    its = set()
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Attribute) and n.attr in ("checked",
                                                       "not_checked"):
            its.add(n.attr)
    ctx.expect(its == {"checked", "not_checked"}, "finish-all",
               "call_postparsing:all", "postparsing is not called for the %s "
               "rules" % " and ".join(sorted({"checked", "not_checked"} -
                                             its)))


def setters(ctx):
    """An option value that is not understood is a PluginError."""
    base = ctx.p.cls("oa.conf.Conf")
    n = 0
    for c in [base] + sorted(base.all_subs(), key=lambda c: c.qual):
        for name, f in sorted(c.methods.items()):
            if not (name.startswith("set_") and name.endswith("_option")):
                continue
            n += 1
            ps = f.params()

            class P(BasePolicy):
                known_exc = True
                mods = ("oa.conf", c.module.name)

                def item_exc(self, I, st, b, key):
                    # setters are only used for declared options
                    if b[0] in ("clsattr", "attr") and b[2] == "options":
                        return False
            I, outs = run(lambda: P(ctx.p), ctx.p, f, args={
                ps[0]: ("sym", "self", c.qual), ps[1]: ("sym", "KEY", None),
                ps[2]: ("sym", "VALUE", None)})
            ctx.saw(I)
            for k, v, s in outs:
                if k == "exc":
                    nm = v[1] if v[0] == "exc" else v[2]
                    ctx.expect(E + "PluginError" in ctx.p.exc_mro(nm),
                               "option", "%s:%s" % (f.qual, nm),
                               "%s fails with %s for some values instead of "
                               "reporting an invalid value" % (f.qual, nm))
                else:
                    ctx.ok("option", f.qual)
        for name in ("parse_config",):
            f = c.methods.get(name)
            if f is None:
                continue

            class P(BasePolicy):
                known_exc = True
                mods = ("oa.conf", c.module.name)

                def on_call(self, I, st, node, callee, args, kw):
                    nm = callee[1].name if callee[0] in ("fn", "bm") else (
                        callee[2] if callee[0] == "meth" else "")
                    if nm.startswith("set_") and nm.endswith("_option"):
                        return [("ok", NONE, st)]
            ps = f.params()
            I, outs = run(lambda: P(ctx.p), ctx.p, f, args={
                ps[0]: ("sym", "self", c.qual)})
            ctx.saw(I)
            for k, v, s in outs:
                if k == "exc":
                    nm = v[1] if v[0] == "exc" else v[2]
                    mro = ctx.p.exc_mro(nm)
                    ctx.expect(E + "PluginError" in mro or
                               E + "InhibitCallbacks" in mro or
                               E + "InvalidSyntax" in mro,
                               "option", "%s:%s" % (f.qual, nm),
                               "%s can fail with %s" % (f.qual, nm))
                else:
                    ctx.ok("option", f.qual)
    ctx.floor("option setters", n, 9)


def plugins(ctx):
    class P(BasePolicy):
        known_exc = True
        mods = ("oa.context",)
    f = ctx.p.func("oa.context.GlobalContext.load_plugin")
    ps = f.params()
    I, outs = run(lambda: P(ctx.p), ctx.p, f, args={ps[0]: CTXT})
    ctx.saw(I)
    seen = 0
    for k, v, s in outs:
        if k == "exc":
            nm = v[1] if v[0] == "exc" else v[2]
            if ctx.expect(E + "PluginLoadError" in ctx.p.exc_mro(nm),
                          "plugin", "load_plugin:%s" % nm, "a plugin that "
                          "cannot be loaded raises %s (%s), which stops the "
                          "loading" % (nm, v[2] if len(v) > 2 else "")):
                seen += 1
    ctx.floor("reported plugin load failures", seen, 2)
    # getattr without a default raises AttributeError
    base = ctx.p.cls("oa.plugins.base.BasePlugin")
    for c in sorted(base.all_subs(), key=lambda c: c.qual):
        for name in ("finish_parsing_start", "finish_parsing_end"):
            f = c.methods.get(name)
            if f is None:
                continue

            class F(BasePolicy):
                known_exc = True
                mods = (c.module.name,)

                def item_exc(self, I, st, b, key):
                    # what a user wrote can be missing
                    if b[0] == "sym" and b[1] == "results":
                        return "KeyError"
                    if b[0] in ("item", "unpack", "iter") and \
                            is_const(key) and isinstance(key[1], str) and \
                            contains(b, lambda x: x == ("sym", "results",
                                                        None)):
                        return "KeyError"
                    if b[0] == "attr" and b[2] == "eval_args":
                        return "IndexError"
            ps = f.params()
            a = {ps[0]: ("sym", "self", c.qual)}
            a[ps[1]] = RS if name.endswith("end") else ("sym", "results",
                                                        None)
            I, outs = run(lambda: F(ctx.p), ctx.p, f, args=a)
            ctx.saw(I)
            for k, v, s in outs:
                nm = v[1] if k == "exc" and v[0] == "exc" else None
                if k == "exc":
                    ctx.bad("plugin-finish", "%s:%s" % (f.qual, nm), "%s "
                            "fails with %s for some configurations, which "
                            "stops the loading" % (f.qual, nm))
                else:
                    ctx.ok("plugin-finish", f.qual)


def post_parsing(ctx):
    class P(Construct):
        mods = ("oa.rules.ruleset",)

        def init_mon(self):
            return ("clean",)

        def on_call(self, I, st, node, callee, args, kw):
            nm = callee[1].name if callee[0] in ("fn", "bm") else (
                callee[2] if callee[0] == "meth" else None)
            if nm == "call_postparsing":
                return [("ok", NONE, st)]
            if nm == "err" or nm in ("info", "warn", "warning"):
                return [("ok", NONE, st.with_mon(("reported",) +
                                                 st.mon[1:]))]
            return Construct.on_call(self, I, st, node, callee, args, kw)
    f = ctx.p.func("oa.rules.ruleset.RuleSet.post_parsing")
    I, outs = run(lambda: P(ctx.p), ctx.p, f, args={f.params()[0]: RS})
    ctx.saw(I)
    esc = judge(ctx, "settings", "post_parsing", None, outs, (),
                {E + "InvalidRule"})
    ctx.expect(E + "InvalidRule" in esc, "settings-paranoid", "InvalidRule",
               "in paranoid mode an invalid header line is not raised")
    # networks and name servers
    for qual, what in (("oa.networks.NetworkList.add_trusted_network", "t"),
                       ("oa.networks.NetworkList.add_internal_network", "i"),
                       ("oa.networks.NetworkList.add_msa_network", "m"),
                       ("oa.context.GlobalContext.hook_parsing_end", "end")):
        f = ctx.p.func(qual)

        class N(Construct):
            mods = ("oa.networks", "oa.context")

            def on_call(self, I, st, node, callee, args, kw):
                nm = callee[1].name if callee[0] in ("fn", "bm") else (
                    callee[2] if callee[0] == "meth" else None)
                if nm == "finish_parsing_end":
                    return [("ok", NONE, st)]
                if callee == ("ext", "int") or callee == ("ext",
                                                          "builtins.int"):
                    if not contains(args[0], lambda x: x[0] == "attr" and
                                    x[2] == "conf"):
                        return [("ok", ("pcall", "int", tuple(args)), st)]
                return Construct.on_call(self, I, st, node, callee, args, kw)
        ps = f.params()
        I, outs = run(lambda: N(ctx.p), ctx.p, f, args={
            ps[0]: ("sym", "self", f.cls.qual)})
        ctx.saw(I)
        for k, v, s in outs:
            if k == "exc":
                nm = v[1] if v[0] == "exc" else v[2]
                ctx.bad("settings", "%s:%s" % (f.qual, nm), "%s fails with "
                        "%s (%s) for some configured values" % (
                            f.qual, nm, v[2] if len(v) > 2 else ""))
            else:
                ctx.ok("settings", f.qual)
            if k == "ret" and what in "tim":
                # nothing is added for an invalid network
                pass


def depth_arg(fi, args, kw, method=True):
    """The recursion counter passed in a nested call of fi."""
    ps = fi.params()
    i = len(ps) - 1
    off = 1 if method else 0
    if ps[i] in kw:
        return kw[ps[i]]
    if len(args) > i - off:
        return args[i - off]
    return None


class Worked(Exception):
    """Something is done at a level that is being probed."""


def counted(ctx, rule, fi, entry_args, mkpol, nested_name, exc, work,
            collect):
    """One more level adds exactly one to the counter; beyond a fixed level
    the error is raised before any work is done."""
    ps = fi.params()
    dn = ps[-1]
    D = ("sym", "DEPTH", None)
    default = fi.node.args.defaults[-1] if fi.node.args.defaults else None
    ctx.expect(isinstance(default, ast.Constant) and default.value == 0,
               rule, "%s:start" % fi.qual, "the nesting level does not start "
               "at zero")
    pol, I, outs = collect(dict(entry_args, **{dn: D}))
    ctx.saw(I)
    ctx.floor("nested %s calls" % nested_name, len(pol.nested), 1)
    for args, kw, st in pol.nested:
        d = depth_arg(fi, args, kw)
        good = d is not None and d in (("bin", "Add", D, ("const", 1)),
                                       ("bin", "Add", ("const", 1), D))
        ctx.expect(good, rule, "%s:plus-one" % fi.qual, "a nested level is "
                   "counted as %s instead of one more than the current level"
                   % (show(d) if d else "the first one"))
    # errors of the nested level reach the caller
    for k, v, s in outs:
        if s.mon[0] in ("raised", "reported") and len(s.mon) > 1 and \
                s.mon[1] == exc and s.mon[-1] == "nested":
            ctx.expect(k == "exc" and exc in ctx.p.exc_mro(
                v[1] if v[0] == "exc" else v[2]), rule,
                "%s:propagates" % fi.qual, "the error raised by a nested "
                "level is lost (path %s)" % path_str(s))
    # the limit
    def refused(k):
        try:
            pol, I, outs = collect(dict(entry_args, **{dn: ("const", k)}),
                                   probe=True)
        except Worked:
            return False
        return bool(outs) and all(
            kk == "exc" and exc in ctx.p.exc_mro(v[1] if v[0] == "exc"
                                                 else v[2])
            for kk, v, s in outs)
    limit = None
    for k in range(0, 101):
        if refused(k):
            limit = k
            break
    if limit == 0:
        ctx.bad(rule, "%s:limit" % fi.qual, "nothing can be processed")
        return
    if limit is None:
        ctx.bad(rule, "%s:limit" % fi.qual, "no level up to 100 is refused "
                "with %s before any work is done" % exc)
        return
    for k in (limit + 1, 10 ** 6):
        ctx.expect(refused(k), rule, "%s:beyond" % fi.qual,
            "level %d is processed although level %d is refused" % (k, limit))
    ctx.note("limit %s" % fi.qual, limit)


@check("P07", "recursion is counted and cut off")
def p07(ctx):
    fi = ctx.p.func("oa.rules.parser.PADParser.parse_file")
    MAXE = E + "MaxRecursionDepthExceeded"

    class Inc(ParseFile):
        def __init__(self, project):
            ParseFile.__init__(self, project)
            self.nested, self.worked, self.probe = [], False, False

        def work(self):
            self.worked = True
            if self.probe:
                raise Worked()

        def on_iter(self, I, st, node, it, elem):
            self.work()
            if len(I.frames) == 1:
                return st.with_mon(("clean",))

        def on_with(self, I, st, node, c, enter):
            if len(I.frames) == 1:
                self.work()

        def on_call(self, I, st, node, callee, args, kw):
            if self.callee_name(callee) == "parse_file":
                self.nested.append((list(args), dict(kw), st))
                return [("ok", NONE, st),
                        ("exc", ("exc", MAXE, I.site(node)),
                         st.with_mon(("raised", MAXE, "nested")))]
            if callee in (("ext", "open"), ("ext", "builtins.open"),
                          ("ext", "io.open")):
                self.work()
            return ParseFile.on_call(self, I, st, node, callee, args, kw)

        def on_raise(self, I, st, node, exc):
            if st.mon[-1] == "nested":
                return None
            return ParseFile.on_raise(self, I, st, node, exc)

        def on_iter_end(self, I, st, node, kind):
            if len(I.frames) == 1 and st.mon[-1] == "nested":
                self.problems.append(("lost", node, st))
            return ParseFile.on_iter_end(self, I, st, node, kind)

    def collect(args, probe=False):
        hold = {}

        def mk():
            hold["p"] = Inc(ctx.p)
            hold["p"].probe = probe
            return hold["p"]
        I, outs = run(mk, ctx.p, fi, args=args)
        if any(w == "lost" for w, n, s in hold["p"].problems):
            ctx.bad("include", "swallowed", "the error raised by a nested "
                    "file is swallowed")
        return hold["p"], I, outs
    ps = fi.params()
    counted(ctx, "include", fi, {ps[0]: PARSER,
                                 ps[1]: ("sym", "filename", None)},
            Inc, "parse_file", MAXE, None, collect)
    meta(ctx)


def dict_attrs(p, cls):
    """Attributes the constructors of a class set to an empty dictionary."""
    out = set()
    for c in cls.mro():
        f = c.methods.get("__init__")
        if f is None:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(
                    n.value, (ast.Dict, ast.Call)):
                if isinstance(n.value, ast.Call) and not (
                        isinstance(n.value.func, ast.Name) and
                        n.value.func.id == "dict" and not n.value.args):
                    continue
                for t in n.targets:
                    if isinstance(t, ast.Attribute):
                        out.add(t.attr)
    return out


def meta(ctx):
    base = ctx.p.cls("oa.rules.base.BaseRule")
    EXC = E + "InvalidRule"
    recursive = []
    for c in [base] + sorted(base.all_subs(), key=lambda c: c.qual):
        f = c.methods.get("postparsing")
        if f is None:
            continue
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
               and n.func.attr == "postparsing" and not (
                   isinstance(n.func.value, ast.Call))
               for n in ast.walk(f.node)) or len(f.params()) > 2 and \
                c is not base:
            recursive.append((c, f))
    ctx.floor("rules that refer to other rules", len(recursive), 1)
    for c, f in recursive:
        SELF = ("sym", "rule", c.qual)

        class M(Containment):
            mods = ("oa.rules",)
            small = 400

            def __init__(self, project):
                Containment.__init__(self, project)
                self.nested, self.worked, self.probe = [], False, False

            def work(self):
                self.worked = True
                if self.probe:
                    raise Worked()

            def on_iter_end(self, I, st, node, kind):
                if st.mon[-1] == "nested":
                    self.lost = True

            lost = False

            def item_exc(self, I, st, b, key):
                if b[0] == "attr" and b[2] in ("checked", "not_checked"):
                    return "KeyError"

            def on_call(self, I, st, node, callee, args, kw):
                nm = self.callee_name(callee)
                if nm == "postparsing" and not (
                        callee[0] in ("fn",) or callee[0] == "bm" and
                        callee[2] == SELF):
                    self.nested.append((list(args), dict(kw), st))
                    self.work()
                    return [("ok", NONE, st),
                            ("exc", ("exc", EXC, I.site(node)),
                             st.with_mon(("raised", EXC, "nested")))]
                if nm == "get_rule":
                    self.work()
                if callee in (("ext", "exec"), ("ext", "builtins.exec")):
                    self.work()
                return Containment.on_call(self, I, st, node, callee, args,
                                           kw)

            def on_raise(self, I, st, node, exc):
                return None

        def collect(args, probe=False, **kw):
            hold = {}

            def mk():
                hold["p"] = M(ctx.p)
                hold["p"].probe = probe
                return hold["p"]
            I, outs = run(mk, ctx.p, f, args=args, **kw)
            return hold["p"], I, outs
        ps = f.params()
        counted(ctx, "meta", f, {ps[0]: SELF, ps[1]: RS}, M, "postparsing",
                EXC, None, collect)
        # an interrupted rule is not taken for a finished one
        heap = {}
        for a in sorted(dict_attrs(ctx.p, c)):
            heap[(SELF, "attr", a)] = mkdict(heap, {})
        pol, I, outs = collect({ps[0]: SELF, ps[1]: RS,
                                ps[-1]: ("const", 0)}, heap=heap)
        ctx.expect(not pol.lost, "meta", "%s:swallowed" % f.qual, "the error "
                   "raised for a nested rule is swallowed")
        n = 0
        for k, v, s in outs:
            if k != "exc" or s.mon[-1] != "nested":
                continue
            n += 1
            pol2, I2, outs2 = collect(
                {ps[0]: SELF, ps[1]: RS, ps[-1]: ("const", 0)},
                heap=dict(s.heap), facts={
                    c2: p2 for c2, p2 in s.facts.items()})
            early = [1 for k2, v2, s2 in outs2 if k2 == "ret" and
                     not pol2.worked]
            ctx.expect(not early, "meta", "%s:interrupted" % f.qual,
                       "a rule whose subrules could not be finished is "
                       "later taken for a finished one")
        ctx.floor("interrupted meta rules", n, 1)
        # every way to finish visits every subrule
        for k, v, s in outs:
            if k == "ret":
                ctx.ok("meta", "%s:finished" % f.qual)
        calls = pol.nested
        names = set()
        for args, kw, st in calls:
            names |= set(kw)
            want = len(args) + len(kw)
        for c2 in [base] + list(base.all_subs()):
            g = c2.methods.get("postparsing")
            if g is None:
                continue
            gp = g.params()
            a = g.node.args
            ctx.expect(a.vararg is not None and a.kwarg is not None or (
                len(gp) - 1 >= want and (names <= set(gp) or
                                         a.kwarg is not None)),
                       "meta", "%s:accepts" % g.qual, "%s does not accept "
                       "the nesting level it is called with" % g.qual)
    # what is refused is not evaluated: it is removed or raised (P06)
    postparsing(ctx)
