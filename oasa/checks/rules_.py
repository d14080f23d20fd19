"""P10, P30, P31, P32: what a loaded rule is and what it looks at."""
import ast

from ..absint import (NONE, TRUE, contains, is_const, show, show_cond,
                      subterms)
from ..core import check
from ..model import AnalysisError, ClassInfo
from ..util import (BasePolicy, deep, driver, mkdict, mkobj, path_str, run)

BASE = "oa.rules.base.BaseRule"
RS = ("sym", "ruleset", "oa.rules.ruleset.RuleSet")
MSG = ("sym", "msg", "oa.message.Message")
PATTERN = ("sym", "PATTERN", None)


def rule_classes(ctx):
    p = ctx.p
    base = p.cls(BASE)
    out = [c for c in base.all_subs() if not c.name.startswith("_")]
    ctx.floor("kinds of rules", len(out), 8)
    return sorted(set(out), key=lambda c: c.qual)


def rule_heap(data, conf=None):
    """Configuration data of a rule and the settings of the rule set."""
    heap = {}
    d = mkdict(heap, dict({"value": ("sym", "VALUE", None)}, **data))
    if conf is not None:
        for base in (("attr", RS, "conf"),
                     ("attr", ("attr", RS, "ctxt"), "conf")):
            for k, v in conf.items():
                heap[(base, "item", ("const", k))] = ("const", v)
    return heap, d


class RulePolicy(BasePolicy):
    mods = ("oa.rules", "oa.plugins.uri_detail")

    def on_call(self, I, st, node, callee, args, kw):
        if callee[0] == "fn" and callee[1].qual == "oa.regex.perl2re":
            return [("ok", PATTERN, st)]
        return None


LOADED = '''
def driver(cls, name, data, ruleset):
    rule = cls.get_rule(name, data)
    rule.preprocess(ruleset)
    return (rule.score, rule.priority, rule.description, rule.tflags,
            rule.should_check())
'''

ON = {"use_network": True, "use_bayes": True, "autolearn": False,
      "user_config": True}


def load(ctx, c, name, data, conf):
    heap, d = rule_heap(data, dict(ON, **conf))
    fi = driver(ctx.p, LOADED)
    I, outs = run(lambda: RulePolicy(ctx.p), ctx.p, fi, args={
        "cls": ("cls", c), "name": ("const", name), "data": d,
        "ruleset": RS}, heap=heap)
    ctx.saw(I)
    return [(v[1], s) for k, v, s in outs if k == "ret"], \
        [(v, s) for k, v, s in outs if k == "exc"]


def flags_of(t, s):
    d = deep(t, s)
    return {x[1] for x in subterms(d) if x[0] == "const" and
            isinstance(x[1], str)}


def num(t):
    return t[1] if is_const(t) and isinstance(t[1], (int, float)) and \
        not isinstance(t[1], bool) else None


@check("P10", "a rule carries what is configured for it")
def p10(ctx):
    T = lambda *x: ("tuple", tuple(("const", y) for y in x))
    for c in rule_classes(ctx):
        def case(rule, name, data, conf, score=None, priority=None,
                 desc=None, tflags=None, checked=None):
            rets, excs = load(ctx, c, name, data, conf)
            what = "%s:%s" % (c.qual, rule)
            if not rets:
                ctx.bad("configured", what, "a rule configured with %s cannot "
                        "be loaded" % (data,))
                return
            good = True
            for (sc, pr, ds, tf, chk), s in rets:
                def bad(k, m):
                    ctx.bad(k, what, m + " (path %s)" % path_str(s))
                if score is not None and num(sc) != score:
                    good = bad("score", "the score should be %s, it is %s" % (
                        score, show(sc)))
                if priority is not None and num(pr) != priority:
                    good = bad("priority", "the priority should be %s, it is "
                               "%s" % (priority, show(pr)))
                if desc is not None and ds != ("const", desc):
                    good = bad("description", "the description should be %r, "
                               "it is %s" % (desc, show(ds)))
                if tflags is not None and flags_of(tf, s) != tflags:
                    good = bad("tflags", "the test flags should be %s, they "
                               "are %s" % (sorted(tflags), sorted(
                                   flags_of(tf, s))))
                if checked is not None and chk != ("const", checked):
                    good = bad("counted", "the rule %s be checked on its own, "
                               "should_check says %s" % (
                                   "should" if checked else "must not",
                                   show(chk)))
            if good:
                ctx.ok("configured", what)

        full = {"score": "2.5", "describe": "DESC", "priority": "7",
                "tflags": T("multiple", "publish")}
        case("all-given", "RULE", full, {}, 2.5, 7, "DESC",
             {"multiple", "publish"}, True)
        case("score-only", "RULE", {"score": "-0.5"}, {}, -0.5, 0,
             checked=True)
        case("priority-only", "RULE", {"priority": "-12"}, {}, 1.0, -12,
             checked=True)
        case("nothing", "RULE", {}, {}, 1.0, 0, None, set(), True)
        case("nice", "RULE", {"tflags": T("nice")}, {}, -1.0, 0, None,
             {"nice"}, True)
        case("zero", "RULE", {"score": "0"}, {}, 0, checked=False)
        case("hidden", "__RULE", full, {}, priority=7, checked=False)
        case("hidden-unset", "__RULE", {}, {}, checked=False)
        case("hidden-four", "__RULE", {"score": "1 2 3 4"}, {},
             checked=False)
        for bayes in (False, True):
            for net in (False, True):
                i = 2 * bayes + net
                for scores in ("1 2 3 4", "0 2 3 4", "4 3 2 0"):
                    want = float(scores.split()[i])
                    case("four[%s,bayes=%s,net=%s]" % (scores, bayes, net),
                         "RULE", {"score": scores},
                         {"use_bayes": bayes, "use_network": net},
                         want, checked=want != 0)
        for flag, key, off in (("net", "use_network", False),
                               ("learn", "use_bayes", False),
                               ("userconf", "user_config", False),
                               ("noautolearn", "autolearn", True)):
            for four in (False, True):
                data = {"score": "1 2 3 4" if four else "2.5",
                        "tflags": T(flag)}
                case("%s-off%s" % (flag, "-four" if four else ""), "RULE",
                     data, {key: off}, 0, checked=False)
            case("%s-on" % flag, "RULE", {"score": "2.5", "tflags": T(flag)},
                 {key: not off}, 2.5, checked=True)
        for scores in ("1 2", "1 2 3", "1 2 3 4 5"):
            rets, excs = load(ctx, c, "RULE", {"score": scores}, {})
            ctx.expect(not rets and excs and any(
                v[1] == "oa.errors.InvalidRule" for v, s in excs),
                "score-count", "%s[%s]" % (c.qual, scores),
                "a rule with %d scores is accepted" % len(scores.split()))
    # adding to the rule set
    p = ctx.p
    fi = driver(p, '''
def driver(ruleset, rule):
    ruleset.add_rule(rule)
''')
    rule = ("sym", "rule", None)
    checked = ("attr", RS, "checked")
    unchecked = ("attr", RS, "not_checked")

    class P(BasePolicy):
        mods = ("oa.rules.ruleset",)

        def init_mon(self):
            return ()

        def on_call(self, I, st, node, callee, args, kw):
            if callee[0] == "meth" and callee[1] == rule:
                return [("ok", ("call", callee, (), I.site(node)),
                         st.with_mon(st.mon + (callee[2],)))]

        def on_item_store(self, I, st, node, base, key, value):
            if value == rule:
                return st.with_mon(st.mon + (("store", base, key),))
    I, outs = run(lambda: P(p), p, fi, args={"ruleset": RS, "rule": rule})
    ctx.saw(I)
    stored = 0
    for k, v, s in outs:
        if k != "ret":
            continue
        st = [e for e in s.mon if isinstance(e, tuple)]
        ev = [e if isinstance(e, str) else "store" for e in s.mon]
        want = None
        for f, pol in s.facts.items():
            if f[0] == "truthy" and contains(
                    f[1], lambda x: x == ("meth", rule, "should_check")):
                want = pol
        ok = len(st) == 1 and want is not None and st[0][1] == (
            checked if want else unchecked) and \
            st[0][2] == ("attr", rule, "name")
        stored += ok
        ctx.expect(ok, "add-rule", "RuleSet.add_rule[%s]" % want,
                   "a rule that %s be checked is stored in %s" % (
                       "should" if want else "should not",
                       [show(e[1]) for e in st]))
        ctx.expect("preprocess" in ev and "should_check" in ev and
                   ev.index("preprocess") < ev.index("should_check") and
                   "postprocess" in ev and
                   ev.index("postprocess") > ev.index("store"),
                   "add-rule-order", "RuleSet.add_rule",
                   "a rule must be preprocessed before it is decided whether "
                   "it is checked, and postprocessed after it was added; "
                   "found %s" % ev)
    ctx.floor("ways a rule is added", stored, 2)


# ------------------------------------------------------------------ P30
A, B = ("sym", "self", BASE), ("sym", "other", BASE)


def orientation(ctx, fi, cls):
    """'desc' if x < y means x has the higher priority; ..."""
    p = ctx.p

    class P(BasePolicy):
        mods = ("oa.rules", "oa.plugins")
    res = set()
    ps = fi.params()
    I, outs = run(lambda: P(p), p, fi, args={ps[0]: A, ps[1]: B})
    ctx.saw(I)
    for k, v, s in outs:
        if k != "ret":
            continue
        if v == ("ext", "NotImplemented"):
            continue
        if v[0] == "cond":
            c, pol = v[1], v[2]
            res.add((c, pol))
        elif is_const(v):
            fs = [(f, q) for f, q in s.facts.items()
                  if f[0] in ("lt", "eq")]
            if len(fs) == 1:
                f, q = fs[0]
                res.add((f, q == bool(v[1])))
            else:
                res.add((("unknown",), True))
        else:
            res.add((("unknown",), True))
    return res


PA, PB = ("attr", A, "priority"), ("attr", B, "priority")
DESC = {
    "__lt__": {(("lt", PB, PA), True)},
    "__gt__": {(("lt", PA, PB), True)},
    "__le__": {(("lt", PA, PB), False)},
    "__ge__": {(("lt", PB, PA), False)},
}
ASC = {
    "__lt__": {(("lt", PA, PB), True)},
    "__gt__": {(("lt", PB, PA), True)},
    "__le__": {(("lt", PB, PA), False)},
    "__ge__": {(("lt", PA, PB), False)},
}


class Init(BasePolicy):
    known_exc = True

    def inline(self, I, fi):
        return fi.cls is not None and fi.cls.qual == BASE or fi.is_cm


@check("P30", "rules run in priority order")
def p30(ctx):
    p = ctx.p
    base = p.cls(BASE)
    direction = None
    for c in [base] + sorted(base.all_subs(), key=lambda c: c.qual):
        for n in ("__lt__", "__gt__", "__le__", "__ge__", "__eq__"):
            fi = c.methods.get(n)
            if fi is None:
                continue
            got = orientation(ctx, fi, c)
            if n == "__eq__":
                ctx.expect(got <= {(("eq", PA, PB), True),
                                   (("eq", PB, PA), True)} and got,
                           "comparisons", "%s.%s" % (c.name, n),
                           "equality of rules must compare priorities, found "
                           "%s" % [show_cond(x[0]) for x in got])
                continue
            d = "desc" if got == DESC[n] else "asc" if got == ASC[n] else "?"
            if direction is None and c is base:
                direction = d
            ctx.expect(d != "?" and d == direction, "comparisons",
                       "%s.%s" % (c.name, n),
                       "the comparison %s orders rules by %s, the others %s"
                       % (n, [(show_cond(x[0]), x[1]) for x in got],
                          direction))

    # the order is that of the number which was configured
    init = base.find("__init__")
    if init is None or "priority" not in init.params():
        raise AnalysisError("BaseRule has no priority argument")
    for num in (-10 ** 9, -30000, -1001, -17, -1, 0, 1, 3, 42, 999, 1024,
                5000, 10 ** 6):
        for given in (num, str(num), " %d " % num):
            heap = {}
            self_t = mkobj(heap, BASE, {}, "rule")
            I, outs = run(lambda: Init(p), p, init, args={
                init.params()[0]: self_t, "priority": ("const", given),
                "name": ("const", "R"), "score": NONE}, heap=heap)
            ctx.saw(I)
            for k, v, s in outs:
                got = s.heap.get((self_t, "attr", "priority"), NONE)
                ctx.expect(k == "ret" and is_const(got) and got[1] == num,
                           "order", "configured", "a rule with priority %r "
                           "has %s" % (given, show(got)))

    # the sort
    def key_dir(I, st, node, key, arg):
        """Direction of the values a sort key yields for (name, rule)."""
        rule = ("sym", "r", BASE)
        if arg == "pair":
            a = ("tuple", (("sym", "n", None), rule))
        elif arg == "rule":
            a = rule
        else:
            a = ("sym", "n", None)
        if key is None:
            vals = [a]
        elif key[0] == "pcall" and key[1].endswith("itemgetter") and \
                is_const(key[2][0]):
            vals = [v for k, v, s in I.load_item(node, a, key[2][0], st)]
        elif key[0] == "pcall" and key[1].endswith("attrgetter") and \
                is_const(key[2][0]):
            vals = [v for k, v, s in I.load_attr(node, a, key[2][0][1], st)]
        else:
            vals = [v for k, v, s in I.call(node, key, [a], {}, st)
                    if k == "ok"]
        out = set()
        for v in vals:
            if v == rule:
                out.add(direction)
            elif v == ("attr", rule, "priority"):
                out.add("asc")
            elif v[0] == "un" and v[1] == "USub" and v[2] == (
                    "attr", rule, "priority") or v[0] == "bin" and \
                    v[1] == "Sub" and is_const(v[2]) and v[3] == (
                        "attr", rule, "priority") or \
                    v == ("neg", ("attr", rule, "priority")):
                out.add("desc")
            elif v[0] == "item" and v[2] == ("sym", "n", None):
                out.add(direction)
            elif v[0] == "attr" and v[2] == "priority" and \
                    v[1][0] == "item":
                out.add("asc")
            else:
                out.add("? %s" % show(v))
        return out

    CH = ("attr", RS, "checked")

    def source(t, st):
        while True:
            if t[0] == "pcall" and t[1] in ("list", "tuple", "iter") and t[2]:
                t = t[2][0]
            elif t[0] == "obj" and (t, "src") in st.heap:
                t = st.heap[(t, "src")]
            else:
                break
        if t[0] == "mcall" and t[1] == CH:
            return {"items": "pair", "values": "rule", "keys": "name"}.get(
                t[2])
        if t == CH:
            return "name"
        return None

    found = {"n": 0}

    class P(BasePolicy):
        mods = ("oa.rules.ruleset",)

        def init_mon(self):
            return ("unsorted",)

        def judge(self, I, st, node, it, kw):
            found["n"] += 1
            src = source(it, st)
            if src is None:
                return ("bad", "sorts %s, not the rules to check" % show(it))
            key = kw.get("key")
            ds = key_dir(I, st, node, key, src)
            rev = kw.get("reverse", ("const", False))
            if not is_const(rev) or len(ds) != 1:
                return ("bad", "the order is not determined: %s" % ds)
            d = ds.pop()
            if rev[1]:
                d = {"asc": "desc", "desc": "asc"}.get(d, d)
            if d != "desc":
                return ("bad", "the rules are sorted in %s order of priority"
                        % {"asc": "ascending"}.get(d, d))
            return ("sorted",)

        def on_call(self, I, st, node, callee, args, kw):
            if callee == ("ext", "sorted") or callee == (
                    "ext", "builtins.sorted"):
                r = self.judge(I, st, node, args[0], kw)
                t = ("pcall", "SORTED", (("const", r), args[0]))
                return [("ok", t, st)]
            if callee[0] == "meth" and callee[2] == "sort":
                r = self.judge(I, st, node, callee[1], kw)
                return [("ok", ("const", None),
                         st.store((callee[1], "src"), (
                             "pcall", "SORTED", (("const", r), callee[1]))))]
            if callee[0] == "meth" and callee[2] == "move_to_end" or \
                    callee in (("ext", "reversed"),
                               ("ext", "builtins.reversed")):
                if args and contains(args[0], lambda x: x[:2] == (
                        "pcall", "SORTED")) or callee[0] == "meth":
                    return [("ok", ("call", callee, tuple(args),
                                    I.site(node)),
                             st.with_mon(("bad", "the sorted order is "
                                          "changed again")))]
            return None

        def on_attr_store(self, I, st, node, base, name, value):
            if base == RS and name == "checked":
                return st.with_mon(self.verdict(value, st))

        def verdict(self, value, st):
            res = set()
            d = deep(value, st)
            for x in subterms(d):
                if x[:2] == ("pcall", "SORTED"):
                    res.add(x[2][0][1])
                elif x[:2] in (("pcall", "reversed"),):
                    res.add(("bad", "the sorted order is reversed"))
            if not res:
                return ("bad", "the rules to check are replaced by an "
                        "unsorted collection")
            bad = [r for r in res if r[0] == "bad"]
            return bad[0] if bad else ("sorted",)
    fi = driver(p, '''
def driver(ruleset):
    ruleset.post_parsing()
''')
    I, outs = run(lambda: P(p), p, fi, args={"ruleset": RS})
    ctx.saw(I)
    for k, v, s in outs:
        if k == "ret":
            ctx.expect(s.mon[0] == "sorted", "sorted", "RuleSet.post_parsing",
                       s.mon[1] if len(s.mon) > 1 else
                       "after loading, the rules to check are not sorted")
    ctx.floor("sorts of the rule set", found["n"], 1)

    # after all rules have been added
    class G(BasePolicy):
        mods = ("oa.rules.parser",)

        def init_mon(self):
            return (False,)

        def inline(self, I, fi):
            return fi.module.name == "oa.rules.parser" or fi.is_cm

        def on_call(self, I, st, node, callee, args, kw):
            nm = callee[2] if callee[0] == "meth" else getattr(
                callee[1], "name", None) if callee[0] in ("bm", "fn") \
                else None
            if nm == "post_parsing":
                return [("ok", ("const", None), st.with_mon((True,)))]
            if nm in ("add_rule", "hook_parsing_end") and st.mon[0]:
                ctx.bad("sorted-last", "PADParser.get_ruleset:%s" % nm,
                        "rules can still be added (%s) after the rule set "
                        "was sorted" % nm)
            return None
    fi = p.func("oa.rules.parser.PADParser.get_ruleset")
    I, outs = run(lambda: G(p), p, fi)
    ctx.saw(I)
    for k, v, s in outs:
        if k == "ret":
            ctx.expect(s.mon[0], "sorted-last", "PADParser.get_ruleset",
                       "a rule set is handed out without being sorted")

    # the rule loop takes them in that order
    class L(BasePolicy):
        mods = ("oa.rules.ruleset",)

        def on_loop(self, I, st, node, it):
            if it is not None and contains(it, lambda x: x == CH):
                src = source(it, st)
                n = it
                ctx.expect(src is not None, "loop-order", "RuleSet.match",
                           "the rule loop goes through %s instead of the "
                           "sorted rules" % show(n))
                self.n = 1
    pol = [None]

    def mk():
        pol[0] = L(p)
        pol[0].n = 0
        return pol[0]
    I, outs = run(mk, p, driver(p, '''
def driver(ruleset, msg):
    ruleset.match(msg)
'''), args={"ruleset": RS, "msg": MSG})
    ctx.saw(I)
    ctx.floor("rule loops", pol[0].n, 1)


# ------------------------------------------------------------------ P31
MATCHING = '''
def driver(pattern, op, text):
    compiled = oa.regex.perl2re(pattern, op)
    return bool(compiled.match(text))
import oa.regex
'''
DEFAULT_OP = MATCHING.replace("(pattern, op)", "(pattern)")


def op_positions(v):
    """How an operator term is derived from a rule's value."""
    return v


def const_dict(ctx, mod, want_keys):
    """Module level tables whose keys include the given ones."""
    m = ctx.p.module(mod)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Dict):
            d = {}
            for k, v in zip(n.keys, n.values):
                if isinstance(k, ast.Constant):
                    d[k.value] = v
            if want_keys <= set(d):
                yield d, n, m


RE_NAMES = {"I": "IGNORECASE", "S": "DOTALL", "M": "MULTILINE",
            "X": "VERBOSE"}
PERL_FLAGS = {"i": "IGNORECASE", "s": "DOTALL", "m": "MULTILINE",
              "x": "VERBOSE"}
PAIRS = {"{": "}", "<": ">", "(": ")", "[": "]"}


@check("P31", "match operators and flags")
def p31(ctx):
    p = ctx.p
    PAT, TEXT = ("sym", "PAT", None), ("sym", "TEXT", None)

    class P(BasePolicy):
        mods = ("oa.regex",)

        def init_mon(self):
            return ()

        def on_call(self, I, st, node, callee, args, kw):
            if callee == ("ext", "re.compile"):
                t = ("call", callee, tuple(args) + tuple(
                    ("kw", a, v) for a, v in sorted(kw.items())),
                    I.site(node))
                return [("ok", t, st.with_mon(st.mon + (("compile", t),))),
                        ("exc", ("exc", "re.error", I.site(node)),
                         st.with_mon(st.mon + (("fail",),)))]
            if callee[0] == "meth" and contains(
                    callee[1], lambda x: x == ("ext", "re.compile")) and \
                    args and contains(args[-1], lambda x: x == TEXT):
                t = ("call", callee, tuple(args), I.site(node))
                return [("ok", t, st.with_mon(st.mon + (
                    ("search", callee[2], tuple(args), callee[1], t),)))]
            return None

    def go(src, op):
        I, outs = run(lambda: P(p), p, driver(p, src), args={
            "pattern": PAT, "op": ("const", op), "text": TEXT})
        ctx.saw(I)
        return outs
    n = 0
    for src, op, want in ((MATCHING, "=~", True), (MATCHING, "!~", False),
                          (DEFAULT_OP, "=~", True)):
        name = "perl2re[%s%s]" % (op, ",default" if src is DEFAULT_OP else "")
        rets = flagged = 0
        failed = set()
        for k, v, s in go(src, op):
            if k == "exc":
                if ("fail",) in s.mon:
                    failed.add(v[1])
                continue
            ev = [e for e in s.mon if e[0] == "search"]
            if ("fail",) in s.mon:
                ctx.bad("invalid-regex", name, "an expression that cannot be "
                        "compiled is accepted")
                continue
            rets += 1
            if len(ev) != 1:
                ctx.bad("found", name, "the compiled expression is searched "
                        "%d times in the text" % len(ev))
                continue
            e = ev[0]
            if e[1] not in ("search", "finditer", "findall") or \
                    e[2] != (TEXT,):
                ctx.bad("found", name, "a rule must look for its expression "
                        "anywhere in the text it is given; it uses %s(%s)" % (
                            e[1], ", ".join(map(show, e[2]))))
            truth = None
            for f, pol in s.facts.items():
                if f[0] == "truthy" and f[1] == e[4]:
                    truth = pol
                if f[0] == "isnone" and f[1] == e[4]:
                    truth = not pol
            if v[0] == "cond" and v[1][0] in ("truthy", "isnone") and \
                    v[1][1] == e[4]:
                res = v[2] if v[1][0] == "truthy" else not v[2]
                ok = res == want
            elif is_const(v) and truth is not None:
                ok = bool(v[1]) == (truth == want)
            else:
                ok = False
            n += 1
            ctx.expect(ok, "operator", name, "with %s a text in which the "
                       "expression is %sfound gives %s" % (
                           op, "" if truth else "not ", show(v)))
            # the compiled expression and its flags
            comp = e[3]
            cargs = [a for a in comp[2] if a[0] != "kw"]
            kws = {a[1]: a[2] for a in comp[2] if a[0] == "kw"}
            fl = cargs[1] if len(cargs) > 1 else kws.get("flags")
            split = [x for x in subterms(comp) if x[0] == "mcall" and
                     x[2] in ("rsplit", "rpartition")]

            def part(t):
                out = set()
                for x in subterms(t):
                    if x[0] in ("item", "unpack") and len(x) > 2 and \
                            contains(x[1], lambda y: y in split):
                        k2 = x[2]
                        out.add(k2[1] if isinstance(k2, tuple) else k2)
                return out
            if fl is None:
                ctx.bad("flags", name, "the flags of the expression are not "
                        "passed to the compiled expression")
            elif is_const(fl):
                pass
            else:
                flagged += 1
                pf, pp = part(fl), part(cargs[0])
                last = {1, -1} if any(x[2] == "rsplit" for x in split) \
                    else {2, -1}
                ctx.expect(pf <= last and pp <= {0}, "flags", name,
                           "the expression must be what stands before the "
                           "last delimiter and the flags what stands after "
                           "it; found %s and %s (%s)" % (
                               sorted(pp), sorted(pf), show(cargs[0])))
                bado = [x for x in subterms(fl) if x[0] == "ext" and
                        x[1] in ("operator.and_", "operator.xor") or
                        x[0] == "bin" and x[1] in ("BitAnd", "BitXor")]
                ctx.expect(not bado, "flags-combined", name,
                           "several flags are combined with %s" %
                           [show(x) for x in bado])
        ctx.floor("outcomes of %s" % name, rets, 1)
        ctx.expect(flagged, "flags", name, "the flags written in the rule are "
                   "not used when its expression is compiled")
        ctx.expect(failed and failed <= {"oa.errors.InvalidRegex"},
                   "invalid-regex", name, "an expression that cannot be "
                   "compiled must be reported as invalid, found %s" %
                   (sorted(failed) or "nothing raised"))
    for op in ("=", "~", "=~ ", "!", "==", "~=", ""):
        ok = True
        for k, v, s in go(MATCHING, op):
            if k == "ret" or v[1] not in ("oa.errors.InvalidRegex",
                                          "re.error"):
                ok = False
        ctx.expect(ok, "unknown-operator", "perl2re[%r]" % op,
                   "the match operator %r is accepted" % op)
    # tables
    tabs = list(const_dict(ctx, "oa.regex", set("isx")))
    ctx.floor("flag tables", len(tabs), 1)
    for d, node, m in tabs:
        for f, want in PERL_FLAGS.items():
            got = None
            if f in d:
                x = ast.unparse(d[f]).split(".")[-1]
                got = RE_NAMES.get(x, x)
            ctx.expect(got == want, "flag", f, "the flag %r selects %s "
                       "instead of %s" % (f, got, want))
    tabs = list(const_dict(ctx, "oa.regex", {"/", "{"}))
    ctx.floor("delimiter tables", len(tabs), 1)
    for d, node, m in tabs:
        for k, v in d.items():
            if not isinstance(v, ast.Constant):
                continue
            want = PAIRS.get(k, k)
            ctx.expect(v.value == want, "delimiter", k, "an expression that "
                       "starts with %r ends with %r" % (k, v.value))
    for k in "/{%<'~,!;":
        ctx.expect(any(k in d for d, n2, m in tabs), "delimiter", k,
                   "the delimiter %r is not understood" % k)

    # the operator written in the rule is the one used
    for c in rule_classes(ctx):
        p31_class(ctx, c)


def value_split(t, op):
    """Pieces of a rule's value a term was cut from, by the operator."""
    out = []
    for x in subterms(t):
        if x[0] == "mcall" and x[2] in ("split", "partition", "rsplit",
                                        "rpartition") and x[3] and \
                x[3][0] == op:
            out.append(x)
    return out


def p31_class(ctx, c):
    p = ctx.p
    V = ("sym", "VALUE", None)
    heap, d = rule_heap({})
    calls = {}

    class P(RulePolicy):
        def on_call(self, I, st, node, callee, args, kw):
            if callee[0] == "fn" and callee[1].qual == "oa.regex.perl2re":
                pat = args[0] if args else kw.get("pattern")
                op = args[1] if len(args) > 1 else kw.get("match_op")
                calls.setdefault((pat, op), st)
                return [("ok", PATTERN, st)]
            return None
    I, outs = run(lambda: P(p), p, driver(p, '''
def driver(cls, name, data):
    return cls.get_rule(name, data)
'''), args={"cls": ("cls", c), "name": ("const", "RULE"), "data": d},
        heap=heap)
    ctx.saw(I)
    n = 0
    for (pat, op), st in calls.items():
        n += 1
        what = c.qual
        if not contains(pat, lambda x: x == V):
            ctx.bad("rule-pattern", what, "the expression compiled for a rule "
                    "is %s, not the one written in it" % show(pat))
            continue
        if pat == V or pat == ("mcall", V, "strip", ()):
            ctx.expect(op is None or op == ("const", "=~"), "rule-operator",
                       what, "a rule without an operator is compiled with %s"
                       % (op and show(op)))
            continue
        if op is None:
            ctx.bad("rule-operator", what, "the operator written in the rule "
                    "is ignored")
            continue
        cuts = value_split(pat, op)
        if cuts:
            ok = True
            for x in cuts:
                lim = x[3][1] if len(x[3]) > 1 else None
                if x[2] in ("split",) and lim != ("const", 1) or \
                        x[2] in ("rsplit", "rpartition"):
                    ok = False
                    ctx.bad("rule-operator", what, "the rule is not cut at "
                            "its first operator: %s" % show(x))
            if is_const(op):
                other = "!~" if op[1] == "=~" else "=~"
                first = [f for f, q in st.facts.items() if f[0] == "lt" or
                         f[0] == "truthy" and contains(f[1], lambda y: y[
                             0] == "mcall" and y[2] in ("find", "index",
                                                        "search", "match"))]
                excl = any(f[0] == "in" and f[1] == ("const", other) and
                           q is False for f, q in st.facts.items()) or any(
                    f[0] == "eq" and ("const", op[1]) in f[1:] and q
                    for f, q in st.facts.items())
                if not excl and not first:
                    ok = False
                    ctx.bad("rule-operator", what, "a rule is treated as %s "
                            "although the first operator in it may be %s" % (
                                op[1], other))
            if ok:
                ctx.ok("rule-operator", what)
            continue
        # both parts come from one match of a regular expression
        same = [x for x in subterms(op) if x[0] in ("iter", "call", "mcall")
                and contains(pat, lambda y: y == x) and x != V]
        ctx.expect(bool(same) and op != pat, "rule-operator", what,
                   "the operator %s of a rule is not the one its expression "
                   "%s was written with" % (show(op), show(pat)))
    ctx.note("expressions:" + c.name, n)


# ------------------------------------------------------------------ P32
VIEW = '''
def driver(cls, name, data, msg):
    rule = cls.get_rule(name, data)
    return bool(rule.match(msg))
'''
SPECIAL = ("ALL", "ToCc", "MESSAGEID", "raw", "addr", "name")
DOCUMENTED = {
    "oa.rules.body.BodyRule": "text",
    "oa.rules.body.RawBodyRule": "raw_text",
    "oa.rules.full.FullRule": "raw_msg",
    "oa.rules.uri.URIRule": ("each", "uri_list"),
}
HEADERS = {"ToCc": {"To", "Cc"},
           "MESSAGEID": {"Message-Id", "Resent-Message-Id",
                         "X-Message-Id"}}
METHODS = {None: "get_decoded_header", "raw": "get_raw_header",
           "addr": "get_addr_header", "name": "get_name_header"}
MIME = {None: "get_decoded_mime_header", "raw": "get_raw_mime_header"}


def unwrap(t, st):
    while True:
        if t[0] == "pcall" and t[1] in ("list", "tuple", "iter", "sorted",
                                        "set", "frozenset") and t[2]:
            t = t[2][0]
        elif t[0] == "obj" and (t, "src") in st.heap:
            t = st.heap[(t, "src")]
        elif t[0] == "tuple" and len(t[1]) == 1 and t[1][0][0] == "each":
            t = t[1][0][1]
        else:
            return t


def msg_call(t):
    """(method, args) of a call of a message method."""
    if t[0] in ("call",) and t[1][0] == "meth" and t[1][1] == MSG:
        return t[1][2], t[2]
    if t[0] == "call" and t[1][0] == "bm" and t[1][2] == MSG:
        return t[1][1].name, t[2]
    if t[0] == "mcall" and t[1] == MSG:
        return t[2], t[3]
    return None


@check("P32", "each rule type looks at its part of the message")
def p32(ctx):
    p = ctx.p
    V = ("sym", "VALUE", None)
    for c in rule_classes(ctx):
        kind = "header" if c.is_sub(p.cls("oa.rules.header.HeaderRule")) else \
            "mime" if c.is_sub(p.cls("oa.rules.header.MimeHeaderRule")) else \
            DOCUMENTED.get(c.qual)
        if kind is None:
            continue
        p32_class(ctx, c, kind)
    p32_views(ctx)


class ViewPolicy(RulePolicy):
    def __init__(self, p):
        RulePolicy.__init__(self, p)
        self.loops = {}

    def init_mon(self):
        # (match calls on this path, loops being walked, form of the rule)
        return ((), (), frozenset())

    def on_branch(self, I, st, node, cond, pol):
        new = set()
        if cond[0] == "eq" and pol:
            for x in cond[1:]:
                if is_const(x) and x[1] in SPECIAL:
                    new.add(x[1])
        if cond[0] == "in" and pol and cond[1][0] != "const":
            els = I._known_elts(cond[2], st) or ()
            if len(els) == 1 and els[0][1] in SPECIAL:
                new.add(els[0][1])
        if cond[0] == "truthy" and pol and cond[1][0] == "mcall" and \
                cond[1][2] == "startswith" and cond[1][3] and \
                is_const(cond[1][3][0]) and \
                "exists" in str(cond[1][3][0][1]):
            new.add("exists")
        if new - st.mon[2]:
            return st.with_mon(st.mon[:2] + (st.mon[2] | new,))
        return None

    def inline(self, I, fi):
        if fi.module.name == "oa.message":
            return False
        return RulePolicy.inline(self, I, fi)

    def on_call(self, I, st, node, callee, args, kw):
        if callee[0] == "fn" and callee[1].qual == "oa.regex.perl2re":
            return [("ok", PATTERN, st)]
        if callee[0] == "meth" and callee[1] == PATTERN:
            t = ("call", callee, tuple(args), I.site(node))
            facts = {c: q for c, q in st.facts.items()
                     if not contains(c, lambda x: x == t)}
            calls = tuple(x for x in st.mon[0] if x != t) + (t,)
            return [("ok", t, st.fork(facts=facts).with_mon(
                (calls,) + st.mon[1:]))]
        if callee[0] in ("bm",) and callee[2] == MSG:
            return [("ok", ("call", ("meth", MSG, callee[1].name),
                            tuple(args), None), st)]
        if callee[0] == "meth" and callee[1] == MSG:
            return [("ok", ("call", callee, tuple(args), None), st)]
        return None

    def on_iter(self, I, st, node, it, elem):
        key = I.site(node)
        return st.with_mon((st.mon[0], tuple(
            x for x in st.mon[1] if x != key) + (key,)) + st.mon[2:])

    def on_iter_end(self, I, st, node, kind):
        key = I.site(node)
        if kind in ("next", "cont"):
            return st.with_mon((st.mon[0], tuple(
                x for x in st.mon[1] if x != key)) + st.mon[2:])
        return None


def p32_class(ctx, c, kind):
    p = ctx.p
    heap, d = rule_heap({})
    I, outs = run(lambda: ViewPolicy(p), p, driver(p, VIEW), args={
        "cls": ("cls", c), "name": ("const", "RULE"), "data": d, "msg": MSG},
        heap=heap)
    ctx.saw(I)
    seen = set()
    for k, v, s in outs:
        if k != "ret":
            continue
        sel = set(s.mon[2])
        exists = "exists" in sel
        sel.discard("exists")
        label = "%s[%s]" % (c.name, ",".join(sorted(sel)) or (
            "exists" if exists else "plain"))
        if len(sel) > 1:
            continue
        mod = next(iter(sel), None)
        if exists and not s.mon[0]:
            t = v
            ok = t[0] == "cond" and t[2] is True and t[1][0] == "in" and \
                t[1][2] == ("attr", MSG, "raw_headers")
            ok = ok or t[0] == "cond" and t[2] is True and \
                t[1][0] == "truthy" and (msg_call(t[1][1]) or ("",))[0] in (
                    "get_raw_header",)
            if is_const(t):
                ok = any((f[0] == "in" and f[2] == (
                    "attr", MSG, "raw_headers") or f[0] == "truthy" and (
                        msg_call(f[1]) or ("",))[0] == "get_raw_header") and
                    q == bool(t[1]) for f, q in s.facts.items())
            ctx.expect(ok, "exists", label, "an exists rule must tell whether "
                       "the message has the header, it gives %s" % show(v))
            seen.add("exists")
            continue
        # comprehension forms: any(pattern.match(x) for x in view)
        calls = s.mon[0]
        value = v
        comp = None
        core = value
        if core[0] == "cond" and core[1][0] == "truthy":
            core = core[1][1]
        if core[0] == "pcall" and core[1] in ("any", "all") and core[2]:
            comp = core
        # which view
        views = set()
        for t in calls:
            if len(t[2]) != 1:
                ctx.bad("view", label, "the expression is matched against "
                        "%s" % [show(a) for a in t[2]])
                continue
            views.add(t[2][0])
        for a in views:
            view_ok(ctx, p, label, kind, mod, a, s, seen)
        # result
        if comp is not None:
            ctx.expect(comp[1] == "any" and value[2] is not False,
                       "any-value", label, "the rule needs %s of the values "
                       "to match" % comp[1])
            continue
        truth = [s.facts.get(("truthy", t)) for t in calls]
        if value[0] == "cond" and value[1][0] == "truthy" and \
                value[1][1] in calls:
            res = "match"
            ok = value[2] is True and not s.mon[1]
        elif is_const(value):
            res = bool(value[1])
            if res:
                ok = any(q is True for q in truth)
            else:
                ok = not any(q is True for q in truth) and not s.mon[1]
                if not calls:
                    # nothing to look at: only for an empty collection
                    ok = True
        else:
            ok = False
            res = show(value)
        ctx.expect(ok, "any-value", label, "the rule gives %s %s (%s)" % (
            res, "before every value has been looked at" if s.mon[1] else "",
            "; ".join("%s -> %s" % (show(t), q)
                      for t, q in zip(calls, truth)) or "nothing matched"))
    need = {"header": {"plain", "raw", "addr", "name", "ALL", "ToCc",
                       "MESSAGEID", "exists"},
            "mime": {"plain", "raw"}}.get(kind, {"view"})
    ctx.expect(need <= seen, "forms", c.name, "the forms %s are not looked "
               "for in the message" % sorted(need - seen))


def view_ok(ctx, p, label, kind, mod, a, s, seen):
    """Is ``a`` (what the expression is matched against) the documented
    part of the message?"""
    if isinstance(kind, str) and kind not in ("header", "mime"):
        ctx.expect(a == ("attr", MSG, kind), "view", label,
                   "the rule must look at msg.%s, it looks at %s" % (
                       kind, show(a)))
        seen.add("view")
        return
    if a[0] != "iter":
        ctx.bad("view", label, "the rule must look at each value, it looks "
                "at %s" % show(a))
        return
    it = unwrap(a[1], s)
    if isinstance(kind, tuple):
        ctx.expect(it == ("attr", MSG, kind[1]), "view", label,
                   "the rule must look at each of msg.%s, it looks at %s" % (
                       kind[1], show(it)))
        seen.add("view")
        return
    mc = msg_call(it)
    if mc is None:
        ctx.bad("view", label, "the rule looks at %s" % show(it))
        return
    meth, args = mc
    if mod == "ALL":
        ctx.expect(meth == "iter_decoded_headers", "view", label,
                   "an ALL rule must look at every header, it looks at %s" %
                   show(it))
        seen.add("ALL")
        return
    if mod in HEADERS:
        names = set()
        for x in args[:1]:
            if is_const(x):
                names.add(x[1])
            elif x[0] == "iter":
                els = [e[1] for e in subterms(deep(x[1], s))
                       if e[0] == "const" and isinstance(e[1], str)]
                if x[1][0] == "clsattr" or not els:
                    els = table(p, x[1])
                names |= set(els)
        ok = meth == "get_decoded_header" and names and \
            {n.lower() for n in names} <= {n.lower() for n in HEADERS[mod]}
        ctx.expect(ok, "view", label, "a %s rule must look at the decoded %s "
                   "headers, it looks at %s of %s" % (
                       mod, sorted(HEADERS[mod]), meth, sorted(names)))
        seen.add(mod)
        got = ctx.__dict__.setdefault("_hdrs", {}).setdefault(mod, set())
        got |= {n.lower() for n in names}
        return
    want = (MIME if kind == "mime" else METHODS).get(mod)
    V = ("sym", "VALUE", None)
    ctx.expect(meth == want and args and contains(
        args[0], lambda x: x == V), "view", label,
        "the rule must look at %s of its header, it looks at %s" % (
            want, show(it)))
    # header name: the text before the operator, without the modifier
    if args and mod is not None:
        ctx.expect(not any(x[0] in ("item", "unpack") and contains(
            x[1], lambda y: y[0] == "mcall" and y[2] == "rsplit") and
            (x[2] == 1 or x[2] == ("const", 1)) for x in subterms(args[0])),
            "header-name", label, "the header looked at is named by %s" %
            show(args[0]))
    seen.add(mod or "plain")


def table(p, t):
    if t[0] == "clsattr":
        c = p.classes.get(t[1])
        v, cc = c.find_attr(t[2]) if c else (None, None)
        if v is not None:
            lit = p.literal(cc.module, v)
            if isinstance(lit, (tuple, list)):
                return [x for x in lit if isinstance(x, str)]
    return []


def p32_views(ctx):
    for mod, want in HEADERS.items():
        got = ctx.__dict__.get("_hdrs", {}).get(mod, set())
        ctx.expect(got == {n.lower() for n in want}, "all-headers", mod,
                   "a %s rule must look at %s, it looks at %s" % (
                       mod, sorted(want), sorted(got)))
