"""P05: one verdict, inclusive threshold, everywhere."""
from ..absint import contains, is_const, show, show_cond
from ..core import check
from ..util import BasePolicy, names_in, path_str, run, is_item
from .scoring import MSG, truth_of

RENDER = {"interpolate_data", "rules_checked", "rules_descriptions"}
REPORTERS = ("get_report", "get_adjusted_message", "get_unsafe_report",
             "get_matched_report", "get_summary_report")


def is_score(t):
    return t[0] == "attr" and t[2] == "score" and t[1][0] != "attr" or \
        t == ("attr", MSG, "score")


def is_req(t):
    return t[0] == "item" and t[2] == ("const", "required_score")


def mentions_score(t):
    return contains(t, is_score)


def mentions_req(t):
    return contains(t, is_req)


def canonical(c):
    return c[0] == "lt" and is_score(c[1]) and is_req(c[2])


def verdict_conds(t):
    """Comparisons inside a term that relate score and threshold."""
    out = []

    def p(x):
        if x[0] in ("lt", "eq", "in", "truthy") and mentions_score(x) and \
                mentions_req(x):
            if x[0] in ("lt", "eq"):
                out.append(x)
        return False
    contains(t, p)
    return out


def spam_of(st):
    """True/False/None: the verdict this path has established."""
    for c, p in st.facts.items():
        if canonical(c):
            return not p
    return None


def spam_truth(v, st):
    """Verdict claimed by a value: True/False/None; 'v' when it *is* the
    verdict."""
    if v[0] == "cond" and canonical(v[1]):
        return "v" if v[2] is False else "inverse"
    if v[0] == "pcall" and v[1] in ("bool", "str", "repr", "int") and v[2]:
        return spam_truth(v[2][0], st)
    t = truth_of(v, st)
    return t


def word(v):
    if is_const(v):
        if isinstance(v[1], bool):
            return v[1]
        if isinstance(v[1], str) and v[1].strip().lower() in ("yes", "true"):
            return True
        if isinstance(v[1], str) and v[1].strip().lower() in ("no", "false"):
            return False
    return None


class VerdictPolicy(BasePolicy):
    def __init__(self, p, ctx, entry, hide=True):
        BasePolicy.__init__(self, p)
        self.ctx = ctx
        self.ent = entry
        self.hide = hide
        self.tags = 0
        self.mods = 0
        self.compares = 0
        self.wraps = 0
        self.reports = 0
        self.issues = {}

    def init_mon(self):
        return ("unchecked", None)

    def bad(self, rule, c, m, st=None):
        if st is not None:
            m += " (path %s)" % path_str(st)
        self.issues.setdefault((rule, c), m)

    def inline(self, I, fi):
        if fi.qual != self.ent.qual and self.hide and RENDER & names_in(fi) \
                and fi.cls is not None and \
                fi.cls.qual == "oa.rules.ruleset.RuleSet":
            return False
        if fi.name in ("__init__", "parse_arguments") and \
                fi.module.name.startswith("scripts"):
            return False
        return BasePolicy.inline(self, I, fi)

    def conds(self, I, c, st):
        for x in verdict_conds(c):
            self.compares += 1
            if not canonical(x):
                self.bad("inclusive", self.ent.qual,
                         "the verdict compares %s; spam must mean score >= "
                         "required score" % show_cond(x), st)

    def on_branch(self, I, st, node, cond, pol):
        self.conds(I, cond, st)

    def on_attr_load(self, I, st, node, base, name):
        return None

    def tag(self, I, st, key, value):
        k = key[1]
        self.tags += 1
        s = spam_of(st)
        if value[0] == "cond" and canonical(value[1]):
            self.bad("tag-verdict", k, "the tag %s is not YES/NO" % k, st)
            return
        self.conds(I, value, st)
        w = word(value)
        if w is None:
            return
        if s is None:
            self.bad("tag-verdict", k, "the tag %s says %s without regard to "
                     "the verdict" % (k, value[1]), st)
        elif w != s:
            self.bad("tag-verdict", k, "the tag %s says %s for a %s message"
                     % (k, value[1], "spam" if s else "ham"), st)

    def on_item_store(self, I, st, node, base, key, value):
        if key in (("const", "YESNO"), ("const", "YESNOCAPS")):
            self.tag(I, st, key, value)

    def on_mutate(self, I, st, node, base, meth, args):
        if meth == "update" and args and args[0][0] == "obj":
            for k in ("YESNO", "YESNOCAPS"):
                v = st.heap.get((args[0], "item", ("const", k)))
                if v is not None:
                    self.tag(I, st, ("const", k), v)

    def mod(self, st, t):
        for which in ("spam", "ham"):
            def p(x):
                return x[0] == "item" and x[2] == ("const", which) and \
                    x[1][0] == "attr" and x[1][2] == "header_mod"
            if contains(t, p):
                self.mods += 1
                s = spam_of(st)
                if s is None or s != (which == "spam"):
                    self.bad("header-verdict", which, "the %s headers are "
                             "applied to a %s message" % (
                                 which, {True: "spam", False: "ham",
                                         None: "spam or ham"}[s]), st)

    def on_loop(self, I, st, node, it):
        if it is not None:
            self.mod(st, it)

    def on_call(self, I, st, node, callee, args, kw):
        nm = callee[2] if callee[0] == "meth" else (
            callee[1].name if callee[0] in ("bm", "fn") else None)
        for a in args:
            self.mod(st, a)
            self.conds(I, a, st)
        if callee[0] == "ext" and callee[1].endswith("MIMEMultipart"):
            self.wraps += 1
            s = spam_of(st)
            if s is not True:
                self.bad("wrap-verdict", "RuleSet.get_adjusted_message",
                         "a message not found to be spam is wrapped in a "
                         "report", st)
        if nm == "match" and len(args) == 1 and (
                callee[0] == "meth" or callee[1].qual ==
                "oa.rules.ruleset.RuleSet.match"):
            return [("ok", ("const", None), st.with_mon(("checked", args[0])))]
        if nm in REPORTERS and not self.ent.qual.startswith(
                "oa.rules.ruleset.") and I.cur.fi.module.name != \
                "oa.rules.ruleset":
            self.reports += 1
            if st.mon[0] != "checked" or (
                    args and st.mon[1] != args[0]):
                self.bad("checked-first", "%s:%s" % (self.ent.qual, nm),
                         "%s is produced for a message that has not been "
                         "checked" % nm, st)
            return [("ok", ("call", callee, tuple(args), I.site(node)), st)]
        return None


class HandlePolicy(VerdictPolicy):
    """A daemon command that checks a message."""

    def init_mon(self):
        return ("unchecked", None, 0)

    def on_call(self, I, st, node, callee, args, kw):
        nm = callee[2] if callee[0] == "meth" else (
            callee[1].name if callee[0] in ("bm", "fn") else None)
        if nm == "match" and len(args) == 1 and (
                callee[0] == "meth" or callee[1].qual ==
                "oa.rules.ruleset.RuleSet.match"):
            return [("ok", ("const", None), st.with_mon(
                ("checked", args[0]) + st.mon[2:]))]
        return VerdictPolicy.on_call(self, I, st, node, callee, args, kw)

    def on_attr_load(self, I, st, node, base, name):
        if name in ("score", "rules_checked") and base == MSG and \
                st.mon[0] != "checked":
            self.bad("checked-first", self.ent.qual, "the %s is read before "
                     "the message is checked" % name, st)

    def on_yield(self, I, st, node, value):
        n = st.mon[2]
        if n == 0 and I.cur.fi.qual == self.ent.qual or (
                n == 0 and value[0] == "fmt"):
            self.first(I, st, value)
            return st.with_mon(st.mon[:2] + (1,))
        return None

    def first(self, I, st, value):
        self.compares += 0
        if st.mon[0] != "checked":
            self.bad("checked-first", self.ent.qual, "the verdict is sent "
                     "before the message is checked", st)
        s = spam_of(st)
        txt = show(value)
        if value[0] != "fmt":
            if is_const(value) and isinstance(value[1], str):
                args = ()
                tmpl = value[1]
            else:
                return
        else:
            tmpl = value[1][1] if is_const(value[1]) else ""
            args = value[2]
        if "Spam" not in tmpl:
            return
        self.verdicts = getattr(self, "verdicts", 0) + 1
        for a in args:
            self.conds(I, a, st)
        # the first value after "Spam:" is the verdict
        lit = tmpl.split(";")[0].split(":", 1)[1].strip() \
            if ":" in tmpl else ""
        w = None
        if lit in ("True", "False"):
            w = lit == "True"
        elif args:
            a = args[0]
            if a[0] == "pcall" and a[1] in ("str", "bool", "repr") and a[2]:
                a = a[2][0]
            if a[0] == "cond" and canonical(a[1]):
                if a[2] is not False:
                    self.bad("reply-verdict", self.ent.qual,
                             "the reply says Spam: True for ham", st)
                return
            w = word(a)
        if w is None:
            if not any(canonical(x) for x in verdict_conds(value)):
                self.bad("reply-verdict", self.ent.qual, "the verdict in the "
                         "reply is %s, not the comparison of score and "
                         "threshold" % txt, st)
            return
        if s is None or s != w:
            self.bad("reply-verdict", self.ent.qual,
                     "the reply says Spam: %s for a %s message" % (
                         w, {True: "spam", False: "ham",
                             None: "spam or ham"}[s]), st)


class IfSpamPolicy(VerdictPolicy):
    def init_mon(self):
        return ("checked", MSG, ())

    def on_yield(self, I, st, node, value):
        if value == ("const", "") or I.cur.fi.cls is None:
            return None
        if I.frames and I.frames[0].fi is not I.cur.fi:
            return None
        s = spam_of(st)
        if s is not True:
            self.bad("report-ifspam", self.ent.qual, "a report is produced "
                     "for a message that is not spam", st)
        return st.with_mon(st.mon[:2] + (st.mon[2] + ("y",),)[-1:]
                           if len(st.mon[2]) < 2 else st.mon)


def merge(ctx, pols, rules):
    issues = {}
    for p in pols:
        for k, v in p.issues.items():
            issues.setdefault(k, v)
    seen = {r for r, _ in issues}
    for r in rules:
        if r not in seen:
            ctx.ok(r, "all paths")
    for (r, c), m in issues.items():
        ctx.bad(r, c, m)


def commands(ctx):
    m = ctx.p.module("oa.server")
    ents = m.bindings.get("COMMANDS") if hasattr(m, "bindings") else None
    import ast
    out = {}
    for node in ast.walk(m.tree):
        if isinstance(node, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == "COMMANDS"
                for t in node.targets) and isinstance(node.value, ast.Dict):
            for k, v in zip(node.value.keys, node.value.values):
                if isinstance(k, ast.Constant):
                    for e in ctx.p.resolve_expr(m, v):
                        if e[0] == "class":
                            out[k.value] = e[1]
        elif isinstance(node, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == "COMMANDS"
                for t in node.targets) and isinstance(node.value, ast.Call):
            for kw in node.value.keywords:
                if kw.arg:
                    for e in ctx.p.resolve_expr(m, kw.value):
                        if e[0] == "class":
                            out[kw.arg] = e[1]
    return out


@check("P05", "Every output agrees on the one verdict")
def p05(ctx):
    p = ctx.p
    pols = []

    def go(factory, fi, **kw):
        h = {}

        def mk():
            h["p"] = factory()
            return h["p"]
        I, outs = run(mk, p, fi, **kw)
        ctx.saw(I)
        pols.append(h["p"])
        return h["p"], outs, I
    # 1. the daemon commands
    cmds = commands(ctx)
    n = 0
    verdicts = 0
    for name, c in sorted(cmds.items()):
        if not any(b.qual == "oa.protocol.check.CheckCommand"
                   for b in c.mro()):
            continue
        fi = c.find("handle")
        pol, outs, I = go(lambda: HandlePolicy(p, ctx, fi), fi, self_cls=c,
                          args={fi.params()[1]: MSG})
        verdicts += getattr(pol, "verdicts", 0)
        for k, v, s in outs:
            if k == "ret" and s.mon[0] != "checked":
                pol.bad("checked-first", name, "the message is not checked",
                        s)
        n += 1
    ctx.floor("checking daemon commands", n, 5)
    ctx.floor("verdict replies", verdicts, 5)
    # 2. report only for spam
    c = cmds.get("REPORT_IFSPAM")
    ctx.expect(c is not None, "report-ifspam", "REPORT_IFSPAM",
               "no command for REPORT_IFSPAM")
    if c is not None:
        fi = c.find("extra_details")
        pol, outs, I = go(lambda: IfSpamPolicy(p, ctx, fi), fi, self_cls=c,
                          args={fi.params()[1]: MSG})
        pos = [s for k, v, s in outs if k == "ret" and spam_of(s) is True]
        for k, v, s in outs:
            if k == "ret" and v[0] in ("call", "mcall", "pcall") and \
                    spam_of(s) is not True:
                pol.bad("report-ifspam", fi.qual, "a report is returned for "
                        "a message that is not spam", s)
        if not pos:
            pol.bad("report-ifspam", fi.qual, "no report is ever produced "
                    "for spam")
    # 3. tags
    fs = [f for f in p.all_funcs(nested=False)
          if f.module.name == "oa.rules.ruleset" and _stores_tag(f)]
    tags = 0
    done = set()
    entries = [f for f in p.cls("oa.rules.ruleset.RuleSet").methods.values()
               if f.name == "_interpolate"] or fs
    for fi in entries:
        pol, outs, I = go(lambda: VerdictPolicy(p, ctx, fi, hide=False)
                          if fi not in entries else
                          TagPolicy(p, ctx, fi), fi)
        tags += pol.tags
        done |= I.analysed
    for fi in fs:
        if fi.qual not in done:
            pol, outs, I = go(lambda: TagPolicy(p, ctx, fi), fi)
            tags += pol.tags
    ctx.floor("YESNO tag assignments", tags, 2)
    # 4. the adjusted message
    fi = p.func("oa.rules.ruleset.RuleSet.get_adjusted_message")
    pol, outs, I = go(lambda: VerdictPolicy(p, ctx, fi), fi)
    ctx.floor("per-verdict header lists applied", pol.mods, 2)
    ctx.floor("wrapping sites", pol.wraps, 1)
    # 5. the command line
    fi = p.func("scripts.match.main")
    pol, outs, I = go(lambda: VerdictPolicy(p, ctx, fi), fi)
    ctx.floor("command line reports", pol.reports, 2)
    # 6. any other function that compares the two
    analysed = set()
    for q in pols:
        analysed.add(q.ent.qual)
    extra = 0
    for f in p.all_funcs(nested=False):
        if f.module.name in ("oa.plugins.auto_learn_threshold",
                             "oa.plugins.bayes"):
            continue
        if "required_score" not in ast_consts(f) or f.qual in ctx.functions:
            continue
        if f.module.name == "oa.conf":
            continue
        go(lambda: VerdictPolicy(p, ctx, f), f)
        extra += 1
    ctx.note("other functions reading the threshold", extra)
    merge(ctx, pols, ["inclusive", "reply-verdict", "tag-verdict",
                      "header-verdict", "wrap-verdict", "report-ifspam",
                      "checked-first"])
    ctx.floor("score/threshold comparisons decided",
              sum(q.compares for q in pols), 4)


class TagPolicy(VerdictPolicy):
    def inline(self, I, fi):
        if fi.qual != self.ent.qual and (
                {"rules_checked", "rules_descriptions"} & names_in(fi)):
            return False
        return BasePolicy.inline(self, I, fi)


def ast_consts(f):
    import ast
    out = getattr(f, "_consts", None)
    if out is None:
        out = f._consts = {x.value for x in ast.walk(f.node)
                           if isinstance(x, ast.Constant) and
                           isinstance(x.value, str)}
    return out


def _stores_tag(f):
    return bool({"YESNO", "YESNOCAPS"} & ast_consts(f))
