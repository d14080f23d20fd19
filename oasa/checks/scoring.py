"""P03 score accounting, P04 rule fault isolation, P05 verdicts,
P10 rule attributes, P30 priority order."""
import ast

from ..absint import (FALSE, NONE, TRUE, Interp, Policy, contains, is_const,
                      show, show_cond)
from ..core import check
from ..model import AnalysisError, walk_func
from ..util import SEEDS, BasePolicy, mentions_attr, path_str, run

MSG = ("sym", "msg", "oa.message.Message")
STOP = "oa.errors.StopProcessing"
LOGM = ("error", "critical", "exception", "warning", "warn", "err")


def is_view_of(t, base_pred):
    return contains(t, base_pred)


def truth_of(v, st):
    """True / False / None (unknown) truthiness of a term on this path."""
    if is_const(v):
        return bool(v[1])
    if v[0] == "cond":
        k = st.facts.get(v[1])
        return None if k is None else (k == v[2])
    if v[0] in ("fmt", "fn", "cls", "bm"):
        return True
    k = st.facts.get(("truthy", v))
    if k is not None:
        return k
    if st.facts.get(("isnone", v)) is True:
        return False
    for f, p in st.facts.items():
        if p and f[0] == "eq" and v in f[1:]:
            o = f[2] if f[1] == v else f[1]
            if is_const(o):
                return bool(o[1])
    return None


class MatchPolicy(BasePolicy):
    """Typestate of RuleSet.match.

    monitor = (phase, rule, result-state, adds, recorded, described, logged,
               stopped, hooks)
    """
    opaque = frozenset([
        "oa.context.GlobalContext.hook_check_end",
        "oa.context.GlobalContext.hook_auto_learn",
        "oa.context.GlobalContext.err",
        "oa.message.Message.clear_matches"])

    def __init__(self, project, ctx):
        BasePolicy.__init__(self, project)
        self.ctx = ctx
        self.issues = {}
        self.match_calls = 0
        self.record_sites = set()
        self.add_sites = set()

    def bad(self, rule, construct, msg, st=None):
        if st is not None:
            msg += " (path %s)" % path_str(st)
        self.issues.setdefault((rule, construct), msg)

    def init_mon(self):
        return ("idle", None, None, 0, None, None, False, False, (), None)

    # events
    def on_call(self, I, st, node, callee, args, kw):
        m = st.mon
        if callee[0] == "meth" and callee[2] == "match" and args and \
                args[0] == MSG:
            self.match_calls += 1
            if m[7]:
                self.bad("stop-processing", "RuleSet.match",
                         "a rule is still evaluated after StopProcessing",
                         st)
            if m[0] == "done":
                self.finalize(I, st, "next rule")
            if m[8]:
                self.bad("end-hooks", "RuleSet.match", "a rule is evaluated "
                         "after the end-of-check hooks ran", st)
            R = callee[1]
            t = ("res", R)

            def mk(res):
                return st.with_mon(("done", R, res, 0, None, None, False,
                                    m[7], m[8], t))
            clean = {c: p for c, p in st.facts.items()
                     if not contains(c, lambda x: x == t)}
            return [
                ("ok", t, mk("ok").fork(facts=clean)),
                ("exc", ("exc", STOP, I.site(node)),
                 st.with_mon(("idle", None, "stop", 0, None, None, False,
                              True, m[8], None))),
                ("exc", ("exc", "SomeRuleError", I.site(node)), mk("error")),
            ]
        q = callee[1].qual if callee[0] in ("bm", "fn") else None
        nm = None
        if q in ("oa.context.GlobalContext.hook_check_end",
                 "oa.context.GlobalContext.hook_auto_learn"):
            nm = q.rsplit(".", 1)[1]
        elif callee[0] == "meth" and callee[2] in ("hook_check_end",
                                                   "hook_auto_learn"):
            nm = callee[2]
        if nm:
            if m[0] == "done":
                self.finalize(I, st, "hooks")
                m = ("idle",) + m[1:]
            vals = list(args) + list(kw.values())
            if MSG not in vals:
                self.bad("end-hooks", nm, "%s is not given the message" % nm,
                         st)
            return [("ok", ("const", False), st.with_mon(
                m[:8] + ((m[8] + (nm,))[-6:],) + m[9:]))]
        if callee[0] == "meth" and callee[2] in LOGM or \
                q == "oa.context.GlobalContext.err":
            if m[0] == "done" and not m[6]:
                s2 = st.with_mon(m[:6] + (True,) + m[7:])
                return [("ok", NONE, s2)]
            return [("ok", NONE, st)]
        return None

    def on_attr_store(self, I, st, node, base, name, value):
        m = st.mon
        if name == "score" and base == MSG:
            self.add_sites.add(I.cur.fi.qual)
            if m[0] != "done":
                self.bad("score-write", I.cur.fi.qual,
                         "the message score is written outside the "
                         "processing of a rule at %s" % I.where(node), st)
                return None
            R = m[1]
            want = ("attr", R, "score")
            good = value[0] == "bin" and value[1] == "Add" and (
                (value[2] == want and _score_of(value[3])) or
                (value[3] == want and _score_of(value[2])))
            if not good:
                self.bad("score-write", I.cur.fi.qual,
                         "score becomes %s instead of score + the matching "
                         "rule's score" % show(value), st)
            s2 = st.with_mon(m[:3] + (min(m[3] + 1, 2),) + m[4:])
            # keep the score abstract: it is only ever incremented
            return s2
        return None

    def on_item_store(self, I, st, node, base, key, value):
        m = st.mon
        if base == ("attr", MSG, "rules_checked"):
            self.record_sites.add(I.cur.fi.qual)
            if m[0] != "done":
                self.bad("record", I.cur.fi.qual,
                         "a rule result is recorded outside the processing "
                         "of a rule", st)
                return None
            if not _same_rule(key, m[1]):
                self.bad("record", I.cur.fi.qual, "the result is recorded "
                         "under %s which is not the name of the rule that "
                         "was matched" % show(key), st)
            if m[4] is not None:
                self.bad("record", I.cur.fi.qual,
                         "a result is recorded twice for one rule", st)
            return st.with_mon(m[:4] + (value,) + m[5:])
        if base == ("attr", MSG, "rules_descriptions"):
            return st.with_mon(m[:5] + (True,) + m[6:])
        return None

    def on_iter_end(self, I, st, node, kind):
        m = st.mon
        if self.rule_loop(I, node):
            if kind == "brk":
                self.bad("stop-processing", I.cur.fi.qual, "the rule loop is "
                         "left early without StopProcessing", st)
            if m[0] == "done":
                self.finalize(I, st, "loop")
                return st.with_mon(("idle", None, None, 0, None, None, False,
                                    m[7], m[8], None))
            elif not m[7]:
                self.bad("every-rule", I.cur.fi.qual, "an iteration of the "
                         "rule loop skips its rule", st)
        return None

    def on_loop(self, I, st, node, it):
        if it is None or not self.rule_loop(I, node):
            return None
        self.loops = getattr(self, "loops", 0) + 1
        me = ("attr", ("sym", "self", "oa.rules.ruleset.RuleSet"), "checked")
        if not contains(it, lambda x: x == me) and \
                not contains(it, lambda x: x[0] == "obj"):
            self.bad("every-rule", I.cur.fi.qual,
                     "the rule loop iterates %s, not the rules to be checked"
                     % show(it))
        if contains(it, lambda x: x[0] in ("slice",)) or contains(
                it, lambda x: x[0] == "pcall" and x[1] in (
                    "filter", "itertools.islice", "reversed")):
            self.bad("every-rule", I.cur.fi.qual, "the rule loop does not "
                     "cover all checked rules in order: %s" % show(it))
        return None

    def rule_loop(self, I, node):
        """Does this loop (syntactically, through helpers) evaluate rules?"""
        key = id(node)
        if not hasattr(self, "_rl"):
            self._rl = {}
            self._mentions = None
        if key not in self._rl:
            hit = False
            names = {"match"}
            # helper names in the same class that mention .match(
            cls = I.cur.fi.cls
            if cls is not None:
                for f in cls.methods.values():
                    if f.name != "match" and any(
                            isinstance(x, ast.Attribute) and x.attr == "match"
                            for x in ast.walk(f.node)):
                        names.add(f.name)
            for x in ast.walk(node):
                if isinstance(x, ast.Attribute) and x.attr in names:
                    hit = True
            self._rl[key] = hit
        return self._rl[key]

    def finalize(self, I, st, where):
        m = st.mon
        _, R, res, adds, rec, desc, logged, stopped, hooks, t = m
        q = "RuleSet.match"
        if res == "error":
            if adds:
                self.bad("fault-isolation", q,
                         "a rule that failed still changes the score", st)
            if rec is None:
                self.bad("fault-isolation", q, "a rule that failed gets no "
                         "recorded result", st)
            elif truth_of(rec, st) is not False:
                self.bad("fault-isolation", q, "a rule that failed is "
                         "recorded as %s" % show(rec), st)
            if not logged:
                self.bad("fault-isolation", q, "the failure of a rule is not "
                         "logged", st)
            return
        tr = truth_of(t, st)
        if any(c[0] == "isinst" and c[1] == t and p
               for c, p in st.facts.items()):
            tr = True
        if rec is None:
            self.bad("record", q, "no result is recorded for an evaluated "
                     "rule", st)
            return
        rt = True if rec == t and tr is True else truth_of(rec, st)
        if rec == t:
            rt = tr
        if tr is None:
            # the code never tested the result: adds must not depend on it
            self.bad("score-iff-match", q, "the score is%s changed without "
                     "regard to the rule's result" % ("" if adds else " not"),
                     st)
            return
        if rt is None or rt != tr:
            self.bad("record", q, "result %s is recorded as %s" % (
                "match" if tr else "no match", show(rec)), st)
        if tr and adds != 1:
            self.bad("score-iff-match", q, "a matching rule changes the "
                     "score %s" % ("more than once" if adds else "not at all"),
                     st)
        if not tr and adds:
            self.bad("score-iff-match", q,
                     "a rule that did not match changes the score", st)
        if tr and not desc:
            self.bad("describe-match", q, "a matching rule gets no "
                     "description recorded", st)


def _score_of(t):
    return t == ("attr", MSG, "score") or t[0] == "loopval" or \
        t[0] == "join" or (t[0] == "bin" and (_score_of(t[2]) or
                                              _score_of(t[3])))


def _same_rule(key, R):
    if key == ("attr", R, "name"):
        return True
    if key[0] == "unpack" and R[0] == "unpack" and key[1] == R[1] and \
            key[2] == 0 and R[2] == 1:
        return True
    if R[0] == "item" and R[2] == key:
        return True
    if R[0] in ("call", "mcall") and contains(R, lambda x: x == key):
        return True
    if key[0] == "item" and R[0] == "item" and key[1] == R[1]:
        return key[2] == ("const", 0) and R[2] == ("const", 1)
    return False


def analyse_match(ctx):
    fi = ctx.p.func("oa.rules.ruleset.RuleSet.match")
    holder = {}

    def mk():
        holder["p"] = MatchPolicy(ctx.p, ctx)
        return holder["p"]
    I, outs = run(mk, ctx.p, fi, args={fi.params()[1]: MSG})
    pol = holder["p"]
    for k, v, s in outs:
        if k == "ret" and s.mon[0] == "done":
            pol.finalize(I, s, "exit")
        if k == "ret":
            h = s.mon[8]
            for nm in ("hook_check_end", "hook_auto_learn"):
                if h.count(nm) != 1:
                    pol.bad("end-hooks", nm, "%s runs %d times on a path "
                            "through the check" % (nm, h.count(nm)), s)
            if h and h[0] != "hook_check_end" and "hook_check_end" in h:
                pol.bad("end-hooks", "order", "auto-learning runs before the "
                        "end-of-check hook", s)
        if k == "exc" and v[1] == STOP:
            pol.bad("stop-processing", "RuleSet.match",
                    "StopProcessing escapes from the check", s)
        elif k == "exc" and v[1] == "SomeRuleError":
            pol.bad("fault-isolation", "RuleSet.match",
                    "an error raised by one rule escapes from the check", s)
    ctx.saw(I)
    ctx.floor("rule evaluations analysed", pol.match_calls, 1)
    ctx.floor("paths through the check", len(outs), 2)
    return pol, I, outs


P03_RULES = {"score-write", "record", "score-iff-match"}
P04_RULES = {"fault-isolation", "stop-processing", "end-hooks", "every-rule"}


def report(ctx, pol, rules):
    got = {r for (r, c) in pol.issues}
    for r in sorted(rules):
        if r not in got:
            ctx.ok(r, "RuleSet.match")
    for (r, c), msg in pol.issues.items():
        if r in rules:
            ctx.bad(r, c, msg)


@check("P03", "The score is the sum of the matching rules, each counted once")
def p03(ctx):
    pol, I, outs = analyse_match(ctx)
    report(ctx, pol, P03_RULES)
    allowed = set(I.analysed)
    sc = shortcircuit(ctx)
    allowed |= sc
    # who may write a message score
    n = 0
    for f in ctx.p.all_funcs():
        for node in walk_func(f):
            tgts = []
            if isinstance(node, ast.Assign):
                tgts = [(t, node) for t in node.targets]
            elif isinstance(node, (ast.AugAssign, ast.AnnAssign)):
                tgts = [(node.target, node)]
            elif isinstance(node, ast.Call) and \
                    isinstance(node.func, ast.Name) and \
                    node.func.id == "setattr" and len(node.args) == 3 and \
                    isinstance(node.args[1], ast.Constant) and \
                    node.args[1].value == "score":
                tgts = [(ast.Attribute(node.args[0], "score", ast.Store()),
                         node)]
            flat = []
            for t, nd in tgts:
                if isinstance(t, (ast.Tuple, ast.List)):
                    flat.extend((e, nd) for e in t.elts)
                else:
                    flat.append((t, nd))
            for t, nd in flat:
                if not (isinstance(t, ast.Attribute) and t.attr == "score"):
                    continue
                n += 1
                base = ast.unparse(t.value)
                selfname = f.params()[0] if f.params() else None
                cls = f.cls
                if base == selfname and cls is not None and any(
                        c.qual == "oa.rules.base.BaseRule" for c in cls.mro()):
                    ctx.expect(f.name in ("__init__", "preprocess") or
                               _called_only_from(ctx.p, f, ("__init__",
                                                            "preprocess")),
                               "rule-score-stable", f.qual,
                               "a rule changes its own score outside loading")
                    continue
                if base == selfname and cls is not None and any(
                        c.qual == "oa.message.Message" for c in cls.mro()):
                    v = nd.value
                    ok = isinstance(nd, ast.Assign) and \
                        isinstance(v, ast.Constant) and v.value == 0
                    ctx.expect(ok, "score-reset", f.qual, "the message sets "
                               "its own score to something other than 0")
                    continue
                if f.qual in allowed:
                    ctx.ok("score-writer", f.qual)
                    continue
                if f.module.name == "oa.plugins.awl":
                    ctx.ok("score-writer", f.qual)
                    continue
                ctx.bad("score-writer", f.qual, "%s writes %s.score: only the "
                        "rule loop, short-circuiting and the AWL may change "
                        "a score" % (f.where, base))
    ctx.floor("score write sites", n, 5)
    # a score is reset together with the results it sums
    ini = ctx.p.func("oa.message.Message.clear_matches")
    attrs = {t.attr for x in walk_func(ini) if isinstance(x, ast.Assign)
             for t in x.targets if isinstance(t, ast.Attribute)}
    cleared = {x.func.value.attr for x in walk_func(ini)
               if isinstance(x, ast.Call) and
               isinstance(x.func, ast.Attribute) and x.func.attr == "clear"
               and isinstance(x.func.value, ast.Attribute)}
    for c in ("score", "rules_checked"):
        ctx.expect(c in attrs | cleared, "score-reset", "clear_matches:" + c,
                   "clear_matches leaves %s behind" % c)


def _called_only_from(p, f, names):
    """f is a helper only called (by name) from methods called ``names`` of
    the same class."""
    if f.cls is None:
        return False
    callers = set()
    for g in p.funcs.values():
        for x in walk_func(g):
            if isinstance(x, ast.Attribute) and x.attr == f.name:
                callers.add(g.name)
    return bool(callers) and callers <= set(names)


class ScPolicy(BasePolicy):
    def __init__(self, project):
        BasePolicy.__init__(self, project)
        self.bad = {}

    def init_mon(self):
        return ("", (), None)      # result-state, adds, record

    def on_call(self, I, st, node, callee, args, kw):
        if callee[0] == "meth" and callee[2] == "match_func" or \
                callee[0] == "attr" and callee[2] == "match_func":
            t = ("res", "orig")
            return [("ok", t, st.with_mon(("called",) + st.mon[1:]))]
        return None

    def on_attr_store(self, I, st, node, base, name, value):
        if name == "score" and base == MSG:
            return st.with_mon((st.mon[0], (st.mon[1] + (value,))[-5:],
                                st.mon[2]))

    def on_item_store(self, I, st, node, base, key, value):
        if base == ("attr", MSG, "rules_checked"):
            return st.with_mon(st.mon[:2] + ((key, value),))


def _summands(t):
    if t[0] == "bin" and t[1] == "Add":
        return _summands(t[2]) + _summands(t[3])
    return [t]


class WrapPolicy(BasePolicy):
    """Collects what short-circuiting installs as a rule's match function."""

    def __init__(self, project):
        BasePolicy.__init__(self, project)
        self.got = []

    def on_attr_store(self, I, st, node, base, name, value):
        if name == "match":
            if len(self.got) < 12:
                self.got.append((base, value, st))
            return st


def _opt(t, key):
    return t[0] == "item" and t[2] == ("const", key) or (
        t[0] in ("call", "mcall") and contains(
            t, lambda x: x == ("const", key)))


def shortcircuit(ctx):
    """A short-circuited rule counts itself once, plus exactly the configured
    extra score of its type, and stops the check."""
    hold = {}

    def mk():
        hold["p"] = WrapPolicy(ctx.p)
        return hold["p"]
    start = ctx.p.func("oa.plugins.short_circuit.ShortCircuit."
                       "finish_parsing_end")
    I, outs = run(mk, ctx.p, start)
    ctx.saw(I)
    allowed = set(I.analysed)
    got = hold["p"].got
    ctx.floor("short-circuit installations", len(got), 1)
    seen = set()
    for rule, wrapped, st0 in got:
        if wrapped[0] == "obj":
            c = ctx.p.classes.get(wrapped[2])
            fi = c.find("__call__") if c else None
            pre = {fi.params()[0]: wrapped} if fi else None
        elif wrapped[0] == "clo":
            fi = wrapped[1]
            pre = {}
        else:
            fi = None
        if fi is None:
            raise AnalysisError("a short-circuited rule is wrapped by %s"
                                % show(wrapped))
        allowed.add(fi.qual)
        seen |= _sc_call(ctx, fi, pre, rule, st0, allowed, wrapped)
    ctx.floor("short-circuit outcomes", len(seen & {"miss", "spam", "ham",
                                                    "other"}), 4)
    return allowed


class ScCall(ScPolicy):
    def __init__(self, project, orig):
        ScPolicy.__init__(self, project)
        self.orig = orig

    def on_call(self, I, st, node, callee, args, kw):
        hit = callee[0] in ("meth", "attr") and callee[2] in (
            "match_func", "match") and len(args) == 1
        if not hit and args == [MSG] and callee[0] in ("attr", "call",
                                                       "item"):
            hit = True
        if hit:
            t = ("res", "orig")
            return [("ok", t, st.with_mon(("called",) + st.mon[1:]))]
        return None


def _sc_call(ctx, fi, pre, rule, st0, allowed, wrapped):
    res = ("res", "orig")
    msgp = [q for q in fi.params() if q not in (pre or {})][0]
    args = dict(pre or {})
    args[msgp] = MSG
    extra = None
    if wrapped[0] == "clo":
        extra = {k: v for k, v in st0.env.items() if k not in args}
    I, outs = run(lambda: ScCall(ctx.p, rule), ctx.p, fi, args=args,
                  extra=extra, heap=dict(st0.heap), facts=dict(st0.facts))
    ctx.saw(I)
    allowed |= set(I.analysed)
    seen = set()
    for k, v, s in outs:
        tr = truth_of(res, s)
        adds = s.mon[1]
        if tr is False:
            ctx.expect(k == "ret" and truth_of(v, s) is False,
                       "shortcircuit", "miss-result",
                       "a short-circuited rule that does not match is "
                       "reported as %s %s" % (k, show(v)))
            ctx.expect(not adds and s.mon[2] is None, "shortcircuit",
                       "miss-effects", "a short-circuited rule that does not "
                       "match changes the message")
            seen.add("miss")
            continue
        if tr is None:
            ctx.bad("shortcircuit", "untested", "the wrapped rule's result "
                    "is not tested")
            continue
        ctx.expect(k == "exc" and v[1] == STOP, "shortcircuit", "stops",
                   "a matching short-circuited rule does not stop the check")
        stype = None
        neg = set()
        for c, p in s.facts.items():
            if c[0] == "eq" and any(x in (("const", "spam"), ("const", "ham"),
                                          ("const", "on"))
                                    for x in c[1:]):
                o = c[2] if is_const(c[2]) else c[1]
                if p:
                    stype = o[1]
                else:
                    neg.add(o[1])
        final = s.heap.get((MSG, "attr", "score"), ("attr", MSG, "score"))
        got = [t for t in _summands(final) if t != ("attr", MSG, "score")]
        own = [t for t in got if t == ("attr", rule, "score")]
        more = [t for t in got if t != ("attr", rule, "score") and
                t != ("const", 0)]
        want = {"spam": "shortcircuit_spam_score",
                "ham": "shortcircuit_ham_score"}.get(stype)
        seen.add(stype if want else "other")
        good = len(own) == 1 and final != ("attr", MSG, "score")
        if want:
            good = good and len(more) == 1 and _opt(more[0], want)
        else:
            good = good and not more
        ctx.expect(good, "shortcircuit", "score-%s" % stype,
                   "a short-circuited rule of type %s makes the score %s"
                   % (stype or "on", show(final)))
        rec = s.mon[2]
        ctx.expect(rec is not None and rec[0] == ("attr", rule, "name") and
                   truth_of(rec[1], s) is True, "shortcircuit",
                   "record-%s" % stype, "the short-circuited rule is not "
                   "recorded as matched")
    return seen


class EvalPolicy(BasePolicy):
    def on_call(self, I, st, node, callee, args, kw):
        if callee[0] in ("attr", "meth") and (
                callee[2] if callee[0] == "meth" else callee[2]) \
                == "eval_rule":
            return [("ok", ("res", "eval"), st),
                    ("exc", ("exc", "SomeRuleError", I.site(node)), st)]
        return None


@check("P04", "One failing rule never stops the others or the end of the "
       "check")
def p04(ctx):
    pol, I, outs = analyse_match(ctx)
    report(ctx, pol, P04_RULES)
    # eval rules contain their own failures
    fi = ctx.p.func("oa.rules.eval_.EvalRule.match")
    I, outs = run(lambda: EvalPolicy(ctx.p), ctx.p, fi,
                  args={fi.params()[1]: MSG})
    ctx.saw(I)
    n = 0
    for k, v, s in outs:
        if k == "exc":
            ctx.bad("eval-fault", "EvalRule.match", "an error raised by an "
                    "eval function escapes (%s)" % (v[1],))
        n += 1
        if k == "ret" and v != ("res", "eval"):
            ctx.expect(truth_of(v, s) is False, "eval-fault",
                       "EvalRule.match result", "a failed eval function is "
                       "reported as %s" % show(v))
        elif k == "ret":
            ctx.ok("eval-fault", "EvalRule.match pass-through")
    ctx.floor("eval rule outcomes", n, 2)
    ctx.expect(any(v == ("res", "eval") for k, v, s in outs), "eval-result",
               "EvalRule.match", "the eval function's result is not returned")
    # the hooks that end the check visit every plugin (see also P28)
