"""P34: what is auto-learned; P15: learning and forgetting."""
import ast
import itertools

from ..absint import NONE, contains, is_const, show
from ..core import check
from ..model import AnalysisError
from ..util import BasePolicy, mkdict, mkobj, path_str, run
from .protocol import meth_name
from .scoring import MSG

LEARN = {"plugin_report": "spam", "plugin_revoke": "ham"}
OPTS = {"bayes_auto_learn_threshold_spam": "spam threshold",
        "bayes_auto_learn_threshold_nonspam": "ham threshold",
        "bayes_auto_learn_on_error": "only on error"}
SCORE = ("sym", "SCORE", None)
REQ = ("sym", "REQUIRED", None)


def opt(k):
    return ("sym", "OPTION " + k, None)


BAYES = ("sym", "bayes", "oa.plugins.bayes.BayesPlugin")
SYMS = {SCORE, REQ, BAYES} | {opt(k) for k in OPTS}


class Auto(BasePolicy):
    """Monitor: what is given to the classifier, in order.  Values kept with
    the message are followed through set_local/get_local."""
    mods = ("oa.plugins.auto_learn_threshold",)

    def __init__(self, p, mod):
        BasePolicy.__init__(self, p)
        self.mod = mod
        self.learned = 0

    def init_mon(self):
        return ((), frozenset())

    def inline(self, I, fi):
        return fi.module.name == self.mod

    def on_branch(self, I, st, node, c, pol):
        """Comparisons of what was left open stay with the path."""
        if contains(c, lambda x: x in SYMS):
            return st.with_mon((st.mon[0], st.mon[1] | {(c, pol)}))

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        a = [x for x in args]
        if nm in ("set_local", "get_local") and len(a) >= 2 and \
                is_const(a[-2 if nm == "set_local" else -1]):
            if nm == "set_local":
                key = (("local", "msg"), "item", a[-2])
                return [("ok", NONE, st.store(key, a[-1]))]
            v = st.heap.get((("local", "msg"), "item", a[-1]))
            if v is None:
                return [("exc", ("exc", "KeyError", I.site(node)), st)]
            return [("ok", v, st)]
        if nm in ("get_global", "__getitem__") and a and is_const(a[-1]) and \
                a[-1][1] in OPTS:
            return [("ok", opt(a[-1][1]), st)]
        if nm in LEARN or nm in ("learn_message", "learn", "hook_report",
                                 "hook_revoke"):
            self.learned += 1
            return [("ok", NONE, st.with_mon((st.mon[0] + (
                (nm,) + tuple(a),), st.mon[1])))]
        return None


# scenario: name, rules [(name, score, type, flags, matched)]
def R(score, typ="header", flags=(), hit=True, name=None):
    return (name, score, typ, tuple(flags), hit)


ENOUGH = (R(4), R(8, "body"))
SCENES = (
    ("header and body rules", ENOUGH),
    ("uri rules count as body", (R(4), R(8, "uri"))),
    ("meta rules count as both", (R(4, "meta"),)),
    ("net meta rules count as neither", (R(4), R(2, "body"),
                                         R(16, "meta", ["net"]))),
    ("no header rules", (R(16, "body"),)),
    ("no body rules", (R(16),)),
    ("few header points", (R(2.5), R(16, "body"))),
    ("few body points", (R(16), R(2.5, "body"))),
    ("just enough points", (R(3), R(3, "body"))),
    ("rules that did not match", (R(1), R(16, hit=False),
                                  R(32, "body", hit=False))),
    ("rules that did not match, else enough",
     (R(4), R(8, "body"), R(16, hit=False), R(32, "body", hit=False))),
    ("rules not checked", (R(4), R(8, "body"), R(16, hit=None))),
    ("noautolearn rules", (R(1), R(16, flags=["noautolearn"]),
                           R(32, "body", ["noautolearn"]))),
    ("noautolearn rules, else enough",
     ENOUGH + (R(16, flags=["net", "noautolearn"]),)),
    ("userconf rules", (R(1), R(16, flags=["userconf"]),
                        R(32, "body", ["userconf", "nice"]))),
    ("userconf rules, else enough", ENOUGH + (R(64, "body", ["userconf"]),)),
    ("learn rules", ENOUGH + (R(0.5, flags=["learn"]),)),
    ("learn rules say ham", ENOUGH + (R(-1.5, "body", ["learn"]),)),
    ("learn rules say ham a bit", ENOUGH + (R(-1, "body", ["learn"]),)),
    ("learn rules say spam", ENOUGH + (R(1.5, "body", ["learn"]),)),
    ("learn rules say spam a bit", ENOUGH + (R(1, "body", ["learn"]),)),
    ("learn rules say spam together",
     ENOUGH + (R(0.75, "body", ["learn"]), R(0.75, "header", ["learn"]))),
    ("forced", (R(16, flags=["autolearn_force"]),)),
    ("forced, then others", (R(16, flags=["autolearn_force"]), R(1, "body"))),
    ("forced by a rule that did not match",
     (R(16), R(1, "body", ["autolearn_force"], hit=False))),
    ("forced by a rule left out",
     (R(16), R(1, "body", ["autolearn_force", "noautolearn"]))),
    ("forced, negative", (R(-4), R(-2, "body", ["autolearn_force"]))),
    ("negative rules", (R(-4), R(-8, "body"))),
    ("no rules", ()),
    ("classifier says spam", ENOUGH + (R(4, "body", name="BAYES_99"),)),
    ("classifier says ham", ENOUGH + (R(4, "body", name="BAYES_00"),)),
    ("classifier rule did not match",
     ENOUGH + (R(4, "body", name="BAYES_99", hit=False),
               R(4, "body", name="BAYES_00", hit=False))),
)
LEAVE_OUT = {"noautolearn", "userconf"}


def oracle(rules):
    d = dict(points=0, header=0, body=0, learned=0, forced=False, agrees=None)
    for i, (name, score, typ, flags, hit) in enumerate(rules):
        if not hit:
            continue
        if name == "BAYES_99":
            d["agrees"] = "spam"
        if name == "BAYES_00":
            d["agrees"] = "ham"
        if LEAVE_OUT & set(flags):
            continue
        if typ == "header" or typ == "meta" and "net" not in flags:
            d["header"] += score
        if typ in ("body", "uri") or typ == "meta" and "net" not in flags:
            d["body"] += score
        if "learn" in flags:
            d["learned"] += score
            continue
        d["forced"] = d["forced"] or "autolearn_force" in flags
        d["points"] += score
    return d


def order(facts, a, b):
    """What the path knows of a < b, a <= b: pairs (lt, le)."""
    ab = facts.get(("lt", a, b))
    ba = facts.get(("lt", b, a))
    lt, le = None, None
    if ab is not None:
        lt = ab
        le = True if ab else le
    if ba is not None:
        le = not ba
        if ba:
            lt = False
    return lt, le


def same(c, t):
    return is_const(c) and isinstance(c[1], (int, float)) and \
        abs(c[1] - t) < 1e-9


def num(facts, points, other):
    """Facts between the constant and a symbol, whatever its spelling."""
    lt = le = None
    for c, pol in facts.items():
        if c[0] != "lt":
            continue
        if c[2] == other and same(c[1], points):
            lt = pol
            le = True if pol else le
        if c[1] == other and same(c[2], points):
            le = not pol
            lt = False if pol else lt
    return lt, le


def scene(ctx, cls, f, name, rules, bayes):
    p = ctx.p
    heap = {}
    checked, results = {}, {}
    for i, (nm, score, typ, flags, hit) in enumerate(rules):
        nm = nm or "RULE%d" % i
        fl = ("tuple", tuple(("const", x) for x in flags)) if flags else NONE
        if flags:
            from .relays import mklist
            fl = mklist(heap, [("const", x) for x in flags], "flags")
        checked[nm] = mkobj(heap, "oa.rules.base.BaseRule", {
            "score": score, "rule_type": typ, "tflags": fl, "name": nm},
            "rule")
        if hit is not None:
            results[nm] = ("const", hit)
    rs = ("sym", "ruleset", "oa.rules.ruleset.RuleSet")
    self_ = ("sym", "self", cls.qual)
    ctxt = ("sym", "ctxt", "oa.context.GlobalContext")
    heap[(rs, "attr", "checked")] = mkdict(heap, checked, "checked")
    heap[(MSG, "attr", "rules_checked")] = mkdict(heap, results, "results")
    heap[(MSG, "attr", "score")] = SCORE
    heap[(self_, "attr", "ctxt")] = ctxt
    heap[(rs, "attr", "ctxt")] = ctxt
    heap[(MSG, "attr", "ctxt")] = ctxt
    conf = mkobj(heap, None, {}, "conf")
    heap[(ctxt, "attr", "conf")] = conf
    heap[(conf, "item", ("const", "required_score"))] = REQ
    heap[(ctxt, "attr", "plugins")] = mkdict(
        heap, {"BayesPlugin": BAYES} if bayes else {}, "plugins")
    for k in OPTS:
        heap[(self_, "item", ("const", k))] = opt(k)
    ps = f.params()
    hold = {}

    def mk():
        hold["p"] = Auto(p, cls.module.name)
        return hold["p"]
    I, outs = run(mk, p, f, args=dict(zip(ps, (self_, rs, MSG))),
                  self_cls=cls, heap=heap)
    ctx.saw(I)
    d = oracle(rules)
    spam_t = opt("bayes_auto_learn_threshold_spam")
    ham_t = opt("bayes_auto_learn_threshold_nonspam")
    onerr = ("truthy", opt("bayes_auto_learn_on_error"))
    low = -99 if d["forced"] else 3
    ok_spam = bayes and d["header"] >= low and d["body"] >= low and \
        d["learned"] >= -1
    ok_ham = bayes and d["learned"] <= 1
    seen = {"spam": 0, "ham": 0}
    for k, v, s in outs:
        if k == "exc":
            ctx.bad("auto-learn", name, "deciding about a message fails with "
                    "%s" % (v[1:2],))
            continue
        evs, facts = s.mon
        if any((c, not pol) in facts for c, pol in facts) or \
                (("isnone", BAYES), True) in facts or \
                (("truthy", BAYES), False) in facts:
            continue        # no such path
        facts = dict(facts)
        # facts of the path
        plt, ple = num(facts, d["points"], spam_t)       # points < spam_t
        hlt, hle = num(facts, d["points"], ham_t)
        rlt, rle = order(facts, SCORE, REQ)
        err = facts.get(onerr)
        where = " (path %s)" % path_str(s)
        for e in evs:
            if not ctx.expect(e[0] in LEARN and e[-1] == MSG and
                              len(evs) == 1, "auto-learn", name + ":call",
                              "the classifier gets %s instead of this "
                              "message once" % [x[0] + str(tuple(
                                  show(y) for y in x[1:])) for x in evs] +
                              where):
                continue
            what = LEARN[e[0]]
            seen[what] += 1
            if what == "spam":
                conds = [
                    (plt is False, "threshold", "the points (%s here) are "
                     "not known to reach the spam threshold" % d["points"]),
                    (rlt is False, "verdict", "the check's own verdict is "
                     "not known to be spam"),
                    (d["header"] >= low, "header-evidence", "header rules "
                     "give only %s points" % d["header"]),
                    (d["body"] >= low, "body-evidence", "body rules give "
                     "only %s points" % d["body"]),
                    (d["learned"] >= -1, "classifier-opinion", "the "
                     "classifier's rules say ham (%s)" % d["learned"]),
                    (err is False or d["agrees"] != "spam", "only-errors",
                     "the classifier agrees and only errors are learned")]
            else:
                conds = [
                    (hlt is True or hle is True, "threshold", "the points "
                     "(%s here) are not known to be at most the ham "
                     "threshold" % d["points"]),
                    (rlt is True, "verdict", "the check's own verdict is "
                     "not known to be ham"),
                    (d["learned"] <= 1, "classifier-opinion", "the "
                     "classifier's rules say spam (%s)" % d["learned"]),
                    (err is False or d["agrees"] != "ham", "only-errors",
                     "the classifier agrees and only errors are learned")]
            for c, rule, m in conds:
                ctx.expect(c, rule, "%s:%s" % (name, what), "the message is "
                           "learned as %s although %s%s" % (what, m, where))
        if not evs and bayes:
            # nothing learned: some condition must be missing
            why_s = not ok_spam or plt is not False and plt is not None or \
                plt is None and hlt is None or \
                rlt is True or rle is True or \
                err is True and d["agrees"] == "spam"
            why_h = not ok_ham or hlt is False or \
                rlt is False or err is True and d["agrees"] == "ham"
            if plt is False:
                ctx.expect(why_s, "learns", name + ":spam", "a clear spam "
                           "message is not learned" + where)
            elif hlt is True:
                ctx.expect(why_h, "learns", name + ":ham", "a clear ham "
                           "message is not learned" + where)
    for what, okk in (("spam", ok_spam), ("ham", ok_ham)):
        ctx.expect(bool(seen[what]) == bool(okk) or okk and seen[what],
                   "learns", "%s:%s:any" % (name, what),
                   "%s is %s learned in this case" % (
                       what, "never" if okk else "sometimes"))
    return seen


@check("P34", "auto-learning")
def p34(ctx):
    p = ctx.p
    n = 0
    k = 0
    for c in p.classes.values():
        f = c.funcs.get("auto_learn_discriminator") if hasattr(c, "funcs") \
            else None
        f = f or c.find("auto_learn_discriminator")
        if f is None or f.cls is not c or c.name == "BasePlugin":
            continue
        k += 1
        for name, rules in SCENES:
            s = scene(ctx, c, f, name, rules, True)
            n += sum(s.values())
        scene(ctx, c, f, "no classifier", ENOUGH, False)
    ctx.floor("auto-learning plugins", k, 1)
    ctx.floor("messages learned", n, 30)


# ---- P15
STORE = ("sym", "store", None)
MSGID = ("obj", "MSGID", "str")
OWNID = ("obj", "the id in the message", "str")
TOK = (("sym", "TOKEN1", None), ("sym", "TOKEN2", None))
READS = {"seen_get", "nspam_nham_get", "tok_get", "tok_get_all", "cleanup",
         "sync_due", "expiry_due", "get_magic_re", "untie_db",
         "tie_db_readonly", "tie_db_writeable"}
CHANGES = {"nspam_nham_change": ("spam", "ham"),
           "multi_tok_count_change": ("spam", "ham", "tokens", "msgatime"),
           "seen_put": ("msgid", "flag"), "seen_delete": ("msgid",)}


class Learn(BasePolicy):
    """Monitor: (changes made to the store in order, the seen entry)."""
    known_exc = True

    def __init__(self, p, mod, seen, tied, gens):
        BasePolicy.__init__(self, p)
        self.mod = mod
        self.seen = seen
        self.tied = tied
        self.gens = gens
        self.sources = set()

    def init_mon(self):
        return ((), self.seen)

    def inline(self, I, fi):
        return fi.module.name == self.mod and fi not in self.gens

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        if callee[0] in ("bm", "fn") and callee[1] in self.gens:
            self.sources.add(callee[1])
            msg = args[-1] if args else None
            if msg != MSG:
                return None
            heap = {}
            from .relays import mklist
            o = mklist(heap, [("tuple", (t, ("sym", "raw", None)))
                              for t in TOK], "tokens")
            for k, v in heap.items():
                st = st.store(k, v)
            return [("ok", o, st)]
        if callee[0] in ("meth", "attr") and callee[1] == STORE:
            evs, seen = st.mon
            if nm == "seen_get":
                if list(args) + list(kw.values()) != [MSGID]:
                    return [("ok", ("unk", I.site(node)), st.with_mon((
                        evs + (("seen_get",) + tuple(args),), seen)))]
                return [("ok", seen, st)]
            if nm in ("tie_db_readonly", "tie_db_writeable"):
                return [("ok", ("const", self.tied), st)]
            if nm == "nspam_nham_get":
                return [("ok", ("tuple", (("sym", "NSPAM", None),
                                          ("sym", "NHAM", None))), st)]
            if nm in READS:
                return [("ok", NONE, st)]
            names = CHANGES.get(nm)
            if names is None:
                return [("ok", NONE, st.with_mon((
                    evs + (("other", nm),), seen)))]
            d = dict(zip(names, args))
            d.update(kw)
            ev = (nm,) + tuple(self.tokens(st, d.get(x)) if x == "tokens"
                               else d.get(x) for x in names
                               if x != "msgatime")
            if nm == "seen_put":
                seen = d.get("flag")
            if nm == "seen_delete":
                seen = NONE
            return [("ok", NONE, st.with_mon((evs + (ev,), seen)))]
        return None

    @staticmethod
    def tokens(st, t):
        """The tokens of a collection, in a fixed order."""
        if t is None:
            return None
        if t[0] == "tuple":
            els = t[1]
        elif t[0] == "obj":
            ex = st.heap.get((t, "exact"))
            els = ex[1] if ex is not None else None
            if els is None and t[2] in ("set", "gen", "dict"):
                els = st.heap.get((t, "elems"))
        elif t[0] == "const" and isinstance(t[1], (list, tuple, frozenset)):
            els = tuple(("const", x) for x in t[1])
        else:
            els = None
        if els is None:
            return ("unknown", t)
        return tuple(sorted(els, key=repr))


def effects(spam, sign):
    """The changes for one message, whatever their order."""
    a, b = (sign, 0) if spam else (0, sign)
    return [("nspam_nham_change", ("const", a), ("const", b)),
            ("multi_tok_count_change", ("const", a), ("const", b), TOK)]


def expected(op, spam, seen, no_relearn):
    """-> list of phases; a phase is a set of changes in any order."""
    mine, other = ("s", "h") if spam else ("h", "s")
    if op == "learn":
        put = [("seen_put", MSGID, ("const", mine))]
        if seen == mine or seen == other and no_relearn:
            return []
        if seen == other:
            return [effects(not spam, -1) + [("seen_delete", MSGID)],
                    effects(spam, 1) + put]
        return [effects(spam, 1) + put]
    if seen in ("s", "h"):
        return [effects(seen == "s", -1) + [("seen_delete", MSGID)]]
    return []


def say(ev):
    return "%s(%s)" % (ev[0], ", ".join(
        "tokens" if x == TOK else show(x) if isinstance(x, tuple) and x and
        isinstance(x[0], str) else repr(x) for x in ev[1:]))


def classifier_classes(p):
    return [c for c in p.classes.values() if "learn_message" in c.methods]


def generators(cls):
    """Methods that yield the tokens of a message."""
    return {f for c in cls.mro() for f in c.methods.values()
            if f.name == "tokenise" or any(isinstance(n, ast.Yield)
                                           for n in ast.walk(f.node))}


class Distinct(BasePolicy):
    """Monitor: what each yielded token was iterated from."""
    def __init__(self, p):
        BasePolicy.__init__(self, p)
        self.bad = []
        self.n = 0

    def init_mon(self):
        return ()

    def inline(self, I, fi):
        return False

    def on_iter(self, I, st, node, it, elem):
        return st.with_mon((it,))

    def on_yield(self, I, st, node, value):
        self.n += 1
        it = st.mon[0] if st.mon else None
        if not distinct(it, st):
            self.bad.append((I.where(node), show(it) if it else "no loop"))
        return None


def distinct(it, st):
    if it is None:
        return False
    if it[0] == "pcall" and it[1] in ("set", "frozenset"):
        return True
    if it[0] == "pcall" and it[1] in ("sorted", "list", "tuple", "iter",
                                      "reversed", "filter") and it[2]:
        return distinct(it[2][-1], st)
    if it[0] == "comp" and it[1] in ("set", "dict"):
        return True
    if it[0] == "obj":
        if it[2] in ("set", "frozenset", "dict"):
            return True
        src = st.heap.get((it, "src"))
        return src is not None and distinct(src, st)
    if it[0] == "mcall" and it[2] in ("keys", "fromkeys", "copy", "union",
                                      "difference", "items"):
        return it[2] == "fromkeys" or distinct(it[1], st)
    return False


@check("P15", "learning and forgetting")
def p15(ctx):
    from . import storage
    p = ctx.p
    n = 0
    classes = classifier_classes(p)
    ctx.floor("classifiers", len(classes), 1)
    for cls in classes:
        gens = generators(cls)
        used = set()
        for op in ("learn", "forget"):
            f = cls.find(op + "_message")
            if f is None:
                ctx.bad("learning", "%s.%s_message" % (cls.name, op),
                        "the operation does not exist")
                continue
            for spam, seen, no, use, tied, given in itertools.product(
                    (True, False), (None, "s", "h", "x"), (False, True),
                    (True, False), (True, False), (False, True)):
                if op == "forget" and (spam or no):
                    continue
                if op == "learn" and given:
                    continue
                if not use and not tied:
                    continue
                n += learn_case(ctx, cls, f, op, spam, seen, no, use, tied,
                                given, gens, used)
        for g in sorted(used, key=lambda x: x.qual):
            hold = {}

            def mk():
                hold["p"] = Distinct(p)
                return hold["p"]
            I, outs = run(mk, p, g, args={}, self_cls=cls)
            ctx.saw(I)
            d = hold["p"]
            ctx.expect(d.n and not d.bad, "distinct-tokens", g.qual,
                       "a token of the message can be given (and counted) "
                       "more than once: %s" % (d.bad[:1],))
        ctx.floor("sources of tokens", len(used), 1)
    tables, models = storage.schemas(p)
    schema = {t: sorted(d.items())[0][1] for t, d in tables.items()}
    sts = storage.stores(p)
    ctx.floor("stores", len(sts), 2)
    ops = [o for o in storage.STORE_OPS if o[0] in (
        "nspam_nham_change", "multi_tok_count_change", "seen_put",
        "seen_get", "seen_delete")]
    for c in sts:
        storage.store_ops(ctx, c, schema, models, ops)
    ctx.floor("changes of the store", n, 40)


def learn_case(ctx, cls, f, op, spam, seen, no, use, tied, given, gens,
               used):
    p = ctx.p
    where = "%s.%s as %s, seen %s%s%s%s%s" % (
        cls.name, f.name, ("spam" if spam else "ham") if op == "learn"
        else "-", seen, ", no relearning" if no else "",
        "" if use else ", use_bayes off",
        "" if tied else ", no database",
        ", by another id" if given else "")
    self_ = ("sym", "self", cls.qual)
    heap = {(self_, "attr", "store"): STORE,
            (self_, "item", ("const", "use_bayes")): ("const", use),
            (self_, "attr", "learn_no_relearn"): ("const", no),
            (self_, "attr", "learn_caller_will_untie"): ("const", False),
            (MSG, "attr", "msgid"): OWNID if given else MSGID}
    ps = f.params()
    args = {ps[0]: self_, ps[1]: MSG}
    if op == "learn":
        args[ps[2]] = ("const", spam)
    elif len(ps) > 2:
        args[ps[2]] = MSGID if given else NONE
    hold = {}

    def mk():
        hold["p"] = Learn(p, cls.module.name,
                          ("const", seen) if seen else NONE, tied, gens)
        return hold["p"]
    I, outs = run(mk, p, f, args=args, self_cls=cls, heap=heap)
    ctx.saw(I)
    used |= hold["p"].sources
    want = expected(op, spam, seen, no) if use and tied else []
    n = 0
    done = 0
    for k, v, s in outs:
        if k == "exc":
            ctx.bad("learning", where, "fails with %s (path %s)" % (
                v[1:2], path_str(s)))
            continue
        done += 1
        evs = list(s.mon[0])
        n += len(evs)
        left = evs[:]
        okk = True
        for phase in want:
            part, left = left[:len(phase)], left[len(phase):]
            okk = okk and sorted(part, key=repr) == sorted(phase, key=repr)
        ctx.expect(okk and not left, op, where,
                   "changes the store by %s instead of %s (path %s)" % (
                       "; ".join(map(say, evs)) or "nothing",
                       "; ".join(say(e) for ph in want for e in ph) or
                       "nothing", path_str(s)))
    ctx.expect(done > 0, "learning", where, "never succeeds")
    return n
