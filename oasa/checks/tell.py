"""P21: reporting and revoking."""
import ast
import re

from ..absint import NONE, contains, is_const, show
from ..core import check
from ..model import AnalysisError
from ..util import BasePolicy, driver, mkdict, mkobj, run, text
from .protocol import meth_name
from .scoring import MSG

HOOKS = ("hook_report", "hook_revoke")
PARAMS = ("msg", "spam", "local", "remote")


def bind(fi, args, kw, skip):
    """{parameter: value} of a call of a project function; defaults too."""
    ps = fi.params()[skip:]
    out = {}
    for n, d in zip(reversed(fi.params()), reversed(fi.node.args.defaults)):
        import ast
        if isinstance(d, ast.Constant):
            out[n] = ("const", d.value)
    for n, v in zip(ps, args):
        out[n] = v
    out.update(kw)
    return out


class Tell(BasePolicy):
    """Monitor: the hooks called, in order, and the text of the reply."""
    mods = ("oa.protocol",)

    def __init__(self, p, hooks):
        BasePolicy.__init__(self, p)
        self.hooks = hooks
        self.replied = []

    def init_mon(self):
        return ((), ())

    def inline(self, I, fi):
        return fi.module.name.startswith("oa.protocol") or fi.is_cm

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        if nm in self.hooks:
            b = bind(self.hooks[nm], args, dict(kw), 1)
            ev = (nm,) + tuple(b.get(n, NONE) for n in PARAMS)
            return [("ok", NONE, st.with_mon(
                (st.mon[0] + (ev,), st.mon[1])))]
        return None

    def on_yield(self, I, st, node, value):
        if len(I.frames) > 1:
            return None
        if not st.mon[0]:
            self.replied.append((value, st))
        return st.with_mon((st.mon[0], st.mon[1] + (value,)))


def words(s):
    return {w.strip().lower() for w in s.split(",")} - {""}


def tell(ctx):
    p = ctx.p
    g = p.cls("oa.context.GlobalContext")
    hooks = {h: g.find(h) for h in HOOKS}
    if None in hooks.values():
        raise AnalysisError("report/revoke hooks not found")
    c = p.cls("oa.protocol.tell.TellCommand")
    f = c.find("handle")
    n = 0
    targets = (None, "local", "remote", "local, remote", "local,remote",
               "Remote,Local", "local,other", "")
    classes = (None, "spam", "ham", "SPAM", "Ham")
    combos = [(a, b, cl) for a in targets for b in targets for cl in classes
              if a is None or b is None or a == "local" or b == "remote" or
              a == b]
    for a, b, cl in combos:
        heap = {}
        o = {}
        if a is not None:
            o["set"] = ("const", a)
        if b is not None:
            o["remove"] = ("const", b)
        if cl is not None:
            o["message-class"] = ("const", cl)
        opts = mkdict(heap, o, "options")
        ps = f.params()
        I, outs = run(lambda: Tell(p, hooks), p, f, args={
            ps[0]: ("sym", "self", c.qual), ps[1]: MSG, ps[2]: opts},
            self_cls=c, heap=heap)
        ctx.saw(I)
        spam = (cl or "spam").lower() == "spam"
        what = "set=%s,remove=%s,class=%s" % (a, b, cl)
        want = []
        if a is not None:
            want.append(("hook_report", a))
        if b is not None:
            want.append(("hook_revoke", b))
        for k, v, s in outs:
            if k != "ret":
                ctx.bad("tell", what, "TELL ends with an error")
                continue
            n += 1
            evs, ys = s.mon
            got = sorted(e[0] for e in evs)
            if not ctx.expect(got == sorted(w[0] for w in want), "operation",
                              what, "the operations done are %s" % (
                                  got or "none")):
                continue
            for e in evs:
                t = dict(want)[e[0]]
                exp = (MSG, ("const", spam), ("const", "local" in words(t)),
                       ("const", "remote" in words(t)))
                for nm, x, y in zip(PARAMS, e[1:], exp):
                    ctx.expect(x == y, "argument", "%s:%s:%s" % (
                        what, e[0], nm), "%s gets %s for %s where the client "
                        "said %s" % (e[0], show(x), nm, show(y)))
            seg = text(("join", ("const", ""), ys)) if ys else []
            flat = "".join(x if isinstance(x, str) else "\0" for x in seg)
            said = {}
            for line in flat.split("\r\n"):
                m = re.match(r"(\w+): *(.*)$", line)
                if m:
                    said.setdefault(m.group(1).lower(), []).append(
                        m.group(2))
            for h, key, t in (("hook_report", "didset", a),
                              ("hook_revoke", "didremove", b)):
                r = said.get(key, [])
                if t is None:
                    ctx.expect(not r, "reply", "%s:%s" % (what, key),
                               "the reply claims %s" % r)
                else:
                    ctx.expect(len(r) == 1 and words(r[0]) == words(t),
                               "reply", "%s:%s" % (what, key), "the reply "
                               "is %r where %r was done" % (flat, t))
    ctx.floor("TELL requests", n, 60)


class Deliver(BasePolicy):
    def __init__(self, p):
        BasePolicy.__init__(self, p)
        self.calls = []
        self.iters = 0

    def init_mon(self):
        return None

    def on_iter(self, I, st, node, it, elem):
        self.iters += 1
        return st.with_mon(())

    def on_iter_end(self, I, st, node, kind):
        self.calls.append((st.mon, kind))
        return st.with_mon(())

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        if nm in ("plugin_report", "plugin_revoke"):
            one = (nm,) + tuple(args)
            return [("ok", NONE, st.with_mon((st.mon or ()) + (one,)))]
        return None


def deliver(ctx):
    """The hooks call the matching method of every plugin."""
    g = ctx.p.cls("oa.context.GlobalContext")
    for h, spam, want in (("hook_report", True, "plugin_report"),
                          ("hook_report", None, "plugin_report"),
                          ("hook_report", False, "plugin_revoke"),
                          ("hook_revoke", True, "plugin_revoke"),
                          ("hook_revoke", False, "plugin_revoke"),
                          ("hook_revoke", None, "plugin_revoke")):
        src = "def driver(ctxt, msg, local, remote):\n    ctxt.%s(msg%s)\n" \
            % (h, "" if spam is None else ", %s, local, remote" % spam)
        d = driver(ctx.p, src)
        hold = {}

        def mk():
            hold["p"] = Deliver(ctx.p)
            return hold["p"]
        I, outs = run(mk, ctx.p, d, args={
            "ctxt": ("sym", "ctxt", "oa.context.GlobalContext"), "msg": MSG})
        ctx.saw(I)
        pol = hold["p"]
        what = "%s(spam=%s)" % (h, spam)
        ctx.floor("plugins visited by %s" % what, pol.iters, 1)
        for mon, kind in pol.calls:
            ctx.expect(mon == ((want, MSG),), "delivery", what, "each plugin "
                       "gets %s instead of one %s(msg)" % (
                           [m[0] + str(tuple(show(x) for x in m[1:]))
                            for m in mon or ()] or "nothing", want))
            ctx.expect(kind != "brk", "delivery", what + ":all",
                       "not all plugins are told")


# ------------------------------------------------------------ command line
class Main(BasePolicy):
    """Monitor: operations on the message of the current iteration."""
    small = 60

    def __init__(self, p, hooks):
        BasePolicy.__init__(self, p)
        self.hooks = hooks
        self.iters = []
        self.issues = {}

    def init_mon(self):
        return (None, ())

    def on_iter(self, I, st, node, it, elem):
        return st.with_mon((None, ()))

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        if callee[0] == "cls" and callee[1].qual == "oa.message.Message":
            return [("ok", MSG, st.with_mon((MSG, ())))]
        if nm in self.hooks:
            b = bind(self.hooks[nm], args, dict(kw), 1)
            ev = (nm,) + tuple(b.get(n, NONE) for n in PARAMS)
            return [("ok", NONE, st.with_mon(
                (st.mon[0], st.mon[1] + (ev,))))]
        if nm in ("match", "get_report", "get_adjusted_message") and args:
            ev = (nm, args[0])
            return [("ok", ("call", nm, tuple(args), I.site(node)),
                     st.with_mon((st.mon[0], st.mon[1] + (ev,))))]
        return None

    def on_iter_end(self, I, st, node, kind):
        if st.mon[0] is not None:
            self.iters.append(st)
        return st.with_mon((None, ()))


def dests(ctx):
    """Names of the attributes the options are parsed into."""
    f = ctx.p.func("scripts.match.parse_arguments")
    out = {}
    for c in ast.walk(f.node):
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute)
                and c.func.attr == "add_argument"):
            continue
        names = [a.value for a in c.args if isinstance(a, ast.Constant) and
                 isinstance(a.value, str)]
        kw = {k.arg: k.value.value for k in c.keywords
              if k.arg and isinstance(k.value, ast.Constant)}
        dest = kw.get("dest")
        if dest is None:
            longs = [x for x in names if x.startswith("--")]
            dest = (longs or names or [""])[0].lstrip("-").replace("-", "_")
        for x in names:
            out[x] = (dest, kw.get("action"))
    return out


class Cli(Main):
    def __init__(self, p, hooks, opts):
        Main.__init__(self, p, hooks)
        self.opts = opts

    def on_call(self, I, st, node, callee, args, kw):
        if meth_name(callee) == "parse_arguments":
            return [("ok", self.opts, st)]
        return Main.on_call(self, I, st, node, callee, args, kw)


def cli(ctx):
    g = ctx.p.cls("oa.context.GlobalContext")
    hooks = {h: g.find(h) for h in HOOKS}
    f = ctx.p.func("scripts.match.main")
    d = dests(ctx)
    flags = ("--report", "--revoke", "--report-only", "--test-mode")
    for x in flags + ("-r", "-k", "-R", "-t"):
        if not ctx.expect(x in d and d[x][1] == "store_true", "command-line",
                          x, "there is no switch %s" % x):
            return
    for a, b in (("-r", "--report"), ("-k", "--revoke")):
        ctx.expect(d[a] == d[b], "command-line", a, "%s is not %s" % (a, b))
    n = 0
    for rep, rev in ((1, 0), (0, 1), (0, 0)):
        for only in (0, 1):
            for test in (0, 1):
                n += one_cli(ctx, f, hooks, d, dict(zip(
                    flags, map(bool, (rep, rev, only, test)))))
    ctx.floor("messages handled by the command line tool", n, 12)


def one_cli(ctx, f, hooks, d, given):
    heap = {}
    opts = mkobj(heap, None, {d[x][0]: v for x, v in given.items()},
                 "options")
    hold = {}

    def mk():
        hold["p"] = Cli(ctx.p, hooks, opts)
        return hold["p"]
    I, outs = run(mk, ctx.p, f, heap=heap)
    ctx.saw(I)
    pol = hold["p"]
    w = " ".join(x for x, v in sorted(given.items()) if v) or "no option"
    for st in pol.iters:
        ops = [e[0] for e in st.mon[1]]
        for e in st.mon[1]:
            ctx.expect(e[1] == MSG, "command-line", w + ":" + e[0],
                       "%s is given %s" % (e[0], show(e[1])))
        if given["--report"] or given["--revoke"]:
            want = ["hook_report" if given["--report"] else "hook_revoke"]
            ctx.expect(ops == want, "command-line", w, "the operations are "
                       "%s instead of %s" % (ops, want))
        else:
            ctx.expect(not set(ops) & set(HOOKS), "command-line", w,
                       "the operations are %s" % ops)
            ctx.expect("match" in ops, "command-line", w + ":match", "the "
                       "message is not checked")
        for e in st.mon[1]:
            if e[0] == "hook_report":
                ctx.expect(e[2] == ("const", True), "command-line",
                           w + ":spam", "the message is reported as %s" %
                           show(e[2]))
    return len(pol.iters)


# ------------------------------------------------------------ plugins
WORDS = {
    "report": {"report", "spam", "s", "razor-report", "learn_spam"},
    "revoke": {"whitelist", "ham", "h", "razor-revoke", "revoke"},
}


class Direction(BasePolicy):
    """Collects what a plugin does with a message it is given."""

    def __init__(self, p, mod):
        BasePolicy.__init__(self, p)
        self.mod = mod
        self.acts = []

    def inline(self, I, fi):
        return fi.module.name == self.mod

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        if callee[0] in ("bm", "fn") and callee[1].name in (
                "learn", "_learn_trapped"):
            fi = callee[1]
            b = bind(fi, args, dict(kw), 1)
            self.acts.append(("learn", b.get("isspam"), b.get("msg")))
            return [("ok", NONE, st)]
        if nm in ("report", "whitelist") and callee[0] in ("meth", "attr"):
            self.acts.append((nm, None, None))
        if callee[0] == "ext" and callee[1].endswith("Popen"):
            self.acts.append(("popen", args[0] if args else NONE, st))
        return None


def plugins(ctx):
    """What the reporting plugins do in each direction."""
    n = 0
    for q, spec in (
            ("oa.plugins.bayes.BayesPlugin", "learn"),
            ("oa.plugins.pyzor.PyzorPlugin", "pyzor"),
            ("oa.plugins.razor2.Razor2Plugin", "razor")):
        c = ctx.p.classes.get(q)
        if c is None:
            continue
        for meth, spam in (("plugin_report", True), ("plugin_revoke", False)):
            f = c.find(meth)
            hold = {}

            def mk():
                hold["p"] = Direction(ctx.p, c.module.name)
                return hold["p"]
            ps = f.params()
            I, outs = run(mk, ctx.p, f, args={
                ps[0]: ("sym", "self", c.qual), ps[1]: MSG}, self_cls=c)
            ctx.saw(I)
            acts = hold["p"].acts
            what = "%s.%s" % (c.name, meth)
            ctx.floor("actions of %s" % what, len(acts), 1)
            for a in acts:
                n += 1
                if a[0] == "learn":
                    ctx.expect(a[1] == ("const", spam), "direction", what,
                               "the message is learned with isspam=%s" %
                               (show(a[1]) if a[1] else None))
                    ctx.expect(a[2] == MSG, "direction", what + ":msg",
                               "another message is learned")
                elif a[0] in ("report", "whitelist"):
                    ctx.expect((a[0] == "report") == spam, "direction", what,
                               "the digest is sent by %s" % a[0])
                else:
                    names = set()
                    st = a[2]
                    from ..util import deep
                    contains(deep(a[1], st), lambda x: x[0] == "const" and
                             isinstance(x[1], str) and names.add(x[1]))
                    cmd = {x for x in names if x.startswith("razor-")}
                    ctx.expect(cmd == {"razor-report" if spam else
                                       "razor-revoke"}, "direction", what,
                               "the command run is %s" % sorted(cmd))
    ctx.floor("report/revoke actions of plugins", n, 6)


@check("P21", "report and revoke")
def p21(ctx):
    tell(ctx)
    deliver(ctx)
    cli(ctx)
    plugins(ctx)
