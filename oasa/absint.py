"""Structured abstract interpreter over the Python syntax tree.

A path-sensitive dataflow analysis: values are uninterpreted terms, branch
conditions are normalised predicates over terms, loops are iterated to a
fixpoint (loop-varying values are widened), project helpers, decorators,
closures, context managers and generators are analysed in place.  No solver is
involved: a condition is known only if it was itself assumed (or follows from
an equality with a constant).  Checks plug in a ``Policy`` that observes events
(calls, stores, yields, branches, raises, loop iterations, exits) and carries a
hashable monitor (typestate) value along every path.
"""
import ast
import re
import builtins
import posixpath

from .model import (AnalysisError, ClassInfo, FuncInfo, dotted, walk_local)

BUILTINS = set(dir(builtins))

SET_OPS = {"intersection": "BitAnd", "union": "BitOr", "difference": "Sub",
           "symmetric_difference": "BitXor", "isdisjoint": None,
           "issubset": None, "issuperset": None}

PURE_FUNCS = {
    "len", "str", "int", "float", "bool", "list", "dict", "set", "tuple",
    "frozenset", "isinstance", "issubclass", "sorted", "reversed",
    "enumerate", "zip", "map", "filter", "min", "max", "sum", "any", "all",
    "abs", "round", "repr", "type", "range", "iter", "ord", "chr", "hash",
    "bytes", "callable", "hasattr", "id", "next", "divmod", "format",
    "os.path.join", "os.path.basename", "os.path.dirname", "os.path.isabs",
    "os.path.splitext", "os.path.normpath", "os.path.split", "functools.partial",
    "operator.itemgetter", "operator.attrgetter", "collections.OrderedDict",
    "collections.defaultdict", "collections.Counter", "time.time",
    "itertools.chain", "logging.getLogger", "object",
}
PURE_METHODS = {
    "strip", "lstrip", "rstrip", "lower", "upper", "startswith", "endswith",
    "split", "rsplit", "splitlines", "join", "replace", "format", "items",
    "keys", "values", "get", "encode", "title", "count", "find", "rfind",
    "isdigit", "isdecimal", "isalnum", "isupper", "islower", "casefold",
    "isalpha", "isspace", "partition", "rpartition", "ljust",
    "rjust", "zfill", "copy", "groupdict", "groups", "group", "capitalize",
    "total_seconds", "union", "intersection", "difference", "most_common",
    "hexdigest", "digest", "index",
}
MUT_METHODS = {
    "append", "extend", "insert", "add", "update", "clear", "remove",
    "discard", "pop", "popitem", "setdefault", "sort", "reverse",
    "appendleft", "popleft", "__setitem__", "__delitem__",
}
RAISING = {"int": ("ValueError",), "float": ("ValueError",),
           "ipaddress.ip_address": ("ValueError",),
           "ipaddress.ip_network": ("ValueError",),
           "next": ("StopIteration",)}

PATH_FUNCS = {"os.path." + n: getattr(posixpath, n) for n in (
    "join", "basename", "dirname", "isabs", "splitext", "normpath", "split")}

# what library calls are known to raise (Policy.known_exc)
KNOWN_RAISES = {
    "compile": ("SyntaxError", "ValueError"),
    "eval": ("Exception",),
    "re.compile": ("re.error", "OverflowError"),
    "importlib.import_module": ("ImportError",),
    "open": ("OSError",),
    "os.listdir": ("OSError",),
    "locale.setlocale": ("locale.Error",),
    "locale.getlocale": ("ValueError",),
    "ipaddress.ip_address": ("ValueError",),
    "ipaddress.ip_network": ("ValueError",),
    "json.loads": ("ValueError",),
    "zlib.decompress": ("zlib.error",),
    "pickle.load": ("Exception",),
    "dns.reversename.from_address": ("Exception",),
    "getattr": (),
}
KNOWN_METH_RAISES = {
    "load_module": ("ImportError", "OSError", "SyntaxError"),
}

TRUE = ("const", True)
FALSE = ("const", False)
NONE = ("const", None)


EXT_CONSTS = {"os.curdir": ".", "os.pardir": "..", "os.sep": "/",
              "os.path.sep": "/", "os.path.curdir": ".",
              "os.path.pardir": ".."}


class Budget(AnalysisError):
    pass


class St(object):
    __slots__ = ("env", "heap", "facts", "mon", "path", "_key")

    def __init__(self, env, heap, facts, mon, path=()):
        self.env = env
        self.heap = heap
        self.facts = facts
        self.mon = mon
        self.path = path
        self._key = None

    def fork(self, env=None, heap=None, facts=None):
        return St(self.env if env is None else env,
                  self.heap if heap is None else heap,
                  self.facts if facts is None else facts,
                  self.mon, self.path)

    def with_mon(self, mon):
        s = self.fork()
        s.mon = mon
        return s

    def setvar(self, name, val):
        e = dict(self.env)
        e[name] = val
        return self.fork(env=e)

    def store(self, key, val):
        h = dict(self.heap)
        h[key] = val
        return self.fork(heap=h)

    def key(self):
        if self._key is None:
            self._key = (frozenset(self.env.items()),
                         frozenset(self.heap.items()),
                         frozenset(self.facts.items()), self.mon)
        return self._key


def _is_plain(t):
    return t[0] == "const" or t[0] == "tuple" and all(map(_is_plain, t[1]))


def _pyval(t):
    return t[1] if t[0] == "const" else tuple(map(_pyval, t[1]))


def is_const(t):
    return t[0] == "const"


def contains(t, pred):
    """Does the term contain a subterm satisfying pred?"""
    stack = [t]
    while stack:
        t = stack.pop()
        if type(t) is tuple and t:
            if type(t[0]) is str and pred(t):
                return True
            stack.extend(t)
    return False


def has_sub(t, o):
    """Is o a subterm of t?"""
    stack = [t]
    while stack:
        t = stack.pop()
        if type(t) is tuple:
            if t == o:
                return True
            stack.extend(t)
    return False


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                for y in subterms(x):
                    yield y


def show(t, depth=0):
    """Readable rendering of a term."""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    r = lambda x: show(x, depth + 1)
    if depth > 7:
        return "..."
    if k == "const":
        return repr(t[1])
    if k == "sym":
        return t[1]
    if k == "attr":
        return "%s.%s" % (r(t[1]), t[2])
    if k == "item":
        return "%s[%s]" % (r(t[1]), r(t[2]))
    if k in ("call", "pcall"):
        return "%s(%s)" % (t[1] if isinstance(t[1], str) else r(t[1]),
                           ", ".join(r(a) for a in t[2]))
    if k in ("mcall",):
        return "%s.%s(%s)" % (r(t[1]), t[2], ", ".join(r(a) for a in t[3]))
    if k == "iter":
        return "each(%s)" % r(t[1])
    if k == "unpack":
        return "%s#%d" % (r(t[1]), t[2])
    if k == "bin":
        return "(%s %s %s)" % (r(t[2]), t[1], r(t[3]))
    if k == "cond":
        return ("" if t[2] else "not ") + show_cond(t[1])
    if k == "obj":
        return "<%s>" % (t[2] or "obj")
    if k in ("fn", "rawfn"):
        return t[1].qual
    if k == "bm":
        return t[1].qual
    if k in ("cls", "ext", "mod", "gval"):
        return str(t[1].qual if isinstance(t[1], ClassInfo) else t[1])
    return "%s(%s)" % (k, ", ".join(r(x) if isinstance(x, tuple) else str(x)
                                    for x in t[1:]))


def show_cond(c):
    k = c[0]
    if k == "lt":
        return "%s < %s" % (show(c[1]), show(c[2]))
    if k == "eq":
        return "%s == %s" % (show(c[1]), show(c[2]))
    if k == "isnone":
        return "%s is None" % show(c[1])
    if k == "truthy":
        return show(c[1])
    return show(c)


class Policy(object):
    unroll = 16      # longest exactly known sequence walked item by item
    """Observer; every hook may return None (default behaviour) or a list of
    (kind, value, state) results replacing the event's effect."""
    top_exc = False         # do opaque calls raise at top level?
    known_exc = False       # known raising primitives raise everywhere,
                            # opaque calls never do
    max_depth = 12
    unroll_while = 0        # unfold while loops up to this often
    max_steps = 400000
    max_states = 160
    opaque = frozenset()    # qualnames never inlined
    seeds = {}              # param name -> class qual
    attr_seeds = {"ctxt": "oa.context.GlobalContext",
                  "conf": "oa.conf.PADConf",
                  "ruleset": "oa.rules.ruleset.RuleSet",
                  "dns": "oa.dns_interface.DNSInterface",
                  "networks": "oa.networks.NetworkList"}

    def init_mon(self):
        return ()

    def item_exc(self, I, st, base, key):
        """known_exc only: error raised by an unknown subscription (False:
        certainly none)."""
        return None

    def inline(self, I, fi):
        return True

    def on_call(self, I, st, node, callee, args, kwargs):
        return None

    def on_attr_store(self, I, st, node, base, name, value):
        return None

    def on_item_store(self, I, st, node, base, key, value):
        return None

    def on_del(self, I, st, node, base, key):
        return None

    def on_global_store(self, I, st, node, mod, name, value):
        return None

    def on_mutate(self, I, st, node, base, meth, args):
        return None

    def on_augment(self, I, st, node, old, op, value):
        return None

    def on_attr_load(self, I, st, node, base, name):
        return None

    def on_yield(self, I, st, node, value):
        return None

    def on_branch(self, I, st, node, cond, pol):
        return None

    def on_raise(self, I, st, node, exc):
        return None

    def on_loop(self, I, st, node, it):
        return None

    def on_iter(self, I, st, node, it, elem):
        return None

    def on_iter_end(self, I, st, node, kind):
        return None

    def on_loop_exit(self, I, st, node):
        """The condition of a while loop is found false."""
        return None

    def on_with(self, I, st, node, ctx, enter):
        return None


class _Frame(object):
    def __init__(self, fi, cls, closure, self_term):
        self.fi = fi
        self.cls = cls              # class the method is defined in
        self.closure = closure      # dict of enclosing env or {}
        self.self_term = self_term
        self.globals = set()
        self.nonlocals = set()
        self.gen = None             # list object collecting yields
        self.cm_body = None         # callable run at yield (contextmanager)
        self.loop_nodes = []


class Interp(object):
    def __init__(self, project, policy):
        self.p = project
        self.pol = policy
        self.frames = []
        self.handlers = []
        self.exc_stack = []
        self.steps = 0
        self.analysed = set()
        self.opaque_calls = 0
        self.branches = 0
        self.abs_loops = 0
        self._stored_attrs = None
        self._ginits = {}

    # ------------------------------------------------------------ entry
    def run(self, fi, args=None, self_cls=None, mon=None, extra=None,
            heap=None, facts=None):
        """Analyse ``fi`` from a most general state.  Returns outcomes
        [(kind, value, St)] with kind ret/exc."""
        env = {}
        ps = fi.params()
        a = fi.node.args
        allp = ps + [x.arg for x in a.kwonlyargs]
        self_term = None
        for i, name in enumerate(allp):
            if args and name in args:
                env[name] = args[name]
                if i == 0 and fi.cls is not None and not fi.is_static:
                    self_term = env[name]
                continue
            if i == 0 and fi.cls is not None and not fi.is_static:
                c = self_cls or fi.cls
                if fi.is_class:
                    env[name] = ("cls", c)
                else:
                    env[name] = ("sym", name, c.qual)
                self_term = env[name]
            else:
                env[name] = ("sym", name, self.pol.seeds.get(name))
        if a.vararg:
            env[a.vararg.arg] = ("sym", "*" + a.vararg.arg, None)
        if a.kwarg:
            env[a.kwarg.arg] = ("sym", "**" + a.kwarg.arg, None)
        if extra:
            env.update(extra)
        st = St(env, dict(heap or {}), dict(facts or {}),
                self.pol.init_mon() if mon is None else mon)
        fr = _Frame(fi, fi.cls, {}, self_term)
        self.frames.append(fr)
        try:
            outs = self._body(fi, st)
        finally:
            self.frames.pop()
        return outs

    def _body(self, fi, st):
        self.analysed.add(fi.qual)
        if isinstance(fi.node, ast.Lambda):
            res = self.eval(fi.node.body, st)
            return [("ret" if k == "ok" else k, v, s) for k, v, s in res]
        outs = []
        for k, v, s in self.block(fi.node.body, st):
            if k == "next":
                outs.append(("ret", NONE, s))
            elif k in ("ret", "exc"):
                outs.append((k, v, s))
        return self._merge(outs)

    @property
    def cur(self):
        return self.frames[-1]

    def where(self, node):
        return "%s:%s" % (self.cur.fi.module.rel,
                          getattr(node, "lineno", self.cur.fi.line))

    def site(self, node):
        return (self.cur.fi.module.name, getattr(node, "lineno", 0),
                getattr(node, "col_offset", 0), len(self.frames))

    # ------------------------------------------------------------ merging
    def _merge(self, outs):
        """Join outcomes that agree on everything but the assumed facts."""
        if len(outs) == 1:
            return [tuple(outs[0])]
        groups = {}
        order = []
        for k, v, s in outs:
            key = (k, v[:2] if k == "exc" else v, frozenset(s.env.items()),
                   frozenset(s.heap.items()), s.mon)
            if key in groups:
                g = groups[key]
                if g[2].facts != s.facts:
                    f = {c: p for c, p in g[2].facts.items()
                         if s.facts.get(c) == p}
                    g[2] = g[2].fork(facts=f)
            else:
                groups[key] = [k, v, s]
                order.append(key)
        res = [tuple(groups[o]) for o in order]
        if len(res) > self.pol.max_states:
            res = self._force(res)
        return res

    def _force(self, outs):
        groups = {}
        order = []
        for k, v, s in outs:
            key = (k, v if k != "next" else None, s.mon)
            if k == "ret" and key not in groups and len(groups) > 60:
                key = (k, None, s.mon)
            if key not in groups:
                groups[key] = [k, v, s]
                order.append(key)
                continue
            g = groups[key]
            a, b = g[2], s
            env = {n: (x if b.env.get(n) == x else ("join", n))
                   for n, x in a.env.items()}
            heap = {n: (x if b.heap.get(n) == x else ("join", n))
                    for n, x in a.heap.items()}
            for n in list(a.heap) + list(b.heap):
                if n in a.heap and n in b.heap:
                    continue
                heap[n] = ("join", n)
                if len(n) > 2 and n[1] == "item":
                    heap.pop((n[0], "closed"), None)
            for n in b.env:
                if n not in env:
                    env[n] = ("join", n)
            f = {c: p for c, p in a.facts.items() if b.facts.get(c) == p}
            if g[1] != v:
                g[1] = ("join", "value")
            g[2] = St(env, heap, f, a.mon, a.path)
        return [tuple(groups[o]) for o in order]

    # ------------------------------------------------------------ blocks
    def block(self, stmts, st):
        live = [st]
        done = []
        for s in stmts:
            nxt = []
            for l in live:
                for k, v, x in self.stmt(s, l):
                    if k == "next":
                        nxt.append(("next", None, x))
                    else:
                        done.append((k, v, x))
            if len(nxt) > 1:
                nxt = self._merge(nxt)
            live = [x for _, _, x in nxt]
            if not live:
                break
        out = [("next", None, x) for x in live] + done
        if len(out) > 1:
            out = self._merge(out)
        return out

    def stmt(self, n, st):
        self.steps += 1
        if self.steps > self.pol.max_steps:
            raise Budget("analysis budget exceeded in %s" % self.cur.fi.qual)
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            return [("next", None, st)]
        return m(n, st)

    def s_Expr(self, n, st):
        return [("next" if k == "ok" else k, None if k == "ok" else v, s)
                for k, v, s in self.eval(n.value, st)]

    def s_Pass(self, n, st):
        return [("next", None, st)]

    def s_Return(self, n, st):
        if n.value is None:
            return [("ret", NONE, st)]
        return [("ret" if k == "ok" else k, v, s)
                for k, v, s in self.eval(n.value, st)]

    def s_Break(self, n, st):
        return [("brk", None, st)]

    def s_Continue(self, n, st):
        return [("cont", None, st)]

    def s_Assert(self, n, st):
        out = []
        for k, v, s in self.cond(n.test, st):
            if k == "exc":
                out.append((k, v, s))
            elif v:
                out.append(("next", None, s))
            elif not self.pol.known_exc:
                out.append(("exc", ("exc", "AssertionError", self.site(n)), s))
        return out

    def s_Global(self, n, st):
        self.cur.globals.update(n.names)
        return [("next", None, st)]

    def s_Nonlocal(self, n, st):
        self.cur.nonlocals.update(n.names)
        return [("next", None, st)]

    def s_Import(self, n, st):
        e = dict(st.env)
        for a in n.names:
            nm = a.asname or a.name.split(".")[0]
            full = a.name if a.asname else a.name.split(".")[0]
            e[nm] = ("mod", full) if full in self.p.modules else ("ext", full)
        return [("next", None, st.fork(env=e))]

    def s_ImportFrom(self, n, st):
        e = dict(st.env)
        for a in n.names:
            hk = (("modobj", n.module or ""), "attr", a.name)
            if hk in st.heap:
                e[a.asname or a.name] = st.heap[hk]
                continue
            r = self.p._from(n.module or "", a.name, set())
            e[a.asname or a.name] = self._ent_term(r, n.module or "", a.name)
        return [("next", None, st.fork(env=e))]

    def s_FunctionDef(self, n, st):
        fi = self.p.nested(self.cur.fi).get(n) or FuncInfo(
            self.cur.fi.module, n, self.cur.fi.cls, self.cur.fi)
        t = self._closure(fi, st)
        for d in reversed(fi.deco_nodes):
            dn = dotted(d.func if isinstance(d, ast.Call) else d) or ""
            if dn.split(".")[-1] in ("wraps",):
                continue
        return [("next", None, self._bind_name(st, n, n.name, t))]

    def s_ClassDef(self, n, st):
        return [("next", None, st.setvar(n.name, ("localcls", n.name)))]

    def _closure(self, fi, st):
        env = dict(self.cur.closure)
        env.update(st.env)
        return ("clo", fi, tuple(sorted(
            ((k, v) for k, v in env.items()), key=lambda x: x[0])),
            self.cur.self_term)

    # assignment
    def s_Assign(self, n, st):
        out = []
        for k, v, s in self.eval(n.value, st):
            if k != "ok":
                out.append((k, v, s))
                continue
            states = [("next", None, s)]
            for t in n.targets:
                nx = []
                for kk, vv, ss in states:
                    if kk == "next":
                        nx.extend(self.assign(t, v, ss))
                    else:
                        nx.append((kk, vv, ss))
                states = nx
            out.extend(states)
        return out

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return [("next", None, st)]
        out = []
        for k, v, s in self.eval(n.value, st):
            if k == "ok":
                out.extend(self.assign(n.target, v, s))
            else:
                out.append((k, v, s))
        return out

    def s_AugAssign(self, n, st):
        load = _as_load(n.target)
        op = type(n.op).__name__
        out = []
        for k, vals, s in self.eval_many([load, n.value], st):
            if k != "ok":
                out.append((k, vals, s))
                continue
            old, v = vals
            r = self.pol.on_augment(self, s, n, old, op, v)
            if r is not None:
                s = r
            if op == "Add" and self._is_list(old):
                for kk, vv, ss in self._mutate(n, s, old, "extend", [v]):
                    if kk == "ok":
                        out.extend(self.assign(n.target, old, ss, aug=True))
                    else:
                        out.append((kk, vv, ss))
                continue
            out.extend(self.assign(n.target, self.binop(op, old, v), s))
        return out

    def _is_list(self, t):
        return t[0] == "obj" and t[2] in ("list", "dict", "set")

    def _bind_name(self, st, node, name, val):
        fr = self.cur
        if name in fr.globals:
            mod = fr.fi.module.name
            r = self.pol.on_global_store(self, st, node, mod, name, val)
            if r is not None:
                st = r
            return st.store((("modobj", mod), "attr", name), val)
        return st.setvar(name, val)

    def assign(self, t, v, st, aug=False):
        if isinstance(t, ast.Name):
            return [("next", None, self._bind_name(st, t, t.id, v))]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, ("star", v), st)
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            elts = self._known_elts(v, st)
            star = any(isinstance(e, ast.Starred) for e in t.elts)
            out = []
            states = [("next", None, st)]
            if elts is not None and (len(elts) == n) and not star:
                vals = elts
            elif v[0] == "tuple" and not star and v[1] and is_const(v[1][0]) \
                    and len(v[1]) != n and not any(
                        x[0] == "star" for x in v[1]):
                return [("exc", ("exc", "ValueError", self.site(t)), st)]
            else:
                vals = [("unpack", v, i) for i in range(n)]
                if self.pol.known_exc:
                    if v[0] == "mcall" and v[2] in ("split", "rsplit") and \
                            not self._has_sep(v, n, st) and \
                            not self._len_is(v, n, st):
                        out.append(("exc", ("exc", "ValueError",
                                            self.site(t)), st))
                elif self._catches("ValueError", "TypeError"):
                    out.append(("exc", ("exc", "ValueError", self.site(t)),
                                st))
            for e, x in zip(t.elts, vals):
                nx = []
                for k, vv, s in states:
                    if k == "next":
                        nx.extend(self.assign(e, x, s))
                    else:
                        nx.append((k, vv, s))
                states = nx
            return states + out
        if isinstance(t, ast.Attribute):
            out = []
            for k, b, s in self.eval(t.value, st):
                if k != "ok":
                    out.append((k, b, s))
                    continue
                out.extend(self.store_attr(t, b, t.attr, v, s))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for k, vals, s in self.eval_many([t.value, t.slice], st):
                if k != "ok":
                    out.append((k, vals, s))
                    continue
                out.extend(self.store_item(t, vals[0], vals[1], v, s))
            return out
        return [("next", None, st)]

    def store_attr(self, node, b, name, v, s):
        r = self.pol.on_attr_store(self, s, node, b, name, v)
        if r is not None:
            s = r
        c = self.typeof(b, s)
        if c is not None and b[0] != "cls":
            for k in c.mro():
                if name in k.setters:
                    out = []
                    for kk, vv, ss in self.call_func(
                            node, k.setters[name], [b, v], {}, s, b):
                        out.append(("next" if kk == "ok" else kk,
                                    None if kk == "ok" else vv, ss))
                    return out
        return [("next", None, s.store((b, "attr", name), v))]

    def store_item(self, node, b, key, v, s):
        r = self.pol.on_item_store(self, s, node, b, key, v)
        if r is not None:
            s = r
        if self._is_list(b):
            if (b, "exact") in s.heap:
                h = dict(s.heap)
                del h[(b, "exact")]
                s = s.fork(heap=h)
            old = s.heap.get((b, "elems"), ())
            if v not in old and len(old) < 24:
                s = s.store((b, "elems"), old + (v,))
        dk = self._dkeys(b, s)
        if dk is not None:
            s = self._set_dkeys(b, s, dk + (key,))
        if not is_const(key) and (b, "closed") in s.heap:
            h = dict(s.heap)
            del h[(b, "closed")]
            s = s.fork(heap=h)
        return [("next", None, s.store((b, "item", key), v))]

    def s_Delete(self, n, st):
        states = [("next", None, st)]
        for t in n.targets:
            nx = []
            for k, v, s in states:
                if k != "next":
                    nx.append((k, v, s))
                    continue
                if isinstance(t, ast.Subscript):
                    for kk, vals, ss in self.eval_many([t.value, t.slice], s):
                        if kk != "ok":
                            nx.append((kk, vals, ss))
                            continue
                        r = self.pol.on_del(self, ss, t, vals[0], vals[1])
                        if r is not None:
                            ss = r
                        if self._catches("KeyError", "IndexError"):
                            nx.append(("exc", ("exc", "KeyError",
                                               self.site(t)), ss))
                        h = dict(ss.heap)
                        h.pop((vals[0], "item", vals[1]), None)
                        h.pop((vals[0], "exact"), None)
                        ss = ss.fork(heap=h)
                        dk = self._dkeys(vals[0], ss)
                        if dk is not None:
                            ss = self._set_dkeys(vals[0], ss, [
                                x for x in dk if x != vals[1]] if is_const(
                                    vals[1]) else None)
                        nx.append(("next", None, ss))
                elif isinstance(t, ast.Attribute):
                    for kk, b, ss in self.eval(t.value, s):
                        if kk != "ok":
                            nx.append((kk, b, ss))
                            continue
                        r = self.pol.on_del(self, ss, t, b,
                                            ("const", t.attr))
                        nx.append(("next", None, ss if r is None else r))
                else:
                    nx.append(("next", None, s))
            states = nx
        return states

    def s_If(self, n, st):
        out = []
        for k, v, s in self.cond(n.test, st):
            if k == "exc":
                out.append((k, v, s))
            elif v:
                out.extend(self.block(n.body, s))
            else:
                out.extend(self.block(n.orelse, s) if n.orelse
                           else [("next", None, s)])
        return self._merge(out) if len(out) > 1 else out

    # raise / try
    def s_Raise(self, n, st):
        if n.exc is None:
            if self.exc_stack:
                e = self.exc_stack[-1]
            else:
                e = ("exc", "ANY", self.site(n))
            r = self.pol.on_raise(self, st, n, e)
            return [("exc", e, st if r is None else r)]
        out = []
        for k, v, s in self.eval(n.exc, st):
            if k != "ok":
                out.append((k, v, s))
                continue
            e = self._exc_of(v, n, s)
            r = self.pol.on_raise(self, s, n, e)
            out.append(("exc", e, s if r is None else r))
        return out

    def _exc_of(self, v, n, s):
        if v[0] == "excval":
            return ("exc", v[1], v[2])
        if v[0] == "cls":
            return ("exc", v[1].qual, self.site(n))
        c = self.typeof(v, s)
        if c is not None:
            return ("exc", c.qual, self.site(n))
        if v[0] == "ext":
            from .model import canon_exc
            return ("exc", canon_exc(v[1]), self.site(n))
        if v[0] in ("call", "pcall") and isinstance(v[1], tuple) and \
                v[1][0] == "ext":
            from .model import canon_exc
            return ("exc", canon_exc(v[1][1]), self.site(n))
        if v[0] in ("call", "pcall") and isinstance(v[1], str):
            from .model import canon_exc
            return ("exc", canon_exc(v[1]), self.site(n))
        return ("exc", "ANY", self.site(n))

    def _catches(self, *names):
        """Would some enclosing handler catch one of these (or is the whole
        analysis interested in exceptions)?"""
        for hs in self.handlers:
            for h in hs:
                for n in names:
                    if h in self.p.exc_mro(n):
                        return True
        return False

    def _want(self, name):
        """Is an exception of this type, raised by a primitive that is known
        to raise it, of interest here?"""
        return self.pol.known_exc or self.pol.top_exc or \
            self._catches(name)

    def match_exc(self, name, handler_names):
        """-> 'yes' / 'may' / 'no'"""
        mro = self.p.exc_mro(name) if name != "ANY" else \
            ["ANY", "Exception", "BaseException"]
        for h in handler_names:
            if h in mro:
                return "yes"
        if name in ("ANY", "Exception", "BaseException"):
            return "may"
        for h in handler_names:
            if name in self.p.exc_mro(h):
                return "may"
        return "no"

    def s_Try(self, n, st):
        m = self.cur.fi.module
        hs = []
        for h in n.handlers:
            if h.type is None:
                hs.append(["BaseException"])
            else:
                names = self._handler_names(h.type, st)
                hs.append(names)
        flat = [x for h in hs for x in h]
        self.handlers.append(flat + (["BaseException"] if n.finalbody and
                                     not flat else []))
        try:
            res = self.block(n.body, st)
        finally:
            self.handlers.pop()
        if n.finalbody:
            self.handlers.append(["BaseException"])
        out = []
        try:
            for k, v, s in res:
                if k == "next":
                    if n.orelse:
                        out.extend(self.block(n.orelse, s))
                    else:
                        out.append((k, v, s))
                elif k == "exc" and v[0] == "exc":
                    consumed = False
                    for h, names in zip(n.handlers, hs):
                        mt = self.match_exc(v[1], names)
                        if mt == "no":
                            continue
                        ev = v
                        if mt == "may" and len(names) >= 1:
                            ev = ("exc", names[0], v[2])
                            if len(names) > 1:
                                ev = ("exc", "ANY", v[2])
                        s2 = s
                        if h.name:
                            s2 = s.setvar(h.name, ("excval", ev[1], ev[2]))
                        self.exc_stack.append(ev)
                        try:
                            out.extend(self.block(h.body, s2))
                        finally:
                            self.exc_stack.pop()
                        if mt == "yes":
                            consumed = True
                            break
                    if not consumed:
                        out.append((k, v, s))
                else:
                    out.append((k, v, s))
        finally:
            if n.finalbody:
                self.handlers.pop()
        if n.finalbody:
            fin = []
            for k, v, s in self._merge(out):
                for k2, v2, s2 in self.block(n.finalbody, s):
                    if k2 == "next":
                        fin.append((k, v, s2))
                    else:
                        fin.append((k2, v2, s2))
            out = fin
        return self._merge(out)

    s_TryStar = s_Try

    def _handler_names(self, node, st):
        if isinstance(node, ast.Name) and (node.id in st.env or
                                           node.id in self.cur.closure):
            v = st.env.get(node.id, self.cur.closure.get(node.id))
            el = self._known_elts(v, st)
            if el is None:
                el = [v]
            out = []
            for e in el:
                if e[0] == "cls":
                    out.append(e[1].qual)
                elif e[0] == "ext":
                    from .model import canon_exc
                    out.append(canon_exc(e[1]))
                else:
                    out.append("Exception")
            return out
        return self.p.exc_names(self.cur.fi.module, node)

    # with
    def s_With(self, n, st):
        return self._with(n, list(n.items), st)

    def _with(self, n, items, st):
        if not items:
            return self.block(n.body, st)
        it, rest = items[0], items[1:]
        # project context manager?
        ce = it.context_expr
        if isinstance(ce, ast.Call):
            out = []
            for k, callee, s in self.eval_callee(ce.func, st):
                if k != "ok":
                    out.append((k, callee, s))
                    continue
                fi = callee[1] if callee[0] in ("fn", "bm") else None
                if fi is not None and fi.is_cm and \
                        len(self.frames) < self.pol.max_depth:
                    for k2, av, s2 in self.eval_args(ce, s):
                        if k2 != "ok":
                            out.append((k2, av, s2))
                            continue
                        args, kw = av
                        if callee[0] == "bm":
                            args = [callee[2]] + args
                        out.extend(self._cm(n, it, rest, fi, args, kw, s2))
                    continue
                for k2, v, s2 in self._call_with(ce, callee, s):
                    if k2 != "ok":
                        out.append((k2, v, s2))
                    else:
                        out.extend(self._plain_with(n, it, rest, v, s2))
            return out
        out = []
        for k, v, s in self.eval(ce, st):
            if k != "ok":
                out.append((k, v, s))
            else:
                out.extend(self._plain_with(n, it, rest, v, s))
        return out

    def _plain_with(self, n, it, rest, v, s):
        r = self.pol.on_with(self, s, n, v, True)
        if r is not None:
            s = r
        states = [("next", None, s)]
        if it.optional_vars is not None:
            states = self.assign(it.optional_vars, v, s)
        out = []
        for k, x, s2 in states:
            if k != "next":
                out.append((k, x, s2))
                continue
            self.handlers.append(["BaseException"])
            try:
                res = self._with(n, rest, s2)
            finally:
                self.handlers.pop()
            for k2, x2, s3 in res:
                r = self.pol.on_with(self, s3, n, v, False)
                out.append((k2, x2, s3 if r is None else r))
        return out

    def _cm(self, n, it, rest, fi, args, kw, st):
        """Inline a generator based context manager around the with body."""
        outer_env = st.env
        frames = self.frames
        bound = self._bind_args(fi, args, kw, st)
        if bound is None:
            return self._plain_with(n, it, rest, ("call", fi.qual, tuple(args),
                                                  self.site(n)), st)
        depth = len(frames)

        def run_body(value, s):
            inner_env = s.env
            saved = self.frames[depth:]
            del self.frames[depth:]
            s1 = s.fork(env=s.mon_env[0]) if False else s.fork(env=outer_env)
            states = [("next", None, s1)]
            if it.optional_vars is not None:
                states = self.assign(it.optional_vars, value, s1)
            res = []
            try:
                for k, x, s2 in states:
                    if k != "next":
                        res.append((k, x, s2))
                    else:
                        res.extend(self._with(n, rest, s2))
            finally:
                self.frames.extend(saved)
            out = []
            for k, x, s2 in res:
                e2 = dict(inner_env)
                e2["$outer"] = ("env", tuple(sorted(s2.env.items(),
                                                    key=lambda z: z[0])))
                s3 = s2.fork(env=e2)
                if k == "next":
                    out.append(("ok", NONE, s3))
                elif k == "exc":
                    out.append(("exc", x, s3))
                else:
                    out.append(("exc", ("unwind", k, x), s3))
            return out

        fr = _Frame(fi, fi.cls, {}, args[0] if fi.cls and args else None)
        fr.cm_body = run_body
        self.frames.append(fr)
        try:
            res = self._body(fi, st.fork(env=bound))
        finally:
            self.frames.pop()
        out = []
        for k, v, s in res:
            oe = s.env.get("$outer")
            env = dict(oe[1]) if oe else outer_env
            s2 = s.fork(env=env)
            if k == "exc" and v[0] == "unwind":
                out.append((v[1], v[2], s2))
            elif k == "exc":
                out.append(("exc", v, s2))
            else:
                out.append(("next", None, s2))
        return self._merge(out)

    # loops
    def s_While(self, n, st):
        if not self.pol.unroll_while:
            return self._loop(n, st, None)
        live, out = [st], []
        for i in range(self.pol.unroll_while + 1):
            nxt = []
            for s in live:
                for k, v, s1 in self.eval(n.test, s):
                    if k != "ok":
                        out.append((k, v, s1))
                        continue
                    for k2, b, s2 in self.truth(n.test, v, s1):
                        if not b:
                            if n.orelse:
                                out.extend(self.block(n.orelse, s2))
                            else:
                                out.append(("next", None, s2))
                            continue
                        if i == self.pol.unroll_while:
                            raise Budget("%s: a loop goes on" %
                                         self.site(n)[0])
                        for k3, v3, s3 in self.block(n.body, s2):
                            if k3 in ("next", "cont"):
                                nxt.append(("next", None, s3))
                            elif k3 == "brk":
                                out.append(("next", None, s3))
                            else:
                                out.append((k3, v3, s3))
            live = [s for _, _, s in self._merge(nxt)] if nxt else []
            if not live:
                break
        return self._merge(out) if len(out) > 1 else out

    def s_For(self, n, st):
        out = []
        for k, it, s in self.eval(n.iter, st):
            if k != "ok":
                out.append((k, it, s))
                continue
            elts = None
            if it[0] in ("tuple", "const"):
                elts = self._known_elts(it, s)
                if elts is None and it[0] == "const" and it[1] in ("", b""):
                    elts = []
            elif it[0] == "obj" and it[2] in ("list", "gen", "set") and \
                    not (
                    isinstance(n.iter, ast.Name) and any(
                        isinstance(x, ast.Name) and x.id == n.iter.id
                        for b in n.body for x in ast.walk(b))):
                elts = self._exact(it, s)
            elif it[0] == "obj" and it[2] == "dict":
                elts = self._dkeys(it, s)
            if elts is not None and len(elts) <= self.pol.unroll:
                out.extend(self._unroll(n, s, it, elts))
            else:
                out.extend(self._loop(n, s, it))
        return self._merge(out) if len(out) > 1 else out

    s_AsyncFor = s_For

    def _unroll(self, n, st, it, elts):
        r = self.pol.on_loop(self, st, n, it)
        live = [st if r is None else r]
        out = []
        for e in elts:
            nxt = []
            for s in live:
                r = self.pol.on_iter(self, s, n, it, e)
                s = s if r is None else r
                for k, v, s1 in self.assign(n.target, e, s):
                    if k != "next":
                        out.append((k, v, s1))
                        continue
                    for k2, v2, s2 in self.block(n.body, s1):
                        if k2 in ("next", "cont"):
                            r = self.pol.on_iter_end(self, s2, n, k2)
                            nxt.append(("next", None, s2 if r is None else r))
                        elif k2 == "brk":
                            out.append(("next", None, s2))
                        else:
                            out.append((k2, v2, s2))
            live = [s for _, _, s in self._merge(nxt)] if nxt else []
        for s in live:
            if n.orelse:
                out.extend(self.block(n.orelse, s))
            else:
                out.append(("next", None, s))
        return out

    def _loop(self, n, st, it):
        r = self.pol.on_loop(self, st, n, it)
        if r is not None:
            st = r
        site = self.site(n)
        lo, hi = n.lineno, getattr(n, "end_lineno", n.lineno)
        mod = self.cur.fi.module.name
        depth = len(self.frames)
        elem = ("iter", it, site) if it is not None else None
        put = elem
        if it is not None and it[0] == "pcall" and it[1] == "enumerate" and \
                it[2]:
            # the number of the round and an element of what is counted
            it = it[2][0]
            elem = ("iter", it, site)
            put = ("tuple", (("loopval", site, "#"), elem))
        inner_memo = {}

        def inner(t):
            """does a term originate from inside this loop's body?"""
            def p(x):
                if x == elem:
                    return True
                s = x[-1]
                if isinstance(s, tuple) and len(s) == 4 and \
                        isinstance(s[0], str) and isinstance(s[1], int) and \
                        isinstance(s[3], int):
                    if s[3] > depth:
                        return True
                    return s[0] == mod and s[3] == depth and lo <= s[1] <= hi
                return False
            r = inner_memo.get(t)
            if r is None:
                r = inner_memo[t] = contains(t, p)
            return r

        entry = st

        def norm(s, widen):
            env, heap, facts = {}, {}, {}
            for k, v in s.env.items():
                if entry.env.get(k) == v:
                    env[k] = v
                elif widen and not is_const(v):
                    env[k] = ("loopval", site, k)
                elif inner(v):
                    env[k] = ("loopval", site, k)
                elif widen and is_const(v) and (
                        rounds >= 5 or isinstance(v[1], (int, float)) and
                        not isinstance(v[1], bool)):
                    env[k] = ("loopval", site, k)
                else:
                    env[k] = v
            for k, v in s.heap.items():
                if entry.heap.get(k) == v:
                    heap[k] = v
                    continue
                if inner(k[0]) or (len(k) > 2 and isinstance(k[2], tuple) and
                                   inner(k[2])):
                    continue
                if k[1] == "elems" and isinstance(v, tuple) and \
                        not (v and isinstance(v[0], str)):
                    heap[k] = tuple(dict.fromkeys(
                        ("loopval", site, _erase(x)) if inner(x) else x
                        for x in v))
                elif inner(v) or widen:
                    heap[k] = ("loopval", site, str(k[-1])[:80]) \
                        if rounds >= 5 or not (is_const(v) and isinstance(
                            v[1], (bool, str, type(None)))) \
                        else v
                else:
                    heap[k] = v
            for c, p in s.facts.items():
                if not inner(c) and not _mentions_changed(c, entry, heap):
                    facts[c] = p
            for k, v in env.items():
                if v == ("loopval", site, k) and _not_none(
                        entry.env.get(k), entry) and _not_none(
                            s.env[k], s):
                    facts[("isnone", v)] = False
            return s.fork(env=env, heap=heap, facts=facts)

        out = []
        seen = set()
        frontier = [st]
        rounds = 0
        exits = []
        while frontier:
            rounds += 1
            nxt = []
            for s in frontier:
                if s.key() in seen:
                    continue
                seen.add(s.key())
                if it is None:
                    starts = []
                    for k, v, s1 in self.cond(n.test, s):
                        if k == "exc":
                            out.append((k, v, s1))
                        elif v:
                            starts.append(s1)
                        else:
                            r = self.pol.on_loop_exit(self, s1, n)
                            exits.append(s1 if r is None else r)
                else:
                    exits.append(s)
                    starts = []
                    for k, v, s1 in self.assign(n.target, put, s):
                        if k == "next":
                            starts.append(s1)
                        else:
                            out.append((k, v, s1))
                for s1 in starts:
                    r = self.pol.on_iter(self, s1, n, it, elem)
                    if r is not None:
                        s1 = r
                    self.abs_loops += 1
                    try:
                        ends = self.block(n.body, s1)
                    finally:
                        self.abs_loops -= 1
                    for k2, v2, s2 in ends:
                        if k2 in ("next", "cont"):
                            r = self.pol.on_iter_end(self, s2, n, k2)
                            if r is not None:
                                s2 = r
                            nxt.append(("next", None, norm(s2, rounds >= 2)))
                        elif k2 == "brk":
                            r = self.pol.on_iter_end(self, s2, n, k2)
                            out.append(("next", None, s2 if r is None else r))
                        else:
                            out.append((k2, v2, s2))
            frontier = [s for _, _, s in self._merge(nxt)] if nxt else []
            if rounds > 12:
                frontier = [s for _, _, s in self._force(
                    [("next", None, s) for s in frontier])]
            if rounds > 25:
                break
        for _, _, s in self._merge([("next", None, e) for e in exits]):
            if n.orelse:
                out.extend(self.block(n.orelse, s))
            else:
                out.append(("next", None, s))
        return self._merge(out)

    # ------------------------------------------------------------ conditions
    def cond(self, node, st):
        """Evaluate as a condition -> [('ok', bool, st) | ('exc', e, st)]"""
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            states = [(None, st)]
            out = []
            live = [st]
            for i, v in enumerate(node.values):
                nx = []
                for s in live:
                    for k, b, s2 in self.cond(v, s):
                        if k == "exc":
                            out.append((k, b, s2))
                        elif b == isand:
                            nx.append(s2)
                        else:
                            out.append(("ok", b, s2))
                live = nx
            out.extend(("ok", isand, s) for s in live)
            return self._merge(out)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(k, (not v) if k == "ok" else v, s)
                    for k, v, s in self.cond(node.operand, st)]
        if isinstance(node, ast.Compare) and len(node.ops) > 1:
            parts = []
            left = node.left
            for op, c in zip(node.ops, node.comparators):
                parts.append(ast.copy_location(
                    ast.Compare(left, [op], [c]), node))
                left = c
            return self.cond(ast.copy_location(
                ast.BoolOp(ast.And(), parts), node), st)
        out = []
        for k, v, s in self.eval(node, st):
            if k != "ok":
                out.append((k, v, s))
                continue
            out.extend(self.truth(node, v, s))
        return out

    def truth(self, node, v, s):
        """Split the state on the truth value of term v."""
        c, pol = self.as_cond(v, s)
        if c is None:
            return [("ok", pol, s)]
        known = self.known(c, s)
        out = []
        for b in (True, False):
            if known is not None and known != b:
                continue
            f = dict(s.facts)
            f[c] = b
            s2 = s.fork(facts=f)
            if known is None:
                s2.path = (s.path + ((self.cur.fi.module.rel,
                                      getattr(node, "lineno", 0),
                                      b == pol),))[-14:]
            r = self.pol.on_branch(self, s2, node, c, b)
            if r is not None:
                s2 = r
            self.branches += 1
            out.append(("ok", b == pol, s2))
        return out

    def as_cond(self, v, s=None):
        """term -> (condterm or None, polarity-or-constant)"""
        if v[0] == "const":
            return None, bool(v[1])
        if v[0] == "cond":
            return v[1], v[2]
        if v[0] in ("fn", "cls", "bm", "clo", "mod", "localcls"):
            return None, True
        if v[0] == "tuple":
            return None, len(v[1]) > 0
        if v[0] == "obj" and v[2] not in ("list", "dict", "set", "gen"):
            return None, True
        if v[0] == "obj" and s is not None and \
                s.heap.get((v, "elems")) == () and \
                not s.heap.get((v, "open")):
            return None, False
        if v[0] == "pcall" and v[1] == "bool" and len(v[2]) == 1 or \
                v[0] == "pcall" and v[1] == "int" and len(v[2]) == 1 and \
                v[2][0][0] == "cond":
            return self.as_cond(v[2][0], s)
        return ("truthy", v), True

    def _plain_class(self, qual):
        """Instances of this class of the project are always true."""
        try:
            c = self.p.cls(qual)
        except AnalysisError:
            return False
        return c is not None and all(
            not isinstance(b, str) or b.split(".")[-1] == "object"
            for k in c.mro() if not isinstance(k, str)
            for b in k.bases) and not any(
                c.find(m) for m in ("__bool__", "__len__", "__nonzero__"))

    def known(self, c, s):
        if c in s.facts:
            return s.facts[c]
        k = c[0]
        if k == "truthy":
            x = c[1]
            if x[0] == "obj" and x[2] in ("list", "set"):
                ex = self._exact(x, s)
                if ex is not None:
                    return bool(ex)
            if x[0] == "obj" and x[2] == "dict" and (x, "closed") in s.heap:
                return any(h[0] == x and h[1] == "item" for h in s.heap)
            if x[0] == "sym" and x[2] and self._plain_class(x[2]):
                return True
            if s.facts.get(("isnone", x)) is True:
                return False
            for f, p in s.facts.items():
                if p and f[0] == "eq":
                    if f[1] == x and is_const(f[2]):
                        return bool(f[2][1])
                    if f[2] == x and is_const(f[1]):
                        return bool(f[1][1])
                if p and f[0] == "lt" and (
                        f[2] == x and is_const(f[1]) and
                        isinstance(f[1][1], (int, float)) and f[1][1] >= 0 or
                        f[1] == x and is_const(f[2]) and
                        isinstance(f[2][1], (int, float)) and f[2][1] <= 0):
                    return True
        elif k == "isnone":
            x = c[1]
            if x[0] in ("bin", "join", "fmt") or x[0] == "pcall" and \
                    x[1] in ("int", "len", "str", "float", "bool", "bytes"):
                return False
            for f, p in s.facts.items():
                if p and f[0] == "lt" and x in f[1:]:
                    return False      # a comparison None does not support
            if s.facts.get(("truthy", x)) is True:
                return False
            for f, p in s.facts.items():
                if p and f[0] == "eq" and x in f[1:]:
                    o = f[2] if f[1] == x else f[1]
                    if is_const(o) and o[1] is not None:
                        return False
        elif k == "eq":
            a, b = c[1], c[2]
            if is_const(a) and not is_const(b):
                a, b = b, a
            if is_const(b):
                for f, p in s.facts.items():
                    if p and f[0] == "eq" and a in f[1:]:
                        o = f[2] if f[1] == a else f[1]
                        if is_const(o) and o[1] != b[1]:
                            return False
                    if p and f[0] == "isnone" and f[1] == a and \
                            b[1] is not None:
                        return False
                    if f[0] == "in" and f[1] == a:
                        els = self._known_elts(f[2], s)
                        if els is not None and all(is_const(e) for e in els):
                            inn = b in els
                            if p and not inn:
                                return False
                            if not p and inn:
                                return False
        elif k == "in":
            els = self._known_elts(c[2], s)
            if els is not None and all(is_const(e) for e in els):
                for f, p in s.facts.items():
                    if p and f[0] == "eq" and c[1] in f[1:]:
                        o = f[2] if f[1] == c[1] else f[1]
                        if is_const(o):
                            return o in els
                if all(s.facts.get(_eq(c[1], e)) is False for e in els):
                    return False
        elif k == "lt":
            a, b = c[1], c[2]
            if s.facts.get(("lt", b, a)) is True:
                return False
            if s.facts.get(_eq(a, b)) is True:
                return False
        return None

    # ------------------------------------------------------------ expressions
    def eval(self, node, st):
        self.steps += 1
        if self.steps > self.pol.max_steps:
            raise Budget("analysis budget exceeded in %s" % self.cur.fi.qual)
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            return [("ok", ("unknown", type(node).__name__, self.site(node)),
                     st)]
        return m(node, st)

    def eval_many(self, nodes, st):
        res = [("ok", [], st)]
        for n in nodes:
            nx = []
            for k, vs, s in res:
                if k != "ok":
                    nx.append((k, vs, s))
                    continue
                for k2, v, s2 in self.eval(n, s):
                    if k2 == "ok":
                        nx.append(("ok", vs + [v], s2))
                    else:
                        nx.append((k2, v, s2))
            res = nx
        return res

    def e_Constant(self, n, st):
        return [("ok", ("const", n.value), st)]

    def e_Name(self, n, st):
        name = n.id
        fr = self.cur
        if name in st.env and name not in fr.globals:
            return [("ok", st.env[name], st)]
        if name in fr.closure and name not in fr.globals:
            return [("ok", fr.closure[name], st)]
        k = (("modobj", fr.fi.module.name), "attr", name)
        if k in st.heap:
            return [("ok", st.heap[k], st)]
        r = self.p.resolve_name(fr.fi.module, name)
        if r:
            return [("ok", self._ent_term(r, fr.fi.module.name, name), st)]
        if name in BUILTINS:
            return [("ok", ("ext", name), st)]
        return [("ok", ("undef", name), st)]

    def _ent_term(self, ents, mod, name):
        """Pick a representative entity; project values win over None
        fallbacks of try/except imports."""
        best = None
        for e in ents:
            if e[0] == "func":
                t = ("fn", e[1])
            elif e[0] == "class":
                t = ("cls", e[1])
            elif e[0] == "mod":
                t = ("mod", e[1])
            elif e[0] == "ext":
                t = ("const", EXT_CONSTS[e[1]]) if e[1] in EXT_CONSTS else \
                    ("ext", e[1])
            else:
                t = self._value_term(e, mod, name)
            if best is None or best == NONE:
                best = t
        return best if best is not None else ("ext", mod + "." + name)

    def _value_term(self, e, mod, name):
        expr, m = e[1], e[2]
        if isinstance(expr, ast.Constant):
            # a module-level constant that some function rebinds is a variable
            if self._is_rebound(m, name):
                return ("gval", m.name, name)
            return ("const", expr.value)
        if isinstance(expr, ast.UnaryOp) and not self._is_rebound(m, name):
            v = self.p.literal(m, expr)
            if isinstance(v, (int, float)):
                return ("const", v)
        if isinstance(expr, ast.Tuple):
            v = self.p.literal(m, expr)
            if _plain(v):
                return _const_term(v)
        if isinstance(expr, (ast.Name, ast.Attribute)):
            for x in self.p.resolve_expr(m, expr):
                if x[0] == "func":
                    return ("fn", x[1])
                if x[0] == "class":
                    return ("cls", x[1])
                if x[0] == "ext":
                    return ("ext", x[1])
                if x[0] == "value" and x[1] is not expr:
                    return self._value_term(x, x[2].name, name)
        return ("gval", m.name, name)

    def const_regex(self, t):
        """The compiled expression a module-level name stands for."""
        key = ("regex", t[1], t[2])
        if key in self._ginits:
            return self._ginits[key]
        self._ginits[key] = None
        m = self.p.modules.get(t[1])
        for e in (m.defs.get(t[2], ()) if m else ()):
            if e[0] != "value" or not isinstance(e[1], ast.Call) or \
                    not e[1].args or len(m.defs[t[2]]) != 1:
                continue
            fn = e[1].func
            nm = fn.attr if isinstance(fn, ast.Attribute) else \
                getattr(fn, "id", "")
            if nm not in ("compile", "Regex") or not isinstance(
                    e[1].args[0], ast.Constant):
                continue
            flags = 0
            fl = list(e[1].args[1:2]) + [k.value for k in e[1].keywords
                                         if k.arg == "flags"]
            ok = True
            for x in fl:
                for y in ast.walk(x):
                    if isinstance(y, ast.Attribute) and isinstance(
                            getattr(re, y.attr, None), re.RegexFlag):
                        flags |= getattr(re, y.attr)
                    elif not isinstance(y, (ast.BinOp, ast.BitOr, ast.Name,
                                            ast.Load)):
                        ok = False
            if ok and not self._is_rebound(m, t[2]):
                try:
                    self._ginits[key] = re.compile(e[1].args[0].value, flags)
                except (re.error, TypeError):
                    pass
        return self._ginits[key]

    def const_keys(self, t):
        """The elements (keys) of a module-level collection of constants."""
        key = ("keys", t[1], t[2])
        if key not in self._ginits:
            self._ginits[key] = None
            m = self.p.modules.get(t[1])
            if m is not None:
                self._ginits[key] = self._keys_of(
                    m, ast.Name(t[2], ast.Load()), 0)
        return self._ginits[key]

    def _keys_of(self, m, e, depth):
        if depth > 6:
            return None
        if isinstance(e, ast.Name):
            ds = m.defs.get(e.id, ())
            if len(ds) != 1 or ds[0][0] != "value" or \
                    self._is_rebound(m, e.id) or self._is_filled(m, e.id):
                return None
            return self._keys_of(ds[0][2], ds[0][1], depth + 1)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            els = e.elts
        elif isinstance(e, ast.Dict):
            els = e.keys
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id in ("frozenset", "set", "tuple", "list", "dict",
                              "sorted") and len(e.args) == 1 and \
                not e.keywords:
            return self._keys_of(m, e.args[0], depth + 1)
        elif isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr,
                                                            ast.Add)):
            a = self._keys_of(m, e.left, depth + 1)
            b = self._keys_of(m, e.right, depth + 1)
            return None if a is None or b is None else a | b
        else:
            return None
        if all(isinstance(x, ast.Constant) for x in els):
            return frozenset(x.value for x in els)
        return None

    def _is_filled(self, m, name):
        """Is a module-level collection changed after it is made?"""
        memo = self.p.__dict__.setdefault("_filled_memo", {})
        k = (m.name, name)
        if k not in memo:
            memo[k] = self._filled(m, name)
        return memo[k]

    def _filled(self, m, name):
        for o in self.p.modules.values():
            for n in ast.walk(o.tree):
                t = None
                if isinstance(n, ast.Subscript) and isinstance(
                        n.ctx, (ast.Store, ast.Del)):
                    t = n.value
                elif isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and \
                        n.func.attr in MUT_METHODS:
                    t = n.func.value
                if isinstance(t, ast.Name) and t.id == name and o is m or \
                        isinstance(t, ast.Attribute) and t.attr == name and \
                        ("mod", m.name) in self.p.resolve_expr(o, t.value):
                    return True
        return False

    def _is_rebound(self, m, name):
        k = (m.name, name)
        memo = self.p.__dict__.setdefault("_rebound_memo", {})
        if k not in memo:
            r = False
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global) and name in n.names:
                    r = True
            # other modules: mod.NAME = ...
            for o in self.p.modules.values():
                if r:
                    break
                for n in ast.walk(o.tree):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and \
                                    t.attr == name and \
                                    isinstance(t.value, (ast.Name,
                                                         ast.Attribute)):
                                for e in self.p.resolve_expr(o, t.value):
                                    if e == ("mod", m.name):
                                        r = True
            memo[k] = r
        return memo[k]

    def e_Tuple(self, n, st):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self._star_seq(n, st, "tuple")
        return [(k, ("tuple", tuple(v)) if k == "ok" else v, s)
                for k, v, s in self.eval_many(n.elts, st)]

    def _star_seq(self, n, st, kind):
        out = []
        for k, vs, s in self.eval_many(
                [e.value if isinstance(e, ast.Starred) else e
                 for e in n.elts], st):
            if k != "ok":
                out.append((k, vs, s))
                continue
            el = []
            ok = True
            for e, v in zip(n.elts, vs):
                if isinstance(e, ast.Starred):
                    x = self._known_elts(v, s)
                    if x is None:
                        ok = False
                        el.append(("star", v))
                    else:
                        el.extend(x)
                else:
                    el.append(v)
            if kind == "tuple":
                out.append(("ok", ("tuple", tuple(el)), s))
            else:
                o, s = self.alloc(n, kind, s)
                s = s.store((o, "elems"), tuple(el))
                if not ok:
                    s = s.store((o, "open"), TRUE)
                out.append(("ok", o, s))
        return out

    def alloc(self, n, kind, s):
        site = self.site(n)
        o = ("obj", site, kind)
        if not self.abs_loops:
            # outside of loops every allocation is an object of its own
            live = {k[0] for k in s.heap if k[0][0] == "obj"}
            i = 0
            while o in live and i < 24:
                i += 1
                o = ("obj", site[:2] + (site[2] + 1000 * i, site[3]), kind)
            if o in live:
                o = ("obj", site, kind)
        h = {k: v for k, v in s.heap.items() if k[0] != o}
        f = s.facts
        if any(has_sub(c, o) for c in f):
            f = {c: p for c, p in f.items()
                 if not has_sub(c, o)}
        return o, s.fork(heap=h, facts=f)

    def _seq(self, n, st, kind, elts):
        if any(isinstance(e, ast.Starred) for e in elts):
            return self._star_seq(n, st, kind)
        out = []
        for k, vs, s in self.eval_many(elts, st):
            if k != "ok":
                out.append((k, vs, s))
                continue
            o, s = self.alloc(n, kind, s)
            h = dict(s.heap)
            h[(o, "elems")] = tuple(vs)
            for i, v in enumerate(vs):
                if kind == "list":
                    h[(o, "item", ("const", i))] = v
            if kind == "list":
                h[(o, "exact")] = ("tuple", tuple(vs))
            elif kind == "set" and all(map(is_const, vs)):
                h[(o, "exact")] = ("tuple", tuple(dict.fromkeys(vs)))
            out.append(("ok", o, s.fork(heap=h)))
        return out

    def e_List(self, n, st):
        return self._seq(n, st, "list", n.elts)

    def e_Set(self, n, st):
        return self._seq(n, st, "set", n.elts)

    def e_Dict(self, n, st):
        nodes = []
        for k, v in zip(n.keys, n.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)
        out = []
        for kk, vs, s in self.eval_many(nodes, st):
            if kk != "ok":
                out.append((kk, vs, s))
                continue
            o, s = self.alloc(n, "dict", s)
            h = dict(s.heap)
            i = 0
            els = []
            for k, v in zip(n.keys, n.values):
                if k is None:
                    h[(o, "open")] = vs[i]
                    i += 1
                    continue
                h[(o, "item", vs[i])] = vs[i + 1]
                els.append(vs[i + 1])
                i += 2
            h[(o, "elems")] = tuple(dict.fromkeys(els))
            ks = [vs[2 * j] for j in range(len(n.keys))] \
                if None not in n.keys else None
            if ks is not None and all(map(is_const, ks)):
                h[(o, "dkeys")] = ("tuple", tuple(dict.fromkeys(ks)))
                h[(o, "closed")] = TRUE
            out.append(("ok", o, s.fork(heap=h)))
        return out

    def _dkeys(self, o, s):
        """The keys of a dictionary known exactly, in order."""
        k = s.heap.get((o, "dkeys")) if o[0] == "obj" else None
        return k[1] if k is not None and k[0] == "tuple" else None

    def _closed_items(self, o, s):
        """{key: value} of a dictionary (or pairs) known exactly."""
        ks = self._dkeys(o, s)
        if ks is not None and (o, "closed") in s.heap:
            d = {k: s.heap.get((o, "item", k)) for k in ks}
            return None if None in d.values() else d
        ex = self._exact(o, s)
        if ex is not None and all(x[0] == "tuple" and len(x[1]) == 2 and
                                  is_const(x[1][0]) for x in ex):
            return {x[1][0]: x[1][1] for x in ex}
        return None

    def _const_set(self, v, s):
        """The set of constants a term is known to be made of."""
        ex = self._exact(v, s)
        if ex is None and v[0] in ("tuple", "const"):
            ex = self._known_elts(v, s)
        if ex is None and v[0] == "obj" and v[2] == "dict" and \
                (v, "closed") in s.heap:
            ex = self._dkeys(v, s)
        if ex is None or not all(map(is_const, ex)):
            return None
        return {e[1] for e in ex}

    def _set_op(self, n, name, a, b, s):
        x, y = self._const_set(a, s), self._const_set(b, s)
        if x is None or y is None:
            return None
        r = getattr(x, name)(y)
        if isinstance(r, bool):
            return [("ok", ("const", r), s)]
        return self._mkset(n, r, s)

    def _mkset(self, n, vals, s):
        o, s = self.alloc(n, "set", s)
        vs = tuple(("const", v) for v in sorted(vals, key=repr))
        s = s.store((o, "elems"), vs).store((o, "exact"), ("tuple", vs))
        return [("ok", o, s)]

    def _set_dkeys(self, o, s, keys):
        if (o, "dkeys") not in s.heap:
            return s
        if keys is None or not all(map(is_const, keys)):
            h = dict(s.heap)
            del h[(o, "dkeys")]
            return s.fork(heap=h)
        keys = ("tuple", tuple(dict.fromkeys(keys)))
        if keys == s.heap[(o, "dkeys")]:
            return s
        return s.store((o, "dkeys"), keys)

    def e_JoinedStr(self, n, st):
        nodes = [v for v in n.values]
        return [(k, ("fmt", "f", tuple(v)) if k == "ok" else v, s)
                for k, v, s in self.eval_many(nodes, st)]

    def e_FormattedValue(self, n, st):
        return self.eval(n.value, st)

    def e_Starred(self, n, st):
        return [(k, ("star", v) if k == "ok" else v, s)
                for k, v, s in self.eval(n.value, st)]

    def e_NamedExpr(self, n, st):
        out = []
        for k, v, s in self.eval(n.value, st):
            if k == "ok":
                out.append(("ok", v, self._bind_name(s, n, n.target.id, v)))
            else:
                out.append((k, v, s))
        return out

    def e_Lambda(self, n, st):
        fi = self.p.nested(self.cur.fi).get(n) or FuncInfo(
            self.cur.fi.module, n, self.cur.fi.cls, self.cur.fi)
        return [("ok", self._closure(fi, st), st)]

    def e_IfExp(self, n, st):
        out = []
        for k, v, s in self.cond(n.test, st):
            if k == "exc":
                out.append((k, v, s))
            else:
                out.extend(self.eval(n.body if v else n.orelse, s))
        return out

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        live = [st]
        out = []
        last = len(n.values) - 1
        for i, v in enumerate(n.values):
            nx = []
            for s in live:
                for k, t, s2 in self.eval(v, s):
                    if k != "ok" or i == last:
                        out.append((k, t, s2))
                        continue
                    for _, b, s3 in self.truth(v, t, s2):
                        if b == isand:
                            nx.append(s3)
                        else:
                            # the value is t with known truthiness
                            if t[0] == "cond":
                                t2 = ("const", t[2] == s3.facts.get(t[1]))
                                out.append(("ok", t2, s3))
                            else:
                                out.append(("ok", t, s3))
            live = nx
        return out

    def e_UnaryOp(self, n, st):
        out = []
        for k, v, s in self.eval(n.operand, st):
            if k != "ok":
                out.append((k, v, s))
                continue
            if isinstance(n.op, ast.Not):
                c, pol = self.as_cond(v, s)
                out.append(("ok", ("const", not pol) if c is None
                            else ("cond", c, not pol), s))
            elif isinstance(n.op, ast.USub) and is_const(v) and \
                    isinstance(v[1], (int, float)):
                out.append(("ok", ("const", -v[1]), s))
            else:
                out.append(("ok", ("un", type(n.op).__name__, v), s))
        return out

    def binop(self, op, a, b):
        if is_const(a) and is_const(b):
            try:
                x, y = a[1], b[1]
                if op == "Add":
                    return ("const", x + y)
                if op == "Sub":
                    return ("const", x - y)
                if op == "Mult":
                    return ("const", x * y)
            except Exception:
                pass
        if op == "Mod" and is_const(a) and isinstance(a[1], (str, bytes)):
            parts = b[1] if b[0] == "tuple" else (b,)
            if is_const(a) and isinstance(a[1], str) and all(
                    is_const(x) and isinstance(x[1], (str, int, float))
                    for x in parts):
                try:
                    return ("const", a[1] % tuple(x[1] for x in parts))
                except (TypeError, ValueError):
                    pass
            return ("fmt", a, parts)
        if op == "Add" and a[0] == "tuple" and b[0] == "tuple":
            return ("tuple", a[1] + b[1])
        return ("bin", op, a, b)

    def e_BinOp(self, n, st):
        out = []
        for k, vs, s in self.eval_many([n.left, n.right], st):
            if k != "ok":
                out.append((k, vs, s))
                continue
            if isinstance(n.op, ast.Add) and all(
                    v[0] == "obj" and v[2] == "list" for v in vs):
                a, b = self._exact(vs[0], s), self._exact(vs[1], s)
                if a is not None and b is not None and len(a + b) < 64:
                    out.append(self._new_list(n, a + b, s))
                    continue
            if isinstance(n.op, ast.Mult) and vs[0][0] == "obj" and \
                    is_const(vs[1]) and isinstance(vs[1][1], int):
                a = self._exact(vs[0], s)
                if a is not None and vs[0][2] == "list" and \
                        len(a) * vs[1][1] < 64:
                    out.append(self._new_list(n, list(a) * vs[1][1], s))
                    continue
            op = type(n.op).__name__
            if op == "Mod" and is_const(vs[0]):
                r = self._fill(n, vs[0][1], vs[1], s)
                if r is not None:
                    out.append(r)
                    continue
            if op in ("BitAnd", "BitOr", "BitXor", "Sub") and \
                    vs[0][0] == "obj" and vs[0][2] == "set":
                nm = [k for k, x in SET_OPS.items() if x == op][0]
                r = self._set_op(n, nm, vs[0], vs[1], s)
                if r is not None:
                    out.extend(r)
                    continue
            out.append(("ok", self.binop(op, *vs), s))
        return out

    def _fill(self, n, tmpl, d, s):
        """A constant text with %(key)s fields filled from a known dict."""
        if not isinstance(tmpl, str) or d[0] != "obj" or d[2] != "dict" or \
                (d, "closed") not in s.heap:
            return None
        ps = re.split(r"(%\([^()]*\)[-#0 +]*\d*(?:\.\d+)?[a-zA-Z]|%%)", tmpl)
        if any("%" in x for x in ps[::2]):
            return None
        vals = []
        for i, x in enumerate(ps):
            if i % 2 == 0:
                if x:
                    vals.append(("const", x))
                continue
            if x == "%%":
                vals.append(("const", "%"))
                continue
            key, spec = x[2:].split(")", 1)
            v = s.heap.get((d, "item", ("const", key)))
            if v is None:
                return ("exc", ("exc", "KeyError", self.site(n)), s)
            if is_const(v):
                try:
                    v = ("const", ("%" + spec) % v[1])
                except (TypeError, ValueError):
                    return None
            elif spec != "s":
                v = ("fmt", ("const", "%" + spec), (v,))
            vals.append(v)
        if all(is_const(v) for v in vals):
            return ("ok", ("const", "".join(v[1] for v in vals)), s)
        return ("ok", ("fmt", "f", tuple(vals)), s)

    def _new_list(self, n, vals, s, kind="list"):
        o, s = self.alloc(n, kind, s)
        s = s.store((o, "elems"), tuple(dict.fromkeys(vals)))
        return ("ok", o, s.store((o, "exact"), ("tuple", tuple(vals))))

    def e_Compare(self, n, st):
        if len(n.ops) > 1:
            out = []
            for k, v, s in self.cond(n, st):
                out.append((k, ("const", v) if k == "ok" else v, s))
            return out
        out = []
        for k, vs, s in self.eval_many([n.left, n.comparators[0]], st):
            if k != "ok":
                out.append((k, vs, s))
            else:
                out.append(("ok", self.compare(n.ops[0], vs[0], vs[1], s), s))
        return out

    def compare(self, op, a, b, s):
        on = type(op).__name__
        if is_const(a) and is_const(b):
            try:
                x, y = a[1], b[1]
                r = {"Eq": lambda: x == y, "NotEq": lambda: x != y,
                     "Lt": lambda: x < y, "LtE": lambda: x <= y,
                     "Gt": lambda: x > y, "GtE": lambda: x >= y,
                     "Is": lambda: x is y, "IsNot": lambda: x is not y,
                     "In": lambda: x in y, "NotIn": lambda: x not in y}[on]()
                return ("const", bool(r))
            except Exception:
                pass
        if on in ("Is", "Eq") and b == NONE or on in ("Is", "Eq") and \
                a == NONE:
            x = a if b == NONE else b
            if x[0] in ("obj", "tuple", "fn", "cls", "bm", "fmt", "clo"):
                return FALSE
            return ("cond", ("isnone", x), True)
        if on in ("IsNot", "NotEq") and (b == NONE or a == NONE):
            x = a if b == NONE else b
            if x[0] in ("obj", "tuple", "fn", "cls", "bm", "fmt", "clo"):
                return TRUE
            return ("cond", ("isnone", x), False)
        if on in ("Eq", "Is"):
            if a == b and a[0] != "unknown":
                return TRUE
            if on == "Is" and b in (TRUE, FALSE):
                return ("cond", _eq(a, b), True)
            return ("cond", _eq(a, b), True)
        if on in ("NotEq", "IsNot"):
            if a == b and a[0] != "unknown":
                return FALSE
            return ("cond", _eq(a, b), False)
        if on == "Lt":
            return ("cond", ("lt", a, b), True)
        if on == "GtE":
            return ("cond", ("lt", a, b), False)
        if on == "Gt":
            return ("cond", ("lt", b, a), True)
        if on == "LtE":
            return ("cond", ("lt", b, a), False)
        if on in ("In", "NotIn"):
            if is_const(a) and b[0] == "gval":
                ks = self.const_keys(b)
                if ks is not None:
                    return ("const", (a[1] in ks) == (on == "In"))
            if is_const(a) and s is not None and (b, "closed") in s.heap:
                r = (b, "item", a) in s.heap
                return ("const", r if on == "In" else not r)
            els = self._known_elts(b, s)
            ex = self._exact(b, s) if b[0] == "obj" else None
            if ex is not None and is_const(a) and all(map(is_const, ex)):
                r = a in ex
                return ("const", r if on == "In" else not r)
            if els is not None and is_const(a) and \
                    all(is_const(e) for e in els) and b[0] != "obj":
                r = a in els
                return ("const", r if on == "In" else not r)
            if els is not None and len(els) == 1 and b[0] != "obj":
                return self.compare(ast.Eq() if on == "In" else ast.NotEq(),
                                    a, els[0], s)
            return ("cond", ("in", a, b), on == "In")
        return ("unknown", on, a, b)

    def _known_elts(self, v, s):
        if v is None:
            return None
        if v[0] == "tuple":
            if any(e[0] == "star" for e in v[1]):
                return None
            return list(v[1])
        if v[0] == "const" and isinstance(v[1], tuple):
            return [("const", x) for x in v[1]]
        if v[0] == "obj" and v[2] in ("list", "set") and s is not None:
            if (v, "open") in s.heap:
                return None
            e = s.heap.get((v, "elems"))
            if isinstance(e, tuple) and not (e and isinstance(e[0], str)):
                return list(e)
        return None

    def _exact(self, v, s):
        """The elements of a list known exactly, in order."""
        if v[0] == "tuple":
            if any(e[0] == "star" for e in v[1]):
                return None
            return v[1]
        if v[0] == "obj" and s is not None:
            e = s.heap.get((v, "exact"))
            if isinstance(e, tuple) and e and e[0] == "tuple":
                return e[1]
        return None

    def e_Subscript(self, n, st):
        out = []
        for k, vs, s in self.eval_many([n.value, n.slice], st):
            if k != "ok":
                out.append((k, vs, s))
                continue
            b, key = vs
            out.extend(self.load_item(n, b, key, s))
        return out

    def load_item(self, n, b, key, s):
        if b[0] == "tuple" and is_const(key) and isinstance(key[1], int) and \
                -len(b[1]) <= key[1] < len(b[1]) and \
                not any(e[0] == "star" for e in b[1]):
            return [("ok", b[1][key[1]], s)]
        if b[0] == "tuple" and is_const(key) and isinstance(key[1], int) and \
                not isinstance(key[1], bool) and \
                not any(e[0] == "star" for e in b[1]):
            return [("exc", ("exc", "IndexError", self.site(n)), s)]
        if is_const(b) and isinstance(b[1], (str, bytes)) and \
                key[0] == "slice" and all(map(is_const, key[1:])):
            try:
                return [("ok", ("const", b[1][slice(
                    *[x[1] for x in key[1:]])]), s)]
            except Exception:
                pass
        if is_const(b) and is_const(key):
            try:
                return [("ok", ("const", b[1][key[1]]), s)]
            except (IndexError, KeyError) as e:
                return [("exc", ("exc", type(e).__name__, self.site(n)), s)]
            except Exception:
                pass
        hk = (b, "item", key)
        if hk in s.heap:
            return [("ok", s.heap[hk], s)]
        if b[0] == "obj" and b[2] == "list" and is_const(key) and \
                isinstance(key[1], int):
            ex = self._exact(b, s)
            if ex is not None and -len(ex) <= key[1] < len(ex):
                return [("ok", ex[key[1]], s)]
            if ex is not None:
                return [("exc", ("exc", "IndexError", self.site(n)), s)]
        if is_const(key) and (b, "closed") in s.heap:
            return [("exc", ("exc", "KeyError", self.site(n)), s)]
        if b[0] in ("gval", "clsattr"):
            r = self._table_item(n, b, key, s)
            if r is not None:
                return r
        if b[0] in ("const", "tuple") and key[0] == "slice":
            el = self._known_elts(b, s)
            if el is not None and all(is_const(x) for x in key[1:]):
                try:
                    return [("ok", ("tuple", tuple(
                        el[slice(*[x[1] for x in key[1:]])])), s)]
                except Exception:
                    pass
        out = [("ok", ("item", b, key), s)]
        if self.pol.known_exc:
            e = self._item_exc(b, key, s)
            if e:
                out.append(("exc", ("exc", e, self.site(n)), s))
        elif self._catches("KeyError", "IndexError"):
            if s.facts.get(("in", key, b)) is not True:
                nm = "KeyError"
                if self._catches("IndexError") and \
                        not self._catches("KeyError"):
                    nm = "IndexError"
                out.append(("exc", ("exc", nm, self.site(n)), s))
        return out

    def _all_bools(self, e):
        """A table over every combination of truth values."""
        ks = set()
        for k in e.keys:
            try:
                v = ast.literal_eval(k)
            except (ValueError, TypeError):
                return False
            v = v if isinstance(v, tuple) else (v,)
            if not all(isinstance(x, bool) for x in v):
                return False
            ks.add(v)
        return bool(ks) and len(ks) == 2 ** len(min(ks, key=len))

    def _len_is(self, t, n, s):
        """Is the length known to be n?"""
        ln = ("pcall", "len", (t,))
        return s.facts.get(_eq(ln, ("const", n))) is True

    def _len_over(self, t, i, s):
        """Is the length known to be enough for index i?"""
        need = i + 1 if i >= 0 else -i
        ln = ("pcall", "len", (t,))
        if need == 1 and s.facts.get(("truthy", t)) is True:
            return True
        for c, p in s.facts.items():
            if c[0] == "eq" and p and ln in c[1:]:
                o = c[2] if c[1] == ln else c[1]
                if is_const(o) and isinstance(o[1], int) and o[1] >= need:
                    return True
            elif c[0] == "lt" and ln in c[1:]:
                o = c[2] if c[1] == ln else c[1]
                if not (is_const(o) and isinstance(o[1], int)):
                    continue
                if c[1] == ln and not p and o[1] >= need:
                    return True         # not len < need
                if c[2] == ln and p and o[1] + 1 >= need:
                    return True         # i < len
        return False

    def _has_sep(self, t, n, s):
        """Is the text split by a separator known to occur in it (so that
        there are two parts, exactly two with a maximum of one split)?"""
        if not t[3] or t[3][0] == NONE:
            return False
        if n is not None and (n != 2 or len(t[3]) < 2 or
                              t[3][1] not in (("const", 1),
                                              ("kw", "maxsplit",
                                               ("const", 1)))):
            return False
        sep = t[3][0]
        return s.facts.get(("in", sep, t[1])) is True or (
            not is_const(sep) and contains(sep, lambda x: x == t[1]))

    def _item_exc(self, b, key, s):
        """The error this subscription is known to be able to raise."""
        if s.facts.get(("in", key, b)) is True:
            return None
        r = self.pol.item_exc(self, s, b, key)
        if r is not None:
            return r or None
        if is_const(key) and isinstance(key[1], int) and \
                self._len_over(b, key[1], s):
            return None
        if b[0] == "mcall" and b[2] in ("split", "rsplit", "splitlines"):
            if b[2] != "splitlines" and b[3] and b[3][0] != NONE and \
                    key in (("const", 0), ("const", -1)):
                return None
            if b[2] != "splitlines" and self._has_sep(b, None, s) and \
                    key in (("const", 1), ("const", -2)):
                return None
            return "IndexError"
        if b[0] in ("gval", "clsattr") and not is_const(key):
            e = self._table_expr(b)[0]
            if isinstance(e, ast.Dict) and self._all_bools(e):
                return None
            if isinstance(e, (ast.Dict, ast.DictComp)) or (
                    isinstance(e, ast.Call) and
                    (dotted(e.func) or "").split(".")[-1] in
                    ("dict", "OrderedDict")):
                return "KeyError"
        return None

    def _table_expr(self, b):
        """AST and module of a module/class level table."""
        if b[0] == "gval":
            m = self.p.modules.get(b[1])
            for d in (m.defs.get(b[2], ()) if m else ()):
                if d[0] == "value":
                    return d[1], d[2]
        elif b[0] == "clsattr":
            c = self.p.classes.get(b[1])
            v, cc = c.find_attr(b[2]) if c else (None, None)
            if v is not None:
                return v, cc.module
        return None, None

    def _table_item(self, n, b, key, s):
        """Lookup with a constant key in a literal module-level table."""
        k = _plain_of(key)
        if k is _NOPLAIN:
            return None
        e, m = self._table_expr(b)
        if not isinstance(e, ast.Dict):
            return None
        for kn, vn in zip(e.keys, e.values):
            if kn is None:
                return None
            try:
                if self.p.literal(m, kn) == k:
                    fi = FuncInfo(m, ast.copy_location(ast.Lambda(
                        ast.arguments([], [], None, [], [], None, []), vn),
                        vn))
                    return self.call_closure(n, ("clo", fi, (), None), [],
                                             {}, s)
            except TypeError:
                return None
        return [("exc", ("exc", "KeyError", self.site(n)), s)]

    def e_Slice(self, n, st):
        nodes = [x if x is not None else ast.Constant(None)
                 for x in (n.lower, n.upper, n.step)]
        return [(k, ("slice",) + tuple(v) if k == "ok" else v, s)
                for k, v, s in self.eval_many(nodes, st)]

    def stored_attrs(self):
        if self._stored_attrs is None:
            out = set()
            for m in self.p.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and \
                            isinstance(n.ctx, (ast.Store, ast.Del)):
                        out.add(n.attr)
                    elif isinstance(n, ast.Call) and \
                            isinstance(n.func, ast.Name) and \
                            n.func.id == "setattr" and len(n.args) > 1 and \
                            isinstance(n.args[1], ast.Constant):
                        out.add(n.args[1].value)
            self._stored_attrs = out
        return self._stored_attrs

    def typeof(self, t, s=None):
        k = t[0]
        if k in ("sym", "obj"):
            q = t[2]
            if q and q in self.p.classes:
                return self.p.classes[q]
            return None
        if k == "attr":
            bc = self.typeof(t[1], s)
            if bc is not None:
                ts = self.p.attr_types(bc).get(t[2])
                if ts and len(ts) == 1:
                    return next(iter(ts))
            q = self.pol.attr_seeds.get(t[2])
            if q:
                return self.p.classes.get(q)
        return None

    def e_Attribute(self, n, st):
        out = []
        for k, b, s in self.eval(n.value, st):
            if k != "ok":
                out.append((k, b, s))
                continue
            out.extend(self.load_attr(n, b, n.attr, s))
        return out

    def load_attr(self, n, b, name, s):
        hk = (b, "attr", name)
        if hk in s.heap:
            return [("ok", s.heap[hk], s)]
        r = self.pol.on_attr_load(self, s, n, b, name)
        if isinstance(r, St):
            s = r
        elif r is not None:
            return r
        if b[0] == "superobj" and b[1] is not None and \
                b[2] in self.p.classes:
            me, cls = b[1], self.p.classes[b[2]]
            c = me[1] if me[0] == "cls" else (self.typeof(me, s) or cls)
            f = c.find_after(cls, name)
            if f is not None:
                return [("ok", ("fn", f) if f.is_static else
                         ("bm", f, me), s)]
        if b[0] in ("mod", "ext", "cls"):
            if b[0] == "mod":
                hk2 = (("modobj", b[1]), "attr", name)
                if hk2 in s.heap:
                    return [("ok", s.heap[hk2], s)]
            ent = ("class", b[1]) if b[0] == "cls" else b
            r = self.p.member(ent, name)
            if b[0] == "cls":
                f = b[1].find(name)
                if f is not None:
                    if f.is_class:
                        return [("ok", ("bm", f, b), s)]
                    return [("ok", ("fn", f), s)]
                v, c = b[1].find_attr(name)
                if v is not None:
                    return [("ok", self._class_value(v, c, name), s)]
                return [("ok", ("attr", b, name), s)]
            if r:
                return [("ok", self._ent_term(r, b[1], name), s)]
            full = b[1] + "." + name
            if full in EXT_CONSTS:
                return [("ok", ("const", EXT_CONSTS[full]), s)]
            return [("ok", ("ext", full), s)]
        c = self.typeof(b, s)
        if c is not None:
            f = c.find(name)
            if f is not None:
                if f.is_property:
                    if f.qual in self.pol.opaque:
                        return [("ok", ("attr", b, name), s)]
                    return self.call_func(n, f, [b], {}, s, b)
                if f.is_static:
                    return [("ok", ("fn", f), s)]
                if f.is_class:
                    return [("ok", ("bm", f, ("cls", c)), s)]
                return [("ok", ("bm", f, b), s)]
            v, cc = c.find_attr(name)
            if v is not None and name not in self.stored_attrs():
                return [("ok", self._class_value(v, cc, name), s)]
        out = [("ok", ("attr", b, name), s)]
        if self.pol.known_exc:
            if b[0] == "call" and b[1][0] == "meth" and b[1][2] in (
                    "match", "search", "fullmatch") and \
                    s.facts.get(("isnone", b)) is not False and \
                    s.facts.get(("truthy", b)) is not True:
                out.append(("exc", ("exc", "AttributeError", self.site(n)),
                            s))
        elif self._catches("AttributeError") and b[0] != "sym":
            hs = [h for x in self.handlers for h in x]
            if "AttributeError" in hs:
                out.append(("exc", ("exc", "AttributeError", self.site(n)),
                            s))
        return out

    def _class_value(self, v, c, name):
        lit = self.p.literal(c.module, v, c)
        if _plain(lit):
            return _const_term(lit)
        return ("clsattr", c.qual, name)

    # comprehension
    def e_ListComp(self, n, st):
        return self._comp(n, st, "list", [n.elt])

    def e_SetComp(self, n, st):
        return self._comp(n, st, "set", [n.elt])

    def e_GeneratorExp(self, n, st):
        return self._comp(n, st, "gen", [n.elt])

    def e_DictComp(self, n, st):
        return self._comp(n, st, "dict", [n.key, n.value])

    def _comp_exact(self, n, st, kind, elts):
        """The comprehension over exactly known elements, evaluated in order;
        None if a step has several outcomes."""
        g = n.generators[0]
        if len(n.generators) != 1 or g.is_async:
            return None
        its = self.eval(g.iter, st)
        if len(its) != 1 or its[0][0] != "ok":
            return None
        s = its[0][2]
        ex = self._exact(its[0][1], s)
        if ex is None or len(ex) > 64:
            return None
        vals, out = [], []

        def one(res):
            oks = [r for r in res if r[0] in ("ok", "next")]
            out.extend(r for r in res if r[0] == "exc")
            return oks[0] if len(oks) == 1 and all(
                r[0] in ("ok", "next", "exc") for r in res) else None
        for cand in ex:
            r = one(self.assign(g.target, cand, s))
            if r is None:
                return None
            s, take = r[2], True
            for c in g.ifs:
                r = one(self.cond(c, s))
                if r is None:
                    return None
                s = r[2]
                if not r[1]:
                    take = False
                    break
            if not take:
                continue
            r = one(self.eval_many(elts, s))
            if r is None or not all(map(_definite, r[1])) or \
                    len(r[1]) > 1 and not is_const(r[1][0]):
                return None
            vals.append(tuple(r[1]))
            s = r[2]
        s = s.fork(env=st.env)
        out = [(k, v, x.fork(env=st.env)) for k, v, x in out]
        if kind == "dict":
            d = dict(vals)
            o, s = self.alloc(n, "dict", s)
            h = dict(s.heap)
            for k, v in d.items():
                h[(o, "item", k)] = v
            h[(o, "elems")] = tuple(dict.fromkeys(d.values()))
            h[(o, "dkeys")] = ("tuple", tuple(d))
            h[(o, "closed")] = ("const", True)
            return [("ok", o, s.fork(heap=h))] + out
        vs = tuple(v[0] for v in vals)
        if kind == "set":
            vs = tuple(dict.fromkeys(vs))
        o, s = self.alloc(n, "set" if kind == "set" else "list", s)
        s = s.store((o, "elems"), tuple(dict.fromkeys(vs)))
        s = s.store((o, "exact"), ("tuple", vs))
        return [("ok", o, s)] + out

    def _comp(self, n, st, kind, elts):
        r = self._comp_exact(n, st, kind, elts)
        if r is not None:
            return r
        env0 = st.env
        results = []
        its = []

        def go(i, s, conds):
            if i == len(n.generators):
                for k, vs, s2 in self.eval_many(elts, s):
                    results.append((k, vs, s2, conds))
                return
            g = n.generators[i]
            for k, it, s2 in self.eval(g.iter, s):
                if k != "ok":
                    results.append((k, it, s2, conds))
                    continue
                if i == 0:
                    its.append((it, s2))
                elem = ("iter", it, self.site(n))
                el = self._known_elts(it, s2)
                cands = el if el is not None and 0 < len(el) <= 8 and \
                    it[0] != "obj" else [elem]
                if i == 0:
                    ex = self._exact(it, s2)
                    if ex is not None and len(ex) <= 16:
                        cands = list(ex)
                for cand in cands:
                    for k3, v3, s3 in self.assign(g.target, cand, s2):
                        if k3 != "next":
                            results.append((k3, v3, s3, conds))
                            continue
                        live = [(s3, conds)]
                        for c in g.ifs:
                            nx = []
                            for s4, cs in live:
                                for k5, b, s5 in self.cond(c, s4):
                                    if k5 == "exc":
                                        results.append((k5, b, s5, cs))
                                    elif b:
                                        new = tuple(
                                            (f, p) for f, p in
                                            s5.facts.items()
                                            if f not in s4.facts)
                                        nx.append((s5, cs + new))
                            live = nx
                        for s4, cs in live:
                            go(i + 1, s4, cs)
        go(0, st, ())
        out = []
        vals = []
        for k, vs, s, conds in results:
            if k != "ok":
                out.append((k, vs, s.fork(env=env0)))
            else:
                vals.append((tuple(vs), conds))
        it0 = its[0][0] if its else NONE
        t = ("comp", kind, tuple(dict.fromkeys(vals)), it0, self.site(n))
        oks = [("ok", t, s.fork(env=env0, facts=st.facts))
               for k, vs, s, c in results if k == "ok"]
        oks += [("ok", t, s.fork(env=env0, facts=st.facts)) for _, s in its]
        return self._merge(oks) + out

    # yields
    def e_Yield(self, n, st):
        if n.value is None:
            res = [("ok", NONE, st)]
        else:
            res = self.eval(n.value, st)
        out = []
        for k, v, s in res:
            if k != "ok":
                out.append((k, v, s))
                continue
            fr = self.cur
            if fr.cm_body is not None:
                out.extend(fr.cm_body(v, s))
                continue
            r = self.pol.on_yield(self, s, n, v)
            if r is not None:
                s = r
            if fr.gen is not None:
                old = s.heap.get((fr.gen, "elems"), ())
                if v not in old and len(old) < 24:
                    s = s.store((fr.gen, "elems"), old + (v,))
                s = self._more(s, fr.gen, (v,))
            out.append(("ok", NONE, s))
        return out

    def e_YieldFrom(self, n, st):
        out = []
        for k, v, s in self.eval(n.value, st):
            if k != "ok":
                out.append((k, v, s))
                continue
            y = ("each", v)
            r = self.pol.on_yield(self, s, n, y)
            if r is not None:
                s = r
            fr = self.cur
            if fr.gen is not None:
                old = s.heap.get((fr.gen, "elems"), ())
                add = s.heap.get((v, "elems")) if v[0] == "obj" else None
                new = old + tuple(x for x in (add if add is not None else
                                              (y,)) if x not in old)
                s = s.store((fr.gen, "elems"), new)
                s = self._more(s, fr.gen, self._exact(v, s))
            out.append(("ok", NONE, s))
        return out

    def _more(self, s, o, vals):
        """Append to the exactly known elements of ``o``."""
        ex = self._exact(o, s)
        if ex is None:
            return s
        if vals is not None and len(ex) + len(vals) < 64:
            return s.store((o, "exact"), ("tuple", ex + tuple(vals)))
        h = dict(s.heap)
        del h[(o, "exact")]
        return s.fork(heap=h)

    def e_Await(self, n, st):
        return self.eval(n.value, st)

    # ------------------------------------------------------------ calls
    def eval_callee(self, f, st):
        return self.eval(f, st)

    def eval_args(self, n, st):
        """-> [('ok', (args, kwargs), st)]"""
        nodes = [a.value if isinstance(a, ast.Starred) else a
                 for a in n.args] + [k.value for k in n.keywords]
        out = []
        for k, vs, s in self.eval_many(nodes, st):
            if k != "ok":
                out.append((k, vs, s))
                continue
            args = []
            for a, v in zip(n.args, vs):
                if isinstance(a, ast.Starred):
                    e = self._known_elts(v, s)
                    if e is not None:
                        args.extend(e)
                    else:
                        args.append(("star", v))
                else:
                    args.append(v)
            kw = {}
            for kn, v in zip(n.keywords, vs[len(n.args):]):
                if kn.arg is None:
                    ok = False
                    if v[0] == "obj" and v[2] == "dict":
                        for hk, hv in s.heap.items():
                            if hk[0] == v and hk[1] == "item" and \
                                    is_const(hk[2]):
                                kw[hk[2][1]] = hv
                                ok = True
                    if not ok:
                        kw["**"] = v
                else:
                    kw[kn.arg] = v
            out.append(("ok", (args, kw), s))
        return out

    def e_Call(self, n, st):
        # super()
        if isinstance(n.func, ast.Attribute) and \
                isinstance(n.func.value, ast.Call) and \
                isinstance(n.func.value.func, ast.Name) and \
                n.func.value.func.id == "super":
            return self._super_call(n, st)
        out = []
        for k, callee, s in self.eval_callee(n.func, st):
            if k != "ok":
                out.append((k, callee, s))
                continue
            if callee[0] == "ext" and len(n.args) == 1 and \
                    not n.keywords and isinstance(n.args[0],
                                                  ast.GeneratorExp) and \
                    callee[1].replace("builtins.", "") in ("any", "all"):
                r = self._any_all(n.args[0], callee[1].endswith("any"), s)
                if r is not None:
                    out.extend(r)
                    continue
            out.extend(self._call_with(n, callee, s))
        return self._merge(out) if len(out) > 1 else out

    def _any_all(self, g, is_any, st):
        """any() or all() over elements known one by one: like the loop
        that stops at the first one that decides."""
        if len(g.generators) != 1:
            return None
        gen = g.generators[0]
        out = []
        for k, it, s in self.eval(gen.iter, st):
            if k != "ok":
                out.append((k, it, s))
                continue
            ex = self._exact(it, s)
            if ex is None or len(ex) > 8:
                return None
            live = [s]
            for e in ex:
                nx = []
                for s2 in live:
                    for k3, v3, s3 in self.assign(gen.target, e, s2):
                        if k3 != "next":
                            out.append((k3, v3, s3.fork(env=st.env)))
                            continue
                        test = list(gen.ifs) + [
                            g.elt if is_any else ast.copy_location(
                                ast.UnaryOp(ast.Not(), g.elt), g.elt)]
                        c = test[0] if len(test) == 1 else ast.copy_location(
                            ast.BoolOp(ast.And(), test), g)
                        for k4, b, s4 in self.cond(c, s3):
                            if k4 != "ok":
                                out.append((k4, b, s4.fork(env=st.env)))
                            elif b:
                                out.append(("ok", ("const", is_any),
                                            s4.fork(env=st.env)))
                            else:
                                nx.append(s4)
                live = nx
            out.extend(("ok", ("const", not is_any), s2.fork(env=st.env))
                       for s2 in live)
        return out

    def _call_with(self, n, callee, st):
        out = []
        for k, av, s in self.eval_args(n, st):
            if k != "ok":
                out.append((k, av, s))
                continue
            out.extend(self.call(n, callee, av[0], av[1], s))
        return out

    def _super_call(self, n, st):
        fr = self.cur
        name = n.func.attr
        me = fr.self_term
        cls = fr.cls
        f = None
        if me is not None and cls is not None:
            c = me[1] if me[0] == "cls" else (self.typeof(me, st) or cls)
            f = c.find_after(cls, name)
        out = []
        for k, av, s in self.eval_args(n, st):
            if k != "ok":
                out.append((k, av, s))
                continue
            args, kw = av
            if f is not None:
                if f.is_static:
                    callee = ("fn", f)
                else:
                    callee = ("bm", f, me)
                out.extend(self.call(n, callee, args, kw, s))
            else:
                callee = ("superm", name, me)
                r = self.pol.on_call(self, s, n, callee, args, kw)
                if r is not None:
                    out.extend(r)
                else:
                    out.extend(self.opaque(n, callee, args, kw, s))
        return out

    def call(self, n, callee, args, kw, st):
        if callee[0] == "attr":
            # unknown method on a term
            callee = ("meth", callee[1], callee[2])
        r = self.pol.on_call(self, st, n, callee, args, kw)
        if r is not None:
            return r
        k = callee[0]
        if k == "fn":
            return self.call_func(n, callee[1], args, kw, st, None)
        if k == "bm":
            return self.call_func(n, callee[1], [callee[2]] + list(args), kw,
                                  st, callee[2])
        if k == "rawfn":
            return self.call_func(n, callee[1], args, kw, st,
                                  callee[2], raw=True)
        if k == "clo":
            return self.call_closure(n, callee, args, kw, st)
        if k == "cls":
            return self.new(n, callee[1], args, kw, st)
        if k == "ext":
            return self.call_ext(n, callee[1], args, kw, st)
        if k == "meth":
            return self.call_meth(n, callee[1], callee[2], args, kw, st)
        if k == "obj":
            c = self.typeof(callee, st)
            f = c.find("__call__") if c else None
            if f is not None:
                return self.call_func(n, f, [callee] + list(args), kw, st,
                                      callee)
        if k == "pcall" and callee[1] == "functools.partial" and callee[2]:
            return self.call(n, callee[2][0], list(callee[2][1:]) +
                             list(args), kw, st)
        if k == "const":
            return [("ok", ("unknown", "callconst", self.site(n)), st)]
        return self.opaque(n, callee, args, kw, st)

    def opaque(self, n, callee, args, kw, st, raises=True):
        self.opaque_calls += 1
        t = ("call", callee, tuple(args) + tuple(
            ("kw", a, v) for a, v in sorted(kw.items())), self.site(n))
        f = st.facts
        if any(has_sub(c, t) for c in f):
            st = st.fork(facts={c: p for c, p in f.items()
                                if not has_sub(c, t)})
        out = [("ok", t, st)]
        if self.pol.known_exc:
            if raises:
                for e in self._known_raises(callee, args):
                    out.append(("exc", ("exc", e, self.site(n)), st))
        elif raises and (self.handlers or self.pol.top_exc):
            out.append(("exc", ("exc", "ANY", self.site(n)), st))
        return out

    def _known_raises(self, callee, args):
        if callee[0] == "ext":
            return KNOWN_RAISES.get(callee[1].replace("builtins.", ""), ())
        if callee[0] in ("meth", "attr"):
            return KNOWN_METH_RAISES.get(callee[2], ())
        return ()

    def pure(self, name, args, kw, st):
        t = ("pcall", name, tuple(args) + tuple(
            ("kw", a, v) for a, v in sorted(kw.items())))
        return [("ok", t, st)]

    def call_ext(self, n, name, args, kw, st):
        if name == "isinstance" and len(args) == 2:
            if args[0][0] == "excval" and args[1][0] == "cls":
                return [("ok", ("const", args[1][1].qual in
                                self.p.exc_mro(args[0][1])), st)]
            if is_const(args[0]) and args[1][0] == "ext" and \
                    args[1][1].split(".")[-1] in ("str", "bool", "int",
                                                  "bytes", "float"):
                return [("ok", ("const", type(args[0][1]).__name__ ==
                                args[1][1].split(".")[-1]), st)]
            return [("ok", ("cond", ("isinst", args[0], args[1]), True), st)]
        if name in ("bool",) and len(args) == 1:
            c, pol = self.as_cond(args[0], st)
            if c is not None:
                b = self.known(c, st)
                if b is not None:
                    c, pol = None, b == pol
            return [("ok", ("const", pol) if c is None else ("cond", c, pol),
                     st)]
        if name in ("list", "set", "dict") or \
                name in ("collections.OrderedDict", "collections.defaultdict",
                         "builtins.list", "builtins.dict", "builtins.set"):
            kind = "list" if name.endswith("list") else \
                "set" if name.endswith("set") else "dict"
            o, s = self.alloc(n, kind, st)
            if not args and not kw:
                if kind in ("list", "set"):
                    s = s.store((o, "exact"), ("tuple", ()))
                return [("ok", o, s.store((o, "elems"), ()))]
            ks = self._dkeys(args[0], st) if args else ()
            if kind == "dict" and kw and len(args) < 2 and \
                    ks is not None and all(
                        k.isidentifier() for k in kw) and (
                            not args or (args[0], "closed") in st.heap):
                d = {k: st.heap.get((args[0], "item", k)) for k in ks}
                d.update((("const", k), v) for k, v in kw.items())
                if None not in d.values():
                    h = dict(s.heap)
                    for k, v in d.items():
                        h[(o, "item", k)] = v
                    h[(o, "elems")] = tuple(dict.fromkeys(d.values()))
                    h[(o, "dkeys")] = ("tuple", tuple(d))
                    h[(o, "closed")] = TRUE
                    return [("ok", o, s.fork(heap=h))]
            if kind == "dict" and len(args) == 1 and not kw:
                ex = self._exact(args[0], st)
                if ex is not None and all(
                        x[0] == "tuple" and len(x[1]) == 2 and
                        is_const(x[1][0]) for x in ex):
                    d = {x[1][0]: x[1][1] for x in ex}
                    h = dict(s.heap)
                    for k, v in d.items():
                        h[(o, "item", k)] = v
                    h[(o, "elems")] = tuple(dict.fromkeys(d.values()))
                    h[(o, "dkeys")] = ("tuple", tuple(d))
                    h[(o, "closed")] = TRUE
                    return [("ok", o, s.fork(heap=h))]
            s = s.store((o, "src"), args[0] if args else NONE)
            if kind != "dict" and ks is not None and len(args) == 1 and \
                    not kw and (args[0], "closed") in st.heap:
                s = s.store((o, "exact"), ("tuple", tuple(ks)))
                return [("ok", o, s.store((o, "elems"), tuple(ks)))]
            el = self._known_elts(args[0], st) if args else None
            if el is None and args:
                el = self._exact(args[0], st)
            if el is not None and not kw:
                ex = self._exact(args[0], st)
                if ex is None and args[0][0] in ("tuple", "const"):
                    ex = el
                if ex is not None and kind == "set":
                    ex = tuple(dict.fromkeys(ex)) \
                        if all(is_const(e) for e in ex) else None
                if ex is not None and kind in ("list", "set"):
                    s = s.store((o, "exact"), ("tuple", tuple(ex)))
                return [("ok", o, s.store((o, "elems"), tuple(el)))]
            s = s.store((o, "open"), TRUE)
            s = s.store((o, "elems"), (("each", args[0]),) if args else ())
            return [("ok", o, s)]
        if name in ("tuple", "sorted", "iter") and len(args) == 1 and \
                not kw and (args[0], "closed") in st.heap:
            ks = self._dkeys(args[0], st)
            if ks is not None:
                if name == "sorted":
                    ks = tuple(sorted(ks, key=lambda x: str(x[1])))
                return [("ok", ("tuple", ks), st)]
        if name == "tuple" and len(args) == 1:
            el = self._known_elts(args[0], st)
            if el is not None:
                return [("ok", ("tuple", tuple(el)), st)]
        if name == "getattr" and len(args) >= 2 and is_const(args[1]) and \
                isinstance(args[1][1], str):
            return self.load_attr(n, args[0], args[1][1], st)
        if name == "setattr" and len(args) == 3 and is_const(args[1]):
            return [("ok" if k == "next" else k, NONE if k == "next" else v,
                     s) for k, v, s in self.store_attr(
                         n, args[0], args[1][1], args[2], st)]
        if name.replace("builtins.", "") in ("int", "float", "str") and \
                len(args) == 1 and not kw and is_const(args[0]) and \
                isinstance(args[0][1], (int, float, str)):
            nm = name.replace("builtins.", "")
            try:
                return [("ok", ("const", {"int": int, "float": float,
                                          "str": str}[nm](args[0][1])), st)]
            except ValueError:
                return [("exc", ("exc", "ValueError", self.site(n)), st)]
        if name.replace("builtins.", "") == "len" and len(args) == 1:
            if is_const(args[0]) and isinstance(args[0][1], (str, bytes)):
                return [("ok", ("const", len(args[0][1])), st)]
            el = self._exact(args[0], st)
            if el is not None:
                return [("ok", ("const", len(el)), st)]
        if name.replace("builtins.", "") == "map" and len(args) == 2 and \
                args[0][0] == "ext" and args[0][1].replace(
                    "builtins.", "") in ("int", "float", "str"):
            el = self._known_elts(args[1], st)
            if el is not None and all(map(is_const, el)):
                try:
                    return [("ok", ("tuple", tuple(
                        ("const", {"int": int, "float": float, "str": str}[
                            args[0][1].replace("builtins.", "")](x[1]))
                        for x in el)), st)]
                except ValueError:
                    return [("exc", ("exc", "ValueError", self.site(n)), st)]
        if self.pol.known_exc and len(args) == 2 and \
                name.replace("builtins.", "") == "map" and \
                args[0][0] == "ext" and args[0][1].replace(
                    "builtins.", "") in ("int", "float"):
            return self.pure("map", args, kw, st) + [
                ("exc", ("exc", "ValueError", self.site(n)), st)]
        if name.replace("builtins.", "") in ("sum", "min", "max") and \
                args and not kw:
            nm = name.replace("builtins.", "")
            ex = self._exact(args[0], st) if len(args) == 1 or nm == "sum" \
                else args
            rest = args[1:] if nm == "sum" else []
            if ex is not None and (ex or nm == "sum") and all(
                    is_const(e) and isinstance(e[1], (int, float))
                    for e in list(ex) + list(rest)):
                f = {"sum": sum, "min": min, "max": max}[nm]
                return [("ok", ("const", f([e[1] for e in ex], *[
                    e[1] for e in rest])), st)]
        if name in ("sorted", "reversed") and len(args) == 1:
            ex = self._exact(args[0], st)
            if ex is not None and all(is_const(e) for e in ex) and (
                    not kw or set(kw) == {"reverse"} and
                    is_const(kw["reverse"])):
                try:
                    vs = sorted(e[1] for e in ex) if name == "sorted" else \
                        [e[1] for e in reversed(ex)]
                except TypeError:
                    vs = None
                if vs is not None:
                    if kw and kw["reverse"][1]:
                        vs.reverse()
                    return [self._new_list(n, [("const", v) for v in vs],
                                           st)]
        base_name = name.replace("builtins.", "")
        if base_name == "enumerate" and args and (
                len(args) == 1 and set(kw) <= {"start"} or
                len(args) == 2 and not kw):
            ex = self._exact(args[0], st)
            k0 = args[1] if len(args) == 2 else kw.get("start", ("const", 0))
            if ex is not None and len(ex) <= 16 and is_const(k0):
                return [("ok", ("tuple", tuple(
                    ("tuple", (("const", k0[1] + i), x))
                    for i, x in enumerate(ex))), st)]
        if base_name == "zip" and args and not kw:
            exs = [self._exact(a, st) for a in args]
            if all(e is not None and len(e) <= 16 for e in exs):
                return [("ok", ("tuple", tuple(
                    ("tuple", x) for x in zip(*exs))), st)]
        if base_name == "range" and args and not kw and all(
                is_const(a) and isinstance(a[1], int) for a in args):
            try:
                r = range(*[a[1] for a in args])
            except (ValueError, TypeError):
                r = None
            if r is not None and len(r) <= 16:
                return [("ok", ("tuple", tuple(("const", i) for i in r)),
                         st)]
        if base_name == "reversed" and len(args) == 1 and not kw:
            ex = self._exact(args[0], st)
            if ex is not None and len(ex) <= 16 and args[0][0] == "obj":
                return [self._new_list(n, list(reversed(ex)), st)]
        if name in ("sorted", "reversed", "iter", "enumerate"):
            return self.pure(name, args, kw, st)
        if name == "super":
            c = self.cur.cls
            return [("ok", ("superobj", self.cur.self_term,
                            c.qual if c is not None else None), st)]
        if name in PURE_FUNCS or name.replace("builtins.", "") in PURE_FUNCS:
            nm = name.replace("builtins.", "")
            out = []
            if nm == "str" and len(args) == 1 and is_const(args[0]) and \
                    isinstance(args[0][1], str):
                return [("ok", args[0], st)]
            if nm in PATH_FUNCS and args and not kw and all(
                    is_const(a) and isinstance(a[1], str) for a in args):
                try:
                    return [("ok", _const_term(PATH_FUNCS[nm](
                        *[a[1] for a in args])), st)]
                except TypeError:
                    pass
            out = self.pure(nm, args, kw, st)
            for e in RAISING.get(nm, ()):
                if args and not is_const(args[0]) and \
                        self._want(e) and not st.facts.get((
                            "truthy", ("mcall", args[0], "isdecimal", ()))):
                    out.append(("exc", ("exc", e, self.site(n)), st))
            return out
        if name in RAISING:
            out = self.opaque(n, ("ext", name), args, kw, st, raises=False)
            for e in RAISING[name]:
                if self._want(e):
                    out.append(("exc", ("exc", e, self.site(n)), st))
            return out
        from .model import BUILTIN_EXC
        if name in BUILTIN_EXC:
            return self.pure(name, args, kw, st)
        return self.opaque(n, ("ext", name), args, kw, st)

    def _is_log(self, base):
        return base[0] == "attr" and base[2] in ("log", "logger") or \
            base[0] == "gval" and base[-1] in ("log", "logger", "LOG") or \
            base[0] == "sym" and base[1] in ("log", "logger") or \
            (base[0] in ("pcall",) and base[1] == "logging.getLogger")

    def call_meth(self, n, base, name, args, kw, st):
        if self._is_log(base):
            return [("ok", NONE, st)]
        if base == NONE:
            return [("exc", ("exc", "AttributeError", self.site(n)), st)]
        c = self.typeof(base, st)
        if c is not None and not c.find(name) and name not in MUT_METHODS:
            pass
        if name in MUT_METHODS:
            return self._mutate(n, st, base, name, args, kw)
        if name == "format" and is_const(base):
            return [("ok", ("fmt", base, tuple(args) + tuple(
                ("kw", a, v) for a, v in sorted(kw.items()))), st)]
        if name == "join" and len(args) == 1:
            el = self._exact(args[0], st)
            if el is None:
                el = self._known_elts(args[0], st)
            if el is not None:
                if is_const(base) and all(is_const(x) and isinstance(
                        x[1], type(base[1])) for x in el):
                    return [("ok", ("const", base[1].join(
                        x[1] for x in el)), st)]
                return [("ok", ("join", base, tuple(el)), st)]
            a = args[0]
            if a[0] == "obj":
                e = st.heap.get((a, "elems"))
                if isinstance(e, tuple) and not (e and isinstance(e[0], str)):
                    return [("ok", ("join", base, tuple(e)), st)]
            return [("ok", ("join", base, (("each", a),)), st)]
        if base[0] == "gval" and name in ("sub", "match", "search", "findall",
                                          "fullmatch") and args and \
                not kw and all(is_const(a) for a in args):
            r = self.const_regex(base)
            if r is not None:
                try:
                    v = getattr(r, name)(*[a[1] for a in args])
                    if name == "sub":
                        return [("ok", ("const", v), st)]
                    if name == "findall":
                        return [("ok", ("tuple", tuple(
                            ("const", x) if isinstance(x, str) else
                            ("tuple", tuple(("const", y) for y in x))
                            for x in v)), st)]
                    if v is None:
                        return [("ok", NONE, st)]
                    out = self.opaque(n, ("meth", base, name), args, kw, st,
                                      raises=False)
                    res = ("const", (v.group(0),) + v.groups())
                    names = ("const", tuple(sorted(r.groupindex.items())))
                    return [(k, t, s.fork(facts=dict(
                        s.facts, **{}) | {("truthy", t): True,
                                          ("isnone", t): False}).store(
                        (t, "match"), res).store((t, "names"), names))
                            for k, t, s in out]
                except (TypeError, re.error):
                    pass
        if name in SET_OPS and base[0] == "obj" and base[2] == "set" and \
                len(args) == 1 and not kw:
            v = self._set_op(n, name, base, args[0], st)
            if v is not None:
                return v
        if (base, "match") in st.heap and not kw and name in (
                "group", "groups", "groupdict") and all(map(is_const, args)):
            gs = st.heap[(base, "match")][1]
            idx = dict(st.heap[(base, "names")][1])
            d = args[0][1] if args and name != "group" else None
            if name == "groups":
                return [("ok", ("tuple", tuple(
                    ("const", d if g is None else g) for g in gs[1:])), st)]
            if name == "group":
                try:
                    vs = [gs[idx.get(a[1], a[1])] for a in args] or [gs[0]]
                    return [("ok", ("const", vs[0]) if len(vs) == 1 else
                             ("tuple", tuple(("const", x) for x in vs)), st)]
                except (IndexError, TypeError):
                    return [("exc", ("exc", "IndexError", self.site(n)), st)]
            o, st = self.alloc(n, "dict", st)
            st = st.store((o, "closed"), TRUE).store((o, "elems"), tuple(
                ("const", k) for k in idx))
            for k, i in idx.items():
                st = st.store((o, "item", ("const", k)), (
                    "const", d if gs[i] is None else gs[i]))
            return [("ok", o, st)]
        if name == "get" and 1 <= len(args) <= 2:
            hk = (base, "item", args[0])
            if hk in st.heap:
                return [("ok", st.heap[hk], st)]
            if (base, "closed") in st.heap and is_const(args[0]):
                return [("ok", args[1] if len(args) > 1 else NONE, st)]
        if name == "decode" and is_const(base) and isinstance(
                base[1], bytes) and all(map(is_const, args)) and all(
                    map(is_const, kw.values())):
            try:
                return [("ok", ("const", base[1].decode(
                    *[a[1] for a in args],
                    **{k: v[1] for k, v in kw.items()})), st)]
            except UnicodeDecodeError:
                return [("exc", ("exc", "UnicodeDecodeError", self.site(n)),
                         st)]
            except (TypeError, LookupError):
                pass
        if name == "decode" and is_const(base) is False:
            t = ("mcall", base, name, tuple(args) + tuple(
                ("kw", a, v) for a, v in sorted(kw.items())))
            out = [("ok", t, st)]
            if self._want("UnicodeDecodeError"):
                lossless = any(is_const(a) and isinstance(a[1], str) and
                               a[1].lower().replace("_", "-") in
                               ("iso-8859-1", "latin-1", "latin1")
                               for a in args)
                ign = any(is_const(a) and a[1] in ("ignore", "replace",
                                                   "backslashreplace",
                                                   "surrogateescape")
                          for a in list(args) + list(kw.values()))
                if not (lossless or ign):
                    out.append(("exc", ("exc", "UnicodeDecodeError",
                                        self.site(n)), st))
            return out
        if name == "copy" and not args and not kw and \
                (base, "closed") in st.heap:
            d = self._closed_items(base, st)
            if d is not None:
                o, s = self.alloc(n, "dict", st)
                h = dict(s.heap)
                for k, v in d.items():
                    h[(o, "item", k)] = v
                h[(o, "elems")] = tuple(dict.fromkeys(d.values()))
                h[(o, "dkeys")] = ("tuple", tuple(d))
                h[(o, "closed")] = TRUE
                return [("ok", o, s.fork(heap=h))]
        if name in ("keys", "values", "items") and not args and not kw:
            dk = self._dkeys(base, st)
            if dk is not None and all((base, "item", k) in st.heap
                                      for k in dk):
                vs = [st.heap[(base, "item", k)] for k in dk]
                return [("ok", ("tuple", tuple(
                    dk if name == "keys" else vs if name == "values" else
                    [("tuple", kv) for kv in zip(dk, vs)])), st)]
        if name in PURE_METHODS:
            if is_const(base) and all(_is_plain(a) for a in args) and not kw \
                    and isinstance(base[1], (str, bytes)):
                try:
                    r = getattr(base[1], name)(*[_pyval(a) for a in args])
                    if isinstance(r, list):
                        r = tuple(r)
                    if _plain(r):
                        return [("ok", _const_term(r), st)]
                except Exception:
                    pass
            t = ("mcall", base, name, tuple(args) + tuple(
                ("kw", a, v) for a, v in sorted(kw.items())))
            return [("ok", t, st)]
        return self.opaque(n, ("meth", base, name), args, kw, st)

    def _mutate(self, n, st, base, name, args, kw=None):
        r = self.pol.on_mutate(self, st, n, base, name, args)
        if r is not None:
            st = r
        dk = self._dkeys(base, st)
        if dk is not None and name == "update" and len(args) < 2 and \
                (base, "closed") in st.heap and "**" not in (kw or {}):
            d = self._closed_items(args[0], st) if args else {}
            if d is not None:
                d.update((("const", k), v) for k, v in (kw or {}).items())
                h = dict(st.heap)
                for k, v in d.items():
                    h[(base, "item", k)] = v
                el = h.get((base, "elems"), ())
                h[(base, "elems")] = tuple(dict.fromkeys(
                    tuple(el) + tuple(d.values())))
                st = st.fork(heap=h)
                return [("ok", NONE, self._set_dkeys(
                    base, st, dk + tuple(d)))]
        if dk is not None:
            if name == "setdefault" and args:
                nk = dk + (args[0],)
            elif name == "clear":
                nk = ()
            elif name == "pop" and args and is_const(args[0]):
                nk = tuple(x for x in dk if x != args[0])
            elif name == "update" and all(
                    self._dkeys(a, st) is not None for a in args):
                nk = dk
                for a in args:
                    nk = nk + tuple(self._dkeys(a, st))
                nk = nk + tuple(("const", k) for k in kw)
            else:
                nk = None
            st = self._set_dkeys(base, st, nk)
        if name == "pop" and args and is_const(args[0]) and \
                base[0] == "obj" and base[2] == "dict":
            hk = (base, "item", args[0])
            if hk in st.heap:
                v = st.heap[hk]
                h = dict(st.heap)
                del h[hk]
                return [("ok", v, st.fork(heap=h))]
            if (base, "closed") in st.heap:
                if len(args) > 1:
                    return [("ok", args[1], st)]
                return [("exc", ("exc", "KeyError", self.site(n)), st)]
        if name in ("pop", "popitem") and base[0] == "obj" and \
                base[2] == "dict" and (base, "closed") in st.heap:
            h = {k: v for k, v in st.heap.items()
                 if k[0] != base or k[1] not in ("closed", "item")}
            st = st.fork(heap=h)
        out_exc = []
        if name in ("remove", "pop") and self._catches("ValueError",
                                                       "KeyError",
                                                       "IndexError"):
            for nm in ("ValueError", "KeyError", "IndexError"):
                if self._catches(nm):
                    out_exc.append(("exc", ("exc", nm, self.site(n)), st))
                    break
        if base[0] == "obj" and base[2] in ("list", "dict", "set", "gen"):
            ex = self._exact(base, st)
            if ex is not None:
                add = None
                if name == "append" and len(args) == 1 and \
                        base[2] == "list":
                    add = (args[0],)
                elif name == "extend" and len(args) == 1 and \
                        base[2] == "list":
                    add = self._exact(args[0], st)
                elif name in ("add", "update") and len(args) == 1 and \
                        base[2] == "set" and all(map(is_const, ex)):
                    add = (args[0],) if name == "add" else \
                        self._exact(args[0], st)
                    if add is not None:
                        add = tuple(dict.fromkeys(
                            x for x in add if x not in ex)) \
                            if all(map(is_const, add)) else None
                st = self._more(st, base, add)
            el = st.heap.get((base, "elems"), ())
            if not isinstance(el, tuple) or (el and isinstance(el[0], str)):
                el = (("each", el),)
            if name in ("append", "add", "appendleft") and args:
                if args[0] not in el and len(el) < 24:
                    el = el + (args[0],)
                elif len(el) >= 24:
                    st = st.store((base, "open"), TRUE)
                if args[0] in el and base[2] == "list" and \
                        el.count(args[0]) and False:
                    pass
                st = st.store((base, "elems"), el)
            elif name == "insert" and len(args) > 1:
                st = st.store((base, "elems"), (args[1],) + el)
            elif name in ("extend", "update"):
                for a in args:
                    ke = self._known_elts(a, st)
                    if ke is not None and name == "extend":
                        el = el + tuple(x for x in ke if x not in el)
                    else:
                        src = st.heap.get((a, "elems"))
                        if isinstance(src, tuple) and not (
                                src and isinstance(src[0], str)):
                            el = el + tuple(x for x in src if x not in el)
                        else:
                            el = el + (("each", a),)
                        st = st.store((base, "open"), TRUE)
                        if a[0] == "obj" and a[2] == "dict":
                            h = dict(st.heap)
                            for hk, hv in list(h.items()):
                                if hk[0] == a and hk[1] == "item":
                                    h[(base, "item", hk[2])] = hv
                            st = st.fork(heap=h)
                st = st.store((base, "elems"), el[:40])
            elif name == "clear":
                h = {k: v for k, v in st.heap.items() if k[0] != base}
                h[(base, "elems")] = ()
                st = st.fork(heap=h)
            elif name in ("remove", "discard", "pop", "popitem", "popleft"):
                st = st.store((base, "open"), TRUE)
            elif name == "setdefault" and args:
                hk = (base, "item", args[0])
                if hk in st.heap:
                    return [("ok", st.heap[hk], st)] + out_exc
                if (base, "closed") in st.heap and is_const(args[0]):
                    d = args[1] if len(args) > 1 else NONE
                    return [("ok", d, st.store(hk, d))] + out_exc
        res = ("mcall", base, name, tuple(args)) if name in (
            "pop", "popitem", "setdefault", "popleft") else NONE
        return [("ok", res, st)] + out_exc

    # project functions
    def _bind_args(self, fi, args, kw, st):
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        rest = []
        star = None
        if kw.get("**") is not None and kw["**"][0] in ("kwempty", "kwargs"):
            v = kw["**"]
            kw = {k: x for k, x in kw.items() if k != "**"}
            if v[0] == "kwargs":
                kw.update(v[1])
        for i, v in enumerate(args):
            if v[0] == "star":
                star = v[1]
                break
            if i < len(pos):
                env[pos[i]] = v
            else:
                rest.append(v)
        if star is not None:
            j = 0
            for p in pos[len(env):]:
                if p not in kw:
                    env[p] = ("item", star, ("const", j))
                    j += 1
        kwo = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k == "**":
                for p in pos + kwo:
                    if p not in env:
                        env[p] = ("item", v, ("const", p))
                extra[k] = v
            elif k in pos or k in kwo:
                env[k] = v
            else:
                extra[k] = v
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        defaults.update({k: d for k, d in zip(kwo, a.kw_defaults)
                         if d is not None})
        for p in pos + kwo:
            if p not in env:
                if p in defaults:
                    d = defaults[p]
                    lit = self.p.literal(fi.module, d)
                    env[p] = _const_term(lit) if _plain(lit) else \
                        ("default", fi.qual, p)
                else:
                    env[p] = ("missing", p)
        if a.vararg:
            if star is not None:
                env[a.vararg.arg] = star if not rest else \
                    ("tuple", tuple(rest) + (("star", star),))
            else:
                env[a.vararg.arg] = ("tuple", tuple(rest))
        if a.kwarg:
            if extra.get("**") is not None and len(extra) == 1:
                env[a.kwarg.arg] = extra["**"]
            elif not extra:
                env[a.kwarg.arg] = ("kwempty",)
            else:
                env[a.kwarg.arg] = ("kwargs", tuple(sorted(extra.items())))
        return env

    def call_func(self, n, fi, args, kw, st, self_term, raw=False):
        q = fi.qual
        # canonical configuration access
        if fi.name in ("__getitem__", "get_global") and fi.cls is not None \
                and fi.cls.qual == "oa.conf.Conf" and len(args) == 2:
            return self.load_item(n, args[0], args[1], st)
        if fi.name in ("__setitem__", "set_global") and fi.cls is not None \
                and fi.cls.qual == "oa.conf.Conf" and len(args) == 3:
            return [("ok" if k == "next" else k, NONE, s) for k, v, s in
                    self.store_item(n, args[0], args[1], args[2], st)]
        if q in self.pol.opaque or len(self.frames) >= self.pol.max_depth or \
                any(f.fi is fi for f in self.frames) or \
                not (self.pol.inline(self, fi) or self.p.is_new(fi)):
            cal = ("fn", fi) if self_term is None else ("bm", fi, self_term)
            a = args if self_term is None else args[1:]
            raises = q != "oa.context.GlobalContext.err"
            return self.opaque(n, cal, a, kw, st, raises)
        if not raw and fi.deco_nodes:
            t = self._decorated(n, fi, st, self_term)
            if t is not None:
                out = []
                for k, d, s in t:
                    if k != "ok":
                        out.append((k, d, s))
                    else:
                        out.extend(self.call(n, d, args, kw, s))
                return out
        env = self._bind_args(fi, args, kw, st)
        fr = _Frame(fi, fi.cls, {}, args[0] if (fi.cls is not None and
                                                not fi.is_static and args)
                    else None)
        return self._enter(n, fi, fr, env, st)

    def _decorated(self, n, fi, st, self_term):
        """Apply project decorators abstractly; None if there are none."""
        term = None
        states = [("ok", ("rawfn", fi, self_term), st)]
        used = False
        for d in reversed(fi.deco_nodes):
            dn = d.func if isinstance(d, ast.Call) else d
            ents = self.p.resolve_expr(fi.module, dn)
            e = next((x for x in ents if x[0] in ("func", "class")), None)
            if e is None or fi.is_cm:
                continue
            used = True
            nx = []
            for k, t, s in states:
                if k != "ok":
                    nx.append((k, t, s))
                    continue
                base = ("fn", e[1]) if e[0] == "func" else ("cls", e[1])
                if isinstance(d, ast.Call):
                    for k2, av, s2 in self.eval_args(d, s):
                        if k2 != "ok":
                            continue
                        for k3, v3, s3 in self.call(n, base, av[0], av[1],
                                                    s2):
                            if k3 == "ok":
                                nx.extend(self.call(n, v3, [t], {}, s3))
                else:
                    nx.extend(self.call(n, base, [t], {}, s))
            states = nx
        return states if used else None

    def call_closure(self, n, clo, args, kw, st):
        _, fi, envt, self_term = clo
        # one wrapper around different functions is not a recursion
        same = [f for f in self.frames if f.fi is fi]
        if len(self.frames) >= self.pol.max_depth or len(same) > 2 or \
                any(f.closure == dict(envt) for f in same):
            return self.opaque(n, clo, args, kw, st)
        env = self._bind_args(fi, args, kw, st)
        fr = _Frame(fi, fi.cls, dict(envt), self_term)
        return self._enter(n, fi, fr, env, st)

    def _enter(self, n, fi, fr, env, st):
        caller_env = st.env
        if fi.is_gen:
            o, st = self.alloc(n, "gen", st)
            st = st.store((o, "elems"), ())
            st = st.store((o, "exact"), ("tuple", ()))
            fr.gen = o
        self.frames.append(fr)
        try:
            outs = self._body(fi, st.fork(env=env))
        finally:
            self.frames.pop()
        res = []
        for k, v, s in outs:
            s = s.fork(env=caller_env)
            if k == "ret":
                res.append(("ok", fr.gen if fi.is_gen else v, s))
            else:
                res.append((k, v, s))
        return self._merge(res)

    def new(self, n, c, args, kw, st):
        o, s = self.alloc(n, c.qual, st)
        if self.p.is_exc(c):
            s = s.store((o, "args"), ("tuple", tuple(args)))
            return [("ok", o, s)]
        f = c.find("__init__")
        if f is None or f.qual in self.pol.opaque or \
                not (self.pol.inline(self, f) or self.p.is_new(f)):
            s = s.store((o, "args"), ("tuple", tuple(args)))
            out = [("ok", o, s)]
            if not self.pol.known_exc and (
                    self.handlers or self.pol.top_exc):
                out.append(("exc", ("exc", "ANY", self.site(n)), s))
            return out
        out = []
        for k, v, s2 in self.call_func(n, f, [o] + list(args), kw, s, o):
            out.append((k, o if k == "ok" else v, s2))
        return out


def _not_none(t, st):
    if t is None:
        return False
    if is_const(t):
        return t[1] is not None
    return t[0] in ("bin", "tuple", "obj", "fmt", "join", "not") or \
        t[0] == "pcall" and t[1] in ("int", "len", "str", "min", "max",
                                     "float", "bool") or \
        st.facts.get(("isnone", t)) is False or \
        st.facts.get(("truthy", t)) is True


def _definite(t):
    """A constant, one known object or a tuple of these."""
    return is_const(t) or t[0] == "sym" or \
        t[0] == "tuple" and all(map(_definite, t[1]))


def _eq(a, b):
    return ("eq", a, b) if repr(a) <= repr(b) else ("eq", b, a)


def _plain(v):
    if isinstance(v, tuple):
        if v and v[0] in ("?", "class", "func", "ext"):
            return False
        return all(_plain(x) for x in v)
    return v is None or isinstance(v, (str, bytes, int, float, bool))


_NOPLAIN = object()


def _plain_of(t):
    if t[0] == "const":
        return t[1]
    if t[0] == "tuple":
        out = []
        for x in t[1]:
            p = _plain_of(x)
            if p is _NOPLAIN:
                return p
            out.append(p)
        return tuple(out)
    return _NOPLAIN


def _const_term(v):
    if isinstance(v, tuple):
        return ("tuple", tuple(_const_term(x) for x in v))
    return ("const", v)


def _erase(t):
    """site-free sketch of a term (for loop summaries)"""
    return show(t)[:120]


def _mentions_changed(c, entry, heap):
    return False


def _as_load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t
