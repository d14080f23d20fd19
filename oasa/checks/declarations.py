"""P08 (configuration options) and P09 (advertised names): consistency of
what is declared, what reads it, what implements it and what is documented."""
import ast
import datetime
import os
import re

from ..absint import is_const
from ..core import check
from ..model import AnalysisError, ClassInfo, dotted
from ..util import BasePolicy, driver, mkdict, run
from .dns import advertised, method, plugin_classes
from .relays import mklist

CONF = "oa.conf.Conf"
PADCONF = "oa.conf.PADConf"
LISTS = ("list", "append", "append_split")
UNKNOWN = object()
USER = "\0chosen by the rule"     # an argument of a rule function


# ------------------------------------------------------------- key values
class Keys(object):
    """Constant strings an expression can stand for, looked up through local
    names, loops over literal collections and the call sites of parameters."""

    def __init__(self, p):
        self.p = p
        self._assign = {}
        self._calls = None
        self._rules = None

    def funcs(self):
        return self.p.all_funcs()

    def assigns(self, f):
        if id(f) in self._assign:
            return self._assign[id(f)]
        out = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        out.setdefault(t.id, []).append(("v", n.value))
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                out.setdefault(e.id, []).append(
                                    ("i", n.value, i))
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                if isinstance(n.target, ast.Name):
                    out.setdefault(n.target.id, []).append(("?",))
            elif isinstance(n, (ast.For, ast.comprehension)):
                t = n.target
                if isinstance(t, ast.Name):
                    out.setdefault(t.id, []).append(("e", n.iter))
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for i, e in enumerate(t.elts):
                        if isinstance(e, ast.Name):
                            out.setdefault(e.id, []).append(
                                ("ei", n.iter, i))
        self._assign[id(f)] = out
        return out

    def calls(self):
        if self._calls is None:
            self._calls = {}
            for f in self.funcs():
                for n in own_nodes(f.node):
                    if isinstance(n, ast.Call):
                        nm = n.func.attr if isinstance(
                            n.func, ast.Attribute) else getattr(
                                n.func, "id", None)
                        self._calls.setdefault(nm, []).append((f, n))
        return self._calls

    def const(self, f, node):
        v = None
        if isinstance(node, ast.Attribute) and isinstance(
                node.value, ast.Name) and f.cls is not None and f.params() \
                and node.value.id in (f.params()[0], f.cls.name):
            e, k = f.cls.find_attr(node.attr)
            if e is None:
                return None
            v = self.p.literal(k.module, e, k)
        else:
            v = self.p.literal(f.module, node, f.cls)
        return None if isinstance(v, tuple) and v and v[0] == "?" else v

    def elements(self, f, node, depth, index=None):
        """Constants of a literal collection iterated over."""
        if isinstance(node, ast.Call) and isinstance(
                node.func, ast.Attribute) and node.func.attr in (
                    "items", "keys", "values") and not node.args:
            v = self.const(f, node.func.value)
            if isinstance(v, dict):
                v = {"items": list(v.items()), "keys": list(v),
                     "values": list(v.values())}[node.func.attr]
        elif isinstance(node, ast.Call) and isinstance(
                node.func, ast.Name) and node.func.id in (
                    "sorted", "list", "tuple", "set", "reversed", "iter") \
                and node.args:
            return self.elements(f, node.args[0], depth, index)
        elif isinstance(node, (ast.Tuple, ast.List, ast.Set)):
            out = set()
            for e in node.elts:
                if index is not None:
                    if not isinstance(e, (ast.Tuple, ast.List)) or \
                            index >= len(e.elts):
                        return {UNKNOWN}
                    e = e.elts[index]
                out |= self.values(f, e, depth + 1)
            return out
        else:
            v = self.const(f, node)
            if v is None and isinstance(node, ast.Name):
                a = self.assigns(f).get(node.id)
                if a and all(x[0] == "v" for x in a) and depth < 6:
                    out = set()
                    for x in a:
                        out |= self.elements(f, x[1], depth + 1, index)
                    return out
        if isinstance(v, dict):
            v = list(v)
        if isinstance(v, (list, tuple, set)):
            v = [x[index] if index is not None and isinstance(
                x, (list, tuple)) and index < len(x) else x for x in v]
            return {x if isinstance(x, str) else UNKNOWN for x in v}
        return {UNKNOWN}

    def values(self, f, node, depth=0):
        if depth > 8:
            return {UNKNOWN}
        if isinstance(node, ast.Constant):
            return {node.value if isinstance(node.value, str) else UNKNOWN}
        if isinstance(node, ast.IfExp):
            return self.values(f, node.body, depth + 1) | self.values(
                f, node.orelse, depth + 1)
        if isinstance(node, ast.BoolOp):
            return set().union(*[self.values(f, x, depth + 1)
                                 for x in node.values])
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
            a = self.values(f, node.left, depth + 1)
            b = self.values(f, node.right, depth + 1)
            if UNKNOWN in a or UNKNOWN in b:
                return {UNKNOWN}
            return {x + y for x in a for y in b}
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Mod) and \
                isinstance(node.left, ast.Constant) and isinstance(
                    node.left.value, str):
            r = node.right
            parts = r.elts if isinstance(r, ast.Tuple) else [r]
            combos = [()]
            for e in parts:
                vs = self.values(f, e, depth + 1)
                combos = [c + (v,) for c in combos for v in vs]
            out = set()
            for c in combos:
                if any(x is UNKNOWN for x in c):
                    return {UNKNOWN}
                try:
                    out.add(node.left.value % c)
                except (TypeError, ValueError):
                    return {UNKNOWN}
            return out
        if isinstance(node, ast.Call) and isinstance(
                node.func, ast.Attribute) and node.func.attr == "format" and \
                isinstance(node.func.value, ast.Constant) and \
                not node.keywords:
            combos = [()]
            for e in node.args:
                vs = self.values(f, e, depth + 1)
                combos = [c + (v,) for c in combos for v in vs]
            if any(x is UNKNOWN for c in combos for x in c):
                return {UNKNOWN}
            return {node.func.value.value.format(*c) for c in combos}
        if isinstance(node, ast.JoinedStr):
            out = {""}
            for e in node.values:
                vs = self.values(f, e.value if isinstance(
                    e, ast.FormattedValue) else e, depth + 1)
                if UNKNOWN in vs:
                    return {UNKNOWN}
                out = {x + y for x in out for y in vs}
            return out
        if isinstance(node, ast.Name):
            lp = self.loop_of(f, node)
            if lp is not None:
                t = lp.target
                if isinstance(t, ast.Name):
                    return self.elements(f, lp.iter, depth + 1)
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Name) and e.id == node.id:
                        return self.elements(f, lp.iter, depth + 1, i)
            return self.name(f, node.id, depth)
        v = self.const(f, node)
        return {v} if isinstance(v, str) else {UNKNOWN}

    def loop_of(self, f, node):
        """The innermost loop around this use that binds the name, if
        nothing else in it does."""
        if not hasattr(f, "_parents"):
            f._parents = {}
            for n in ast.walk(f.node):
                for c in ast.iter_child_nodes(n):
                    f._parents[c] = n
        n = node
        while n in f._parents:
            n = f._parents[n]
            loops = [n] if isinstance(n, ast.For) else \
                list(n.generators) if hasattr(n, "generators") else []
            for lp in loops:
                if any(isinstance(x, ast.Name) and x.id == node.id
                       for x in ast.walk(lp.target)) and not any(
                           isinstance(x, ast.Name) and x.id == node.id and
                           isinstance(x.ctx, ast.Store)
                           for b in getattr(lp, "body", ())
                           for x in ast.walk(b)):
                    return lp
        return None

    def guarded(self, f, name):
        """The collection of constants a name is looked up in, by a test
        that leaves the function otherwise."""
        for n in ast.walk(f.node):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(
                    n.ops[0], (ast.In, ast.NotIn)) and isinstance(
                        n.left, ast.Name) and n.left.id == name:
                vs = self.elements(f, n.comparators[0], 0)
                if UNKNOWN not in vs:
                    return vs
        return None

    def receiver(self, g, c, f):
        """Can this call, made in g, be a call of the method f?"""
        fn = c.func
        if f.cls is None:
            return True
        if not isinstance(fn, ast.Attribute):
            return False
        v = fn.value
        h = g
        while h is not None and h.cls is None:
            h = h.parent
        if isinstance(v, ast.Name) and h is not None and h.params() and \
                v.id == h.params()[0] and not h.is_static:
            return any(k.find(f.name) is f for k in
                       [h.cls] + list(h.cls.all_subs()))
        if isinstance(v, ast.Call) and dotted(v.func) == "super":
            return h is not None and f.cls in h.cls.mro()
        return True

    def name(self, f, name, depth):
        a = self.assigns(f).get(name)
        params = f.params() + [x.arg for x in f.node.args.kwonlyargs]
        out = set()
        if a:
            for x in a:
                if x[0] == "v":
                    out |= self.values(f, x[1], depth + 1)
                elif x[0] == "e":
                    out |= self.elements(f, x[1], depth + 1)
                elif x[0] == "ei":
                    out |= self.elements(f, x[1], depth + 1, x[2])
                else:
                    out.add(UNKNOWN)
        if name in params:
            out |= self.param(f, name, depth)
        if a or name in params:
            return out
        if f.parent is not None:
            return self.name(f.parent, name, depth + 1)
        v = self.const(f, ast.Name(name, ast.Load()))
        return {v} if isinstance(v, str) else {UNKNOWN}

    def param(self, f, name, depth):
        """What the callers (found by name) pass for a parameter."""
        ps = f.params()
        out = set()
        a = f.node.args
        dflt = {}
        for n, d in zip(reversed([x.arg for x in a.args]),
                        reversed(a.defaults)):
            dflt[n] = d
        for n, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                dflt[n.arg] = d
        bound = f.cls is not None and not f.is_static
        seen = False
        for g, c in self.calls().get(f.name, ()):
            if g is f and not bound or not self.receiver(g, c, f):
                continue
            seen = True
            i = ps.index(name) - (1 if bound and isinstance(
                c.func, ast.Attribute) else 0) if name in ps else None
            val = None
            if any(isinstance(x, ast.Starred) for x in c.args) or any(
                    k.arg is None for k in c.keywords):
                out.add(UNKNOWN)
                continue
            if i is not None and 0 <= i < len(c.args):
                val = c.args[i]
            for k in c.keywords:
                if k.arg == name:
                    val = k.value
            if val is None:
                if name in dflt:
                    out |= self.values(f, dflt[name], depth + 1)
                else:
                    seen = seen
                continue
            if isinstance(val, ast.Name) and g is f and val.id == name:
                continue
            out |= self.values(g, val, depth + 1)
        if not seen or UNKNOWN in out:
            vs = self.guarded(f, name)
            if vs is not None:
                return (out - {UNKNOWN}) | vs
        if not seen:
            if f.name in self.rules():
                return {USER}
            if f.cls is not None and any(
                    f.name in k.methods for k in f.cls.mro()[1:]):
                return {UNKNOWN}
            return set()        # nothing calls it
        return out

    def rules(self):
        if self._rules is None:
            self._rules = set()
            for c in plugin_classes(self.p):
                self._rules |= set(advertised(self.p, c))
        return self._rules


def own_nodes(node):
    """Nodes of a function without those of functions defined inside it."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda,
                              ast.AsyncFunctionDef)):
            todo.extend(ast.iter_child_nodes(n))
        elif isinstance(n, ast.Lambda):
            todo.append(n.body)


# --------------------------------------------------------------- accesses
ACC = {"get_global": ("r", "g"), "set_global": ("w", "g"),
       "del_global": ("d", "g"), "get_local": ("r", "l"),
       "set_local": ("w", "l"), "del_local": ("d", "l")}


def conf_like(node, f, keys, depth=0):
    """'self' / 'conf' when the expression is a configuration object."""
    if isinstance(node, ast.Attribute) and node.attr == "conf":
        return "conf"
    if isinstance(node, ast.Name):
        g = f
        while g is not None:
            ps = g.params()
            if g.cls is not None and not g.is_static and ps and \
                    ps[0] == node.id and g.parent is None:
                return "self"
            if node.id in ps:
                return "conf" if node.id == "conf" and (
                    g.cls is None or g.cls.qual not in (CONF,)) else None
            a = keys.assigns(g).get(node.id)
            if a:
                if len(a) == 1 and a[0][0] == "v" and depth < 3:
                    return conf_like(a[0][1], g, keys, depth + 1)
                return None
            g = g.parent
    return None


def accesses(f, keys):
    """(kind r/w/d, space g/l, object self/conf, key node, line)"""
    out = []
    for n in own_nodes(f.node):
        if isinstance(n, ast.Subscript):
            o = conf_like(n.value, f, keys)
            if o:
                k = {ast.Load: "r", ast.Store: "w", ast.Del: "d"}[type(n.ctx)]
                out.append((k, "g", o, n.slice, n.lineno))
        elif isinstance(n, ast.Call):
            fn = n.func
            if isinstance(fn, ast.Name):
                a = keys.assigns(f).get(fn.id)
                if not a or len(a) != 1 or a[0][0] != "v":
                    continue
                fn = a[0][1]
            if not isinstance(fn, ast.Attribute) or fn.attr not in ACC:
                continue
            o = conf_like(fn.value, f, keys)
            if not o and isinstance(fn.value, ast.Call) and dotted(
                    fn.value.func) == "super":
                o = "self"
            if not o:
                continue
            k, sp = ACC[fn.attr]
            i = 0 if sp == "g" else 1
            key = n.args[i] if len(n.args) > i else None
            for kw in n.keywords:
                if kw.arg == "key":
                    key = kw.value
            if key is not None:
                out.append((k, sp, o, key, n.lineno))
    return out


def options_of(p, c):
    """The options a class declares, own or inherited: name -> (type,
    default), or None when they are not a literal."""
    node, k = c.find_attr("options")
    if node is None:
        return {}
    v = p.literal(k.module, node, k)
    if v is None:
        return {}
    return v if isinstance(v, dict) else None


def default_ok(typ, d):
    if typ in ("int", "float", "timevalue"):
        return isinstance(d, (int, float)) and not isinstance(d, bool) and (
            typ != "int" or isinstance(d, int))
    if typ == "bool":
        return isinstance(d, bool) or d in (0, 1)
    if typ == "str":
        return isinstance(d, str)
    if typ in LISTS:
        return isinstance(d, list) and all(isinstance(x, str) for x in d)
    if typ == "clear":
        return isinstance(d, list) and d and all(
            isinstance(x, str) for x in d)
    return None


def inlined_bases(c):
    return [k for k in c.mro() if k.qual not in (
        CONF, "oa.plugins.base.BasePlugin")]


@check("P08", "Every configuration option is well formed and every one read "
       "exists")
def p08(ctx):
    p = ctx.p
    conf = p.cls(CONF)
    keys = Keys(p)
    classes = [c for c in p.classes.values() if conf in c.mro()]
    nopt = nread = nloc = nuser = 0
    opts = {}
    for c in sorted(classes, key=lambda c: c.qual):
        o = options_of(p, c)
        if o is None:
            ctx.bad("declared", c.qual, "the options are not a literal "
                    "dictionary")
            o = {}
        opts[c] = o
        for name, v in sorted(o.items(), key=str):
            site = "%s.%s" % (c.qual, name)
            nopt += 1
            if not isinstance(name, str) or not isinstance(v, tuple) or \
                    len(v) != 2 or not isinstance(v[0], str):
                ctx.bad("declared", site, "not a name with (type, default)")
                continue
            typ, d = v
            if c.find("set_%s_option" % typ) is None:
                ctx.bad("type", site, "there is no setter for options of "
                        "type %r" % typ)
                continue
            ok = default_ok(typ, d)
            ctx.expect(ok is not False, "default", site, "the default %r is "
                       "not a value of type %s" % (d, typ))
            if typ == "clear" and ok:
                for t in d:
                    ctx.expect(t in o and o[t][0] in LISTS, "clear",
                               "%s->%s" % (site, t), "clears %r, which is "
                               "not a list option declared here" % t)
                stem = re.sub("^clear_", "", name)
                named = [x for x in (stem, re.sub("s$", "", stem),
                                     re.sub("_template$", "", stem))
                         if x in o][:1]
                ctx.expect(not named or list(d) == named, "clear", site,
                           "clears %s instead of %s" % (d, named))
    # ---- reads
    base = opts.get(p.cls(PADCONF), {})
    written = {c: set() for c in classes}
    wlocal = {c: set() for c in classes}
    wild = {c: set() for c in classes}
    acc = {}
    for f in p.all_funcs():
        a = accesses(f, keys)
        if a:
            acc[f] = a

    def owner(f):
        while f.parent is not None and f.cls is None:
            f = f.parent
        return f.cls
    conf_written = set()
    for f, a in acc.items():
        k = owner(f)
        for kind, sp, o, node, line in a:
            if kind != "w" or k is conf:
                continue
            vs = keys.values(f, node)
            if o == "conf":
                conf_written |= vs
                continue
            if k is None or k not in written:
                continue
            for c in [k] + sorted(k.all_subs(), key=lambda x: x.qual):
                if c in written:
                    (written if sp == "g" else wlocal)[c] |= {
                        v for v in vs if v is not UNKNOWN}
                    if UNKNOWN in vs:
                        wild[c].add(sp)
    unresolved = []
    for f, a in sorted(acc.items(), key=lambda x: x[0].qual):
        k = owner(f)
        if k is conf or k is not None and k.qual.startswith(
                "oa.conf.") and k.qual != PADCONF:
            continue
        for kind, sp, o, node, line in a:
            if kind == "w":
                continue
            if o == "self" and (k is None or conf not in k.mro()):
                continue
            vs = keys.values(f, node)
            for v in sorted(vs, key=str):
                if v is UNKNOWN:
                    unresolved.append("%s:%s" % (f.qual, line))
                    continue
                if "\0" in v:
                    nuser += 1
                    continue
                if o == "conf":
                    nread += 1
                    ctx.expect(v in base or v in conf_written, "read",
                               "%s:conf[%s]" % (f.qual, v),
                               "reads the option %r, which the main "
                               "configuration does not declare" % v)
                    continue
                # the classes this method can run for
                cs = [c for c in [k] + sorted(k.all_subs(),
                                              key=lambda x: x.qual)
                      if f.parent is not None or c.find(f.name) is f or
                      c is k]
                if k.qual == "oa.plugins.base.BasePlugin":
                    cs = [k]
                for c in cs:
                    if sp == "g":
                        nread += 1
                        ctx.expect(
                            v in opts.get(c, ()) or v in written[c] or
                            "g" in wild[c], "read",
                            "%s:%s[%s]" % (f.qual, c.name, v),
                            "reads %r, which %s neither declares as an "
                            "option nor sets" % (v, c.name))
                    else:
                        nloc += 1
                        ctx.expect(
                            v in wlocal[c] or "l" in wild[c], "read-local",
                            "%s:%s[%s]" % (f.qual, c.name, v),
                            "reads the message data %r, which %s never "
                            "sets" % (v, c.name))
    for u in sorted(set(unresolved)):
        ctx.bad("read", u, "the name of the option read here cannot be "
                "determined")
    documented(ctx, classes, opts)
    values(ctx, classes, opts)
    ctx.note("reads whose name is chosen by the rule's arguments (left to "
             "the isolation of failing rules, P04)", nuser)
    ctx.floor("options declared", nopt, 90)
    ctx.floor("reads of options", nread, 100)
    ctx.floor("reads of message data", nloc, 30)


# ---- what a line of the configuration sets ---------------------------------
class Opt(BasePolicy):
    known_exc = True

    def inline(self, I, fi):
        return fi.module.name.startswith(("oa.conf", "oa.plugins")) or \
            fi.is_cm

    def on_call(self, I, st, node, callee, args, kw):
        if callee == ("ext", "datetime.timedelta") and all(
                is_const(v) for v in list(kw.values()) + list(args)):
            try:
                t = datetime.timedelta(*[a[1] for a in args],
                                       **{k: v[1] for k, v in kw.items()})
            except TypeError:
                return None
            return [("ok", ("const", t), st)]
        if callee[0] == "meth" and callee[2] == "total_seconds" and is_const(
                callee[1]) and not args:
            return [("ok", ("const", callee[1][1].total_seconds()), st)]
        return None


OLD = ("x.old", "y.old")
SAMPLES = {
    "int": (("3", 3), ("-12", -12), ("0", 0)),
    "float": (("1.5", 1.5), ("7", 7.0), ("-0.25", -0.25)),
    "bool": (("1", True), ("0", False), ("true", True), ("True", True),
             ("false", False)),
    "str": (("abc d", "abc d"), ("1", "1")),
    "timevalue": (("30", 30.0), ("30s", 30.0), ("3m", 180.0),
                  ("1.5h", 5400.0), ("2d", 172800.0), ("1w", 604800.0),
                  ("-5", None), ("-5m", None), ("7y", None)),
    "list": (("a,b", ["a", "b"]), ("a", ["a"])),
    "append": (("a b", list(OLD) + ["a b"]), ("x.old", list(OLD) + [
        "x.old"])),
    "append_split": (("a b", list(OLD) + ["a", "b"]),
                     ("c", list(OLD) + ["c"])),
    "clear": (("", []),),
}
# lists separated by blanks instead of commas (see the documentation)
BLANKS = ("oa.plugins.textcat.TextCatPlugin",)


def values(ctx, classes, opts):
    """A line sets the option it names, to the value it gives."""
    p = ctx.p
    n = 0
    for c in sorted(classes, key=lambda c: c.qual):
        if not opts.get(c) or c.qual == CONF:
            continue
        f = c.find("parse_config")
        if f is None:
            raise AnalysisError("%s has no parse_config" % c.qual)
        if any(k.qual not in (CONF, "oa.plugins.base.BasePlugin") and
               "parse_config" in k.methods for k in c.mro()):
            ctx.note("classes with lines of their own syntax (only their "
                     "declarations are compared)", c.qual)
            continue
        for name, (typ, d) in sorted(opts[c].items()):
            for text, want in SAMPLES.get(typ, ()):
                if c.qual in BLANKS and typ == "list":
                    text = text.replace(",", " ")
                n += 1
                one_line(ctx, c, f, opts[c], name, typ, text, want)
    ctx.floor("lines set", n, 250)


def one_line(ctx, c, f, opts, name, typ, text, want):
    p = ctx.p
    heap = {}
    conf = ("sym", "conf", c.qual)
    d = driver(p, "def driver(conf):\n    conf.parse_config(%r, %r)\n" % (
        name, text))
    olds = {}
    for k, (t, dv) in opts.items():
        if t in LISTS:
            olds[k] = mklist(heap, [("const", x) for x in OLD], "old " + k)
        else:
            olds[k] = ("const", "old " + k)
        heap[(conf, "item", ("const", k))] = olds[k]
    heap[(conf, "attr", "options")] = mkdict(heap, {
        k: ("tuple", (("const", t), mklist(heap, [
            ("const", x) for x in dv], "default") if isinstance(
                dv, (list, tuple)) else ("const", dv)))
        for k, (t, dv) in opts.items()}, "options")
    I, outs = run(lambda: Opt(p), p, d, args={"conf": conf}, heap=heap)
    ctx.saw(I)
    site = "%s.%s" % (c.qual, name)
    what = "the line `%s %s`" % (name, text)
    for k, v, s in outs:
        nm = v[1] if k == "exc" and v[0] == "exc" else None
        ctx.expect(k == "exc" and nm == "oa.errors.InhibitCallbacks",
                   "line-taken", site, "%s does not end with the other "
                   "plugins being kept from it" % what)

        def now(key):
            t = s.heap.get((conf, "item", ("const", key)))
            if t is None:
                return "nothing"
            if is_const(t):
                return t[1]
            ex = I._exact(t, s)
            if ex is not None and all(is_const(x) for x in ex):
                return [x[1] for x in ex]
            return "unknown"
        targets = opts[name][1] if typ == "clear" else [name]
        for key, (t, dv) in opts.items():
            old = list(OLD) if t in LISTS else "old " + key
            exp = old if key not in targets or want is None else want
            got = now(key)
            ok = got == exp and type(got) == type(exp)
            if key in targets:
                ctx.expect(ok, "line-value", site, "after %s the option %s "
                           "is %r instead of %r" % (what, key, got, exp))
            else:
                if not ok:
                    ctx.bad("line-other", site, "%s changes the option %s to "
                            "%r" % (what, key, got))
            if ok and typ == "clear" and key in targets:
                obj = s.heap.get((conf, "item", ("const", key)))
                ctx.expect(obj[0] == "obj", "line-fresh", site, "the list "
                           "set by %s is shared" % what)


# ---- the documentation -----------------------------------------------------
OPT_RE = re.compile(r"^\*\*([\w-]+)\*\*\s*(.*?)\s*\(\s*type\s+`([\w ]+)`\s*\)")
# where the text is known to describe something else than the bare default
STALE = {
    ("conf", "envelope_sender_header"): "the default headers are applied "
    "where the option is read",
    ("pyzor", "pyzor_servers"): "the text lists one of the two servers",
}


def doc_options(root):
    """(module, option) -> (type, default text)"""
    out = {}
    d = os.path.join(root, "docs")
    if not os.path.isdir(d):
        return out
    for fn in sorted(os.listdir(d)):
        m = re.match(r"pad\.plugins\.(\w+)\.rst$", fn)
        mod = m.group(1) if m else "conf" if fn == "configuration.rst" \
            else None
        if mod is None:
            continue
        with open(os.path.join(d, fn), encoding="utf8",
                  errors="replace") as f:
            for line in f:
                g = OPT_RE.match(line)
                if g:
                    out[(mod, g.group(1))] = (g.group(3).strip(), g.group(2))
    return out


def doc_default(typ, text, d):
    """Does the documented default mean the declared one?"""
    t = text.strip().strip('"').strip("'")
    if t in ("N/A", ""):
        return typ == "clear" or d in ("", [], None)
    if typ == "bool":
        return {"true": True, "1": True, "false": False,
                "0": False}.get(t.lower()) == bool(d)
    if typ in ("int", "float", "timevalue"):
        try:
            return float(re.sub("[a-z]$", "", t)) == float(d)
        except (TypeError, ValueError):
            return False
    if typ in LISTS:
        try:
            v = ast.literal_eval(text.strip())
        except (ValueError, SyntaxError):
            v = [x for x in re.split(r"[,\s]+", t) if x]
        if isinstance(v, str):
            v = [v]
        return list(v) == list(d)
    if typ == "str":
        if t == "None":
            t = ""
        return t == d or re.sub("(?<=[0-9])s$", "", t) == d
    return True


def documented(ctx, classes, opts):
    docs = doc_options(ctx.p.root)
    by = {}
    for c in classes:
        if c.qual == CONF:
            continue
        by.setdefault(c.module.name.split(".")[-1], []).append(c)
    n = 0
    for (mod, name), (typ, text) in sorted(docs.items()):
        cs = by.get(mod)
        if not cs:
            continue
        n += 1
        site = "%s.%s" % (mod, name)
        decl = [opts[c][name] for c in cs if name in opts.get(c, {})]
        if not decl:
            ctx.bad("documented", site, "the documented option is not "
                    "declared")
            continue
        t, d = decl[0]
        typ = {"append split": "append_split", "string": "str",
               "boolean": "bool", "integer": "int"}.get(typ, typ)
        if (mod, name) in STALE:
            continue
        same = t == typ or {t, typ} <= {"append", "str"} and \
            name == "dns_query_restriction"
        ctx.expect(same, "documented-type", site, "documented as %s, "
                   "declared as %s" % (typ, t))
        ctx.expect(doc_default(t, text, d), "documented-default", site,
                   "the documented default is %s, the declared one %r" % (
                       text, d))
    if os.path.isdir(os.path.join(ctx.p.root, "docs")):
        ctx.floor("documented options", n, 60)


# ===================================================================== P09
def signature(f):
    """(names, required, maximum or None, keyword-only -> has default,
    **kwargs)"""
    a = f.node.args
    names = [x.arg for x in list(getattr(a, "posonlyargs", [])) + a.args]
    req = len(names) - len(a.defaults)
    kwo = {x.arg: d is not None for x, d in zip(a.kwonlyargs, a.kw_defaults)}
    return names, req, None if a.vararg else len(names), kwo, \
        a.kwarg is not None


def decorators(f):
    return {dotted(d) or dotted(getattr(d, "func", None)) or "?"
            for d in f.node.decorator_list}


def rule_shaped(f):
    """Takes the object, a message, and the target."""
    if f.is_static or decorators(f) & {"property", "classmethod"}:
        return False
    names, _, _, kwo, _ = signature(f)
    return len(names) >= 2 and names[1] == "msg" and (
        names[-1] == "target" or "target" in kwo)


def accepts(f, nargs, keywords=(), bound=True):
    """Why a call with so many positional arguments and these keywords
    fails, or None."""
    names, req, mx, kwo, kwargs = signature(f)
    if bound and not f.is_static:
        nargs += 1
    if mx is not None and nargs > mx:
        return "takes at most %d arguments" % mx
    if "." in keywords:
        return None
    for k in keywords:
        if k in names:
            if names.index(k) < nargs:
                return "gets %r twice" % k
        elif k not in kwo and not kwargs:
            return "has no parameter %r" % k
    missing = [n for i, n in enumerate(names[:req])
               if i >= nargs and n not in keywords]
    missing += [n for n, d in kwo.items() if not d and n not in keywords]
    if missing:
        return "needs %s" % ", ".join(missing)
    return None


def doc_rules(root):
    """(module, method) documented, and (file, call) examples."""
    d = os.path.join(root, "docs")
    listed, calls = [], []
    if not os.path.isdir(d):
        return listed, calls
    for fn in sorted(os.listdir(d)):
        if not re.match(r"pad\.plugins\..*\.rst$", fn):
            continue
        with open(os.path.join(d, fn), encoding="utf8",
                  errors="replace") as f:
            for line in f:
                m = re.match(r"\.\. automethod:: pad\.plugins\.(\w+)\.\w+\."
                             r"(\w+)", line)
                if m:
                    listed.append((m.group(1), m.group(2)))
                m = re.search(r"\beval:(\w+\(.*\))\s*$", line)
                if m:
                    calls.append((fn, m.group(1)))
    return listed, calls


# an example that names the function wrongly
DOC_TYPO = {"pdf_named_regex": "pdf_name_regex"}


def class_of(p, m, node):
    c = [e[1] for e in p.resolve_expr(m, node) if e[0] == "class"]
    return c[0] if len(set(c)) == 1 else None


def below(c, base):
    return isinstance(c, ClassInfo) and c is not base and base in c.mro()


def own_method(c, name, base):
    """The implementation of a method in a class below `base`."""
    f = c.find(name)
    return f if f is not None and f.cls is not base else None


def table(ctx, module, name):
    """The entries of a module level dictionary."""
    m = ctx.p.modules.get(module)
    vals = [b for b in (m.defs.get(name, ()) if m is not None else ())]
    node = vals[0][1] if len(vals) == 1 and vals[0][0] == "value" else None
    if not isinstance(node, ast.Dict):
        ctx.bad("table", "%s.%s" % (module, name),
                "not one dictionary written out")
        return m, []
    return m, [(ctx.p.literal(m, k) if k is not None else None, v)
               for k, v in zip(node.keys, node.values)]


def names_of(p, c, attr):
    node, k = c.find_attr(attr)
    if node is None:
        return None, None
    return node, p.literal(k.module, node, k)


@check("P09", "Every advertised name resolves to a working implementation")
def p09(ctx):
    p = ctx.p
    base = p.cls("oa.plugins.base.BasePlugin")
    brule = p.cls("oa.rules.base.BaseRule")
    plugins = sorted(plugin_classes(p), key=lambda c: c.qual)
    # ---- rule functions
    seen, nrules = {}, 0
    impl = {}
    for c in plugins:
        ctx.saw(c.qual)
        node, v = names_of(p, c, "eval_rules")
        if not isinstance(v, (list, tuple)) or not all(
                isinstance(x, str) for x in v):
            ctx.bad("advertised", c.qual, "eval_rules is not a literal "
                    "sequence of names")
            v = ()
        names = set(v)
        for name in v:
            nrules += 1
            site = "%s.%s" % (c.qual, name)
            other = seen.get(name)
            ctx.expect(other is None or other in c.mro() or c in other.mro(),
                       "unique", site, "also advertised by %s: loading the "
                       "second plugin replaces the first one's rule" % (
                           other.qual if other else ""))
            seen.setdefault(name, c)
            f = method(c, name)
            if f is None:
                ctx.bad("exists", site, "the plugin has no such method: "
                        "loading it fails")
                continue
            impl[name] = f
            if f.is_static or decorators(f) & {"property"}:
                ctx.bad("callable", site, "is not a method taking the "
                        "message")
                continue
            pos = signature(f)[0]
            ctx.expect(len(pos) >= 2 and pos[1] == "msg" or
                       signature(f)[2] is None and len(pos) < 2,
                       "message", site, "the first argument is not the "
                       "message")
            # with the configured arguments, whatever their number, the
            # target still has to fit
            names_, req, mx, kwo, kwargs = signature(f)
            ok = kwargs or "target" in kwo or "target" in names_[2:]
            ctx.expect(ok, "target", site, "does not accept the target")
            if "target" in names_:
                ctx.expect(names_[-1] == "target", "target-last", site,
                           "an argument of the rule can land in the target: "
                           "it is not the last parameter")
            ctx.expect(not [n for n, d in kwo.items()
                            if not d and n != "target"], "target", site,
                       "has required keyword parameters no rule can give")
        for name, f in sorted(c.methods.items()):
            if f.cls is c and rule_shaped(f) and not name.startswith("_"):
                ctx.expect(
                    name in names or any(
                        isinstance(k, ast.Name) and k.id == name and
                        n in names for n, k in class_names(c)) or
                    helper_only(p, c, name),
                    "registered", "%s.%s" % (c.qual, name),
                    "takes a message and a target like a rule function but "
                    "is not advertised: no rule can use it")
    ctx.floor("rule functions", nrules, 110)
    # ---- documentation
    listed, calls = doc_rules(p.root)
    mods = {}
    for c in plugins:
        mods.setdefault(c.module.name.split(".")[-1], []).append(c)
    ndoc = 0
    for mod, name in listed:
        cs = mods.get(mod, ())
        ndoc += 1
        ctx.expect(any(name in advertised(p, c) for c in cs), "documented",
                   "%s.%s" % (mod, name), "the documented rule function is "
                   "not advertised by a plugin of oa.plugins.%s" % mod)
    for fn, text in calls:
        site = "%s:%s" % (fn, text)
        try:
            call = ast.parse(text, mode="eval").body
            n = len(call.args)
        except (SyntaxError, AttributeError):
            continue
        name = DOC_TYPO.get(call.func.id, call.func.id)
        mod = fn.split(".")[2]
        ndoc += 1
        f = next((method(c, name) for c in mods.get(mod, ())
                  if name in advertised(p, c)), None)
        if f is None:
            ctx.bad("example", site, "the example uses a rule function no "
                    "plugin of this module advertises")
            continue
        why = accepts(f, 1 + n, ("target",))
        ctx.expect(why is None, "example", site, "the example does not work: "
                   "%s %s" % (f.qual, why))
    if os.path.isdir(os.path.join(p.root, "docs")):
        ctx.floor("documented rule functions and examples", ndoc, 120)
    # ---- hooks
    nh = hooks(ctx, base, plugins)
    ctx.floor("implementations of hooks", nh, 30)
    # ---- plugin names
    m, ent = table(ctx, "oa.plugins", "REIMPLEMENTED_PLUGINS")
    mapped = {}
    keys = set()
    for k, node in ent:
        v = p.literal(m, node)
        site = "REIMPLEMENTED_PLUGINS[%s]" % (k,)
        ctx.expect(isinstance(k, str) and k not in keys, "plugin-name", site,
                   "not a name given once")
        keys.add(k)
        ctx.expect(isinstance(k, str) and "::" in k, "plugin-name", site,
                   "not the name of a SpamAssassin plugin")
        if not isinstance(v, str) or "." not in v:
            ctx.bad("plugin", site, "not the dotted name of a class")
            continue
        mn, _, cn = v.rpartition(".")
        c = None
        if mn in p.modules:
            r = [e[1] for e in p.resolve_name(p.modules[mn], cn)
                 if e[0] == "class"]
            c = r[0] if r else None
        ctx.expect(below(c, base), "plugin", site,
                   "%s is not a plugin class" % v)
        if c is not None:
            ctx.expect(c not in mapped, "plugin-twice", site,
                       "%s already stands for %s" % (v, mapped.get(c)))
            mapped[c] = k
    for c in plugins:
        if c.module.name.startswith("oa.plugins.") and not [
                d for d in plugins if d is not c and c in d.mro()]:
            ctx.expect(c in mapped, "plugin-mapped", c.qual,
                       "no loadplugin line written for SpamAssassin loads "
                       "this plugin")
    by = {}
    for c in mapped:
        other = by.setdefault(c.name, c)
        ctx.expect(other is c, "plugin-class-name", c.qual, "has the same "
                   "class name as %s: loading one unloads the other" %
                   other.qual)
    ctx.floor("plugin names", len(ent), 25)
    # ---- rule types
    pm, rules = table(ctx, "oa.rules.parser", "RULES")
    two = literal_set(p, pm, "KNOWN_2_RTYPE")
    one = literal_set(p, pm, "KNOWN_1_RTYPE")
    ctx.floor("rule types", len(rules), 6)
    for k, node in rules:
        site = "RULES[%s]" % (k,)
        c = class_of(p, pm, node)
        ctx.expect(k in two, "rule-type", site, "the parser does not read "
                   "lines of this type as rules")
        rule_class(ctx, site, c, brule)
    for c in plugins:
        node, k = c.find_attr("cmds")
        if node is None or isinstance(node, ast.Constant):
            continue
        if not isinstance(node, ast.Dict):
            ctx.bad("cmds", c.qual, "not a dictionary written out")
            continue
        for kk, vv in zip(node.keys, node.values):
            rt = p.literal(k.module, kk)
            site = "%s.cmds[%s]" % (c.qual, rt)
            ctx.expect(isinstance(rt, str) and rt not in two | one,
                       "rule-type", site, "replaces a built-in rule type")
            rule_class(ctx, site, class_of(p, k.module, vv), brule)
    # types that only set something for a rule: read by the rule classes
    used = strings(p, ("oa.rules",)) | set()
    for t in sorted(two - {k for k, _ in rules}):
        ctx.expect(t in used, "setting", "KNOWN_2_RTYPE[%s]" % t,
                   "is accepted but nothing reads it")
    handled = compared(p, "oa.rules.parser")
    opts = options_of(p, p.cls(PADCONF)) or {}
    plug = set()
    for c in plugins:
        plug |= set(options_of(p, c) or ())
    for t in sorted(one):
        ctx.expect(t in handled or t in opts or t in plug or
                   t == "require_version",
                   "directive", "KNOWN_1_RTYPE[%s]" % t, "neither the "
                   "parser nor the configuration handles it")
    # ---- commands
    sm, cmds = table(ctx, "oa.server", "COMMANDS")
    bp = p.cls("oa.protocol.base.BaseProtocol")
    for k, node in cmds:
        site = "COMMANDS[%s]" % (k,)
        ctx.expect(isinstance(k, str) and k == k.upper(), "command-name",
                   site, "requests are looked up in upper case")
        c = class_of(p, sm, node)
        if not below(c, bp):
            ctx.bad("command", site, "not a protocol command class")
            continue
        f = own_method(c, "handle", bp)
        ctx.expect(f is not None, "command", site, "%s does not implement "
                   "handle" % c.qual)
        if f is not None:
            why = accepts(f, 2)
            ctx.expect(why is None, "command", site, "%s %s" % (f.qual, why))
    ctx.floor("commands", len(cmds), 8)


def class_names(c):
    """Other names given to methods in a class body."""
    out = []
    for s in c.node.body:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    out.append((t.id, s.value))
    return out


def helper_only(p, c, name):
    """Called by the class itself, so a helper of advertised functions."""
    for f in p.all_funcs():
        if f.cls is None or c not in f.cls.mro() and f.cls not in c.mro():
            continue
        if f.name == name:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr == name:
                return True
    return False


def rule_class(ctx, site, c, brule):
    if not below(c, brule):
        ctx.bad("rule-class", site, "not a rule class")
        return
    for name, n in (("match", 1), ("preprocess", 1), ("postprocess", 1)):
        f = c.find(name)
        if f is None:
            ctx.bad("rule-class", site, "%s has no %s" % (c.qual, name))
            continue
        if name == "match":
            ctx.expect(f.cls is not brule, "rule-class", site,
                       "%s does not implement match" % c.qual)
        why = accepts(f, n)
        ctx.expect(why is None, "rule-class", site, "%s %s" % (f.qual, why))
    # what get_rule_kwargs produces is what the class takes
    init = c.find("__init__")
    kw = kwargs_of(ctx.p, c)
    if kw is None or init is None:
        ctx.bad("rule-class", site, "the arguments of the class cannot be "
                "determined")
        return
    why = accepts(init, 1, tuple(sorted(kw)))
    ctx.expect(why is None or why.startswith("needs ") and not (
        set(why[6:].split(", ")) - kw), "rule-arguments", site,
        "%s %s, but is created with %s" % (init.qual, why, sorted(kw)))


def kwargs_of(p, c):
    """Keys get_rule_kwargs of a class can return."""
    f = c.find("get_rule_kwargs")
    if f is None:
        return None
    out = set()
    todo, seen = [f], set()
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and \
                    n.func.attr == "get_rule_kwargs":
                for e in p.resolve_expr(f.module, n.func):
                    if e[0] == "func":
                        todo.append(e[1])
                if isinstance(n.func.value, ast.Call):
                    g = c.find_after(f.cls, "get_rule_kwargs")
                    if g:
                        todo.append(g)
            elif isinstance(n, ast.Subscript) and isinstance(
                    n.ctx, ast.Store) and isinstance(
                        n.slice, ast.Constant) and isinstance(
                            n.slice.value, str):
                out.add(n.slice.value)
            elif isinstance(n, ast.Dict):
                out |= {k.value for k in n.keys if isinstance(
                    k, ast.Constant) and isinstance(k.value, str)}
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Name) and n.func.id == "dict" or isinstance(
                        n, ast.Call) and isinstance(
                            n.func, ast.Attribute) and \
                    n.func.attr == "update":
                out |= {k.arg for k in n.keywords if k.arg}
    return out


def literal_set(p, m, name):
    node = [b[1] for b in m.defs.get(name, ()) if b[0] == "value"]
    if len(node) != 1:
        return set()
    v = p.literal(m, node[0])
    if v is None and isinstance(node[0], ast.Call) and node[0].args:
        v = p.literal(m, node[0].args[0])
    return set(v) if isinstance(v, (list, tuple, set, frozenset)) else set()


def strings(p, prefixes):
    """String constants used inside functions of some modules."""
    out = set()
    for f in p.all_funcs():
        if f.module.name.startswith(prefixes):
            for n in own_nodes(f.node):
                if isinstance(n, ast.Constant) and isinstance(n.value, str):
                    out.add(n.value)
    return out


def compared(p, module):
    """Strings a module compares something with."""
    out = set()
    for n in ast.walk(p.modules[module].tree):
        if isinstance(n, ast.Compare):
            for e in [n.left] + n.comparators:
                for x in ast.walk(e):
                    if isinstance(x, ast.Constant) and isinstance(
                            x.value, str):
                        out.add(x.value)
    return out


def hooks(ctx, base, plugins):
    """Every hook is called on plugins with arguments every implementation
    takes; overriding methods keep the parameters of the base class."""
    p = ctx.p
    calls = {}
    for f in p.all_funcs():
        if f.module.name != "oa.context":
            continue
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and \
                    n.func.attr in base.methods and not \
                    n.func.attr.startswith("_"):
                if any(isinstance(a, ast.Starred) for a in n.args) or any(
                        k.arg is None for k in n.keywords):
                    continue
                calls.setdefault(n.func.attr, []).append(
                    (f, len(n.args), tuple(k.arg for k in n.keywords)))
    n = 0
    expected = [h for h in base.methods if h.startswith(
        ("finish_", "check_", "extract_", "parsed_", "auto_", "plugin_"))]
    for h in sorted(expected):
        ctx.expect(h in calls, "hook-called", h, "no code of oa.context "
                   "calls this hook on the plugins")
    for h, sites in sorted(calls.items()):
        for c in [base] + plugins:
            f = c.methods.get(h)
            if f is None or f.cls is not c:
                continue
            for g, k, kw in sites:
                n += 1
                why = accepts(f, k, kw)
                ctx.expect(why is None, "hook", "%s<-%s" % (f.qual, g.name),
                           "%s, but is called with %d arguments%s" % (
                               why, k, " and " + ", ".join(kw) if kw
                               else ""))
    return n
