"""Helpers shared by the checks."""
import ast

from .absint import (Budget, Interp, Policy, contains, is_const, show,
                     subterms)
from .model import ClassInfo, FuncInfo, dotted, walk_func

SEEDS = {
    "msg": "oa.message.Message", "message": "oa.message.Message",
    "ruleset": "oa.rules.ruleset.RuleSet",
    "ctxt": "oa.context.GlobalContext",
    "context": "oa.context.GlobalContext",
    "global_context": "oa.context.GlobalContext",
}


def names_in(fi):
    out = getattr(fi, "_names", None)
    if out is None:
        out = set()
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Attribute):
                out.add(n.attr)
            elif isinstance(n, ast.Name):
                out.add(n.id)
        fi._names = out
    return out


def size(fi):
    s = getattr(fi, "_size", None)
    if s is None:
        s = fi._size = sum(1 for _ in ast.walk(fi.node))
    return s


def reach_names(project, names, within=None):
    """Quals of project functions that mention one of ``names`` directly or
    call (by name) a function that does: an over-approximation used only to
    decide what is worth analysing in place."""
    names = set(names)
    byname = {}
    for f in project.funcs.values():
        byname.setdefault(f.name, []).append(f)
    hit = {f.qual for f in project.funcs.values() if names & names_in(f)}
    changed = True
    while changed:
        changed = False
        hn = {q.split("#")[0].rsplit(".", 1)[1] for q in hit}
        for f in project.funcs.values():
            if f.qual not in hit and hn & names_in(f):
                hit.add(f.qual)
                changed = True
    return hit


class BasePolicy(Policy):
    """Inline small helpers, relevant functions and same-class/module helpers
    of the entry; everything else is an uninterpreted call."""
    seeds = SEEDS
    relevant_names = ()
    small = 90
    mods = ()     # modules whose functions are always analysed in place
    entry = None

    def __init__(self, project=None):
        self.project = project
        self._rel = None

    def relevant(self):
        if self._rel is None:
            self._rel = reach_names(self.project, self.relevant_names) \
                if self.relevant_names else set()
        return self._rel

    def inline(self, I, fi):
        if fi.is_cm or fi.deco_nodes and fi.cls is None:
            return True
        e = I.frames[0].fi if I.frames else None
        if e is not None and (fi.module is e.module):
            return True
        if size(fi) <= self.small or (
                self.mods and fi.module.name.startswith(self.mods)):
            return True
        return fi.qual in self.relevant()


def run(policy_factory, project, fi, **kw):
    """Run with degradation: if the budget is exceeded retry with stronger
    joins (still sound for the monitors, which are kept apart)."""
    last = None
    for ms, depth in ((160, 12), (60, 9), (24, 7), (10, 6), (10, 4),
                      (8, 3), (6, 2)):
        pol = policy_factory()
        pol.max_states = min(ms, pol.max_states)
        pol.max_depth = min(depth, pol.max_depth)
        I = Interp(project, pol)
        try:
            outs = I.run(fi, **kw)
            return I, outs
        except Budget as e:
            last = e
    raise last


def mentions_attr(t, name):
    return contains(t, lambda x: x[0] == "attr" and x[2] == name)


def is_item(t, key):
    return t[0] == "item" and t[2] == ("const", key)


def path_str(st):
    return " -> ".join("%s:%s[%s]" % (m, l, "T" if b else "F")
                       for m, l, b in st.path[-8:])


_drivers = {}


def driver(project, src, name="driver"):
    """A small piece of client code (never run) through which a check looks
    at the analysed program's public entry points.  Returns its FuncInfo."""
    from .model import Module
    key = (id(project), src, name)
    if key not in _drivers:
        m = Module("_client", "<client>", src, False)
        before = set(project.funcs)
        beforec = set(project.classes)
        project._bind(m)
        for q in set(project.funcs) - before:
            project.funcs.pop(q)
        for q in set(project.classes) - beforec:
            project.classes.pop(q)
        fi = [e[1] for e in m.defs[name] if e[0] == "func"][0]
        _drivers[key] = fi
    return _drivers[key]


def deep(t, st, depth=6):
    """The term with list/dict/set objects replaced by their contents."""
    if not isinstance(t, tuple) or not t or depth < 0:
        return t
    if t[0] == "obj" and t[2] in ("list", "set", "dict", "gen"):
        el = st.heap.get((t, "elems"), ())
        items = tuple((k[2], deep(v, st, depth - 1))
                      for k, v in sorted(st.heap.items(), key=repr)
                      if k[0] == t and k[1] == "item")
        src = st.heap.get((t, "src"))
        return ("lit", t[2], deep(el, st, depth - 1), items,
                deep(src, st, depth - 1) if src else None)
    return tuple(deep(x, st, depth - 1) if isinstance(x, tuple) else x
                 for x in t)


_ids = [0]


def mkdict(heap, items, name="dict"):
    """A dictionary with exactly the given constant keys."""
    _ids[0] += 1
    o = ("obj", ("<client>", name, _ids[0]), "dict")
    heap[(o, "closed")] = ("const", True)
    heap[(o, "elems")] = tuple(("const", k) for k in items)
    heap[(o, "dkeys")] = ("tuple", tuple(("const", k) for k in items))
    for k, v in items.items():
        heap[(o, "item", ("const", k))] = v if isinstance(v, tuple) else \
            ("const", v)
    return o


def mkobj(heap, cls, attrs, name="obj"):
    """An object of a class with the given attributes."""
    _ids[0] += 1
    o = ("sym", "%s%d" % (name, _ids[0]), cls)
    for k, v in attrs.items():
        heap[(o, "attr", k)] = v if isinstance(v, tuple) else ("const", v)
    return o


def truths(outs):
    """Distinct (kind, truth value) a run can end with."""
    res = set()
    for k, v, s in outs:
        if k == "exc":
            res.add(("exc", v[1] if len(v) > 1 else "ANY"))
        elif is_const(v):
            res.add(("ret", bool(v[1])))
        else:
            res.add(("ret", None))
    return res


_SPEC = None


def text(t):
    """A text term as a list of parts: str constants (merged) and terms."""
    import re
    out = []

    def put(x):
        if isinstance(x, str):
            if not x:
                return
            if out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        else:
            out.append(x)

    def go(t):
        if is_const(t):
            if isinstance(t[1], (str, int)) and not isinstance(t[1], bool):
                put(str(t[1]))
                return
        elif t[0] == "fmt":
            a, args = t[1], t[2]
            if a == "f":
                for x in args:
                    go(x)
                return
            if is_const(a) and isinstance(a[1], str):
                parts = re.split(r"(%(?:\([^)]*\))?[-#0 +]*(?:\*|\d+)?"
                                 r"(?:\.\d+)?[a-zA-Z%])", a[1])
                n = sum(1 for p in parts[1::2] if p != "%%")
                plain = [x for x in args if x[0] != "kw"]
                if n and n == len(args):
                    it = iter(args)
                    for i, p in enumerate(parts):
                        if i % 2 == 0:
                            put(p)
                        elif p == "%%":
                            put("%")
                        else:
                            go(next(it))
                    return
                parts = re.split(r"(\{[^{}]*\})", a[1])
                if len(parts) > 1:
                    i = 0
                    kws = {x[1]: x[2] for x in args if x[0] == "kw"}
                    for j, p in enumerate(parts):
                        if j % 2 == 0:
                            put(p)
                            continue
                        f = p[1:-1].split(":")[0].split("!")[0]
                        if f == "":
                            v = plain[i] if i < len(plain) else t
                            i += 1
                        elif f.isdigit():
                            v = plain[int(f)] if int(f) < len(plain) else t
                        else:
                            v = kws.get(f, t)
                        if v is t:
                            put(t)
                        else:
                            go(v)
                    return
        elif t[0] == "join" and is_const(t[1]) and isinstance(
                t[1][1], str) and not any(
                    x[0] in ("each", "loopval") for x in t[2]):
            for i, x in enumerate(t[2]):
                if i:
                    put(t[1][1])
                go(x)
            return
        elif t[0] == "bin" and t[1] == "Add":
            go(t[2])
            go(t[3])
            return
        elif t[0] == "pcall" and t[1] == "str" and len(t[2]) == 1:
            go(t[2][0])
            return
        elif t[0] == "mcall" and t[2] == "decode" and codec(t) and \
                t[1][0] == "mcall" and t[1][2] == "encode" and \
                codec(t[1]) == codec(t):
            go(t[1][1])
            return
        put(t)
    go(t)
    return out


def codec(t):
    """Codec of an encode/decode call term ('utf8' normalised)."""
    args = t[3]
    c = "utf-8"
    for i, a in enumerate(args):
        if a[0] == "kw":
            if a[1] == "encoding" and is_const(a[2]):
                c = a[2][1]
        elif i == 0 and is_const(a):
            c = a[1]
        elif i == 0:
            return None
    c = str(c).lower().replace("_", "-").replace("utf-8", "utf8")
    return c


def errors_arg(t):
    """The error handling given to an encode/decode call term."""
    for i, a in enumerate(t[3]):
        if a[0] == "kw" and a[1] == "errors" and is_const(a[2]):
            return a[2][1]
        if i == 1 and is_const(a):
            return a[1]
    return "strict"


def encoded(t):
    """x for a term x.encode(utf8) (also for constant bytes), else None."""
    if t[0] == "mcall" and t[2] == "encode" and codec(t) == "utf8":
        return t[1]
    if is_const(t) and isinstance(t[1], bytes):
        try:
            return ("const", t[1].decode("utf8"))
        except UnicodeDecodeError:
            return None
    if t[0] == "bin" and t[1] == "Add":
        a, b = encoded(t[2]), encoded(t[3])
        if a is not None and b is not None:
            return ("bin", "Add", a, b)
    if t[0] == "join" and is_const(t[1]) and t[1][1] == b"":
        xs = [encoded(x) for x in t[2]]
        if all(x is not None for x in xs):
            return ("join", ("const", ""), tuple(xs))
    return None
