"""P33: asking for a header again gives the same answer."""
import ast

from ..absint import Budget, NONE, is_const, show
from ..core import check
from ..util import BasePolicy, driver, mkdict, run
from .protocol import meth_name
from .relays import mklist
from .scoring import MSG

MESSAGE = "oa.message.Message"
DICTS = ("raw_headers", "headers", "addr_headers", "name_headers",
         "mime_headers", "raw_mime_headers")
LISTS = ("received_headers", "trusted_relays", "untrusted_relays",
         "internal_relays", "external_relays", "uri_list",
         "hostname_with_ip")
VALUES = ("text", "raw_text", "sender_address")

RAW = {"subject": ["S1", "S2"], "from": ["F1"], "x-both": ["B1"]}
MIME = {"content-type": ["T1", "T2"]}
ADDED = {"x-added": ["P1"]}


def decoded(v):
    return "d(%s)" % v


def addresses(v):
    """What the model of getaddresses answers."""
    return (("", ""), ("name1 " + v, "addr1 " + v), ("name2 " + v, ""),
            ("", "addr3 " + v))


def expected(name):
    raw = RAW.get(name, [])
    dec = [decoded(v) for v in raw] + ADDED.get(name, [])
    return {
        "get_raw_header": raw, "get_decoded_header": dec,
        "get_addr_header": ["addr1 " + v for v in dec],
        "get_all_addr_header": [a for v in dec
                                for a in ("addr1 " + v, "addr3 " + v)],
        "get_name_header": ["name1 " + v for v in dec],
        "get_raw_mime_header": MIME.get(name, []),
        "get_decoded_mime_header": [decoded(v) for v in MIME.get(name, [])],
        "get_headers": ADDED.get(name, []),
    }


class Views(BasePolicy):
    """Decoding and address splitting are fixed functions of their text."""
    known_exc = True

    def __init__(self, p):
        BasePolicy.__init__(self, p)
        self.lazy = None

    def inline(self, I, fi):
        return fi.module.name in ("oa.message", "_client")

    def on_call(self, I, st, node, callee, args, kw):
        nm = callee[1] if callee[0] == "ext" else None
        if nm == "email.header.decode_header" and args and is_const(args[0]):
            return [("ok", ("const", ((decoded(args[0][1]), None),)), st)]
        if nm == "email.utils.getaddresses" and args:
            ex = I._exact(args[0], st)
            if ex is not None and len(ex) == 1 and is_const(ex[0]):
                return [("ok", ("const", addresses(ex[0][1])), st)]
        if meth_name(callee) == "decode" and callee[0] == "meth" and \
                is_const(callee[1]) and isinstance(callee[1][1], str):
            return [("exc", ("exc", "AttributeError", I.site(node)), st)]
        return None


def ask(ctx, calls, lazy, tail=""):
    """The answers to a series of questions put to one message; values as
    lists of text, or None if not decided."""
    src = "def driver(msg):\n" + "".join(
        "    a%d = msg.%s(%r)\n%s" % (i, m, n, tail and
                                      "    a%d.%s\n" % (i, tail))
        for i, (m, n) in enumerate(calls)) + "    return (%s,)\n" % \
        ", ".join("a%d" % i for i in range(len(calls)))
    heap = {}
    for k in DICTS + tuple(a for a in caches(ctx) if a not in DICTS):
        d = {"raw_headers": RAW, "raw_mime_headers": MIME,
             "headers": ADDED}.get(k, {})
        heap[(MSG, "attr", k)] = mkdict(heap, {
            n: mklist(heap, [("const", x) for x in v])
            for n, v in d.items()}, k)
    heap[(("modobj", "oa.config"), "attr", "LAZY_MODE")] = ("const", lazy)
    f = driver(ctx.p, src)
    I, outs = run(lambda: Views(ctx.p), ctx.p, f, args={"msg": MSG},
                  heap=heap)
    ctx.saw(I)
    res = []
    for k, v, s in outs:
        if k != "ret":
            res.append((show(v), s))
            continue
        row = []
        for x in v[1]:
            ex = I._exact(x, s)
            row.append([y[1] if is_const(y) else show(y) for y in ex]
                       if ex is not None else show(x))
        res.append((row, s))
    return res


def caches(ctx):
    """Attributes of the message that hold header collections."""
    c = ctx.p.cls(MESSAGE)
    out = []
    for f in c.methods.values():
        if f.name != "__init__":
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) \
                    and isinstance(n.targets[0], ast.Attribute) and \
                    isinstance(n.value.func, ast.Name) and \
                    "eader" in n.value.func.id:
                out.append(n.targets[0].attr)
    return out


def stable(ctx):
    n = 0
    accessors = sorted(set(expected("subject")) - {"get_headers"})
    names = ("subject", "from", "nothere", "content-type", "x-added")
    for lazy in (True, False):
        for m in accessors:
            for name in names:
                other = [(a, name) for a in accessors if a != m]
                calls = [(m, name)] + other + [(m, name)] + [
                    (m, "from" if name != "from" else "subject"), (m, name)]
                cons = "%s:%s:%s" % (m, name, "lazy" if lazy else "cached")
                for row, s in ask(ctx, calls, lazy):
                    n += 1
                    if not isinstance(row, list):
                        ctx.bad("answer", cons, "asking ends with %s" % row)
                        continue
                    for (a, b), got in zip(calls, row):
                        want = expected(b)[a]
                        ctx.expect(got == want, "answer", "%s:%s(%s)" % (
                            cons, a, b), "after %s, %s of a header gives %s "
                            "where %s is in the message" % (
                                ", ".join(x for x, y in calls[:3]), a, got,
                                want))
    # a header of the message with the name of one a plugin added
    for lazy in (True, False):
        add = dict(ADDED)
        ADDED["x-both"] = ["P2"]
        try:
            for row, s in ask(ctx, [("get_decoded_header", "x-both")] * 2,
                              lazy):
                n += 1
                want = expected("x-both")["get_decoded_header"]
                ctx.expect(row == [want, want], "answer", "both:%s" % (
                    "lazy" if lazy else "cached"), "a header of the message "
                    "with the name of one added by a plugin: %s where %s "
                    "are there" % (row, want))
        finally:
            ADDED.clear()
            ADDED.update(add)
    ctx.floor("series of questions", n, 60)
    return accessors


def own_lists(ctx, accessors):
    """Accessors whose answers belong to the caller: changing one leaves the
    next answer as it was, with and without caching."""
    free = set()
    for m in accessors:
        ok = True
        name = "content-type" if "mime" in m else \
            "x-added" if m == "get_headers" else "subject"
        for lazy in (True, False):
            for row, s in ask(ctx, [(m, name), (m, name)], lazy,
                              "append('added')"):
                want = expected(name)[m] + ["added"]
                if row != [want, want]:
                    ok = False
        if ok:
            free.add(m)
    return free


def case_folding(ctx):
    """Names of headers are compared without regard to case."""
    c = ctx.p.classes.get("oa.message._Headers")
    if c is None:
        ctx.note("case folding", "not compared: no oa.message._Headers")
        return
    n = 0
    for nm in ("get", "__setitem__", "__getitem__", "__contains__"):
        f = c.find(nm)
        if not ctx.expect(f is not None, "case", nm, "%s does not fold the "
                          "case of header names" % nm):
            continue

        class Fold(BasePolicy):
            def __init__(self, p):
                BasePolicy.__init__(self, p)
                self.keys = []

            def on_call(self, I, st, node, callee, args, kw):
                if meth_name(callee) == nm and callee[0] in (
                        "superm", "ext", "meth", "attr") or \
                        callee[0] == "ext" and callee[1].endswith("." + nm):
                    self.keys.append(args)
                return None
        ps = f.params()
        I, outs = run(lambda: Fold(ctx.p), ctx.p, f, args={
            ps[0]: ("sym", "self", c.qual), ps[1]: ("const", "X-Ab")},
            self_cls=c)
        ctx.saw(I)
        n += 1
        seen = [a for args in I.pol.keys for a in args
                if is_const(a) and isinstance(a[1], str)]
        ctx.expect(seen and all(a[1] == "x-ab" for a in seen), "case", nm,
                   "%s looks for %s where X-Ab is asked for" % (
                       nm, [a[1] for a in seen]))
    ctx.floor("header collection operations", n, 4)


def is_msg(t):
    return t[0] == "sym" and (t[1] in ("msg", "message") or
                              len(t) > 2 and t[2] == MESSAGE)


def view_of(t):
    """(root kind, name, depth) if the term is or lies inside a view."""
    d = 0
    while True:
        if t[0] == "sym" and str(t[1]).startswith("view:"):
            return t[1][5:].split("@")[0], d
        if t[0] == "attr" and t[2] in DICTS + LISTS and is_msg(t[1]):
            return t[2], d
        if t[0] == "unpack" or t[0] == "mcall" and t[2] in (
                "items", "values"):
            t = t[1]
            continue
        if t[0] in ("iter", "item") or t[0] == "mcall" and t[2] in (
                "get", "setdefault"):
            t = t[1]
            d += 1
            continue
        # what the items of a copy are is what the items of the original are
        if d and t[0] in ("call", "pcall") and t[2] and \
                isinstance(t[2], tuple) and (
                    t[1] if isinstance(t[1], str) else t[1][-1]) in (
                    "enumerate", "reversed", "sorted", "list", "tuple",
                    "zip", "iter", "filter", "copy"):
            for a in t[2]:
                r = isinstance(a, tuple) and a and view_of(a)
                if r:
                    return r[0], r[1] + d
            return None
        if d and t[0] == "bin" and t[1] == "Add":
            r = view_of(t[2]) or view_of(t[3])
            return r and (r[0], r[1] + d)
        return None


class Changes(BasePolicy):
    small = 0

    def __init__(self, p, ctx, free, inside):
        BasePolicy.__init__(self, p)
        self.ctx, self.free, self.inside = ctx, free, inside
        self.passed = []
        self.found = []
        self.acc = frozenset(expected("x"))

    def inline(self, I, fi):
        return fi.is_cm or fi.deco_nodes and fi.cls is None

    def hit(self, I, node, base, what):
        r = view_of(base)
        if r is None:
            return
        name, depth = r
        if name in self.free and depth == 0:
            return
        if name == "headers" and what in ("append", "extend", "setdefault",
                                          "insert"):
            return
        self.found.append((name, what, getattr(node, "lineno", 0)))

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        if nm in self.acc and callee[0] in ("bm", "meth", "attr"):
            return [("ok", ("sym", "view:%s@%s" % (nm, node.lineno), None),
                     st)]
        if callee[0] in ("fn", "bm"):
            fi = callee[1]
            ps = fi.params()
            if callee[0] == "bm":
                ps = ps[1:]
            for q, v in list(zip(ps, args)) + list(kw.items()):
                if isinstance(v, tuple) and view_of(v) is not None:
                    r = view_of(v)
                    if not (r[0] in self.free and r[1] == 0):
                        self.passed.append((fi, q, r[0]))
        if nm in ("sort", "shuffle", "heapify") and args:
            self.hit(I, node, args[0], nm)
        return None

    def on_mutate(self, I, st, node, base, meth, args):
        self.hit(I, node, base, meth)

    def on_augment(self, I, st, node, old, op, value):
        if not isinstance(node.target, ast.Attribute):
            r = view_of(old)
            # the values inside are text
            if r and (r[1] == 0 or r[0] in DICTS and r[1] == 1):
                self.hit(I, node, old, "augmented assignment")

    def on_item_store(self, I, st, node, base, key, value):
        self.hit(I, node, base, "assignment of an item")

    def on_del(self, I, st, node, base, key):
        self.hit(I, node, base, "deletion of an item")

    def on_attr_store(self, I, st, node, base, name, value):
        if is_msg(base) and name in DICTS + LISTS + VALUES:
            self.found.append((name, "assignment",
                               getattr(node, "lineno", 0)))


def builders(ctx):
    """Methods of the message that run only while it is made."""
    c = ctx.p.cls(MESSAGE)
    own = {f.name: f for f in c.methods.values()}

    def used(f):
        return {n.attr for n in ast.walk(f.node)
                if isinstance(n, ast.Attribute)}
    inside, todo = set(), ["__init__"]
    while todo:
        nm = todo.pop()
        if nm in inside or nm not in own:
            continue
        inside.add(nm)
        todo += [x for x in used(own[nm]) if x in own]
    out = {own[x].qual for x in inside}
    changed = True
    while changed:
        changed = False
        for f in ctx.p.funcs.values():
            if f.qual in out:
                continue
            for nm in used(f) & inside:
                if f.cls is not None and f.cls is not c and \
                        nm in f.cls.methods:
                    continue        # a method of its own
                if own[nm].qual in out and nm != "__init__":
                    out.discard(own[nm].qual)
                    changed = True
    return out


def changes(ctx, free, accessors):
    words = set(accessors) | set(DICTS) - {"headers"} | set(LISTS) | \
        set(VALUES) - {"text"} | {"headers", "text"}
    inside = builders(ctx)
    todo, seen, n = [], set(), 0
    for f in sorted(ctx.p.funcs.values(), key=lambda f: f.qual):
        if f.qual in inside or "#" in f.qual:
            continue
        names = {x.attr for x in ast.walk(f.node)
                 if isinstance(x, ast.Attribute)}
        if names & words:
            todo.append((f, None, None))
    while todo:
        f, q, view = todo.pop(0)
        if (f.qual, q, view) in seen or f.name == "_memoize":
            continue
        seen.add((f.qual, q, view))
        args = {}
        if q is not None:
            args[q] = ("sym", "view:%s@arg" % view, None)
        try:
            I, outs = run(lambda: Changes(ctx.p, ctx, free, inside), ctx.p,
                          f, args=args, self_cls=f.cls)
        except Budget:
            ctx.bad("undecided", f.qual, "%s is too large to analyse" %
                    f.qual)
            continue
        ctx.saw(I)
        n += 1
        bad = sorted(set(I.pol.found))
        if f.qual in inside and q is None:
            bad = []
        if not bad:
            ctx.ok("changed", f.qual)
        for name, what, line in bad:
            ctx.bad("changed", "%s:%s" % (f.qual, name), "%s changes what "
                    "%s gave it: %s (line %s)" % (f.qual, name, what, line))
        for fi, q2, v in I.pol.passed:
            if fi.qual not in inside:
                todo.append((fi, q2, v))
    ctx.floor("functions using header views", n, 60)


@check("P33", "Asking for a header again gives the same answer")
def p33(ctx):
    acc = stable(ctx)
    free = own_lists(ctx, acc)
    ctx.note("lists that belong to the caller", sorted(free))
    case_folding(ctx)
    changes(ctx, free, acc)
