"""Undo the extraction of helpers before the analysis.

A function that the tree had when the checks were written is taken as it is
(known_functions.txt).  Any other function that is plainly called by its module
is put back in the place of its calls where that can be done without changing
what happens; the checks then see the code as if it had not been moved.  What
cannot be put back is left alone (the interpreter looks into it).
"""
import ast
import copy
import os

HERE = os.path.dirname(os.path.abspath(__file__))
KNOWN = os.path.join(HERE, "known_functions.txt")


def known():
    with open(KNOWN) as f:
        return {l.strip() for l in f if l.strip()}


def functions(tree):
    """(holder, class or None, function) of a module, not nested ones."""
    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield tree, None, n
        elif isinstance(n, ast.ClassDef):
            for f in n.body:
                if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield n, n, f
        elif isinstance(n, (ast.If, ast.Try)):
            for x in ast.walk(n):
                if isinstance(x, ast.ClassDef):
                    for f in x.body:
                        if isinstance(f, ast.FunctionDef):
                            yield x, x, f


def docless(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(
            body[0].value, ast.Constant) and isinstance(
                body[0].value.value, str):
        return body[1:]
    return body


BAD = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef,
       ast.Global, ast.Nonlocal, ast.Await, ast.NamedExpr)


class Helper(object):
    def __init__(self, holder, cls, f):
        self.holder, self.cls, self.f = holder, cls, f
        self.deco = [d.id if isinstance(d, ast.Name) else "?"
                     for d in f.decorator_list]
        a = f.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.me = None
        if cls is not None and self.deco != ["staticmethod"]:
            self.me = self.params[0] if self.params else None
            self.params = self.params[1:]
        self.defaults = dict(zip(reversed(self.params),
                                 reversed(a.defaults)))
        own = [x for x in ast.walk(f) if isinstance(x, ast.Name)]
        self.gen = any(isinstance(x, (ast.Yield, ast.YieldFrom))
                       for x in ast.walk(f))
        self.super = any(x.id == "super" for x in own)

    @property
    def usable(self):
        f, a = self.f, self.f.args
        if isinstance(f, ast.AsyncFunctionDef) or a.vararg or a.kwarg or \
                a.kwonlyargs or self.deco not in (
                    [], ["staticmethod"], ["classmethod"]):
            return False
        if self.cls is not None and self.deco != ["staticmethod"] and \
                self.me is None:
            return False
        for x in ast.walk(f):
            if x is not f and isinstance(x, BAD):
                return False
            if isinstance(x, ast.Name) and x.id in (
                    "locals", "vars", "__class__", "exec", "eval"):
                return False
            if isinstance(x, ast.Attribute) and x.attr == f.name or \
                    isinstance(x, ast.Name) and x.id == f.name:
                return False        # calls itself
        return all(isinstance(d, ast.Constant) for d in a.defaults)


def target(call, helpers, classes, caller_cls, caller_me):
    """The helper a call goes to, with the expression for self."""
    fn = call.func
    if isinstance(fn, ast.Name):
        h = helpers.get((None, fn.id))
        return (h, None) if h is not None else (None, None)
    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
        if caller_cls is None:
            return None, None
        if fn.value.id == caller_me:
            todo, seen = [caller_cls], []
            while todo:
                c = todo.pop(0)
                if c in seen:
                    continue
                seen.append(c)
                h = helpers.get((id(c), fn.attr))
                if h is not None:
                    return h, caller_me
                todo += [classes[b.id] for b in c.bases
                         if isinstance(b, ast.Name) and b.id in classes]
        elif fn.value.id in classes:
            h = helpers.get((id(classes[fn.value.id]), fn.attr))
            if h is not None and h.deco:
                return h, fn.value.id
    return None, None


def bind(h, call, me):
    """Arguments by parameter, or None."""
    if any(isinstance(a, ast.Starred) for a in call.args) or \
            any(k.arg is None for k in call.keywords) or \
            len(call.args) > len(h.params):
        return None
    out = dict(zip(h.params, call.args))
    for k in call.keywords:
        if k.arg not in h.params or k.arg in out:
            return None
        out[k.arg] = k.value
    for p, d in h.defaults.items():
        out.setdefault(p, d)
    if set(out) != set(h.params):
        return None
    if h.me is not None:
        out[h.me] = ast.Name(me, ast.Load())
    return out


def simple(e):
    """Evaluating it later or twice makes no difference."""
    if isinstance(e, (ast.Name, ast.Constant)):
        return True
    return False


def stored(stmts):
    out = set()
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store,
                                                              ast.Del)):
                out.add(x.id)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name).split(".")[0] for a in x.names}
    return out


class Subst(ast.NodeTransformer):
    def __init__(self, exprs, names):
        self.exprs, self.names = exprs, names

    def visit_Name(self, n):
        if n.id in self.exprs and isinstance(n.ctx, ast.Load):
            return ast.copy_location(copy.deepcopy(self.exprs[n.id]), n)
        if n.id in self.names:
            return ast.copy_location(ast.Name(self.names[n.id], n.ctx), n)
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.name in self.names:
            n.name = self.names[n.name]
        return n


def has_return(stmts):
    return any(isinstance(x, ast.Return) for s in stmts for x in ast.walk(s))


def ends(stmts):
    """Does every way through end with return or raise?"""
    if not stmts:
        return False
    s = stmts[-1]
    if isinstance(s, (ast.Return, ast.Raise)):
        return True
    if isinstance(s, ast.If):
        return ends(s.body) and ends(s.orelse)
    if isinstance(s, ast.Try):
        return (ends(s.body) or ends(s.orelse)) and all(
            ends(h.body) for h in s.handlers) or ends(s.finalbody)
    if isinstance(s, ast.With):
        return ends(s.body)
    return False


class Cannot(Exception):
    pass


def tailify(stmts, make):
    """Returns in the middle become branches; make(expr) what replaces the
    return; raises Cannot where a return is inside a loop and the like."""
    out = []
    for i, s in enumerate(stmts):
        rest = stmts[i + 1:]
        if isinstance(s, ast.Return):
            return out + make(s)
        if not has_return([s]):
            out.append(s)
            continue
        if not isinstance(s, ast.If):
            if not rest and isinstance(s, ast.Try) and not s.finalbody and \
                    not has_return(s.body if s.orelse else []):
                t = copy.copy(s)
                # only if what replaces the return cannot raise
                if has_return(s.body) and not all(
                        isinstance(x.value, (ast.Name, ast.Constant,
                                             type(None)))
                        for b in s.body for x in ast.walk(b)
                        if isinstance(x, ast.Return)) and not ends(s.body):
                    raise Cannot()
                t.body = tailify(s.body, make)
                t.orelse = tailify(s.orelse, make) if s.orelse else []
                t.handlers = []
                for h in s.handlers:
                    h2 = copy.copy(h)
                    h2.body = tailify(h.body, make)
                    t.handlers.append(h2)
                return out + [t]
            if not rest and isinstance(s, ast.With):
                t = copy.copy(s)
                t.body = tailify(s.body, make)
                return out + [t]
            raise Cannot()
        body = s.body if ends(s.body) else s.body + rest
        orelse = s.orelse if ends(s.orelse) else s.orelse + rest
        if rest and has_return([s]) and not (ends(s.body) or
                                             ends(s.orelse)):
            if len(rest) > 6:
                raise Cannot()
            orelse = copy.deepcopy(orelse)
        t = copy.copy(s)
        t.body = tailify(body, make)
        t.orelse = tailify(orelse, make)
        if not t.body:
            t.body = [ast.copy_location(ast.Pass(), s)]
        return out + [t]
    return out + make(None)


class Putback(object):
    def __init__(self, helpers, classes):
        self.helpers, self.classes = helpers, classes
        self.changed = False
        self.count = 0

    def function(self, cls, f):
        a = f.args.posonlyargs + f.args.args
        self.cls = cls
        self.me = a[0].arg if cls is not None and a else None
        self.names = {x.id for x in ast.walk(f) if isinstance(x, ast.Name)} \
            | {x.arg for x in a}
        self.fn = f
        f.body = self.block(f.body)

    def find(self, e, gen=False):
        if isinstance(e, ast.Call):
            h, me = target(e, self.helpers, self.classes, self.cls,
                           self.me)
            if h is not None and h.f is not self.fn and h.gen == gen and (
                    not h.super or h.cls is self.cls):
                b = bind(h, e, me)
                if b is not None:
                    return h, b
        return None, None

    def prepared(self, h, b, keep=()):
        """(assignments, body) of the helper in names of the caller."""
        body = copy.deepcopy(docless(h.f.body))
        st = stored(body)
        exprs, names, pre = {}, {}, []
        self.count += 1
        simples = {p for p, e in b.items() if simple(e) and p not in st and
                   not (isinstance(e, ast.Name) and e.id in st and
                        e.id not in b)}
        for p, e in b.items():
            if p in simples:
                exprs[p] = e
        used = {x.id for p in simples for x in ast.walk(b[p])
                if isinstance(x, ast.Name)}
        local = (st | set(b)) - simples
        for v in sorted(local):
            if v in self.names or v in used:
                names[v] = "%s__%d" % (v, self.count)
        for p in h.params + ([h.me] if h.me else []):
            if p not in simples:
                t = ast.Name(names.get(p, p), ast.Store())
                pre.append(ast.copy_location(ast.Assign(
                    [ast.copy_location(t, b[p])], b[p]), b[p]))
        sub = Subst(exprs, names)
        body = [sub.visit(s) for s in body]
        self.names |= set(names.values()) | (local - set(names))
        return pre, body

    def expression(self, h, b):
        """The expression that stands for a call, or None."""
        body = docless(h.f.body)
        if len(body) != 1 or not isinstance(body[0], ast.Return) or \
                body[0].value is None:
            return None
        e = body[0].value
        uses = {}
        for x in ast.walk(e):
            if isinstance(x, ast.Name):
                uses[x.id] = uses.get(x.id, 0) + 1
                if isinstance(x.ctx, ast.Store) and x.id in b:
                    return None
        own = {x.id for x in ast.walk(e) if isinstance(x, ast.Name) and
               isinstance(x.ctx, ast.Store)}
        for p, a in b.items():
            if not simple(a):
                return None
            if isinstance(a, ast.Name) and a.id in own:
                return None
        return Subst(b, {}).visit(copy.deepcopy(e))

    def block(self, stmts):
        out = []
        for s in stmts:
            out.extend(self.stmt(s))
        return out

    def stmt(self, s):
        for f in ("body", "orelse", "finalbody"):
            v = getattr(s, f, None)
            if isinstance(v, list) and v and not isinstance(
                    s, (ast.FunctionDef, ast.ClassDef)):
                setattr(s, f, self.block(v))
        for h in getattr(s, "handlers", ()):
            h.body = self.block(h.body)
        # expressions
        put = self

        class E(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                h, b = put.find(n)
                if h is not None:
                    e = put.expression(h, b)
                    if e is not None:
                        put.changed = True
                        return ast.copy_location(e, n)
                return n

            def visit_Lambda(self, n):
                return n
            visit_FunctionDef = visit_ClassDef = visit_Lambda
        for f, v in list(ast.iter_fields(s)):
            if isinstance(v, ast.expr):
                setattr(s, f, E().visit(v))
            elif isinstance(v, list) and v and isinstance(v[0], (
                    ast.expr, ast.withitem)):
                setattr(s, f, [E().visit(x) for x in v])
        try:
            r = self.whole(s)
        except Cannot:
            r = None
        if r is None:
            return [s]
        self.changed = True
        return r

    def whole(self, s):
        def loc(x):
            return ast.copy_location(x, s)
        if isinstance(s, ast.Return):
            h, b = self.find(s.value)
            if h is None and docless(self.fn.body)[:1] == [s]:
                h, b = self.find(s.value, True)
                if h is not None:
                    pre, body = self.prepared(h, b)
                    return pre + body
            if h is None:
                return None
            pre, body = self.prepared(h, b)
            if not ends(body):
                body.append(loc(ast.Return(loc(ast.Constant(None)))))
            return pre + body
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom) or \
                isinstance(s, ast.For) and not s.orelse and \
                len(s.body) == 1 and isinstance(s.target, ast.Name) and \
                isinstance(s.body[0], ast.Expr) and isinstance(
                    s.body[0].value, ast.Yield) and isinstance(
                        s.body[0].value.value, ast.Name) and \
                s.body[0].value.value.id == s.target.id:
            h, b = self.find(s.iter if isinstance(s, ast.For) else
                             s.value.value, True)
            if h is None or has_return(h.f.body):
                return None
            pre, body = self.prepared(h, b)
            return pre + body
        if isinstance(s, ast.Expr):
            h, b = self.find(s.value)
            if h is None:
                return None
            pre, body = self.prepared(h, b)

            def drop(r):
                if r is None or r.value is None or isinstance(
                        r.value, (ast.Name, ast.Constant)):
                    return []
                return [ast.copy_location(ast.Expr(r.value), r)]
            return (pre + tailify(body, drop)) or [loc(ast.Pass())]
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            h, b = self.find(s.value)
            if h is None:
                return None
            pre, body = self.prepared(h, b)

            def give(r):
                v = r.value if r is not None and r.value is not None else \
                    loc(ast.Constant(None))
                return [loc(ast.Assign(copy.deepcopy(s.targets), v))]
            return pre + tailify(body, give)
        if isinstance(s, ast.If):
            t, neg = s.test, False
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t, neg = t.operand, True
            h, b = self.find(t)
            if h is None:
                return None
            pre, body = self.prepared(h, b)
            if not (body and isinstance(body[-1], ast.Return)) or \
                    has_return(body[:-1]) or body[-1].value is None:
                return None
            v = body[-1].value
            n = copy.copy(s)
            n.test = loc(ast.UnaryOp(ast.Not(), v)) if neg else v
            return pre + body[:-1] + [n]
        return None


def normalize(modules):
    """modules: name -> (tree); changes the trees, returns what was put
    back."""
    have = known()
    owners, bases = {}, {}
    for m, tree in modules.items():
        for holder, cls, f in functions(tree):
            owners.setdefault(f.name, []).append((m, cls))
        for c in ast.walk(tree):
            if isinstance(c, ast.ClassDef):
                bases.setdefault(c.name, set()).update(
                    b.attr if isinstance(b, ast.Attribute) else
                    getattr(b, "id", "?") for b in c.bases)

    def below(c, top, seen=()):
        """Is a class of this name (perhaps) derived from top?"""
        return any(b == top or b not in seen and below(b, top, seen + (b,))
                   for b in bases.get(c, ()))
    changed = []
    for m, tree in modules.items():
        helpers = {}
        for holder, cls, f in functions(tree):
            q = m + "." + (cls.name + "." if cls is not None else "") + f.name
            if q in have or f.name.startswith("__"):
                continue
            # overridden somewhere, or defined twice
            if any(c is not cls and c is not None and
                   (below(c.name, cls.name) or below(cls.name, c.name))
                   for _, c in owners[f.name]) if cls is not None else \
                    sum(1 for o, c in owners[f.name]
                        if o == m and c is None) > 1:
                continue
            h = Helper(holder, cls, f)
            k = (None if cls is None else id(cls), f.name)
            if h.usable and k not in helpers:
                helpers[k] = h
        if not helpers:
            continue
        classes = {c.name: c for c in tree.body
                   if isinstance(c, ast.ClassDef)}
        put = Putback(helpers, classes)
        for _ in range(6):
            put.changed = False
            for holder, cls, f in list(functions(tree)):
                if isinstance(f, ast.FunctionDef):
                    put.function(cls, f)
            if not put.changed:
                break
        changed.append((m, tree, helpers))
    done = set()
    used = mentions(modules) if changed else ()
    for m, tree, helpers in changed:
        for h in helpers.values():
            if h.f.name not in used and (
                    h.cls is not None or h.f.name.startswith("_")):
                # nobody uses it any more
                h.holder.body = [x for x in h.holder.body if x is not h.f] \
                    or [ast.Pass()]
                done.add(m + "." + h.f.name)
        ast.fix_missing_locations(tree)
    return done


def mentions(modules):
    """Every name and text that occurs anywhere."""
    out = set()
    for t in modules.values():
        for x in ast.walk(t):
            if isinstance(x, ast.Attribute):
                out.add(x.attr)
            elif isinstance(x, ast.Name):
                out.add(x.id)
            elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                out.add(x.value)
            elif isinstance(x, ast.alias):
                out.add(x.name)
    return out
