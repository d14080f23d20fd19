"""Ways of writing that mean the same are brought to one form when the source
is loaded, so that the checks judge what is done and not how it is written:

  constants that got a name in the module      -> the constant
  me = self                                    -> self
  f"..{x}.." and "..{}..".format(x)            -> "..%s.." % (x,)
  for i, x in enumerate(y), i not used         -> for x in y
  for i in range(len(y)), only y[i] used       -> for x in y
  x = d[k] if k in d else c (also as an if)    -> x = d.get(k, c)

Every step keeps what the code does, so a defect is not hidden by it.
"""
import ast
import copy
import string

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def same(a, b):
    return ast.dump(_load(a)) == ast.dump(_load(b))


def _load(n):
    n = copy.deepcopy(n)
    for x in ast.walk(n):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return n


def plain(e):
    """Reading it twice is reading it once."""
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, (ast.Name, ast.Constant))


def names_of(f):
    """Names a function binds itself (its nested functions included)."""
    out = set()
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
            out.add(x.id)
        elif isinstance(x, ast.arg):
            out.add(x.arg)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
        elif isinstance(x, ast.alias):
            out.add((x.asname or x.name).split(".")[0])
    return out


# ---------------------------------------------------------------- constants
def literal(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        e = e.operand
    return isinstance(e, ast.Constant)


class _Put(ast.NodeTransformer):
    def __init__(self, vals):
        self.vals = [vals]
        self.n = 0

    def _func(self, f):
        own = names_of(f)
        self.vals.append({k: v for k, v in self.vals[-1].items()
                          if k not in own})
        self.generic_visit(f)
        self.vals.pop()
        return f

    visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = _func

    def visit_ClassDef(self, c):
        own = {t.id for s in c.body if isinstance(s, ast.Assign)
               for t in s.targets if isinstance(t, ast.Name)}
        self.vals.append({k: v for k, v in self.vals[-1].items()
                          if k not in own})
        self.generic_visit(c)
        self.vals.pop()
        return c

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.vals[-1]:
            self.n += 1
            return ast.copy_location(copy.deepcopy(self.vals[-1][n.id]), n)
        return n


def constants(mod, tree, have):
    vals, count = {}, {}
    for x in ast.walk(tree):
        if isinstance(x, ast.Global):
            for k in x.names:
                count[k] = 2
    for s in tree.body:
        for x in ast.walk(s) if not isinstance(
                s, FUNCS + (ast.ClassDef,)) else ():
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                count[x.id] = count.get(x.id, 0) + 1
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                s.targets[0], ast.Name) and literal(s.value):
            vals[s.targets[0].id] = s.value
    vals = {k: v for k, v in vals.items() if count.get(k) == 1 and
            "%s:%s" % (mod, k) not in have}
    if vals:
        _Put(vals).visit(tree)


# --------------------------------------------------------------- me = self
def alias(f):
    if not f.args.args:
        return
    me = f.args.args[0].arg
    own = [x for x in ast.walk(f) if isinstance(x, ast.Name) and
           not isinstance(x.ctx, ast.Load)]
    if any(x.id == me for x in own):
        return
    for s in list(f.body):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                s.targets[0], ast.Name) and isinstance(
                    s.value, ast.Name) and s.value.id == me:
            v = s.targets[0].id
            if sum(x.id == v for x in own) != 1 or any(
                    isinstance(x, ast.arg) and x.arg == v
                    for x in ast.walk(f)) or any(
                        isinstance(x, (ast.Global, ast.Nonlocal)) and
                        v in x.names for x in ast.walk(f)):
                continue
            f.body.remove(s)
            for x in ast.walk(f):
                if isinstance(x, ast.Name) and x.id == v:
                    x.id = me
            if not f.body:
                f.body.append(ast.copy_location(ast.Pass(), s))


# ------------------------------------------------------------------- texts
class Texts(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        t, vals = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                t += v.value.replace("%", "%%")
                continue
            if not isinstance(v, ast.FormattedValue):
                return n
            spec = ""
            if v.format_spec is not None:
                if not isinstance(v.format_spec, ast.JoinedStr) or not all(
                        isinstance(x, ast.Constant)
                        for x in v.format_spec.values):
                    return n
                spec = "".join(x.value for x in v.format_spec.values)
            p = percent(spec, {-1: "", 115: "s", 114: "r", 97: "a"}.get(
                v.conversion, "?"))
            if p is None:
                return n
            t += p
            vals.append(v.value)
        return self.make(n, t, vals)

    @staticmethod
    def make(n, t, vals):
        if not vals:
            return ast.copy_location(ast.Constant(t.replace("%%", "%")), n)
        return ast.copy_location(ast.BinOp(
            ast.copy_location(ast.Constant(t), n), ast.Mod(),
            ast.copy_location(ast.Tuple(vals, ast.Load()), n)), n)

    def visit_Call(self, n):
        self.generic_visit(n)
        if not (isinstance(n.func, ast.Attribute) and
                n.func.attr == "format" and isinstance(
                    n.func.value, ast.Constant) and isinstance(
                        n.func.value.value, str)):
            return n
        if any(isinstance(a, ast.Starred) for a in n.args) or any(
                k.arg is None for k in n.keywords):
            return n
        kw = {k.arg: k.value for k in n.keywords}
        t, vals, auto = "", [], 0
        try:
            for text, field, spec, conv in string.Formatter().parse(
                    n.func.value.value):
                t += text.replace("%", "%%")
                if field is None:
                    continue
                if field == "":
                    v = n.args[auto]
                    auto += 1
                elif field.isdigit():
                    v = n.args[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    return n
                p = percent(spec, conv or "")
                if p is None:
                    return n
                t += p
                vals.append(v)
        except (ValueError, IndexError):
            return n
        # each argument once and in order: nothing is evaluated differently
        want = list(n.args) + list(kw.values())
        if [id(v) for v in vals] != [id(v) for v in want] and not all(
                plain(v) for v in want):
            return n
        if {id(v) for v in want} - {id(v) for v in vals}:
            return n
        return self.make(n, t, [copy.deepcopy(v) for v in vals])


def percent(spec, conv):
    if conv not in ("", "s", "r", "a"):
        return None
    if not spec:
        return "%" + (conv or "s")
    if conv:
        return None
    if spec[-1] in "dfgexX" and spec[:-1].replace(".", "", 1).isdigit() or \
            spec in ("d", "f", "g", "x", "X"):
        return "%" + spec
    return None


# ------------------------------------------------------------------- loops
def _call(e, nm, n=None):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
        e.func.id == nm and not e.keywords and not any(
            isinstance(a, ast.Starred) for a in e.args) and (
                n is None or len(e.args) == n)


def loops(f):
    own = names_of(f)
    if own & {"enumerate", "range", "len"}:
        return
    uses = {}
    for x in ast.walk(f):
        if isinstance(x, ast.Name):
            uses[x.id] = uses.get(x.id, 0) + 1
    k = 0
    for s in ast.walk(f):
        if not isinstance(s, (ast.For, ast.comprehension)):
            continue
        if isinstance(s.iter, ast.Call) and isinstance(
                s.iter.func, ast.Name) and s.iter.func.id == "enumerate" \
                and s.iter.args and not any(
                    isinstance(a, ast.Starred) for a in s.iter.args) and \
                isinstance(s.target, ast.Tuple) and len(
                    s.target.elts) == 2 and isinstance(
                        s.target.elts[0], ast.Name) and \
                uses[s.target.elts[0].id] == 1 and all(
                    literal(a) for a in s.iter.args[1:]) and all(
                        literal(x.value) for x in s.iter.keywords):
            s.target, s.iter = s.target.elts[1], s.iter.args[0]
        elif isinstance(s, ast.For) and _call(s.iter, "range", 1) and _call(
                s.iter.args[0], "len", 1) and isinstance(
                    s.target, ast.Name) and plain(s.iter.args[0].args[0]):
            i, y = s.target.id, s.iter.args[0].args[0]
            at = [x for b in s.body for x in ast.walk(b)
                  if isinstance(x, ast.Subscript) and isinstance(
                      x.slice, ast.Name) and x.slice.id == i and
                  isinstance(x.ctx, ast.Load) and same(x.value, y)]
            root = y
            while isinstance(root, ast.Attribute):
                root = root.value
            if not at or uses[i] != len(at) + 1 or not isinstance(
                    root, ast.Name) or changed(s.body, root.id, y):
                continue
            k += 1
            v = "%s_at_%s" % (root.id, i)
            if v in uses:
                continue
            ids = {id(x) for x in at}

            class P(ast.NodeTransformer):
                def visit_Subscript(self, n):
                    if id(n) in ids:
                        return ast.copy_location(
                            ast.Name(v, ast.Load()), n)
                    self.generic_visit(n)
                    return n
            s.body = [P().visit(b) for b in s.body]
            s.target = ast.copy_location(ast.Name(v, ast.Store()), s.target)
            s.iter = y


def changed(body, root, y):
    """Can the loop rebind or change what it goes through?"""
    for b in body:
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and x.id == root and not isinstance(
                    x.ctx, ast.Load):
                return True
            if isinstance(x, (ast.Attribute, ast.Subscript)) and \
                    not isinstance(x.ctx, ast.Load) and (
                        same(x, y) or same(x.value, y)):
                return True
            if isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Attribute) and same(x.func.value, y):
                return True
    return False


# ------------------------------------------------------------------- d.get
def get_form(test, yes, no):
    """yes if test else no, as d.get(k, no)"""
    neg = isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not)
    if neg:
        test = test.operand
    if not (isinstance(test, ast.Compare) and len(test.ops) == 1 and
            isinstance(test.ops[0], (ast.In, ast.NotIn))):
        return None
    if neg != isinstance(test.ops[0], ast.NotIn):
        yes, no = no, yes
    k, d = test.left, test.comparators[0]
    if not (isinstance(yes, ast.Subscript) and same(yes.value, d) and
            same(yes.slice, k) and plain(k) and plain(d) and literal(no)):
        return None
    args = [k] if isinstance(no, ast.Constant) and no.value is None else \
        [k, no]
    return ast.copy_location(ast.Call(ast.copy_location(ast.Attribute(
        d, "get", ast.Load()), yes), args, []), yes)


class Gets(ast.NodeTransformer):
    def visit_IfExp(self, n):
        self.generic_visit(n)
        g = get_form(n.test, n.body, n.orelse)
        return n if g is None else g

    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and len(n.orelse) == 1:
            a, b = n.body[0], n.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and \
                    len(a.targets) == len(b.targets) == 1 and same(
                        a.targets[0], b.targets[0]):
                g = get_form(n.test, a.value, b.value)
                if g is not None:
                    return ast.copy_location(ast.Assign(a.targets, g), n)
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and \
                    a.value is not None and b.value is not None:
                g = get_form(n.test, a.value, b.value)
                if g is not None:
                    return ast.copy_location(ast.Return(g), n)
        return n


def simplify(modules, have):
    for mod, tree in modules.items():
        constants(mod, tree, have)
        for t in (Texts(), Gets()):
            t.visit(tree)
        for f in ast.walk(tree):
            if isinstance(f, ast.FunctionDef):
                alias(f)
                loops(f)
        ast.fix_missing_locations(tree)
