"""Program model: modules, imports, classes, functions of the analysed tree.

Everything is derived from the source text of the tree on every run with the
stdlib ``ast`` module; nothing of the analysed program is imported or executed.
"""
import ast
import os

BUILTIN_EXC = {}
import builtins as _b
for _n in dir(_b):
    _o = getattr(_b, _n)
    if isinstance(_o, type) and issubclass(_o, BaseException):
        BUILTIN_EXC[_n] = [c.__name__ for c in _o.__mro__ if c is not object]
# well known library exceptions used by the project
BUILTIN_EXC.update({
    "zlib.error": ["zlib.error", "Exception", "BaseException"],
    "dns.exception.DNSException": ["dns.exception.DNSException", "Exception",
                                   "BaseException"],
    "re.error": ["re.error", "Exception", "BaseException"],
    "email.errors.HeaderParseError": ["email.errors.HeaderParseError",
                                      "Exception", "BaseException"],
    "email.header.HeaderParseError": ["email.errors.HeaderParseError",
                                      "Exception", "BaseException"],
    "binascii.Error": ["binascii.Error", "ValueError", "Exception",
                       "BaseException"],
    "socket.error": ["OSError", "Exception", "BaseException"],
})
for _k in ("IOError", "EnvironmentError", "WindowsError"):
    BUILTIN_EXC[_k] = ["OSError", "Exception", "BaseException"]


class AnalysisError(Exception):
    """The tree cannot be analysed (a vanished public anchor, bad syntax)."""


class FuncInfo(object):
    def __init__(self, module, node, cls=None, parent=None):
        self.module = module
        self.node = node
        self.cls = cls
        self.parent = parent
        self.name = getattr(node, "name", "<lambda>")
        if parent is not None:
            self.qual = parent.qual + ".<locals>." + self.name
        elif cls is not None:
            self.qual = cls.qual + "." + self.name
        else:
            self.qual = module.name + "." + self.name
        self.decos = [dotted(d.func if isinstance(d, ast.Call) else d)
                      for d in getattr(node, "decorator_list", [])]
        self.deco_nodes = list(getattr(node, "decorator_list", []))
        self.is_static = "staticmethod" in self.decos
        self.is_class = "classmethod" in self.decos
        self.is_property = "property" in self.decos
        self.is_setter = any(d and d.endswith(".setter") for d in self.decos)
        self.is_cm = any(d and d.split(".")[-1] == "contextmanager"
                         for d in self.decos)
        body = node.body if isinstance(node.body, list) else [node.body]
        self.body = body
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                          for b in body for n in walk_local(b))

    @property
    def line(self):
        return self.node.lineno

    @property
    def where(self):
        return "%s:%s" % (self.module.rel, self.node.lineno)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return "<F %s>" % self.qual


class ClassInfo(object):
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.qual = module.name + "." + node.name
        self.methods = {}
        self.setters = {}
        self.attrs = {}      # class level attribute -> expr
        self.bases = []      # ClassInfo or dotted external name
        self.subs = set()
        self._mro = None

    def __repr__(self):
        return "<C %s>" % self.qual

    def mro(self):
        if self._mro is None:
            out = [self]
            for b in self.bases:
                if isinstance(b, ClassInfo):
                    for c in b.mro():
                        if c not in out:
                            out.append(c)
            # C3 is not needed: move shared ancestors behind
            seen = []
            for c in out:
                if c in seen:
                    continue
                seen.append(c)
            res = list(seen)
            changed = True
            while changed:
                changed = False
                for i, c in enumerate(res):
                    for j in range(i):
                        if c is not res[j] and c in res[j:] and \
                                res[j] in _ancestors(c):
                            x = res.pop(j)
                            res.insert(i, x)
                            changed = True
                            break
                    if changed:
                        break
            self._mro = res
        return self._mro

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_after(self, cls, name):
        """super() lookup: first definition after ``cls`` in our MRO."""
        m = self.mro()
        if cls in m:
            m = m[m.index(cls) + 1:]
        for c in m:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def ext_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases:
                if not isinstance(b, ClassInfo) and b:
                    out.append(b)
        return out

    def is_sub(self, other):
        return other in self.mro()

    def all_subs(self):
        out, todo = set(), [self]
        while todo:
            c = todo.pop()
            for s in c.subs:
                if s not in out:
                    out.add(s)
                    todo.append(s)
        return out


def _ancestors(c):
    out, todo = set(), [b for b in c.bases if isinstance(b, ClassInfo)]
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo.extend(b for b in x.bases if isinstance(b, ClassInfo))
    return out


class Module(object):
    def __init__(self, name, rel, src, is_pkg):
        self.name = name
        self.rel = rel
        self.src = src
        self.is_pkg = is_pkg
        self.tree = ast.parse(src, rel)
        self.defs = {}     # name -> list of bindings
        self.star = []

    def __repr__(self):
        return "<M %s>" % self.name


def dotted(node):
    """Dotted name of a Name/Attribute chain or None."""
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return None if b is None else b + "." + node.attr
    return None


def walk_local(node):
    """ast.walk that does not enter nested function/class/lambda bodies."""
    todo = [node]
    first = True
    while todo:
        n = todo.pop()
        yield n
        if not first and isinstance(n, (ast.FunctionDef, ast.Lambda,
                                        ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        if first and isinstance(n, (ast.FunctionDef, ast.Lambda,
                                    ast.ClassDef)):
            # a nested definition used as a statement: do not enter
            first = False
            continue
        first = False
        todo.extend(ast.iter_child_nodes(n))


def walk_func(fi):
    """All nodes of a function body, nested defs excluded."""
    for b in fi.body:
        for n in walk_local(b):
            yield n


class Project(object):
    def is_new(self, f):
        """A function the checks have not been written for: something moved
        out of a known one, which is looked into wherever it is called."""
        return f.parent is None and f.qual not in self.known and \
            f.module.name in self.modules and \
            not f.name.startswith("__") and not f.is_property

    def __init__(self, root, packages=("oa", "scripts")):
        self.root = root
        self.modules = {}
        self.classes = {}
        self.funcs = {}
        for pkg in packages:
            top = os.path.join(root, pkg)
            if not os.path.isdir(top):
                continue
            for d, dirs, files in os.walk(top):
                dirs.sort()
                if "__pycache__" in dirs:
                    dirs.remove("__pycache__")
                for f in sorted(files):
                    if not f.endswith(".py"):
                        continue
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)
                    name = rel[:-3].replace(os.sep, ".")
                    is_pkg = f == "__init__.py"
                    if is_pkg:
                        name = name[:-len(".__init__")]
                    with open(p, encoding="utf-8") as fh:
                        src = fh.read()
                    try:
                        self.modules[name] = Module(name, rel, src, is_pkg)
                    except SyntaxError as e:
                        raise AnalysisError("%s does not parse: %s" % (rel, e))
        if "oa" not in self.modules:
            raise AnalysisError("package oa not found under %s" % root)
        from .normalize import known, normalize
        from .simplify import simplify
        self.known = known()
        trees = {k: m.tree for k, m in self.modules.items()}
        simplify(trees, self.known)
        self.put_back = normalize(trees)
        for m in self.modules.values():
            self._bind(m)
        for m in self.modules.values():
            for c in self._classes_of(m):
                for b in c.node.bases:
                    r = self.resolve_expr(m, b)
                    cs = [x[1] for x in r if x[0] == "class"]
                    if cs:
                        c.bases.append(cs[0])
                        cs[0].subs.add(c)
                    else:
                        d = dotted(b)
                        ext = [x[1] for x in r if x[0] == "ext"]
                        c.bases.append(ext[0] if ext else d)
        self.by_method = {}
        for c in self.classes.values():
            for n, f in c.methods.items():
                self.by_method.setdefault(n, []).append(f)
        self._attr_types = {}
        self._nested_cache = {}
        self._cond_types_done = False

    # ---- binding ----
    def _classes_of(self, m):
        return [c for c in self.classes.values() if c.module is m]

    def _bind(self, m):
        def add(name, b):
            m.defs.setdefault(name, []).append(b)

        def block(stmts):
            for s in stmts:
                if isinstance(s, ast.FunctionDef):
                    fi = FuncInfo(m, s)
                    self.funcs[fi.qual] = fi
                    add(s.name, ("func", fi))
                elif isinstance(s, ast.ClassDef):
                    ci = ClassInfo(m, s)
                    self.classes[ci.qual] = ci
                    self._class_body(ci, s.body)
                    add(s.name, ("class", ci))
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            add(a.asname, ("mod", a.name))
                        else:
                            add(a.name.split(".")[0],
                                ("mod", a.name.split(".")[0]))
                elif isinstance(s, ast.ImportFrom):
                    base = s.module or ""
                    if s.level:
                        parts = m.name.split(".")
                        if not m.is_pkg:
                            parts = parts[:-1]
                        parts = parts[:len(parts) - (s.level - 1)]
                        base = ".".join(parts + ([base] if base else []))
                    for a in s.names:
                        add(a.asname or a.name, ("from", base, a.name))
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        self._bind_target(add, t, s.value, m)
                elif isinstance(s, ast.AnnAssign) and s.value is not None:
                    self._bind_target(add, s.target, s.value, m)
                elif isinstance(s, ast.AugAssign):
                    pass
                elif isinstance(s, ast.If):
                    block(s.body)
                    block(s.orelse)
                elif isinstance(s, ast.Try):
                    block(s.body)
                    for h in s.handlers:
                        block(h.body)
                    block(s.orelse)
                    block(s.finalbody)
                elif isinstance(s, (ast.For, ast.While, ast.With)):
                    block(s.body)
        block(m.tree.body)

    def _bind_target(self, add, t, value, m):
        if isinstance(t, ast.Name):
            add(t.id, ("value", value, m))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(value, (ast.Tuple, ast.List)) and \
                        len(value.elts) == len(t.elts):
                    self._bind_target(add, e, value.elts[i], m)
                else:
                    self._bind_target(add, e, value, m)

    def _class_body(self, ci, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                fi = FuncInfo(ci.module, s, ci)
                if fi.is_setter:
                    ci.setters[s.name] = fi
                    self.funcs[fi.qual + "#setter"] = fi
                else:
                    ci.methods[s.name] = fi
                    self.funcs[fi.qual] = fi
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        ci.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                if isinstance(s.target, ast.Name):
                    ci.attrs[s.target.id] = s.value
            elif isinstance(s, (ast.If, ast.Try)):
                self._class_body(ci, s.body)
                self._class_body(ci, s.orelse)

    # ---- resolution ----
    def resolve_name(self, m, name, _seen=None):
        """Resolve a module-level name -> list of entities:
        ('func',F) ('class',C) ('mod',name) ('ext',dotted) ('value',expr,M)"""
        seen = _seen or set()
        if (m.name, name) in seen:
            return []
        seen = seen | {(m.name, name)}
        out = []
        for b in m.defs.get(name, ()):
            if b[0] in ("func", "class"):
                out.append(b)
            elif b[0] == "value":
                out.append(b)
            elif b[0] == "mod":
                if b[1] in self.modules:
                    out.append(("mod", b[1]))
                else:
                    out.append(("ext", b[1]))
            elif b[0] == "from":
                out.extend(self._from(b[1], b[2], seen))
        return out

    def _from(self, base, name, seen):
        if base in self.modules:
            r = self.resolve_name(self.modules[base], name, seen)
            if r:
                return r
            if base + "." + name in self.modules:
                return [("mod", base + "." + name)]
            return []
        if base == "builtins":
            return [("ext", name)]
        return [("ext", (base + "." + name) if base else name)]

    def member(self, ent, attr):
        if ent[0] == "mod":
            mod = self.modules.get(ent[1])
            out = self.resolve_name(mod, attr) if mod else []
            if not out and ent[1] + "." + attr in self.modules:
                out = [("mod", ent[1] + "." + attr)]
            return out
        if ent[0] == "ext":
            return [("ext", ent[1] + "." + attr)]
        if ent[0] == "class":
            f = ent[1].find(attr)
            if f:
                return [("func", f)]
            v, c = ent[1].find_attr(attr)
            if v is not None:
                return [("value", v, c.module, c)]
        if ent[0] == "value":
            out = []
            for e in self.resolve_expr(ent[2], ent[1]):
                if e[0] != "value":
                    out.extend(self.member(e, attr))
            return out
        return []

    def resolve_expr(self, m, node):
        if isinstance(node, ast.Name):
            r = self.resolve_name(m, node.id)
            if not r and hasattr(_b, node.id):
                return [("ext", node.id)]
            return r
        if isinstance(node, ast.Attribute):
            out = []
            for e in self.resolve_expr(m, node.value):
                out.extend(self.member(e, node.attr))
            return out
        return []

    def resolve_dotted(self, m, text):
        return self.resolve_expr(m, ast.parse(text, mode="eval").body)

    # ---- anchors ----
    def cls(self, qual):
        c = self.classes.get(qual)
        if c is None:
            # follow re-exports: module.Name
            mod, _, name = qual.rpartition(".")
            if mod in self.modules:
                for e in self.resolve_name(self.modules[mod], name):
                    if e[0] == "class":
                        return e[1]
            raise AnalysisError("class %s not found" % qual)
        return c

    def func(self, qual):
        f = self.funcs.get(qual)
        if f is not None:
            return f
        head, _, name = qual.rpartition(".")
        if head in self.modules:
            for e in self.resolve_name(self.modules[head], name):
                if e[0] == "func":
                    return e[1]
        else:
            try:
                c = self.cls(head)
            except AnalysisError:
                c = None
            if c is not None and c.find(name):
                return c.find(name)
        raise AnalysisError("function %s not found" % qual)

    def module(self, name):
        if name not in self.modules:
            raise AnalysisError("module %s not found" % name)
        return self.modules[name]

    def nested(self, fi):
        """FuncInfos of the functions/lambdas nested directly in fi."""
        if fi.qual not in self._nested_cache:
            out = {}
            todo = list(fi.body)
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    out[n] = FuncInfo(fi.module, n, fi.cls, fi)
                    continue
                if isinstance(n, ast.ClassDef):
                    continue
                todo.extend(ast.iter_child_nodes(n))
            self._nested_cache[fi.qual] = out
        return self._nested_cache[fi.qual]

    def all_funcs(self, nested=True):
        out = []
        todo = list(self.funcs.values())
        while todo:
            f = todo.pop(0)
            out.append(f)
            if nested:
                todo.extend(self.nested(f).values())
        return out

    # ---- literals ----
    def literal(self, m, node, cls=None, depth=0):
        """Evaluate a literal expression; unresolvable leaves become
        ('?', source).  Class/function references become entities."""
        if depth > 12:
            return ("?", "deep")
        rec = lambda n: self.literal(m, n, cls, depth + 1)
        if isinstance(node, ast.Constant):
            return node.value
        if isinstance(node, ast.Tuple):
            return tuple(rec(e) for e in node.elts)
        if isinstance(node, ast.List):
            return [rec(e) for e in node.elts]
        if isinstance(node, ast.Set):
            return [rec(e) for e in node.elts]
        if isinstance(node, ast.Dict):
            out = {}
            for k, v in zip(node.keys, node.values):
                if k is None:
                    sub = rec(v)
                    if isinstance(sub, dict):
                        out.update(sub)
                    continue
                kk = rec(k)
                try:
                    out[kk] = rec(v)
                except TypeError:
                    out[repr(kk)] = rec(v)
            return out
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            v = rec(node.operand)
            return -v if isinstance(v, (int, float)) else ("?", "neg")
        if isinstance(node, ast.BinOp):
            a, b = rec(node.left), rec(node.right)
            try:
                if isinstance(node.op, ast.Add):
                    return a + b
                if isinstance(node.op, ast.Mult):
                    return a * b
                if isinstance(node.op, ast.Sub):
                    return a - b
                if isinstance(node.op, ast.BitOr) and isinstance(a, list) \
                        and isinstance(b, list):
                    return a + [x for x in b if x not in a]
                if isinstance(node.op, ast.BitOr) and isinstance(a, dict):
                    d = dict(a)
                    d.update(b)
                    return d
            except Exception:
                pass
            return ("?", ast.unparse(node))
        if isinstance(node, ast.Call):
            d = dotted(node.func)
            if d in ("frozenset", "set", "list", "tuple", "dict",
                     "collections.OrderedDict", "OrderedDict"):
                if not node.args and not node.keywords:
                    return {} if "ict" in d else ([] if d != "tuple" else ())
                if len(node.args) == 1 and not node.keywords:
                    v = rec(node.args[0])
                    if d == "tuple" and isinstance(v, list):
                        return tuple(v)
                    if "ict" in d and isinstance(v, (list, tuple)):
                        try:
                            return dict(v)
                        except Exception:
                            return ("?", ast.unparse(node))
                    if isinstance(v, tuple) and d != "tuple" and \
                            "ict" not in d and not (v and v[0] == "?"):
                        return list(v)
                    return v
                if "ict" in d and node.keywords and not node.args:
                    return {k.arg: rec(k.value) for k in node.keywords}
            return ("?", ast.unparse(node))
        if isinstance(node, (ast.Name, ast.Attribute)):
            if cls is not None and isinstance(node, ast.Name) and \
                    node.id in cls.attrs:
                return self.literal(cls.module, cls.attrs[node.id], None,
                                    depth + 1)
            ents = self.resolve_expr(m, node)
            for e in ents:
                if e[0] == "value":
                    return self.literal(e[2], e[1],
                                        e[3] if len(e) > 3 else None,
                                        depth + 1)
                if e[0] in ("class", "func"):
                    return e
                if e[0] == "ext":
                    return ("ext", e[1])
            return ("?", ast.unparse(node))
        return ("?", ast.unparse(node))

    # ---- exceptions ----
    def exc_names(self, m, node):
        """Canonical exception names caught by a handler type expression."""
        if node is None:
            return ["BaseException"]
        if isinstance(node, (ast.Tuple, ast.List)):
            out = []
            for e in node.elts:
                out.extend(self.exc_names(m, e))
            return out
        if isinstance(node, ast.BinOp):
            return self.exc_names(m, node.left) + self.exc_names(m, node.right)
        out = []
        for e in self.resolve_expr(m, node):
            if e[0] == "class":
                out.append(e[1].qual)
            elif e[0] == "ext":
                out.append(canon_exc(e[1]))
            elif e[0] == "value":
                out.extend(self.exc_names(e[2], e[1]))
        if not out:
            out = [canon_exc(dotted(node) or "?")]
        return out

    def is_exc(self, c):
        """Is this class an exception class?"""
        for k in c.mro():
            for b in k.ext_bases():
                b = canon_exc(b).rsplit(".", 1)[-1]
                if b in BUILTIN_EXC and b != "object" or \
                        b.endswith(("Error", "Exception", "Warning")):
                    return True
        return False

    def exc_mro(self, name):
        c = self.classes.get(name)
        if c is not None:
            out = [x.qual for x in c.mro()]
            for b in c.ext_bases():
                out.extend(BUILTIN_EXC.get(b, [b, "Exception",
                                               "BaseException"]))
            return out
        if name.startswith("dns.") and name not in BUILTIN_EXC:
            return [name] + BUILTIN_EXC["dns.exception.DNSException"]
        return BUILTIN_EXC.get(name, [name, "Exception", "BaseException"])

    # ---- attribute types ----
    def attr_types(self, cls):
        """self.x -> set of ClassInfo assigned by constructor call anywhere in
        the class (and its bases)."""
        key = cls.qual
        if key not in self._attr_types:
            out = {}
            self._attr_types[key] = out
            for c in cls.mro():
                for f in list(c.methods.values()) + list(c.setters.values()):
                    ps = f.params()
                    selfn = ps[0] if ps and not f.is_static else None
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Assign):
                            for t in n.targets:
                                if isinstance(t, ast.Attribute) and \
                                        isinstance(t.value, ast.Name) and \
                                        t.value.id == selfn:
                                    for e in self._ctor(c.module, n.value):
                                        out.setdefault(t.attr, set()).add(e)
        return self._attr_types[key]

    def _ctor(self, m, node):
        if isinstance(node, ast.Call):
            for e in self.resolve_expr(m, node.func):
                if e[0] == "class":
                    yield e[1]
        elif isinstance(node, ast.BoolOp):
            for v in node.values:
                for x in self._ctor(m, v):
                    yield x
        elif isinstance(node, ast.IfExp):
            for v in (node.body, node.orelse):
                for x in self._ctor(m, v):
                    yield x


def canon_exc(name):
    if name in BUILTIN_EXC:
        return BUILTIN_EXC[name][0]
    if name.startswith("builtins."):
        return canon_exc(name[9:])
    return name
