"""P02: configurations loaded in one process do not influence each other.

Everything a configuration builds lives in objects of its own.  Two of them
can meet only in state of the process: names of modules, classes and what
they hold, defaults of parameters, objects of the libraries - and in what the
server keeps to derive the configurations of the users from.  The dependence
analysis of P01 (aliases included), recording every write and not only those
of message data, shows that no function changes any of it.
"""
import ast

from ..core import check
from ..model import dotted
from .code import NONE, _const
from .traces import MUTATE, Dep, Traces, _container, _module_value, \
    ident, show

# one object for the whole process
SINGLE = {"dns.resolver.get_default_resolver", "locale.localeconv",
          "logging.getLogger", "sys.modules", "os.environ", "sys.path",
          "socket.getdefaulttimeout", "dns.resolver.default_resolver",
          "warnings.filters"}
SETTERS = {"socket.setdefaulttimeout", "os.chdir", "os.umask", "os.putenv",
           "os.unsetenv", "locale.setlocale", "sys.setrecursionlimit",
           "random.seed", "logging.disable", "decimal.setcontext",
           "time.tzset", "locale.bindtextdomain", "re.purge",
           "socket.setdefaulttimeout", "logging.setLoggerClass",
           "mimetypes.add_type", "codecs.register", "logging.basicConfig",
           "email.charset.add_charset", "email.charset.add_alias",
           "email.charset.add_codec", "codecs.register_error",
           "dns.resolver.override_system_resolver", "os.nice",
           "warnings.filterwarnings", "warnings.simplefilter",
           "csv.field_size_limit", "csv.register_dialect",
           "signal.alarm", "os.setlocale", "gettext.install",
           "copyreg.pickle", "logging.addLevelName", "os.setuid"}
VIEWS = {"items", "values", "iteritems", "itervalues"}
COPIES = {"dict", "list", "set", "tuple", "OrderedDict", "copy", "sorted",
          "frozenset", "defaultdict", "deque", "reversed"}
PUTS = {"append", "add", "update", "setdefault", "extend", "insert"}
# these execute a file into the module of that name if there is one already
LOADERS = {"load_module", "load_source", "load_compiled", "load_dynamic",
           "reload", "run_module"}
LOGGING = {"addHandler", "removeHandler", "setLevel", "addFilter",
           "removeFilter"}


class Ways(Dep):
    def narrow(self, test, env):
        """-> the environments where the test holds and where it fails: a
        value that is none of the kinds of objects that can be changed has
        no identity of interest."""
        yes, no = dict(env), dict(env)
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            no, yes = self.narrow(test.operand, env)
            return yes, no
        if isinstance(test, ast.Name) and test.id not in self.ps:
            vals = [n.value for b in self.f.body for n in ast.walk(b)
                    if isinstance(n, ast.Assign) for x in n.targets
                    if isinstance(x, ast.Name) and x.id == test.id]
            if len(vals) == 1 and not isinstance(vals[0], ast.Name):
                return self.narrow(vals[0], env)
            return yes, no
        name, k, turned = None, None, False
        if isinstance(test, ast.Call) and isinstance(
                test.func, ast.Name) and test.func.id == "isinstance" and \
                len(test.args) == 2:
            name, k = test.args
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and \
                isinstance(test.left, ast.Call) and isinstance(
                    test.left.func, ast.Name) and \
                test.left.func.id == "type" and len(test.left.args) == 1:
            name, k = test.left.args[0], test.comparators[0]
            turned = isinstance(test.ops[0], (ast.IsNot, ast.NotEq,
                                              ast.NotIn))
        elif isinstance(test, ast.BoolOp):
            i = 0 if isinstance(test.op, ast.And) else 1
            for one in [self.narrow(x, env)[i] for x in test.values]:
                for x in env:
                    if len(one[x]) < len((yes, no)[i][x]):
                        (yes, no)[i][x] = one[x]
            return yes, no
        if isinstance(name, ast.Name) and name.id in env:
            kinds = {(dotted(x) or "?").split(".")[-1] for x in (
                k.elts if isinstance(k, (ast.Tuple, ast.List, ast.Set))
                else [k])}
            if kinds & {"MutableSequence", "Sequence", "Iterable", "Sized",
                        "Container", "Collection"}:
                kinds.add("list")
            if self.t.kinds <= kinds:
                (yes if turned else no)[name.id] = self.bare(env[name.id])
        return yes, no

    # What the server keeps is nested: ("i", place, n) is something new with n
    # layers of its own around parts of what is kept in the place; ("b", i, n)
    # the same around parts of parameter i.
    def inner(self, ls):
        """The parts of the server's state in it."""
        return frozenset(x for x in ls if x != "M" and (
            x[0] in "aib" or x[0] == "o" and self.t.of_server(x[1])))

    def copied(self, ls, layers):
        out = set()
        for x in self.inner(ls):
            if x[0] in "oa":
                out.add(("i" if x[0] == "o" else "b", x[1], layers))
            else:
                out.add(x)
        return frozenset(out)

    def wrapped(self, ls):
        return frozenset((
            "i" if x[0] in "oi" else "b", x[1],
            min(3, x[2] + 1 if x[0] in "ib" else 1)) for x in self.inner(ls))

    def parts(self, ls, how=None):
        new = frozenset(x for x in ls if x != "M" and x[0] in "ib")
        out = Dep.parts(self, ls - new)
        for x in new:
            if how in VIEWS or x[2] > 1 and how == "setdefault":
                out |= {x}
            elif x[2] > 1:
                out |= {(x[0], x[1], x[2] - 1)}
            else:
                out |= {("o" if x[0] == "i" else "a", x[1])}
        return out

    def put_name(self, e, ls, env):
        Dep.put_name(self, e, ls, env)
        if isinstance(e, ast.Name) and e.id in env and e.id != self.me:
            new = self.wrapped(ls)
            if new:
                self.bind(env, e.id, env[e.id] | new)

    @staticmethod
    def bare(ls):
        return frozenset(x for x in ls if x == "M" or x[0] == "p")

    def stmt(self, s, env):
        if isinstance(s, ast.If):
            self.ev(s.test, env)
            yes, no = self.narrow(s.test, env)
            return self.join(self.block(s.body, yes),
                             self.block(s.orelse, no))
        return Dep.stmt(self, s, env)

    def ev_(self, e, env):
        if isinstance(e, ast.IfExp):
            self.ev(e.test, env)
            yes, no = self.narrow(e.test, env)
            return self.ev(e.body, yes) | self.ev(e.orelse, no)
        if isinstance(e, ast.DictComp):
            # nothing that can be changed is a key
            inner = ast.copy_location(ast.SetComp(
                elt=e.value, generators=e.generators), e)
            return self.ev(inner, env)
        if isinstance(e, (ast.List, ast.Set, ast.Dict, ast.ListComp,
                          ast.SetComp, ast.GeneratorExp)):
            out = Dep.ev_(self, e, env)
            return out - self.inner(out) | self.wrapped(out)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
            return self.bare(self.ev(e.value, env))
        if isinstance(e, ast.Attribute):
            k = self.class_of(e.value)
            if k is not None and not any(
                    e.attr in x.methods for x in k.mro()
                    if not isinstance(x, str)):
                return self.hold(("attr", self.t.owner(k, e.attr).qual,
                                  e.attr))
            d = self.ext(e)
            if d in SINGLE:
                return frozenset([("o", ("ext", d))])
        out = Dep.ev_(self, e, env)
        if isinstance(e, ast.Attribute) and e.attr in self.t.by_class and \
                self.type_of(e.value) is None:
            out |= {("o", ("attr", self.t.base.qual, e.attr))}
        if isinstance(e, ast.Attribute):
            # a part of what the server keeps
            out |= frozenset(
                x for x in self.ev_(e.value, env)
                if x != "M" and x[0] == "o" and self.t.of_server(x[1]))
        if isinstance(e, ast.Call):
            d = self.ext(e.func)
            if d in SINGLE:
                out = out | {("o", ("ext", d))}
            name = (dotted(e.func) or getattr(e.func, "attr", "")).split(
                ".")[-1]
            if name in LOADERS or name in ("import_module", "__import__"):
                out = out | {("o", ("ext", "the loaded modules"))}
            self.external(e, d, env)
        return out

    def type_of(self, e):
        c = Dep.type_of(self, e)
        if c is None and isinstance(e, ast.Name) and e.id not in self.ps:
            vals = [n.value for b in self.f.body for n in ast.walk(b)
                    if isinstance(n, ast.Assign) for x in n.targets
                    if isinstance(x, ast.Name) and x.id == e.id]
            if len(vals) == 1 and isinstance(vals[0], ast.Call):
                return self.t.made_by(self, vals[0])
        return c

    def ext(self, e):
        d = dotted(e)
        if not d:
            return None
        first, _, rest = d.partition(".")
        names = dict(self.t.imports(self.m))
        names.update(self.imports)
        if first in names:
            return names[first] + ("." + rest if rest else "")
        return None

    def external(self, e, d, env):
        if isinstance(e.func, ast.Attribute) and e.func.attr in LOADERS:
            self.t.loads[(self.f.qual, e.lineno)] = (e.func.attr, self.f)
        if d in SETTERS:
            args = list(e.args) + [k.value for k in e.keywords]
            self.t.setter(self.f, d, e, any(
                not self.fixed(a) for a in args))
        fn = e.func
        if isinstance(fn, ast.Attribute) and fn.attr in LOGGING and \
                isinstance(fn.value, ast.Attribute) and \
                fn.value.attr in ("log", "logger"):
            self.record(("ext", "logging.getLogger"), "changed in place",
                        NONE, e, env)
        elif isinstance(fn, ast.Attribute) and fn.attr in LOGGING:
            for x in self.ev(fn.value, env):
                if x != "M" and x[0] == "o" and x[1][0] == "ext":
                    self.record(x[1], "changed in place", NONE, e, env)

    def fixed(self, a):
        if isinstance(a, ast.Constant):
            return True
        if isinstance(a, (ast.Tuple, ast.List)):
            return all(self.fixed(x) for x in a.elts)
        d = self.ext(a)
        if d is not None and d.split(".")[0] not in ("oa", "scripts"):
            return True
        if isinstance(a, ast.Name):
            return isinstance(_module_value(self.m, a.id), ast.Constant)
        return False

    def class_of(self, e):
        """The class whose name (or what stands for it) ``e`` is."""
        if isinstance(e, ast.Attribute) and e.attr == "__class__" and \
                isinstance(e.value, ast.Name) and e.value.id == self.me:
            return self.f.cls
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id == "type" and len(e.args) == 1 and isinstance(
                    e.args[0], ast.Name) and e.args[0].id == self.me:
            return self.f.cls
        if isinstance(e, ast.Name) and e.id == self.me and self.f.is_class:
            return self.f.cls
        if isinstance(e, ast.Name) and e.id in self.ps:
            return None
        if isinstance(e, ast.Name):
            vals = [n.value for b in self.f.body for n in ast.walk(b)
                    if isinstance(n, ast.Assign) for x in n.targets
                    if isinstance(x, ast.Name) and x.id == e.id]
            if len(vals) == 1 and not isinstance(vals[0], ast.Name):
                return self.class_of(vals[0])
        if dotted(e):
            for x in self.t.p.resolve_expr(self.m, e):
                if x[0] == "class":
                    return x[1]
        return None

    pairs = False

    def elem(self, it, env):
        out = Dep.elem(self, it, env)
        while isinstance(it, ast.Call) and isinstance(
                it.func, ast.Name) and it.func.id in (
                    "list", "sorted", "tuple") and it.args:
            it = it.args[0]
        self.pairs = isinstance(it, ast.Call) and (
            isinstance(it.func, ast.Attribute) and
            it.func.attr in ("items", "iteritems") or
            isinstance(it.func, ast.Name) and it.func.id == "enumerate")
        return out

    def assign(self, t, value, ls, env):
        if isinstance(t, (ast.Tuple, ast.List)) and value is None and \
                self.pairs and len(t.elts) == 2:
            # a key can not be changed
            self.pairs = False
            self.assign(t.elts[0], None, self.bare(ls), env)
            self.assign(t.elts[1], None, ls, env)
            return
        self.pairs = False
        if isinstance(t, ast.Attribute):
            k = self.class_of(t.value)
            if k is not None:
                self.record(("attr", self.t.owner(k, t.attr).qual, t.attr),
                            "set on the class", ls, t, env)
                return
            d = self.ext(t)
            if d is not None:
                mod = d.rpartition(".")[0]
                if mod in self.t.p.modules:
                    self.record(("glob", mod, t.attr), "set", ls, t, env)
                elif isinstance(t.value, (ast.Name, ast.Attribute)):
                    self.record(("ext", d), "set", ls, t, env)
                return
            for x in self.ev(t.value, env):
                if x != "M" and x[0] == "o" and (
                        self.t.of_server(x[1]) or x[1][0] == "ext"):
                    self.record(x[1], "changed in place", NONE, t, env)
        elif isinstance(t, ast.Subscript):
            self.stored(self.ev(t.value, env), self.wrapped(ls) | frozenset(
                x for x in ident(ls) if x[0] == "o"))
        Dep.assign(self, t, value, ls, env)

    def call(self, e, env):
        d = dotted(e.func)
        if d in ("setattr", "delattr") and len(e.args) > 1:
            k = self.class_of(e.args[0])
            if k is not None:
                n = _const(e.args[1])
                for a in e.args[2:]:
                    self.ev(a, env)
                self.record(("attr", k.qual, n or "*"), "set on the class",
                            NONE, e, env)
                return NONE
        out = Dep.call(self, e, env)
        fn, what = e.func, NONE
        if isinstance(fn, ast.Attribute) and not (
                isinstance(fn.value, ast.Name) and fn.value.id == self.me):
            self.told(fn, e, env)
        if (d or "").split(".")[-1] in COPIES and not (
                isinstance(fn, ast.Attribute) and fn.attr == "copy" and
                self.ext(fn) is None):
            for a in e.args:
                what |= self.ev(a, env)
            out = self.bare(out) | self.copied(what, 1)
        elif isinstance(fn, ast.Attribute) and fn.attr == "copy":
            out = self.bare(out) | self.copied(self.ev(fn.value, env), 1)
        elif isinstance(fn, ast.Attribute) and fn.attr in PUTS:
            base = self.ev(fn.value, env)
            for a in list(e.args) + [k.value for k in e.keywords]:
                ls = self.ev(a, env)
                self.stored(base, self.copied(ls, 1) if fn.attr in (
                    "update", "extend") else self.wrapped(ls))
        return out

    def told(self, fn, e, env):
        """A method that changes its object is called."""
        ls = frozenset(
            x for x in self.ev(fn.value, env) if x != "M" and (
                x[0] == "o" and (self.t.of_server(x[1]) or
                                 x[1][0] in ("glob", "default"))))
        if ls:
            fs, ext, rec = self.targets(e, env)
            if ext is None and any(self.t.changes(f) for f in fs):
                self.mutate(ls, NONE, e, env)

    def hold(self, slot):
        out = Dep.hold(self, slot)
        if slot[0] == "data":
            # what the configurations keep their values in
            for x in self.t.shared.get(
                    ("attr", "oa.context._Context", "plugin_data"), ()):
                if x[0] in "oi" and self.t.of_server(x[1]):
                    out |= {("o", x[1])}
        return out

    def stored(self, base, ls):
        ls = frozenset(x for x in ls if x[0] == "i" or x[0] == "o" and
                       x[1][0] in ("glob", "default"))
        for x in base:
            if ls and x != "M" and x[0] == "o" and not self.t.of_server(
                    x[1]):
                self.keep(x[1], ls)


class Shared(Traces):
    walker = Ways

    def __init__(self, ctx):
        Traces.__init__(self, ctx, True)
        self.setters = {}
        self.loads = {}
        self.made = {}
        self.maps = {}
        self.changers = {}
        # what the classes of plugins hold
        self.by_class = {n for c in self.base.all_subs()
                         for n, v in c.attrs.items() if _container(v)
                         and n in self.base.attrs} - {"options"}
        self.servers = {c.qual: c for c in self.p.classes.values()
                        if c.find("get_user_ruleset") is not None}
        parser = self.p.cls("oa.rules.parser.PADParser")
        self.lasting.add(parser)
        self.parser = parser
        self.kinds = set()
        n = 0
        for c in self.p.classes.values():
            v = c.attrs.get("options")
            if isinstance(v, ast.Dict):
                for x in v.values:
                    d = x.elts[1] if isinstance(
                        x, ast.Tuple) and len(x.elts) > 1 else x
                    n += 1
                    for y in ast.walk(d):
                        if _container(y):
                            self.kinds.add(
                                type(y).__name__.lower() if not isinstance(
                                    y, ast.Call) else dotted(
                                        y.func).split(".")[-1])
        self.options = n

    def changes(self, f, depth=0):
        """The method changes its own object."""
        k = id(f.node)
        if k not in self.changers:
            self.changers[k] = False
            self.changers[k] = self._changes(f)
        return self.changers[k]

    def _changes(self, f):
        if f.cls is None or f.is_static or not f.params():
            return False
        me = f.params()[0]

        def mine(e):
            n = 0
            while isinstance(e, (ast.Attribute, ast.Subscript)):
                e = e.value
                n += 1
            return n and isinstance(e, ast.Name) and e.id == me
        for b in f.body:
            for n in ast.walk(b):
                if isinstance(n, (ast.Attribute, ast.Subscript)) and \
                        not isinstance(n.ctx, ast.Load) and mine(n):
                    return True
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute):
                    if n.func.attr in MUTATE and mine(n.func.value):
                        return True
                    if isinstance(n.func.value, ast.Name) and \
                            n.func.value.id == me:
                        g = f.cls.find(n.func.attr)
                        if g is not None and self.changes(g):
                            return True
        return False

    def of_server(self, slot):
        return slot[0] == "attr" and slot[1] in self.servers

    def is_plain(self, slot):
        if slot[0] == "attr" and (slot[2] == "options" or
                                  slot[1] == self.base.qual):
            return False
        return Traces.is_plain(self, slot)

    def made_by(self, ways, call, depth=0):
        """The class of the object a call gives."""
        key = (id(call), ways.f.qual)
        if key not in self.made:
            self.made[key] = None
            self.made[key] = self._made_by(ways, call, depth)
        return self.made[key]

    def _made_by(self, ways, call, depth):
        if dotted(call.func):
            for x in self.p.resolve_expr(ways.m, call.func):
                if x[0] == "class":
                    return x[1]
        if depth > 3:
            return None
        fs, ext, rec = ways.targets(call, {})
        if isinstance(ext, tuple):
            return ext[1]
        out = set()
        for g in (fs or ()) if ext is None else ():
            w = self.walker(self, g)
            w.ps = g.params()
            rets = [n.value for b in g.body for n in ast.walk(b)
                    if isinstance(n, ast.Return) and n.value is not None]
            for r in rets:
                if isinstance(r, ast.Name):
                    vals = [n.value for b in g.body for n in ast.walk(b)
                            if isinstance(n, ast.Assign) for x in n.targets
                            if isinstance(x, ast.Name) and x.id == r.id]
                    r = vals[0] if len(vals) == 1 else r
                out.add(self.made_by(w, r, depth + 1)
                        if isinstance(r, ast.Call) else None)
        return out.pop() if len(out) == 1 else None

    def imports(self, m):
        if m not in self.maps:
            out = self.maps[m] = {}
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Import):
                    for a in x.names:
                        if a.asname:
                            out[a.asname] = a.name
                        else:
                            out[a.name.split(".")[0]] = a.name.split(".")[0]
                elif isinstance(x, ast.ImportFrom) and x.module and \
                        not x.level:
                    for a in x.names:
                        out[a.asname or a.name] = x.module + "." + a.name
        return self.maps[m]

    def setter(self, f, d, e, varies):
        self.setters[(f.qual, d)] = (e.lineno, varies)


def rebound(p, qual, name):
    """An object of the class gets its own value before it is used."""
    top = [c for c in p.classes.values() if c.qual == qual][0]
    out = True
    for c in [top] + list(top.all_subs()):
        if c.attrs.get(name) is None and c is not top:
            continue
        ok = False
        for h in ("__init__", "check_start"):
            f = c.find(h)
            if f is None or not f.params():
                continue
            me = f.params()[0]
            for s in f.body:
                if isinstance(s, ast.Assign):
                    ok = ok or any(
                        isinstance(t, ast.Attribute) and t.attr == name and
                        isinstance(t.value, ast.Name) and t.value.id == me
                        for t in s.targets)
        out = out and ok
    return out


def in_order(n):
    yield n
    for x in ast.iter_child_nodes(n):
        for y in in_order(x):
            yield y


def forgets(t, f, until, depth=0):
    """sys.modules loses the name before a module is loaded under it (by
    the call of ``until``)."""
    ways = t.walker(t, f)
    ways.ps = []
    mine = {g.name: g for g in t.calls.get(id(f.node), {}).values()}
    for b in f.body:
        for n in in_order(b):
            if isinstance(n, ast.Delete) and any(
                    isinstance(x, ast.Subscript) and ways.ext(
                        x.value) == "sys.modules" for x in n.targets):
                return True
            if not isinstance(n, ast.Call):
                continue
            name = (dotted(n.func) or getattr(n.func, "attr", "")).split(
                ".")[-1]
            if name == until:
                return False
            if name == "pop" and isinstance(n.func, ast.Attribute) and \
                    ways.ext(n.func.value) == "sys.modules":
                return True
            if name in mine and depth < 2 and forgets(
                    t, mine[name], None, depth + 1):
                return True
    return False


def held_by_class(p, qual, name):
    for top in p.classes.values():
        if top.qual == qual:
            return any(_container(v) or isinstance(v, ast.Call) and any(
                x[0] == "class" and x[1].name != "Regex"
                for x in p.resolve_expr(c.module, v.func)
                if dotted(v.func))
                for c in [top] + list(top.all_subs()) + [
                    k for k in top.mro() if not isinstance(k, str)]
                for v in [c.attrs.get(name)] if v is not None)
    return False


@check("P02", "Independently loaded configurations never influence each "
              "other")
def p02(ctx):
    p = ctx.p
    t = Shared(ctx)
    ctx.note("rounds", t.run())
    load = {}
    for c in t.servers.values():
        f = c.find("load_config")
        if f is None:
            continue
        todo = [f, c.find("__init__")]
        while todo:
            f = todo.pop()
            if f is None or f.qual in load:
                continue
            load[f.qual] = f
            todo.extend(g for g in t.calls.get(id(f.node), {}).values()
                        if g.cls is not None and g.cls.qual in t.servers)
    ctx.expect(bool(load), "load_config", "server",
               "the server has no load_config")
    loaded, fresh = set(), set()
    for f in load.values():
        for b in f.body:
            for s in ast.walk(b):
                if isinstance(s, ast.Assign):
                    for x in s.targets:
                        if isinstance(x, ast.Attribute) and isinstance(
                                x.value, ast.Name) and f.params() and \
                                x.value.id == f.params()[0]:
                            loaded.add(x.attr)
                            if f.name != "__init__" and _container(s.value):
                                fresh.add(x.attr)
    callers = {}
    funcs = {id(f.node): f for f in t.fs}
    owner = {f.qual: f.cls.qual for f in t.fs if f.cls is not None}
    for k, fs in t.calls.items():
        for f in fs.values():
            callers.setdefault(f.qual, set()).add(funcs[k].module.name)
    # what only the start of a program does
    start = {q for q, ms in callers.items()
             if all(m.startswith("scripts") for m in ms)} | {
                 f.qual for f in t.fs if f.module.name.startswith("scripts")}
    slots = {}
    for (slot, how, place), line in sorted(t.writes.items(), key=str):
        slots.setdefault(slot, []).append((how, place, line))
    n = 0
    for slot, ws in sorted(slots.items(), key=str):
        for how, place, line in ws:
            n += 1
            why = None
            if slot[0] in ("glob", "ext") and place in start:
                pass
            elif slot == ("ext", "sys.modules") and how == \
                    "changed in place":
                # judged where modules are loaded
                pass
            elif slot[0] in ("glob", "default", "ext"):
                why = "state of the whole process"
            elif slot[0] == "attr" and how == "set on the class":
                why = "set on the class, for all its objects"
            elif t.of_server(slot):
                if place in load:
                    pass
                elif how == "changed in place" and slot[2] not in fresh:
                    why = "what the configurations of users start from"
                elif how == "set" and slot[2] in loaded:
                    why = "what the configurations of users start from"
            elif slot[0] == "attr" and how == "changed in place" and \
                    held_by_class(p, slot[1], slot[2]) and not rebound(
                        p, slot[1], slot[2]):
                why = "one object for all users of the class"
            name = slot[1] if slot[0] == "ext" else show(slot)
            if why:
                ctx.bad("shared", "%s:%s" % (owner.get(place, place), name),
                        "%s is %s by %s (line %s): %s, seen by every other "
                        "configuration of the process" % (
                            name, how, place, line, why))
            else:
                ctx.ok("write", "%s:%s" % (place, name))
    for (place, line), (what, f) in sorted(t.loads.items(), key=str):
        up = [g for g in t.fs if any(
            x.qual == place for x in t.calls.get(id(g.node), {}).values())]
        good = forgets(t, f, what) or bool(up) and all(
            forgets(t, g, f.name) for g in up)
        ctx.expect(good, "module", place,
                   "%s (line %s) executes the file into the module of that "
                   "name another configuration may be using" % (what, line))
    for (place, d), (line, varies) in sorted(t.setters.items()):
        if varies and place not in start:
            ctx.bad("setting", "%s:%s" % (place, d),
                    "%s (line %s) changes a setting of the whole process "
                    "with %s" % (place, line, d))
        else:
            ctx.ok("setting", "%s:%s" % (place, d))
    for f in t.fs:
        ctx.ok("function", f.qual)
    ctx.note("kinds of option defaults", sorted(t.kinds))
    ctx.note("options", t.options)
    ctx.saw(f.qual for f in t.fs)
    ctx.floor("functions", len(t.fs), 400)
    ctx.floor("writes into lasting state", n, 120)
    ctx.floor("options", t.options, 60)
