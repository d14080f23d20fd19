"""P01: checking one message leaves no trace visible to another.

1. A dependence analysis over the whole program (flow-sensitive inside a
   function, summaries between functions) finds every write into state that
   outlives a message, and whether what is written depends on the message.
2. A definite-assignment analysis decides for each such place whether a
   function running for a message may read it before this message's own
   value was put there.

Labels of a value:  "M" depends on the message; ("p", i) on parameter i;
("o", slot) is (a part of) the object kept in that place; ("a", i) is (a part
of) the object passed as parameter i.
"""
import ast

from ..core import check
from ..model import AnalysisError, dotted
from .code import Fun, COMMON, NONE, _const
from .dns import advertised, method, plugin_classes

M = frozenset(["M"])
PC = "<pc>"
MUTATE = {"append", "add", "insert", "extend", "update", "setdefault",
          "appendleft", "remove", "discard", "clear", "pop", "popitem",
          "sort", "reverse", "__setitem__", "__delitem__", "put",
          "popleft", "extendleft", "push", "move_to_end",
          "difference_update", "intersection_update",
          "symmetric_difference_update"}
PASS = {"get", "setdefault", "pop", "values", "items", "popitem",
        "__getitem__", "popleft", "itervalues", "iteritems"}
SETG = {"set_global", "set_data"}
GETG = {"get_global", "get_data"}
# names under which the long-lived objects are known
WELL_KNOWN = {"ctxt": "oa.context.GlobalContext", "conf": "oa.conf.Conf",
              "dns": "oa.dns_interface.DNSInterface",
              "networks": "oa.networks.NetworkList",
              "ruleset": "oa.rules.ruleset.RuleSet"}
MSG_NAMES = {"msg", "message"}


def ident(ls):
    return frozenset(x for x in ls if x != "M" and x[0] in "oai")


def dep(ls):
    return frozenset(x for x in ls if x == "M" or x[0] == "p")


class Summary(object):
    def __init__(self):
        self.ret = NONE
        self.writes = {}       # (slot, how, place) -> labels
        self.muts = {}         # parameter -> labels
        self.keeps = {}        # parameter -> places of the message it gets to

    def key(self):
        return (self.ret, tuple(sorted((repr(k), len(v)) for t in (
            self.writes, self.muts, self.keeps) for k, v in t.items())))


class Traces(object):
    walker = None

    def __init__(self, ctx, every=False):
        self.ctx, self.p = ctx, ctx.p
        self.every = every     # all writes, not only those of message data
        p = self.p
        self.sum = {}
        self.envs = {}
        self.plain = {}
        self.held = {}         # slot -> "M" if it may hold message data
        self.shared = {}       # place of a message -> lasting objects in it
        self.writes = {}       # (slot, how, place) -> line
        self.calls = {}        # function -> functions it calls
        self.changed = True
        self.message = p.cls("oa.message.Message")
        self.base = p.cls("oa.plugins.base.BasePlugin")
        self.conf = p.cls("oa.conf.Conf")
        self.gctxt = p.cls("oa.context.GlobalContext")
        self.lasting = set()
        for q in set(WELL_KNOWN.values()) | {"oa.rules.base.BaseRule"}:
            c = p.cls(q)
            self.lasting |= {c} | set(c.all_subs()) | {
                k for k in c.mro() if not isinstance(k, str)}
        self.lasting |= {c for c in p.classes.values()
                         if c.module.name.startswith("oa.rules") and
                         "rule" in c.name.lower()}
        for c in p.classes.values():
            if c.module.name == "oa.rules.eval_":
                self.lasting.add(c)
            if any(isinstance(b, str) and ("Server" in b or
                                           b.startswith("spoon.server.") and
                                           not b.endswith("Gulp"))
                   for b in c.ext_bases()):
                self.lasting.add(c)
        # one object for each function made with it; what it makes of the
        # function gets the message at these positions
        self.around = {}
        for f in p.all_funcs():
            for d in f.deco_nodes:
                d = d.func if isinstance(d, ast.Call) else d
                at = [i for i, x in enumerate(f.params())
                      if x in MSG_NAMES or i == 0 and f.cls is not None and
                      f.cls.is_sub(self.message)]
                for x in p.resolve_expr(f.module, d) if dotted(d) else ():
                    if x[0] == "class":
                        self.lasting.add(x[1])
                    if x[0] in ("class", "func") and at:
                        self.around.setdefault(x[1].qual, set()).update(at)
        self.hooks = {n for n, f in self.base.methods.items()
                      if len(f.params()) > 1 and any(
                          x in MSG_NAMES for x in f.params())}
        self.entry = {}        # id(node) -> position of the message or None
        for c in plugin_classes(p):
            for n in self.hooks:
                f = c.find(n)
                if f is not None:
                    g = self.base.find(n)
                    pos = [i for i, x in enumerate(g.params())
                           if x in MSG_NAMES][0]
                    self.entry[id(f.node)] = pos
            for n in advertised(p, c):
                f = method(c, n)
                if f is not None:
                    self.entry[id(f.node)] = 1

    # a class every object of which lives as long as the process or the
    # configuration
    def is_lasting(self, c):
        return c is not None and c in self.lasting and not c.is_sub(
            self.message) and c.qual != "oa.context._Context"

    def owner(self, c, name):
        """The topmost class of the family that knows the attribute."""
        out = c
        for k in c.mro():
            if isinstance(k, str) or k.qual in (
                    "oa.conf.Conf", "oa.plugins.base.BasePlugin"):
                break
            if name in k.attrs or _assigns(k, name):
                out = k
        return out

    def plugin(self, c):
        out = c
        for k in c.mro():
            if isinstance(k, str) or k in (self.conf, self.base):
                break
            if k.is_sub(self.conf):
                out = k
        return out.name

    def is_plain(self, slot):
        v = None
        if slot[0] == "attr":
            for c in self.p.classes.values():
                if c.qual == slot[1]:
                    v = c.attrs.get(slot[2])
        elif slot[0] == "glob":
            v = _module_value(self.p.modules[slot[1]], slot[2])
        if isinstance(v, ast.Dict):
            v = [x for x in v.values]
        elif isinstance(v, (ast.List, ast.Tuple, ast.Set)):
            v = v.elts
        elif isinstance(v, ast.Constant):
            return True
        else:
            return False
        return all(isinstance(x, (ast.Constant, ast.UnaryOp)) or isinstance(
            x, ast.Tuple) and all(isinstance(y, ast.Constant)
                                  for y in x.elts) for x in v)

    def summary(self, f):
        return self.sum.setdefault(id(f.node), Summary())

    def write(self, slot, how, f, line, ls):
        if "M" in ls or self.every:
            self.writes.setdefault((slot, how, f.qual), line)
            if slot not in self.held:
                self.held[slot] = M
                self.changed = True

    def run(self):
        self.fs = self.p.all_funcs()
        rounds = 0
        while self.changed and rounds < 40:
            self.changed = False
            rounds += 1
            self.calls = {}
            for f in self.fs:
                s = self.summary(f)
                k = s.key()
                (self.walker or Dep)(self, f).run()
                if s.key() != k:
                    self.changed = True
        if self.changed:
            raise AnalysisError("the dependences do not settle")
        return rounds

    def given(self, f):
        """Where a function that replaces others is given the message."""
        g = f
        while g.parent is not None:
            g = g.parent
        out = set()
        for q in (g.qual, g.cls.qual if g.cls is not None else None):
            if g is not f:
                out |= self.around.get(q, set())
        return out

    def reach(self):
        """Functions that run for a message."""
        out, todo = {}, []
        for f in self.fs:
            ps = f.params()
            if id(f.node) in self.entry or set(ps) & MSG_NAMES or \
                    f.cls is not None and f.cls.is_sub(self.message):
                todo.append(f)
            elif f.cls is not None and any(
                    "HTMLParser" in str(b) for b in f.cls.ext_bases()) or \
                    self.given(f):
                todo.append(f)
        while todo:
            f = todo.pop()
            if id(f.node) in out:
                continue
            out[id(f.node)] = f
            todo.extend(self.calls.get(id(f.node), {}).values())
            todo.extend(self.p.nested(f).values())
        return out


def _assigns(c, name):
    for f in c.methods.values():
        ps = f.params()
        if not ps:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr == name and \
                    isinstance(n.ctx, ast.Store) and isinstance(
                        n.value, ast.Name) and n.value.id == ps[0]:
                return True
    return False


def _container(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                      ast.DictComp, ast.SetComp)):
        return True
    return isinstance(e, ast.Call) and (dotted(e.func) or "").split(".")[
        -1] in ("list", "dict", "set", "defaultdict", "OrderedDict",
                "deque", "Counter", "bytearray")


class Dep(Fun):
    def __init__(self, t, f):
        Fun.__init__(self, t, f)
        self.globals = {n for b in f.body for x in ast.walk(b)
                        if isinstance(x, ast.Global) for n in x.names}
        self.seen = []

    # ----------------------------------------------------------------- places
    def run(self):
        t, f = self.t, self.f
        env = dict(t.envs.get(id(f.parent.node), {})) if f.parent is not \
            None else {}
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.ps = ps + [x.arg for x in (a.vararg, a.kwarg) if x]
        for i, x in enumerate(self.ps):
            env[x] = frozenset([("p", i), ("a", i)])
        pos = t.entry.get(id(f.node))
        for i, x in enumerate(self.ps):
            if x in MSG_NAMES or i == pos:
                env[x] = M
        if t.given(f):
            # what the function around it made is there for all its calls
            for b in f.parent.body:
                for n in ast.walk(b):
                    if isinstance(n, ast.Assign) and _container(n.value):
                        for x in n.targets:
                            if isinstance(x, ast.Name) and x.id not in \
                                    self.ps and x.id in t.envs.get(
                                        id(f.parent.node), ()):
                                env[x.id] = env.get(x.id, NONE) | {
                                    ("o", ("default", f.parent.qual,
                                           x.id))}
        for i in t.given(f):
            if i < len(a.posonlyargs + a.args):
                env[self.ps[i]] = M
        if pos is not None and f.name == "extract_metadata":
            for x in self.ps[2:]:
                env[x] = M
        if f.cls is not None and f.name == "__init__" and f.cls.is_sub(
                t.message):
            for x in self.ps[2:]:
                env[x] = M
        if f.cls is not None and any(
                "HTMLParser" in str(b) for b in f.cls.ext_bases()) and \
                f.name.startswith("handle_"):
            for x in self.ps[1:]:
                env[x] = M
        if self.me in self.ps and f.parent is None:
            env[self.me] = NONE
            if f.cls is not None and f.cls.is_sub(t.message):
                env[self.me] = M
        pos = a.posonlyargs + a.args
        for x, d in list(zip(pos[len(pos) - len(a.defaults):],
                             a.defaults)) + [
                (x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d]:
            if _container(d):
                env[x.arg] = env[x.arg] | {
                    ("o", ("default", f.qual, x.arg))}
        env[PC] = frozenset([("p", -1)])
        if isinstance(f.node, ast.Lambda):
            self.s.ret |= self.ev(f.node.body, env)
        else:
            self.block(f.body, env)
        known = {k: frozenset(x for x in v if x == "M" or x[0] == "o")
                 for k, v in self.all.items()}
        for x in self.ps:
            known[x] = known.get(x, NONE) | frozenset(
                y for y in env.get(x, NONE) if y == "M" or y[0] == "o")
        if t.envs.get(id(f.node)) != known:
            t.envs[id(f.node)] = known
            t.changed = True

    def type_of(self, e):
        if isinstance(e, ast.Name):
            if e.id == self.me:
                return self.f.cls
            if e.id in MSG_NAMES:
                return self.t.message
        name = e.attr if isinstance(e, ast.Attribute) else e.id \
            if isinstance(e, ast.Name) else None
        if name in WELL_KNOWN:
            return self.t.p.cls(WELL_KNOWN[name])
        for x in self.t.p.resolve_expr(self.m, e) if dotted(e) else ():
            if x[0] == "class":
                return x[1]
        return None

    def attr_slot(self, e):
        """The place ``e`` (an attribute) names, if it outlives messages."""
        c = self.type_of(e.value)
        if c is None:
            return None
        if any(e.attr in k.methods for k in c.mro()
               if not isinstance(k, str)):
            return None
        by_class = not (isinstance(e.value, ast.Name) and
                        e.value.id == self.me) and dotted(
            e.value) not in WELL_KNOWN and not isinstance(
                e.value, ast.Attribute) and not (
                    isinstance(e.value, ast.Name) and e.value.id in
                    MSG_NAMES)
        if self.t.is_lasting(c) or by_class or \
                self.f.is_class and isinstance(e.value, ast.Name) and \
                e.value.id == self.me:
            return ("attr", self.t.owner(c, e.attr).qual, e.attr)
        # an object that belongs to a message: only what its class holds
        node, k = c.find_attr(e.attr)
        for sub in c.all_subs():
            if node is not None and not _container(node) and _container(
                    sub.attrs.get(e.attr)):
                node, k = sub.attrs[e.attr], sub
        if node is not None and _container(node):
            ini = c.find("__init__")
            if ini is None or e.attr not in {
                    x.attr for b in ini.body for x in ast.walk(b)
                    if isinstance(x, ast.Attribute) and isinstance(
                        x.ctx, ast.Store)}:
                return ("attr", k.qual, e.attr)
        return None

    def glob_slot(self, name):
        m = self.m
        if name in self.imports:
            return None
        for x in [m]:
            node = _module_value(x, name)
            if node is not None:
                return ("glob", x.name, name)
        for s in m.tree.body:
            if isinstance(s, ast.ImportFrom) and s.module:
                for a in s.names:
                    if (a.asname or a.name) == name and s.module in \
                            self.t.p.modules:
                        if _module_value(self.t.p.modules[s.module],
                                         a.name) is not None:
                            return ("glob", s.module, a.name)
        return None

    def data_slot(self, call):
        """("data", plugin, key) for get_global & co."""
        fn = self.bound(call.func)
        if not isinstance(fn, ast.Attribute):
            return None
        c = self.type_of(fn.value)
        if fn.attr in SETG | GETG | {"del_global"}:
            if c is None or not c.is_sub(self.t.conf):
                return ("data", "*", None)
            k = call.args[0] if call.args else None
            for x in call.keywords:
                if x.arg in ("key", "item"):
                    k = x.value
            return ("data", self.t.plugin(c), self.key(k))
        if fn.attr in ("set_plugin_data", "get_plugin_data",
                       "pop_plugin_data", "del_plugin_data"):
            if c is not None and c.is_sub(self.t.message) or (
                    c is None and not isinstance(fn.value, ast.Attribute)):
                return None
            a = [self.key(x) for x in call.args[:2]] + [None, None]
            return ("data", a[0] or "*", a[1])
        return None

    def bound(self, fn):
        """A local name given to a method stands for it."""
        if isinstance(fn, ast.Name) and fn.id not in self.ps:
            vals = [n.value for b in self.f.body for n in ast.walk(b)
                    if isinstance(n, ast.Assign) for x in n.targets
                    if isinstance(x, ast.Name) and x.id == fn.id]
            if len(vals) == 1 and isinstance(vals[0], ast.Attribute) and \
                    vals[0].attr in SETG | GETG | {
                        "get_plugin_data", "set_plugin_data", "get_local",
                        "set_local"}:
                return vals[0]
        return fn

    def key(self, k):
        if isinstance(k, ast.Constant):
            return k.value
        if isinstance(k, ast.Name):
            # a local name or a name of the module given one text
            vals = {_const(n.value) for b in self.f.body for n in ast.walk(b)
                    if isinstance(n, ast.Assign) for x in n.targets
                    if isinstance(x, ast.Name) and x.id == k.id}
            if len(vals) == 1 and k.id not in self.ps:
                return vals.pop()
        return None

    # ------------------------------------------------------------------ writes
    def record(self, slot, how, ls, node, env):
        if how != "changed in place":
            self.keep(slot, frozenset(x for x in ls if x[-1] != slot))
        ls = dep(ls)
        line = getattr(node, "lineno", 0)
        self.t.write(slot, how, self.f, line, ls)
        ps = frozenset(x for x in ls if x != "M")
        if ps:
            k = (slot, how, self.f.qual, line)
            self.s.writes[k] = self.s.writes.get(k, NONE) | ps

    def keep(self, where, ls):
        """A place that belongs to a message gets (a reference to) ls."""
        for x in ident(ls):
            if x[0] == "a":
                self.s.keeps[x[1]] = self.s.keeps.get(
                    x[1], frozenset()) | {where}
            elif x not in self.t.shared.get(where, NONE):
                self.t.shared[where] = self.t.shared.get(where, NONE) | {x}
                self.t.changed = True

    def mutate(self, ls, val, node, env):
        """Something is put into (taken out of) the object ``ls``."""
        val = dep(val) | dep(env[PC])
        for x in ident(ls):
            if x[0] == "o":
                self.record(x[1], "changed in place", val, node, env)
            elif x[0] == "a":
                self.s.muts[x[1]] = self.s.muts.get(x[1], NONE) | val

    @staticmethod
    def flag(e):
        return e is None or isinstance(e, ast.Constant) or _container(e) \
            or isinstance(e, (ast.Tuple, ast.UnaryOp, ast.Name, ast.Lambda))

    def assign(self, t, value, ls, env):
        if value is None or self.flag(value):
            ls = ls | dep(env[PC])
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.record(("glob", self.m.name, t.id), "set", ls, t, env)
                return
            self.bind(env, t.id, ls)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(
                    value.elts) == len(t.elts):
                vals = [self.ev(v, env) for v in value.elts]
                for x, v, l in zip(t.elts, value.elts, vals):
                    self.assign(x, v, l, env)
                return
            for x in t.elts:
                self.assign(x, None, ls, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, None, ls, env)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, env)
            slot = self.attr_slot(t)
            if slot is not None:
                self.record(slot, "set", ls, t, env)
            else:
                self.keep(("attr", t.attr), ls)
                self.mutate(base, ls, t, env)
                self.put_name(t.value, ls, env)
        elif isinstance(t, ast.Subscript):
            key = dep(self.ev(t.slice, env))
            if isinstance(t.value, ast.Name) and t.value.id == self.me and \
                    self.f.cls is not None and self.f.cls.is_sub(
                        self.t.conf):
                self.record(("data", self.t.plugin(self.f.cls),
                             self.key(t.slice)), "set", ls, t, env)
                return
            base = self.ev(t.value, env)
            self.mutate(base, ls | key, t, env)
            self.put_name(t.value, ls | key, env)

    def put_name(self, e, ls, env):
        while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
            e = e.func if isinstance(e, ast.Call) else e.value
        if isinstance(e, ast.Name) and e.id in env and e.id != self.me:
            # what is kept in it may come out of it again
            self.bind(env, e.id, env[e.id] | dep(ls))

    # -------------------------------------------------------------- statements
    def stmt(self, s, env):
        if isinstance(s, ast.If):
            c = dep(self.ev(s.test, env))
            out = []
            for b in (s.body, s.orelse):
                e = dict(env)
                e[PC] = e[PC] | c
                out.append(self.block(b, e))
            r = self.join(*out)
            if r is not None:
                r[PC] = env[PC] | (c if _leaves(s) else NONE)
            return r
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            c = dep(self.ev(s.test if isinstance(s, ast.While) else s.iter,
                            env))
            e = dict(env)
            e[PC] = e[PC] | c
            r = self.loop(s, e)
            if r is not None:
                r[PC] = env[PC] | (c if _leaves(s) else NONE)
            return r
        if isinstance(s, ast.Try):
            n = len(self.seen)
            self.seen.append(NONE)
            probe = dict(env)
            self.block(s.body, probe)
            c = dep(self.seen.pop())
            assert len(self.seen) == n
            e = dict(env)
            before = e[PC]
            h = [x for x in s.handlers]
            # what the handlers do depends on what the body used
            body = ast.Try(body=s.body, handlers=[], orelse=s.orelse,
                           finalbody=[])
            after = self.block(body.body, dict(env))
            mid = self.join(self.join(dict(env), probe), after)
            for k, v in self.all.items():
                if k in mid:
                    mid[k] = mid[k]
            if after is not None:
                after = self.block(s.orelse, after)
            left = False
            for x in h:
                e = dict(mid)
                e[PC] = before | c
                if x.name:
                    self.bind(e, x.name, c)
                r = self.block(x.body, e)
                left = left or r is None
                after = self.join(after, r)
            if after is not None:
                after[PC] = before | (c if left or _leaves(s) else NONE)
            if s.finalbody:
                r = self.block(s.finalbody, dict(mid))
                if after is None:
                    return None
                after = self.block(s.finalbody, after)
            return after
        if isinstance(s, ast.Delete):
            for x in s.targets:
                if isinstance(x, ast.Attribute):
                    slot = self.attr_slot(x)
                    if slot is not None:
                        self.record(slot, "set", env[PC], x, env)
                elif isinstance(x, ast.Subscript):
                    if isinstance(x.value, ast.Name) and \
                            x.value.id == self.me:
                        continue
                    self.mutate(self.ev(x.value, env),
                                self.ev(x.slice, env), x, env)
            return env
        if isinstance(s, ast.AugAssign):
            ls = self.ev(s.value, env)
            t = s.target
            from .code import _load
            old = self.ev(_load(t), env)
            self.mutate(old, ls, s, env)
            if isinstance(t, ast.Attribute) and self.attr_slot(t) is None:
                # the value is put back where it came from
                self.put_name(t.value, ls, env)
                return env
            self.assign(t, None, dep(ls) | old, env)
            return env
        if isinstance(s, ast.Return):
            if s.value is not None:
                ls = self.ev(s.value, env)
                if self.flag(s.value):
                    ls = ls | dep(env[PC])
                self.s.ret |= ls
            return None
        return Fun.stmt(self, s, env)

    # ------------------------------------------------------------- expressions
    def ev(self, e, env):
        out = self.ev_(e, env)
        for i in range(len(self.seen)):
            self.seen[i] |= out
        return out

    def parts(self, ls, how=None):
        """What is in the containers ``ls``: nothing to be changed in place
        where they were written down with plain values only."""
        out = set()
        for x in ls:
            if x != "M" and x[0] == "o":
                if x[1] not in self.t.plain:
                    self.t.plain[x[1]] = self.t.is_plain(x[1])
                if self.t.plain[x[1]]:
                    continue
            out.add(x)
        return frozenset(out)

    def elem(self, it, env):
        return self.parts(self.ev(it, env))

    def copied(self, ls, layers):
        return NONE

    def hold(self, slot):
        out = self.t.held.get(slot, NONE) | {("o", slot)}
        places = [slot]
        if slot[0] == "data":
            places += [("data", slot[1], None), ("data", "Conf", None)]
        for k in places:
            out |= self.t.shared.get(k, NONE)
        return out

    def ev_(self, e, env):
        if e is None or isinstance(e, ast.Constant):
            return NONE
        if isinstance(e, ast.Name):
            if e.id in env and e.id not in self.globals:
                return env[e.id]
            slot = self.glob_slot(e.id)
            if slot is None:
                return NONE
            v = _module_value(self.t.p.modules[slot[1]], slot[2])
            if isinstance(v, (ast.Constant, ast.UnaryOp, ast.JoinedStr)):
                return self.t.held.get(slot, NONE)
            return self.hold(slot)
        if isinstance(e, ast.Attribute):
            slot = self.attr_slot(e)
            if slot is not None:
                self.ev(e.value, env)
                return self.hold(slot)
            d = dotted(e)
            if d and d.split(".")[0] not in env:
                for m, n in ((d.rpartition(".")[0], e.attr),):
                    mm = self.t.p.modules.get(self.imports.get(m, m))
                    if mm is not None and _module_value(mm, n) is not None:
                        return self.hold(("glob", mm.name, n))
            ls = self.ev(e.value, env)
            c = self.type_of(e.value)
            if c is not None and c.is_sub(self.t.message) and e.attr in \
                    ("ctxt", "conf", "ruleset"):
                return NONE
            ls = ls | self.t.shared.get(("attr", e.attr), NONE)
            for f in self.methods(c, e.attr) if c is not None else ():
                if f.is_property:
                    ls = ls | self.apply(f, [ls], {}, e, True, env)
            return ls
        if isinstance(e, ast.Subscript):
            k = self.ev(e.slice, env)
            if isinstance(e.value, ast.Name) and e.value.id == self.me and \
                    self.f.cls is not None and self.f.cls.is_sub(
                        self.t.conf):
                return self.hold(("data", self.t.plugin(self.f.cls),
                                  self.key(e.slice)))
            return self.parts(self.ev(e.value, env)) | dep(k)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, (ast.Compare, ast.UnaryOp, ast.BinOp,
                          ast.JoinedStr, ast.FormattedValue)):
            out = NONE
            for x in ast.iter_child_nodes(e):
                if isinstance(x, ast.expr):
                    out |= dep(self.ev(x, env))
            return out
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            env = dict(env)
            c = NONE
            for g in e.generators:
                it = self.elem(g.iter, env)
                self.assign(g.target, None, it, env)
                c |= dep(it)
                for x in g.ifs:
                    c |= dep(self.ev(x, env))
                env[PC] = env[PC] | c
            if isinstance(e, ast.DictComp):
                return self.ev(e.key, env) | self.ev(e.value, env) | c
            return self.ev(e.elt, env) | c
        if isinstance(e, ast.Lambda):
            return NONE
        if isinstance(e, ast.IfExp):
            c = dep(self.ev(e.test, env))
            return self.ev(e.body, env) | self.ev(e.orelse, env) | c
        if isinstance(e, ast.NamedExpr):
            ls = self.ev(e.value, env)
            self.assign(e.target, e.value, ls, env)
            return ls
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            ls = self.ev(e.value, env) if e.value is not None else NONE
            if not isinstance(e, ast.Await):
                self.s.ret |= ls
            return ls
        out = NONE
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                out |= self.ev(x, env)
        return out

    def call(self, e, env):
        fn = self.bound(e.func)
        recv = self.ev(fn.value, env) if isinstance(fn, ast.Attribute) \
            else NONE
        args = [self.ev(a, env) for a in e.args]
        kws = {k.arg: self.ev(k.value, env) for k in e.keywords}
        every = NONE
        for x in args + list(kws.values()):
            every |= x
        for l in [a for a in list(e.args) + [k.value for k in e.keywords]
                  if isinstance(a, ast.Lambda)]:
            inner = dict(env)
            for x in l.args.args:
                inner[x.arg] = every | recv
            every |= self.ev(l.body, inner)
        if isinstance(fn, ast.Attribute):
            slot = self.data_slot(e)
            a = fn.attr
            if slot is not None and a.startswith("set"):
                v = args[-1] if args else every
                for k in e.keywords:
                    if k.arg == "value":
                        v = kws["value"]
                vn = e.args[-1] if e.args else None
                if self.flag(vn):
                    v = v | dep(env[PC])
                self.record(slot, "set", v, e, env)
                return NONE
            if slot is not None and a.startswith("get"):
                return self.hold(slot) | dep(every)
            if slot is not None and a.startswith(("pop", "del")):
                self.record(slot, "set", env[PC], e, env)
                return self.hold(slot)
            if a in ("get_local", "get_plugin_data", "set_local",
                     "set_plugin_data"):
                k = [self.key(x) for x in e.args[1:2]] + [
                    self.key(x.value) for x in e.keywords if x.arg == "key"]
                k = ("local", k[0] if k else None)
                if a.startswith("get"):
                    return M | self.t.shared.get(k, NONE) | \
                        self.t.shared.get(("local", None), NONE)
                self.keep(k, kws.get("value", args[-1] if args else NONE))
                return NONE
        d = dotted(fn)
        if d in ("setattr", "delattr") and len(e.args) > 1:
            k = _const(e.args[1])
            if k is not None:
                self.assign(ast.copy_location(ast.Attribute(
                    e.args[0], k, ast.Store()), e), e.args[-1], args[-1],
                    env)
            else:
                self.mutate(args[0], args[-1], e, env)
                c = self.type_of(e.args[0])
                if self.t.is_lasting(c):
                    self.record(("attr", c.qual, "*"), "set", args[-1], e,
                                env)
            return NONE
        if d == "getattr" and len(e.args) > 1:
            k = _const(e.args[1])
            if k is not None:
                return self.ev(ast.copy_location(ast.Attribute(
                    e.args[0], k, ast.Load()), e), env) | (
                        args[2] if len(args) > 2 else NONE)
            return args[0]
        fs, ext, rec = self.targets(e, env)
        if isinstance(ext, tuple):
            ini = ext[1].find("__init__")
            if ini is not None:
                self.apply(ini, [NONE] + args, kws, e, True, env)
            return dep(every)
        if fs and ext is None:
            out = NONE
            for f in fs:
                a = ([recv] if rec and f.cls is not None and
                     not f.is_static else []) + args
                out |= self.apply(f, a, kws, e, rec, env)
            return out | dep(recv)
        if isinstance(fn, ast.Attribute) and (ext is None or ident(recv)):
            if fn.attr in MUTATE:
                self.mutate(recv, every, e, env)
                self.put_name(fn.value, every, env)
            if fn.attr in PASS:
                return self.parts(recv, fn.attr) | every
            return dep(recv | every)
        return dep(every | recv | (self.ev(fn, env) if isinstance(
            fn, ast.Name) else NONE))

    def apply(self, f, args, kws, e, rec, env):
        self.t.calls.setdefault(id(self.f.node), {})[id(f.node)] = f
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        npos = len(a.posonlyargs + a.args)
        val = {}
        star = any(isinstance(x, ast.Starred) for x in getattr(
            e, "args", ()))
        rest = NONE
        for i, ls in enumerate(args):
            if star and i > 0:
                rest |= ls
            elif i < npos:
                val[i] = ls
            elif a.vararg:
                val[len(ps)] = val.get(len(ps), NONE) | ls
        for k, ls in kws.items():
            if k in ps:
                val[ps.index(k)] = ls
            elif k is None:
                rest |= ls
            elif a.kwarg:
                j = len(ps) + bool(a.vararg)
                val[j] = val.get(j, NONE) | ls
        if rest:
            for i in range(len(ps) + bool(a.vararg) + bool(a.kwarg)):
                val[i] = val.get(i, NONE) | rest
        # asking a property is no event: what it does is done on demand
        val[-1] = NONE if f.is_property else dep(env[PC])
        s = self.t.summary(f)

        def sub(ls):
            out = NONE
            for x in ls:
                if x == "M" or x[0] in "oi":
                    out |= {x}
                elif x[0] == "b":
                    out |= self.copied(ident(val.get(x[1], NONE)), x[2])
                elif x[0] == "p":
                    out |= dep(val.get(x[1], NONE))
                else:
                    out |= ident(val.get(x[1], NONE))
            return out
        for (slot, how, place, line), ls in list(s.writes.items()):
            ls = sub(ls)
            if "M" in ls or self.t.every:
                self.t.writes.setdefault((slot, how, place), line)
                if slot not in self.t.held:
                    self.t.held[slot] = M
                    self.t.changed = True
            ls = frozenset(x for x in ls if x != "M" and x[0] == "p")
            if ls:
                k = (slot, how, place, line)
                self.s.writes[k] = self.s.writes.get(k, NONE) | ls
        for i, ks in list(s.keeps.items()):
            for k in ks:
                self.keep(k, val.get(i, NONE))
        for i, ls in list(s.muts.items()):
            self.mutate(val.get(i, NONE), sub(ls), e, env)
        return sub(s.ret)


def _leaves(s):
    return any(isinstance(x, (ast.Return, ast.Raise, ast.Break,
                              ast.Continue)) for x in ast.walk(s))


def _module_value(m, name):
    c = getattr(m, "_values", None)
    if c is None:
        c = m._values = {}
        todo = list(m.tree.body)
        while todo:
            s = todo.pop()
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            c[x.id] = s.value
            elif isinstance(s, (ast.If, ast.Try, ast.With)):
                for k in ("body", "orelse", "finalbody"):
                    todo.extend(getattr(s, k, ()))
                for h in getattr(s, "handlers", ()):
                    todo.extend(h.body)
    return c.get(name)


# ------------------------------------------------------------------ who reads
class Reads(object):
    """Definite assignment of the places over a whole message."""

    def __init__(self, t, reach, slots):
        self.t, self.p = t, t.p
        self.reach, self.slots = reach, frozenset(slots)
        self.asked = self.slots
        self.deps = {}
        self.memo = {}
        self.stack = []
        self.found = {}        # slot -> {(reader, line)}
        self.visited = set()
        self.implied = {}
        self.loads = 0
        self.exits = []
        self.truth = {}
        self.outs = {}         # what is assigned at each way out

    def dep(self, f):
        d = self.deps.get(id(f.node))
        if d is None:
            d = Dep(self.t, f)
            a = f.node.args
            d.ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [
                x.arg for x in (a.vararg, a.kwarg) if x]
            d.names = {k: NONE for k in list(d.ps) + [
                x.id for b in f.body for x in ast.walk(b)
                if isinstance(x, ast.Name) and isinstance(
                    x.ctx, ast.Store) and x.id not in d.globals]}
            g = f.parent
            while g is not None:
                for x in ast.walk(g.node):
                    if isinstance(x, ast.Name) and isinstance(
                            x.ctx, ast.Store) or isinstance(x, ast.arg):
                        d.names[getattr(x, "id", None) or x.arg] = NONE
                g = g.parent
            self.deps[id(f.node)] = d
        return d

    def slot(self, d, e):
        """The place an expression names."""
        if isinstance(e, ast.Attribute):
            s = d.attr_slot(e)
            if s is not None:
                return s
            dd = dotted(e)
            if dd and dd.split(".")[0] not in d.names:
                m = dd.rpartition(".")[0]
                mm = self.p.modules.get(d.imports.get(m, m))
                if mm is not None and _module_value(mm, e.attr) is not None:
                    return ("glob", mm.name, e.attr)
            if d.type_of(e.value) is None:
                # an object not known: any place of that name
                for s in self.asked:
                    if s[0] == "attr" and s[2] == e.attr:
                        return s
        elif isinstance(e, ast.Subscript):
            if isinstance(e.value, ast.Name) and e.value.id == d.me and \
                    d.f.cls is not None and d.f.cls.is_sub(self.t.conf):
                return ("data", self.t.plugin(d.f.cls), d.key(e.slice))
        elif isinstance(e, ast.Name):
            if e.id not in d.names:
                return d.glob_slot(e.id)
        elif isinstance(e, ast.Call):
            return d.data_slot(e)
        return None

    def walk(self, f, have):
        k = (id(f.node), have)
        if k in self.memo:
            return self.memo[k]
        if id(f.node) in self.stack or len(self.stack) > 60:
            return have
        self.stack.append(id(f.node))
        self.visited.add(id(f.node))
        d = self.dep(f)
        self.exits.append([])
        out = have
        if isinstance(f.node, ast.Lambda):
            out = self.expr(d, f.node.body, out)
        else:
            out = self.block(d, f.body, out)
        end, out = out, None
        yes = no = None
        self.outs[k] = [r for v, r in self.exits[-1]] + [end]
        for v, r in self.exits.pop() + [(ast.Constant(None), end)]:
            if r is None:
                continue
            out = self.both(out, r)
            a, b = (frozenset(), frozenset()) if v is None else self.knows(
                d, v, r)
            if not (isinstance(v, ast.Constant) and not v.value):
                yes = self.both(yes, r | a)
            if not (isinstance(v, ast.Constant) and v.value):
                no = self.both(no, r | b)
        self.truth[k] = (self.slots if yes is None else yes,
                         self.slots if no is None else no)
        if out is None:
            out = self.slots   # it never returns
        self.stack.pop()
        self.memo[k] = out
        return out

    def block(self, d, stmts, have):
        for s in stmts:
            if have is None:
                return None
            have = self.stmt(d, s, have)
        return have

    def leave(self, have, value):
        self.exits[-1].append((value, have))

    @staticmethod
    def both(a, b):
        return b if a is None else a if b is None else a & b

    def stmt(self, d, s, have):
        if isinstance(s, (ast.FunctionDef, ast.Lambda)):
            for n, g in self.p.nested(d.f).items():
                if n is s:
                    self.walk(g, have)
            return have
        if isinstance(s, ast.Assign):
            have = self.expr(d, s.value, have)
            for t in s.targets:
                have = self.target(d, t, have)
            return have
        if isinstance(s, ast.AugAssign):
            have = self.expr(d, s.value, have)
            slot = self.slot(d, s.target)
            if slot is not None:
                self.read(d, slot, s, have)
            else:
                have = self.target(d, s.target, have)
            return have
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                have = self.target(d, s.target, self.expr(
                    d, s.value, have))
            return have
        if isinstance(s, ast.Expr):
            return self.expr(d, s.value, have)
        if isinstance(s, ast.Return):
            if s.value is not None:
                have = self.expr(d, s.value, have)
            self.leave(have, s.value or ast.Constant(None))
            return None
        if isinstance(s, ast.Raise):
            for x in (s.exc, s.cause):
                if x is not None:
                    have = self.expr(d, x, have)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.brk:
                self.brk[-1].append(have)
            return None
        if isinstance(s, ast.If):
            yes, no = self.knows(d, s.test, have)
            have = self.expr(d, s.test, have)
            return self.both(self.block(d, s.body, have | yes),
                             self.block(d, s.orelse, have | no))
        if isinstance(s, ast.While):
            have = self.expr(d, s.test, have)
            self.brk.append([])
            self.block(d, s.body, have)
            out = have
            always = isinstance(s.test, ast.Constant) and s.test.value
            if always:
                out = None
            for x in self.brk.pop():
                out = self.both(out, x)
            return out if always else self.block(d, s.orelse, out)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            have = self.expr(d, s.iter, have)
            self.brk.append([])
            self.block(d, s.body, self.target(d, s.target, have))
            self.brk.pop()
            return self.block(d, s.orelse, have)
        if isinstance(s, ast.Try):
            after = self.block(d, s.body, have)
            if after is not None:
                after = self.block(d, s.orelse, after)
            for h in s.handlers:
                after = self.both(after, self.block(d, h.body, have))
            if s.finalbody:
                f = self.block(d, s.finalbody, have)
                if f is None or after is None:
                    return None
                after = after | f
            return after
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                have = self.expr(d, i.context_expr, have)
                if i.optional_vars is not None:
                    have = self.target(d, i.optional_vars, have)
            return self.block(d, s.body, have)
        if isinstance(s, ast.Assert):
            return self.expr(d, s.test, have)
        if isinstance(s, ast.Delete):
            for x in s.targets:
                if self.slot(d, x) is None:
                    have = self.target(d, x, have)
                else:
                    have = have | {self.slot(d, x)}
        return have

    brk = []

    def knows(self, d, test, have):
        """Places surely assigned when the test is true / false."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            a, b = self.knows(d, test.operand, have)
            return b, a
        if isinstance(test, ast.BoolOp):
            both = [self.knows(d, v, have) for v in test.values]
            yes, no = frozenset(), frozenset()
            for a, b in both:
                yes |= a
                no |= b
            return (yes, frozenset()) if isinstance(
                test.op, ast.And) else (frozenset(), no)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and \
                isinstance(test.ops[0], (ast.Is, ast.IsNot, ast.Eq,
                                         ast.NotEq)):
            v = test.comparators[0]
            if isinstance(v, ast.Constant) and v.value in (
                    None, 0, 1, True, False):
                a, b = self.knows(d, test.left, have)
                same = isinstance(test.ops[0], (ast.Is, ast.Eq))
                if v.value is None or not v.value:
                    # a false value other than this one remains possible
                    return (b, frozenset()) if same else (frozenset(), b)
                return (a, frozenset()) if same else (frozenset(), a)
        if isinstance(test, ast.NamedExpr):
            return self.knows(d, test.value, have)
        if isinstance(test, ast.Call) and d.data_slot(test) is None:
            fs, ext, rec = d.targets(test, d.names)
            out = None
            for f in fs if not ext else ():
                self.walk(f, have)
                r = self.truth.get((id(f.node), have),
                                   (frozenset(), frozenset()))
                out = r if out is None else (out[0] & r[0], out[1] & r[1])
            return out or (frozenset(), frozenset())
        if isinstance(test, ast.Name) and test.id in d.names and \
                test.id not in d.ps:
            vals = [n.value for b in d.f.body for n in ast.walk(b)
                    if isinstance(n, (ast.Assign, ast.NamedExpr))
                    for x in getattr(n, "targets", None) or [n.target]
                    if isinstance(x, ast.Name) and x.id == test.id]
            if len(vals) == 1 and not isinstance(vals[0], ast.Name):
                return self.knows(d, vals[0], have)
        s = self.slot(d, test)
        return self.implied.get(s, frozenset()), frozenset()

    def target(self, d, t, have):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                have = self.target(d, x, have)
            return have
        if isinstance(t, ast.Starred):
            return self.target(d, t.value, have)
        if isinstance(t, ast.Name) and t.id in d.globals:
            return have | {("glob", d.m.name, t.id)}
        slot = self.slot(d, t) if not isinstance(t, ast.Name) else None
        if slot is not None and slot in self.slots:
            self.expr(d, getattr(t, "value", None), have) if not isinstance(
                t.value, ast.Name) else None
            return have | {slot}
        if isinstance(t, ast.Subscript):
            have = self.expr(d, t.slice, have)
            return self.expr(d, t.value, have)
        if isinstance(t, ast.Attribute):
            return self.expr(d, t.value, have)
        return have

    def read(self, d, slot, node, have):
        if slot in self.asked:
            self.loads += 1
            if slot not in have and id(d.f.node) in self.reach:
                self.found.setdefault(slot, set()).add(
                    (d.f.qual, getattr(node, "lineno", 0)))

    def expr(self, d, e, have):
        if e is None or isinstance(e, ast.Constant):
            return have
        if isinstance(e, ast.Call):
            fn = d.bound(e.func)
            if isinstance(fn, ast.Attribute) and fn.attr == "clear":
                s = self.slot(d, fn.value)
                if s in self.slots:
                    return have | {s}
            ds = d.data_slot(e)
            if isinstance(fn, ast.Attribute):
                have = self.expr(d, fn.value, have)
                if ds is None:
                    # what is called may be kept there
                    self.read(d, self.slot(d, fn), fn, have)
            elif not isinstance(fn, ast.Name):
                have = self.expr(d, fn, have)
            for a in e.args:
                have = self.expr(d, a, have)
            for k in e.keywords:
                have = self.expr(d, k.value, have)
            if ds is not None:
                if fn.attr.startswith(("set", "del")):
                    return have | ({ds} & self.slots)
                self.read(d, ds, e, have)
                return have
            if dotted(fn) in ("getattr", "setattr") and len(
                    e.args) > 1 and _const(e.args[1]):
                a = ast.copy_location(ast.Attribute(
                    e.args[0], _const(e.args[1]), ast.Load()), e)
                if dotted(fn) == "setattr":
                    return self.target(d, a, have)
                return self.expr(d, a, have)
            fs, ext, rec = d.targets(e, d.names)
            if isinstance(ext, tuple):
                ini = ext[1].find("__init__")
                fs = [ini] if ini is not None else []
            if fs:
                out = None
                for f in fs:
                    r = self.walk(f, have)
                    out = r if out is None else out & r
                return have | out
            return have
        if isinstance(e, ast.Lambda):
            for n, g in self.p.nested(d.f).items():
                if n is e:
                    self.walk(g, have)
            return have
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            for i, g in enumerate(e.generators):
                r = self.expr(d, g.iter, have)
                if i == 0:
                    have = r
                for x in g.ifs:
                    self.expr(d, x, have)
            for x in ("key", "value", "elt"):
                if hasattr(e, x):
                    self.expr(d, getattr(e, x), have)
            return have
        if isinstance(e, ast.BoolOp):
            out = self.expr(d, e.values[0], have)
            cur = out
            for a, v in zip(e.values, e.values[1:]):
                yes, no = self.knows(d, a, cur)
                cur = self.expr(d, v, cur | (
                    yes if isinstance(e.op, ast.And) else no))
            return out
        if isinstance(e, ast.IfExp):
            yes, no = self.knows(d, e.test, have)
            have = self.expr(d, e.test, have)
            return self.expr(d, e.body, have | yes) & self.expr(
                d, e.orelse, have | no)
        if isinstance(e, ast.NamedExpr):
            return self.expr(d, e.value, have)
        s = self.slot(d, e)
        if s is not None:
            self.read(d, s, e, have)
            if isinstance(e, ast.Subscript):
                return self.expr(d, e.slice, have)
            if isinstance(e, ast.Attribute):
                return self.expr(d, e.value, have)
            return have
        if isinstance(e, ast.Attribute):
            have = self.expr(d, e.value, have)
            c = d.type_of(e.value)
            for f in d.methods(c, e.attr) if c is not None else ():
                if f.is_property:
                    self.walk(f, have)
            return have
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                have = self.expr(d, x, have)
        return have

    # ------------------------------------------------------------------ order
    def start(self):
        """Assigned once the message is read, whatever the message."""
        got = set()
        for c in plugin_classes(self.p):
            have = frozenset()
            for n in ("check_start", "extract_metadata", "parsed_metadata"):
                f = c.find(n)
                if f is None or f.cls is self.t.base:
                    continue
                r = self.walk(f, have)
                if n != "extract_metadata":
                    have = r
            got |= have
        return frozenset(got)

    def flags(self):
        """Flags reset for each message that, once true, tell that other
        places were assigned."""
        writes = {}
        first = set()
        for c in plugin_classes(self.p):
            f = c.find("check_start")
            if f is not None and f.cls is not self.t.base:
                first |= set(self.walk(f, frozenset()))
        for f in self.reach.values():
            d = self.dep(f)
            for b in f.body:
                for n in ast.walk(b):
                    for slot, v in self.stores(d, n):
                        if slot in self.slots:
                            writes.setdefault(slot, []).append((f, v))
        out = {}
        for slot, ws in writes.items():
            if slot not in first:
                continue
            got = None
            for f, v in ws:
                if isinstance(v, ast.Constant) and not v.value:
                    continue
                self.walk(f, frozenset())
                r = None
                for x in self.outs.get((id(f.node), frozenset()), ()):
                    if x is not None and slot in x:
                        r = self.both(r, x)
                got = self.both(got, r or frozenset())
            resets = [v for f, v in ws if f.name == "check_start"]
            if got and all(isinstance(v, ast.Constant) and not v.value
                           for v in resets):
                out[slot] = frozenset(got)
        return out

    def stores(self, d, n):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    s = self.slot(d, t)
                    if s is not None:
                        yield s, n.value
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for x in t.elts:
                        s = self.slot(d, x) if isinstance(
                            x, (ast.Attribute, ast.Subscript)) else None
                        if s is not None:
                            yield s, None
        elif isinstance(n, ast.AugAssign):
            s = self.slot(d, n.target)
            if s is not None:
                yield s, None
        elif isinstance(n, ast.Call):
            s = d.data_slot(n)
            if s is not None and n.args and \
                    d.bound(n.func).attr.startswith("set"):
                yield s, n.args[-1]

    def run(self):
        more = set()
        for f in self.reach.values():
            d = self.dep(f)
            for b in f.body:
                for n in ast.walk(b):
                    for slot, v in self.stores(d, n):
                        if isinstance(v, ast.Constant):
                            more.add(slot)
        self.slots = self.asked | more
        self.implied = self.flags()
        self.memo, self.truth, self.found = {}, {}, {}
        base = self.start()
        called = set()
        for i, fs in self.t.calls.items():
            if i in self.reach:
                called |= {j for j in fs if j != i}
        order = ("check_start", "extract_metadata", "parsed_metadata")
        roots = [f for i, f in self.reach.items()
                 if (i in self.t.entry or i not in called) and
                 not (i in self.t.entry and f.name in order)]
        for f in roots:
            self.walk(f, base)
        for i, f in self.reach.items():
            if i not in self.visited:
                self.walk(f, base)
        return base


def restored(f):
    """Attributes of self given back their value in a finally."""
    out = set()
    ps = f.params()
    if not ps:
        return out

    def me(e):
        return e.attr if isinstance(e, ast.Attribute) and isinstance(
            e.value, ast.Name) and e.value.id == ps[0] else None
    saved, old = {}, None
    while old != saved:
        old = dict(saved)
        for b in f.body:
            for n in ast.walk(b):
                if not isinstance(n, ast.Assign) or not isinstance(
                        n.targets[0], ast.Name):
                    continue
                if me(n.value):
                    saved[n.targets[0].id] = me(n.value)
                elif isinstance(n.value, ast.Name) and n.value.id in saved:
                    saved[n.targets[0].id] = saved[n.value.id]
    for b in f.body:
        for n in ast.walk(b):
            if isinstance(n, ast.Try):
                for s in n.finalbody:
                    if isinstance(s, ast.Assign) and isinstance(
                            s.value, ast.Name) and saved.get(
                                s.value.id) and me(s.targets[0]) == \
                            saved[s.value.id]:
                        out.add(saved[s.value.id])
    return out


def show(slot):
    if slot[0] == "attr":
        return "%s.%s" % (slot[1].rsplit(".", 1)[1], slot[2])
    if slot[0] == "data":
        return "%s[%r]" % (slot[1], slot[2])
    if slot[0] == "glob":
        return "%s.%s" % slot[1:]
    return "the default of %s in %s" % (slot[2], slot[1])


@check("P01", "Checking one message leaves no trace visible to another")
def p01(ctx):
    t = Traces(ctx)
    ctx.note("rounds", t.run())
    reach = t.reach()
    quals = {f.qual: f for f in reach.values()}
    slots = {}
    for (slot, how, place), line in sorted(t.writes.items(), key=str):
        f = quals.get(place)
        if f is None:
            continue
        if slot[0] == "attr" and slot[2] in restored(f):
            ctx.ok("scoped", "%s:%s" % (place, slot[2]))
            continue
        slots.setdefault(slot, []).append((place, how, line))
    r = Reads(t, reach, slots)
    base = r.run()
    for slot, ws in sorted(slots.items(), key=str):
        where = "; ".join(sorted({"%s (%s, line %s)" % w for w in ws}))
        seen = r.found.get(slot)
        if slot[0] == "default" or slot[-1] in (None, "*"):
            seen = seen or {("any later call", 0)}
        if seen:
            ctx.bad("trace", show(slot),
                    "%s keeps what one message gave it - written by %s - "
                    "and is read for a later message by %s" % (
                        show(slot), where, ", ".join(
                            "%s (line %s)" % x for x in sorted(seen))))
        else:
            ctx.ok("trace", show(slot))
    for f in reach.values():
        ctx.ok("function", f.qual)
    ctx.note("places written for a message", len(slots))
    ctx.note("assigned at the start of each message", len(base))
    ctx.note("functions that run for a message", len(reach))
    ctx.saw(f.qual for f in reach.values())
    ctx.floor("functions that run for a message", len(reach), 300)
    ctx.floor("hooks and rule functions", len(t.entry), 120)
    ctx.floor("reads of such places", r.loads, 5)
