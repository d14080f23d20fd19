"""P13: message data is never used as code.

A whole-program taint analysis, flow-sensitive within a function and by
summaries between functions.  Labels of a value:

  "M"      taken from a message        ("p", i)   from parameter i
  "E"      the same after re.escape    ("q", i)   the same after re.escape
"""
import ast

from ..core import check
from ..model import AnalysisError, dotted

KINDS = {
    "regex": "used as a regular expression without escaping",
    "code": "evaluated or compiled as program code",
    "command": "run as (a part of) a command",
    "sql": "used as the text of a database statement",
    "file": "used to choose a file",
    "pickle": "deserialised",
    "name": "used as the name of an attribute or module of the program",
}

RE = {"re." + x: "regex" for x in (
    "compile", "search", "match", "fullmatch", "sub", "subn", "split",
    "findall", "finditer", "template")}
EXT = dict(RE)
EXT.update({x: "code" for x in ("eval", "exec", "compile", "execfile",
                                "code.interact", "ast.literal_eval_")})
EXT.update({x: "name" for x in ("__import__", "importlib.import_module",
                                "imp.load_source", "runpy.run_path")})
EXT.update({x: "command" for x in (
    "os.system", "os.popen", "os.execv", "os.execve", "os.execvp",
    "os.execl", "os.execlp", "os.spawnv", "os.spawnl", "os.startfile",
    "commands.getoutput", "pty.spawn")})
EXT.update({"subprocess." + x: "command" for x in (
    "Popen", "call", "check_call", "check_output", "run", "getoutput",
    "getstatusoutput")})
EXT.update({x: "file" for x in (
    "open", "io.open", "codecs.open", "os.open", "os.remove", "os.unlink",
    "os.rename", "os.mkdir", "os.makedirs", "os.rmdir", "os.listdir",
    "os.path.exists", "os.path.isfile", "shutil.rmtree", "shutil.copy",
    "shutil.move", "zipfile.ZipFile", "sqlite3.connect", "io.FileIO",
    "gzip.open", "bz2.open", "shelve.open", "os.stat", "os.chmod")})
EXT.update({x: "pickle" for x in (
    "pickle.loads", "pickle.load", "cPickle.loads", "cPickle.load",
    "marshal.loads", "marshal.load", "yaml.load", "yaml.unsafe_load",
    "pickle.Unpickler", "dill.loads")})
EXT.update({"sqlalchemy.text": "sql", "sqlalchemy.sql.text": "sql",
            "sqlalchemy.sql.expression.text": "sql"})
ARG1 = {"getattr": "name", "setattr": "name", "delattr": "name"}
METHODS = {"execute": "sql", "executemany": "sql", "executescript": "sql"}

CLEAN = {
    "len", "int", "float", "bool", "isinstance", "issubclass", "hash", "id",
    "ord", "type", "abs", "round", "hex", "time.time", "callable", "hasattr",
    "any", "all", "bin", "oct", "range", "struct.unpack",
    "binascii.crc32", "zlib.crc32", "ipaddress.ip_address",
    "ipaddress.ip_network", "ipaddress.IPv4Address",
    "ipaddress.IPv6Address", "email.utils.mktime_tz", "email.utils.mktime",
}
CLEAN_METH = {"hexdigest", "startswith", "endswith", "isdigit", "isalpha",
              "isupper", "islower", "isspace", "count", "find", "rfind",
              "index", "start", "end", "span", "isalnum", "__contains__",
              "is_private", "timestamp", "total_seconds", "isdecimal"}
STORE_METH = {"append", "add", "insert", "extend", "update", "setdefault",
              "appendleft", "push", "put", "__setitem__"}
GET = {"get_global", "get_local", "get_data", "get_plugin_data"}
SET = {"set_global", "set_local", "set_data", "set_plugin_data"}
COMMON = {"get", "items", "keys", "values", "pop", "join", "split", "strip",
          "read", "close", "format", "encode", "decode", "replace", "lower",
          "upper", "sort", "copy", "write", "search", "match", "sub",
          "findall", "finditer", "group", "groups", "index", "remove",
          "compile", "has_key", "fullmatch", "subn", "iteritems", "filter"}

NONE = frozenset()
M = frozenset(["M"])


def escaped(ls):
    return frozenset("E" if x == "M" else ("q", x[1]) if x[0] == "p" else x
                     for x in ls)


class Summary(object):
    def __init__(self):
        self.ret = NONE
        self.sinks = {}        # (i, was escaped) -> {(kind, where, text)}
        self.stores = {}       # (i, was escaped) -> {(table, key)}

    def key(self):
        return (self.ret, tuple(sorted(
            (repr(k), len(v)) for t in (self.sinks, self.stores)
            for k, v in t.items())))


class Taint(object):
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        self.sum = {}
        self.attr = {}         # (class, name) -> labels
        self.byname = {}       # name -> labels over the classes
        self.data = {}         # ("conf"/"data", key) -> labels
        self.glob = {}
        self.envs = {}         # closures: function -> everything bound in it
        self.hits = {}
        self.sites = {}
        self.changed = True
        self.message = self.p.cls("oa.message.Message")
        self.regex = None
        self.base = self.p.cls("oa.plugins.base.BasePlugin")
        self.conf = self.p.cls("oa.conf.Conf")

    # ----------------------------------------------------------------- tables
    def add(self, table, k, ls, summary=None):
        if summary is not None:
            for x in ls:
                if x not in ("M", "E"):
                    summary.stores.setdefault(
                        (x[1], x[0] == "q"), set()).add((table, k))
        table = getattr(self, table)
        ls = frozenset(x for x in ls if x in ("M", "E"))
        old = table.get(k, NONE)
        if not ls <= old:
            table[k] = old | ls
            self.changed = True

    def summary(self, f):
        return self.sum.setdefault(id(f.node), Summary())

    def family(self, c):
        return [k for k in c.mro() if not isinstance(k, str)] + list(
            c.all_subs())

    def load_attr(self, c, name):
        if c is not None:
            out = NONE
            for k in self.family(c):
                out |= self.attr.get((k.qual, name), NONE)
            return out
        return self.byname.get(name, NONE)

    def store_attr(self, c, name, ls, summary=None):
        self.add("attr", (c.qual if c is not None else "*", name), ls,
                 summary)
        if c is None or not c.is_sub(self.conf):
            self.add("byname", name, ls, summary)

    # --------------------------------------------------------------- fixpoint
    def run(self):
        fs = [f for f in self.p.all_funcs()
              if not (f.cls is not None and f.cls.qual == "oa.regex.Regex")]
        rounds = 0
        while self.changed and rounds < 40:
            self.changed = False
            rounds += 1
            self.hits, self.sites = {}, {}
            for f in fs:
                s = self.summary(f)
                k = s.key()
                Fun(self, f).run()
                if s.key() != k:
                    self.changed = True
            for m in self.p.modules.values():
                ModuleBody(self, m).run()
        if self.changed:
            raise AnalysisError("the flow of message data does not settle")
        return rounds

    def roots(self, f):
        """Parameters that carry message data whoever calls."""
        ps = f.params()
        if f.cls is not None:
            if f.cls.is_sub(self.message) and f.name == "__init__":
                return ps[2:] if len(ps) > 2 else ps[1:]
            if f.cls.is_sub(self.base) and f.name == "extract_metadata":
                return ps[2:]
            if any("HTMLParser" in str(b) for b in f.cls.ext_bases()) and \
                    f.name.startswith(("handle_", "unknown_", "parse_")):
                return ps[1:]
        return []


class Fun(object):
    def __init__(self, t, f):
        self.t, self.f = t, f
        self.m = f.module
        self.s = t.summary(f)
        self.all = {}
        self.imports = {}
        for b in f.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Import):
                    for a in x.names:
                        self.imports[a.asname or a.name.split(".")[0]] = \
                            a.name if a.asname else a.name.split(".")[0]
                elif isinstance(x, ast.ImportFrom) and x.module:
                    for a in x.names:
                        self.imports[a.asname or a.name] = \
                            x.module + "." + a.name
        self.me = None
        ps = f.params()
        if f.cls is not None and ps and not f.is_static and f.parent is None:
            self.me = ps[0]
        elif f.parent is not None:
            g = f
            while g.parent is not None:
                g = g.parent
            gp = g.params()
            if g.cls is not None and gp and not g.is_static:
                self.me = gp[0]

    def run(self):
        f = self.f
        env = dict(self.t.envs.get(id(f.parent.node), {})) if f.parent is not \
            None else {}
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            ps.append(a.vararg.arg)
        if a.kwarg:
            ps.append(a.kwarg.arg)
        self.ps = ps
        roots = self.t.roots(f)
        for i, x in enumerate(ps):
            env[x] = M if x in roots else frozenset([("p", i)])
        if self.me in ps and f.parent is None:
            env[self.me] = NONE
        if isinstance(f.node, ast.Lambda):
            self.s.ret |= self.ev(f.node.body, env)
        else:
            self.block(f.body, env)
        known = {k: frozenset(x for x in v if x in ("M", "E"))
                 for k, v in self.all.items()}
        if self.t.envs.get(id(f.node)) != known:
            self.t.envs[id(f.node)] = known
            self.t.changed = True

    # -------------------------------------------------------------- statements
    def bind(self, env, k, ls):
        env[k] = ls
        self.all[k] = self.all.get(k, NONE) | ls

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return {k: a.get(k, NONE) | b.get(k, NONE) for k in set(a) | set(b)}

    def block(self, stmts, env):
        """-> the environment after it, None if it is never reached."""
        for s in stmts:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import,
                          ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return env
        if isinstance(s, ast.Assign):
            ls = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, s.value, ls, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, s.value, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            ls = self.ev(s.value, env)
            t = s.target
            old = self.ev(_load(t), env)
            self.assign(t, s.value, ls | old, env)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.s.ret |= self.ev(s.value, env)
            return None
        elif isinstance(s, ast.Raise):
            for x in (s.exc, s.cause):
                if x is not None:
                    self.ev(x, env)
            return None
        elif isinstance(s, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1].append(dict(env))
            return None
        elif isinstance(s, ast.If):
            self.ev(s.test, env)
            return self.join(self.block(s.body, dict(env)),
                             self.block(s.orelse, dict(env)))
        elif isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            return self.loop(s, env)
        elif isinstance(s, ast.Try):
            before = dict(env)
            seen = dict(self.all)
            after = self.block(s.body, env)
            mid = dict(before)
            for k, v in self.all.items():
                if v != seen.get(k, NONE) or k in before:
                    mid[k] = before.get(k, NONE) | (
                        v if v != seen.get(k, NONE) else NONE)
            mid = self.join(mid, after)
            if after is not None:
                after = self.block(s.orelse, after)
            for h in s.handlers:
                e = dict(mid)
                if h.type is not None:
                    self.ev(h.type, e)
                if h.name:
                    self.bind(e, h.name, NONE)
                after = self.join(after, self.block(h.body, e))
            if s.finalbody:
                if after is None:
                    self.block(s.finalbody, mid)
                    return None
                after = self.block(s.finalbody, after)
            return after
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                ls = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, i.context_expr, ls, env)
            return self.block(s.body, env)
        elif isinstance(s, ast.Assert):
            self.ev(s.test, env)
        elif isinstance(s, ast.Delete):
            pass
        return env

    loops = ()

    def loop(self, s, env):
        if isinstance(self.loops, tuple):
            self.loops = []
        self.loops.append([])
        cur = dict(env)
        for _ in range(4):
            e = dict(cur)
            if isinstance(s, ast.While):
                self.ev(s.test, e)
            else:
                self.assign(s.target, None, self.elem(s.iter, e), e)
            e = self.block(s.body, e)
            new = self.join(cur, e)
            for x in self.loops[-1]:
                new = self.join(new, x)
            if new == cur:
                break
            cur = new
        self.loops.pop()
        return self.block(s.orelse, cur)

    def elem(self, it, env):
        return self.ev(it, env)

    def assign(self, t, value, ls, env):
        if isinstance(t, ast.Name):
            if any(isinstance(x, ast.Global) and t.id in x.names
                   for b in self.f.body for x in ast.walk(b)):
                self.t.add("glob", (self.m.name, t.id), ls, self.s)
                return
            self.bind(env, t.id, ls)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(
                    value.elts) == len(t.elts) and not any(
                        isinstance(x, ast.Starred)
                        for x in t.elts + value.elts):
                vals = [self.ev(v, env) for v in value.elts]
                for x, v, l in zip(t.elts, value.elts, vals):
                    self.assign(x, v, l, env)
                return
            for x in t.elts:
                self.assign(x, None, ls, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, None, ls, env)
        elif isinstance(t, ast.Attribute):
            self.ev(t.value, env)
            self.t.store_attr(self.type_of(t.value), t.attr, ls, self.s)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice, env)
            self.put(t.value, ls | self.keys(t.slice, env), env, t.slice)

    def keys(self, k, env):
        return self.ev(k, env)

    def put(self, box, ls, env, key=None):
        """Something gets into a container."""
        if isinstance(box, ast.Name):
            if box.id == self.me and key is not None:
                self.t.add("data", ("data", _const(key)), ls, self.s)
                return
            if box.id in env:
                self.bind(env, box.id, env[box.id] | ls)
            else:
                self.t.add("glob", (self.m.name, box.id), ls, self.s)
        elif isinstance(box, ast.Attribute):
            self.t.store_attr(self.type_of(box.value), box.attr, ls, self.s)
        elif isinstance(box, ast.Subscript):
            self.put(box.value, ls, env, box.slice)
        elif isinstance(box, ast.Call) and isinstance(
                box.func, ast.Attribute) and box.func.attr in GET:
            k = self.data_key(box)
            self.t.add("data", ("data", k), ls, self.s)
        elif isinstance(box, ast.Call) and isinstance(
                box.func, ast.Attribute):
            self.put(box.func.value, ls, env)

    def type_of(self, e):
        if isinstance(e, ast.Name):
            if e.id == self.me:
                return self.f.cls
            if e.id in ("msg", "message") and e.id in getattr(
                    self, "ps", ()):
                return self.t.message
        return None

    @staticmethod
    def data_key(call):
        for a in list(call.args)[::-1] if call.func.attr.startswith(
                "get") else call.args:
            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                return a.value
        return None

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        if e is None or isinstance(e, ast.Constant):
            return NONE
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            return self.t.glob.get((self.m.name, e.id), NONE)
        if isinstance(e, ast.Attribute):
            ls = self.ev(e.value, env)
            c = self.type_of(e.value)
            if isinstance(e.value, ast.Name) and e.value.id == self.me:
                ls = NONE
            out = ls | self.t.load_attr(c, e.attr)
            fs = self.methods(c, e.attr) if c is not None else [
                f for f in self.t.p.by_method.get(e.attr, ())
                if f.is_property]
            for f in fs:
                if f.is_property:
                    out |= self.apply(f, [ls], {}, e, True)
            return out
        if isinstance(e, ast.Subscript):
            self.ev(e.slice, env)
            if isinstance(e.value, ast.Name) and e.value.id == self.me and \
                    e.value.id not in ("dict",):
                return self.get_data(_const(e.slice))
            return self.ev(e.value, env)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.Compare):
            self.ev(e.left, env)
            for c in e.comparators:
                self.ev(c, env)
            return NONE
        if isinstance(e, ast.UnaryOp):
            ls = self.ev(e.operand, env)
            return NONE if isinstance(e.op, ast.Not) else ls
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            env = dict(env)
            for g in e.generators:
                self.assign(g.target, None, self.elem(g.iter, env), env)
                for c in g.ifs:
                    self.ev(c, env)
            if isinstance(e, ast.DictComp):
                return self.ev(e.key, env) | self.ev(e.value, env)
            return self.ev(e.elt, env)
        if isinstance(e, ast.Lambda):
            return NONE
        if isinstance(e, ast.NamedExpr):
            ls = self.ev(e.value, env)
            self.assign(e.target, e.value, ls, env)
            return ls
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            ls = self.ev(e.value, env) if e.value is not None else NONE
            if not isinstance(e, ast.Await):
                self.s.ret |= ls
            return ls
        if isinstance(e, ast.IfExp):
            self.ev(e.test, env)
            return self.ev(e.body, env) | self.ev(e.orelse, env)
        out = NONE
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                out |= self.ev(x, env)
        return out

    def get_data(self, key):
        if key is None:
            out = NONE
            return out
        return self.t.data.get(("data", key), NONE)

    def methods(self, c, name):
        if c is None:
            return []
        out = []
        f = c.find(name)
        if f is not None:
            out.append(f)
        for k in c.all_subs():
            if name in k.methods and k.methods[name] not in out:
                out.append(k.methods[name])
        return out

    def targets(self, e, env):
        """(project functions, external name or None, with receiver?)"""
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id in env and not (
                self.t.p.nested(self.f)):
            return [], None, False
        if isinstance(fn, ast.Name):
            g = self.f
            while g is not None:
                for n, nf in self.t.p.nested(g).items():
                    if nf.name == fn.id:
                        return [nf], None, False
                g = g.parent
        d = dotted(fn)
        if d and d.split(".")[0] in self.imports:
            top, _, more = d.partition(".")
            d = self.imports[top] + ("." + more if more else "")
            try:
                return [self.t.p.func(d)], None, False
            except Exception:
                pass
            try:
                return [], ("class", self.t.p.cls(d)), False
            except Exception:
                return [], d, False
        ents = self.t.p.resolve_expr(self.m, fn) if not (
            isinstance(fn, ast.Attribute) and isinstance(
                fn.value, ast.Name) and fn.value.id in env) else []
        fs, ext, rec = [], None, False
        for x in ents:
            if x[0] == "func":
                fs.append(x[1])
                rec = rec or (x[1].cls is not None and x[1].is_class)
            elif x[0] == "class":
                ext = ext or ("class", x[1])
            elif x[0] == "ext":
                ext = x[1]
        if fs or ext:
            return fs, ext, rec
        if isinstance(fn, ast.Attribute):
            c = self.type_of(fn.value)
            if isinstance(fn.value, ast.Call) and isinstance(
                    fn.value.func, ast.Name) and fn.value.func.id == "super":
                c = self.f.cls
            if c is not None:
                fs = self.methods(c, fn.attr)
                if fs:
                    return fs, None, True
            if fn.attr not in COMMON and fn.attr not in STORE_METH:
                return [f for f in self.t.p.by_method.get(fn.attr, ())
                        if not f.is_property], None, True
        return [], None, True

    def call(self, e, env):
        fn = e.func
        recv = self.ev(fn.value, env) if isinstance(fn, ast.Attribute) \
            else NONE
        args = [self.ev(a, env) for a in e.args]
        kws = {k.arg: self.ev(k.value, env) for k in e.keywords}
        every = NONE
        for x in args + list(kws.values()):
            every |= x
        lam = [a for a in list(e.args) + [k.value for k in e.keywords]
               if isinstance(a, ast.Lambda)]
        for l in lam:
            inner = dict(env)
            for x in l.args.args:
                inner[x.arg] = every | recv
            every |= self.ev(l.body, inner)
        if isinstance(fn, ast.Attribute) and fn.attr in GET:
            return self.get_data(self.data_key(e))
        if isinstance(fn, ast.Attribute) and fn.attr in SET:
            if args:
                self.t.add("data", ("data", self.data_key(e)), args[-1],
                           self.s)
            return NONE
        fs, ext, rec = self.targets(e, env)
        if isinstance(ext, tuple):
            c = ext[1]
            if c.qual == "oa.regex.Regex":
                a = args[0] if args else kws.get("pattern", NONE)
                self.sink("regex", a, e)
                return NONE
            ini = c.find("__init__")
            if ini is not None:
                self.apply(ini, [NONE] + args, kws, e, True)
            return NONE
        if ext is not None:
            if ext == "re.escape":
                return escaped(every)
            if ext in EXT:
                a = args[0] if args else next(iter(kws.values()), NONE)
                if EXT[ext] == "command":
                    a = NONE
                    for x in args:
                        a |= x
                    for k, v in kws.items():
                        if k not in ("input", "stdin"):
                            a |= v
                self.sink(EXT[ext], a, e)
                if EXT[ext] == "regex":
                    if ext == "re.compile":
                        return NONE
                    return every
            elif ext in ARG1 and len(args) > 1:
                self.sink(ARG1[ext], args[1], e)
            if ext in CLEAN:
                return NONE
            if ext in ("map", "filter") and e.args and isinstance(
                    e.args[0], (ast.Name, ast.Attribute)):
                g = self.t.p.resolve_expr(self.m, e.args[0])
                if any(x[0] == "ext" and x[1] == "re.escape" for x in g):
                    return escaped(every)
                out = every
                for x in g:
                    if x[0] == "func":
                        out = self.apply(x[1], args[1:], {}, e, False)
                return out
            if ext.startswith("email.message_from"):
                return M
            return every | recv
        if fs:
            out = NONE
            for f in fs:
                a = ([recv] if rec and f.cls is not None and
                     not f.is_static else []) + args
                out |= self.apply(f, a, kws, e, rec)
            return out
        if isinstance(fn, ast.Attribute):
            if fn.attr in METHODS and args:
                self.sink(METHODS[fn.attr], args[0], e)
                return NONE
            if fn.attr in CLEAN_METH:
                return NONE
            if fn.attr in STORE_METH:
                self.put(fn.value, every, env)
            return recv | every
        return every | self.ev(fn, env)

    def apply(self, f, args, kws, e, rec):
        """Use the summary of a function."""
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        npos = len(a.posonlyargs + a.args)
        val = {}
        star = any(isinstance(x, ast.Starred) for x in getattr(
            e, "args", ()))
        rest = NONE
        for i, ls in enumerate(args):
            if star:
                rest |= ls
            elif i < npos:
                val[i] = ls
            elif a.vararg:
                j = len(ps)
                val[j] = val.get(j, NONE) | ls
        for k, ls in kws.items():
            if k in ps:
                val[ps.index(k)] = ls
            elif k is None:
                rest |= ls
            elif a.kwarg:
                j = len(ps) + (1 if a.vararg else 0)
                val[j] = val.get(j, NONE) | ls
        if rest:
            for i in range(len(ps) + bool(a.vararg) + bool(a.kwarg)):
                val[i] = val.get(i, NONE) | rest
        s = self.t.summary(f)

        def sub(ls):
            out = NONE
            for x in ls:
                if x in ("M", "E"):
                    out |= {x}
                elif x[0] == "p":
                    out |= val.get(x[1], NONE)
                else:
                    out |= escaped(val.get(x[1], NONE))
            return out
        for (i, esc), where in list(s.sinks.items()):
            ls = val.get(i, NONE)
            if esc:
                ls = escaped(ls)
            for kind, place, text in where:
                self.reach(kind, ls, place, text, e)
        for (i, esc), where in list(s.stores.items()):
            ls = val.get(i, NONE)
            if esc:
                ls = escaped(ls)
            if ls:
                for table, k in list(where):
                    self.t.add(table, k, ls, self.s)
        return sub(s.ret)

    def sink(self, kind, ls, e):
        place = self.f.qual
        text = dotted(e.func) or "call"
        self.t.sites[(place, e.lineno, e.col_offset, kind)] = text
        self.reach(kind, ls, place, text, e)

    def reach(self, kind, ls, place, text, e):
        for x in ls:
            if x == "M" or x == "E" and kind != "regex":
                self.t.hits.setdefault((kind, place, text), set()).add(
                    "%s:%s" % (self.m.rel, getattr(e, "lineno", 0)))
            elif x not in ("M", "E"):
                k = (x[1], x[0] == "q")
                if x[0] == "q" and kind == "regex":
                    continue
                self.s.sinks.setdefault(k, set()).add((kind, place, text))


class ModuleBody(Fun):
    def __init__(self, t, m):
        class F(object):
            module, cls, parent, qual, body = m, None, None, m.name, \
                m.tree.body
        F.name = "<module>"
        self.t, self.f, self.m = t, F, m
        self.s = Summary()
        self.all, self.me, self.ps = {}, None, ()

    def run(self):
        env = {}
        for s in self.f.body:
            if isinstance(s, (ast.Assign, ast.AugAssign)):
                e = self.stmt(s, env)
                env = e if e is not None else env
        for k, v in env.items():
            self.t.add("glob", (self.m.name, k), v)

    def targets(self, e, env):
        ents = self.t.p.resolve_expr(self.m, e.func)
        for x in ents:
            if x[0] == "ext":
                return [], x[1], False
            if x[0] == "class":
                return [], ("class", x[1]), False
            if x[0] == "func":
                return [x[1]], None, False
        return [], None, True


def _const(e):
    return e.value if isinstance(e, ast.Constant) else None


def _load(t):
    import copy
    t = copy.copy(t)
    if hasattr(t, "ctx"):
        t.ctx = ast.Load()
    return t


@check("P13", "Message content is never executed or used as code")
def p13(ctx):
    t = Taint(ctx)
    rounds = t.run()
    ctx.note("rounds", rounds)
    kinds = {}
    for (place, line, col, kind), text in sorted(t.sites.items()):
        kinds[kind] = kinds.get(kind, 0) + 1
        if (kind, place, text) not in t.hits:
            ctx.ok(kind, "%s:%s" % (place, text))
    for (kind, place, text), where in sorted(t.hits.items()):
        ctx.bad(kind, "%s:%s" % (place, text),
                "data of a message is %s by %s in %s (from %s)" % (
                    KINDS[kind], text, place, ", ".join(sorted(where))))
    ctx.note("places", kinds)
    ctx.note("tainted attributes", len(t.attr))
    ctx.saw(x.qual for x in t.p.all_funcs())
    ctx.floor("places where a text becomes an expression",
              kinds.get("regex", 0), 80)
    ctx.floor("places where a file is chosen", kinds.get("file", 0), 5)
    ctx.floor("places where a statement is run", kinds.get("sql", 0), 10)
    ctx.floor("places where code is run", kinds.get("code", 0), 2)
    ctx.floor("attributes holding message data", len(t.attr), 10)
