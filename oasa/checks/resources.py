"""P16: what is opened is closed on every path, and not used afterwards."""
import ast

from ..absint import FALSE, NONE, TRUE, contains, is_const, show
from ..core import check
from ..model import AnalysisError
from ..util import BasePolicy, deep, names_in, path_str, run, size
from .protocol import meth_name

# what opens something: dotted external names -> kind
OPENERS = {
    "open": "file", "io.open": "file", "codecs.open": "file",
    "os.fdopen": "file", "gzip.open": "file", "bz2.open": "file",
    "os.open": "file", "lzma.open": "file", "tarfile.open": "file",
    "zipfile.ZipFile": "file", "mmap.mmap": "file",
    "tempfile.TemporaryFile": "file", "tempfile.NamedTemporaryFile": "file",
    "tempfile.SpooledTemporaryFile": "file",
    "socket.socket": "socket", "socket.create_connection": "socket",
    "smtplib.SMTP": "connection", "smtplib.SMTP_SSL": "connection",
    "smtplib.LMTP": "connection", "urllib.request.urlopen": "connection",
    "http.client.HTTPConnection": "connection",
    "http.client.HTTPSConnection": "connection",
    "pymysql.connect": "connection", "sqlite3.connect": "connection",
    "subprocess.Popen": "process",
}
OPEN_METHS = {"cursor": "cursor", "get_session": "session"}
CLOSERS = {
    "file": {"close"}, "socket": {"close"},
    "connection": {"close", "quit"}, "cursor": {"close"},
    "session": {"close"},
    "process": {"wait", "communicate", "kill", "terminate"},
    "timer": {"cancel", "join"}, "lock": {"release"},
}
# allowed on something already closed
HARMLESS = {"close", "poll", "cancel", "kill", "terminate", "wait", "quit",
            "join", "release", "fileno", "is_alive", "communicate",
            "returncode", "closed", "acquire", "start"}
SAFE_METHS = {"close", "cancel", "release", "kill", "terminate", "poll",
              "quit_"}
LOGS = {"debug", "info", "warning", "warn", "error", "critical", "exception",
        "log", "setLevel"}
RESOURCE_WORDS = {n.split(".")[-1] for n in OPENERS} | set(OPEN_METHS) | {
    "Timer", "acquire"}
TIE = {"tie_db_writeable", "tie_db_readonly"}
ALLWORDS = RESOURCE_WORDS | {"close", "quit", "release", "cancel",
                             "communicate", "wait", "kill", "terminate",
                             "closing", "poll"} | TIE | {
    "untie_db"}
CWU = ("sym", "CALLER_WILL_UNTIE", None)


def holds(v, t, depth=5):
    """Is (the ownership of) t part of this value?"""
    if v == t:
        return True
    if not isinstance(v, tuple) or not v or depth < 0:
        return False
    if v[0] in ("tuple", "closing", "lit", "cond"):
        return any(holds(x, t, depth - 1) for x in v[1:] +
                   (v[1] if v[0] == "tuple" else ())
                   if isinstance(x, tuple))
    if v[0] == "call":
        c = v[1]
        name = c[1].split(".")[-1] if c[0] == "ext" else \
            c[1].name if c[0] == "cls" else ""
        if name[:1].isupper():
            return any(holds(x[2] if x[0] == "kw" else x, t, depth - 1)
                       for x in v[2])
    return False


def self_owned(t):
    """Held by an object across calls (self.conn)."""
    return t[0] == "attr"


class Open(BasePolicy):
    """Monitor: frozenset of ('open', term, kind, where) / ('closed', term,
    kind) / ('timer', term) facts."""
    top_exc = True

    def __init__(self, p, fi, reach, owners, readers, bayes):
        BasePolicy.__init__(self, p)
        self.fi = fi
        self.reach = reach
        self.owners = owners
        self.readers = readers
        self.bayes = bayes
        self.sites = set()
        self.issues = {}
        self.returned = set()

    def init_mon(self):
        return frozenset()

    def inline(self, I, fi):
        if fi.name in ("get_session",):
            return False
        e = I.frames[0].fi
        if fi.is_cm:
            return True
        if fi.qual in self.owners and fi.module is e.module:
            return True
        return (fi.module is e.module or fi.cls is not None and
                e.cls is not None and fi.cls in e.cls.mro()) and \
            fi.qual in self.reach or \
            size(fi) <= 25 and fi.module is e.module

    def bad(self, key, msg, st):
        self.issues.setdefault(key, "%s (path %s)" % (msg, path_str(st)))

    # --------------------------------------------------------- the monitor
    def opened(self, st, t, kind, where):
        m = {x for x in st.mon if not (x[0] == "closed" and x[1] == t)}
        m.add(("open", t, kind, where))
        return st.with_mon(frozenset(m))

    def closed(self, st, t):
        m = set(st.mon)
        for x in list(m):
            if x[0] == "open" and (x[1] == t or x[2] == "cursor" and
                                   contains(x[1], lambda y: y == t)):
                m.discard(x)
                m.add(("closed", x[1], x[2]))
        return st.with_mon(frozenset(m))

    def gone(self, st, t):
        """Ownership passes to somebody else."""
        m = frozenset(x for x in st.mon if not (
            x[0] == "open" and holds(t, x[1])))
        return st if m == st.mon else st.with_mon(m)

    def kind(self, st, t):
        for x in st.mon:
            if x[0] in ("open", "closed") and x[1] == t:
                return x[2], x[0]
        return None, None

    def is_open(self, st, t):
        return any(x[0] == "open" and x[1] == t for x in st.mon)

    # --------------------------------------------------------------- hooks
    def where(self, I, node):
        f = I.frames[-1].fi
        return "%s:%s" % (f.qual, getattr(node, "lineno", "?"))

    def acquire(self, I, st, node, callee, args, kw, kind):
        t = ("call", callee, tuple(args) + tuple(
            ("kw", a, v) for a, v in sorted(kw.items())), I.site(node))
        self.sites.add((kind, self.where(I, node)))
        return [("ok", t, self.opened(st, t, kind, self.where(I, node))),
                ("exc", ("exc", "ANY", I.site(node)), st)]

    def on_call(self, I, st, node, callee, args, kw):
        name = meth_name(callee)
        ext = callee[1].replace("builtins.", "") if callee[0] == "ext" \
            else None
        if ext in OPENERS:
            return self.acquire(I, st, node, callee, args, kw, OPENERS[ext])
        if ext == "threading.Timer":
            t = ("call", callee, tuple(args), I.site(node))
            return [("ok", t, st.with_mon(st.mon | {("timer", t)}))]
        if ext == "contextlib.closing" and len(args) == 1:
            return [("ok", ("closing", args[0]), st)]
        recv = callee[1] if callee[0] in ("meth", "attr") else \
            callee[2] if callee[0] == "bm" else None
        if name in OPEN_METHS and not (callee[0] == "bm" and
                                       callee[1].qual == self.fi.qual):
            return self.acquire(I, st, node, callee, args, kw,
                                OPEN_METHS[name])
        if self.bayes and name in TIE:
            return self.tie(I, st, node)
        if self.bayes and name == "untie_db":
            return [("ok", NONE, self.closed(st, ("TIED",)))]
        if self.bayes and recv is not None and recv[0] == "attr" and \
                recv[2] == "store" and name not in ("cleanup", "untie_db"):
            if not self.is_open(st, ("TIED",)):
                self.bad("use-untied:%s" % name, "%s uses the database "
                         "(%s) although it is not connected" % (
                             self.where(I, node), name), st)
        if recv is not None and name is not None:
            k, state = self.kind(st, recv)
            if k is None and name == "start" and ("timer", recv) in st.mon:
                self.sites.add(("timer", self.where(I, node)))
                return [("ok", NONE, self.opened(st, recv, "timer",
                                                 self.where(I, node))),
                        ("exc", ("exc", "ANY", I.site(node)), st)]
            if k is None and name == "cancel" and ("timer", recv) in st.mon:
                return [("ok", NONE, st)]
            if name == "acquire":
                self.sites.add(("lock", self.where(I, node)))
                return [("ok", TRUE, self.opened(st, recv, "lock",
                                                 self.where(I, node)))]
            if k is None and name in ("close", "release") and \
                    callee[0] in ("meth", "attr"):
                # something held by this object
                if self_owned(recv):
                    return [("ok", NONE, self.drop(st, recv))]
                return [("ok", NONE, st)]
            if k is not None:
                if state == "closed" and name not in HARMLESS:
                    self.bad("use-closed:%s" % name, "%s uses %s after it "
                             "has been closed" % (self.where(I, node),
                                                  show(recv)[:60]), st)
                if k == "process" and name == "poll":
                    if state == "closed":
                        return [("ok", ("const", 0), st)]
                    return [("ok", ("const", 0), self.closed(st, recv)),
                            ("ok", NONE, st)]
                if name in CLOSERS[k]:
                    if name in ("close", "cancel", "release", "kill",
                                "terminate"):
                        return [("ok", NONE, self.closed(st, recv))]
                    v = ("call", callee, tuple(args), I.site(node))
                    return [("ok", v, self.closed(st, recv)),
                            ("exc", ("exc", "ANY", I.site(node)), st)]
        for a in list(args) + list(kw.values()):
            if self.kind(st, a)[1] == "closed" and \
                    self.kind(st, a)[0] not in ("process", "timer", "lock"):
                self.bad("use-closed:arg", "%s is given %s after it has been "
                         "closed" % (self.where(I, node), show(a)[:60]), st)
        if name in LOGS and recv is not None and contains(
                recv, lambda y: y[0] == "attr" and y[2] in (
                    "log", "logger") or y[0] == "call" and y[1] == (
                        "ext", "logging.getLogger") or
                y[0] == "sym" and y[1] in ("log", "logger")):
            return [("ok", NONE, st)]
        # handed to a collection
        if name in ("append", "add", "put", "setdefault", "insert",
                    "enter_context", "callback", "push") and args:
            st2 = st
            for a in args:
                st2 = self.gone(st2, a)
            if st2 is not st:
                return [("ok", ("call", callee, tuple(args), I.site(node)),
                         st2)]

    def tie(self, I, st, node):
        t = ("TIED",)
        self.sites.add(("database", self.where(I, node)))
        return [("ok", TRUE, self.opened(st, t, "connection",
                                         self.where(I, node))),
                ("ok", FALSE, st),
                ("exc", ("exc", "ANY", I.site(node)), st)]

    def drop(self, st, recv):
        return st.with_mon(st.mon | {("dropped", recv)})

    def on_attr_store(self, I, st, node, base, name, value):
        t = ("attr", base, name)
        mon = st.mon
        hold = self.holding(st, value)
        if hold:
            old = st.heap.get((base, "attr", name), t)
            if not (is_const(old) and not old[1]) and \
                    ("dropped", old) not in mon and \
                    I.known(("truthy", old), st) is not False and \
                    self.kind(st, old)[1] != "closed" and \
                    not self.fi.name == "__init__":
                self.bad("overwrite:%s" % name, "%s replaces what %s holds "
                         "without closing it first" % (
                             self.where(I, node), show(t)), st)
            return self.gone(st, value)
        if ("dropped", t) in mon:
            return st.with_mon(mon - {("dropped", t)})

    def on_global_store(self, I, st, node, mod, name, value):
        return self.gone(st, value)

    def on_item_store(self, I, st, node, base, key, value):
        return self.gone(st, value)

    def on_mutate(self, I, st, node, base, meth, args):
        for a in args:
            st = self.gone(st, a)
        return st

    def on_yield(self, I, st, node, value):
        if self.holding(st, value):
            self.returned.add(self.fi.qual)
        return self.gone(st, value)

    def on_with(self, I, st, node, ctx, enter):
        t = ctx[1] if ctx[0] == "closing" else ctx
        k, state = self.kind(st, t)
        if k is None:
            if contains(t, lambda y: y[0] == "attr" and
                        "lock" in y[2].lower()):
                self.sites.add(("lock", self.where(I, node)))
            return None
        if not enter:
            return self.closed(st, t)

    def on_iter(self, I, st, node, it, elem):
        if self.readers and isinstance(node, (ast.For, ast.AsyncFor)) and \
                isinstance(node.target, ast.Name) and \
                node.target.id in self.readers:
            w = "%s:%s" % (self.fi.qual, node.lineno)
            self.sites.add(("file", w))
            st = st.with_mon(frozenset(
                x for x in st.mon if not (x[0] == "closed" and
                                          x[1] == elem)))
            if self.is_open(st, elem):
                self.bad("leak:%s" % node.target.id, "a file taken from the "
                         "list of messages is not closed before the next "
                         "one", st)
            return self.opened(st, elem, "file", w)

    def holding(self, st, t):
        return any(x[0] == "open" and holds(t, x[1]) for x in st.mon)

    def on_branch(self, I, st, node, cond, pol):
        # an opened thing is true; None is not one
        if cond[0] in ("truthy", "isnone"):
            if self.kind(st, cond[1])[0] is not None and \
                    (cond[0] == "truthy") != pol:
                return False
        return None


def readers_of(fi):
    """Loop variables of a script's function that are read as files."""
    targets = {n.target.id for n in ast.walk(fi.node)
               if isinstance(n, ast.For) and isinstance(n.target, ast.Name)}
    out = set()
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr in ("read", "readlines", "readline") and \
                isinstance(n.func.value, ast.Name) and \
                n.func.value.id in targets:
            out.add(n.func.value.id)
    return out


def called_names(fi):
    out = set()
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Call):
            f = n.func
            out.add(f.attr if isinstance(f, ast.Attribute) else
                    getattr(f, "id", ""))
    return out


def ordinary(f):
    return not isinstance(f.node, ast.Lambda)


@check("P16", "Files, cursors and connections are released on every path")
def p16(ctx):
    p = ctx.p
    funcs = [f for f in p.funcs.values() if ordinary(f)]
    entries = {}
    for f in funcs:
        cn = called_names(f)
        rd = readers_of(f) if f.module.name.startswith("scripts") else set()
        if cn & RESOURCE_WORDS or rd or cn & TIE:
            entries[f.qual] = f
    # what a function is worth looking into for: it (or what it calls, in
    # the same module or class) deals with resources
    words = set(ALLWORDS)
    reach = {f.qual for f in funcs if called_names(f) & words}
    changed = True
    while changed:
        changed = False
        for f in funcs:
            if f.qual in reach:
                continue
            cn = called_names(f)
            for g in funcs:
                if g.qual in reach and g.module is f.module and \
                        g.name in cn:
                    reach.add(f.qual)
                    changed = True
                    break
    reach |= {f.qual for f in funcs if f.qual.startswith("oa.plugins.bayes.")
              and names_in(f) & {"store"} and f.name != "tokenise"}
    owners = set()
    todo = sorted(entries)
    done = set()
    kinds = {}
    while todo:
        q = todo.pop(0)
        if q in done:
            continue
        done.add(q)
        f = entries[q]
        ret = one(ctx, f, reach, owners, kinds)
        if ret:
            owners.add(q)
            for g in funcs:
                if g.module is f.module and f.name in called_names(g) and \
                        g.qual != q:
                    entries[g.qual] = g
                    done.discard(g.qual)
                    todo.append(g.qual)
    ctx.floor("functions that open something", len(done), 12)
    for k, n in (("file", 3), ("cursor", 5), ("connection", 2),
                 ("session", 2), ("process", 1), ("timer", 1),
                 ("database", 2)):
        ctx.floor("places opening a " + k, len(kinds.get(k, ())), n)


def one(ctx, f, reach, owners, kinds):
    p = ctx.p
    bayes = uses_store(p, f)
    rd = readers_of(f) if f.module.name.startswith("scripts") else set()
    pol = {}
    flag = None
    heap = {}
    if bayes:
        me = ("sym", "self", f.cls.qual)
        flag = untie_flag(p, f.cls)
        if flag:
            heap[(me, "attr", flag)] = CWU

    def mk():
        pol["p"] = Open(p, f, reach, owners, rd, bayes)
        return pol["p"]
    try:
        I, outs = run(mk, p, f, heap=heap)
    except AnalysisError as e:
        ctx.bad("released", f.qual, "cannot be decided: %s" % e)
        return False
    P = pol["p"]
    ctx.saw(I)
    ret = bool(P.returned)
    for k, v, st in outs:
        if bayes and flag:
            now = st.heap.get((me, "attr", flag), CWU)
            if now != CWU:
                P.bad("flag", "%s ends with %s still changed" % (
                    f.qual, flag), st)
        for x in st.mon:
            if x[0] == "dropped" and k == "ret" and not f.name == "__del__":
                P.bad("closed:%s" % show(x[1]), "%s closes %s but keeps it" %
                      (f.qual, show(x[1])), st)
            if x[0] != "open":
                continue
            t, kind, where = x[1:]
            if k == "ret" and holds(deep(v, st), t):
                ret = True
                continue
            if t == ("TIED",):
                if st.facts.get(("truthy", CWU)) is True:
                    continue
                if has_caller(p, f):
                    # the caller has to see to it
                    ret = True
                    continue
                P.bad("tied:%s" % where, "the database opened at %s is left "
                      "open when %s %s" % (where, f.qual, "raises"
                                           if k == "exc" else "returns"), st)
                continue
            if kind == "cursor" and k == "exc" and t[1][0] in (
                    "meth", "attr") and self_owned(t[1][1]):
                # goes with the connection the object holds
                continue
            P.bad("%s:%s" % (kind, where), "the %s opened at %s is still "
                  "open when %s %s" % (kind, where, f.qual, "raises"
                                       if k == "exc" else "returns"), st)
    for kd, w in P.sites:
        kinds.setdefault(kd, set()).add(w)
    if P.issues:
        for c, m in sorted(P.issues.items()):
            ctx.bad("released", f.qual + "#" + c, m)
    else:
        ctx.ok("released", f.qual)
    return ret


def uses_store(p, f):
    """A method of a class that connects its store to a database."""
    if f.cls is None or any(f.cls.find(n) for n in TIE):
        return False
    return any(called_names(g) & TIE for g in p.funcs.values()
               if g.cls is f.cls and ordinary(g))


def has_caller(p, f):
    """Is the function only called from its own class?"""
    inside = outside = 0
    for g in p.funcs.values():
        if not ordinary(g) or g.qual == f.qual or \
                f.name not in called_names(g):
            continue
        if g.cls is f.cls:
            inside += 1
        else:
            outside += 1
    return inside and not outside


def untie_flag(p, cls):
    for c in cls.mro():
        for n in c.node.body:
            if isinstance(n, ast.Assign) and isinstance(
                    n.targets[0], ast.Name) and \
                    "untie" in n.targets[0].id and isinstance(
                        n.value, ast.Constant):
                return n.targets[0].id
    return None
