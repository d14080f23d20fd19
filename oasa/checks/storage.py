"""P14: stored data is keyed to its owner and committed.

The statements the storage code issues are applied, as transformers, to an
abstract table (rows whose values are symbols).  The operations of the stores
are analysed on tables that hold the owner's row and, in front of it, rows
that differ from it in one key column each."""
import ast

from ..absint import NONE, is_const, show
from ..core import check
from ..model import AnalysisError
from ..sql import SqlError, Stmt, create_tables
from ..util import BasePolicy, path_str, run
from .protocol import meth_name
from .relays import mklist

# documented keys of the tables
KEYS = {"awl": ("username", "email", "signedby", "ip"),
        "bayes_seen": ("id", "msgid"), "bayes_token": ("id", "token")}
NOROW = "sqlalchemy.orm.exc.NoResultFound"


def sym(x):
    return ("sym", x, None)


def add(*xs):
    """A sum, in a normal form."""
    terms, c = [], 0

    def go(t, sign):
        nonlocal c
        if is_const(t) and isinstance(t[1], (int, float)) and \
                not isinstance(t[1], bool):
            c += sign * t[1]
        elif t[0] == "bin" and t[1] in ("Add", "Sub"):
            go(t[2], sign)
            go(t[3], sign if t[1] == "Add" else -sign)
        elif t[0] == "neg" or t[0] == "un" and t[1] == "USub":
            go(t[-1], -sign)
        elif t[0] == "lin":
            c += sign * t[2]
            terms.extend((s * sign, x) for s, x in t[1])
        else:
            terms.append((sign, t))
    for x in xs:
        go(x, 1)
    out = []
    for s, t in sorted(terms, key=repr):
        if (-s, t) in out:
            out.remove((-s, t))
        else:
            out.append((s, t))
    if not out:
        return ("const", c)
    if c == 0 and len(out) == 1 and out[0][0] == 1:
        return out[0][1]
    return ("lin", tuple(out), c)


def norm(t):
    """bytes(x), str(x), int(x) of a stored value is that value."""
    while t[0] == "pcall" and t[1] in ("bytes", "str", "int", "float",
                                       "six.text_type") and len(t[2]) == 1:
        t = t[2][0]
    if is_const(t) and isinstance(t[1], float) and t[1] == int(t[1]):
        t = ("const", int(t[1]))
    if t[0] in ("bin", "lin", "un", "neg"):
        return add(t)
    return t


def row(**kw):
    return tuple(sorted((k, v if isinstance(v, tuple) else ("const", v))
                        for k, v in kw.items()))


def called(t):
    """(receiver, method, arguments) of a method call term."""
    if t[0] == "mcall":
        return t[1], t[2], t[3]
    if t[0] == "call" and t[1][0] in ("meth", "attr"):
        return t[1][1], t[1][2], t[2]
    return None


class Tables(BasePolicy):
    """Monitor: (tables now, tables as committed, results, objects of the
    open session, number of rows made so far).  Tables: tuple of (table, row
    id, row)."""
    known_exc = True
    max_states = 4000

    def __init__(self, p, mods, db, issue, schema, models):
        BasePolicy.__init__(self, p)
        self.mods = tuple(mods)
        self.db = tuple((t, i, r) for i, (t, r) in enumerate(db))
        self.issue = issue
        self.schema = schema
        self.models = models       # class qual -> table
        self.statements = 0

    def init_mon(self):
        return (self.db, self.db, (), (), 100)

    def inline(self, I, fi):
        return fi.module.name in self.mods and not fi.is_cm

    # ---- values
    def items(self, st, t):
        """Parameters of a statement."""
        if t is None or t == NONE:
            return ()
        if t[0] == "tuple":
            return t[1]
        if t[0] == "const" and isinstance(t[1], (tuple, list)):
            return tuple(("const", x) for x in t[1])
        if t[0] == "obj" and t[2] == "dict":
            ks = st.heap.get((t, "dkeys"))
            if ks is not None:
                return {k[1]: st.heap.get((t, "item", k)) for k in ks[1]}
            return {k[2][1]: v for k, v in st.heap.items()
                    if k[0] == t and k[1] == "item" and is_const(k[2])}
        if t[0] == "obj" and t[2] == "list":
            ex = st.heap.get((t, "exact"))
            if ex is not None:
                return ex[1]
        return None

    def value(self, e, params, r):
        k = e[0]
        if k == "ph":
            v = params[e[1]]
            return norm(v)
        if k == "col":
            d = dict(r or ())
            if e[1] not in d:
                return sym("?" + e[1])
            return d[e[1]]
        if k == "new":
            return sym("?new " + e[1])
        if k in ("num", "str", "null"):
            return ("const", e[1])
        if k == "+":
            return add(self.value(e[1], params, r),
                       self.value(e[2], params, r))
        if k == "-":
            return add(("bin", "Sub", self.value(e[1], params, r),
                        self.value(e[2], params, r)))
        return ("sql", k, tuple(self.value(x, params, r) if isinstance(
            x, tuple) else x for x in e[1:]))

    def match(self, where, params, r):
        d = dict(r)
        for c, e in where.items():
            if c not in d:
                return False
            if norm(self.value(e, params, r)) != norm(d[c]):
                return False
        return True

    def default(self, table):
        """Values of the columns a new row does not name."""
        return {c: ("const", "" if c in ("username", "msgid", "email", "ip",
                                         "signedby") else 0)
                for c in self.schema.get(table, ())}

    def clash(self, db, table, r, but=None):
        key = KEYS.get(table)
        if not key:
            return None
        d = dict(r)
        for t, i, x in db:
            if t == table and i != but and all(
                    norm(dict(x).get(k, NONE)) == norm(d.get(k, NONE))
                    for k in key):
                return i
        return None

    # ---- statements
    def statement(self, I, st, node, text, args):
        where = I.where(node)
        try:
            s = Stmt(text)
            s.complete(self.schema)
        except SqlError as e:
            self.issue("statement", "cannot be understood: %s" % e, where)
            return None
        self.statements += 1
        if s.table not in self.schema:
            self.issue("schema", "the table %s does not exist" % s.table,
                       where)
            return None
        extra = s.columns() - set(self.schema[s.table])
        if extra:
            self.issue("schema", "%s has no column %s" % (
                s.table, ", ".join(sorted(extra))), where)
        params = self.items(st, args[0] if args else None)
        holes = s.holes()
        if params is None:
            self.issue("parameters", "the values given with %r cannot be "
                       "determined" % text[:60], where)
            return None
        if isinstance(params, dict):
            okk = all(h in params for h in holes)
        else:
            okk = len(params) == len(holes) and all(
                isinstance(h, int) for h in holes)
        if not okk:
            self.issue("parameters", "%d values are given for the "
                       "placeholders %s of %r" % (
                           len(params), holes, text[:60]), where)
            return None
        if s.kind != "insert" and s.kind != "replace" and s.where is None:
            self.issue("owner", "the rows %r concerns cannot be determined"
                       % text[:70], where)
            return None
        return s, params

    def apply(self, I, st, node, s, params):
        db, done, res, att, n = st.mon
        hits = [x for x in db if x[0] == s.table and self.match(
            s.where or {}, params, x[2])] if s.kind in (
                "select", "update", "delete") else []
        if s.kind == "select":
            if s.limit is not None:
                hits = hits[:s.limit]
            cols = list(self.schema[s.table]) if s.cols == ["*"] else s.cols
            rows = tuple(("tuple", tuple(
                dict(r).get(c, sym("?")) if isinstance(c, str) else
                self.value(c, params, r) for c in cols))
                for _, _, r in hits)
            return st, rows, len(rows)
        if s.kind == "update":
            new = []
            for t, i, r in db:
                if (t, i, r) in hits:
                    d = dict(r)
                    for c, e in s.sets.items():
                        d[c] = self.value(e, params, r)
                    r = tuple(sorted(d.items()))
                new.append((t, i, r))
            return st.with_mon((tuple(new), done, res, att, n)), (), len(hits)
        if s.kind == "delete":
            new = tuple(x for x in db if x not in hits)
            return st.with_mon((new, done, res, att, n)), (), len(hits)
        d = self.default(s.table)
        d.update({c: self.value(e, params, None)
                  for c, e in s.values.items()})
        r = tuple(sorted(d.items()))
        i = self.clash(db, s.table, r)
        if i is not None:
            if s.kind == "replace":
                db = tuple(x for x in db if x[1] != i)
            elif s.upsert:
                new = []
                for t, j, x in db:
                    if j == i:
                        y = dict(x)
                        for c, e in s.upsert.items():
                            y[c] = self.upsert(e, params, x, d)
                        x = tuple(sorted(y.items()))
                    new.append((t, j, x))
                return st.with_mon((tuple(new), done, res, att, n)), (), 2
            else:
                return None
        db = db + ((s.table, n, r),)
        return st.with_mon((db, done, res, att, n + 1)), (), 1

    def upsert(self, e, params, old, new):
        def sub(x):
            if isinstance(x, tuple) and x and x[0] == "new":
                return ("val", x[1])
            if isinstance(x, tuple):
                return tuple(sub(y) for y in x)
            return x
        if e[0] == "new":
            return new[e[1]]
        if e[0] == "+":
            return add(self.upsert(e[1], params, old, new),
                       self.upsert(e[2], params, old, new))
        return self.value(e, params, old)

    # ---- objects of the mapped classes
    @staticmethod
    def ident(i, cls):
        return ("obj", ("<table>", "row", i, 0), cls)

    def entity(self, st, cls, i, r):
        e = self.ident(i, cls)
        for c, v in r:
            st = st.store((e, "attr", c), v)
        return e, st

    def flush(self, I, st, node):
        db, done, res, att, n = st.mon
        new = []
        for t, i, r in db:
            for e in att:
                if e == self.ident(i, e[2]):
                    r = tuple(sorted((c, norm(st.heap.get((e, "attr", c), v)))
                                     for c, v in r))
            new.append((t, i, r))
        return st.with_mon((tuple(new), done, res, att, n))

    def merge(self, I, st, node, e):
        db, done, res, att, n = st.mon
        cls = e[2] if e[0] in ("sym", "obj") else None
        table = self.models.get(cls)
        if table is None:
            self.issue("statement", "the object that is saved cannot be "
                       "determined: %s" % show(e), I.where(node))
            return st
        d = self.default(table)
        for c in self.schema[table]:
            v = st.heap.get((e, "attr", c))
            if v is not None:
                d[c] = norm(v)
        r = tuple(sorted(d.items()))
        i = None
        if e[0] == "obj" and e[1][0] == "<table>":
            i = e[1][2]
            if not any(x[1] == i for x in db):
                i = None
        if i is None:
            i = self.clash(db, table, r)
        if i is None:
            return st.with_mon((db + ((table, n, r),), done, res, att, n + 1))
        return st.with_mon((tuple((t, j, r if j == i else x)
                                  for t, j, x in db), done, res, att, n))

    def query(self, I, st, node, t):
        """(columns or None, table, class, rows) of a query term."""
        conds = []
        while True:
            c = called(t)
            if c is None:
                return None
            recv, name, args = c
            if name in ("filter", "filter_by", "where"):
                conds = list(args) + conds
                t = recv
            elif name in ("limit", "order_by", "with_for_update"):
                t = recv
            elif name == "query":
                break
            else:
                return None
        cls, cols = None, []
        for a in args:
            if a[0] == "cls":
                cls = a[1].qual
            elif a[0] == "clsattr":
                cls = a[1]
                cols.append(a[2])
        table = self.models.get(cls)
        if table is None:
            return None
        where = {}
        for c in conds:
            if c[0] == "kw":
                where[c[1]] = ("ph", len(where)), c[2]
                continue
            if c[0] == "cond" and c[2] is True:
                c = c[1]
            if c[0] == "eq":
                a, b = c[1], c[2]
                if b[0] == "clsattr" and b[1] == cls:
                    a, b = b, a
                if a[0] == "clsattr" and a[1] == cls:
                    where[a[2]] = ("ph", len(where)), b
                    continue
            self.issue("owner", "the condition %s of a query cannot be "
                       "determined" % show(c), I.where(node))
            return None
        extra = (set(where) | set(cols)) - set(self.schema.get(table, ()))
        if extra:
            self.issue("schema", "%s has no column %s" % (
                table, ", ".join(sorted(extra))), I.where(node))
        self.statements += 1
        params = {e[1]: v for e, v in where.values()}
        w = {c: e for c, (e, v) in where.items()}
        hits = [x for x in st.mon[0] if x[0] == table and self.match(
            w, params, x[2])]
        return cols, table, cls, hits

    def found(self, st, cols, cls, hits):
        out = []
        for t, i, r in hits:
            if cols:
                d = dict(r)
                out.append(("tuple", tuple(d.get(c, sym("?"))
                                           for c in cols)))
            else:
                e, st = self.entity(st, cls, i, r)
                db, done, res, att, n = st.mon
                if e not in att:
                    st = st.with_mon((db, done, res, att + (e,), n))
                out.append(e)
        return out, st

    # ---- calls
    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        db, done, res, att, n = st.mon
        if callee[0] == "ext":
            if callee[1].split(".")[-1] == "connect":
                return [("ok", sym("connection"), st)]
            if callee[1].split(".")[-1] == "text" and len(args) == 1:
                return [("ok", args[0], st)]
            return None
        if nm == "get_session":
            return [("ok", sym("session"), st)]
        if callee[0] == "cls" and callee[1].qual in self.models:
            o = ("obj", I.site(node), callee[1].qual)
            for k, v in kw.items():
                st = st.store((o, "attr", k), v)
            return [("ok", o, st)]
        if callee[0] not in ("meth", "attr"):
            return None
        recv = callee[1]
        if nm == "cursor":
            return [("ok", sym("cursor"), st)]
        if nm in ("execute", "executemany"):
            if not args or not is_const(args[0]) or not isinstance(
                    args[0][1], str):
                self.issue("statement", "the text of a statement is not "
                           "fixed: %s" % (show(args[0]) if args else "-"),
                           I.where(node))
                return None
            a = list(args[1:]) + list(kw.values())
            got = self.statement(I, st, node, args[0][1], a)
            if got is None:
                return [("ok", ("unk", I.site(node)), st)]
            got = self.apply(I, self.flush(I, st, node), node, *got)
            if got is None:
                self.issue("duplicate", "a row is inserted although one "
                           "with the same key exists", I.where(node))
                return [("ok", ("unk", I.site(node)), st)]
            st, rows, count = got
            db, done, res, att, n = st.mon
            st = st.with_mon((db, done, res + ((rows, 0),), att, n))
            if recv == sym("cursor"):
                st = st.store((recv, "attr", "rowcount"), ("const", count))
                return [("ok", ("const", count), st)]
            r = sym("result %d" % len(res))
            st = st.store((r, "attr", "rowcount"), ("const", count))
            return [("ok", r, st)]
        if nm in ("fetchone", "first", "one", "scalar", "fetchall", "all",
                  "one_or_none", "update", "delete", "count", "exists"):
            if called(recv):
                got = self.query(I, self.flush(I, st, node), node, recv)
                if got is None:
                    return None
                cols, table, cls, hits = got
                if nm == "delete":
                    db = tuple(x for x in db if x not in hits)
                    return [("ok", ("const", len(hits)), st.with_mon(
                        (db, done, res, att, n)))]
                if nm == "update":
                    ch = self.items(st, args[0]) if args else {}
                    if not isinstance(ch, dict):
                        self.issue("parameters", "the changes of an update "
                                   "cannot be determined", I.where(node))
                        return None
                    bad = set(ch) - set(self.schema[table])
                    if bad:
                        self.issue("schema", "%s has no column %s" % (
                            table, ", ".join(map(str, bad))), I.where(node))
                    new = []
                    for x in db:
                        if x in hits:
                            d = dict(x[2])
                            for c, v in ch.items():
                                d[c] = self.orm(v, d)
                            x = (x[0], x[1], tuple(sorted(d.items())))
                        new.append(x)
                    return [("ok", ("const", len(hits)), st.with_mon(
                        (tuple(new), done, res, att, n)))]
                rows, st = self.found(st, cols, cls, hits)
                rows = tuple(rows)
                pos = 0
            elif recv[0] == "sym" and recv[1].startswith("result "):
                k = int(recv[1][7:])
                rows, pos = res[k]
            elif recv == sym("cursor") and res:
                k = len(res) - 1
                rows, pos = res[k]
            else:
                return None
            rest = rows[pos:]
            if nm == "one" and len(rest) != 1:
                return [("exc", ("exc", NOROW, I.site(node)), st)]
            if nm in ("fetchall", "all"):
                heap = {}
                o = mklist(heap, rest, "rows")
                for k2, v in heap.items():
                    st = st.store(k2, v)
                return [("ok", o, st)]
            if not called(recv):
                db, done, res, att, n = st.mon
                res = res[:k] + ((rows, pos + 1),) + res[k + 1:]
                st = st.with_mon((db, done, res, att, n))
            if not rest:
                return [("ok", NONE, st)]
            if nm == "scalar":
                return [("ok", rest[0][1][0], st)]
            return [("ok", rest[0], st)]
        if nm == "commit":
            st = self.flush(I, st, node)
            db, done, res, att, n = st.mon
            return [("ok", NONE, st.with_mon((db, db, res, att, n)))]
        if nm == "rollback":
            return [("ok", NONE, st.with_mon((done, done, res, (), n)))]
        if nm == "close" and recv != sym("cursor"):
            return [("ok", NONE, st.with_mon((done, done, res, (), n)))]
        if nm in ("merge", "add") and args and recv == sym("session"):
            st = self.merge(I, st, node, args[0])
            return [("ok", args[0], st)]
        return None

    def orm(self, v, d):
        if v[0] == "clsattr":
            return d.get(v[2], sym("?"))
        if v[0] == "bin" and v[1] in ("Add", "Sub"):
            return add(("bin", v[1], self.orm(v[2], d), self.orm(v[3], d)))
        return norm(v)


# ---- what the tables are
def schemas(p):
    """Per module: {table: columns}, {class: table}."""
    tables, models = {}, {}
    for m in p.modules.values():
        for t, cols in module_tables(m).items():
            tables.setdefault(t, {})[m.name] = cols
        for c in list(p.classes.values()):
            if c.module is not m:
                continue
            t = c.attrs.get("__tablename__")
            if not isinstance(t, ast.Constant):
                continue
            cols = []
            for n, v in c.attrs.items():
                if isinstance(v, ast.Call) and (
                        getattr(v.func, "id", None) == "Column" or
                        getattr(v.func, "attr", None) == "Column"):
                    cols.append(n)
                    if v.args and isinstance(v.args[0], ast.Constant) and \
                            isinstance(v.args[0].value, str) and \
                            v.args[0].value != n:
                        cols[-1] = v.args[0].value
            tables.setdefault(t.value, {})[m.name + "." + c.name] = cols
            models[c.qual] = t.value
    return tables, models


def module_tables(m):
    out = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and \
                "CREATE TABLE" in n.value.upper():
            out.update({k: v for k, v in create_tables(n.value).items()
                        if v})
    return out


def stores(p):
    out = [c for c in p.classes.values() if c.name == "Store" and
           c.module.name.startswith("oa.db")]
    return sorted(out, key=lambda c: c.qual)


def public(c):
    return {n: f for k in reversed(c.mro()) for n, f in k.methods.items()
            if not n.startswith("_") or n == "__init__"}


def signature(f):
    a = f.node.args
    return ([x.arg for x in a.args],
            [ast.dump(d) for d in a.defaults],
            a.vararg.arg if a.vararg else None,
            sorted(x.arg for x in a.kwonlyargs),
            a.kwarg.arg if a.kwarg else None)


SPAM, HAM, ATIME = sym("SPAM"), sym("HAM"), sym("ATIME")
T1, T2, T9 = sym("TOKEN1"), sym("TOKEN2"), sym("OTHERTOKEN")
MID, MID9, FLAG = sym("MSGID"), sym("OTHERMSGID"), sym("FLAG")


def bvars(**kw):
    d = {"id": ("const", 1), "username": ("const", ""),
         "spam_count": sym("S0"), "ham_count": sym("H0"),
         "token_count": sym("C0"), "last_expire": sym("L0")}
    d.update(kw)
    return ("bayes_vars", row(**d))


def token(t, k, **kw):
    d = {"id": 0, "token": t, "spam_count": sym("S" + k),
         "ham_count": sym("H" + k), "atime": sym("A" + k)}
    d.update(kw)
    return ("bayes_token", row(**d))


def seen(m, flag):
    return ("bayes_seen", row(id=0, msgid=m, flag=flag))


def only(r, cols):
    return {c: norm(v) for c, v in r if c in cols}


def strip(db):
    """A table's contents without row numbers, unmentioned columns and
    order."""
    return sorted(((t, tuple(sorted((c, norm(v)) for c, v in r)))
                   for t, r in db), key=repr)


def agrees(have, want):
    """The rows are the wanted ones (a wanted row gives some columns)."""
    have, want = list(have), list(want)
    if len(have) != len(want):
        return False
    left = list(want)
    for t, r in have:
        d = {c: norm(v) for c, v in r}
        for w in left:
            if w[0] == t and all(d.get(c) == norm(v) for c, v in w[1]):
                left.remove(w)
                break
        else:
            return False
    return not left


def tab(db):
    return "; ".join("%s(%s)" % (t, ", ".join(
        "%s=%s" % (c, lin(v)) for c, v in r)) for t, r in db) or "nothing"


def lin(t):
    if t[0] == "lin":
        return " ".join(("+" if s > 0 else "-") + show(x)
                        for s, x in t[1]) + (" %+d" % t[2] if t[2] else "")
    return show(t)


OTHER_T = token(T9, "9")
OTHER_S = seen(MID9, "s")

# method, case, arguments, tables before, tables after, result
STORE_OPS = (
    ("nspam_nham_get", "counts there", (), [bvars()], [bvars()],
     (sym("S0"), sym("H0"))),
    ("nspam_nham_get", "no counts", (), [], [], (("const", 0), ("const", 0))),
    ("nspam_nham_change", "counts there", (SPAM, HAM), [bvars()],
     [bvars(spam_count=add(sym("S0"), SPAM), ham_count=add(sym("H0"), HAM))],
     ...),
    ("nspam_nham_change", "no counts", (SPAM, HAM), [],
     [("bayes_vars", row(spam_count=SPAM, ham_count=HAM))], ...),
    ("multi_tok_count_change", "some tokens there",
     (SPAM, HAM, [T1, T2], ATIME), [OTHER_T, token(T1, "1")],
     [OTHER_T, token(T1, "1", spam_count=add(sym("S1"), SPAM),
                     ham_count=add(sym("H1"), HAM), atime=ATIME),
      token(T2, "2", spam_count=SPAM, ham_count=HAM, atime=ATIME)], ...),
    ("multi_tok_count_change", "no tokens", (SPAM, HAM, [], ATIME),
     [OTHER_T], [OTHER_T], ...),
    ("tok_touch_all", "tokens", ([T1, T2], ATIME),
     [OTHER_T, token(T1, "1"), token(T2, "2")],
     [OTHER_T, token(T1, "1", atime=ATIME), token(T2, "2", atime=ATIME)],
     ...),
    ("tok_get", "there", (T1,), [OTHER_T, token(T1, "1")],
     [OTHER_T, token(T1, "1")], (sym("S1"), sym("H1"), sym("A1"))),
    ("tok_get", "not there", (T1,), [OTHER_T], [OTHER_T], None),
    ("tok_get_all", "some there", ([T1, T2],), [OTHER_T, token(T1, "1")],
     [OTHER_T, token(T1, "1")],
     [(T1, sym("S1"), sym("H1"), sym("A1")), None]),
    ("seen_get", "there", (MID,), [OTHER_S, seen(MID, FLAG)],
     [OTHER_S, seen(MID, FLAG)], FLAG),
    ("seen_get", "not there", (MID,), [OTHER_S], [OTHER_S], False),
    ("seen_put", "there", (MID, FLAG), [OTHER_S, seen(MID, "h")],
     [OTHER_S, seen(MID, FLAG)], ...),
    ("seen_put", "not there", (MID, FLAG), [OTHER_S],
     [OTHER_S, seen(MID, FLAG)], ...),
    ("seen_delete", "there", (MID,), [OTHER_S, seen(MID, "s")], [OTHER_S],
     ...),
    ("seen_delete", "not there", (MID,), [OTHER_S], [OTHER_S], ...),
)


def value_of(v, st):
    if v[0] == "tuple":
        return tuple(norm(x) for x in v[1])
    if v[0] == "obj" and v[2] == "list":
        ex = st.heap.get((v, "exact"))
        if ex is not None:
            return [value_of(x, st) for x in ex[1]]
    return norm(v)


def result_ok(want, v, st):
    if want is ...:
        return True
    got = value_of(v, st)
    if want is None:
        return got == NONE
    if want is False:
        return is_const(got) and not got[1]
    if isinstance(want, list):
        got = got if isinstance(got, list) else None
        return got is not None and [
            None if g == NONE else g for g in got] == want
    return got == want


def store_ops(ctx, c, schema, models, ops, pre="", keep=None):
    p = ctx.p
    n = 0
    for name, case, args, before, after, want in ops:
        f = c.find(name)
        where = "%s.%s (%s)" % (c.module.name, name, case)
        if f is None:
            ctx.bad("operation", where, "the store has no %s" % name)
            continue
        issues = []
        self_ = ("sym", "self", c.qual)
        heap = {(self_, "attr", "conn"): sym(
            "session" if models_in(c, models) else "connection")}
        vals = []
        for a in args:
            vals.append(mklist(heap, a, "tokens") if isinstance(a, list)
                        else a)
        hold = {}

        def mk():
            hold["p"] = Tables(p, (c.module.name,), before,
                               lambda *a: issues.append(a), schema, models)
            return hold["p"]
        gen = isinstance(want, list)
        ps = f.params()
        if len(ps) != len(vals) + 1:
            ctx.bad("operation", where, "takes %d arguments instead of %d" %
                    (len(ps) - 1, len(vals)))
            continue
        if gen:
            from ..util import driver
            d = driver(p, "def driver(store, a):\n    out = []\n"
                       "    for x in store.%s(a):\n        out.append(x)\n"
                       "    return out\n" % name)
            I, outs = run(mk, p, d, args={"store": self_, "a": vals[0]},
                          heap=heap)
        else:
            I, outs = run(mk, p, f, args=dict(zip(ps, [self_] + vals)),
                          self_cls=c, heap=heap)
        ctx.saw(I)
        n += hold["p"].statements
        for rule, msg, at in dict.fromkeys(issues):
            ctx.bad(rule, where, "%s (%s)" % (msg, at))
        if not any(k != "exc" for k, v, s in outs):
            ctx.bad("operation", where, "never succeeds")
        for k, v, s in outs:
            if k == "exc":
                ctx.bad("operation", where, "fails with %s (path %s)" % (
                    v[1:2], path_str(s)))
                continue
            db = [(t, r) for t, i, r in s.mon[0]]
            done = [(t, r) for t, i, r in s.mon[1]]
            if ctx.expect(agrees(db, after), "effect", where,
                          "leaves %s instead of %s (path %s)" % (
                              tab(db), tab(after), path_str(s))):
                ctx.expect(agrees(done, after), "commit", where,
                           "the change is not committed (path %s)" %
                           path_str(s))
            ctx.expect(result_ok(want, v, s), "result", where,
                       "gives %s instead of %s (path %s)" % (
                           value_of(v, s), want, path_str(s)))
    return n


def models_in(c, models):
    return any(q.startswith(c.module.name + ".") for q in models)


@check("P14", "stored data")
def p14(ctx):
    p = ctx.p
    tables, models = schemas(p)
    schema = {}
    for t, defs in sorted(tables.items()):
        every = sorted(defs.items())
        schema[t] = every[0][1]
        for w, cols in every[1:]:
            ctx.expect(sorted(cols) == sorted(every[0][1]), "schema",
                       "%s: %s and %s" % (t, every[0][0], w),
                       "the columns of %s differ: %s and %s" % (
                           t, ", ".join(every[0][1]), ", ".join(cols)))
    ctx.floor("tables", len(schema), 6)
    sts = stores(p)
    ctx.floor("stores", len(sts), 2)
    ref = public(sts[0])
    for c in sts[1:]:
        other = public(c)
        for name in sorted(set(ref) | set(other)):
            where = "%s.%s" % (c.module.name, name)
            if name not in other or name not in ref:
                ctx.bad("same-operations", where, "%s is offered only by %s"
                        % (name, (c if name in other else sts[0]).module.name))
                continue
            ctx.expect(signature(ref[name]) == signature(other[name]),
                       "same-operations", where, "%s takes other arguments "
                       "than in %s" % (name, sts[0].module.name))
    n = 0
    for c in sts:
        n += store_ops(ctx, c, schema, models, STORE_OPS)
    ctx.floor("statements of the stores", n, 40)
    n = awl(ctx, schema, models)
    ctx.floor("statements of the auto-whitelist", n, 20)


# ---- the auto-whitelist
U, E, SB, IP = sym("USER"), sym("ADDRESS"), sym("SIGNEDBY"), ("const", "10.1")
SCORE = sym("SCORE")


def entry(u=U, e=E, sb=SB, ip=IP, k="1", **kw):
    d = dict(username=u, email=e, signedby=sb, ip=ip, count=sym("C" + k),
             totscore=sym("T" + k))
    d.update(kw)
    return ("awl", row(**d))


NOIP = ("const", "none")
DECOYS = [entry(u=sym("USER2"), k="2"), entry(e=sym("ADDRESS2"), k="3"),
          entry(sb=sym("SIGNEDBY2"), k="4"), entry(ip=sym("IP2"), k="5"),
          entry(u=sym("USER2"), ip=NOIP, k="6"),
          entry(e=sym("ADDRESS2"), ip=NOIP, k="7"),
          entry(sb=sym("SIGNEDBY2"), ip=NOIP, k="8")]


def awl_classes(p):
    return [c for c in p.classes.values() if "check_from_in_auto_whitelist"
            in c.methods]


def awl(ctx, schema, models):
    p = ctx.p
    n = 0
    one = ("const", 1)
    cases = (
        ("entry there", True, [entry()],
         [entry(count=add(sym("C1"), one), totscore=add(sym("T1"), SCORE))]),
        ("no entry", True, [], [entry(count=one, totscore=SCORE)]),
        ("entry of no address", True, [entry(ip=NOIP)],
         [entry(count=add(sym("C1"), one), totscore=add(sym("T1"), SCORE))]),
        ("both entries", True, [entry(), entry(ip=NOIP, k="0")],
         [entry(count=add(sym("C1"), one), totscore=add(sym("T1"), SCORE)),
          entry(ip=NOIP, k="0")]),
        ("no address, entry there", False, [entry(ip=NOIP)],
         [entry(ip=NOIP, count=add(sym("C1"), one),
                totscore=add(sym("T1"), SCORE))]),
        ("no address, no entry", False, [],
         [entry(ip=NOIP, count=one, totscore=SCORE)]),
    )
    for c in awl_classes(p):
        f = c.methods["check_from_in_auto_whitelist"]
        for name, hasip, before, after in cases:
            for alch in (True, False):
                n += awl_case(ctx, c, f, name, hasip, before, after, alch,
                              schema, models)
    return n


ENGINE = sym("engine")


class Awl(Tables):
    def inline(self, I, fi):
        if fi.name == "ip_to_awl_key":
            return False
        return fi.module.name in self.mods and not fi.is_cm

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        if nm == "get_local" and len(args) == 2 and is_const(args[1]):
            v = st.heap.get((("local", "msg"), "item", args[1]))
            if v is None:
                return [("exc", ("exc", "KeyError", I.site(node)), st)]
            return [("ok", v, st)]
        if nm == "set_local" and len(args) == 3:
            return [("ok", NONE, st.store(
                (("local", "msg"), "item", args[1]), args[2]))]
        if nm == "ip_to_awl_key":
            return [("ok", IP, st)]
        if nm == "get_engine":
            return [("ok", ENGINE, st)]
        if callee == ("ext", "isinstance") and args and args[0] == ENGINE:
            return [("ok", ("const", not self.alch), st)]
        return Tables.on_call(self, I, st, node, callee, args, kw)


def awl_case(ctx, c, f, name, hasip, before, after, alch, schema, models):
    p = ctx.p
    where = "auto-whitelist (%s, %s)" % (
        name, "SQLAlchemy" if alch else "MySQL")
    heap = {(("modobj", c.module.name), "attr", "has_sqlalchemy"):
            ("const", alch)}
    self_ = ("sym", "self", c.qual)
    ctxt = ("sym", "ctxt", "oa.context.GlobalContext")
    msg = ("sym", "msg", "oa.message.Message")
    if alch:
        # (set where it is found that SQLAlchemy is missing)
        heap[(self_, "attr", "has_mysql")] = ("const", False)
    heap[(self_, "attr", "ctxt")] = ctxt
    heap[(ctxt, "attr", "username")] = U
    heap[(msg, "attr", "score")] = SCORE
    loc = ("local", "msg")
    heap[(loc, "item", ("const", "from"))] = E
    heap[(loc, "item", ("const", "signedby"))] = SB
    heap[(loc, "item", ("const", "originip"))] = \
        ("obj", ("<client>", "origin", 0, 0), "ipaddress.IPv4Address") \
        if hasip else NONE
    issues = []
    hold = {}

    def mk():
        hold["p"] = Awl(p, (c.module.name,), DECOYS + before,
                        lambda *a: issues.append(a), schema, models)
        hold["p"].alch = alch
        return hold["p"]
    I, outs = run(mk, p, f, args=dict(zip(f.params(), (self_, msg))),
                  self_cls=c, heap=heap)
    ctx.saw(I)
    for rule, m, at in dict.fromkeys(issues):
        ctx.bad(rule, where, "%s (%s)" % (m, at))
    k = 0
    for kind, v, s in outs:
        if kind == "exc":
            if v[1] in ("pymysql.Error", "pymysql.err.Error"):
                continue
            ctx.bad("operation", where, "fails with %s (path %s)" % (
                v[1:2], path_str(s)))
            continue
        k += 1
        db = [(t, r) for t, i, r in s.mon[0]]
        done = [(t, r) for t, i, r in s.mon[1]]
        want = DECOYS + after
        okk = agrees(done, want)
        if not okk and agrees(db, want):
            ctx.bad("commit", where, "the change is not committed (path %s)" %
                    path_str(s))
            continue
        ctx.expect(okk, "owner", where, "leaves %s instead of %s (path %s)" %
                   (tab(diff(done, want)), tab(diff(want, done)),
                    path_str(s)))
    ctx.expect(k > 0, "operation", where, "never succeeds")
    return hold["p"].statements


def diff(a, b):
    bb = strip(b)
    return [x for x in strip(a) if x not in bb]
