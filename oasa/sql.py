"""A small parser for the SQL statements of the stores."""
import re

from .model import AnalysisError

TOKEN = re.compile(r"""\s*(?:(?P<str>'(?:[^']|'')*')|(?P<ph>%s|%\(\w+\)s|:\w+|\?)
    |(?P<num>-?\d+(?:\.\d+)?)|(?P<name>`?[A-Za-z_]\w*`?(?:\.`?[A-Za-z_]\w*`?)?)
    |(?P<op><=|>=|<>|!=|[-=<>+*/(),;]))""", re.X)
WORDS = {"select", "from", "where", "and", "or", "limit", "update", "set",
         "insert", "into", "values", "delete", "on", "duplicate", "key",
         "order", "by", "replace", "ignore", "conflict", "do", "not", "is",
         "null", "in", "like", "for", "asc", "desc", "begin", "commit"}


class SqlError(Exception):
    pass


def tokens(text):
    out, i = [], 0
    text = text.strip()
    n = 0
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            raise SqlError("cannot read %r" % text[i:i + 20])
        i = m.end()
        k = m.lastgroup
        v = m.group(k)
        if k == "name":
            v = v.replace("`", "")
            if v.lower() in WORDS:
                k, v = "word", v.lower()
            elif "." in v:
                v = v.split(".")[1]
        elif k == "ph":
            if v in ("%s", "?"):
                v = n
                n += 1
            else:
                v = v[2:-2] if v.startswith("%") else v[1:]
        elif k == "num":
            v = float(v) if "." in v else int(v)
        elif k == "str":
            v = v[1:-1].replace("''", "'")
        out.append((k, v))
    return out


class Stmt(object):
    """kind, table; cols (SELECT/INSERT), values (INSERT: col -> expr),
    sets (UPDATE: col -> expr), where (col -> expr; None when it is not a
    conjunction of equalities), limit, upsert (col -> expr)."""

    def __init__(self, text):
        self.text = text
        self.t = tokens(text)
        while self.t and self.t[-1] == ("op", ";"):
            self.t.pop()
        self.i = 0
        self.cols = []
        self.values = {}
        self.sets = {}
        self.where = {}
        self.upsert = {}
        self.limit = None
        self.parse()
        if self.i != len(self.t):
            raise SqlError("cannot read the end of %r" % text)

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def take(self, *want):
        x = self.peek()
        if want and x not in want:
            raise SqlError("%r where %r is expected in %r" % (
                x[1], [w[1] for w in want], self.text))
        self.i += 1
        return x

    def word(self, w):
        if self.peek() == ("word", w):
            self.i += 1
            return True
        return False

    def name(self):
        k, v = self.take()
        if k == "word" and v in ("key", "set"):
            return v
        if k != "name":
            raise SqlError("a name is expected in %r" % self.text)
        return v

    def factor(self):
        k, v = self.take()
        if k in ("ph", "num", "str"):
            return (k, v)
        if k == "word" and v == "null":
            return ("null", None)
        if k == "word" and v == "values":
            self.take(("op", "("))
            c = self.name()
            self.take(("op", ")"))
            return ("new", c)
        if (k, v) == ("op", "("):
            e = self.expr()
            self.take(("op", ")"))
            return e
        if k == "name":
            if self.peek() == ("op", "("):
                self.i += 1
                args = []
                while self.peek() != ("op", ")"):
                    args.append(self.expr())
                    if self.peek() == ("op", ","):
                        self.i += 1
                self.i += 1
                return ("func", v.lower(), tuple(args))
            return ("col", v)
        raise SqlError("a value is expected in %r" % self.text)

    def expr(self):
        e = self.factor()
        while self.peek() in (("op", "+"), ("op", "-"), ("op", "*"),
                              ("op", "/")) or (
                self.peek()[0] == "num" and self.peek()[1] < 0):
            if self.peek()[0] == "num":
                e = ("+", e, self.take())
                continue
            op = self.take()[1]
            e = (op, e, self.factor())
        return e

    def assigns(self):
        out = {}
        while True:
            c = self.name()
            self.take(("op", "="))
            out[c] = self.expr()
            if self.peek() != ("op", ","):
                return out
            self.i += 1

    def cond(self):
        if not self.word("where"):
            return
        w = {}
        while True:
            e = self.expr()
            k = self.peek()
            if k != ("op", "=") or e[0] != "col" and True and False:
                self.where = None
                self.i = len(self.t)
                return
            self.i += 1
            v = self.expr()
            if e[0] != "col" and v[0] == "col":
                e, v = v, e
            if e[0] != "col":
                self.where = None
                self.i = len(self.t)
                return
            w[e[1]] = v
            if self.peek() == ("word", "or"):
                self.where = None
                self.i = len(self.t)
                return
            if not self.word("and"):
                break
        self.where = w

    def parse(self):
        k = self.take()
        if k[0] != "word":
            raise SqlError("unknown statement %r" % self.text)
        self.kind = k[1]
        if self.kind == "select":
            while not self.word("from"):
                if self.peek() == ("op", "*"):
                    self.i += 1
                    self.cols = ["*"]
                else:
                    e = self.expr()
                    self.cols.append(e[1] if e[0] == "col" else e)
                if self.peek() == ("op", ","):
                    self.i += 1
            self.table = self.name()
            self.cond()
            if self.word("limit"):
                self.limit = self.take()[1]
        elif self.kind == "update":
            self.table = self.name()
            self.take(("word", "set"))
            self.sets = self.assigns()
            self.cond()
        elif self.kind in ("insert", "replace"):
            self.word("ignore")
            self.word("into")
            self.table = self.name()
            if self.peek() == ("op", "("):
                self.i += 1
                while self.peek() != ("op", ")"):
                    self.cols.append(self.name())
                    if self.peek() == ("op", ","):
                        self.i += 1
                self.i += 1
            self.take(("word", "values"))
            self.take(("op", "("))
            vals = []
            while self.peek() != ("op", ")"):
                vals.append(self.expr())
                if self.peek() == ("op", ","):
                    self.i += 1
            self.i += 1
            self.row = vals
            if self.word("on"):
                self.take(("word", "duplicate"))
                self.take(("word", "key"))
                self.take(("word", "update"))
                self.upsert = self.assigns()
        elif self.kind == "delete":
            self.take(("word", "from"))
            self.table = self.name()
            self.cond()
        else:
            raise SqlError("unknown statement %r" % self.text)

    def complete(self, schema):
        """Fill the columns of an INSERT that names none."""
        if self.kind in ("insert", "replace"):
            if not self.cols:
                self.cols = list(schema.get(self.table, ()))
            if len(self.cols) != len(self.row):
                raise SqlError("%d values for the columns %s" % (
                    len(self.row), ", ".join(self.cols)))
            self.values = dict(zip(self.cols, self.row))

    def columns(self):
        out = set()
        for c in self.cols:
            if isinstance(c, str) and c != "*":
                out.add(c)
        for d in (self.sets, self.where or {}, self.upsert, self.values):
            out |= set(d)
        for e in self.exprs():
            def go(x):
                if isinstance(x, tuple):
                    if x[0] in ("col", "new"):
                        out.add(x[1])
                    for y in x[1:]:
                        go(y)
            go(e)
        return out

    def exprs(self):
        out = [c for c in self.cols if not isinstance(c, str)]
        for d in (self.sets, self.where or {}, self.upsert, self.values):
            out.extend(d.values())
        return out

    def holes(self):
        return [v for k, v in self.t if k == "ph"]


def create_tables(text):
    """{table: [columns]} of CREATE TABLE statements in a text."""
    out = {}
    for m in re.finditer(r"CREATE TABLE (?:IF NOT EXISTS )?`?(\w+)`?\s*"
                         r"(?:IF NOT EXISTS\s*)?(?:`%s`\s*)?\((.*?)\n\)", text,
                         re.S | re.I):
        cols = []
        for line in m.group(2).splitlines():
            c = re.match(r"\s*`(\w+)`\s+\w", line)
            if c:
                cols.append(c.group(1))
        out[m.group(1)] = cols
    return out
