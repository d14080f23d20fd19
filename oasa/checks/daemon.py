"""P17 (user preferences) and P22 (reload) of the daemon."""
import ast
import posixpath

from ..absint import NONE, TRUE, contains, is_const, show
from ..core import check
from ..model import AnalysisError
from ..util import BasePolicy, path_str, run
from .protocol import Handling, commands, meth_name, run_cmd

SERVER = "oa.server.Server"
USER = ("sym", "USER", None)
NEW_RS = "NEW_RULESET"


def self_attr(t, name=None):
    return t[0] == "attr" and t[1][0] == "sym" and t[1][1] == "self" and (
        name is None or t[2] == name)


def lock_like(t):
    return t[0] == "attr" and "lock" in t[2].lower()


class UserRules(BasePolicy):
    """get_user_ruleset.  Monitor: events, in order:
    ('load', attr) ('parser', o) ('options', arg) ('results', value)
    ('parse', path) ('ruleset', term) ('cache', attr, key, value)"""
    mods = ("oa.server", "oa.config")

    def __init__(self, p):
        BasePolicy.__init__(self, p)
        self.issues = {}
        self.paths = []

    def bad(self, c, m, st):
        self.issues.setdefault(c, m + " (path %s)" % path_str(st))

    def init_mon(self):
        return ()

    def inline(self, I, fi):
        return fi.module.name.startswith(self.mods) or fi.is_cm

    def ev(self, st, *e):
        if e in st.mon:
            return st
        return st.with_mon(st.mon + (e,))

    def on_attr_load(self, I, st, node, base, name):
        if base[0] == "sym" and base[1] == "self" and \
                name not in ("log",):
            return self.ev(st, "load", name)

    def site(self, t):
        """Is it (part of) what all users share?"""
        return contains(t, lambda x: self_attr(x) and x[2] not in (
            "log",)) and not contains(t, lambda x: x[0] == "call" and (
                x[1] == NEW_RS or isinstance(x[1], tuple) and
                "deepcopy" in str(x[1])))

    def on_attr_store(self, I, st, node, base, name, value):
        if base[0] == "sym" and base[1] == "self":
            self.bad("store:" + name, "looking up the rules of a user "
                     "changes self.%s" % name, st)
        elif base[0] == "call" and base[1] == "PARSER":
            if name == "results":
                return self.ev(st, "results", value)
        elif self.site(base):
            self.bad("site:" + name, "%s.%s is changed for one user" % (
                show(base), name), st)

    def cacheish(self, base):
        return self_attr(base) and base[2] not in (
            "_ruleset", "_parser_results", "_parser_options")

    def on_item_store(self, I, st, node, base, key, value):
        if self.cacheish(base):
            return self.ev(st, "cache", base[2], key, value)
        if self.site(base):
            self.bad("site:item", "%s is changed for one user" % show(base),
                     st)

    def on_mutate(self, I, st, node, base, meth, args):
        if self.cacheish(base):
            if meth == "setdefault" and len(args) == 2:
                return self.ev(st, "cache", base[2], args[0], args[1])
            if meth in ("pop", "popitem", "clear"):
                return None       # losing a cached entry is harmless
            self.bad("cache:" + meth, "the cache is changed by %s" % meth,
                     st)
        elif base[0] == "attr" and base[1][0] == "call" and \
                base[1][1] == "PARSER" and base[2] == "results":
            return self.ev(st, "results", args[0] if args else NONE)
        elif self.site(base):
            self.bad("site:" + meth, "%s is changed for one user" %
                     show(base), st)

    def on_del(self, I, st, node, base, key):
        if self.site(base) and not self.cacheish(base):
            self.bad("site:del", "%s is changed for one user" % show(base),
                     st)

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        vals = list(args) + list(kw.values())
        if callee[0] == "cls" and callee[1].qual == \
                "oa.rules.parser.PADParser":
            o = ("call", "PARSER", tuple(args), I.site(node))
            return [("ok", o, self.ev(st, "parser", o))]
        if nm in ("exists", "isfile", "open", "access") and args:
            self.paths.append((nm, args[0], st))
            if nm == "exists":
                return None
        base = callee[1] if callee[0] in ("meth", "attr") else None
        if base is not None and base[0] == "call" and base[1] == "PARSER":
            if nm == "add_options":
                return [("ok", NONE, self.ev(st, "options", args[0] if args
                                             else NONE))]
            if nm == "parse_file":
                a = args[0] if args else NONE
                self.paths.append((nm, a, st))
                return [("ok", NONE, self.ev(st, "parse", a))]
            if nm == "get_ruleset":
                t = ("call", NEW_RS, (base,), I.site(node))
                return [("ok", t, self.ev(st, "ruleset", t))]
            self.bad("parser." + nm, "the parser of a user is used by %s" %
                     nm, st)
            return None
        if nm == "parse_pad_rules":
            self.bad("parser", "the rules of a user are not built on the "
                     "site configuration", st)
        return None


def allow(st):
    """Are user rules known to be allowed on this path?"""
    r = None
    for c, v in st.facts.items():
        if c[0] == "truthy" and contains(c[1], lambda x: x == (
                "const", "allow_user_rules")):
            site = contains(c[1], lambda x: self_attr(x, "_ruleset"))
            if not site:
                continue
            r = v
    return r


def named(st):
    for c, v in st.facts.items():
        if c == ("isnone", USER):
            return not v
        if c == ("truthy", USER):
            return v
    return None


def user_run(ctx, user, facts=None):
    c = ctx.p.cls(SERVER)
    f = c.find("get_user_ruleset")
    hold = {}

    def mk():
        hold["p"] = UserRules(ctx.p)
        return hold["p"]
    ps = f.params()
    I, outs = run(mk, ctx.p, f, args={
        ps[0]: ("sym", "self", SERVER), ps[1]: user}, self_cls=c,
        facts=facts)
    ctx.saw(I)
    return hold["p"], I, outs


def is_site(t):
    return self_attr(t, "_ruleset")


def cache_read(t, cache, user):
    """a value taken from the cache for this very user"""
    return t[0] == "item" and self_attr(t[1]) and t[1][2] in cache and \
        t[2] == user or \
        t[0] in ("mcall", "call") and contains(
            t, lambda x: self_attr(x) and x[2] in cache) and (
                t[0] == "mcall" and t[2] == "get" and t[3] and
                t[3][0] == user)


def of(evs, kind):
    return [e for e in evs if e[0] == kind]


def before(evs, a, b):
    return evs.index(a) < evs.index(b)


def caches(ctx):
    """attributes of the server used as caches of user rule sets"""
    pol, I, outs = user_run(ctx, USER)
    return {e[1] for k, v, s in outs for e in of(s.mon, "cache")}


@check("P17", "user preferences")
def p17(ctx):
    cache = caches(ctx)
    # nobody named
    pol, I, outs = user_run(ctx, NONE)
    for k, v, s in outs:
        if k == "ret":
            ctx.expect(is_site(v), "no-user", "returned", "without a user "
                       "%s is used (path %s)" % (show(v), path_str(s)))
    for nm, a, s in pol.paths:
        ctx.bad("no-user", nm, "without a user the file %s is looked at" %
                show(a))
    # somebody named
    pol, I, outs = user_run(ctx, USER, {("isnone", USER): False})
    for c, m in sorted(pol.issues.items()):
        ctx.bad("shared", c, m)
    if not pol.issues:
        ctx.ok("shared", "get_user_ruleset")
    built = 0
    for k, v, s in outs:
        evs = list(s.mon)
        for e in of(evs, "cache"):
            ctx.expect(e[2] == USER, "cache", "key", "the rules of a user "
                       "are stored for %s" % show(e[2]))
            ctx.expect(e[3][0] == "call" and e[3][1] == NEW_RS, "cache",
                       "value", "%s is stored for a user" % show(e[3]))
            ctx.expect(before(evs, e, e) or of(evs, "parse") and before(
                evs, of(evs, "parse")[-1], e), "cache", "complete",
                "rules are stored before the preferences were read")
        if k != "ret":
            continue
        if is_site(v):
            ctx.ok("user", "site rules")
            ctx.expect(not of(evs, "cache"), "cache", "site", "the site "
                       "rules are stored for a user")
            continue
        ctx.expect(allow(s) is True, "allowed", "returned", "%s is used "
                   "although user rules are not known to be allowed (path "
                   "%s)" % (show(v), path_str(s)))
        if cache_read(v, cache, USER):
            ctx.ok("user", "cached rules")
            continue
        if not ctx.expect(v[0] == "call" and v[1] == NEW_RS, "user",
                          "returned", "%s is used for a user (path %s)" % (
                              show(v), path_str(s))):
            continue
        built += 1
        judge_built(ctx, evs, v)
    ctx.floor("ways user rules are built", built, 1)
    for nm, a, s in pol.paths:
        ctx.expect(allow(s) is True, "allowed", nm, "the file %s is looked "
                   "at although user rules are not known to be allowed" %
                   show(a))
        ctx.expect(contains(a, lambda x: x == USER), "user", nm + ":path",
                   "the file %s does not depend on the user" % show(a))
    paths(ctx)
    requests(ctx)


def judge_built(ctx, evs, v):
    parser = v[2][0]
    ctx.expect(len(of(evs, "parser")) == 1 and
               of(evs, "parser")[0][1] == parser, "user", "parser",
               "the rules of a user are made by a parser that was used "
               "before")
    ps = of(evs, "parse")
    rs = of(evs, "ruleset")
    res = of(evs, "results")
    opt = of(evs, "options")
    ctx.expect(len(ps) == 1, "user", "parse", "%d files are read for a user"
               % len(ps))
    for what, es in (("results", res), ("options", opt)):
        if not ctx.expect(len(es) == 1, "base", what, "the rules of a user "
                          "do not start from the %s of the site" % what):
            continue
        e = es[0]
        attr = "_parser_" + what
        ctx.expect(contains(e[1], lambda x: self_attr(x, attr)), "base",
                   what + ":source", "the %s come from %s" % (
                       what, show(e[1])))
        if what == "results":
            ctx.expect(e[1][0] == "call" and "deepcopy" in str(e[1][1]),
                       "base", "results:copy", "the rules of the site are "
                       "shared with the user: %s" % show(e[1]))
        for p in ps:
            ctx.expect(before(evs, e, p), "base", what + ":order", "the "
                       "preferences of the user come before the %s of the "
                       "site" % what)
    for p in ps:
        ctx.expect(rs and before(evs, p, rs[-1]), "user", "parse:order",
                   "the rules are made before the preferences are read")


GOOD = ("alice", "bob", "a.b", "user@example.com", "x-y_z", "..a", "a..")
EVIL = ("..", ".", "", "../root", "a/b", "/etc", "../../etc", "a/../../b",
        "/", "./alice", "alice/", "alice/..", "alice/../bob")


def paths(ctx):
    got = {}
    for u in GOOD + EVIL:
        pol, I, outs = user_run(ctx, ("const", u))
        ps = set()
        for nm, a, s in pol.paths:
            if not ctx.expect(is_const(a) and isinstance(a[1], str), "path",
                              "form", "the path %s of the preferences could "
                              "not be determined" % show(a)):
                return
            ps.add(posixpath.normpath(a[1]) if a[1] else "")
        got[u] = ps
    a, b = got["alice"], got["bob"]
    if not ctx.expect(len(a) == 1 and len(b) == 1, "path", "single",
                      "the preferences of one user are %s" % sorted(a | b)):
        return
    a, b = list(a)[0], list(b)[0]
    if not ctx.expect("/alice/" in a and a.replace("/alice/", "/bob/", 1)
                      == b, "path", "own", "the preferences of alice are %s "
                      "and those of bob %s" % (a, b)):
        return
    base, rest = a.split("/alice/", 1)
    owner = {}
    for u in GOOD + EVIL:
        for p in got[u]:
            ctx.expect(p.startswith(base + "/") and p.endswith("/" + rest)
                       and "/" not in p[len(base) + 1:-len(rest) - 1] and
                       p[len(base) + 1:-len(rest) - 1] not in ("", ".", ".."),
                       "path", "inside:%r" % u, "the user name %r selects "
                       "the file %s" % (u, p))
            o = owner.setdefault(p, u)
            ctx.expect(o == u, "path", "other:%r" % u, "the user name %r "
                       "selects the file of %r" % (u, o))
    for u in GOOD:
        ctx.expect(got[u], "path", "good:%r" % u, "the preferences of the "
                   "user %r are never read" % u)
    ctx.floor("user names tried", len(got), 15)


class UserOf(Handling):
    """the rule set is what the lookup gave for the user of the request"""

    def other(self, I, st, node, callee, nm, args, kw):
        if nm == "get_user_ruleset":
            a = (list(args) + list(kw.values()) + [NONE])[0]
            t = ("call", "USER_RULESET", (a,), I.site(node))
            self.users.append((a, st))
            return [("ok", t, st)]
        if nm == "handle" and callee[0] in ("bm", "meth"):
            obj = callee[2] if callee[0] == "bm" else callee[1]
            self.used.append((st.heap.get((obj, "attr", "ruleset")), st))
        if callee[0] == "cls" and callee[1].qual == "oa.message.Message":
            self.msgs.append((args[0] if args else NONE, st))
        return Handling.other(self, I, st, node, callee, nm, args, kw)

    def __init__(self, p):
        Handling.__init__(self, p)
        self.used, self.msgs = [], []


def own_option(t):
    """options.get("user") of the dictionary made for this request"""
    return t[0] == "mcall" and t[2] == "get" and t[1][0] == "obj" and \
        t[3] in ((("const", "user"),), (("const", "user"), NONE))


def requests(ctx):
    base, subs = commands(ctx)
    n = 0
    for c in subs:
        for line, user in ((b"User: alice\r\n", ("const", "alice")),
                           (b"USER:bob\r\n", ("const", "bob")),
                           (b"Message-class: spam\r\n", NONE)):
            def mk(p):
                h = UserOf(p)
                h.readline = line
                return h
            f, pol, I, outs = run_cmd(ctx, c, mk)
            if not pol.used:
                continue
            for t, s in pol.used:
                seen = s.mon[3] == "seen"
                if not seen and user != NONE:
                    want = NONE
                else:
                    want = user
                n += 1
                ok = t is not None and t[0] == "call" and \
                    t[1] == "USER_RULESET" and (
                        t[2] == (want,) or want == NONE and
                        own_option(t[2][0]))
                ctx.expect(ok, "request", "%s:%s" % (
                    c.name, line.decode().strip() if seen else "no user"),
                    "the command is run with %s instead of the rules of "
                    "user %s" % (show(t) if t else "the rules of the last "
                                 "request", show(want)))
            for t, s in pol.msgs:
                ctx.expect(contains(t, lambda x: x[0] == "call" and
                                    x[1] == "USER_RULESET"), "request",
                           c.name + ":message", "the message is made for "
                           "%s" % show(t))
    ctx.floor("requests with and without a user", n, 20)


# --------------------------------------------------------------- P22
class Reload(BasePolicy):
    """Monitor: attributes stored so far, in order."""
    mods = ("oa.server",)

    def __init__(self, p):
        BasePolicy.__init__(self, p)
        self.issues = {}
        self.values = {}

    def init_mon(self):
        return ()

    def inline(self, I, fi):
        return fi.module.name.startswith(self.mods) or fi.is_cm

    def bad(self, c, m, st):
        self.issues.setdefault(c, m + " (path %s)" % path_str(st))

    def on_attr_store(self, I, st, node, base, name, value):
        if base[0] == "sym" and base[1] == "self":
            self.values.setdefault(name, set()).add((value, st))
            return st.with_mon(st.mon + (name,))

    def on_mutate(self, I, st, node, base, meth, args):
        if self_attr(base):
            self.bad("mutate:" + base[2], "self.%s is changed in place (%s) "
                     "while requests may be using it" % (base[2], meth), st)

    def on_item_store(self, I, st, node, base, key, value):
        if self_attr(base):
            self.bad("mutate:" + base[2], "self.%s is changed in place "
                     "while requests may be using it" % base[2], st)

    def on_del(self, I, st, node, base, key):
        if self_attr(base):
            self.bad("mutate:" + base[2], "self.%s is changed in place "
                     "while requests may be using it" % base[2], st)

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee) or str(callee[1])
        if nm in ("debug", "info", "warning", "warn", "error", "exception",
                  "critical", "dict", "list", "len", "time", "clear"):
            return [("ok", ("call", nm, tuple(args), I.site(node)), st)] \
                if nm != "clear" else None
        if callee[0] in ("bm", "fn") and self.inline(I, callee[1]):
            return None
        if st.mon:
            self.bad("late:" + nm, "%s, which may fail, is called when "
                     "self.%s is already replaced" % (nm, st.mon[-1]), st)
        base = (callee[1],) if callee[0] in ("meth", "attr") else ()
        t = ("call", nm, base + tuple(args), I.site(node))
        return [("ok", t, st), ("exc", ("exc", "ANY", I.site(node)), st)]


PLAIN = ("log", "paranoid", "ignore_unknown", "sitepath", "configpath")


@check("P22", "reload replaces everything or nothing")
def p22(ctx):
    c = ctx.p.cls(SERVER)
    f = c.find("load_config")
    hold = {}

    def mk():
        hold["p"] = Reload(ctx.p)
        return hold["p"]
    I, outs = run(mk, ctx.p, f, args={f.params()[0]: (
        "sym", "self", SERVER)}, self_cls=c)
    ctx.saw(I)
    pol = hold["p"]
    for k, m in sorted(pol.issues.items()):
        ctx.bad("atomic", k, m)
    upol, UI, uouts = user_run(ctx, USER)
    reads = {e[1] for k, v, s in uouts for e in of(s.mon, "load")
             if not callable_attr(c, e[1])} - set(PLAIN)
    ctx.floor("parts of the configuration", len(reads), 3)
    full = 0
    cache = {e[1] for k, v, s in uouts for e in of(s.mon, "cache")}
    for k, v, s in outs:
        got = set(s.mon)
        if k == "exc":
            ctx.expect(not got, "atomic", "failure", "loading fails after "
                       "self.%s has been replaced" % (s.mon or ("?",))[0])
            continue
        if not got:
            continue
        full += 1
        for a in sorted(reads):
            ctx.expect(a in got, "complete", a, "self.%s of the previous "
                       "configuration survives a reload" % a)
        order = list(s.mon)
        for a in sorted(cache & got):
            i = len(order) - 1 - order[::-1].index(a)
            for b in sorted((reads & got) - cache):
                j = len(order) - 1 - order[::-1].index(b)
                ctx.expect(j < i, "order", "%s:%s" % (a, b), "self.%s is "
                           "emptied before self.%s is replaced, so rules "
                           "made from the old one can survive" % (a, b))
    ctx.floor("successful reloads", full, 1)
    for a in sorted(cache):
        for v, st in pol.values.get(a, ()):
            ctx.expect(v[0] == "obj" and st.heap.get((v, "elems")) == () or
                       v[0] == "new" or v[0] == "call" and v[1] == "dict" and
                       not v[2], "fresh", a, "self.%s becomes %s, which is "
                       "not a new empty cache" % (a, show(v)))
    consistent(ctx, pol, reads - cache)
    # a rule set is stored where a reload will not keep it
    n = 0
    for k, v, s in uouts:
        evs = list(s.mon)
        for e in of(evs, "cache"):
            n += 1
            loads = [x for x in evs if x == ("load", e[1])]
            for src in sorted(reads - cache):
                used = ("load", src)
                if used not in evs or src == "_ruleset" and \
                        not built_from(e[3], src):
                    continue
                ctx.expect(loads and before(evs, loads[0], used) and
                           once(UI, c, e[1], "get_user_ruleset"),
                           "stale", "%s:%s" % (e[1], src), "the cache is "
                           "looked up after self.%s was read: rules made "
                           "from the previous configuration can be stored "
                           "in the new cache" % src)
    ctx.floor("rule sets stored", n, 1)
    writers(ctx, I, reads)


def callable_attr(c, name):
    return c.find(name) is not None


def built_from(v, src):
    """Is the value made from self.<src> (other than from the parsing flags,
    which never change)?"""
    def strip(t):
        if not isinstance(t, tuple):
            return t
        if len(t) > 2 and t[0] == "attr" and t[2] in ("paranoid",
                                                      "ignore_unknown"):
            return NONE
        return tuple(strip(x) for x in t)
    return contains(strip(v), lambda x: self_attr(x, src))


def once(I, c, attr, entry):
    """the attribute is read a single time by the functions of the lookup
    (read again, it might be another container)"""
    n = 0
    for q in I.analysed:
        fi = I.p.funcs.get(q)
        if fi is None or fi.cls is None or not fi.module.name.startswith(
                "oa.server"):
            continue
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Attribute) and x.attr == attr and \
                    isinstance(x.ctx, ast.Load):
                n += 1
    return n == 1


def consistent(ctx, pol, attrs):
    """all parts come from the same parser"""
    srcs = {}
    for a in sorted(attrs):
        for v, st in pol.values.get(a, ()):
            got = set()
            contains(v, lambda x: x[0] == "call" and
                     x[1] == "parse_pad_rules" and got.add(x))
            srcs.setdefault(a, set()).update(got)
            ctx.expect(len(got) == 1, "same", a, "self.%s becomes %s, which "
                       "is not from the configuration just parsed" % (
                           a, show(v)))
    alls = set()
    for s in srcs.values():
        alls |= s
    ctx.expect(len(alls) <= 1, "same", "parser", "the parts come from %d "
               "readings of the configuration" % len(alls))


def writers(ctx, I, attrs):
    """nothing else replaces these attributes"""
    c = ctx.p.cls(SERVER)
    fam = {c} | set(c.all_subs())
    n = 0
    for fi in sorted(ctx.p.funcs.values(), key=lambda f: f.qual):
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Attribute) and x.attr in attrs and \
                    isinstance(x.ctx, (ast.Store, ast.Del)):
                if fi.cls not in fam and x.attr in ("ruleset",):
                    continue
                n += 1
                ctx.expect(fi.qual in I.analysed or fi.name == "__init__"
                           and fi.cls in fam, "writer", "%s:%s" % (
                               fi.qual, x.attr), "%s also replaces %s" % (
                                   fi.qual, x.attr))
    ctx.floor("assignments of the parts", n, 6)
