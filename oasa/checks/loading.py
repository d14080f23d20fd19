"""P29: which configuration files are loaded, and in which order."""
import fnmatch
import posixpath

from ..absint import FALSE, NONE, TRUE, contains, is_const, show
from ..core import check
from ..model import AnalysisError
from ..util import BasePolicy, driver, mkdict, path_str, run
from .protocol import meth_name

TREE = {
    "/site": ("b.cf", "z.pre", "a.cf", "init.pre", "readme.txt", "10.cf",
              "v320.pre", "Z.cf", "x.cf.bak", "pre", "y.prefs", "n.cfg"),
    "/conf": ("c.cf", "n.pre", "50_scores.cf", "m.pre", "notes", "A.cf",
              "a.pre.old"),
    "/empty": (),
}
FILES = {"/home/u/.spamassassin/user_prefs", "/prefs"}


class Tree(BasePolicy):
    """A fixed directory tree instead of the file system."""
    mods = ("oa.config",)

    def inline(self, I, fi):
        return fi.module.name == "oa.config" or fi.is_cm

    def on_call(self, I, st, node, callee, args, kw):
        nm = callee[1] if callee[0] == "ext" else None
        a = args[0][1] if args and is_const(args[0]) and isinstance(
            args[0][1], str) else None
        if nm is None or a is None:
            return None
        if nm == "os.listdir":
            k, o, s = I._new_list(node, [("const", x) for x in TREE.get(
                posixpath.normpath(a), ())], st)
            return [("ok", o, s)]
        if nm in ("glob.glob", "glob.iglob"):
            d, pat = posixpath.split(a)
            k, o, s = I._new_list(node, [
                ("const", posixpath.join(d, x)) for x in TREE.get(d, ())
                if fnmatch.fnmatchcase(x, pat)], st)
            return [("ok", o, s)]
        if nm == "os.path.expanduser":
            if a.startswith("~/"):
                a = "/home/u" + a[1:]
            return [("ok", ("const", a), st)]
        a = posixpath.normpath(a)
        if nm in ("os.path.exists", "os.path.isfile", "os.path.isdir",
                  "os.access"):
            d, b = posixpath.split(a)
            isf = a in FILES or b in TREE.get(d, ())
            isd = a in TREE
            r = isf if nm.endswith("isfile") else isd if nm.endswith(
                "isdir") else isf or isd
            return [("ok", ("const", r), st)]
        return None


def expected(conf, site, prefs):
    def ext(d, e):
        return sorted(posixpath.join(d, x) for x in TREE[d] if x.endswith(e))
    out = ext(site, ".pre")
    if site != conf:
        out += ext(conf, ".pre") + ext(conf, ".cf")
    out += ext(site, ".cf")
    if prefs is not None:
        p = prefs.replace("~", "/home/u", 1)
        if p in FILES:
            out.append(p)
    return out


def files(ctx):
    f = ctx.p.func("oa.config.get_config_files")
    ps = f.params()
    n = 0
    for conf in ("/conf", "/site", "/empty"):
        for site in ("/site", "/empty"):
            for prefs in (None, "/prefs", "~/.spamassassin/user_prefs",
                          "/missing", "~/none"):
                I, outs = run(lambda: Tree(ctx.p), ctx.p, f, args={
                    ps[0]: ("const", conf), ps[1]: ("const", site),
                    ps[2]: ("const", prefs)})
                ctx.saw(I)
                want = expected(conf, site, prefs)
                what = "%s,%s,%s" % (conf, site, prefs)
                for k, v, s in outs:
                    n += 1
                    if k != "ret":
                        ctx.bad("files", what, "the list of files cannot be "
                                "made")
                        continue
                    ex = I._exact(v, s)
                    if not ctx.expect(ex is not None and all(
                            is_const(e) for e in ex), "files",
                            what + ":known", "the files are %s, which could "
                            "not be determined" % show(v)):
                        continue
                    got = [posixpath.normpath(e[1]) for e in ex]
                    ctx.expect(got == want, "files", what, "the files "
                               "loaded are %s instead of %s" % (got, want))
    ctx.floor("directory layouts", n, 30)


class Each(BasePolicy):
    """Monitor: files parsed, in order."""
    def init_mon(self):
        return ()

    def on_call(self, I, st, node, callee, args, kw):
        if meth_name(callee) == "parse_file":
            return [("ok", NONE, st.with_mon(st.mon + (
                args[0] if args else NONE,)))]
        if callee[0] == "cls" and callee[1].qual == \
                "oa.rules.parser.PADParser":
            return [("ok", ("call", "PARSER", (), I.site(node)), st)]
        return None


NAMES = ("/z.pre", "/a.cf", "/z.cf", "/a.cf", "/b")


def all_parsed(ctx):
    src = "def driver():\n    files = %r\n    return " \
        "oa.rules.parser.parse_pad_rules(files)\n" % list(NAMES)
    d = driver(ctx.p, "import oa.rules.parser\n" + src)
    I, outs = run(lambda: Each(ctx.p), ctx.p, d)
    ctx.saw(I)
    n = 0
    for k, v, s in outs:
        if k != "ret":
            continue
        n += 1
        ctx.expect(s.mon == tuple(("const", x) for x in NAMES), "parsed",
                   "parse_pad_rules", "given %s it parses %s" % (
                       list(NAMES), [show(x) for x in s.mon]))
        ctx.expect(v[0] == "call" and v[1] == "PARSER", "parsed",
                   "parse_pad_rules:parser", "another parser is returned")
    ctx.floor("ways the files are parsed", n, 1)


class Uses(BasePolicy):
    """Which paths the programs load."""
    small = 40

    def __init__(self, p):
        BasePolicy.__init__(self, p)
        self.calls = []
        self.parsed = []

    def inline(self, I, fi):
        return fi.is_cm or fi.module is I.frames[0].fi.module

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        if nm == "get_config_files":
            self.calls.append((list(args), dict(kw), st))
            return [("ok", ("call", "CONFIG_FILES", tuple(args) + tuple(
                sorted(kw.items())), I.site(node)), st)]
        if nm == "parse_pad_rules":
            self.parsed.append((args[0] if args else kw.get("files", NONE),
                                st))
        return None


def arg(f, args, kw, name):
    ps = f.params()
    if name in kw:
        return kw[name]
    i = ps.index(name)
    return args[i] if i < len(args) else NONE


def programs(ctx):
    g = ctx.p.func("oa.config.get_config_files")
    names = g.params()
    n = 0
    for q, cls, prefs in (
            ("scripts.match.main", None, True),
            ("scripts.compile.main", None, True),
            ("oa.server.Server.load_config", "oa.server.Server", False)):
        f = ctx.p.funcs.get(q)
        if f is None:
            raise AnalysisError("%s not found" % q)
        hold = {}

        def mk():
            hold["p"] = Uses(ctx.p)
            return hold["p"]
        args = {f.params()[0]: ("sym", "self", cls)} if cls else None
        I, outs = run(mk, ctx.p, f, args=args)
        ctx.saw(I)
        pol = hold["p"]
        ctx.floor("configuration lookups of %s" % q, len(pol.calls), 1)
        ctx.floor("configurations parsed by %s" % q, len(pol.parsed), 1)
        for args, kw, st in pol.calls:
            for name, attr in zip(names, ("configpath", "sitepath",
                                          "prefspath")):
                v = arg(g, args, kw, name)
                n += 1
                if attr == "prefspath" and not prefs:
                    ctx.expect(v == NONE, "program", "%s:%s" % (q, attr),
                               "preferences are loaded for everybody")
                    continue
                ctx.expect(v[0] == "attr" and v[2] == attr or
                           v[0] == "call" and attr in str(v), "program",
                           "%s:%s" % (q, attr), "%s is used as the %s" % (
                               show(v), attr))
        for v, st in pol.parsed:
            ctx.expect(v[0] == "call" and v[1] == "CONFIG_FILES", "program",
                       "%s:all" % q, "the files parsed are %s" % show(v))
    ctx.floor("paths of programs", n, 9)


# ------------------------------------------------------------ overriding
class Line(BasePolicy):
    mods = ("oa.rules.parser",)
    known_exc = True

    def __init__(self, p):
        BasePolicy.__init__(self, p)
        self.hooked = []

    def inline(self, I, fi):
        return fi.module.name == "oa.rules.parser" or fi.is_cm

    def init_mon(self):
        return ()

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        if nm == "hook_parse_config":
            return [("ok", TRUE, st.with_mon(st.mon + (
                ("hook",) + tuple(args),)))]
        if callee == ("ext", "locale.setlocale"):
            return [("ok", NONE, st)]
        if callee == ("ext", "locale.getlocale"):
            return [("ok", ("tuple", (("const", "fr_FR"),
                                      ("const", "UTF-8"))), st)]
        return None


LINES = (
    ("body FOO /new/", {"type": "body", "value": "/new/"}),
    ("header FOO Subject =~ /new/", {"type": "header",
                                     "value": "Subject =~ /new/"}),
    ("rawbody FOO /new/", {"type": "rawbody", "value": "/new/"}),
    ("uri FOO /new/", {"type": "uri", "value": "/new/"}),
    ("full FOO /new/", {"type": "full", "value": "/new/"}),
    ("meta FOO BAR && BAZ", {"type": "meta", "value": "BAR && BAZ"}),
    ("body FOO eval:check()", {"type": "eval", "value": "eval:check()",
                               "target": "body"}),
    ("score FOO 5", {"score": "5"}),
    ("score FOO 1 2 3 4", {"score": "1 2 3 4"}),
    ("priority FOO -7", {"priority": "-7"}),
    ("describe FOO new text", {"describe": "new text"}),
    ("tflags FOO net nice", {"tflags": ("net", "nice")}),
    ("lang fr describe FOO neuf", {"describe": "neuf"}),
    ("lang de describe FOO neu", {}),
    ("score FOO 5 # comment", {"score": "5"}),
    ("  score   FOO   5  ", {"score": "5"}),
)
OLD = {"type": "body", "value": "/old/", "score": "1", "priority": "3",
       "describe": "old", "target": "header"}


def no_cmds(heap, self_t):
    """no plugin has added rule types"""
    c = ("sym", "ctxt", "oa.context.GlobalContext")
    heap[(self_t, "attr", "ctxt")] = c
    heap[(c, "attr", "cmds")] = mkdict(heap, {}, "cmds")


def override(ctx):
    cls = ctx.p.cls("oa.rules.parser.PADParser")
    f = cls.find("_handle_line")
    if f is None:
        raise AnalysisError("PADParser._handle_line not found")
    n = 0
    for prior in (True, False):
        for line, want in LINES:
            heap = {}
            self_t = ("sym", "self", cls.qual)
            tfl = ("obj", ("<client>", "tflags", 0), "list")
            heap[(tfl, "elems")] = (("const", "old"),)
            heap[(tfl, "exact")] = ("tuple", (("const", "old"),))
            old = dict(OLD, tflags=tfl)
            foo = mkdict(heap, old, "FOO")
            other = mkdict(heap, dict(OLD), "OTHER")
            res = {"OTHER": other}
            if prior:
                res["FOO"] = foo
            heap[(self_t, "attr", "results")] = mkdict(heap, res, "results")
            results = heap[(self_t, "attr", "results")]
            no_cmds(heap, self_t)
            heap[(self_t, "attr", "_ignore")] = FALSE
            ps = f.params()
            I, outs = run(lambda: Line(ctx.p), ctx.p, f, args={
                ps[0]: self_t, ps[1]: ("const", "/f.cf"),
                ps[2]: ("const", line.encode() + b"\n"),
                ps[3]: ("const", 7)}, heap=heap)
            ctx.saw(I)
            what = "%s line %r" % ("later" if prior else "first", line)
            rets = 0
            for k, v, s in outs:
                if k != "ret":
                    ctx.bad("override", what, "the line is not understood: "
                            "%s" % show(v))
                    continue
                rets += 1
                n += 1
                o = s.heap.get((results, "item", ("const", "FOO")))
                if not want and not prior:
                    ctx.ok("override", what)
                    continue
                if not ctx.expect(o is not None and o[0] == "obj",
                                  "override", what + ":entry", "the rule is "
                                  "not recorded"):
                    continue
                keys = set(want) | (set(old) if prior else set())
                for key in sorted(keys):
                    got = s.heap.get((o, "item", ("const", key)))
                    w = want.get(key, old.get(key) if prior else None)
                    if isinstance(w, tuple) and w[:1] != ("obj",):
                        ex = I._exact(got, s) if got else None
                        if got and got[0] == "const" and isinstance(
                                got[1], tuple):
                            ex = [("const", x) for x in got[1]]
                        okv = ex is not None and tuple(
                            x[1] for x in ex if is_const(x)) == w
                    elif isinstance(w, tuple):
                        okv = got == w
                    else:
                        okv = got == ("const", w)
                    if key == "target" and key not in want and \
                            "type" in want:
                        continue     # meaningless for the new type
                    ctx.expect(okv, "override", "%s:%s" % (what, key),
                               "after the line %r the rule has %s=%s instead "
                               "of %r" % (line, key, show(got) if got else
                                          "nothing", w))
                for key, w in OLD.items():
                    got = s.heap.get((other, "item", ("const", key)))
                    ctx.expect(got == ("const", w), "override",
                               what + ":other", "another rule changes")
            ctx.floor("outcomes of %s" % what, rets, 1)
    # everything else goes to the options, in order
    for line, want in ((b"required_score 7\n", ("required_score", "7")),
                       (b"report some text\n", ("report", "some text")),
                       (b"clear_report_template\n",
                        ("clear_report_template", ""))):
        heap = {}
        self_t = ("sym", "self", cls.qual)
        no_cmds(heap, self_t)
        heap[(self_t, "attr", "_ignore")] = FALSE
        ps = f.params()
        I, outs = run(lambda: Line(ctx.p), ctx.p, f, args={
            ps[0]: self_t, ps[1]: ("const", "/f.cf"), ps[2]: ("const", line),
            ps[3]: ("const", 7)}, heap=heap)
        for k, v, s in outs:
            n += 1
            ctx.expect(k == "ret" and s.mon == (
                ("hook",) + tuple(("const", x) for x in want),), "option",
                line.decode().strip(), "the line is passed on as %s" % (
                    [[show(x) for x in m[1:]] for m in s.mon],))
    ctx.floor("configuration lines", n, 20)


class Reading(BasePolicy):
    """parse_file: each line is handled once, in order, from the start.
    Monitor: lines handled in this iteration, or None."""
    mods = ("oa.rules.parser",)

    def __init__(self, p):
        BasePolicy.__init__(self, p)
        self.issues = {}
        self.handled = 0
        self.starts = []

    def init_mon(self):
        return (None, False)

    def inline(self, I, fi):
        return fi.is_cm or fi.module.name == "oa.rules.parser" and \
            fi.name != "_handle_line"

    def on_iter(self, I, st, node, it, elem):
        return st.with_mon((0, True))

    def on_iter_end(self, I, st, node, kind):
        if st.mon[0] == 0:
            self.issues.setdefault("line", "a line is not handled (path %s)"
                                   % path_str(st))
        if kind == "brk":
            self.issues.setdefault("stop", "the rest of the file is skipped "
                                   "(path %s)" % path_str(st))
        return st.with_mon((None, True))

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        if nm == "_handle_line":
            self.handled += 1
            if st.mon[0] is None:
                self.issues.setdefault("outside", "lines are handled outside "
                                       "of the loop over the file")
            elif st.mon[0] > 0:
                self.issues.setdefault("twice", "a line is handled twice")
            me = callee[2] if callee[0] == "bm" else callee[1]
            self.starts.append(st.heap.get((me, "attr", "_ignore")))
            if not contains(tuple(args), lambda x: x[0] == "iter"):
                self.issues.setdefault("content", "what is handled is not "
                                       "the line read")
            s = st.with_mon(((st.mon[0] or 0) + 1, True))
            # an unfinished block may begin on any line
            s = s.store((me, "attr", "_ignore"), ("call", "LINE_IGNORE", (),
                                                  I.site(node)))
            return [("ok", NONE, s)]
        if nm == "sorted":
            self.issues.setdefault("order", "the lines are reordered")
        return None


def reading(ctx):
    cls = ctx.p.cls("oa.rules.parser.PADParser")
    f = cls.find("parse_file")
    heap = {}
    self_t = ("sym", "self", cls.qual)
    heap[(self_t, "attr", "_ignore")] = ("call", "PREVIOUS_IGNORE", (),
                                         ("?", 0, 0, 0))
    hold = {}

    def mk():
        hold["p"] = Reading(ctx.p)
        return hold["p"]
    ps = f.params()
    I, outs = run(mk, ctx.p, f, args={
        ps[0]: self_t, ps[1]: ("const", "/f.cf")}, heap=heap)
    ctx.saw(I)
    pol = hold["p"]
    ctx.floor("lines handled", pol.handled, 1)
    for c, m in sorted(pol.issues.items()):
        ctx.bad("reading", c, m)
    if not pol.issues:
        ctx.ok("reading", "parse_file")
    ctx.expect(FALSE in pol.starts and not any(
        t is not None and contains(t, lambda x: x[0] == "call" and
                                   x[1] == "PREVIOUS_IGNORE")
        for t in pol.starts), "reading", "block", "a conditional block left "
        "open in one file makes the lines of the next file be skipped")
    for k, v, s in outs:
        if k == "ret" and s.mon[1]:
            ig = s.heap.get((self_t, "attr", "_ignore"))
            ctx.expect(ig is not None and not contains(
                ig, lambda x: x[0] == "call" and x[1] == "LINE_IGNORE"),
                "reading", "block:end", "a conditional block left open in "
                "an included file makes the rest of the including file be "
                "skipped")


class Include(Line):
    def on_call(self, I, st, node, callee, args, kw):
        if meth_name(callee) == "parse_file":
            return [("ok", NONE, st.with_mon(st.mon + (
                ("file", args[0] if args else NONE),)))]
        return Line.on_call(self, I, st, node, callee, args, kw)


def include(ctx):
    cls = ctx.p.cls("oa.rules.parser.PADParser")
    f = cls.find("_handle_line")
    ps = f.params()
    for fn, name, want in (
            ("/etc/sa/local.cf", "extra.cf", "/etc/sa/extra.cf"),
            ("/etc/sa/local.cf", "/abs/extra.cf", "/abs/extra.cf"),
            ("/etc/sa/local.cf", "sub/extra.cf", "/etc/sa/sub/extra.cf")):
        heap = {}
        self_t = ("sym", "self", cls.qual)
        heap[(self_t, "attr", "_ignore")] = FALSE
        I, outs = run(lambda: Include(ctx.p), ctx.p, f, args={
            ps[0]: self_t, ps[1]: ("const", fn),
            ps[2]: ("const", b"include " + name.encode() + b"\n"),
            ps[3]: ("const", 7), ps[4]: ("const", 0)}, heap=heap)
        ctx.saw(I)
        n = 0
        for k, v, s in outs:
            if k != "ret":
                continue
            n += 1
            got = [posixpath.normpath(m[1][1]) for m in s.mon
                   if m[0] == "file" and is_const(m[1])]
            ctx.expect(got == [want], "include", "%s from %s" % (name, fn),
                       "the file included is %s instead of %s" % (
                           [show(m[1]) for m in s.mon if len(m) > 1], want))
        ctx.floor("includes handled", n, 1)


# ------------------------------------------------------------ options
class Opt(BasePolicy):
    known_exc = True

    def inline(self, I, fi):
        return fi.module.name in ("oa.conf", "oa.plugins.base") or fi.is_cm


def options(ctx):
    """A later line of a single-valued option replaces the earlier one."""
    base = ctx.p.cls("oa.conf.Conf")
    n = 0
    for typ, values in (("int", ("3", "12")), ("float", ("1.5", "7")),
                        ("bool", ("1", "0")), ("str", ("a", "b c")),
                        ("bool", ("0", "1")), ("int", ("12", "0"))):
        f = base.find("set_%s_option" % typ)
        if f is None:
            raise AnalysisError("no setter for options of type %s" % typ)
        src = "def driver(conf):\n" + "".join(
            "    conf.set_%s_option('K', %r)\n" % (typ, v) for v in values)
        d = driver(ctx.p, src)
        alone = driver(ctx.p, "def driver(conf):\n    conf.set_%s_option("
                       "'K', %r)\n" % (typ, values[-1]))
        ends = []
        for x in (d, alone):
            I, outs = run(lambda: Opt(ctx.p), ctx.p, x, args={
                "conf": ("sym", "conf", base.qual)})
            ctx.saw(I)
            ends.append({frozenset(
                (k[2], _plain(v)) for k, v in s.heap.items()
                if k[1] == "item" and k[2] == ("const", "K"))
                for k0, v0, s in outs if k0 == "ret"})
        n += 1
        ctx.expect(ends[0] == ends[1] and ends[1] and frozenset() not in
                   ends[1], "option", "type %s" % typ, "after the values %r "
                   "the option is %s instead of %s" % (
                       values, sorted(map(str, ends[0])),
                       sorted(map(str, ends[1]))))
    for typ, values, want in (
            ("append", ("b", "c d"), ("a", "b", "c d")),
            ("append_split", ("b c", "d"), ("a", "b", "c", "d"))):
        f = base.find("set_%s_option" % typ)
        if f is None:
            raise AnalysisError("no setter for options of type %s" % typ)
        d = driver(ctx.p, "def driver(conf):\n" + "".join(
            "    conf.set_%s_option('K', %r)\n" % (typ, v) for v in values))
        heap = {}
        conf = ("sym", "conf", base.qual)
        old = ("obj", ("<client>", "old", 0, 0), "list")
        heap[(old, "elems")] = (("const", "a"),)
        heap[(old, "exact")] = ("tuple", (("const", "a"),))
        heap[(conf, "item", ("const", "K"))] = old
        I, outs = run(lambda: Opt(ctx.p), ctx.p, d, args={"conf": conf},
                      heap=heap)
        ctx.saw(I)
        for k, v, s in outs:
            if k != "ret":
                continue
            n += 1
            got = s.heap.get((conf, "item", ("const", "K")))
            ex = got is not None and I._exact(got, s)
            ctx.expect(ex and tuple(x[1] for x in ex if is_const(x)) == want,
                       "option", "type %s" % typ, "after the values %r are "
                       "added to ['a'] the option is %s" % (
                           values, [show(x) for x in ex or ()]))
    ctx.floor("option types", n, 8)


def _plain(t):
    """drop the sites of a term"""
    if not isinstance(t, tuple):
        return t
    if len(t) == 4 and isinstance(t[0], str) and isinstance(t[1], int) and \
            isinstance(t[3], int):
        return None
    return tuple(_plain(x) for x in t)


@check("P29", "configuration files and their order")
def p29(ctx):
    files(ctx)
    all_parsed(ctx)
    programs(ctx)
    reading(ctx)
    override(ctx)
    include(ctx)
    options(ctx)
