"""P11, P12: what is asked of the DNS."""
import ast
import datetime
import itertools

from ..absint import FALSE, NONE, TRUE, contains, is_const, show
from ..core import check
from ..model import AnalysisError, dotted
from ..util import (BasePolicy, mkdict, mkobj, names_in, path_str,
                    run, size, text)
from .protocol import meth_name
from .relays import mklist

DNS = "oa.dns_interface.DNSInterface"
RESOLVER = "dns.resolver.Resolver"


class Dns(BasePolicy):
    """Everything of the DNS interface is analysed in place; the questions
    put to the resolver are recorded."""
    mods = ("oa.dns_interface",)
    unroll_while = 8
    known_exc = True
    raises = ()
    now = 0
    answers = ()     # the results the resolver gives in turn (None: unknown)

    def init_mon(self):
        return ()

    def inline(self, I, fi):
        return fi.module.name == "oa.dns_interface" or fi.is_cm

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        if nm in ("query", "resolve", "resolve_address") and \
                callee[0] == "meth":
            out = []
            q = ("asked", args[0] if args else kw.get("qname", NONE),
                 args[1] if len(args) > 1 else kw.get("rdtype", NONE))
            s = st.with_mon(st.mon + (q,))
            if self.answers:
                n = sum(1 for x in st.mon if x[0] == "asked")
                out.append(("ok", self.answers[n % len(self.answers)], s))
            else:
                out.append(("ok", ("call", "ANSWER", tuple(args),
                                   I.site(node)), s))
            for e in self.raises:
                out.append(("exc", ("exc", e, I.site(node)), s))
            return out
        if callee == ("ext", "dns.reversename.from_address"):
            return [("ok", ("call", "REVERSE", tuple(args), 0), st)] + [
                ("exc", ("exc", e, I.site(node)), st)
                for e in self.raises[:1]]
        if callee == ("ext", "random.sample"):
            el = I._known_elts(args[0], st) or I._exact(args[0], st)
            if el is None:
                return None
            n = args[1][1] if len(args) > 1 and is_const(args[1]) else 3
            o, s = I.alloc(node, "list", st)
            vals = tuple(sorted(el, key=repr))[:n]
            s = s.store((o, "exact"), ("tuple", vals))
            return [("ok", o, s.store((o, "elems"), vals))]
        if callee == ("ext", "datetime.datetime.now"):
            return [("ok", ("const", self.now), st)]
        if callee == ("ext", "datetime.timedelta") and all(
                is_const(v) for v in list(kw.values()) + list(args)):
            try:
                t = datetime.timedelta(*[a[1] for a in args],
                                       **{k: v[1] for k, v in kw.items()})
            except TypeError:
                return None
            return [("ok", ("const", t.total_seconds()), st)]
        return None


ERRORS = ("dns.resolver.NXDOMAIN", "dns.resolver.NoAnswer",
          "dns.resolver.NoNameservers", "dns.resolver.YXDOMAIN",
          "dns.exception.Timeout", "dns.name.LabelTooLong",
          "dns.name.EmptyLabel", "dns.name.NameTooLong",
          "dns.resolver.NoMetaqueries", "dns.rdatatype.UnknownRdatatype",
          "ValueError", "IndexError", "struct.error")


def iface(ctx, heap, **attrs):
    a = {"_resolver": ("sym", "RESOLVER", None),
         "query_restrictions": ("sym", "restrictions", None)}
    a.update(attrs)
    return mkobj(heap, DNS, a, "dns")


def gate(ctx):
    """DNSInterface.query"""
    f = ctx.p.cls(DNS).find("query")
    if f is None:
        raise AnalysisError("DNSInterface.query not found")
    g = ctx.p.cls(DNS).find("is_query_restricted")
    av = ctx.p.cls(DNS).find("available")
    if g is None or av is None:
        raise AnalysisError("DNSInterface.is_query_restricted/available "
                            "not found")

    class Gate(Dns):
        raises = ERRORS

        def inline(self, I, fi):
            return fi.module.name == "oa.dns_interface" and \
                fi.name not in ("is_query_restricted", "available")

    ps = f.params()
    n = 0
    for qtype in ("A", "PTR"):
        heap = {}
        self_t = iface(ctx, heap)
        q = ("sym", "qname", None)
        I, outs = run(lambda: Gate(ctx.p), ctx.p, f, args={
            ps[0]: self_t, ps[1]: q, ps[2]: ("const", qtype)}, heap=heap)
        ctx.saw(I)
        for k, v, s in outs:
            n += 1
            asked = [x for x in s.mon if x[0] == "asked"]
            r = a = None
            for c, b in s.facts.items():
                if c[0] != "truthy":
                    continue
                if contains(c, lambda x: x[0] == "call" and
                            x[1][:2] == ("bm", g) and x[2] == (q,)):
                    r = b
                elif contains(c, lambda x: x[0] == "call" and
                              x[1][:2] == ("bm", av)):
                    a = b
            if asked:
                ctx.expect(r is False, "gate", "restriction",
                           "the resolver is asked without testing that the "
                           "name is not restricted; %s" % path_str(s))
                ctx.expect(a is True, "gate", "availability",
                           "the resolver is asked without testing that DNS "
                           "is available; %s" % path_str(s))
                ctx.expect(all(contains(x[1], lambda y: y == q) and x[2] == (
                    "const", qtype) for x in asked), "gate", "question",
                    "the resolver is asked %s instead of the %s records of "
                    "the name" % ([show(x[1]) for x in asked], qtype))
            else:
                ctx.expect(r is True or a is False or k == "exc" or
                           qtype == "PTR", "gate",
                           "not-asked", "a name that is not restricted is "
                           "not asked for; %s" % path_str(s))
            if not ctx.expect(k == "ret", "gate", "raises", "an error (%s) "
                              "of the resolver is passed on" % (v[1],)):
                continue
            ex = I._exact(v, s)
            ans = contains(v, lambda x: x[:2] == ("call", "ANSWER"))
            ctx.expect(ans if asked and ans else ex == (), "gate", "result",
                       "the result is %s instead of %s" % (
                           show(v), "that of the resolver" if asked else
                           "empty"))
            if not asked:
                ctx.expect(ex == (), "gate", "empty", "without asking the "
                           "result is %s" % show(v))
    ctx.floor("ways through a query", n, 8)


TABLES = (
    {},
    {"example.com": True},
    {"example.com": False},
    {"example.com": True, "1.example.com": False},
    {"example.com": False, "1.example.com": True},
    {"1.example.com": True},
    {"com": True, "example.com": False, "2.1.example.com": True},
)
NAMES = ("example.com", "1.example.com", "2.1.example.com", "3.2.1.example.com",
         "anotherexample.com", "com", "localhost", "EXAMPLE.com",
         "example.com.", "2.1.Example.COM.")


def wanted(table, name):
    name = name.lower().rstrip(".")
    while True:
        if name in table:
            return table[name]
        if "." not in name:
            return False
        name = name.split(".", 1)[1]


def restricted(ctx):
    f = ctx.p.cls(DNS).find("is_query_restricted")
    ps = f.params()
    n = 0
    for table, name in itertools.product(TABLES, NAMES):
        heap = {}
        self_t = iface(ctx, heap, query_restrictions=mkdict(heap, table))
        I, outs = run(lambda: Dns(ctx.p), ctx.p, f, args={
            ps[0]: self_t, ps[1]: ("const", name)}, heap=heap)
        ctx.saw(I)
        for k, v, s in outs:
            n += 1
            w = wanted(table, name)
            ctx.expect(k == "ret" and is_const(v) and bool(v[1]) == w,
                       "restriction", "%s %s" % (name, sorted(
                           table.items())),
                       "with %s, %s is %s instead of %s" % (
                           table, name, show(v) if k == "ret" else v[1],
                           "restricted" if w else "allowed"))
    ctx.floor("names tested against restrictions", n,
              len(TABLES) * len(NAMES))


def available(ctx):
    """dns_available: yes, no, test, test: names"""
    cls = ctx.p.cls(DNS)
    setter = cls.setters.get("available")
    get = cls.find("available")
    init = cls.find("__init__")
    if setter is None or get is None or init is None:
        raise AnalysisError("DNSInterface.available is no property")
    n = 0
    hit = ("sym", "hit", None)
    for value, names, answers in (
            ("yes", None, "00000"), ("no", None, "11111"),
            ("test", 20, "000"), ("test", 20, "100"), ("test", 20, "001"),
            ("test: a.example b.example", 2, "00"),
            ("test: a.example b.example", 2, "01"),
            ("test: a.example b.example c.example d.example", 4, "0001"),
            ("test: a.example b.example c.example d.example", 4, "0010")):
        heap = {}
        self_t = mkobj(heap, DNS, {}, "dns")
        for c in cls.mro():
            for name, node in c.attrs.items():
                lit = ctx.p.literal(c.module, node)
                if isinstance(lit, (list, tuple)):
                    heap[(self_t, "attr", name)] = mklist(
                        heap, [("const", x) for x in lit], name)
        empty = mklist(heap, (), "none")
        full = mklist(heap, (hit,), "some")
        hold = {}

        def mk():
            p = Dns(ctx.p)
            p.answers = tuple(full if b == "1" else empty for b in answers)
            hold["p"] = p
            return p
        I, outs = run(mk, ctx.p, init, args={init.params()[0]: self_t},
                      heap=heap)
        ctx.saw(I)
        for k, v, s in outs:
            if k != "ret":
                continue
            h = dict(s.heap)
            h[(self_t, "attr", "_resolver")] = ("sym", "RESOLVER", None)
            I, outs2 = run(mk, ctx.p, setter, args={
                setter.params()[0]: self_t,
                setter.params()[1]: ("const", value)}, heap=h)
            ctx.saw(I)
            for k2, v2, s2 in outs2:
                ctx.expect(not s2.mon, "available", value + ":set",
                           "DNS is used when the option is set")

                def later():
                    mk().now = 10
                    return hold["p"]
                I, outs3 = run(later, ctx.p, get, args={
                    get.params()[0]: self_t}, heap=dict(s2.heap))
                ctx.saw(I)
                for k3, v3, s3 in outs3:
                    asked = [x for x in s3.mon if x[0] == "asked"]
                    n += 1
                    if names is None:
                        want = value == "yes"
                        ctx.expect(not asked, "available", value + ":asks",
                                   "with dns_available %s a test is made" %
                                   value)
                    else:
                        m = min(3, names)
                        first = answers[:m].find("1")
                        want = first >= 0
                        ctx.expect(len(asked) == (first + 1 if want else m),
                                   "available", value + ":asks", "with "
                                   "dns_available %s, %d names are asked "
                                   "for" % (value, len(asked)))
                    ctx.expect(k3 == "ret" and is_const(v3) and
                               bool(v3[1]) == want, "available", value + " "
                               + answers, "with dns_available %s and the "
                               "answers %s DNS is %s" % (
                                   value, answers, show(v3)))
                    again(ctx, mk, hold, get, self_t, s3, value,
                          names is not None, want, full, empty)
    ctx.floor("settings of dns_available", n, 9)


def interval(ctx):
    """dns_test_interval with its units."""
    cls = ctx.p.cls(DNS)
    setter, get = cls.setters.get("test_interval"), cls.find("test_interval")
    if setter is None or get is None:
        raise AnalysisError("DNSInterface.test_interval is no property")
    n = 0
    for value, want in (("5s", 5), ("10m", 600), ("2h", 7200), ("3d", 259200),
                        ("1w", 604800), ("90", 90), ("45s", 45)):
        heap = {}
        self_t = iface(ctx, heap)
        I, outs = run(lambda: Dns(ctx.p), ctx.p, setter, args={
            setter.params()[0]: self_t,
            setter.params()[1]: ("const", value)}, heap=heap)
        ctx.saw(I)
        for k, v, s in outs:
            if not ctx.expect(k == "ret", "interval", value, "fails with %s" %
                              (v[1],)):
                continue
            I, outs2 = run(lambda: Dns(ctx.p), ctx.p, get, args={
                get.params()[0]: self_t}, heap=dict(s.heap))
            for k2, v2, s2 in outs2:
                n += 1
                ctx.expect(k2 == "ret" and is_const(v2) and v2[1] == want,
                           "interval", value, "dns_test_interval %s is %s "
                           "seconds" % (value, show(v2)))
    ctx.floor("intervals between tests", n, 7)


def again(ctx, mk, hold, get, self_t, st, value, test, was, full, empty):
    """The answer stands until the interval is over, then a new test decides
    alone."""
    for now, ans in ((300, None), (100000, False), (100000, True)):
        def later():
            mk().now = now
            p = hold["p"]
            p.answers = (full,) if ans or ans is None and not was else (
                empty,)
            return p
        I, outs = run(later, ctx.p, get, args={get.params()[0]: self_t},
                      heap=dict(st.heap))
        ctx.saw(I)
        want = ans if test and ans is not None else was
        for k, v, s in outs:
            asked = [x for x in s.mon if x[0] == "asked"]
            ctx.expect(bool(asked) == (test and ans is not None),
                       "available-again", value + ":asks",
                       "with dns_available %s, %s seconds after a test DNS "
                       "is %stested" % (value, now, "" if asked else "not "))
            ctx.expect(k == "ret" and is_const(v) and bool(v[1]) == want,
                       "available-again", "%s %s->%s" % (value, was, ans),
                       "with dns_available %s and the new test %s, DNS is "
                       "%s" % (value, "answered" if ans else "without "
                               "answers" if ans is False else "not due",
                               show(v)))


class Conf(Dns):
    """Feeding the settings: runs with the option values given."""
    relevant_names = ("query_restrictions",)

    def inline(self, I, fi):
        return fi.module.name in ("oa.dns_interface", "oa.context") and \
            fi.name not in ("err",) or fi.is_cm

    def on_call(self, I, st, node, callee, args, kw):
        if meth_name(callee) == "_add_header_rule":
            return [("ok", NONE, st)]
        return Dns.on_call(self, I, st, node, callee, args, kw)


def feed(ctx):
    n = 0
    # restrictions and options
    f = ctx.p.cls("oa.rules.ruleset.RuleSet").find("_convert") or None
    f = None
    for g in ctx.p.cls("oa.rules.ruleset.RuleSet").methods.values():
        if any(isinstance(x, ast.Constant) and
               x.value == "dns_query_restriction" for x in ast.walk(g.node)):
            f = g
    if f is None:
        raise AnalysisError("dns_query_restriction is not read by RuleSet")
    for opts, lines in (
            ("norotate, nodns0x20, edns=4096", ()),
            ("rotate", ("deny example.com",)),
            ("rotate,edns=1024", ("allow 1.example.com",)),
            ("noedns", ("deny example.com", "allow 1.example.com")),
            ("norotate, noedns", ("allow 1.example.com",
                                  "deny example.com")),
            ("edns=512, rotate", ("deny  Example.COM.", "bogus x",
                                  "allow a.b")),
            ("", ("deny example.com", "allow example.com"))):
        heap = {}
        dns = mkobj(heap, DNS, {
            "_resolver": mkobj(heap, None, {}, "resolver"),
            "query_restrictions": mkdict(heap, {})}, "dns")
        empty = {k: mklist(heap, ()) for k in (
            "report", "unsafe_report", "add_header", "remove_header")}
        conf = mkdict(heap, dict(empty, dns_options=opts,
                                 dns_query_restriction=mklist(
                                     heap, [("const", x) for x in lines])))
        ctxt = mkobj(heap, "oa.context.GlobalContext", {
            "dns": dns, "conf": conf, "paranoid": False}, "ctxt")
        self_t = mkobj(heap, "oa.rules.ruleset.RuleSet", {
            "ctxt": ctxt, "conf": conf, "checked": mkdict(heap, {}),
            "not_checked": mkdict(heap, {})}, "ruleset")
        I, outs = run(lambda: Conf(ctx.p), ctx.p, f, args={
            f.params()[0]: self_t}, heap=heap)
        ctx.saw(I)
        want = {}
        for x in lines:
            o, q = x.split()
            if o in ("allow", "deny"):
                want[q.lower().rstrip(".")] = o == "deny"
        for k, v, s in outs:
            if not ctx.expect(k == "ret", "settings", "raises", "the "
                              "settings %r %s raise %s" % (opts, lines, v)):
                continue
            n += 1
            t = s.heap[(dns, "attr", "query_restrictions")]
            got = {kk[2][1]: vv[1] for kk, vv in s.heap.items()
                   if kk[0] == t and kk[1] == "item" and is_const(kk[2]) and
                   is_const(vv)}
            ctx.expect(got == want, "settings", "restrictions", "the "
                       "restrictions %s are kept as %s" % (lines, got))
            r = s.heap[(dns, "attr", "_resolver")]
            rot = s.heap.get((r, "attr", "rotate"))
            words = [x.strip() for x in opts.split(",")]
            ctx.expect(rot is not None and is_const(rot) and
                       bool(rot[1]) == ("rotate" in words), "settings",
                       "rotate", "with dns_options %r the servers are%s "
                       "rotated" % (opts, "" if rot and is_const(rot) and
                                    rot[1] else " not"))
            size = 512 if "noedns" in words else 4096
            for x in words:
                if x.startswith("edns="):
                    size = int(x[5:])
            ctx.expect(s.heap.get((r, "attr", "payload")) == (
                "const", size), "settings", "edns", "with dns_options %r "
                "the payload size is %s" % (opts, show(s.heap.get(
                    (r, "attr", "payload"), NONE))))
    # the resolver
    f = ctx.p.cls("oa.context.GlobalContext").find("_configure_dns")
    if f is None:
        raise AnalysisError("GlobalContext._configure_dns not found")
    for servers, want, port in (
            ((), None, None), (("127.0.0.1",), ("127.0.0.1",), 53),
            (("127.0.0.1:54",), ("127.0.0.1",), 54),
            (("[::1]:53", "10.0.0.1"), ("::1", "10.0.0.1"), 53),
            (("what?", "10.0.0.1:5353"), ("10.0.0.1",), 5353)):
        heap = {}
        dns = mkobj(heap, DNS, {
            "_resolver": mkobj(heap, None, {
                "nameservers": ("sym", "default", None),
                "port": ("sym", "port", None)}, "resolver")}, "dns")
        conf = mkdict(heap, {
            "default_dns_lifetime": ("sym", "lifetime", None),
            "default_dns_timeout": ("sym", "timeout", None),
            "dns_server": mklist(heap, [("const", x) for x in servers]),
            "dns_available": "no", "dns_test_interval": "10m"})
        ctxt = mkobj(heap, "oa.context.GlobalContext", {
            "dns": dns, "conf": conf}, "ctxt")
        I, outs = run(lambda: Conf(ctx.p), ctx.p, f, args={
            f.params()[0]: ctxt}, heap=heap)
        ctx.saw(I)
        for k, v, s in outs:
            if not ctx.expect(k == "ret", "settings", "raises", "the "
                              "servers %s raise %s" % (servers, v)):
                continue
            n += 1
            r = s.heap[(dns, "attr", "_resolver")]
            ns = s.heap.get((r, "attr", "nameservers"))
            ex = I._exact(ns, s)
            got = ("default",) if ns == ("sym", "default", None) else \
                tuple(x[1] for x in ex) if ex and all(
                    is_const(x) for x in ex) else None
            ctx.expect(got == (want or ("default",)), "settings", "servers",
                       "with dns_server %s, %s are asked" % (servers, got))
            p = s.heap.get((r, "attr", "port"))
            ctx.expect(p == (("const", port) if port else
                             ("sym", "port", None)), "settings", "port",
                       "with dns_server %s the port is %s" % (
                           servers, show(p)))
            for a in ("lifetime", "timeout"):
                ctx.expect(s.heap.get((r, "attr", a)) == ("sym", a, None),
                           "settings", a, "default_dns_%s does not reach "
                           "the resolver" % a)
            ctx.expect(any(contains(x, lambda y: y == ("kw", "minutes", (
                "const", 10))) or contains(x, lambda y: y == ("const", 600))
                for kk, x in s.heap.items() if kk[0] == dns), "settings",
                "interval", "dns_test_interval is not used")
    ctx.floor("settings of the resolver", n, 12)


# ------------------------------------------------------------ no way around
# calls of the libraries that make queries of their own
ASKS = ("dns.resolver.query", "dns.resolver.resolve", "dns.resolver.Resolver",
        "dns.resolver.get_default_resolver", "dns.query.", "dns.zone.",
        "dns.update.", "dns.asyncresolver", "spf.check", "spf.check2",
        "spf.query", "DNS.", "socket.gethostbyname", "socket.gethostbyaddr",
        "socket.gethostbyname_ex", "socket.getaddrinfo", "socket.getnameinfo",
        "socket.getfqdn", "dkim.dnsplug.", "dkim.get_txt", "dkim.verify",
        "dkim.DKIM", "dkim.arc_verify")


def around(ctx):
    n = 0
    for fi in ctx.p.funcs.values():
        inside = fi.cls is not None and fi.cls.qual == DNS
        for node in ast.walk(fi.node):
            if isinstance(node, ast.Call):
                t = ""
                for e in ctx.p.resolve_expr(fi.module, node.func):
                    if e[0] == "ext":
                        t = e[1]
                if t and any(t == a or a.endswith(".") and t.startswith(a)
                             for a in ASKS):
                    n += 1
                    if inside:
                        continue
                    if t in ("dkim.verify", "dkim.DKIM", "dkim.arc_verify"):
                        kw = {k.arg: k.value for k in node.keywords}
                        ctx.expect("dnsfunc" in kw and dotted(
                            kw["dnsfunc"]) is not None, "around",
                            "%s:%s" % (fi.qual, t), "%s makes its own "
                            "queries in %s" % (t, fi.qual))
                        continue
                    if t.startswith("spf."):
                        spf_gate(ctx, fi, t)
                    ctx.bad("around", "%s:%s" % (fi.qual, t),
                            "%s makes queries that no restriction is "
                            "applied to, in %s" % (t, fi.qual))
            if isinstance(node, ast.Attribute) and node.attr in (
                    "_resolver", "_query") and not inside and \
                    not fi.module.name == "oa.dns_interface":
                ctx.bad("around", "%s:%s" % (fi.qual, node.attr),
                        "%s goes around the gate of the DNS interface" %
                        fi.qual)
    ctx.floor("calls of libraries that ask the DNS", n, 3)


def spf_gate(ctx, fi, t):
    """every caller reaches the lookup only when DNS is available"""
    entry = [f for f in ctx.p.funcs.values() if f.cls is fi.cls and
             f is not fi and any(
                 isinstance(x, ast.Attribute) and x.attr == fi.name
                 for x in ast.walk(f.node))] or [fi]
    for f in entry:
        class Spf(BasePolicy):
            relevant_names = (fi.name,)

            def on_call(self, I, st, node, callee, args, kw):
                if callee[0] == "ext" and callee[1] == t:
                    ok = any(c[0] == "truthy" and b and contains(
                        c, lambda x: x[0] == "attr" and x[2] == "available")
                        or c[0] == "truthy" and b and contains(
                            c, lambda x: x[0] in ("call", "pcall") and
                            "available" in str(x[1]))
                        for c, b in st.facts.items())
                    ctx.expect(ok, "around", "%s:%s:available" % (f.qual, t),
                               "%s asks the DNS in %s without testing that "
                               "it is available; %s" % (
                                   t, f.qual, path_str(st)))
                return None
        I, outs = run(lambda: Spf(ctx.p), ctx.p, f)
        ctx.saw(I)


@check("P11", "DNS restrictions and availability")
def p11(ctx):
    gate(ctx)
    restricted(ctx)
    available(ctx)
    interval(ctx)
    feed(ctx)
    around(ctx)


# ------------------------------------------------------------ P12
EVAL = "oa.plugins.dns_eval.DNSEval"
IPS = [("sym", "ip%d" % i, "ipaddr") for i in range(2)]
RES = [("sym", "result%d" % i, None) for i in range(2)]


def plugin_classes(p):
    base = p.cls("oa.plugins.base.BasePlugin")
    return [c for c in p.classes.values()
            if base in c.mro() and c is not base]


def advertised(p, c):
    """Names in eval_rules, own and inherited."""
    node, k = c.find_attr("eval_rules")
    if node is None:
        return ()
    v = p.literal(k.module, node)
    if isinstance(v, (list, tuple)) and all(isinstance(x, str) for x in v):
        return tuple(v)
    return ()


def method(c, name):
    """A method, or another name given to one in the class."""
    f = c.find(name)
    if f is None:
        node, k = c.find_attr(name)
        if isinstance(node, ast.Name):
            return method(k, node.id)
    return f


class Rbl(BasePolicy):
    """Records the questions, with the results given to them."""
    small = 60
    max_states = 4000

    def __init__(self, p, module, skip):
        BasePolicy.__init__(self, p)
        self.module = module
        self.skip = skip

    def init_mon(self):
        return ()

    def inline(self, I, fi):
        return fi.is_cm or fi.module is self.module

    def on_branch(self, I, st, node, c, b):
        if c[0] == "truthy" and c[1][0] == "obj":
            return None
        for i in range(4):
            for j in range(2):
                r = ("sym", "result%d.%d" % (i, j), None)
                if contains(c, lambda x: x == r):
                    if c[0] == "isnone" or c[0] == "eq" and any(
                            y == ("const", 0) for y in c[1:]):
                        b = not b
                    return st.with_mon(st.mon + (("match", r, b),))
        return None

    def on_attr_load(self, I, st, node, base, name):
        if name == "skip_rbl_checks":
            return [("ok", ("const", self.skip), st)]
        return None

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        if nm == "query" and callee[0] in ("bm", "meth") or \
                nm == "_query":
            q = args[0] if args else kw.get("qname", NONE)
            t = args[1] if len(args) > 1 else kw.get("qtype", (
                "const", "A"))
            out = []
            for n in (0, 1, 2):
                o, s = I.alloc(node, "list", st)
                i = sum(1 for x in st.mon if x[0] == "asked")
                vals = tuple(("sym", "result%d.%d" % (i, j), None)
                             for j in range(n))
                s = s.store((o, "exact"), ("tuple", vals))
                s = s.store((o, "elems"), vals)
                out.append(("ok", o, s.with_mon(st.mon + (
                    ("asked", q, t, n),))))
            return out
        if nm in ("get_untrusted_ips", "get_addr_header"):
            o, s = I.alloc(node, "list", st)
            vals = tuple(IPS) if nm == "get_untrusted_ips" else (
                ("const", "Some@One.example"), ("const", "two.example"))
            s = s.store((o, "exact"), ("tuple", vals))
            return [("ok", o, s.store((o, "elems"), vals))]
        if nm == "reverse_ip":
            return [("ok", ("call", "REV", tuple(args[-1:]), 0), st)]
        if nm in ("match", "search") and callee[0] != "fn":
            return [("ok", ("call", "MATCH", tuple(args), 0), st)]
        if nm == "err":
            return [("ok", NONE, st)]
        if callee[0] == "ext" and callee[1] in (
                "int", "ipaddress.ip_address", "str",
                "builtins.int", "builtins.str") or \
                callee[0] == "cls" and callee[1].name == "Regex" or \
                nm == "Regex":
            if len(args) == 1 and not is_const(args[0]):
                return [("ok", ("call", "conv", tuple(args), 0), st)]
        return None


class Off(Rbl):
    max_states = 160

    def inline(self, I, fi):
        return fi.is_cm or fi.module is self.module and (
            fi.qual in self.reach or size(fi) < 60)


def composed(q):
    """A name put together from parts (not one taken from a message)."""
    return q[0] in ("fmt", "bin", "join") and len(text(q)) > 1


def entries(p):
    for c in plugin_classes(p):
        names = list(advertised(p, c)) + [
            "check_start", "check_end", "extract_metadata",
            "parsed_metadata", "finish_parsing_end", "plugin_report",
            "plugin_revoke", "auto_learn_discriminator"]
        for name in names:
            f = method(c, name)
            if f is not None and f.module.name != "oa.plugins.base":
                yield c, f


def off(ctx):
    """Nothing that asks a blocklist does so when they are disabled."""
    reaches = {}

    def reachable(m):
        """Functions of a plugin module (and of the core) that can come to
        the interface, by the names they mention."""
        if m.name not in reaches:
            fs = [f for f in ctx.p.funcs.values() if f.module is m or
                  f.module.name in ("oa.context", "oa.message")]
            hit = {f.qual: f.name for f in fs if "dns" in names_in(f) and
                   f.name not in ("_configure_dns", "__init__")}
            while True:
                names = set(hit.values())
                more = {f.qual: f.name for f in fs if f.qual not in hit and
                        names & names_in(f)}
                if not more:
                    break
                hit.update(more)
            reaches[m.name] = hit
        return reaches[m.name]
    n = 0
    seen = set()
    for c, f in entries(ctx.p):
        reach = reachable(f.module)
        if f.qual not in reach or f.qual in seen:
            continue
        seen.add(f.qual)
        rbl = False
        for skip in (False, True):
            hold = {}

            def mk():
                hold["p"] = Off(ctx.p, f.module, skip)
                hold["p"].reach = reach
                return hold["p"]
            I, outs = run(mk, ctx.p, f, args={f.params()[0]: (
                "sym", "plugin", c.qual)})
            ctx.saw(I)
            for k, v, s in outs:
                for x in s.mon:
                    if x[0] == "asked" and composed(x[1]):
                        rbl = True
                        if skip:
                            ctx.bad("off", f.qual, "%s asks for %s although "
                                    "blocklist checks are disabled; %s" % (
                                        f.qual, show(x[1]), path_str(s)))
                if skip and rbl and k == "ret":
                    ctx.expect(is_const(v) and not v[1], "off",
                               f.qual + ":result", "%s gives %s although "
                               "blocklist checks are disabled" % (
                                   f.qual, show(v)))
        if rbl:
            n += 1
    ctx.floor("functions asking blocklists", n, 6)


def on(ctx):
    """What the blocklist rules ask for and answer when enabled."""
    cls = ctx.p.cls(EVAL)
    n = 0
    server = ("sym", "server", None)
    ip_q = [("IP", ip) for ip in IPS]
    addr_q = [("DOM", "One.example"), ("DOM", "two.example")]
    rules = {
        "check_rbl": ("A", ip_q), "check_rbl_txt": ("TXT", ip_q),
        "check_rbl_accreditor": ("A", ip_q), "check_rbl_sub": ("A", ip_q),
        "check_rbl_envfrom": ("A", [("DOM", "host.example")]),
        "check_rbl_from_domain": ("A", addr_q),
        "check_rbl_from_host": ("A", addr_q)}
    for name, (qtype, asks) in rules.items():
        f = method(cls, name)
        if f is None or name not in advertised(ctx.p, cls):
            raise AnalysisError("the rule %s is gone" % name)
        for given in (False, True):
            heap = {}
            sub = ("sym", "subtest", None) if given else NONE
            ps = f.params()
            self_t = mkobj(heap, EVAL, {}, "plugin")
            heap[(self_t, "item", ("const", "zones"))] = mkdict(
                heap, {"zone": server})
            msg = mkobj(heap, "oa.message.Message", {
                "sender_address": "user@host.example"}, "msg")
            args = {ps[0]: self_t, ps[1]: msg, ps[2]: ("const", "zone")}
            for x in ps[3:]:
                args[x] = {"rbl_server": server, "subtest": sub}.get(
                    x, ("sym", x, None))
            facts = {}
            if given:
                facts[("isnone", sub)] = False
                t = sub
                for i in range(4):
                    facts[("truthy", t)] = True
                    t = ("call", "conv", (t,), 0)
            if name == "check_rbl_sub" and not given:
                continue
            I, outs = run(lambda: Rbl(ctx.p, f.module, False), ctx.p, f,
                          args=args, heap=heap, facts=facts)
            ctx.saw(I)
            for k, v, s in outs:
                if k != "ret":
                    continue
                asked = [x for x in s.mon if x[0] == "asked"]
                if not asked and (name == "check_rbl_accreditor" or given):
                    continue     # no such accreditor, or an invalid test
                n += 1
                one(ctx, name, qtype, asks, server, given, asked, v, s)
    ctx.floor("answers of blocklist rules", n, 40)


def one(ctx, name, qtype, asks, server, given, asked, v, s):
    for x, (kind, what) in zip(asked, asks):
        parts = text(x[1])
        if kind == "IP":
            ok = len(parts) == 3 and parts[1] == "." and \
                parts[2] == server and parts[0] == ("call", "REV", (what,), 0)
        else:
            ok = len(parts) == 2 and parts[0] == what + "." and \
                parts[1] == server
        ctx.expect(ok and x[2] == ("const", qtype), "on", name + ":question",
                   "%s asks for %s (%s)" % (name, show(x[1]), show(x[2])))
    if not ctx.expect(len(asked) <= len(asks), "on", name + ":more",
                      "%s asks for more than %s" % (name, asks)):
        return
    # the results and what is known of them
    hits, open_ = False, []
    for i, x in enumerate(asked):
        for j in range(x[3]):
            r = ("sym", "result%d.%d" % (i, j), None)
            if not given:
                hits = True
                continue
            fact = None
            for m in s.mon:
                if m[:2] == ("match", r):
                    fact = m[2]
            if fact:
                hits = True
            elif fact is None:
                open_.append(r)
    val = bool(v[1]) if is_const(v) else None
    what = "%s%s, results %s" % (name, " with a test" if given else "",
                                 [x[3] for x in asked])
    if hits:
        ctx.expect(val is True, "on", name + ":hit", "%s gives %s although "
                   "a result matches" % (what, show(v)))
    elif not open_:
        ctx.expect(val is False, "on", name + ":miss", "%s gives %s although "
                   "no result matches" % (what, show(v)))
        ctx.expect(len(asked) == len(asks), "on", name + ":all",
                   "%s gives no match after asking for %d of %d names" % (
                       what, len(asked), len(asks)))
    else:
        ctx.expect(val is None and len(asked) == len(asks) and all(
            contains(v, lambda x, r=r: x == r) for r in open_), "on",
            name + ":guess", "%s gives %s without looking at all results" % (
                what, show(v)))


def switch(ctx):
    """The option reaches the attribute the rules look at."""
    f = ctx.p.cls("oa.context.GlobalContext").find("hook_parsing_end")
    if f is None:
        raise AnalysisError("GlobalContext.hook_parsing_end not found")

    class Sw(BasePolicy):
        def inline(self, I, fi):
            return fi.is_cm or bool(fi.deco_nodes) and fi.cls is None

    n = 0
    for val in (0, 1, True, False):
        heap = {}
        ctxt = mkobj(heap, "oa.context.GlobalContext", {
            "conf": mkdict(heap, {"skip_rbl_checks": val})}, "ctxt")
        I, outs = run(lambda: Sw(ctx.p), ctx.p, f, args={
            f.params()[0]: ctxt}, heap=heap)
        ctx.saw(I)
        for k, v, s in outs:
            if k != "ret":
                continue
            n += 1
            got = s.heap.get((ctxt, "attr", "skip_rbl_checks"), NONE)
            ctx.expect(is_const(got) and got[1] is not None and
                       bool(got[1]) == bool(val), "switch", "skip_rbl_checks",
                       "with skip_rbl_checks %s the rules see %s" % (
                           val, show(got)))
    ctx.floor("settings of skip_rbl_checks", n, 4)


@check("P12", "blocklists can be disabled")
def p12(ctx):
    off(ctx)
    on(ctx)
    switch(ctx)
