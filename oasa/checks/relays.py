"""P27: classification of the relays and the lists of networks."""
import ipaddress
import itertools

from ..absint import FALSE, NONE, TRUE, contains, is_const, show
from ..core import check
from ..model import AnalysisError
from ..util import BasePolicy, mkdict, mkobj, run, text
from .protocol import meth_name

MSG = "oa.message.Message"
LISTS = ("trusted_relays", "untrusted_relays", "internal_relays",
         "external_relays")
KINDS = ("ip", "trusted", "internal", "msa", "auth", "private")


def mklist(heap, vals, name="list"):
    from ..util import _ids
    _ids[0] += 1
    o = ("obj", ("<client>", name, _ids[0], 0), "list")
    heap[(o, "elems")] = tuple(dict.fromkeys(vals))
    heap[(o, "exact")] = ("tuple", tuple(vals))
    return o


class Walk(BasePolicy):
    """Monitor: the facts each path has established about the relays."""
    max_states = 100000

    def __init__(self, p, n):
        BasePolicy.__init__(self, p)
        self.n = n
        self.tags = []

    def inline(self, I, fi):
        return fi.is_cm or fi.module.name == "oa.message" and fi.name not in (
            "_create_plugin_tags",)

    def init_mon(self):
        return ()

    def fact(self, c):
        i = None
        for j in range(self.n):
            if contains(c, lambda x: x == ("sym", "ip%d" % j, None) or
                        x == ("sym", "auth%d" % j, None)):
                i = j
        if i is None:
            return None
        for k in ("trusted", "internal", "msa"):
            if contains(c, lambda x: x == ("sym", k, None)):
                return (i, k)
        if contains(c, lambda x: x[0] == "attr" and x[2] == "is_private"):
            return (i, "private")
        if contains(c, lambda x: x == ("sym", "auth%d" % i, None)):
            return (i, "auth")
        if c in (("truthy", ("sym", "ip%d" % i, None)),):
            return (i, "ip")
        return None

    def on_branch(self, I, st, node, c, b):
        f = self.fact(c)
        if f is None:
            return None
        return st.with_mon(st.mon + ((f, b),))

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        if nm == "_create_plugin_tags":
            self.tags.append((args[0] if args else NONE, st))
            return [("ok", NONE, st.with_mon(st.mon + (
                ("tags", args[0] if args else NONE),)))]
        if nm == "format" or callee[0] == "ext" and callee[1].startswith(
                "ipaddress."):
            return None
        return None


def classify(n, conf, fact):
    """The documented walk: per relay None or (trusted, internal, msa)."""
    t = i = True
    found = False
    out = []
    for j in range(n):
        if not fact(j, "ip"):
            out.append(None)
            continue
        msa = 0
        if t and not found:
            if conf:
                if not fact(j, "trusted") and not fact(j, "auth"):
                    t = i = False
                else:
                    if not fact(j, "auth") and not fact(j, "internal"):
                        i = False
                    if fact(j, "msa"):
                        found, msa = True, 1
            elif not fact(j, "private") and not fact(j, "auth"):
                t = i = False
        out.append((t, i, msa))
    return out


class Need(Exception):
    pass


def possible(n, conf, known):
    """All classifications the facts of a path allow."""
    todo = [dict(known)]
    out = set()
    while todo:
        k = todo.pop()

        def fact(j, kind):
            if (j, kind) not in k:
                raise Need((j, kind))
            return k[(j, kind)]
        try:
            out.add(tuple(classify(n, conf, fact)))
        except Need as e:
            for b in (True, False):
                k2 = dict(k)
                k2[e.args[0]] = b
                todo.append(k2)
    return out


def setup(heap, n, conf):
    nets = mkobj(heap, None, {
        "internal": ("sym", "internal", None), "msa": ("sym", "msa", None),
        "trusted": ("sym", "trusted", None), "configured": conf}, "nets")
    ctxt = mkobj(heap, "oa.context.GlobalContext", {"networks": nets}, "ctxt")
    self_t = mkobj(heap, MSG, {"ctxt": ctxt}, "msg")
    relays = []
    for j in range(n):
        d = {k: ("sym", "%s%d" % (k, j), None) for k in (
            "ip", "rdns", "helo", "by", "ident", "envfrom", "id", "auth")}
        relays.append(mkdict(heap, d, "relay%d" % j))
    for name in LISTS:
        heap[(self_t, "attr", name)] = mklist(heap, (), name)
    heap[(self_t, "attr", "last_internal_relay_index")] = ("const", "unset")
    heap[(self_t, "attr", "last_trusted_relay_index")] = ("const", "unset")
    return self_t, relays


def walk(ctx):
    f = ctx.p.cls(MSG).find("_parse_relays")
    if f is None:
        raise AnalysisError("Message._parse_relays not found")
    total = 0
    for conf in (True, False):
        for n in (0, 1, 2, 3):
            heap = {}
            self_t, relays = setup(heap, n, conf)
            lst = mklist(heap, relays, "relays")
            ps = f.params()
            hold = {}

            def mk():
                hold["p"] = Walk(ctx.p, n)
                return hold["p"]
            I, outs = run(mk, ctx.p, f, args={ps[0]: self_t, ps[1]: lst},
                          heap=heap)
            ctx.saw(I)
            for k, v, s in outs:
                if k != "ret":
                    continue
                total += 1
                one_path(ctx, I, s, conf, n, self_t, relays)
    ctx.floor("ways through a chain of relays", total, 300)


def name_of(relays, x):
    return relays.index(x) if x in relays else "?"


def one_path(ctx, I, s, conf, n, self_t, relays):
    known = {}
    tags = None
    for f, b in s.mon:
        if f == "tags":
            tags = b
        else:
            known[f] = b
    what = "%s networks, %s" % (
        "configured" if conf else "no", "; ".join(
            "relay %d %s%s" % (j + 1, "" if b else "not ", k)
            for (j, k), b in sorted(known.items())) or "no relays")
    want = possible(n, conf, known)
    lists = {}
    for name in LISTS:
        ex = I._exact(s.heap.get((self_t, "attr", name), NONE), s)
        if not ctx.expect(ex is not None, "walk", name, "%s cannot be "
                          "determined (%s)" % (name, what)):
            return
        lists[name] = [name_of(relays, x) for x in ex]
    for w in want:
        exp = {
            "trusted_relays": [j for j, x in enumerate(w) if x and x[0]],
            "untrusted_relays": [j for j, x in enumerate(w)
                                 if x and not x[0]],
            "internal_relays": [j for j, x in enumerate(w) if x and x[1]],
            "external_relays": [j for j, x in enumerate(w)
                                if x and not x[1]]}
        for name in LISTS:
            ctx.expect(lists[name] == exp[name], "walk", name, "with %s, %s "
                       "are %s instead of %s" % (
                           what, name, [j + 1 if j != "?" else j
                                        for j in lists[name]],
                           [j + 1 for j in exp[name]]))
        for attr, name in (("last_internal_relay_index", "internal_relays"),
                           ("last_trusted_relay_index", "trusted_relays")):
            got = s.heap.get((self_t, "attr", attr))
            e = ("const", exp[name][-1] if exp[name] else "unset")
            ctx.expect(got == e, "walk", attr, "with %s, %s is %s instead of "
                       "%s" % (what, attr, show(got) if got else None, e[1]))
        for j, x in enumerate(w):
            if x is None:
                continue
            for key, e in (("intl", int(x[1])), ("msa", x[2])):
                got = s.heap.get((relays[j], "item", ("const", key)))
                ctx.expect(got is not None and is_const(got) and
                           got[1] == e, "walk", "relay:%s" % key, "with %s, "
                           "%s of relay %d is %s instead of %s" % (
                               what, key, j + 1, show(got) if got else None,
                               e))
        # the handover tags
        ext = exp["external_relays"]
        for tag, key in (("LASTEXTERNALIP", "ip"),
                         ("LASTEXTERNALRDNS", "rdns"),
                         ("LASTEXTERNALHELO", "helo")):
            got = s.heap.get((tags, "item", ("const", tag))) if tags else None
            if ext:
                e = ("sym", "%s%d" % (key, ext[0]), None)
                ctx.expect(got == e, "handover", tag, "with %s, %s is %s "
                           "instead of that of relay %d" % (
                               what, tag, show(got) if got else "not given",
                               ext[0] + 1))
            else:
                ctx.expect(got is None, "handover", tag, "%s is given "
                           "without external relays" % tag)


# ------------------------------------------------------------ sender
def sender(ctx):
    f = ctx.p.cls(MSG).find("_parse_sender")
    if f is None:
        raise AnalysisError("Message._parse_sender not found")
    n = 0
    for next_, ntr, nun, always in itertools.product(
            (0, 1, 2), (0, 1, 2), (0, 1, 2), (0, 1)):
        heap = {}
        conf = mkdict(heap, {
            "always_trust_envelope_sender": always,
            "envelope_sender_header": ("sym", "senderh", None)}, "conf")
        ctxt = mkobj(heap, None, {"conf": conf}, "ctxt")
        self_t = mkobj(heap, MSG, {"ctxt": ctxt}, "msg")
        heap[(self_t, "attr", "sender_address")] = ("const", "unset")
        for name, c in (("external", next_), ("trusted", ntr),
                        ("untrusted", nun)):
            rs = [mkdict(heap, {"envfrom": ("sym", "%s%d" % (name, j),
                                            None)}, name)
                  for j in range(c)]
            heap[(self_t, "attr", name + "_relays")] = mklist(heap, rs, name)
        ps = f.params()
        I, outs = run(lambda: Sender(ctx.p), ctx.p, f, args={ps[0]: self_t},
                      heap=heap)
        ctx.saw(I)
        if next_:
            allowed = [("external0", True)]
        else:
            allowed = []
            if ntr and not always:
                allowed.append(("trusted%d" % (ntr - 1), False))
            if nun:
                allowed.append(("untrusted0", False))
        what = "%d external, %d trusted, %d untrusted relays%s" % (
            next_, ntr, nun, ", sender headers trusted" if always else "")
        for k, v, s in outs:
            if k != "ret":
                continue
            n += 1
            got = s.heap.get((self_t, "attr", "sender_address"))
            # the first of the relays asked whose sender is given
            exp = None
            undecided = False
            for a, stop in allowed:
                t = s.facts.get(("truthy", ("sym", a, None)))
                if t is True:
                    exp = a
                    break
                if t is None:
                    undecided = True
            syms = set()
            contains(got, lambda x: x[0] == "sym" and syms.add(x[1]))
            names = {x for x in syms if x.rstrip("0123456789") in (
                "external", "trusted", "untrusted")}
            ctx.expect(not undecided and names == ({exp} if exp else set()),
                       "sender", what, "with %s the envelope sender is %s "
                       "instead of that of %s" % (
                           what, show(got), exp or "a header or none"))
            if next_ and not exp and got is not None:
                ctx.expect(got == ("const", "unset"), "sender",
                           what + ":header", "with external relays the "
                           "sender is taken from a header")
    ctx.floor("ways to find the sender", n, 54)


class Sender(BasePolicy):
    def inline(self, I, fi):
        return fi.is_cm or fi.module.name == "oa.message" and fi.name not in (
            "get_addr_header",)


# ------------------------------------------------------------ the order
class Order(BasePolicy):
    """_parse_message hands the relays over as they were parsed."""
    small = 0

    def __init__(self, p):
        BasePolicy.__init__(self, p)
        self.given = []

    def inline(self, I, fi):
        return fi.is_cm

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        if nm == "_parse_relays":
            self.given.append(args[0] if args else NONE)
            return [("ok", NONE, st)]
        return None


def order(ctx):
    f = ctx.p.cls(MSG).find("_parse_message")
    hold = {}

    def mk():
        hold["p"] = Order(ctx.p)
        return hold["p"]
    I, outs = run(mk, ctx.p, f, args={f.params()[0]: ("sym", "msg", MSG)})
    ctx.saw(I)
    given = hold["p"].given
    ctx.floor("walks over the relays", len(given), 1)
    for t in given:
        ctx.expect(t[0] == "attr" and t[2] == "received" and
                   t[1][0] == "obj" and t[1][2] ==
                   "oa.received_parser.ReceivedParser", "order",
                   "_parse_message", "the relays walked are %s, not those of "
                   "the Received headers in order" % show(t))


# ------------------------------------------------------------ networks
class Nets(BasePolicy):
    mods = ("oa.networks",)

    def inline(self, I, fi):
        return fi.module.name == "oa.networks" and fi.name != \
            "_extract_network" or fi.is_cm

    def on_call(self, I, st, node, callee, args, kw):
        if meth_name(callee) == "_extract_network":
            return [("ok", ("tuple", (("const", self.excl), self.net)), st)]
        return None


NET = ("obj", ("<client>", "NET", 0, 0), "network")


def networks(ctx):
    cls = ctx.p.cls("oa.networks.NetworkList")
    n = 0
    for name, ic, tc, excl, net in itertools.product(
            ("trusted", "internal", "msa"), (False, True), (False, True),
            ("", "!"), (NET, NONE)):
        f = cls.find("add_%s_network" % name)
        if f is None:
            raise AnalysisError("add_%s_network not found" % name)
        heap = {}
        objs = {}
        for o, c in (("internal", "InternalNetworks"),
                     ("trusted", "TrustedNetworks"), ("msa", "MSANetworks")):
            objs[o] = mkobj(heap, "oa.networks." + c, {
                "configured": {"internal": ic, "trusted": tc,
                               "msa": False}[o]}, o)
            heap[(objs[o], "attr", "_networks")] = mklist(
                heap, (("sym", "old_" + o, None),), o)
            heap[(objs[o], "attr", "_always_accepted")] = mklist(
                heap, (("sym", "always", None),), o)
        self_t = mkobj(heap, cls.qual, objs, "nets")
        ps = f.params()

        def mk():
            p = Nets(ctx.p)
            p.excl, p.net = excl, net
            return p
        I, outs = run(mk, ctx.p, f, args={
            ps[0]: self_t, ps[1]: ("sym", "text", None)}, heap=heap)
        ctx.saw(I)
        what = "add_%s_network %s%s%s%s" % (
            name, "excluded " if excl else "", "valid" if net == NET else
            "invalid", ", internal configured" if ic else "",
            ", trusted configured" if tc else "")
        entry = ("tuple", (NET, ("const", not excl)))
        for k, v, s in outs:
            if k != "ret":
                continue
            n += 1
            for o in objs:
                ex = I._exact(s.heap.get((objs[o], "attr", "_networks"),
                                         NONE), s)
                if not ctx.expect(ex is not None, "networks", what + ":" + o,
                                  "the list cannot be determined"):
                    continue
                added = [x for x in ex if contains(x, lambda y: y == NET)]
                old = any(x == ("sym", "old_" + o, None) for x in ex)
                want = net == NET and (
                    name == o or name == "internal" and o == "trusted" or
                    name == "trusted" and o == "internal" and not ic)
                reset = net == NET and name == "internal" == o and not ic
                ctx.expect(added == ([entry] if want else []), "networks",
                           what + ":" + o, "the %s networks get %s instead "
                           "of %s" % (o, [show(x) for x in added],
                                      [show(entry)] if want else "nothing"))
                if added and not reset:
                    ctx.expect(ex[-1] == entry, "networks", what + ":last",
                               "networks are not searched in the order they "
                               "were given")
                if reset:
                    ctx.expect(ex[:1] == (("sym", "always", None),),
                               "networks", what + ":always", "the networks "
                               "that are always internal are lost")
                ctx.expect(old == (not reset), "networks", what + ":old",
                           "the %s networks set before are %s" % (
                               o, "kept" if old else "lost"))
            if net == NET and name != "msa":
                ctx.expect(s.heap.get((objs[name], "attr", "configured")) ==
                           TRUE, "networks", what + ":configured", "the %s "
                           "networks are not marked as configured" % name)
            if net != NET:
                for o, c in (("internal", ic), ("trusted", tc)):
                    ctx.expect(s.heap.get((objs[o], "attr", "configured")) ==
                               ("const", c), "networks", what + ":untouched",
                               "an invalid network changes the %s "
                               "networks" % o)
    ctx.floor("ways to add a network", n, 40)
    # membership: the first network that contains the address decides
    f = ctx.p.cls("oa.networks.NetworkListBase").find("__contains__")
    for c in ("NetworkListBase", "TrustedNetworks", "InternalNetworks",
              "MSANetworks"):
        f = ctx.p.cls("oa.networks." + c).find("__contains__")
        if f is None:
            raise AnalysisError("%s.__contains__ not found" % c)
        for flags in itertools.product((True, False), repeat=3):
            heap = {}
            self_t = mkobj(heap, "oa.networks." + c, {}, "list")
            heap[(self_t, "attr", "_networks")] = mklist(heap, [
                ("tuple", (("sym", "net%d" % i, None), ("const", b)))
                for i, b in enumerate(flags)])
            ps = f.params()
            I, outs = run(lambda: Member(ctx.p), ctx.p, f, args={
                ps[0]: self_t, ps[1]: ("sym", "query", None)}, heap=heap)
            ctx.saw(I)
            for k, v, s in outs:
                if k != "ret":
                    continue
                known = dict(s.mon)
                want = set()
                for bits in itertools.product((True, False), repeat=3):
                    if all(known.get(i, b) == b for i, b in
                           enumerate(bits)):
                        want.add(next((x for x, b in zip(flags, bits) if b),
                                      False))
                ctx.expect(is_const(v) and want == {bool(v[1])}, "networks",
                           "%s.__contains__" % c, "an address in networks "
                           "%s of %s is %s instead of %s" % (
                               sorted(k for k in known if known[k]),
                               ["accepted" if x else "excluded"
                                for x in flags], show(v), sorted(want)))


class Member(BasePolicy):
    def init_mon(self):
        return ()

    def on_branch(self, I, st, node, c, b):
        for i in range(3):
            if c[0] == "in" and contains(c, lambda x: x == (
                    "sym", "net%d" % i, None)):
                return st.with_mon(st.mon + ((i, b),))
        return None


class Extract(BasePolicy):
    mods = ("oa.networks",)
    known_exc = True

    def inline(self, I, fi):
        return fi.module.name == "oa.networks" or fi.is_cm

    def on_call(self, I, st, node, callee, args, kw):
        if callee == ("ext", "ipaddress.ip_network"):
            return [("ok", ("call", "NET", tuple(args), I.site(node)), st)]
        return None


SPELLINGS = ("192.168.", "10.", "1.2.3.", "1.2.3.4", "192.168.0.0/16",
             "10.0.0.0/8", "!192.168.1.", "!192.168.1.0/24", "[1.2.3.4]",
             "!10.", "172.16.0.0/12", "::1", "[::1]", "fe80::/10",
             "2001:db8::/32", "!2001:db8::/32")


def spelled(text):
    """The network the documentation says is meant."""
    ex = text.startswith("!")
    x = text.lstrip("!").replace("[", "").replace("]", "")
    if x.endswith("."):
        k = x.count(".")
        x = x + ".".join(["0"] * (4 - k)) + "/%d" % (8 * k)
    return ex, ipaddress.ip_network(x)


def extract(ctx):
    cls = ctx.p.cls("oa.networks.NetworkList")
    f = cls.find("_extract_network")
    if f is None:
        raise AnalysisError("NetworkList._extract_network not found")
    ps = f.params()
    n = 0
    for t in SPELLINGS:
        I, outs = run(lambda: Extract(ctx.p), ctx.p, f, args={
            ps[0]: ("sym", "self", cls.qual), ps[1]: ("const", t)})
        ctx.saw(I)
        for k, v, s in outs:
            if k != "ret":
                continue
            n += 1
            ex, net = spelled(t)
            ok = v[0] == "tuple" and len(v[1]) == 2 and is_const(v[1][0])
            if not ctx.expect(ok and bool(v[1][0][1]) == ex, "spelling", t,
                              "%s is read as %s" % (t, show(v))):
                continue
            a = v[1][1]
            x = text(a[2][0]) if a[:2] == ("call", "NET") else ()
            try:
                got = ipaddress.ip_network(x[0]) if len(x) == 1 and \
                    isinstance(x[0], str) else None
            except ValueError:
                got = None
            ctx.expect(got == net, "spelling", t, "%s is read as %s instead "
                       "of %s" % (t, show(a), net))
    ctx.floor("spellings of networks", n, len(SPELLINGS))


class Feed(BasePolicy):
    def init_mon(self):
        return ()

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        if nm and nm.startswith("add_") and nm.endswith("_network"):
            return [("ok", NONE, st.with_mon(st.mon + (
                (nm[4:-8], args[0] if args else NONE),)))]
        return None


def feed(ctx):
    """the options end in the lists of networks"""
    f = ctx.p.cls("oa.context.GlobalContext").find("_add_networks")
    if f is None:
        raise AnalysisError("GlobalContext._add_networks not found")
    heap = {}
    vals = {}
    for name in ("trusted", "internal", "msa"):
        vals[name + "_networks"] = mklist(heap, [
            ("const", "%s%d" % (name, i)) for i in range(2)])
    conf = mkdict(heap, vals, "conf")
    ctxt = mkobj(heap, "oa.context.GlobalContext", {"conf": conf}, "ctxt")
    I, outs = run(lambda: Feed(ctx.p), ctx.p, f, args={f.params()[0]: ctxt},
                  heap=heap)
    ctx.saw(I)
    n = 0
    for k, v, s in outs:
        if k != "ret":
            continue
        n += 1
        for name in ("trusted", "internal", "msa"):
            got = [x for m, x in s.mon if m == name]
            ctx.expect(got == [("const", "%s%d" % (name, i))
                               for i in range(2)], "feed", name,
                       "the %s networks used are %s" % (
                           name, [show(x) for x in got]))
        kinds = [m for m, x in s.mon]
        ctx.expect("internal" not in kinds or "trusted" not in kinds or
                   max(i for i, m in enumerate(kinds) if m == "trusted") <
                   min(i for i, m in enumerate(kinds) if m == "internal"),
                   "feed", "order", "the internal networks are set before "
                   "the trusted ones")
    ctx.floor("ways the networks are set", n, 1)


@check("P27", "classification of relays")
def p27(ctx):
    walk(ctx)
    sender(ctx)
    order(ctx)
    networks(ctx)
    extract(ctx)
    feed(ctx)
