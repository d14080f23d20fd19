"""P18-P22, P17: the daemon protocol and the server."""
import re

from ..absint import (FALSE, NONE, TRUE, contains, has_sub, is_const, show,
                      show_cond)
from ..core import check
from ..model import AnalysisError
from ..util import (BasePolicy, codec, driver, encoded, errors_arg, mkdict,
                    path_str, run, text)
from .scoring import MSG

ANY = ("exc", "ANY", ("?", 0, 0, 0))


def commands(ctx):
    base = ctx.p.cls("oa.protocol.base.BaseProtocol")
    subs = sorted(base.all_subs(), key=lambda c: c.qual)
    ctx.floor("protocol commands", len(subs), 6)
    return base, subs


def meth_name(callee):
    if callee[0] in ("fn", "bm"):
        return callee[1].name
    if callee[0] in ("meth", "attr", "superm"):
        return callee[2] if callee[0] != "superm" else callee[1]
    return None


def on_attr(callee, attr):
    """Is it a method call on an object stored in attribute ``attr``?"""
    return callee[0] in ("meth", "attr") and (
        callee[1][0] == "attr" and callee[1][2] == attr)


class Wire(BasePolicy):
    """Monitor: (status code or None, handled, responses seen)."""
    mods = ("oa.protocol", "oa.server")
    known_exc = True
    loops_ok = True

    def __init__(self, p):
        BasePolicy.__init__(self, p)
        self.issues = {}
        self.statuses = 0
        self.resp = 0

    def bad(self, rule, c, m, st=None):
        if st is not None:
            m += " (path %s)" % path_str(st)
        self.issues.setdefault((rule, c), m)

    def init_mon(self):
        return (None, False, False, None)

    def inline(self, I, fi):
        return fi.module.name.startswith(self.mods) or fi.is_cm

    def status(self, t):
        """Code of a status line (None: the text is none)."""
        seg = text(t)
        if not seg or not isinstance(seg[0], str) or \
                not seg[0].startswith("SPAMD/"):
            return None
        flat = "".join(x if isinstance(x, str) else "\0" for x in seg)
        m = re.match(r"SPAMD/[^ \r\n]+ (\d+) [^\r\n]*\r\n$", flat)
        if not m:
            return "malformed"
        return m.group(1)

    def write(self, I, st, node, x):
        code, handled, resp, extra = st.mon
        t = encoded(x)
        if t is None:
            self.bad("encoding", "write", "what is written is %s, which is "
                     "not one text encoded as UTF-8" % show(x), st)
            return st
        c = self.status(t)
        if c is not None:
            self.statuses += 1
            if c == "malformed":
                self.bad("status", "line", "the status line %s is malformed"
                         % show(t), st)
            if code is not None:
                self.bad("status", "second", "a second status line is "
                         "written", st)
            if resp:
                self.bad("status", "late", "the status line follows the "
                         "response", st)
            return st.with_mon((c, handled, resp, extra))
        if code is None:
            self.bad("status", "first", "%s is written before the status "
                     "line" % show(t), st)
        return self.response(I, st, node, t)

    def response(self, I, st, node, t):
        self.resp += 1
        return st.with_mon(st.mon[:2] + (True, st.mon[3]))

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        if on_attr(callee, "wfile"):
            if nm == "write" and len(args) == 1:
                return [("ok", NONE, self.write(I, st, node, args[0]))]
            if nm in ("flush", "close"):
                return [("ok", NONE, st)]
            self.bad("encoding", "wfile." + str(nm), "the reply is sent by "
                     "%s" % nm, st)
            return [("ok", NONE, st)]
        if nm in ("err", "warn", "warning", "debug", "info", "error",
                  "exception"):
            return [("ok", NONE, st)]
        return self.other(I, st, node, callee, nm, args, kw)

    def other(self, I, st, node, callee, nm, args, kw):
        return None


HRESP = ("sym", "HANDLER_RESPONSES", None)


class Handling(Wire):
    """get_and_handle of one command; the handler itself is an event."""
    readline = None      # constant line offered by the client

    def other(self, I, st, node, callee, nm, args, kw):
        if nm == "handle" and callee[0] in ("bm", "meth"):
            code, handled, resp, extra = st.mon
            if handled:
                self.bad("handle", "twice", "the command is handled twice",
                         st)
            s = st.with_mon((code, True, resp, extra))
            self.handled.append(s)
            if callee[0] == "bm" and not callee[1].is_gen and \
                    not any(True for n in callee[1].body
                            if not _trivial(n)):
                return [("ok", ("const", ""), s)]
            return [("ok", HRESP, s), ("exc", ANY, s)]
        if nm == "get_user_ruleset":
            self.users.append((args, kw, st))
            return [("ok", ("sym", "RULESET", "oa.rules.ruleset.RuleSet"),
                     st)]
        if callee[0] == "cls" and callee[1].qual == "oa.message.Message":
            self.messages.append((args, kw, st))
            return [("ok", MSG, st)]
        if on_attr(callee, "rfile"):
            if nm == "readline" and self.readline is not None:
                s2 = st.with_mon(st.mon[:3] + ("seen",))
                return [("ok", ("const", self.readline), s2),
                        ("ok", ("const", b""), st)]
            self.reads += 1
        return None

    def __init__(self, p):
        Wire.__init__(self, p)
        self.handled, self.users, self.messages = [], [], []
        self.reads = 0

    def on_iter_end(self, I, st, node, kind):
        return None

    def response(self, I, st, node, t):
        self.resp += 1
        ok = t[0] == "iter" and t[1] == HRESP or t == (
            "join", ("const", ""), (("each", HRESP),)) or is_const(t) and \
            t[1] == ""
        if not ok:
            self.bad("response", "unchanged", "what is written is %s instead "
                     "of each response of the command" % show(t), st)
        return st.with_mon(st.mon[:2] + (True, st.mon[3]))


def _trivial(n):
    import ast
    if isinstance(n, ast.Return):
        return n.value is None or isinstance(n.value, ast.Constant)
    return isinstance(n, (ast.Pass, ast.Expr)) and (
        isinstance(n, ast.Pass) or isinstance(n.value, ast.Constant))


class RespLoop(Handling):
    """Adds: each response is written exactly once."""

    def on_iter(self, I, st, node, it, elem):
        if it == HRESP:
            self.loops += 1
            return st.with_mon(st.mon[:2] + (False, st.mon[3]))

    def on_iter_end(self, I, st, node, kind):
        import ast
        if isinstance(node, ast.For) and self.is_resp(I, node, st):
            if not st.mon[2]:
                self.bad("response", "skipped", "a response of the command "
                         "is not written", st)
            if kind != "next" and kind != "cont":
                self.bad("response", "stopped", "responses are not written "
                         "to the end", st)

    def is_resp(self, I, node, st):
        import ast
        t = node.target
        if isinstance(t, ast.Name):
            v = st.env.get(t.id)
            return v is not None and contains(
                v, lambda x: x[0] == "iter" and x[1] == HRESP)
        return False

    def response(self, I, st, node, t):
        if st.mon[2] and t[0] == "iter":
            self.bad("response", "twice", "a response is written twice", st)
        return Handling.response(self, I, st, node, t)

    def __init__(self, p):
        Handling.__init__(self, p)
        self.loops = 0


def issues(ctx, pol, rules, what):
    n = 0
    for (rule, c), m in sorted(pol.issues.items()):
        if rule in rules:
            ctx.bad(rule, "%s:%s" % (what, c), m)
            n += 1
    if not n:
        for r in rules:
            ctx.ok(r, what)
    return n


def run_cmd(ctx, c, mk, entry="get_and_handle"):
    f = c.find(entry)
    if f is None:
        raise AnalysisError("%s of %s not found" % (entry, c.qual))
    hold = {}

    def make():
        hold["p"] = mk(ctx.p)
        return hold["p"]
    I, outs = run(make, ctx.p, f, args={
        f.params()[0]: ("sym", "self", c.qual)}, self_cls=c)
    ctx.saw(I)
    return f, hold["p"], I, outs


@check("P18", "replies are framed")
def p18(ctx):
    base, subs = commands(ctx)
    replies = 0
    for c in subs:
        f, pol, I, outs = run_cmd(ctx, c, RespLoop)
        issues(ctx, pol, ("status", "encoding", "response", "handle"),
               c.qual)
        if not pol.statuses and not pol.resp:
            continue          # a command that is not answered
        replies += 1
        for k, v, s in outs:
            if k != "ret":
                continue
            code, handled, resp, extra = s.mon
            ctx.expect(code is not None, "status", "%s:none" % c.qual,
                       "a request is not answered by a status line (path "
                       "%s)" % path_str(s))
            if code is not None and code != "0":
                ctx.expect(not handled and not resp, "status",
                           "%s:error" % c.qual, "an error reply is followed "
                           "by a response")
        if any(s.mon[1] for k, v, s in outs if k == "ret"):
            h = c.find("handle")
            silent = h is not None and not h.is_gen and all(
                _trivial(n) for n in h.body)
            ctx.expect(silent or pol.resp >= 1, "response",
                       "%s:written" % c.qual, "the responses of the command "
                       "are never written")
    ctx.floor("commands that are answered", replies, 5)
    ctx.floor("announced bodies", framing(ctx, base, subs), 4)


BODY_FREE = ("ruleset", "conf")


class Framing(BasePolicy):
    """handle() of one command; monitor: the text yielded so far."""
    mods = ("oa.protocol",)

    def init_mon(self):
        return ()

    def inline(self, I, fi):
        return fi.module.name.startswith("oa.protocol") or fi.is_cm

    def on_yield(self, I, st, node, value):
        if len(I.frames) > 1:
            return None
        if st.mon and st.mon[-1] == value and value[0] not in ("const",):
            return None
        return st.with_mon(st.mon + (value,))

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        if callee[0] in ("bm", "fn") and not callee[1].module.name.startswith(
                "oa.protocol"):
            return [("ok", ("call", ("meth", callee[2] if callee[0] == "bm"
                                     else NONE, nm),
                             tuple(args), I.site(node)), st)]
        return None


def framing(ctx, base, subs):
    n = 0
    for c in subs:
        f = c.find("handle")
        if f is None or f.cls is base:
            continue
        ps = f.params()
        I, outs = run(lambda: Framing(ctx.p), ctx.p, f, args={
            ps[0]: ("sym", "self", c.qual), ps[1]: MSG,
            ps[2]: ("sym", "options", None)}, self_cls=c)
        ctx.saw(I)
        for k, v, s in outs:
            if k != "ret":
                continue
            vals = list(s.mon)
            if not f.is_gen:
                if v[0] in ("tuple", "obj"):
                    vals += list(v[1]) if v[0] == "tuple" else []
                elif v != NONE:
                    vals.append(v)
            seg = text(("join", ("const", ""), tuple(vals))) if vals else []
            n += judge_framing(ctx, c, seg, s)
    return n


def judge_framing(ctx, c, seg, st):
    """-> 1 if a body is announced"""
    blank = [i for i, x in enumerate(seg) if isinstance(x, str) and
             "\r\n\r\n" in x]
    flat = "".join(x if isinstance(x, str) else "\0" for x in seg)
    if not blank:
        ctx.expect(not re.search("content-length", flat, re.I), "framing",
                   "%s:blank" % c.qual, "a content length is announced but "
                   "no blank line follows the headers")
        ctx.expect(not flat or flat.endswith("\r\n"), "framing",
                   "%s:lines" % c.qual, "the reply %r does not consist of "
                   "complete lines" % flat)
        return 0
    i = blank[0]
    head, rest = seg[i].split("\r\n\r\n", 1)
    header = seg[:i] + [head]
    body = ([rest] if rest else []) + seg[i + 1:]
    nums = [(j, x) for j, x in enumerate(header) if not isinstance(x, str) and
            j and isinstance(header[j - 1], str) and
            re.search(r"(^|\r\n)content-length: *$", header[j - 1], re.I)]
    lit = re.findall(r"(?:^|\r\n)content-length: *(\d+) *(?=\r\n|$)",
                     "".join(x if isinstance(x, str) else "\0"
                             for x in header), re.I)
    if not nums and len(lit) == 1:
        ctx.expect(all(isinstance(x, str) for x in body) and
                   len("".join(body).encode()) == int(lit[0]), "framing",
                   "%s:body" % c.qual, "the announced length is %s but the "
                   "body sent is %s" % (lit[0], [
                       x if isinstance(x, str) else show(x) for x in body]))
        return 1
    if not ctx.expect(len(nums) == 1 and not lit, "framing",
                      "%s:length" % c.qual,
                      "the headers %r announce no single content length" % (
                          "".join(x if isinstance(x, str) else "?"
                                  for x in header))):
        return 1
    j, num = nums[0]
    after = header[j + 1]
    ctx.expect(isinstance(after, str) and (after == "" or
                                           after.startswith("\r\n")),
               "framing", "%s:header" % c.qual, "the content length is not "
               "followed by the end of its line")
    src = None
    if num[0] == "pcall" and num[1] == "len" and len(num[2]) == 1:
        src = encoded(num[2][0])
        if src is None:
            ctx.bad("framing", "%s:bytes" % c.qual, "the content length is "
                    "the length of %s, which does not count the bytes sent"
                    % show(num[2][0]))
            return 1
    elif is_const(num) and num[1] == 0:
        src = ("const", "")
    if src is None:
        ctx.bad("framing", "%s:length" % c.qual, "the announced content "
                "length is %s" % show(num))
        return 1
    ctx.expect(text(src) == body, "framing", "%s:body" % c.qual, "the "
               "announced length is that of %s but the body sent is %s" % (
                   show(src), [x if isinstance(x, str) else show(x)
                               for x in body]))
    return 1


# --------------------------------------------------------------- P20
class Request(Wire):
    """RequestHandler.handle; running the command is an event."""

    def __init__(self, p):
        Wire.__init__(self, p)
        self.dispatched = []

    def item_exc(self, I, st, b, key):
        if not is_const(key):
            return "KeyError"

    def other(self, I, st, node, callee, nm, args, kw):
        given = [a for a in list(args) + list(kw.values())
                 if a[0] == "attr" and a[2] in ("rfile", "wfile", "server")]
        if len(given) >= 3 and callee[0] not in ("bm", "fn"):
            code, handled, resp, extra = st.mon
            s = st.with_mon((code, True, resp, extra))
            self.dispatched.append((callee, args, st))
            if code is not None:
                self.bad("error-reply", "both", "a command is run after an "
                         "error was reported", st)
            return [("ok", NONE, s)] + [
                ("exc", ("exc", e, I.site(node)), s)
                for e in ("KeyError", "ValueError", "AttributeError",
                          "ANY")]
        return None

    def status(self, t):
        return Wire.status(self, t)


def request(ctx):
    f = ctx.p.func("oa.server.RequestHandler.handle")
    hold = {}

    def mk():
        hold["p"] = Request(ctx.p)
        return hold["p"]
    I, outs = run(mk, ctx.p, f, args={
        f.params()[0]: ("sym", "self", "oa.server.RequestHandler")})
    ctx.saw(I)
    pol = hold["p"]
    ctx.floor("commands dispatched", len(pol.dispatched), 1)
    issues(ctx, pol, ("status", "encoding", "error-reply"), "request")
    errs = 0
    for k, v, s in outs:
        code, handled, resp, extra = s.mon
        if handled:
            ctx.expect(code is None, "error-reply", "request:internal",
                       "an error inside a command is answered by a status "
                       "line of the dispatcher (path %s)" % path_str(s))
            continue
        if k == "exc":
            nm = v[1] if v[0] == "exc" else v[2]
            ctx.bad("error-reply", "request:%s" % nm, "a malformed request "
                    "line ends the handler with %s" % nm)
            continue
        errs += 1
        ctx.expect(code is not None and code != "0", "error-reply",
                   "request:code", "a malformed request line is answered by "
                   "%s (path %s)" % (
                       "nothing" if code is None else "status " + code,
                       path_str(s)))
    ctx.floor("error replies to request lines", errs, 1)


BAD_HEADERS = (b"no colon\r\n", b"Content-length: abc\r\n",
               b"Content-length: -1\r\n", b"Content-length:\r\n",
               b"content-length: 12x\r\n", b"Content-Length: 1.5\r\n")


@check("P20", "malformed requests get an error reply")
def p20(ctx):
    request(ctx)
    base, subs = commands(ctx)
    n = 0
    for c in subs:
        f, pol, I, outs = run_cmd(ctx, c, Handling)
        if not pol.statuses and not pol.resp and not pol.handled:
            continue
        for k, v, s in outs:
            code, handled, resp, extra = s.mon
            if handled:
                ctx.expect(code == "0", "error-reply", "%s:status" % c.qual,
                           "the command is handled although the status is %s"
                           % code)
                continue
            if k == "exc":
                nm = v[1] if v[0] == "exc" else v[2]
                ctx.bad("error-reply", "%s:%s" % (c.qual, nm), "a malformed "
                        "request ends the handler with %s raised at %s" % (
                            nm, v[2] if len(v) > 2 else "?"))
            else:
                ctx.expect(code not in (None, "0"), "error-reply",
                           "%s:reply" % c.qual, "a request that is not "
                           "handled is answered by %s (path %s)" % (
                               code, path_str(s)))
        if not pol.reads:
            continue
        # nothing of the command happens before the request is complete
        for line in BAD_HEADERS:
            if b"ontent" in line.lower() and not pol.messages:
                continue

            def mk(p):
                h = Handling(p)
                h.readline = line
                return h
            f, pol2, I, outs = run_cmd(ctx, c, mk)
            seen = 0
            for k, v, s in outs:
                code, handled, resp, extra = s.mon
                if extra != "seen":
                    continue
                seen += 1
                n += 1
                ctx.expect(k == "ret" and not handled and
                           code not in (None, "0"), "malformed-header",
                           "%s:%s" % (c.qual, line.decode().strip()),
                           "the header %r is %s" % (
                               line, "accepted" if handled else
                               "answered by status %s" % code
                               if k == "ret" else "fatal"))
            for s in pol2.handled:
                ctx.expect(s.mon[3] != "seen", "malformed-header",
                           "%s:%s:handled" % (c.qual, line.decode().strip()),
                           "the command is run although the header %r is "
                           "malformed" % line)
            ctx.floor("paths for the header %r" % line, seen, 1)
    ctx.floor("malformed headers tried", n, 30)


# --------------------------------------------------------------- P19
CL = ("sym", "CONTENT_LENGTH", None)


class Reading(BasePolicy):
    """Monitor: (remaining variable, size term, chunk, stored)."""
    mods = ("oa.protocol",)
    known_exc = True

    def __init__(self, p, given):
        BasePolicy.__init__(self, p)
        self.given = given
        self.problems = {}
        self.reads = 0
        self.full = 0

    def init_mon(self):
        return (None, None, None, False, "start")

    def bad(self, c, m, st):
        self.problems.setdefault(c, m + " (path %s)" % path_str(st))

    def remaining(self, I, st, a):
        """the variable that holds how much is left, seen through the
        size asked for"""
        cands = []
        args = [a]
        if a[0] == "pcall" and a[1] == "min":
            args += list(a[2])
        for n, v in st.env.items():
            if v in args and not is_const(v) and (
                    contains(v, lambda x: x == CL) or
                    v[0] == "loopval"):
                cands.append((n, v))
        if not cands:
            for n, v in st.env.items():
                if is_const(v):
                    continue
                for c, p in st.facts.items():
                    if c[0] == "lt" and (
                            c[1] == a and c[2] == v and p or
                            c[1] == v and c[2] == a and not p):
                        cands.append((n, v))
        return cands

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        if on_attr(callee, "rfile") and nm in ("read", "read1", "recv",
                                               "readline", "readlines",
                                               "readinto"):
            self.reads += 1
            if nm != "read":
                self.bad("method", "the body is read by %s" % nm, st)
            a = args[0] if args else NONE
            ch = ("call", "rfile.read", (a,), I.site(node))
            mon = st.mon
            if st.mon[2] is not None and not st.mon[3]:
                self.bad("lost", "a part that was read is dropped", st)
            if self.given:
                c = self.remaining(I, st, a)
                if not c:
                    self.bad("size", "%s bytes are asked for, which is not "
                             "bounded by what is left of the announced "
                             "length" % show(a), st)
                    return [("ok", ch, st.with_mon(
                        (None, a, ch, False, "read")))]
                v = c[0]
                for x in c:
                    if x[1][0] == "loopval":
                        v = x
                if mon[4] == "start" and not _is_cl(v[1]):
                    self.bad("size", "the first read is for %s bytes" %
                             show(a), st)
                if a == v[1] and mon[4] == "start":
                    self.full += 1
                return [("ok", ch, st.with_mon((v, a, ch, False, "read")))]
            if a == NONE or is_const(a) and isinstance(a[1], int) and \
                    a[1] < 0:
                return [("ok", ch, st.with_mon(
                    (None, NONE, ch, False, "read")))]
            return [("ok", ch, st.with_mon((None, a, ch, False, "read")))]
        return None

    def stored(self, st):
        return st.with_mon(st.mon[:3] + (True,) + st.mon[4:])

    def on_mutate(self, I, st, node, base, meth, args):
        ch = st.mon[2]
        if ch is not None and any(a == ch for a in args):
            if meth in ("append", "extend", "write"):
                if st.mon[3]:
                    self.bad("twice", "a part is stored twice", st)
                return self.stored(st)
            self.bad("order", "parts are stored by %s" % meth, st)

    def on_iter(self, I, st, node, it, elem):
        if st.mon[4] != "start":
            return st.with_mon((None, None, None, False, "again"))

    def on_iter_end(self, I, st, node, kind):
        v, a, ch, stored, _ = st.mon
        if ch is None:
            return None
        kept = stored or any(_acc(x, ch) for x in st.env.values())
        empty = st.facts.get(("truthy", ch)) is False or st.facts.get(
            ("eq", ch, ("const", b""))) is True or st.facts.get(
            ("isnone", ch)) is True
        if kind in ("next", "cont"):
            if not kept and not empty:
                self.bad("lost", "a part that was read is dropped", st)
            if self.given and v is not None:
                now = st.env.get(v[0])
                good = now in (
                    ("bin", "Sub", v[1], ("pcall", "len", (ch,))),)
                if not good and not empty:
                    self.bad("count", "after reading a part %s is left "
                             "instead of what was left less the part" %
                             (show(now) if now else "?"), st)
            return st.with_mon((None, None, None, False, "again"))
        if kind == "brk":
            if not empty and not (kept and self.done(st)):
                self.bad("stop", "reading stops although neither the end of "
                         "the stream nor the announced length is reached",
                         st)
            return st.with_mon((None, None, None, True, "done"))

    def done(self, st):
        for n, x in st.env.items():
            if not self.given or is_const(x):
                continue
            for c, p in st.facts.items():
                if c == ("lt", ("const", 0), x) and not p or \
                        c == ("lt", x, ("const", 1)) and p or \
                        c == ("truthy", x) and not p or \
                        c == ("eq", x, ("const", 0)) and p:
                    return True
        return False

    def on_loop_exit(self, I, st, node):
        if self.given:
            ch = [c for c, p in st.facts.items() if c[0] == "truthy" and
                  not p and contains(c[1], lambda x: x[0] == "call" and
                                     x[1] == "rfile.read")]
            if not self.done(st) and not ch:
                self.bad("stop", "reading ends by a condition that does not "
                         "mean that everything was read", st)
        else:
            ch = [c for c, p in st.facts.items() if c[0] == "truthy" and
                  not p and contains(c[1], lambda x: x[0] in (
                      "call", "loopval"))]
            if not ch:
                self.bad("stop", "reading ends although the end of the "
                         "stream is not reached", st)
        return st.with_mon((None, None, None, True, "done"))


def _is_cl(t):
    return t[0] == "pcall" and t[1] == "int" and t[2] == (CL,)


def _acc(x, ch):
    return x[0] == "bin" and x[1] == "Add" and x[3] == ch


GET_MESSAGE = '''
def driver(cmd, options):
    return cmd.get_message(options)
'''


@check("P19", "the body is read completely and decoded once")
def p19(ctx):
    base, subs = commands(ctx)
    users = [c for c in subs if c.find_attr("has_message")[0] is not None]
    f = base.find("get_message")
    if f is None:
        raise AnalysisError("BaseProtocol.get_message not found")
    impls = {f}
    for c in subs:
        if "get_message" in c.methods:
            impls.add(c.methods["get_message"])
    n = 0
    for f in sorted(impls, key=lambda f: f.qual):
        for given in (True, False):
            for comp in (None, "zlib"):
                heap = {}
                o = {}
                if given:
                    o["content-length"] = CL
                if comp:
                    o["compress"] = ("const", comp)
                opts = mkdict(heap, o, "options")
                hold = {}

                def mk():
                    hold["p"] = Reading(ctx.p, given)
                    return hold["p"]
                ps = f.params()
                I, outs = run(mk, ctx.p, f, args={
                    ps[0]: ("sym", "self", f.cls.qual), ps[1]: opts},
                    heap=heap, facts={("isnone", CL): False})
                ctx.saw(I)
                pol = hold["p"]
                what = "%s:%s%s" % (f.qual, "length" if given else "stream",
                                    ":" + comp if comp else "")
                for c, m in sorted(pol.problems.items()):
                    ctx.bad("reading", "%s:%s" % (what, c), m)
                if not pol.problems:
                    ctx.ok("reading", what)
                ctx.floor("reads (%s)" % what, pol.reads, 1)
                rets = 0
                for k, v, s in outs:
                    if k != "ret":
                        continue
                    if v == ("const", "") and not comp:
                        continue        # nothing was received
                    n += 1
                    rets += 1
                    judge_text(ctx, what, v, s, comp)
                ctx.floor("messages (%s)" % what, rets, 1)
    # the handler's stream is the buffered one of the library
    rh = ctx.p.cls("oa.server.RequestHandler")
    e, _ = rh.find_attr("rbufsize")
    ctx.expect(e is None, "stream", "rbufsize", "the stream is not buffered, "
               "so a read may return less than asked for")
    ctx.floor("messages returned", n, 4)


def judge_text(ctx, what, v, s, comp):
    chunkish = lambda x: x[0] == "call" and x[1] == "rfile.read"
    decs = []

    def p(x):
        if x[0] == "mcall" and x[2] == "decode":
            decs.append(x)
        return False
    contains(v, p)
    t = v
    if not ctx.expect(t[0] == "mcall" and t[2] == "decode", "decoding",
                      what + ":once", "the message is %s, not the bytes "
                      "received decoded as one piece" % show(t)):
        return
    ctx.expect(len(decs) == 1, "decoding", what + ":once", "the message is "
               "decoded more than once: %s" % show(t))
    ctx.expect(codec(t) == "utf8", "decoding", what + ":codec", "the message "
               "is decoded as %s" % codec(t))
    src = t[1]
    if comp:
        if ctx.expect(src[0] == "call" and src[1] in (
                ("ext", "zlib.decompress"),) and len(src[2]) == 1, "decoding",
                what + ":decompress", "a compressed message is not "
                "decompressed before it is decoded"):
            src = src[2][0]
        else:
            return
    whole = src[0] == "join" and is_const(src[1]) and src[1][1] == b"" or \
        chunkish(src) or src[0] == "loopval" or src[0] == "pcall" and \
        src[1] == "bytes" or src[0] == "join" and len(src) == 2 or \
        src[0] == "bin" and src[1] == "Add" or src == ("const", b"")
    ctx.expect(whole, "decoding", what + ":whole", "the message is decoded "
               "from %s instead of everything that was received" % show(src))
    if src[0] == "join" and len(src) > 2:
        ctx.expect(not any(contains(x, lambda y: y[0] in ("mcall", "item"))
                           for x in src[2]), "decoding", what + ":parts",
                   "the parts are changed before they are put together: %s"
                   % show(src))
