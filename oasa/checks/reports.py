"""P24: reports list what matched; P25: the original message survives."""
import ast
import re

from ..absint import NONE, contains, is_const, show
from ..core import check
from ..model import AnalysisError, dotted
from ..util import BasePolicy, driver, mkdict, mkobj, run, text
from .protocol import commands, meth_name
from .relays import mklist
from .scoring import MSG

CLIENT = '''
from oa.rules.ruleset import RuleSet


def prepared(ctxt, checked, not_checked):
    r = RuleSet(ctxt)
    r.post_parsing()
    r.checked = checked
    r.not_checked = not_checked
    return r


def report(ctxt, msg, msg2, checked, not_checked):
    return prepared(ctxt, checked, not_checked).get_report(msg)


def twice(ctxt, msg, msg2, checked, not_checked):
    r = prepared(ctxt, checked, not_checked)
    return (r.get_report(msg), r.get_report(msg2), r.get_report(msg))


def unsafe(ctxt, msg, msg2, checked, not_checked):
    return prepared(ctxt, checked, not_checked).get_unsafe_report(msg)


def summary(ctxt, msg, msg2, checked, not_checked):
    return prepared(ctxt, checked, not_checked).get_summary_report(msg)


def matched(ctxt, msg, msg2, checked, not_checked):
    return prepared(ctxt, checked, not_checked).get_matched_report(msg)


def adjusted(ctxt, msg, msg2, checked, not_checked):
    return prepared(ctxt, checked, not_checked).get_adjusted_message(msg)


def headers(ctxt, msg, msg2, checked, not_checked):
    return prepared(ctxt, checked, not_checked).get_adjusted_message(
        msg, header_only=True)
'''
LISTS = ("report", "unsafe_report", "add_header", "remove_header",
         "dns_query_restriction")
MSG2 = ("sym", "msg2", "oa.message.Message")
WHOLE = "Subject: a\nX-Old: b\n\nbody 1\n\nbody 2\n"
RULESET = "oa.rules.ruleset.RuleSet"


class Render(BasePolicy):
    """Monitor: what is done to the messages, in order."""
    unroll = 64
    known_exc = True

    def __init__(self, p, whole=WHOLE):
        BasePolicy.__init__(self, p)
        self.whole = whole

    def init_mon(self):
        return ()

    def inline(self, I, fi):
        return fi.module.name in ("oa.rules.ruleset", "<client>",
                                  "_client") or fi.is_cm

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        recv = callee[1] if callee[0] in ("meth", "attr") else \
            callee[2] if callee[0] == "bm" else None
        if nm == "err" and recv is not None and path_of(recv) == "ctxt":
            return [("ok", NONE, st.with_mon(st.mon + (("err",),)))]
        if callee[0] in ("fn", "cls", "bm") or recv is None:
            return None
        if nm in ("as_string", "as_bytes") and fresh(recv):
            s = st.with_mon(st.mon + (("out", recv),))
            v = self.whole if nm == "as_string" else self.whole.encode()
            return [("ok", ("const", v), s)]
        if nm in MUTATORS and (fresh(recv) or of_message(recv)):
            s = st.with_mon(st.mon + ((nm, recv) + tuple(args) + tuple(
                v for k, v in sorted(kw.items()) if v[0] != "kwargs"),))
            return [("ok", NONE, s)]
        return None

    def on_attr_store(self, I, st, node, base, name, value):
        if base in (MSG, MSG2) or of_message(base):
            return st.with_mon(st.mon + (("store", base, name, value),))
        if fresh(base):
            return st.with_mon(st.mon + (("attr", base, name, value),))

    def on_item_store(self, I, st, node, base, key, value):
        if fresh(base) or of_message(base):
            return st.with_mon(st.mon + (("set", base, key, value),))

    def on_mutate(self, I, st, node, base, meth, args):
        if of_message(base):
            return st.with_mon(st.mon + ((meth, base) + tuple(args),))

    def on_del(self, I, st, node, base, key):
        if fresh(base) or of_message(base):
            return st.with_mon(st.mon + (("del", base, key),))


MUTATORS = ("add_header", "replace_header", "set_payload", "attach",
            "set_param", "del_param", "set_type", "set_charset",
            "set_boundary", "set_unixfrom", "__setitem__", "__delitem__",
            "set_content", "add_attachment", "set_raw", "set_default_type",
            "del_header", "clear", "clear_content", "make_mixed",
            "make_alternative", "make_related")
MAKERS = ("message_from_string", "message_from_bytes", "MIMEMultipart",
          "MIMEText", "MIMEBase", "MIMEMessage", "Message", "EmailMessage",
          "deepcopy", "copy", "parsestr", "MIMENonMultipart")


def fresh(t):
    """A message object made by the code under analysis."""
    if t[0] == "call" and t[1][0] == "ext":
        return t[1][1].rsplit(".", 1)[-1] in MAKERS
    return t[0] in ("call", "mcall") and meth_of(t) in ("parsestr",)


def meth_of(t):
    return t[1][2] if t[0] == "call" and t[1][0] == "meth" else \
        t[2] if t[0] == "mcall" else None


def path_of(t):
    return t[2] if t[0] == "attr" else t[1] if t[0] == "sym" else None


def of_message(t):
    """Part of the stored original: msg.msg and what hangs off it."""
    while t[0] in ("attr", "item", "mcall", "iter"):
        if t[0] == "attr" and t[1] in (MSG, MSG2) and t[2] in (
                "msg", "raw_headers", "headers", "raw_mime_headers",
                "mime_headers", "addr_headers", "received_headers",
                "rules_checked", "rules_descriptions", "plugin_tags"):
            return True
        t = t[1]
    return False


ROWS = [("AA", True), ("BB", False), ("C_C", True), ("DD", None),
        ("EE", 1), ("AAB", False), ("FF", 0), ("__GG", True)]


def rows(kind):
    if kind == "none":
        return [(n, False) for n, r in ROWS]
    if kind == "empty":
        return []
    if kind == "one":
        return [("BB", False), ("AA", True)]
    if kind == "many":
        return [("R%02d" % i, i % 4 != 0) for i in range(41)]
    return ROWS


NASTY = "50% %(SCORE)s _SCORE_ %s %% @@X@@ "


def build(ctx, conf, kind="some", score=7.25, tags=None, second=None,
          paranoid=False, scores="sym", plain=False):
    """(heap, arguments) for the client functions."""
    heap = {}
    rs = {}

    def opaque(name):
        if plain == "nasty":
            return ("const", NASTY + name)
        return ("const", name + ".") if plain else ("sym", name, None)
    for n, r in rows(kind):
        sc = ("sym", "score:" + n, None) if scores == "sym" else \
            ("const", scores)
        rs[n] = mkobj(heap, "oa.rules.base.BaseRule", {
            "name": n, "score": sc,
            "description": opaque("desc:" + n),
            "_rule_type": opaque("type:" + n)}, "rule:%s:" % n)
    half = [n for n in rs if n not in ("EE", "__GG")]
    c = {"report": [], "unsafe_report": [], "add_header": [],
         "remove_header": [], "report_safe": 1, "required_score": 5.0,
         "report_contact": ("sym", "contact", None),
         "dns_query_restriction": [], "dns_options": ""}
    c.update(conf)
    for k in LISTS:
        c[k] = mklist(heap, [("const", x) for x in c[k]])
    ctxt = ("sym", "ctxt", "oa.context.GlobalContext")
    heap[(ctxt, "attr", "conf")] = mkdict(heap, c, "conf")
    heap[(ctxt, "attr", "paranoid")] = ("const", paranoid)
    for i, (m, sc, rr) in enumerate((
            (MSG, score, rows(kind)),
            (MSG2, second[0] if second else 0,
             rows(second[1]) if second else []))):
        heap[(m, "attr", "score")] = ("const", sc)
        heap[(m, "attr", "raw_text")] = ("const", NASTY + "\nb %\nc\nd")
        heap[(m, "attr", "interpolate_data")] = mkdict(heap, {}, "data")
        heap[(m, "attr", "plugin_tags")] = mkdict(heap, dict(
            tags or {}) if i == 0 else {}, "tags")
        heap[(m, "attr", "rules_checked")] = mkdict(heap, dict(rr), "res")
        heap[(m, "attr", "rules_descriptions")] = mkdict(heap, {
            n: opaque("rdesc:" + n) for n, r in rr if r}, "rdesc")
    return heap, {"ctxt": ctxt, "msg": MSG, "msg2": MSG2,
                  "checked": mkdict(heap, {n: rs[n] for n in half}, "chk"),
                  "not_checked": mkdict(heap, {
                      n: rs[n] for n in rs if n not in half}, "not")}


def client(ctx, what, whole=WHOLE, **kw):
    heap, args = build(ctx, kw.pop("conf", {}), **kw)
    f = driver(ctx.p, CLIENT, what)
    I, outs = run(lambda: Render(ctx.p, whole), ctx.p, f, args=args,
                  heap=heap)
    ctx.saw(I)
    return outs


def pieces(t):
    """Text with the opaque values as {name}."""
    return "".join(x if isinstance(x, str) else "{%s}" % (
        x[1] if x[0] == "sym" else show(x)) if not is_const(x) else
        str(x[1]) for x in text(t))


def one(ctx, rule, construct, outs, what):
    """The texts a client function can return; an error is a violation."""
    res = []
    for k, v, s in outs:
        if k != "ret":
            ctx.bad(rule, construct, "%s ends with %s" % (what, show(v)))
        else:
            res.append((v, s))
    return res


# ------------------------------------------------------------------ P24
def listing(ctx):
    n = 0
    for kind in ("some", "none", "empty", "one", "many"):
        rr = rows(kind)
        hit = [x for x, r in rr if r]
        miss = [x for x, r in rr if not r]
        for what, rule, desc in (("matched", "matched-report", "rdesc:"),
                                 ("summary", "summary", "desc:")):
            scores = (1.5 if what == "summary" else "sym", 0.0) \
                if kind != "one" else (2.0, 0.6, -1.5)
            for sc in scores:
                cons = "%s:%s:%s" % (what, kind, sc)
                for v, s in one(ctx, rule, cons, client(
                        ctx, what, kind=kind, scores=sc), "the report"):
                    t = pieces(v)
                    n += 1
                    rows_ = [x for x in t.splitlines() if x.strip()]
                    names = [w for x in rows_ for w in re.findall(
                        r"(?<![\w:])(%s)(?!\w)" % "|".join(
                            map(re.escape, [a for a, b in rr] or ["-"])), x)]
                    ctx.expect(sorted(names) == sorted(hit), rule, cons,
                               "the rules listed are %s where %s matched" % (
                                   names, hit))
                    for x in hit:
                        ls = [l for l in rows_ if re.search(
                            r"(?<![\w:])%s(?!\w)" % re.escape(x), l)]
                        if len(ls) != 1:
                            continue
                        want = ["{%s%s}" % (desc, x)]
                        if sc == "sym":
                            want.append("{score:%s}" % x)
                        ok = all(w in ls[0] or w.replace("{desc", "{rdesc")
                                 in ls[0] for w in want)
                        if sc != "sym":
                            ok = ok and str(sc if sc != int(sc) or
                                            what == "matched" else
                                            int(sc)) in ls[0].split("{")[0]
                        other = [w for w in re.findall(
                            r"\{(?:rdesc|desc|score):(\w+)\}", ls[0])
                            if w != x]
                        ctx.expect(ok and not other, rule, "%s:%s" % (
                            cons, x), "the line of %s is %r" % (x, ls[0]))
                    for x in miss:
                        ctx.expect("desc:%s}" % x not in t, rule,
                                   "%s:%s" % (cons, x), "%s did not match "
                                   "but is described" % x)
        for tag, rule in (("TESTS", "tests-tag"),
                          ("TESTSSCORES", "scores-tag")):
            cons = "%s:%s" % (tag, kind)
            for v, s in one(ctx, rule, cons, client(
                    ctx, "report", kind=kind, conf={"report": [
                        "<_%s_>" % tag]}), "the report"):
                n += 1
                t = pieces(v).strip()
                m = re.match(r"<(.*)>$", t, re.S)
                got = [x.split("=")[0].strip() for x in m.group(1).split(
                    ",")] if m else [t]
                ctx.expect(got == (hit or ["none"]), rule, cons, "the list "
                           "is %s where %s matched" % (t, hit))
    ctx.floor("listings", n, 20)


VALUES = {
    "YESNO": {True: "Yes", False: "No"},
    "YESNOCAPS": {True: "YES", False: "NO"},
    "REQD": "5.0", "CONTACTADDRESS": "{contact}",
    "PLUG": "50% %s %(SCORE)s _SCORE_ {raw}", "UNKNOWNTAG": "@@UNKNOWNTAG@@",
}
FORMS = (
    ("_%s_", "%s"), ("a_%s_b", "a%sb"), ("100%% _%s_ %%s %%(X)s %%", None),
    ('"q _%s_"', "q %s"), ("'q _%s_'", "q %s"), ("_%s__%s_", "%s%s"),
)


def templates(ctx):
    n = 0
    tags = {"PLUG": ("fmt", "f", (("const", "50% %s %(SCORE)s _SCORE_ "),
                                  ("sym", "raw", None)))}
    for score in (7.25, 5.0, 4.96, -1.0):
        for tag in sorted(VALUES) + ["SCORE", "VERSION", "SUBVERSION",
                                     "HOSTNAME"]:
            want = VALUES.get(tag)
            if isinstance(want, dict):
                want = want[score >= 5]
            if tag == "SCORE":
                want = "%0.1f" % score
            got = {}
            for what in ("report", "unsafe"):
                for i, (form, res) in enumerate(FORMS):
                    if what == "unsafe" and i or score != 7.25 and i:
                        continue
                    k = form.count("%s") - form.count("%%s")
                    src = form % ((tag,) * k)
                    cons = "%s:%s:%s" % (what, src, score)
                    for v, s in one(ctx, "tag", cons, client(
                            ctx, what, score=score, tags=tags, conf={
                                {"report": "report"}.get(
                                    what, "unsafe_report"): [src]}),
                            "the report"):
                        t = pieces(v)
                        n += 1
                        if want is None:
                            w = got.setdefault(tag, t.strip("\n"))
                            ctx.expect(w and "_%s_" % tag not in w and
                                       "@@" not in w, "tag", cons,
                                       "the value of the tag is %r" % w)
                        else:
                            w = want
                        exp = (res or form.replace("%%", "\0").replace(
                            "%s", "\1").replace("\0", "%").replace(
                                "\1", "%s")).replace("%%", "%")
                        exp = w.join(exp.split("%s")) if res else \
                            (form.replace("_%s_", "\1").replace(
                                "%%", "%").replace("\1", w))
                        ctx.expect(t == exp + "\n", "tag", cons, "the "
                                   "template %r gives %r where %r is "
                                   "configured" % (src, t, exp + "\n"))
    # several lines, one after the other; a message has its own values
    cons = "lines"
    for v, s in one(ctx, "tag", cons, client(ctx, "report", conf={
            "report": ["one _YESNO_", "'two'", "", "_TESTS_ _SCORE_"]}),
            "the report"):
        n += 1
        ctx.expect(pieces(v) == "one Yes\ntwo\n\nAA,C_C,EE,__GG 7.2\n" or
                   pieces(v) == "one Yes\ntwo\n\nAA,C_C,EE,__GG 7.3\n",
                   "lines", cons, "the report is %r" % pieces(v))
    for what in ("report", "unsafe"):
        for v, s in one(ctx, "tag", "none", client(ctx, what), "the report"):
            n += 1
            ctx.expect(is_const(v) and v[1].strip(), "lines", "none:" + what,
                       "without a template the report is %s" % show(v))
    for v, s in one(ctx, "tag", "twice", client(
            ctx, "twice", conf={"report": ["_YESNO_ _SCORE_ _TESTS_ "
                                           "_PLUG_"]},
            second=(1.0, "one"), tags={"PLUG": "mine"}), "the report"):
        n += 1
        got = [pieces(x).strip("\n") for x in v[1]] if v[0] == "tuple" else []
        first = "Yes %.1f AA,C_C,EE,__GG mine" % 7.25
        ctx.expect(got == [first, "No 1.0 AA @@PLUG@@", first], "own-values",
                   "twice", "reports for two messages in turn are %s" % got)
    # the reports and the preview
    for tag, what in (("REPORT", "matched"), ("SUMMARY", "summary")):
        for kind in ("some", "none"):
            a = {pieces(v) for v, s in one(ctx, "tag", tag, client(
                ctx, what, kind=kind, scores=1.5), "the report")}
            b = {pieces(v) for v, s in one(ctx, "tag", tag, client(
                ctx, "report", kind=kind, scores=1.5,
                conf={"report": ["_%s_" % tag]}), "the report")}
            n += 1
            ctx.expect({x + "\n" for x in a} == b, "tag", "%s:%s" % (
                tag, kind), "_%s_ gives %s where the list is %s" % (
                    tag, b, a))
    # what is put in is not looked at again
    for tag in ("PREVIEW", "REPORT", "SUMMARY", "PLUG"):
        for conf in (["_%s_" % tag], ["_SCORE_ _%s_ 5%% _YESNO_" % tag]):
            for v, s in one(ctx, "tag", "inserted:" + tag, client(
                    ctx, "report", plain="nasty", scores=1.5, conf={
                        "report": conf}, tags={"PLUG": NASTY}),
                    "the report"):
                n += 1
                t = pieces(v)
                ctx.expect(NASTY.strip() in t and t.endswith(
                    "5% Yes\n") == (len(conf[0]) > 12), "inserted", tag,
                    "the text %r is put into %r as %r" % (
                        NASTY, conf[0], t[:120]))
    ctx.floor("templates", n, 60)


def changes(events):
    """(header additions [(name, value)], removals, others, errors)"""
    add, rem, oth, err = [], [], [], 0
    for e in events:
        if e[0] == "add_header" and len(e) == 4:
            add.append((e[2], e[3]))
        elif e[0] in ("set", "__setitem__"):
            add.append((e[2], e[3]))
        elif e[0] in ("del", "__delitem__"):
            rem.append(e[2])
        elif e[0] == "err":
            err += 1
        elif e[0] != "out":
            oth.append(e)
    return add, rem, oth, err


ADD = ["all Status _YESNO_, score=_SCORE_", "SPAM Flag YES", "ham Hello a b",
       "Spam Two _TESTS_ 10%", "all X-More  spaced  out", "broken",
       "all Nothing", "other Name value", "all Quoted \"q _YESNO_\""]
REMOVE = ["all Gone", "spam Gone-Spam", "ham Gone-Ham", "nobody X", "broken"]


def header_rules(ctx):
    n = 0
    val = {True: "Yes", False: "No"}
    for score, spam in ((7.25, True), (5.0, True), (4.96, False)):
        for what in ("adjusted", "headers"):
            for safe in (0, 1):
                cons = "%s:%s:%s" % (what, score, safe)
                for v, s in one(ctx, "header-rules", cons, client(
                        ctx, what, score=score, conf={
                            "add_header": ADD, "remove_header": REMOVE,
                            "report_safe": safe}), "adjusting"):
                    n += 1
                    add, rem, oth, err = changes(s.mon)
                    got = {}
                    for k, x in add:
                        if is_const(k) and k[1].startswith("X-Spam-") and \
                                k[1] != "X-Spam-Report":
                            got.setdefault(k[1][7:], []).append(pieces(x))
                    exp = {"Status": "%s, score=%0.1f" % (val[spam], score),
                           "X-More": "spaced  out",
                           "Quoted": "q " + val[spam]}
                    exp.update({"Flag": "YES", "Two": "AA,C_C,EE,__GG 10%"}
                               if spam else {"Hello": "a b"})
                    for k in sorted(set(exp) | set(got)):
                        ctx.expect(got.get(k, []) == [exp[k]] if k in exp
                                   else False, "header-rules", "%s:%s" % (
                                       cons, k), "X-Spam-%s is added as %s "
                                   "where %s is configured" % (
                                       k, got.get(k), exp.get(k)))
                    gone = sorted(show(x).strip("'") for x in rem)
                    ctx.expect(gone == sorted([
                        "X-Spam-Gone", "X-Spam-Gone-%s" % (
                            "Spam" if spam else "Ham")]), "header-rules",
                        "%s:removed" % cons, "the headers removed are %s" %
                        gone)
                    ctx.expect(err == 5, "header-rules", "%s:errors" % cons,
                               "%d of 5 unusable lines are reported" % err)
    # in paranoid mode a line that makes no sense stops the configuration
    for opt, line in (("add_header", "other Name value"),
                      ("remove_header", "broken")):
        outs = client(ctx, "adjusted", conf={opt: [line]}, paranoid=True)
        n += 1
        ctx.expect(outs and all(k == "exc" for k, v, s in outs),
                   "header-rules", "paranoid:%s" % opt, "an unusable line is "
                   "accepted in paranoid mode")
    ctx.floor("header rules", n, 12)


class Extra(BasePolicy):
    """The methods of the rule set as opaque values."""
    known_exc = True

    def inline(self, I, fi):
        return fi.module.name.startswith("oa.protocol") or fi.is_cm

    def init_mon(self):
        return ()

    def on_yield(self, I, st, node, value):
        if len(I.frames) > 1:
            return None
        return st.with_mon(st.mon + (value,))

    def on_call(self, I, st, node, callee, args, kw):
        nm = meth_name(callee)
        recv = callee[1] if callee[0] in ("meth", "attr") else \
            callee[2] if callee[0] == "bm" else None
        if recv is not None and path_of(recv) == "ruleset" and nm:
            f = self.project.cls(RULESET).find(nm)
            b = {}
            if f is not None:
                ps = f.params()[1:]
                b = dict(zip(ps, args))
                b.update(kw)
                for p, d in zip(reversed(f.params()),
                                reversed(f.node.args.defaults)):
                    if isinstance(d, ast.Constant):
                        b.setdefault(p, ("const", d.value))
            return [("ok", ("sym", "%s(%s)" % (nm, ",".join(
                "%s=%s" % (k, show(v)) for k, v in sorted(b.items())
                if not (is_const(v) and v[1] is False))), None), st)]
        return None


def bodies(ctx):
    """What each command of the daemon answers with."""
    base, subs = commands(ctx)
    m = ctx.p.module("oa.server")
    table = {}
    for node in ast.walk(m.tree):
        if isinstance(node, ast.Dict) and any(
                isinstance(k, ast.Constant) and k.value == "SYMBOLS"
                for k in node.keys):
            for k, v in zip(node.keys, node.values):
                table[k.value] = dotted(v)
    want = {"SYMBOLS": "AA,C_C,EE,__GG", "CHECK": "",
            "REPORT": "{get_report(msg=msg)}",
            "REPORT_IFSPAM": "{get_report(msg=msg)}",
            "PROCESS": "{get_adjusted_message(msg=msg)}",
            "HEADERS": "{get_adjusted_message(header_only=True,msg=msg)}"}
    n = 0
    for cmd, body in sorted(want.items()):
        c = ctx.p.classes.get(table.get(cmd) or "")
        if c is None or c.find("handle") is None:
            raise AnalysisError("the class of %s is not found" % cmd)
        for score in (7.25, 5.0, 4.96):
            exp = "" if cmd == "REPORT_IFSPAM" and score < 5 else body
            heap = {}
            heap[(MSG, "attr", "score")] = ("const", score)
            heap[(MSG, "attr", "rules_checked")] = mkdict(
                heap, dict(ROWS), "res")
            me = ("sym", "self", c.qual)
            rs = ("sym", "ruleset", RULESET)
            heap[(me, "attr", "ruleset")] = rs
            heap[(rs, "attr", "conf")] = mkdict(
                heap, {"required_score": 5.0}, "conf")
            f = c.find("handle")
            ps = f.params()
            I, outs = run(lambda: Extra(ctx.p), ctx.p, f, args={
                ps[0]: me, ps[1]: MSG, ps[2]: ("sym", "options", None)},
                self_cls=c, heap=heap)
            ctx.saw(I)
            cons = "%s:%s" % (cmd, score)
            for v, s in one(ctx, "body", cons, outs, cmd):
                n += 1
                t = pieces(("join", ("const", ""), s.mon)) if s.mon else ""
                t = t.split("\r\n\r\n", 1)[1] if "\r\n\r\n" in t else t
                ctx.expect(t == exp, "body", cons, "the body is %r where %r "
                           "is due" % (t, exp))
    ctx.floor("command bodies", n, 15)


@check("P24", "Reports and headers list exactly the rules that matched")
def p24(ctx):
    listing(ctx)
    templates(ctx)
    header_rules(ctx)
    bodies(ctx)


# ------------------------------------------------------------------ P25
def original(t):
    """The text of the stored message, to the letter?"""
    return t == ("attr", MSG, "raw_msg")


def written(t):
    """The stored message written out again?"""
    return t[0] == "call" and meth_of(t) == "as_string" and \
        t[1][1] == ("attr", MSG, "msg")


def copy_of(t):
    """Made anew from the complete original?"""
    if t[0] != "call" or t[1][0] != "ext":
        return False
    nm = t[1][1].rsplit(".", 1)[-1]
    if nm == "message_from_string":
        return bool(t[2]) and (original(t[2][0]) or written(t[2][0]))
    return nm == "deepcopy" and t[2][0] == ("attr", MSG, "msg")


def survive(ctx):
    n = 0
    for score, spam in ((7.25, True), (5.0, True), (4.96, False)):
        for safe in (0, 1, 2):
            for what in ("adjusted", "headers"):
                for whole in (WHOLE, "Subject: a\n\n", "Subject: a\n\n\n\nx"):
                    n += one_message(ctx, score, spam, safe, what, whole)
    ctx.floor("adjusted messages", n, 18)


CONTAINER = ("Received", "From", "To", "Subject", "Date")


def one_message(ctx, score, spam, safe, what, whole):
    head = what == "headers"
    cons = "%s:%s:report_safe=%s" % (what, "spam" if spam else "ham", safe)
    n = 0
    outs = client(ctx, what, whole=whole, score=score, conf={
        "report_safe": safe, "report": ["T1 _SCORE_"],
        "unsafe_report": ["T2"],
        "add_header": ["all Status _MULTI_"]}, scores=1.5, plain=True,
        tags={"MULTI": "one\ntwo\n\n  three\r\nFrom: x\n"})
    for v, s in one(ctx, "survives", cons, outs, "adjusting"):
        n += 1
        ev = s.mon
        res = [e[1] for e in ev if e[0] == "out"]
        if not ctx.expect(len(set(res)) == 1, "result", cons, "the result "
                          "is made from %d message objects" % len(set(res))):
            continue
        new = res[0]
        for e in ev:
            if e[0] == "store" and e[2] != "interpolate_data" or \
                    e[0] not in ("err", "out", "store") and \
                    not fresh(e[1]):
                ctx.bad("original-changed", "%s:%s" % (cons, e[0]),
                        "the stored message is changed: %s %s" % (
                            e[0], ", ".join(show(x) for x in e[1:])))
        wrap = spam and safe != 0 and not head
        mine = [e for e in ev if e[0] not in ("err", "out", "store") and
                e[1] == new]
        if wrap:
            att = [e[2] for e in mine if e[0] == "attach"]
            whole_ = [a for a in att if any(
                e[0] == "set_payload" and e[1] == a and original(e[2])
                for e in ev) or a[0] == "call" and
                len(a[2]) and original(a[2][0])]
            if ctx.expect(len(whole_) == 1, "attached", cons, "%d of the "
                          "parts attached are the complete original" %
                          len(whole_)):
                a = whole_[0]
                pay = [e for e in ev if e[0] == "set_payload" and e[1] == a]
                ctx.expect(len(pay) <= 1, "attached", "%s:payload" % cons,
                           "the payload of the original is set %d times" %
                           len(pay))
                kinds = [x[1].lower() for x in a[2]
                         if is_const(x) and isinstance(x[1], str)]
                nm = a[1][1].rsplit(".", 1)[-1]
                if nm == "MIMEText":
                    kinds = ["text"] + (kinds[:1] or ["plain"])
                exp = ["text", "plain"] if safe == 2 else ["message"]
                ctx.expect(kinds[:len(exp)] == exp, "attached",
                           "%s:type" % cons, "the original is attached as "
                           "%s" % "/".join(kinds))
            texts = [pieces(a[2][0]) for a in att if a[0] == "call" and
                     a not in whole_ and a[2]]
            t = "\n".join(texts)
            ctx.expect("T1 %0.1f" % score in t and "T2" in t, "attached",
                       "%s:report" % cons, "the parts attached besides the "
                       "original are %s" % texts)
        else:
            ctx.expect(copy_of(new), "copy", cons, "the result is made "
                       "from %s and not from the complete original" %
                       show(new))
            for e in mine:
                ctx.expect(e[0] in ("add_header", "del", "__delitem__",
                                    "set", "__setitem__"), "copy",
                           "%s:%s" % (cons, e[0]), "%s is applied to the "
                           "copy" % e[0])
        add, rem, oth, err = changes(mine)
        ctx.expect(not rem, "headers-kept", cons, "headers are removed: %s"
                   % [show(x) for x in rem])
        names = [k[1] if is_const(k) else show(k) for k, x in add]
        extra = [k for k in names if k not in (
            ("X-Spam-Status", "X-Spam-Report") +
            (CONTAINER if wrap else ()))]
        ctx.expect(not extra, "headers-added", cons, "headers nobody asked "
                   "for are added: %s" % extra)
        rep = names.count("X-Spam-Report")
        ctx.expect(rep == (1 if spam and safe == 0 else 0), "report-header",
                   cons, "X-Spam-Report is added %d times" % rep)
        for k, x in add:
            if k[1] not in ("X-Spam-Status", "X-Spam-Report"):
                continue
            t = pieces(x)
            ls = re.split(r"\r\n|\r|\n", t)
            ctx.expect(all(l[:1] in " \t" and l.strip() for l in ls[1:]) and
                       not t.endswith("\n"), "one-header", "%s:%s" % (
                           cons, k[1]), "the value %r leaves its header" % t)
            want = ["one", "two", "three", "From: x"] \
                if k[1] == "X-Spam-Status" else ["AA", "C_C", "EE", "__GG"]
            ctx.expect(all(w in t for w in want), "one-header",
                       "%s:%s:all" % (cons, k[1]), "the value %r lacks some "
                       "of %s" % (t, want))
        if head:
            exp = whole.split("\n\n", 1)[0] + "\n\n"
            ctx.expect(v == ("const", exp), "header-only", cons, "of %r the "
                       "reply is %s" % (whole, show(v)))
        else:
            ctx.expect(v == ("const", whole), "result", cons, "of %r the "
                       "reply is %s" % (whole, show(v)))
    return n


ALLOWED = {("oa.message.Message.__init__", "raw_msg"),
           ("oa.message.Message.__init__", "msg")}


def owners(ctx):
    """Nobody replaces or changes the stored text and its parsed form."""
    n = 0
    for f in ctx.p.funcs.values():
        names = set(f.params()[:4])
        for node in ast.walk(f.node):
            targets = []
            if isinstance(node, ast.Assign):
                targets = node.targets
            elif isinstance(node, (ast.AugAssign, ast.AnnAssign)):
                targets = [node.target]
            elif isinstance(node, ast.Delete):
                targets = node.targets
            flat = []
            for t in targets:
                flat += t.elts if isinstance(t, (ast.Tuple, ast.List)) \
                    else [t]
            for t in flat:
                sub = t.value if isinstance(t, ast.Subscript) else None
                a = sub if sub is not None else t
                if not isinstance(a, ast.Attribute) or a.attr not in (
                        "raw_msg", "msg"):
                    continue
                d = dotted(a.value) or ""
                if a.attr == "msg" and not (
                        d in ("msg", "message") or
                        d == "self" and f.cls is not None and
                        f.cls.qual == "oa.message.Message"):
                    continue
                n += 1
                ctx.expect((f.qual, a.attr) in ALLOWED and sub is None,
                           "stored", "%s:%s" % (f.qual, a.attr), "%s "
                           "changes %s.%s" % (f.qual, d, a.attr),
                           )
            if isinstance(node, ast.Call) and isinstance(
                    node.func, ast.Attribute) and \
                    node.func.attr in MUTATORS:
                d = dotted(node.func.value) or ""
                parts = d.split(".")
                own = parts[-1] == "msg" and len(parts) > 1 and \
                    parts[-2] in ("msg", "message", "self")
                if own:
                    n += 1
                    ctx.bad("stored", "%s:%s" % (f.qual, node.func.attr),
                            "%s calls %s of the parsed original" % (
                                f.qual, node.func.attr))
            if isinstance(node, ast.Call) and dotted(node.func) in (
                    "setattr", "delattr") and len(node.args) > 1 and \
                    isinstance(node.args[1], ast.Constant) and \
                    node.args[1].value in ("raw_msg", "msg"):
                n += 1
                ctx.bad("stored", "%s:setattr" % f.qual, "%s replaces %s" % (
                    f.qual, node.args[1].value))
    ctx.floor("stores of the message text", n, 2)


@check("P25", "The original message survives processing unchanged")
def p25(ctx):
    survive(ctx)
    owners(ctx)
