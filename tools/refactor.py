#!/usr/bin/env python3
"""Rewrite a copy of the repository without changing what it does.

refactor.py KIND SRC DST   copies SRC/{oa,scripts} to DST with the rewriting
KIND applied everywhere it is possible; used to look for checks that judge how
the code is written.
"""
import ast
import copy
import os
import shutil
import sys


def scoped(fn):
    """Statements and expressions of a function without nested functions."""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(n))


class Blocks(ast.NodeTransformer):
    """Rewrites lists of statements."""

    def __init__(self):
        self.n = 0

    def fresh(self, p):
        self.n += 1
        return "_%s%d" % (p, self.n)

    def generic_visit(self, node):
        ast.NodeTransformer.generic_visit(self, node)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self.block(b, node, f))
        return node

    def block(self, b, node, field):
        out = []
        for s in b:
            r = self.stmt(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def stmt(self, s):
        return s


def name(x, store=False):
    return ast.Name(x, ast.Store() if store else ast.Load())


def infunc(fn):
    """Rewrites only what is inside of functions."""
    class T(fn):
        depth = 0

        def visit_FunctionDef(self, n):
            self.depth += 1
            try:
                return self.generic_visit(n)
            finally:
                self.depth -= 1

        def block(self, b, node, field):
            if not self.depth:
                return b
            return fn.block(self, b, node, field)
    return T


class Same(ast.NodeTransformer):
    pass


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, fn):
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, (
                    ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global,
                    ast.Nonlocal, ast.Import, ast.ImportFrom)):
                return fn
            if isinstance(n, ast.Name) and n.id in ("locals", "vars", "eval",
                                                    "exec"):
                return fn
        params = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
        loc = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and
               isinstance(n.ctx, ast.Store)} - params
        loc |= {n.name for n in ast.walk(fn)
                if isinstance(n, ast.ExceptHandler) and n.name}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id += "_renamed"
            if isinstance(n, ast.ExceptHandler) and n.name in loc:
                n.name += "_renamed"
        return fn


@infunc
class Return(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and \
                not isinstance(s.value, (ast.Name, ast.Constant)):
            v = self.fresh("answer")
            return [ast.Assign([name(v, True)], s.value),
                    ast.Return(name(v))]
        return s


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


@infunc
class Guard(Blocks):
    """if c: return x; rest  ->  if c: return x else: rest"""

    def block(self, b, node, field):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(
                    s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and \
                    b[i + 1:]:
                s.orelse = self.block(b[i + 1:], node, field)
                return b[:i + 1]
        return b


@infunc
class Unguard(Blocks):
    """for ..: if c: rest  ->  if not c: continue; rest"""

    def block(self, b, node, field):
        if isinstance(node, ast.For) and field == "body" and \
                isinstance(b[-1], ast.If) and not b[-1].orelse:
            s = b[-1]
            return b[:-1] + [ast.If(ast.UnaryOp(ast.Not(), s.test),
                                    [ast.Continue()], [])] + s.body
        return b


@infunc
class Hoist(Blocks):
    """The first argument of a call gets a name."""

    def stmt(self, s):
        c = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) \
            else None
        if isinstance(c, ast.Call) and c.args and isinstance(
                c.args[0], (ast.Call, ast.BinOp, ast.Subscript)) and \
                isinstance(c.func, (ast.Name, ast.Attribute)) and not any(
                    isinstance(x, (ast.Call, ast.Yield))
                    for x in ast.walk(c.func)):
            v = self.fresh("arg")
            a = ast.Assign([name(v, True)], c.args[0])
            c.args[0] = name(v)
            return [a, s]
        return s


@infunc
class Iterable(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
            v = self.fresh("items")
            a = ast.Assign([name(v, True)], s.iter)
            s.iter = name(v)
            return [a, s]
        return s


@infunc
class Test(Blocks):
    """The condition of an if gets a name."""

    def stmt(self, s):
        if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
            v = self.fresh("cond")
            a = ast.Assign([name(v, True)], s.test)
            s.test = name(v)
            return [a, s]
        return s


class Augment(ast.NodeTransformer):
    def visit_AugAssign(self, n):
        if isinstance(n.target, (ast.Name, ast.Attribute)) and isinstance(
                n.value, ast.Constant):
            t = copy.deepcopy(n.target)
            t.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(t, n.op, n.value))
        return n


class Swap(ast.NodeTransformer):
    OPS = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE,
           ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.OPS and not any(
                isinstance(x, (ast.Call, ast.Yield)) for x in ast.walk(n)):
            return ast.Compare(n.comparators[0], [self.OPS[type(n.ops[0])]()],
                               [n.left])
        return n


class NotIn(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.NotIn, ast.IsNot,
                                                     ast.NotEq)):
            op = {ast.NotIn: ast.In, ast.IsNot: ast.Is, ast.NotEq: ast.Eq}[
                type(n.ops[0])]()
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [op],
                                                      n.comparators))
        return n


@infunc
class Loop(Blocks):
    """x = [..comprehension..] -> loop"""

    def stmt(self, s):
        c = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
        if isinstance(c, ast.ListComp) and len(c.generators) == 1:
            g = c.generators[0]
            v = self.fresh("found")
            # the targets of a comprehension are its own
            own = {x.id for x in ast.walk(g.target)
                   if isinstance(x, ast.Name)}
            for t in [c.elt, g.target] + g.ifs:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and x.id in own:
                        x.id = "_own_" + x.id
            body = [ast.Expr(ast.Call(ast.Attribute(
                name(v), "append", ast.Load()), [c.elt], []))]
            for t in reversed(g.ifs):
                body = [ast.If(t, body, [])]
            s.value = name(v)
            return [ast.Assign([name(v, True)], ast.List([], ast.Load())),
                    ast.For(g.target, g.iter, body, []), s]
        return s


@infunc
class NestAnd(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(
                s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            body = s.body
            for t in reversed(s.test.values):
                body = [ast.If(t, body, [])]
            return body
        return s


@infunc
class IfExp(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
            v = s.value
            return ast.If(v.test, [ast.Assign(copy.deepcopy(s.targets),
                                              v.body)],
                          [ast.Assign(s.targets, v.orelse)])
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            v = s.value
            return [ast.If(v.test, [ast.Return(v.body)], []),
                    ast.Return(v.orelse)]
        return s


class Nothing(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body.insert(1 if ast.get_docstring(n) else 0,
                      ast.Assign([name("_nothing", True)],
                                 ast.Constant(None)))
        return n


class Delegate(ast.NodeTransformer):
    """The body of every method moves to a method of its own."""

    def visit_ClassDef(self, c):
        self.generic_visit(c)
        out = []
        for f in c.body:
            out.append(f)
            if not isinstance(f, ast.FunctionDef) or f.name.startswith("__") \
                    or f.decorator_list or f.args.kwonlyargs or \
                    f.args.posonlyargs or not f.args.args or any(
                        isinstance(x, ast.Call) and isinstance(
                            x.func, ast.Name) and x.func.id == "super" and
                        not x.args for x in ast.walk(f)):
                continue
            g = copy.deepcopy(f)
            g.name = "_own_%s_%s" % (c.name.lower(), f.name)
            g.args.defaults = []
            a = [name(x.arg) for x in f.args.args[1:]]
            if f.args.vararg:
                a.append(ast.Starred(name(f.args.vararg.arg), ast.Load()))
            kw = [ast.keyword(None, name(f.args.kwarg.arg))] \
                if f.args.kwarg else []
            me = f.args.args[0].arg
            f.body = [ast.Return(ast.Call(ast.Attribute(
                name(me), g.name, ast.Load()), a, kw))]
            out.append(g)
        c.body = out
        return c


def reads(stmts):
    return {x.id for s in stmts for x in ast.walk(s)
            if isinstance(x, ast.Name)}


def writes(stmts):
    out = set()
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store,
                                                              ast.Del)):
                out.add(x.id)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name).split(".")[0] for a in x.names}
    return out


def plain(f):
    """A function from which pieces can be taken without further thought."""
    for x in ast.walk(f):
        if x is not f and isinstance(x, (
                ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global,
                ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.Import,
                ast.ImportFrom)):
            return False
        if isinstance(x, ast.Name) and x.id in ("super", "locals", "vars"):
            return False
    return not f.args.vararg and not f.args.kwarg and \
        not f.args.kwonlyargs and all(
            isinstance(d, ast.Name) and d.id in ("staticmethod",
                                                 "classmethod")
            for d in f.decorator_list)


class Pieces(ast.NodeTransformer):
    cls = None
    count = 0

    def around(self, holder, c):
        out = []
        for f in holder.body:
            new = []
            if isinstance(f, ast.FunctionDef) and plain(f):
                new = self.cut(f, c)
            elif isinstance(f, ast.ClassDef):
                self.around(f, f)
            out.append(f)
            out.extend(new)
        holder.body = out
        return holder

    def visit_Module(self, m):
        return self.around(m, None)

    def helper(self, f, c, params, body):
        """(definition, expression to call it)"""
        self.count += 1
        nm = "_part%d_%s%s" % (self.count, c.name.lower() + "_" if c else "",
                               f.name.strip("_"))
        me = None
        deco = [d.id for d in f.decorator_list]
        if c is not None and "staticmethod" not in deco and f.args.args:
            me = f.args.args[0].arg
        params = [x for x in params if x != me]
        args = ([me] if me else []) + params
        g = ast.FunctionDef(nm, ast.arguments(
            [], [ast.arg(x) for x in args], None, [], [], None, []), body,
            [name("classmethod")] if "classmethod" in deco else
            [] if me or c is None else [name("staticmethod")])
        fn = ast.Attribute(name(me), nm, ast.Load()) if me else \
            name(nm) if c is None else ast.Attribute(
                name(c.name), nm, ast.Load())
        return g, ast.Call(fn, [name(x) for x in params], [])


class Tail(Pieces):
    """The second half of a function moves to a helper."""

    def cut(self, f, c):
        i = 1 if ast.get_docstring(f) else 0
        k = i + (len(f.body) - i + 1) // 2
        head, tail = f.body[:k], f.body[k:]
        if len(tail) < 1 or k == i:
            return []
        loc = {a.arg for a in f.args.args} | writes(head)
        params = sorted(reads(tail) & loc)
        g, call = self.helper(f, c, params, tail)
        f.body = head + [ast.Return(call)]
        return [g]


class Step(Pieces):
    """The body of a loop moves to a helper."""

    def cut(self, f, c):
        out = []
        for x in list(ast.walk(f)):
            if not isinstance(x, ast.For) or any(
                    isinstance(y, (ast.Return, ast.Break, ast.Continue))
                    for s in x.body for y in ast.walk(s)):
                continue
            inside = {id(y) for s in x.body for y in ast.walk(s)}
            outer = {y.id for y in ast.walk(f) if isinstance(y, ast.Name) and
                     id(y) not in inside}
            w = writes(x.body)
            if w & outer or any(isinstance(y, (ast.For, ast.While))
                                for b in x.body for y in ast.walk(b)):
                continue
            # read before it is written in a later round?
            loc = {a.arg for a in f.args.args} | (writes(f.body) - w)
            params = sorted(reads(x.body) & loc)
            g, call = self.helper(f, c, params, x.body)
            x.body = [ast.Expr(call)]
            out.append(g)
        return out


class Middle(Pieces):
    """Some statements in a row move to a helper that returns what they
    computed."""

    def cut(self, f, c):
        out = []
        args = {a.arg for a in f.args.args}
        for x in list(ast.walk(f)):
            for field in ("body", "orelse"):
                b = getattr(x, field, None)
                if not isinstance(b, list) or len(b) < 4 or not isinstance(
                        b[0], ast.stmt):
                    continue
                i = 1
                run = b[i:i + 2]
                if any(isinstance(y, (ast.Return, ast.Break, ast.Continue,
                                      ast.Raise, ast.Delete, ast.Try))
                       for s in run for y in ast.walk(s)):
                    continue
                w = writes(run)
                sure = writes([s for s in run if isinstance(s, ast.Assign)])
                inside = {id(y) for s in run for y in ast.walk(s)}
                later = {y.id for y in ast.walk(f) if isinstance(y, ast.Name)
                         and id(y) not in inside}
                res = sorted(w & later)
                if set(res) - sure:
                    continue
                loc = args | writes(f.body)
                own = {y.id for s in run for g in ast.walk(s) if isinstance(
                    g, ast.comprehension) for y in ast.walk(g.target)
                    if isinstance(y, ast.Name)}
                loads = {y.id for s in run for y in ast.walk(s)
                         if isinstance(y, ast.Name) and isinstance(
                             y.ctx, ast.Load)}
                outside = args | {
                    y.id for y in ast.walk(f) if isinstance(y, ast.Name) and
                    isinstance(y.ctx, ast.Store) and id(y) not in inside}
                if w & loads & outside:
                    continue
                params = sorted(loads & loc - own - w)
                g, call = self.helper(f, c, params, run + (
                    [ast.Return(name(res[0]) if len(res) == 1 else ast.Tuple(
                        [name(r) for r in res], ast.Load()))] if res else []))
                new = ast.Expr(call) if not res else ast.Assign(
                    [name(res[0], True) if len(res) == 1 else ast.Tuple(
                        [name(r, True) for r in res], ast.Store())], call)
                b[i:i + 2] = [new]
                out.append(g)
        return out


class Question(Pieces):
    """The condition of an if moves to a helper."""

    def cut(self, f, c):
        out = []
        loc = {a.arg for a in f.args.args} | writes(f.body)
        for x in list(ast.walk(f)):
            if isinstance(x, ast.If) and not isinstance(
                    x.test, (ast.Name, ast.Constant)):
                own = {y.id for g in ast.walk(x.test) if isinstance(
                    g, ast.comprehension) for y in ast.walk(g.target)
                    if isinstance(y, ast.Name)}
                if own:
                    continue
                params = sorted(reads([x.test]) & loc)
                g, call = self.helper(f, c, params, [ast.Return(x.test)])
                x.test = call
                out.append(g)
        return out


class Value(Pieces):
    """The value of an assignment moves to a helper."""

    def cut(self, f, c):
        out = []
        loc = {a.arg for a in f.args.args} | writes(f.body)
        for x in list(ast.walk(f)):
            if isinstance(x, ast.Assign) and isinstance(
                    x.value, (ast.Call, ast.BinOp, ast.ListComp)):
                own = {y.id for g in ast.walk(x.value) if isinstance(
                    g, ast.comprehension) for y in ast.walk(g.target)
                    if isinstance(y, ast.Name)}
                if own & loc - own and False:
                    continue
                params = sorted(reads([x.value]) & (loc - own))
                g, call = self.helper(f, c, params, [ast.Return(x.value)])
                x.value = call
                out.append(g)
        return out


class Constants(ast.NodeTransformer):
    """Numbers and texts in comparisons get names in the module."""

    def visit_Module(self, m):
        self.names = {}
        self.generic_visit(m)
        i = 0
        while i < len(m.body) and (
                isinstance(m.body[i], (ast.Import, ast.ImportFrom)) or
                isinstance(m.body[i], ast.Expr)):
            i += 1
        m.body[i:i] = [ast.Assign([name(v, True)], ast.Constant(k[1]))
                       for k, v in self.names.items()]
        return m

    def visit_Compare(self, n):
        self.generic_visit(n)
        for i, c in enumerate(n.comparators):
            if isinstance(c, ast.Constant) and isinstance(
                    c.value, (int, str, float)) and not isinstance(
                        c.value, bool):
                k = (type(c.value).__name__, c.value)
                v = self.names.setdefault(k, "_CONSTANT_%d" % len(self.names))
                n.comparators[i] = name(v)
        return n


class Elif(ast.NodeTransformer):
    """x = d.get(k) used once; chained comparisons; De Morgan."""

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not) and isinstance(n.operand, ast.BoolOp):
            op = ast.Or() if isinstance(n.operand.op, ast.And) else ast.And()
            return ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v)
                                   for v in n.operand.values])
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(
                n.test.op, ast.Or):
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(
                ast.And(), [ast.UnaryOp(ast.Not(), v)
                            for v in n.test.values]))
        return n


class Format(ast.NodeTransformer):
    """"..%s.." % x -> "..{}..".format(x) where only %s is used."""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) \
                and isinstance(n.left.value, str):
            t = n.left.value
            k = t.count("%s")
            if t.count("%") != k or "{" in t or "}" in t:
                return n
            args = n.right.elts if isinstance(n.right, ast.Tuple) else None
            if args is None and k == 1 and isinstance(
                    n.right, ast.Constant):
                args = [n.right]
            if args is None or len(args) != k:
                return n
            return ast.Call(ast.Attribute(ast.Constant(
                t.replace("%s", "{}")), "format", ast.Load()), args, [])
        return n


class Alias(ast.NodeTransformer):
    """self.x read more than once gets a local name? only self itself."""

    def visit_FunctionDef(self, f):
        if f.name.startswith("__") or f.decorator_list or not f.args.args \
                or f.args.args[0].arg != "self" or any(
                    isinstance(x, (ast.FunctionDef, ast.Lambda)) and
                    x is not f for x in ast.walk(f)) or any(
                    isinstance(x, ast.Name) and x.id == "super"
                    for x in ast.walk(f)):
            return f
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id == "self":
                x.id = "me"
        i = 1 if ast.get_docstring(f) else 0
        f.body.insert(i, ast.Assign([name("me", True)], name("self")))
        return f


@infunc
class While(Blocks):
    """for x in y  ->  a while loop with an index"""

    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and not any(
                isinstance(x, ast.Continue) for b in s.body
                for x in ast.walk(b)) and not (
                    isinstance(s.iter, ast.Call) and isinstance(
                        s.iter.func, ast.Name) and
                    s.iter.func.id == "range"):
            v, i = self.fresh("all"), self.fresh("at")
            call = ast.Call(name("list"), [s.iter], [])
            return [ast.Assign([name(v, True)], call),
                    ast.Assign([name(i, True)], ast.Constant(0)),
                    ast.While(ast.Compare(name(i), [ast.Lt()], [ast.Call(
                        name("len"), [name(v)], [])]), [
                            ast.Assign([s.target], ast.Subscript(
                                name(v), name(i), ast.Load())),
                            ast.AugAssign(name(i, True), ast.Add(),
                                          ast.Constant(1))] + s.body, [])]
        return s


@infunc
class Enumerate(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.For):
            s.target = ast.Tuple([name(self.fresh("no"), True), s.target],
                                 ast.Store())
            s.iter = ast.Call(name("enumerate"), [s.iter], [])
        return s


@infunc
class Items(Blocks):
    """for k, v in d.items()  ->  for k in d: v = d[k]"""

    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and \
                isinstance(s.iter.func, ast.Attribute) and \
                s.iter.func.attr == "items" and isinstance(
                    s.iter.func.value, (ast.Name, ast.Attribute)) and \
                isinstance(s.target, ast.Tuple) and len(
                    s.target.elts) == 2 and isinstance(s.target.elts[0],
                                                       ast.Name):
            k, v = s.target.elts
            d = s.iter.func.value
            s.body.insert(0, ast.Assign([v], ast.Subscript(
                copy.deepcopy(d), name(k.id), ast.Load())))
            s.target, s.iter = k, d
        return s


@infunc
class Any(Blocks):
    """for x in y: if c: return True; return False  ->  any(...)"""

    def block(self, b, node, field):
        if len(b) >= 2 and isinstance(b[-1], ast.Return) and isinstance(
                b[-1].value, ast.Constant) and isinstance(
                    b[-1].value.value, bool) and isinstance(b[-2], ast.For):
            f, neg = b[-2], b[-1].value.value
            if len(f.body) == 1 and not f.orelse and isinstance(
                    f.body[0], ast.If) and not f.body[0].orelse and len(
                        f.body[0].body) == 1 and isinstance(
                        f.body[0].body[0], ast.Return) and isinstance(
                            f.body[0].body[0].value, ast.Constant) and \
                    f.body[0].body[0].value.value is (not neg):
                g = ast.GeneratorExp(f.body[0].test, [ast.comprehension(
                    f.target, f.iter, [], 0)])
                v = ast.Call(name("any"), [g], [])
                return b[:-2] + [ast.Return(
                    ast.UnaryOp(ast.Not(), v) if neg else v)]
        return b


@infunc
class Reorder(Blocks):
    """Neighbouring assignments that have nothing to do with each other."""

    @staticmethod
    def quiet(s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and \
            isinstance(s.targets[0], (ast.Name, ast.Attribute)) and not any(
                isinstance(x, (ast.Call, ast.Subscript, ast.Yield,
                               ast.ListComp))
                for x in ast.walk(s.value)) or isinstance(
                    s, ast.Assign) and isinstance(
                        s.targets[0], ast.Name) and isinstance(
                            s.value, ast.Call) and isinstance(
                                s.value.func, ast.Name) and \
            s.value.func.id in ("list", "dict", "set") and \
            not s.value.args

    def block(self, b, node, field):
        b = list(b)
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if self.quiet(x) and self.quiet(y):
                def names(s):
                    return ({n.id for n in ast.walk(s)
                             if isinstance(n, ast.Name)} - {"self"} |
                            {"." + n.attr for n in ast.walk(s)
                             if isinstance(n, ast.Attribute)})
                tx = ast.unparse(x.targets[0]).split(".")[-1]
                ty = ast.unparse(y.targets[0]).split(".")[-1]
                if tx not in {n.lstrip(".") for n in names(y)} and \
                        ty not in {n.lstrip(".") for n in names(x)}:
                    b[i], b[i + 1] = y, x
                    i += 1
            i += 1
        return b


class Methods(ast.NodeTransformer):
    """The methods of a class in the opposite order."""

    def visit_ClassDef(self, c):
        fs = [f for f in c.body if isinstance(f, ast.FunctionDef)]
        if any(not isinstance(d, ast.Name) or d.id not in (
                "staticmethod", "classmethod") for f in fs
                for d in f.decorator_list) or len(
                    {f.name for f in fs}) < len(fs):
            return c
        used = {x.id for s in c.body if not isinstance(s, ast.FunctionDef)
                for x in ast.walk(s) if isinstance(x, ast.Name)}
        if used & {f.name for f in fs}:
            return c
        rest = [s for s in c.body if not isinstance(s, ast.FunctionDef)]
        c.body = rest + fs[::-1]
        return c


class FString(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) \
                and isinstance(n.left.value, str) and isinstance(
                    n.right, ast.Tuple):
            t = n.left.value
            k = t.count("%s")
            if t.count("%") != k or len(n.right.elts) != k:
                return n
            out = []
            for i, p in enumerate(t.split("%s")):
                if p:
                    out.append(ast.Constant(p))
                if i < k:
                    out.append(ast.FormattedValue(n.right.elts[i], -1, None))
            try:
                j = ast.JoinedStr(out)
                ast.parse(ast.unparse(j))
                return j
            except (SyntaxError, ValueError):
                return n
        return n


@infunc
class Ternary(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and \
                all(isinstance(x, ast.Assign) and len(x.targets) == 1
                    for x in (s.body[0], s.orelse[0])) and \
                ast.dump(s.body[0].targets[0]) == ast.dump(
                    s.orelse[0].targets[0]):
            return ast.Assign(s.body[0].targets, ast.IfExp(
                s.test, s.body[0].value, s.orelse[0].value))
        return s


class Literals(ast.NodeTransformer):
    """list() <-> [] and dict() <-> {}"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and not n.args and not n.keywords:
            if n.func.id == "list":
                return ast.List([], ast.Load())
            if n.func.id == "dict":
                return ast.Dict([], [])
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if not n.elts and isinstance(n.ctx, ast.Load):
            return ast.Call(name("list"), [], [])
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if not n.keys:
            return ast.Call(name("dict"), [], [])
        return n


class Super(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp,
                              ast.GeneratorExp))
               and x is not f for x in ast.walk(f)):
            return f
        self.generic_visit(f)
        return f

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            n.args = []
        return n


@infunc
class DropElse(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and isinstance(
                s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
            rest, s.orelse = s.orelse, []
            return [s] + rest
        return s


class InSet(ast.NodeTransformer):
    """x in (a, b)  ->  x == a or x == b for names; in [a, b] otherwise"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) \
                and isinstance(n.comparators[0], (ast.Tuple, ast.List)) and \
                n.comparators[0].elts:
            es = n.comparators[0].elts
            if isinstance(n.left, ast.Name) and len(es) < 4 and all(
                    isinstance(e, ast.Constant) for e in es):
                neg = isinstance(n.ops[0], ast.NotIn)
                return ast.BoolOp(ast.And() if neg else ast.Or(), [
                    ast.Compare(name(n.left.id), [
                        ast.NotEq() if neg else ast.Eq()], [e])
                    for e in es]) if len(es) > 1 else ast.Compare(
                        n.left, [ast.NotEq() if neg else ast.Eq()], es)
            n.comparators[0] = (ast.List if isinstance(
                n.comparators[0], ast.Tuple) else ast.Tuple)(es, ast.Load())
        return n


@infunc
class Get(Blocks):
    """x = d.get(k, c)  ->  if k in d: x = d[k] else: x = c"""

    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and \
                isinstance(s.value.func, ast.Attribute) and \
                s.value.func.attr == "get" and 1 <= len(
                    s.value.args) <= 2 and not s.value.keywords and \
                isinstance(s.value.args[0], (ast.Name, ast.Constant)) and \
                isinstance(s.value.func.value, (ast.Name, ast.Attribute)) \
                and "eaders" not in ast.unparse(s.value.func.value):
            d, k = s.value.func.value, s.value.args[0]
            c = s.value.args[1] if len(s.value.args) > 1 else \
                ast.Constant(None)
            return ast.If(ast.Compare(k, [ast.In()], [d]), [
                ast.Assign(copy.deepcopy(s.targets), ast.Subscript(
                    copy.deepcopy(d), copy.deepcopy(k), ast.Load()))],
                [ast.Assign(s.targets, c)])
        return s


KINDS = {
    "same": Same, "rename": Rename, "return": Return, "invert": Invert,
    "guard": Guard, "unguard": Unguard, "hoist": Hoist, "iter": Iterable,
    "test": Test, "augment": Augment, "swap": Swap, "notin": NotIn,
    "loop": Loop, "nest": NestAnd, "ifexp": IfExp, "nothing": Nothing,
    "delegate": Delegate, "constants": Constants, "morgan": Elif,
    "format": Format, "alias": Alias, "tail": Tail, "step": Step,
    "question": Question, "middle": Middle, "value": Value,
    "while": While, "enumerate": Enumerate, "items": Items, "any": Any,
    "reorder": Reorder, "methods": Methods, "fstring": FString,
    "ternary": Ternary, "literals": Literals, "super": Super,
    "dropelse": DropElse, "inset": InSet, "get": Get,
}


def main(kind, src, dst):
    for d in ("oa", "scripts"):
        shutil.copytree(os.path.join(src, d), os.path.join(dst, d),
                        ignore=shutil.ignore_patterns("__pycache__"))
    for d in os.listdir(src):
        a = os.path.join(src, d)
        if d in ("oa", "scripts", ".git", "tests"):
            continue
        if os.path.isdir(a):
            shutil.copytree(a, os.path.join(dst, d), symlinks=True)
        else:
            shutil.copy2(a, os.path.join(dst, d))
    for root, _, files in os.walk(dst):
        if not root.startswith((os.path.join(dst, "oa"),
                                os.path.join(dst, "scripts"))):
            continue
        for f in files:
            if f.endswith(".py"):
                p = os.path.join(root, f)
                t = ast.parse(open(p, encoding="utf8").read())
                t = ast.fix_missing_locations(KINDS[kind]().visit(t))
                with open(p, "w", encoding="utf8") as o:
                    o.write(ast.unparse(t) + "\n")


if __name__ == "__main__":
    if sys.argv[1:] == ["list"]:
        print(" ".join(KINDS))
    else:
        main(*sys.argv[1:])
