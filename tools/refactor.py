#!/usr/bin/env python3
"""Behaviour-preserving edits of the analysed functions: the checks have to stay quiet on every one.
usage: refactor.py [-x P,Q] [-p P,Q] [-t transform,...] [-n] name...   (function name prefixes; -n: only count)"""
import ast, copy, json, os, sys, multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import rules
from vf.repo import Repo
from vf.report import Ctx, known_findings
from tools.mutate import replaced

L, S = ast.Load, ast.Store
SCOPES = (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)
CMPSWAP = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
CMPNOT = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def name(i, c=L):
    return ast.Name(i, c())


def own(n, skip=SCOPES):
    """nodes below n, not those of nested scopes"""
    for c in ast.iter_child_nodes(n):
        yield c
        if not isinstance(c, skip):
            yield from own(c, skip)


def reads(ns):
    out = set()
    for n in ns:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)):
                out.add(x.id)
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                out.add(x.target.id)
    return out


def writes(ns):
    out = set()
    for n in ns:
        for x in [n, *own(n, SCOPES + (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp))]:
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name).split(".")[0] for a in x.names}
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
            elif isinstance(x, ast.MatchAs) and x.name:
                out.add(x.name)
    return out


def allnames(fn):
    return {x.id for x in ast.walk(fn) if isinstance(x, ast.Name)} | {x.arg for x in ast.walk(fn) if isinstance(x, ast.arg)}


def pure(e):
    return not any(isinstance(x, (ast.Call, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)) for x in ast.walk(e))


def inv(c):
    if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
        return c.operand
    if isinstance(c, ast.Compare) and len(c.ops) == 1 and type(c.ops[0]) in CMPNOT:
        return ast.Compare(c.left, [CMPNOT[type(c.ops[0])]()], c.comparators)
    return ast.UnaryOp(ast.Not(), c)


def ends(b):
    s = b[-1] if b else None
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    return isinstance(s, ast.If) and ends(s.body) and ends(s.orelse)


class X:
    """one kind of edit: block(list of statements) or expr(node), each returns a list / node or None"""
    def __init__(self, fn):
        self.fn, self.used, self.hits, self.extra = fn, allnames(fn), 0, []
        self.only = None

    def fresh(self, p="tmp"):
        i = 1
        while f"{p}_{i}" in self.used:
            i += 1
        self.used.add(f"{p}_{i}")
        return f"{p}_{i}"

    def go(self):
        i = self.hits
        self.hits += 1
        return self.only is None or i == self.only

    def run(self):
        self.blocks(self.fn, "body")
        return self.fn

    def blocks(self, n, fld="body", loop=None):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                lp = n if isinstance(n, (ast.For, ast.While)) and f == "body" else loop
                for s in b:
                    if not isinstance(s, SCOPES):
                        self.blocks(s, loop=lp)
                new = self.block(b, n, f, lp)
                if new is not None:
                    setattr(n, f, new)
        for h in getattr(n, "handlers", []):
            self.blocks(h, loop=loop)
        for h in getattr(n, "cases", []):
            self.blocks(h, loop=loop)

    def block(self, b, parent, fld, loop):
        out = []
        for i, s in enumerate(b):
            r = self.stmt(s, b, i, parent, fld, loop)
            out.extend([s] if r is None else r)
        return out

    def stmt(self, s, b, i, parent, fld, loop):
        return None


class E(X):
    def run(self):
        me = self
        class V(ast.NodeTransformer):
            def generic_visit(self, n):
                super().generic_visit(n)
                r = me.expr(n)
                return n if r is None else r
        for i, s in enumerate(self.fn.body):
            self.fn.body[i] = V().visit(s)
        return self.fn


class rename(X):
    def run(self):
        g = {x for n in ast.walk(self.fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        loc = set()
        for n in ast.walk(self.fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                loc.add(n.id)
        loc -= {a.arg for n in ast.walk(self.fn) for a in ast.walk(n) if isinstance(a, ast.arg)} | g
        loc -= {a.asname or a.name for n in ast.walk(self.fn) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        loc -= {n.name for n in ast.walk(self.fn) if isinstance(n, (ast.FunctionDef, ast.ClassDef))} | {n.name for n in ast.walk(self.fn) if isinstance(n, ast.ExceptHandler)}
        loc -= {n.name for n in ast.walk(self.fn) if isinstance(n, ast.MatchAs)}
        m = {l: self.fresh("v_" + l) for l in sorted(loc) if self.go()}
        for n in ast.walk(self.fn):
            if isinstance(n, ast.Name) and n.id in m:
                n.id = m[n.id]
        return self.fn


class rename_params_of_lambdas(X):
    pass


class temp_rhs(X):
    def stmt(self, s, b, i, parent, fld, loop):
        v = getattr(s, "value", None)
        if isinstance(s, (ast.Assign, ast.Return)) and v is not None and not isinstance(v, (ast.Name, ast.Constant)) and self.go():
            t = self.fresh()
            s.value = name(t)
            return [ast.Assign([name(t, S)], v), s]


class temp_args(X):
    def stmt(self, s, b, i, parent, fld, loop):
        v = getattr(s, "value", None)
        if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(v, ast.Call) and (isinstance(v.func, ast.Name) or isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name)):
            if any(isinstance(a, ast.Starred) for a in v.args) or any(k.arg is None for k in v.keywords):
                return None
            if not any(not isinstance(a, (ast.Name, ast.Constant)) for a in v.args) or not self.go():
                return None
            pre = []
            for j, a in enumerate(v.args):
                if isinstance(a, ast.Constant) or isinstance(a, ast.GeneratorExp):
                    continue
                t = self.fresh("arg")
                pre.append(ast.Assign([name(t, S)], a))
                v.args[j] = name(t)
            return pre + [s]


class temp_test(X):
    def stmt(self, s, b, i, parent, fld, loop):
        if isinstance(s, ast.If) and not isinstance(s.test, ast.Name) and not (fld == "orelse" and len(b) == 1 and isinstance(parent, ast.If)) and self.go():
            t = self.fresh("cond")
            a = ast.Assign([name(t, S)], s.test)
            s.test = name(t)
            return [a, s]


class invert_if(X):
    def stmt(self, s, b, i, parent, fld, loop):
        if isinstance(s, ast.If) and s.orelse and self.go():
            return [ast.If(inv(s.test), s.orelse, s.body)]


class else_after_exit(X):
    """if c: ...return; rest  ->  if c: ...return else: rest"""
    def block(self, b, parent, fld, loop):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and ends(s.body) and not s.orelse and i + 1 < len(b) and self.go():
                s.orelse = b[i + 1:]
                return b[:i + 1]


class drop_else(X):
    """if c: ...return else: rest  ->  if c: ...return; rest"""
    def stmt(self, s, b, i, parent, fld, loop):
        if isinstance(s, ast.If) and ends(s.body) and s.orelse and self.go():
            r = s.orelse
            s.orelse = []
            return [s] + r


class guard_clause(X):
    """loop body ending in `if c: X`  ->  if not c: continue; X"""
    def block(self, b, parent, fld, loop):
        s = b[-1]
        if isinstance(parent, (ast.For, ast.While)) and fld == "body" and isinstance(s, ast.If) and not s.orelse and self.go():
            return b[:-1] + [ast.If(inv(s.test), [ast.Continue()], [])] + s.body


class unguard(X):
    """if c: continue; rest -> if not c: rest"""
    def block(self, b, parent, fld, loop):
        if not (isinstance(parent, (ast.For, ast.While)) and fld == "body"):
            return None
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and i + 1 < len(b) and self.go():
                return b[:i] + [ast.If(inv(s.test), b[i + 1:], [])]


class comp_to_loop(X):
    def stmt(self, s, b, i, parent, fld, loop):
        v = getattr(s, "value", None)
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) or isinstance(s, ast.Return):
            if isinstance(v, (ast.ListComp, ast.DictComp, ast.SetComp)):
                t = s.targets[0].id if isinstance(s, ast.Assign) else self.fresh("res")
                bound = writes([g.target for g in v.generators])
                if t in reads([v]) or t in bound or any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp)) for x in ast.walk(v) if x is not v):
                    return None
                if bound & (allnames(self.fn) - set()) and sum(isinstance(x, ast.Name) and x.id in bound for x in ast.walk(self.fn)) != sum(isinstance(x, ast.Name) and x.id in bound for x in ast.walk(v)):
                    m = {x: self.fresh("e_" + x) for x in bound}
                    first = v.generators[0].iter
                    for x in ast.walk(v):
                        if isinstance(x, ast.Name) and x.id in m and not any(x is y for y in ast.walk(first)):
                            x.id = m[x.id]
                if not self.go():
                    return None
                if isinstance(v, ast.ListComp):
                    body, init = [ast.Expr(ast.Call(ast.Attribute(name(t), "append", L()), [v.elt], []))], ast.List([], L())
                elif isinstance(v, ast.SetComp):
                    body, init = [ast.Expr(ast.Call(ast.Attribute(name(t), "add", L()), [v.elt], []))], ast.Call(name("set"), [], [])
                else:
                    body, init = [ast.Assign([ast.Subscript(name(t), v.key, S())], v.value)], ast.Dict([], [])
                for g in reversed(v.generators):
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    body = [ast.For(g.target, g.iter, body, [])]
                return [ast.Assign([name(t, S)], init)] + body + ([ast.Return(name(t))] if isinstance(s, ast.Return) else [])


class loop_to_comp(X):
    def block(self, b, parent, fld, loop):
        for i in range(len(b) - 1):
            s, f = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.List) and not s.value.elts \
                    and isinstance(f, ast.For) and not f.orelse and len(f.body) == 1:
                t, x, ifs = s.targets[0].id, f.body[0], []
                if isinstance(x, ast.If) and not x.orelse and len(x.body) == 1:
                    ifs, x = [x.test], x.body[0]
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == "append" \
                        and isinstance(x.value.func.value, ast.Name) and x.value.func.value.id == t and t not in reads([x.value.args[0], f.iter, *ifs]) and self.go():
                    s.value = ast.ListComp(x.value.args[0], [ast.comprehension(f.target, f.iter, ifs, 0)])
                    return b[:i + 1] + b[i + 2:]


class quant_to_loop(X):
    """x = any(e for ..) / if any(..): -> loop with a flag"""
    def stmt(self, s, b, i, parent, fld, loop):
        v = getattr(s, "value", None) if isinstance(s, (ast.Assign, ast.Return)) else s.test if isinstance(s, ast.If) and not (fld == "orelse" and isinstance(parent, ast.If)) else None
        neg = isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not)
        q = v.operand if neg else v
        if isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id in ("any", "all") and isinstance(q.args[0], (ast.GeneratorExp, ast.ListComp)) and len(q.args[0].generators) == 1 and self.go():
            g, t = q.args[0].generators[0], self.fresh("found")
            isany = q.func.id == "any"
            m = {x: self.fresh("q_" + x) for x in writes([g.target])}
            for r in [g.target, q.args[0].elt, *g.ifs]:
                for x in ast.walk(r):
                    if isinstance(x, ast.Name) and x.id in m:
                        x.id = m[x.id]
            e = q.args[0].elt
            body = [ast.If(e if isany else inv(e), [ast.Assign([name(t, S)], ast.Constant(isany)), ast.Break()], [])]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            pre = [ast.Assign([name(t, S)], ast.Constant(not isany)), ast.For(g.target, g.iter, body, [])]
            nv = inv(name(t)) if neg else name(t)
            if isinstance(s, ast.If):
                s.test = nv
            else:
                s.value = nv
            return pre + [s]


class enum_to_range(X):
    def stmt(self, s, b, i, parent, fld, loop):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "enumerate" and len(s.iter.args) == 1 \
                and isinstance(s.iter.args[0], ast.Name) and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name) and s.iter.args[0].id not in writes(s.body) and self.go():
            y = s.iter.args[0].id
            i, x = s.target.elts
            return [ast.For(i, ast.Call(name("range"), [ast.Call(name("len"), [name(y)], [])], []), [ast.Assign([x], ast.Subscript(name(y), name(i.id), L()))] + s.body, s.orelse)]


class range_to_enum(X):
    """for i in range(len(y)) -> for i, item in enumerate(y), y[i] -> item (y not written in the body)"""
    def stmt(self, s, b, i, parent, fld, loop):
        if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) == 1:
            a = s.iter.args[0]
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "len" and isinstance(a.args[0], ast.Name):
                y, t = a.args[0].id, self.fresh("item")
                k = s.target.id
                if y in writes(s.body) or k in writes(s.body):
                    return None
                for x in ast.walk(s):
                    if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == y and not isinstance(x.ctx, ast.Load):
                        return None
                if not self.go():
                    return None
                class V(ast.NodeTransformer):
                    def visit_Subscript(self, n):
                        self.generic_visit(n)
                        if isinstance(n.value, ast.Name) and n.value.id == y and isinstance(n.slice, ast.Name) and n.slice.id == k:
                            return name(t)
                        return n
                body = [V().visit(x) for x in s.body]
                return [ast.For(ast.Tuple([name(k, S), name(t, S)], S()), ast.Call(name("enumerate"), [name(y)], []), body, s.orelse)]


class items_to_keys(X):
    def stmt(self, s, b, i, parent, fld, loop):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == "items" and isinstance(s.target, ast.Tuple) \
                and isinstance(s.target.elts[0], ast.Name) and isinstance(s.iter.func.value, (ast.Name, ast.Attribute)) and pure(s.iter.func.value) and self.go():
            d = s.iter.func.value
            k, v = s.target.elts
            return [ast.For(k, d, [ast.Assign([v], ast.Subscript(d, name(k.id), L()))] + s.body, s.orelse)]


class keys_to_items(X):
    """for k in d -> for k, value in d.items() when d[k] is read and d is not written in the body"""
    def stmt(self, s, b, i, parent, fld, loop):
        if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, (ast.Name, ast.Attribute)):
            d, k = ast.unparse(s.iter), s.target.id
            uses = [x for y in s.body for x in ast.walk(y) if isinstance(x, ast.Subscript) and ast.unparse(x.value) == d and isinstance(x.slice, ast.Name) and x.slice.id == k]
            if not uses or any(not isinstance(x.ctx, L) for x in uses) or any(isinstance(x, ast.Subscript) and not isinstance(x.ctx, L) and ast.unparse(x.value).startswith(d) for y in s.body for x in ast.walk(y)):
                return None
            if writes(s.body) & (reads([s.iter]) | {k}) or not self.go():
                return None
            t = self.fresh("value")
            class V(ast.NodeTransformer):
                def visit_Subscript(self, n):
                    if any(n is u for u in uses):
                        return name(t)
                    return self.generic_visit(n)
            return [ast.For(ast.Tuple([name(k, S), name(t, S)], S()), ast.Call(ast.Attribute(s.iter, "items", L()), [], []), [V().visit(x) for x in s.body], s.orelse)]


class swap_compare(E):
    def expr(self, n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMPSWAP and pure(n) and self.go():
            return ast.Compare(n.comparators[0], [CMPSWAP[type(n.ops[0])]()], [n.left])


class negated_compare(E):
    def expr(self, n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMPNOT and self.go():
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [CMPNOT[type(n.ops[0])]()], n.comparators))


class demorgan(E):
    def expr(self, n):
        if isinstance(n, ast.BoolOp) and self.go():
            return ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), [inv(v) for v in n.values]))
    def run(self):
        # only where a truth value is asked for
        tests = set()
        def mark(e):
            tests.add(id(e))
            if isinstance(e, ast.BoolOp):
                for v in e.values:
                    mark(v)
            elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                mark(e.operand)
        for x in ast.walk(self.fn):
            if isinstance(x, (ast.If, ast.While, ast.IfExp)):
                mark(x.test)
            elif isinstance(x, ast.comprehension):
                for i in x.ifs:
                    mark(i)
        old = self.expr
        self.expr = lambda n: old(n) if id(n) in tests else None
        return super().run()


class ifexp_to_if(X):
    def stmt(self, s, b, i, parent, fld, loop):
        v = getattr(s, "value", None)
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.IfExp) and self.go():
            a, c = copy.deepcopy(s), copy.deepcopy(s)
            a.value, c.value = v.body, v.orelse
            return [ast.If(v.test, [a], [c])]


class if_to_ifexp(X):
    def stmt(self, s, b, i, parent, fld, loop):
        if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1:
            x, y = s.body[0], s.orelse[0]
            if type(x) is type(y) and isinstance(x, (ast.Assign, ast.Return)) and x.value and y.value:
                if isinstance(x, ast.Assign) and (ast.dump(x.targets[0]) != ast.dump(y.targets[0]) or not isinstance(x.targets[0], ast.Name)):
                    return None
                if self.go():
                    x.value = ast.IfExp(s.test, x.value, y.value)
                    return [x]


class merge_nested_if(X):
    def stmt(self, s, b, i, parent, fld, loop):
        if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse and self.go():
            return [ast.If(ast.BoolOp(ast.And(), [s.test, s.body[0].test]), s.body[0].body, [])]


class split_and(X):
    def stmt(self, s, b, i, parent, fld, loop):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and self.go():
            r = s.body
            for t in reversed(s.test.values):
                r = [ast.If(t, r, [])]
            return r


class unpack_to_index(X):
    def stmt(self, s, b, i, parent, fld, loop):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call) and all(isinstance(e, ast.Name) for e in s.targets[0].elts) and self.go():
            t = self.fresh("pair")
            return [ast.Assign([name(t, S)], s.value)] + [ast.Assign([e], ast.Subscript(name(t), ast.Constant(j), L())) for j, e in enumerate(s.targets[0].elts)]


class split_tuple(X):
    """a, b = x, y -> a = x; b = y"""
    def stmt(self, s, b, i, parent, fld, loop):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(s.targets[0].elts) \
                and all(isinstance(e, ast.Name) for e in s.targets[0].elts) and not ({e.id for e in s.targets[0].elts} & reads([s.value])) and self.go():
            return [ast.Assign([e], v) for e, v in zip(s.targets[0].elts, s.value.elts)]


class join_assigns(X):
    """a = x; b = y -> a, b = x, y"""
    def block(self, b, parent, fld, loop):
        for i in range(len(b) - 1):
            x, y = b[i], b[i + 1]
            if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) for s in (x, y)) and x.targets[0].id != y.targets[0].id and x.targets[0].id not in allnames(y.value if True else y) and self.go():
                return b[:i] + [ast.Assign([ast.Tuple([x.targets[0], y.targets[0]], S())], ast.Tuple([x.value, y.value], L()))] + b[i + 2:]


class swap_independent(X):
    def block(self, b, parent, fld, loop):
        out, i, done = [], 0, False
        while i < len(b):
            if i + 1 < len(b) and all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and pure(s.value) for s in b[i:i + 2]):
                x, y = b[i], b[i + 1]
                if not (writes([x]) & (reads([y.value]) | writes([y])) or writes([y]) & reads([x.value])) and self.go():
                    out += [y, x]
                    i += 2
                    done = True
                    continue
            out.append(b[i])
            i += 1
        return out if done else None


class inline_temp(X):
    def block(self, b, parent, fld, loop):
        for i in range(len(b) - 1):
            s, n = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(n, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)):
                t = s.targets[0].id
                us = [x for x in ast.walk(self.fn) if isinstance(x, ast.Name) and x.id == t]
                here = [x for x in ast.walk(n) if isinstance(x, ast.Name) and x.id == t and isinstance(x.ctx, L)]
                if len(us) != 2 or len(here) != 1 or any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.IfExp, ast.BoolOp)) for x in ast.walk(n)):
                    continue
                if not pure(s.value) and not pure(ast.Module([n], [])):
                    # calls: only when nothing is called before the use
                    if not (isinstance(n, (ast.Assign, ast.Expr, ast.Return)) and isinstance(n.value, ast.Call) and n.value.args and n.value.args[0] is here[0] and isinstance(n.value.func, ast.Name)):
                        continue
                if self.go():
                    class V(ast.NodeTransformer):
                        def visit_Name(self, x):
                            return s.value if x is here[0] else x
                    return b[:i] + [V().visit(n)] + b[i + 2:]


class noop(X):
    def block(self, b, parent, fld, loop):
        if self.go():
            k = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
            return b[:k] + [ast.Assign([name(self.fresh("_unused"), S)], ast.Constant(None))] + b[k:]


class keyword_args(X):
    repo = None
    def run(self):
        self.sig = {}
        for m in self.repo.modules.values():
            for f in list(m.funcs.values()):
                self.sig.setdefault(f.node.name, []).append([a.arg for a in f.node.args.args])
        for x in ast.walk(self.fn):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and len(self.sig.get(x.func.id, [])) == 1 and not any(isinstance(a, ast.Starred) for a in x.args) and len(x.args) > 1:
                ps = self.sig[x.func.id][0]
                if x.func.id in writes([self.fn]) or len(x.args) > len(ps) or not self.go():
                    continue
                for j in range(len(x.args) - 1, 0, -1):
                    x.keywords.insert(0, ast.keyword(ps[j], x.args.pop()))
        return self.fn


class extract(X):
    """a run of statements becomes a helper (method or function)"""
    size = None
    def block(self, b, parent, fld, loop):
        if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
            lo = 1
        else:
            lo = 0
        n = len(b)
        cands = [(lo, n)] if parent is not self.fn else []
        h = lo + (n - lo) // 2
        cands += [(lo, h), (h, n)]
        out = None
        for (i, j) in cands:
            if j - i < 1 or (i, j) == (lo, lo):
                continue
            r = self.cut(b, i, j, loop)
            if r is not None and self.go():
                return r
        return out

    def cut(self, b, i, j, loop):
        blk = b[i:j]
        for s in blk:
            for x in [s, *own(s)]:
                if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef, ast.Delete, ast.Try)):
                    return None
                if isinstance(x, ast.Return):
                    return None
            def brk(n, inl):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.Break, ast.Continue)) and not inl:
                        return True
                    if not isinstance(c, SCOPES) and brk(c, inl or isinstance(c, (ast.For, ast.While))):
                        return True
                return False
            if isinstance(s, (ast.Break, ast.Continue)) or brk(s, isinstance(s, (ast.For, ast.While))):
                return None
        if any(isinstance(x, ast.Name) and x.id == "super" for s in blk for x in ast.walk(s)):
            return None
        if len(blk) == 1 and isinstance(blk[0], (ast.Raise, ast.Assert, ast.Pass)) or sum(1 for s in blk for x in ast.walk(s)) < 6:
            return None
        params = [a.arg for a in self.fn.args.posonlyargs + self.fn.args.args + self.fn.args.kwonlyargs] + [a.arg for a in (self.fn.args.vararg, self.fn.args.kwarg) if a]
        w = writes(blk)
        # locals of the function (all names stored anywhere in it, and its nested functions)
        loc = writes(self.fn.body) | set(params)
        # names read after the block: over-approximate with all reads outside of the block
        inside = {id(x) for s in blk for x in ast.walk(s)}
        later = {x.id for x in ast.walk(self.fn) if isinstance(x, ast.Name) and isinstance(x.ctx, L) and id(x) not in inside}
        outs = sorted(w & (later | (reads(blk) & set(params)) | {x for x in reads(blk) if x in w and loop}))
        # names certainly bound before the block
        before = set(params)
        def bound(body, stop):
            got = set()
            for s in body:
                if s is stop:
                    return got, True
                found = False
                for f in ("body", "orelse", "finalbody"):
                    bb = getattr(s, f, None)
                    if isinstance(bb, list) and any(stop is x for y in bb for x in ast.walk(y)):
                        g, _ = bound(bb, stop)
                        g2 = writes([s.target]) if isinstance(s, ast.For) and f == "body" else set()
                        return got | g | g2, True
                if any(stop is x for x in ast.walk(s)):
                    return got, True
                got |= self.definite(s)
            return got, False
        g, ok = bound(self.fn.body, blk[0])
        if not ok:
            return None
        before |= g
        deff = set()
        for s in blk:
            deff |= self.definite(s)
        need = (reads(blk) & loc) | {o for o in outs if o not in deff}
        ins = set()
        # names read before being written in the block
        for x in sorted(need):
            if x in before:
                ins.add(x)
            elif x not in deff:
                return None
            else:
                # written first inside? require first statement mentioning it to define it
                for s in blk:
                    if x in self.definite(s) and x not in reads([s.value] if isinstance(s, ast.Assign) else [s.iter] if isinstance(s, ast.For) else [s]):
                        break
                    if x in reads([s]):
                        return None
        if any(o not in deff and o not in ins for o in outs):
            return None
        ins = sorted(ins)
        meth = bool(params) and params[0] == "self" and "self" in ins
        if any(x.startswith("__") and not x.endswith("__") for s in blk for y in ast.walk(s) for x in [getattr(y, "attr", "") or ""]):
            return None
        hn = f"_extracted_{len(self.extra) + 1}"
        if meth:
            ins.remove("self")
        body = list(blk)
        if outs:
            body.append(ast.Return(name(outs[0]) if len(outs) == 1 else ast.Tuple([name(o) for o in outs], L())))
        fd = ast.FunctionDef(hn, ast.arguments([], [ast.arg(x) for x in (["self"] if meth else []) + ins], None, [], [], None, []), body, [], None)
        self.extra.append((fd, meth))
        call = ast.Call(ast.Attribute(name("self"), hn, L()) if meth else name(hn), [name(x) for x in ins], [])
        if not outs:
            new = ast.Expr(call)
        else:
            new = ast.Assign([name(outs[0], S) if len(outs) == 1 else ast.Tuple([name(o, S) for o in outs], S())], call)
        return b[:i] + [new] + b[j:]

    def definite(self, s):
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            if isinstance(s, ast.AnnAssign) and s.value is None:
                return set()
            return writes([s])
        if isinstance(s, ast.If):
            a = set().union(*[self.definite(x) for x in s.body]) if s.body else set()
            b = set().union(*[self.definite(x) for x in s.orelse]) if s.orelse else set()
            if ends(s.body):
                return b
            if s.orelse and ends(s.orelse):
                return a
            return a & b
        if isinstance(s, ast.With):
            return set().union(*[self.definite(x) for x in s.body])
        return set()


class extract_expr(X):
    """the value of a statement becomes a helper function of the names it reads"""
    def stmt(self, s, b, i, parent, fld, loop):
        v = getattr(s, "value", None)
        if isinstance(s, ast.If):
            v = s.test
        if not isinstance(s, (ast.Assign, ast.Return, ast.If)) or v is None or isinstance(v, (ast.Name, ast.Constant, ast.Attribute)):
            return None
        if any(isinstance(x, (ast.Yield, ast.NamedExpr, ast.Lambda)) or isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(v)):
            return None
        ps = [a.arg for a in self.fn.args.posonlyargs + self.fn.args.args + self.fn.args.kwonlyargs] + [a.arg for a in (self.fn.args.vararg, self.fn.args.kwarg) if a]
        loc = writes(self.fn.body) | set(ps)
        inner = {y for x in ast.walk(v) if isinstance(x, ast.comprehension) for y in writes([x.target])}
        ins = sorted((reads([v]) & loc) - inner)
        if inner & loc & reads([x.iter for x in ast.walk(v) if isinstance(x, ast.comprehension)]):
            return None
        if sum(1 for _ in ast.walk(v)) < 6 or any((getattr(x, "attr", "") or "").startswith("__") for x in ast.walk(v)) or not self.go():
            return None
        meth = ps[:1] == ["self"] and "self" in ins
        if meth:
            ins.remove("self")
        hn = f"_value_{len(self.extra) + 1}"
        self.extra.append((ast.FunctionDef(hn, ast.arguments([], [ast.arg(x) for x in (["self"] if meth else []) + ins], None, [], [], None, []), [ast.Return(v)], [], None), meth))
        call = ast.Call(ast.Attribute(name("self"), hn, L()) if meth else name(hn), [name(x) for x in ins], [])
        if isinstance(s, ast.If):
            s.test = call
        else:
            s.value = call
        return [s]


class single_exit(X):
    """if c: return a; return b (at the end of the function) -> result variable and one return"""
    def run(self):
        b = self.fn.body
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(self.fn)):
            return self.fn
        if len(b) >= 2 and isinstance(b[-1], ast.Return) and b[-1].value is not None and isinstance(b[-2], ast.If) and len(b[-2].body) >= 1 and isinstance(b[-2].body[-1], ast.Return) and b[-2].body[-1].value is not None and not b[-2].orelse and self.go():
            t = self.fresh("result")
            i, r = b[-2], b[-1]
            i.body[-1] = ast.Assign([name(t, S)], i.body[-1].value)
            i.orelse = [ast.Assign([name(t, S)], r.value)]
            self.fn.body = b[:-2] + [i, ast.Return(name(t))]
        return self.fn


class for_to_while(X):
    """for i in range(n) -> while loop (body without continue, index not written)"""
    def stmt(self, s, b, i, parent, fld, loop):
        if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) == 1 and not s.orelse \
                and not any(isinstance(x, ast.Continue) for x in own(s)) and s.target.id not in writes(s.body) and pure(s.iter.args[0]) | True:
            outside = sum(isinstance(x, ast.Name) and x.id == s.target.id for x in ast.walk(self.fn)) - sum(isinstance(x, ast.Name) and x.id == s.target.id for x in ast.walk(s))
            if outside or not self.go():
                return None
            t = self.fresh("stop")
            k = s.target.id
            return [ast.Assign([name(t, S)], s.iter.args[0]), ast.Assign([name(k, S)], ast.Constant(0)),
                    ast.While(ast.Compare(name(k), [ast.Lt()], [name(t)]), s.body + [ast.AugAssign(name(k, S), ast.Add(), ast.Constant(1))], [])]


class aug(X):
    """x = x + 1 <-> x += 1 for numbers"""
    def stmt(self, s, b, i, parent, fld, loop):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float)) and self.go():
            return [ast.Assign([s.target], ast.BinOp(name(s.target.id), s.op, s.value))]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp) and isinstance(s.value.left, ast.Name) and s.value.left.id == s.targets[0].id \
                and isinstance(s.value.right, ast.Constant) and self.go():
            return [ast.AugAssign(s.targets[0], s.value.op, s.value.right)]


class commute(E):
    def expr(self, n):
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.Add)) and pure(n) and not isinstance(n.left, (ast.List, ast.Tuple)) and not isinstance(n.right, (ast.List, ast.Tuple)) \
                and (isinstance(n.op, ast.Mult) or any(isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) for x in (n.left, n.right))) and not any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(n)) and self.go():
            return ast.BinOp(n.right, n.op, n.left)


class elif_nest(X):
    """return in the first branch: if/elif -> if + if (when the first branch leaves)"""
    def stmt(self, s, b, i, parent, fld, loop):
        if isinstance(s, ast.If) and ends(s.body) and len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If) and self.go():
            r = s.orelse
            s.orelse = []
            return [s] + r


class loop_var_copy(X):
    def stmt(self, s, b, i, parent, fld, loop):
        if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name) and self.go():
            t = self.fresh("seq")
            a = ast.Assign([name(t, S)], s.iter)
            s.iter = name(t)
            return [a, s]


class lambda_to_def(X):
    pass


KINDS = [k for k in (rename, temp_rhs, temp_args, temp_test, invert_if, else_after_exit, drop_else, guard_clause, unguard, comp_to_loop, loop_to_comp, quant_to_loop, enum_to_range,
         range_to_enum, items_to_keys, keys_to_items, swap_compare, negated_compare, demorgan, ifexp_to_if, if_to_ifexp, merge_nested_if, split_and, unpack_to_index, split_tuple, join_assigns,
         swap_independent, inline_temp, noop, keyword_args, extract, extract_expr, single_exit, for_to_while, aug, commute, elif_nest, loop_var_copy)]


def variant(repo, f, kind, only=None):
    fn = copy.deepcopy(f.node)
    x = kind(fn)
    x.only = only
    x.repo = repo
    new = x.run()
    if not x.hits:
        return None, 0
    ast.fix_missing_locations(new)
    src = replaced(f.mod, f.node, new)
    if x.extra:
        ms = "".join(" " * f.node.col_offset + l + "\n" for fd, m in x.extra if m and repo_has(fd, new) for l in ("\n" + ast.unparse(ast.fix_missing_locations(fd))).splitlines())
        fs = "".join("\n\n" + ast.unparse(ast.fix_missing_locations(fd)) + "\n" for fd, m in x.extra if not m and repo_has(fd, new))
        lines = src.splitlines(keepends=True)
        # methods go right before the function
        at = min([f.node.lineno] + [d.lineno for d in f.node.decorator_list]) - 1
        src = "".join(lines[:at]) + ms + ("" if not ms else "\n") + "".join(lines[at:]) + fs
    ast.parse(src)
    return src, x.hits


def repo_has(fd, new):
    return True


def props_by_func():
    out = {}
    for p in rules.RULES:
        try:
            ev = json.load(open(os.path.join(HERE, "evidence", p + ".json")))
        except OSError:
            continue
        for f in ev["coverage"]["functions_analysed"]:
            out.setdefault(f, []).append(p)
    return out


def alarms(rel, src, props):
    repo = Repo(overlay={rel: src})
    hit = []
    for p in props:
        c = Ctx(p, "quick", repo)
        try:
            rules.RULES[p](c)
            kn = {(e["rule"], e["construct"]) for e in known_findings(p)}
            v = [o for o in c.violations() if (o[0], o[1]) not in kn]
            if v:
                hit.append(p + ":" + ",".join(sorted({o[0] for o in v})))
        except Exception as e:
            hit.append(f"{p}!{type(e).__name__} {str(e)[:60]}")
    return hit


def job(a):
    full, kn, only, rel, src, props = a
    try:
        return a[:3], alarms(rel, src, props)
    except Exception as e:
        return a[:3], [f"{type(e).__name__} {e}"[:90]]


if __name__ == "__main__":
    av = sys.argv[1:]
    def opt(o):
        if o in av:
            i = av.index(o)
            v = av[i + 1].split(",")
            del av[i:i + 2]
            return v
    excl, incl, kinds, dump = opt("-x") or ["H02", "N01"], opt("-p"), opt("-t"), opt("-d")
    count = "-n" in av
    each = "-e" in av
    names = [a for a in av if not a.startswith("-")]
    repo = Repo()
    pf = props_by_func()
    jobs = []
    for full in sorted(pf):
        if names and not any(n in full for n in names):
            continue
        ps = [p for p in pf[full] if (p not in excl or incl and p in incl) and (not incl or p in incl)]
        if not ps:
            continue
        try:
            f = repo.func(full)
        except Exception:
            continue
        for k in KINDS:
            if kinds and k.__name__ not in kinds:
                continue
            try:
                src, n = variant(repo, f, k)
            except (SyntaxError, ValueError) as e:
                print("skip", full, k.__name__, str(e)[:60])
                continue
            if not n:
                continue
            if dump:
                print(src if dump == ["src"] else "")
            if each:
                for i in range(n):
                    try:
                        jobs.append((full, k.__name__, i, f.mod.path, variant(repo, f, k, i)[0], ps))
                    except (SyntaxError, ValueError):
                        pass
            else:
                jobs.append((full, k.__name__, None, f.mod.path, src, ps))
    print(len(jobs), "edits", flush=True)
    if count:
        sys.exit()
    bad = 0
    with mp.get_context("fork").Pool(int(os.environ.get("VF_JOBS", 8))) as pool:
        for (full, kn, only), r in pool.imap_unordered(job, jobs, chunksize=1):
            if r:
                bad += 1
                print(full.split(":")[-1], kn, "" if only is None else only, " ".join(r)[:200], flush=True)
    print(bad, "alarms")
