#!/usr/bin/env python3
"""Mutation of the analysed functions: which small changes do the references not notice?
usage: mutate.py [-p] name...     (names of entries of the reference table, -p: run the property checks)"""
import ast, copy, os, sys, multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import rules
from rules.common import F
from vf.repo import Repo
from vf.report import Ctx

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div}
NAMES = {"min": "max", "max": "min", "minimum": "maximum", "maximum": "minimum", "any": "all", "all": "any", "append": "extend", "deepcopy": "copy",
         "union": "intersection", "intersection": "union", "And": "Or", "Or": "And", "floor": "ceil", "ceil": "floor", "inf": "supremum"}


def mutants(fn):
    """(description, mutated function)"""
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        def m(f, what):
            g = copy.deepcopy(fn)
            x = list(ast.walk(g))[i]
            r = f(x)
            return (f"{getattr(n, 'lineno', 0)}: {what}: {ast.unparse(n)[:90]}", g)
        if isinstance(n, ast.Compare):
            for j, o in enumerate(n.ops):
                if type(o) in CMP:
                    yield m(lambda x: x.ops.__setitem__(j, CMP[type(o)]()), f"cmp{j} {type(o).__name__}")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield m(lambda x: setattr(x, "op", BIN[type(n.op)]()), "binop")
        elif isinstance(n, ast.BoolOp):
            yield m(lambda x: setattr(x, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And()), "boolop")
            for j in range(len(n.values)):
                yield m(lambda x: x.values.pop(j), f"drop operand {j}")
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
            if isinstance(n.value, bool):
                yield m(lambda x: setattr(x, "value", not x.value), "flip")
            elif isinstance(n.value, (int, float)):
                yield m(lambda x: setattr(x, "value", x.value + 1), "const+1")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            yield m(lambda x: setattr(x, "test", ast.UnaryOp(ast.Not(), x.test)), "negate")
            if not isinstance(n, ast.While):
                yield m(lambda x: setattr(x, "test", ast.Constant(True)), "always")
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            yield m(lambda x: setattr(x, "attr", NAMES[n.attr]), "name")
        elif isinstance(n, ast.Name) and n.id in NAMES and isinstance(n.ctx, ast.Load):
            yield m(lambda x: setattr(x, "id", NAMES[n.id]), "name")
        elif isinstance(n, ast.Call):
            if len(n.args) > 1:
                for j in range(len(n.args) - 1):
                    yield m(lambda x: x.args.__setitem__(slice(j, j + 2), [x.args[j + 1], x.args[j]]), f"swap args {j}")
            for j, k in enumerate(n.keywords):
                yield m(lambda x: x.keywords.pop(j), f"drop keyword {k.arg}")
        elif isinstance(n, ast.comprehension):
            for j in range(len(n.ifs)):
                yield m(lambda x: x.ifs.pop(j), "drop filter")
        if hasattr(n, "body") and isinstance(n.body, list):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(n, fld, None)
                if not isinstance(b, list):
                    continue
                for j, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break, ast.Return, ast.Raise, ast.If, ast.For, ast.Assert)):
                        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                            continue
                        g = copy.deepcopy(fn)
                        y = list(ast.walk(g))[i]
                        getattr(y, fld)[j] = ast.Pass()
                        yield (f"{s.lineno}: delete: {ast.unparse(s)[:90]}", g)
                    if isinstance(s, ast.Continue):
                        g = copy.deepcopy(fn)
                        getattr(list(ast.walk(g))[i], fld)[j] = ast.Break()
                        yield (f"{s.lineno}: continue->break", g)
                    if isinstance(s, ast.Break):
                        g = copy.deepcopy(fn)
                        getattr(list(ast.walk(g))[i], fld)[j] = ast.Continue()
                        yield (f"{s.lineno}: break->continue", g)
                    if j + 1 < len(b) and isinstance(s, (ast.Assign, ast.Expr)) and isinstance(b[j + 1], (ast.Assign, ast.Expr, ast.If)):
                        g = copy.deepcopy(fn)
                        l = getattr(list(ast.walk(g))[i], fld)
                        l[j], l[j + 1] = l[j + 1], l[j]
                        yield (f"{s.lineno}: swap with next: {ast.unparse(s)[:60]}", g)


def replaced(mod, fn, new):
    lines = mod.src.splitlines(keepends=True)
    lo = min([fn.lineno] + [d.lineno for d in fn.decorator_list]) - 1
    hi = fn.end_lineno
    ind = " " * fn.col_offset
    txt = "".join(ind + l + "\n" for l in ast.unparse(ast.fix_missing_locations(new)).splitlines())
    return "".join(lines[:lo]) + txt + "".join(lines[hi:])


def props_of(full):
    import json
    out = []
    for p in rules.RULES:
        try:
            ev = json.load(open(os.path.join(HERE, "evidence", p + ".json")))
        except OSError:
            continue
        if full in ev["coverage"]["functions_analysed"]:
            out.append(p)
    return out


def job(a):
    name, full, what, rel, src, props = a
    try:
        repo = Repo(overlay={rel: src})
        if props is not None:
            from vf.report import known_findings
            hit = []
            for p in props:
                c = Ctx(p, "quick", repo)
                try:
                    rules.RULES[p](c)
                    kn = {(e["rule"], e["construct"]) for e in known_findings(p)}
                    if any((o[0], o[1]) not in kn for o in c.violations()):
                        hit.append(p)
                except Exception as e:
                    hit.append(p + "!")
            return name, what, hit
        func, ref, kw = F[name]
        c = Ctx("X", "quick", repo)
        c.same("r", func, ref, **kw)
        return name, what, bool(c.violations())
    except Exception as e:
        return name, what, f"{type(e).__name__} {e}"[:80]


if __name__ == "__main__":
    av = sys.argv[1:]
    byprop = "-p" in av
    names = [a for a in av if not a.startswith("-")] or list(F)
    repo = Repo()
    jobs = []
    for n in names:
        full = F[n][0]
        f = repo.func(full)
        props = props_of(full) if byprop else None
        for what, g in mutants(f.node):
            try:
                src = replaced(f.mod, f.node, g)
                ast.parse(src)
            except (SyntaxError, ValueError):
                continue
            if "print" in what or "warn" in what:
                continue
            jobs.append((n, full, what, f.mod.path, src, props))
    tot, surv, err = {}, {}, {}
    with mp.get_context("fork").Pool(int(os.environ.get('VF_JOBS', '8'))) as pool:
        for n, what, r in pool.imap(job, jobs, chunksize=1):
            tot[n] = tot.get(n, 0) + 1
            if r is False or r == []:
                surv.setdefault(n, []).append(what)
                print("unnoticed", n, what, flush=True)
            elif isinstance(r, str):
                err.setdefault(n, []).append(what + "  -> " + r)
    for n in names:
        print(f"{n} {F[n][0]}: {tot.get(n, 0)} mutants, {len(surv.get(n, []))} unnoticed, {len(err.get(n, []))} errors")
        for w in surv.get(n, []):
            print("   ", w)
        for w in err.get(n, [])[:6]:
            print("   E", w)
