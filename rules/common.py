"""The table of reference definitions and the rule form shared by most checks."""
import ast
import textwrap

from vf.terms import *
from vf.slices import RET, SETS, CALL, RAISES, BREAKS, Pick
from vf.known import SIG
from vf.repo import params
from vf.interp import Interp
from vf import slices

F = {}  # name -> (function, reference, options)


def refs(prefix, table, src):
    for name, v in table.items():
        assert name not in F, name
        q, r, kw = v if len(v) == 3 else (*v, {})
        F[name] = (prefix + q, [src[x] for x in r] if isinstance(r, (list, tuple)) else src[r], kw)


def users(full):
    name = full.split(":")[-1].split(".")[-1]
    return [n for n, (f, s, kw) in F.items() if f != full and any(name in x for x in ([s] if isinstance(s, str) else s))]


def extras(ctx, full):
    """Optional parameters added to a function: their defaults, or None when the signature differs otherwise."""
    f = ctx.repo.func(full)
    old, new = SIG[full][1], params(f.node)
    a = f.node.args
    if [p for p in new if p in old] != list(old):
        return None
    d = dict(zip([x.arg for x in (a.posonlyargs + a.args)][::-1], a.defaults[::-1]))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    out = {}
    for p in new:
        if p not in old:
            if not isinstance(d.get(p), ast.Constant):
                return None
            out[p] = const(d[p].value)
    return out


def defaults(node):
    """parameters with a literal number, text or truth value as default"""
    a = node.args
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos][::-1], a.defaults[::-1]))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    out = {}
    for k, v in d.items():
        try:
            v = ast.literal_eval(v)
        except (ValueError, TypeError):
            continue
        if isinstance(v, (bool, int, float, str)):
            out[k] = v
    return out


def same_defaults(ctx, rule, func, src, tag):
    """A parameter left out by the caller has the value the reference gives it."""
    f = ctx.repo.func(func)
    if isinstance(f.node, ast.Lambda) or not isinstance(src, str):
        return
    have, want = defaults(f.node), defaults(ast.parse(textwrap.dedent(src)).body[0])
    both = [k for k in want if k in have]
    if both:
        bad = [k for k in both if type(have[k]) is bool and type(want[k]) is not bool or have[k] != want[k]]
        ctx.ob(rule, tag + " left-out arguments", not bad, func, ", ".join(f"{k} defaults to {have[k]!r}, specified {want[k]!r}" for k in bad))


def check(ctx, rule, *what, _via=()):
    """what: (name, pick, pick, ...); no pick: the whole function"""
    for name, *picks in what:
        func, src, kw = F[name]
        if ctx.repo.missing(func):
            add = extras(ctx, func) if func in ctx.repo.changed else None
            if add is None:
                # a helper that was renamed, inlined or given another signature: decided where it is used
                for u in users(func):
                    if u not in _via:
                        check(ctx, rule, (u,), _via=_via + (name,))
                continue
            kw = dict(kw, args={**kw.get("args", {}), **add})
        tag = func.split(":")[-1] + (" [" + name + "]" if sum(1 for f, _, _ in F.values() if f == func) > 1 else "")
        if not _via:
            same_defaults(ctx, rule, func, src, tag)
        if not _via:
            for e in sorted(ctx.run(func, **dict(kw)).enums - ctx.enums):
                ctx.enums.add(e)
                bad = ctx.repo.aliases(ctx.repo.cls(e))
                ctx.ob(rule, e.split(":")[-1] + " members differ", not bad, e, ", ".join(bad))
        if picks:
            ctx.part(rule, func, src, picks, construct=tag, **kw)
        else:
            ctx.same(rule, func, src, construct=tag, **kw)


def ideal(ctx, rule, construct, name, src, *picks):
    """A part of a function agrees with a stronger reference (violations may be listed as known)."""
    func, _, kw = F[name]
    if ctx.repo.missing(func):
        return
    a, b = ctx.run(func, **dict(kw)), ctx.ref(func, src, **dict(kw))
    d = [x for p in picks for x in slices.compare(a, p.get(a), b, p.get(b), None, p.cond)]
    ctx.ob(rule, construct, not d, func, "; ".join(f"{w} {x}" for w, x in d[:2]))
