"""Comparison of a function with a specification given as a reference snippet: both are brought to
guarded normal form (values returned, effects on objects that outlive the call, raised errors, loop
exits) and compared case by case.  Conditions are compared as boolean functions of their atoms."""
import ast, itertools, textwrap

from .terms import *
from .canon import Canon, ALLOC, LIFT, first_gate, plain, boolean
from .interp import Interp
from .repo import Func

NOISE = {"builtins.print", "warnings.warn", "pprint.pprint"}


def spec_func(repo, like, src):
    """A reference function written in the name space of the module of `like`."""
    f = repo.func(like) if isinstance(like, str) else like
    node = ast.parse(textwrap.dedent(src)).body[0]
    ann = {x.arg: x.annotation for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}
    for x in node.args.args:
        if x.annotation is None:
            x.annotation = ann.get(x.arg)
    s = Func(repo.as_frozen(f.mod), f.qual + "<spec>", node, f.cls)
    s.static = f.static
    return s


def expand(c, t, out):
    """top-level gated values -> guarded leaves"""
    if t.op == "ite":
        expand(land(c, t.a[0]), t.a[1], out)
        expand(land(c, lnot(t.a[0])), t.a[2], out)
    elif t.op in ("cmp", "not", "isinst", "any") or t.op in ("and", "or") and all(boolean(x) for x in t.a):
        # a truth value: the cases in which it is true and false
        out.append((land(c, t), TRUE))
        out.append((land(c, lnot(t)), FALSE))
    elif t.op in ("and", "or") and all(boolean(x) for x in t.a[:-1]):
        stop = lnot(land(*t.a[:-1])) if t.op == "and" else lor(*t.a[:-1])
        out.append((land(c, stop), FALSE if t.op == "and" else TRUE))
        expand(land(c, lnot(stop)), t.a[-1], out)
    else:
        out.append((c, t))


def boolean(t):
    return t.op in ("cmp", "not", "isinst", "any") or t is TRUE or t is FALSE or t.op in ("and", "or") and all(boolean(x) for x in t.a)


def lifted(cond, terms, cap=24):
    """[(condition, terms)]: one entry per case of the gated values inside the terms"""
    if not LIFT[0]:
        return [(cond, tuple(terms))]
    out, todo = [], [(cond, tuple(terms))]
    while todo:
        c, ts = todo.pop()
        memo = set()
        g = next((x for x in (first_gate(t, memo) for t in ts) if x is not None), None)
        if g is None or c is FALSE:
            out.append((c, ts))
            continue
        for h in (g, lnot(g)):
            cc = land(c, h)
            if cc is not FALSE:
                todo.append((cc, tuple(under(h, t) for t in ts)))
        if len(out) + len(todo) > cap:
            return [(cond, tuple(terms))]
    return out


def both_ways(f):
    """differences found by f; values with cases inside are split up only if that is needed"""
    d = f()
    if d and not LIFT[0]:
        LIFT[0] = True
        try:
            if not f():
                return []
        finally:
            LIFT[0] = False
    return d


class Cases:
    """value key -> condition"""

    def __init__(self, it, canon, what=""):
        self.it, self.canon = it, canon
        self.d = {}
        self.show = {}

    def put(self, key, cond, text):
        self.d.setdefault(key, []).append(cond)
        self.show.setdefault(key, text)


def atoms(t, acc):
    if t.op in ("and", "or"):
        for x in t.a:
            atoms(x, acc)
    elif t.op == "not":
        atoms(t.a[0], acc)
    elif t.op == "ite":
        for x in t.a:
            atoms(x, acc)
    elif t.op != "const":
        acc.append(t)


def evalb(t, v, ck):
    if t.op == "const":
        return bool(t.a[0])
    if t.op == "and":
        return all(evalb(x, v, ck) for x in t.a)
    if t.op == "or":
        return any(evalb(x, v, ck) for x in t.a)
    if t.op == "not":
        return not evalb(t.a[0], v, ck)
    if t.op == "ite":
        return evalb(t.a[1] if evalb(t.a[0], v, ck) else t.a[2], v, ck)
    k, pol = ck(t)
    return v[k] if pol else not v[k]


def atom_key(canon, heap):
    memo = {}

    def ck(t):
        r = memo.get(t)
        if r is None:
            pol = True
            x = t
            while x.op == "nonempty":  # truth value of a container
                x = x.a[0]
            # one polarity for a strict/non-strict pair: not (a<b) is b<=a
            if x.op == "cmp" and x.a[0] == "<=":
                x = cmp("<", x.a[2], x.a[1])
                pol = False
            r = memo[t] = (canon.key(x, heap), pol)
        return r

    return ck


class BDD:
    """Boolean functions of atom keys, in a canonical form (reduced ordered decision diagrams)."""

    def __init__(self, order, limit=200000):
        self.rank = {k: i for i, k in enumerate(order)}
        self.uniq, self.memo, self.limit = {}, {}, limit

    def node(self, v, lo, hi):
        if lo is hi:
            return lo
        k = (v, id(lo), id(hi))
        n = self.uniq.get(k)
        if n is None:
            if len(self.uniq) > self.limit:
                raise OverflowError
            n = self.uniq[k] = (v, lo, hi)
        return n

    def ite(self, f, g, h):
        if f is True:
            return g
        if f is False:
            return h
        if g is h:
            return g
        if g is True and h is False:
            return f
        k = (id(f), id(g), id(h))
        r = self.memo.get(k)
        if r is None:
            v = min(x[0] for x in (f, g, h) if x not in (True, False))
            cut = lambda x, i: x if x in (True, False) or x[0] != v else x[i]
            r = self.node(v, self.ite(cut(f, 1), cut(g, 1), cut(h, 1)), self.ite(cut(f, 2), cut(g, 2), cut(h, 2)))
            self.memo[k] = r
        return r

    def of(self, t, ck):
        memo = {}

        def go(t):
            r = memo.get(t)
            if r is None:
                r = memo[t] = go1(t)
            return r

        def go1(t):
            if t.op == "const":
                return bool(t.a[0])
            if t.op == "and":
                r = True
                for x in t.a:
                    r = self.ite(r, go(x), False)
                return r
            if t.op == "or":
                r = False
                for x in t.a:
                    r = self.ite(r, True, go(x))
                return r
            if t.op == "not":
                return self.ite(go(t.a[0]), False, True)
            if t.op == "ite":
                return self.ite(go(t.a[0]), go(t.a[1]), go(t.a[2]))
            k, pol = ck(t)
            n = self.node(self.rank[k], False, True)
            return n if pol else self.ite(n, False, True)

        return go(t)


def same_cond(c1, ck1, c2, ck2):
    a1, a2 = [], []
    atoms(c1, a1)
    atoms(c2, a2)
    order = list(dict.fromkeys([ck1(x)[0] for x in a1] + [ck2(x)[0] for x in a2]))
    try:
        b = BDD(order)
        return b.of(c1, ck1) is b.of(c2, ck2)
    except (OverflowError, RecursionError):
        # too large: compare the normal forms
        f1 = frozenset(_lit(x, ck1) for x in conjuncts(c1))
        f2 = frozenset(_lit(x, ck2) for x in conjuncts(c2))
        return f1 == f2


def _lit(t, ck):
    if t.op in ("and", "or"):
        return (t.op, frozenset(_lit(x, ck) for x in t.a))
    if t.op == "not":
        return ("not", _lit(t.a[0], ck))
    if t.op == "ite":
        return ("ite",) + tuple(_lit(x, ck) for x in t.a)
    if t.op == "const":
        return ("const", bool(t.a[0]))
    return ck(t)


def is_local(loc, it):
    """A location inside a container created by the function itself."""
    x = loc
    while True:
        if x.op == "obj":
            return True
        if x.op in ("sub", "attr", "setitem", "append", "conv", "elem", "collect", "dictmap", "extend"):
            if x.op == "conv" and x.a[0] in ("copy", "deepcopy", "list", "dict", "array", "tuple", "tolist"):
                return True
            x = x.a[1] if x.op == "conv" else x.a[0]
            continue
        if x.op == "mu":
            y = x.a[1] if isinstance(x.a[1], T) else it.mu_init.get(x)
            if y is None or y is x:
                return True
            x = y
            continue
        if x.op == "call" and x.a[0].op == "ref" and x.a[0].a[0] in ALLOC:
            return True
        if x.op in ("new", "dict", "list", "tuple", "mul", "lin", "bin", "min", "max"):
            return True
        return False


def effect_call(e, it):
    """a call made for its effect (its value is not used)"""
    if id(e.node) not in it.stmt_calls:
        return False
    f = e.d.get("f")
    while f is not None and f.op == "call" and f.a[0].op == "ref" and f.a[0].a[0] == "functools.partial" and f.a[1]:
        f = f.a[1][0]
    if f is not None and f.op == "ref" and ":" in f.a[0]:
        # a module-level alias such as pp = functools.partial(pprint.pprint, ...)
        m, q = f.a[0].split(":", 1)
        if it.repo.alias_of(m, q) in NOISE:
            return False
    return not (f is not None and f.op == "ref" and f.a[0] in NOISE)


def summary(it, effects=True, asserts=False):
    c = Canon(it)
    ret = []
    for pc, v, st in it.returns:
        cond = land(*pc)
        leaves = []
        expand(TRUE, it.deep(v, st), leaves)
        for cc, t in leaves:
            cc = tidy(it.deep(land(cond, cc), st))
            for c1, (t1,) in lifted(cc, (under(cc, t),)):
                ret.append((c1, t1, st))
    eff = []
    if effects:
        for e in it.events:
            if e.kind == "set" and not is_local(e.a[0], it):
                for x in split_set(it, e):
                    eff.append(("set", x.a, x))
            elif e.kind == "mut" and not is_local(e.a[0], it):
                eff.append(("mut", e.a, e))
            elif e.kind == "call" and effect_call(e, it):
                eff.append(("call", e.a, e))
            elif e.kind == "raise" or (asserts and e.kind == "assert"):
                eff.append((e.kind, e.a[:1] if e.kind == "assert" else (), e))
    return ret, eff


class SplitEvent:
    """a store of one leaf of a gated value"""
    def __init__(self, e, a, c):
        self.__dict__.update(kind=e.kind, a=a, heap=e.heap, where=e.where, pc=tuple(e.pc) + (c,), d=e.d, node=e.node, func=e.func)
        self._e, self._c = e, c

    def cond(self):
        return land(self._e.cond(), self._c)


def split_set(it, e):
    """a store of a value that depends on a condition -> one store per case"""
    v = e.a[-1]
    v = it.deep(v, e.heap) if isinstance(v, T) else v
    if not (isinstance(v, T) and v.op == "ite"):
        return [e]
    leaves = []
    expand(TRUE, v, leaves)
    return [SplitEvent(e, tuple(e.a[:-1]) + (t,), c) for c, t in leaves]


def group_ret(it, exclude=None):
    c = Canon(it)
    ret, eff = summary(it)
    g = {}
    for cond, t, st in ret:
        if cond is FALSE:
            continue
        if exclude is not None and exclude(t):
            continue
        for cc, tt in truth_cases(cond, it.deep(t, st) if t.op in ("and", "or") and LIFT[0] else t):
            k = c.key(tt, st)
            g.setdefault(k, [tt, [], st])[1].append(cc)
    return {k: (v[0], lor(*v[1]), v[2]) for k, v in g.items()}


def truth_cases(cond, t):
    """`a and b` is False when a is, else b; for a that is a truth value"""
    if not LIFT[0] or t.op not in ("and", "or"):
        return [(cond, t)]
    both = t.op == "and"
    known = [x for x in t.a if boolean(x)]
    rest = [x for x in t.a if not boolean(x)]
    if not known:
        return [(cond, t)]
    b = land(*known) if both else lnot(lor(*known))
    r = (land(*rest) if both else lor(*rest)) if rest else (TRUE if both else FALSE)
    return [(x, y) for x, y in ((land(cond, lnot(b)), FALSE if both else TRUE), (land(cond, b), r)) if x is not FALSE]


def group_eff(it, kinds=("set", "mut", "raise", "assert", "call"), asserts=True, keep=None):
    c = Canon(it)
    _, eff = summary(it, asserts=asserts)
    g = {}
    for kind, a, e in eff:
        if kind not in kinds or (keep and not keep(kind, a, e)):
            continue
        cond = tidy(it.deep(close_pc(it, e), e.heap))
        ts = [under(cond, it.deep(x, e.heap)) for x in a if isinstance(x, T)]
        rest = tuple(repr(x) for x in a if not isinstance(x, T))
        for cc, tt in lifted(cond, ts):
            k = (kind,) + tuple(c.key(x, e.heap) for x in tt) + rest
            g.setdefault(k, [e, [], e.heap])[1].append(cc)
    return {k: (v[0], lor(*v[1]), v[2]) for k, v in g.items()}


def close_pc(it, e):
    return land(*e.pc)


def search(it, l):
    """a loop that only sets flags to constants: stopping early makes no difference"""
    def flag(m, n):
        return n is m or n.op == "const" or n.op == "ite" and flag(m, n.a[1]) and flag(m, n.a[2])
    ms = [(m, n) for m, n in it.mu_next.items() if m.a[0] == l]
    consts = {m: {x for x in walk(n) if x.op == "const"} if n.op == "const" else {y for y in _leaves(n) if y is not m} for m, n in ms}
    return len(ms) == 1 and all(flag(m, n) and len(consts[m]) <= 1 and all(under(b, n).op == "const" for b in it.loops[l]["breaks"]) for m, n in ms) and not any(
        (e.kind in ("set", "mut", "raise", "del") or e.kind == "return" and e.d.get("depth", 1) == 1) and any(c.op == "iter" and c.a[0] == l for c in e.pc) for e in it.events)


def _leaves(t):
    return _leaves(t.a[1]) + _leaves(t.a[2]) if t.op == "ite" else [t]


def group_breaks(it):
    c = Canon(it)
    out = {}
    for l, r in it.loops.items():
        if r.get("breaks") and r.get("it") is not None and not search(it, l):
            k = c.key(mk("iter", l, r["it"]))
            out.setdefault(k, []).extend(r["breaks"])
    return {k: lor(*v) for k, v in out.items()}


def diff(a, b, what="both", effects=True, breaks=True, kinds=("set", "mut", "raise", "call"), exclude=None):
    """[(where, detail)] of the differences between the analysed function a and specification b"""
    return both_ways(lambda: diff1(a, b, what, effects, breaks, kinds, exclude))


def diff1(a, b, what="both", effects=True, breaks=True, kinds=("set", "mut", "raise", "call"), exclude=None):
    out = []
    ca, cb = Canon(a), Canon(b)
    ra, rb = group_ret(a, exclude), group_ret(b, exclude)
    for k in ra.keys() | rb.keys():
        if k not in rb:
            out.append(("returned value", "not in the specification: " + show(ra[k][0], 8) + " when " + show(ra[k][1], 6)))
        elif k not in ra:
            out.append(("returned value", "missing: " + show(rb[k][0], 8) + " when " + show(rb[k][1], 6)))
        elif len(ra) > 1 or len(rb) > 1:
            if not same_cond(ra[k][1], atom_key(ca, ra[k][2]), rb[k][1], atom_key(cb, rb[k][2])):
                out.append(("condition", show(ra[k][0], 4) + " returned when " + show(ra[k][1], 8) + ", specified when " + show(rb[k][1], 8)))
    if effects:
        ea, eb = group_eff(a, kinds), group_eff(b, kinds)
        for k in ea.keys() | eb.keys():
            if k not in eb:
                out.append((ea[k][0].where, "effect not in the specification: " + " ; ".join(show(x, 8) for x in ea[k][0].a) + " when " + show(ea[k][1], 6)))
            elif k not in ea:
                out.append(("effect", "missing: " + " ; ".join(show(x, 8) for x in eb[k][0].a) + " when " + show(eb[k][1], 6)))
            elif not same_cond(ea[k][1], atom_key(ca, ea[k][2]), eb[k][1], atom_key(cb, eb[k][2])):
                out.append((ea[k][0].where, "effect " + " ; ".join(show(x, 4) for x in ea[k][0].a) + " when " + show(ea[k][1], 8) + ", specified when " + show(eb[k][1], 8)))
    if breaks:
        out += diff_breaks(a, b)
    return out


def diff_breaks(a, b):
    out = []
    ca, cb = Canon(a), Canon(b)
    ba, bb = group_breaks(a), group_breaks(b)
    for k in ba.keys() | bb.keys():
        x, y = ba.get(k, FALSE), bb.get(k, FALSE)
        if not same_cond(x, atom_key(ca, a.final), y, atom_key(cb, b.final)):
            out.append(("loop exit", f"leaves the loop when {show(x, 8)}, specified when {show(y, 8)}"))
    return out
