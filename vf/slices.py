"""Slices of an interpretation: the guarded values that reach chosen program points."""
from .terms import *
from .canon import Canon, plain
from .equiv import atom_key, same_cond, is_local, group_breaks, expand, split_set, lifted, both_ways


class Item:
    __slots__ = ("terms", "cond", "heap", "where")

    def __init__(self, terms, cond, heap, where):
        self.terms, self.cond, self.heap, self.where = tuple(terms), cond, heap, where


def fname(e):
    f = e.d.get("f")
    if f is not None and f.op == "attr":
        return f.a[1]
    return f.a[0] if f is not None and f.op in ("ref",) else None


def matches(name, pats):
    if name is None:
        return False
    return any(name == p or name.split(":")[-1] == p or name.split(":")[-1].split(".")[-1] == p for p in pats)


def calls(it, names, pick=None):
    """Calls (inlined or not) of functions whose full, qualified or bare name is in `names`."""
    names = [names] if isinstance(names, str) else list(names)
    out = []
    for e in it.events:
        if e.kind in ("call", "enter") and matches(fname(e), names):
            b = e.d.get("bound")
            if b is None and e.d.get("func") is not None:
                b = it.bind(e.d["func"], e.d.get("args", ()), tuple(e.d.get("kw", {}).items()), None)
            out.append((e, b))
    return out


def call_items(it, names, params, default=None):
    """items of the calls; with no parameter named, all arguments count"""
    out = []
    for e, b in calls(it, names):
        vals = []
        if not params:
            if b is not None:
                for k in sorted(b):
                    if isinstance(b[k], T):
                        vals += [const(str(k)), b[k]]
            else:
                vals = list(e.d.get("args", ()))
                if e.d["f"].op == "attr":
                    vals.insert(0, e.d["f"].a[0])
                for k in sorted(e.d.get("kw", {})):
                    vals += [const(str(k)), e.d["kw"][k]]
        for p in params:
            v = (b or {}).get(p)
            if v is None and isinstance(p, int):
                args = e.d.get("args", ())
                v = args[p] if p < len(args) else None
            vals.append(v if v is not None else mk("missing", str(p)))
        out.append(Item([it.deep(v, e.heap) for v in vals], e.cond(), e.heap, e.where))
    return out


def method_calls(it, meth):
    """Calls x.meth(...) whose target is not resolved to a repository function."""
    out = []
    for e in it.events:
        if e.kind == "call":
            f = e.d.get("f")
            if f is not None and f.op == "attr" and f.a[1] == meth:
                out.append(e)
            elif matches(fname(e), [meth]):
                out.append(e)
    return out


def ret_items(it, comp=None, exclude=None):
    out = []
    for pc, v, st in it.returns:
        leaves = []
        expand(TRUE, it.deep(v, st), leaves)
        for c, t in leaves:
            if exclude and exclude(t):
                continue
            if comp is not None:
                cs = [comp] if isinstance(comp, int) else comp
                if t.op in ("tuple", "list") and all(i < len(t.a) for i in cs):
                    ts = [t.a[i] for i in cs]
                else:
                    ts = [mk("sub", t, const(i)) for i in cs]
            else:
                ts = [t]
            out.append(Item(ts, land(*(tuple(pc) + (c,))), st, "returned value"))
    return out


def set_items(it, want, kinds=("set", "mut"), local=False):
    out = []
    for e in it.events:
        if e.kind in kinds and (local or not is_local(e.a[0], it)) and want(e):
            for x in split_set(it, e) if e.kind == "set" else [e]:
                out.append(Item([y if isinstance(y, T) else const(str(y)) for y in x.a], x.cond(), x.heap, x.where))
    return out


def base_attr(t):
    """name of the attribute at the root of a location: node.trace[a][0] -> 'trace'"""
    while t.op in ("sub", "setitem", "append", "mu", "conv"):
        t = t.a[1] if t.op in ("conv",) else (t.a[0] if t.op != "mu" else (t.a[1] if isinstance(t.a[1], T) else t))
        if t.op == "mu":
            return None
    return t.a[1] if t.op == "attr" else None


def group(it, items, pre=None, cond=True):
    c = Canon(it, pre)
    g = {}
    for x in items:
        full = tidy(plain(it.deep(x.cond, x.heap), pre))
        for cc, ts in lifted(full, [under(full, it.deep(t, x.heap)) for t in x.terms]):
            k = tuple(c.key(t, x.heap) for t in ts)
            if not cond:
                cc = TRUE
            elif cc is FALSE:
                continue
            g.setdefault(k, [x, []])[1].append((cc, x.heap))
    return {k: (v[0], lor(*[a for a, _ in v[1]]), v[1][0][1]) for k, v in g.items()}


def compare(ia, a, ib, b, pre=None, cond=True, prep=None):
    """differences between two item lists: [(where, detail)]"""
    return both_ways(lambda: compare1(ia, a, ib, b, pre, cond))


def compare1(ia, a, ib, b, pre=None, cond=True):
    ga, gb = group(ia, a, pre, cond), group(ib, b, pre, cond)
    ca, cb = Canon(ia, pre), Canon(ib, pre)
    out = []
    sh = lambda x: " ; ".join(show(t, 9) for t in x.terms)
    for k in ga:
        if k not in gb:
            out.append((ga[k][0].where, "found " + sh(ga[k][0]) + " when " + show(ga[k][1], 6)))
    for k in gb:
        if k not in ga:
            out.append(("", "missing " + sh(gb[k][0]) + " when " + show(gb[k][1], 6)))
    if cond:
        for k in ga:
            if k in gb:
                x, y = ga[k][1], gb[k][1]
                if not same_cond(x, atom_key(ca, ga[k][2]), y, atom_key(cb, gb[k][2])):
                    out.append((ga[k][0].where, sh(ga[k][0]) + " when " + show(x, 9) + " but specified when " + show(y, 9)))
    return out


class Pick:
    def __init__(self, name, get=None, cond=True, breaks=False, empty=False):
        self.name, self.get, self.cond, self.breaks, self.empty = name, get, cond, breaks, empty


def RET(*comp, cond=True):
    n = "returned value" if not comp else "returned component " + ",".join(map(str, comp))
    return Pick(n, lambda it: ret_items(it, list(comp) or None), cond)


def SETS(*attrs, cond=True):
    """Effects on fields of objects that outlive the call."""
    return Pick("updates of " + ", ".join(attrs), lambda it: set_items(it, lambda e: base_attr(e.a[0]) in attrs), cond)


def CALL(name, *params, cond=True):
    return Pick("calls of " + name + (" (" + ", ".join(map(str, params)) + ")" if params else ""), lambda it: call_items(it, [name], params), cond)


def RAISES(cond=True):
    return Pick("errors raised", lambda it: [Item((), e.cond(), e.heap, e.where) for e in it.events if e.kind == "raise"], cond)


BREAKS = Pick("early loop exits", breaks=True)
