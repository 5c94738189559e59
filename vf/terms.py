"""Hash-consed value-graph terms with normalising constructors.

A term denotes the *value* an expression has as a function of the inputs of the analysed entry
point.  Constructors normalise away spelling: comparison direction, negation, commutativity,
linear arithmetic, string concatenation, `min`/`max` idioms, container copies in `strip`.
"""
import sys

sys.setrecursionlimit(20000)


class T:
    __slots__ = ("op", "a", "h", "ops", "at", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return key(self) < key(o)


_table = {}
_count = [0]


def mk(op, *a):
    if op == "collect" and a[4].op == "splat" and a[3] is not TRUE:
        # adding all of a container only if there is something in it
        li = (None, a[4].a[0], None, TRUE)
        keep = [l for l in conjuncts(a[3]) if not _says_nonempty(l, li)]
        if len(keep) != len(conjuncts(a[3])):
            a = a[:3] + (land(*keep), a[4])
    k = (op, a) if op != "const" else (op, type(a[0]).__name__, repr(a[0]))
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _count[0] += 1
        t.h = _count[0]
        t.ops = t.at = None
        _table[k] = t
    return t


_keys = {}


def key(t):
    """Deterministic structural sort key (creation order; analysis order is deterministic)."""
    return t.h


def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t, v=None):
    return isinstance(t, T) and t.op == "const"


def cval(t):
    return t.a[0]


def sym(name):
    return mk("sym", name)


def ref(q):
    return mk("ref", q)


def attr(b, n):
    if b.op == "ite":
        x, y = attr(b.a[1], n), attr(b.a[2], n)
        if x is y:
            return x
    while n in ("shape", "ndim", "size", "dtype") and b.op == "setitem":
        b = b.a[0]  # items put into an array leave its shape
    return mk("attr", b, n)


def num(t):
    return t.op == "const" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool)


# ---------------------------------------------------------------- linear arithmetic
def lin_parts(t):
    """-> dict term->coef, const"""
    if num(t):
        return {}, t.a[0]
    if t.op == "lin":
        return dict(t.a[0]), t.a[1]
    return {t: 1}, 0


def mk_lin(d, c):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return const(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk("lin", tuple(sorted(d.items(), key=lambda kv: kv[0].h)), c)


def is_seq(t):
    if t.op == "const":
        return isinstance(t.a[0], (str, bytes, tuple))
    return t.op in ("tuple", "list", "concat", "slice_of", "fstr", "obj", "collect", "append", "extend")


def add(x, y, sign=1):
    if sign == 1 and (is_seq(x) or is_seq(y)):
        parts = []
        for p in (x, y):
            if p.op == "concat":
                parts.extend(p.a)
            else:
                parts.append(p)
        out = []
        for p in parts:
            if out and p.op == "const" and out[-1].op == "const" and isinstance(p.a[0], str) and isinstance(out[-1].a[0], str):
                out[-1] = const(out[-1].a[0] + p.a[0])
            else:
                out.append(p)
        out = [p for p in out if not (p.op == "const" and p.a[0] == "")] or [const("")]
        return out[0] if len(out) == 1 else mk("concat", *out)
    dx, cx = lin_parts(x)
    dy, cy = lin_parts(y)
    for k, v in dy.items():
        dx[k] = dx.get(k, 0) + sign * v
    return mk_lin(dx, cx + sign * cy)


def mul(x, y):
    if num(y) and not num(x):
        x, y = y, x
    if num(x):
        c = x.a[0]
        if num(y):
            return const(c * y.a[0])
        d, k = lin_parts(y)
        return mk_lin({t: v * c for t, v in d.items()}, k * c)
    fs = []
    for t in (x, y):
        if t.op == "mul":
            fs.extend(t.a)
        else:
            fs.append(t)
    # products of sums are multiplied out
    sums = [f for f in fs if f.op == "lin" and (len(f.a[0]) > 1 or f.a[1] != 0)]
    n = 1
    for f in sums:
        n *= len(f.a[0]) + (f.a[1] != 0)
    if sums and n <= 12:
        parts = [(1, [f for f in fs if f not in sums])]
        for f in sums:
            parts = [(c * v, p + [k]) for c, p in parts for k, v in f.a[0]] + ([(c * f.a[1], p) for c, p in parts] if f.a[1] != 0 else [])
        r = const(0)
        for c, p in parts:
            t = const(c)
            for g in p:
                t = mul(t, g)
            r = add(r, t)
        return r
    coef = 1
    out = []
    for f in fs:
        if f.op == "lin" and len(f.a[0]) == 1 and f.a[1] == 0:
            coef *= f.a[0][0][1]
            out.append(f.a[0][0][0])
        else:
            out.append(f)
    out.sort(key=lambda t: t.h)
    m = mk("mul", *out)
    return m if coef == 1 else mk_lin({m: coef}, 0)


def neg(x):
    d, c = lin_parts(x)
    return mk_lin({k: -v for k, v in d.items()}, -c)


def binop(op, x, y):
    if op == "+":
        return add(x, y)
    if op == "-":
        return add(x, y, -1)
    if op == "*":
        if is_seq(x) or is_seq(y):
            return mk("bin", "*", x, y)
        return mul(x, y)
    if op == "/":
        if num(y) and y.a[0] != 0:
            if num(x):
                return const(x.a[0] / y.a[0])
            return mul(const(1 / y.a[0]), x)
        return mk("bin", "/", x, y)
    if op in ("|", "&", "^"):
        if y.h < x.h:
            x, y = y, x
    if num(x) and num(y):
        try:
            if op == "//":
                return const(x.a[0] // y.a[0])
            if op == "%":
                return const(x.a[0] % y.a[0])
            if op == "**":
                return const(x.a[0] ** y.a[0])
        except Exception:
            pass
    return mk("bin", op, x, y)


# ---------------------------------------------------------------- booleans
def cmp(op, x, y):
    if op == ">":
        return cmp("<", y, x)
    if op == ">=":
        return cmp("<=", y, x)
    if op == "!=":
        return lnot(cmp("==", x, y))
    if op == "is not":
        return lnot(cmp("is", x, y))
    if op == "not in":
        return lnot(cmp("in", x, y))
    if op == "in" and y.op in ("tuple", "list") or (op == "in" and y.op == "const" and isinstance(y.a[0], tuple)):
        items = y.a if y.op != "const" else tuple(const(v) for v in y.a[0])
        return lor(*[cmp("==", x, e) for e in items])
    if op == "==" and (x is NONE or y is NONE):
        op = "is"  # `== None` and `is None` agree on every type used here
    if op in ("==", "is"):
        if x is y:
            return TRUE
        if x.op == "const" and y.op == "const":
            return const(x.a[0] == y.a[0])
        if x.op == "attr" and y.op == "attr" and x.a[0] is y.a[0] and x.a[0].op == "ref" and str(x.a[0].a[0]).startswith("class "):
            return FALSE  # two members of an enumeration
        # comparing an ite with a constant: distribute when that decides a branch
        for p, q in ((x, y), (y, x)):
            if p.op == "ite" and q.op == "const":
                l, r = cmp(op, p.a[1], q), cmp(op, p.a[2], q)
                if l.op == "const" or r.op == "const":
                    return ite(p.a[0], l, r)
        for p, q in ((x, y), (y, x)):
            if q is NONE and p.op in ("obj", "tuple", "list", "dict", "lin", "collect", "concat", "append", "extend"):
                return FALSE
        if op == "==":
            for p, q in ((x, y), (y, x)):
                if q is TRUE and p.op in BOOLOPS:
                    return p
                if q is FALSE and p.op in BOOLOPS:
                    return lnot(p)
        if y.h < x.h:
            x, y = y, x
        return mk("cmp", op, x, y)
    if op in ("<", "<="):
        if num(x) and num(y):
            return const(x.a[0] < y.a[0] if op == "<" else x.a[0] <= y.a[0])
        # integer/real-linear: move everything to one side when a lin is involved
        d = add(y, x, -1) if not (is_seq(x) or is_seq(y)) else None
        if d is not None and num(d):
            return const(0 < d.a[0] if op == "<" else 0 <= d.a[0])
        if d is not None and (x.op == "lin" or y.op == "lin"):
            # normal form: p op q when the difference is a plain two-term one, else 0 op (y - x)
            dd, c = lin_parts(d)
            it = list(dd.items())
            if len(it) == 2 and c == 0 and {v for _, v in it} == {1, -1}:
                pos = [k for k, v in it if v == 1][0]
                ng = [k for k, v in it if v == -1][0]
                return mk("cmp", op, ng, pos)
            if len(it) == 1 and it[0][1] == 1:
                return mk("cmp", op, const(-c), it[0][0])
            if len(it) == 1 and it[0][1] == -1:
                return mk("cmp", op, it[0][0], const(c))
            return mk("cmp", op, const(0), d)
        return mk("cmp", op, x, y)
    return mk("cmp", op, x, y)


BOOLOPS = ("cmp", "not", "and", "or", "any", "isinst")


def truth(t):
    """Normalise a term used as a condition."""
    if t.op == "const":
        return const(bool(t.a[0]))
    if t.op in ("tuple", "list", "dict"):
        return const(len(t.a) > 0)
    if t.op == "call" and t.a[0] is ref("builtins.len") and len(t.a[1]) == 1:
        return nonempty(t.a[1][0])
    if t.op == "cmp":
        op, x, y = t.a
        # len(x) != 0 / > 0 / == 0 / < 1
        for p, q, flip in ((x, y, False), (y, x, True)):
            ln = p.op == "call" and p.a[0] is ref("builtins.len") and len(p.a[1]) == 1
            if ln and num(q):
                v = q.a[0]
                z = nonempty(p.a[1][0])
                if op == "==" and v == 0:
                    return lnot(z)
                if op == "<" and not flip and v == 1:  # len<1
                    return lnot(z)
                if op == "<=" and not flip and v == 0:
                    return lnot(z)
                if op == "<" and flip and v == 0:  # 0<len
                    return z
                if op == "<=" and flip and v == 1:
                    return z
            # x == []  / {} / ()
            if op == "==" and q.op in ("list", "dict", "tuple") and len(q.a) == 0:
                return lnot(nonempty(p))
        return t
    if t.op in ("not",):
        return lnot(truth(t.a[0]))
    if t.op == "and":
        return land(*[truth(x) for x in t.a])
    if t.op == "or":
        return lor(*[truth(x) for x in t.a])
    if t.op == "ite":
        return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    if t.op in ("obj", "collect", "dictmap", "append", "extend", "setitem", "concat"):
        return nonempty(t)
    return t


def lnot(x):
    if x.op == "const":
        return const(not x.a[0])
    if x.op == "not":
        return x.a[0]
    if x.op == "cmp" and x.a[0] in ("<", "<="):
        # total order assumption (no NaN): not a<b  ==  b<=a
        op, p, q = x.a
        if p is const(0) and q.op == "lin":
            return cmp("<=" if op == "<" else "<", q, const(0))
        return cmp("<=" if op == "<" else "<", q, p)
    if x.op == "and":
        return lor(*[lnot(e) for e in x.a])
    if x.op == "or":
        return land(*[lnot(e) for e in x.a])
    if x.op == "ite" and x.a[1].op in BOOLOPS + ("const",) and x.a[2].op in BOOLOPS + ("const",):
        return ite(x.a[0], lnot(x.a[1]), lnot(x.a[2]))
    return mk("not", x)


def land(*xs):
    out = []
    seen = set()
    stack = list(xs)
    flat = []
    while stack:
        x = stack.pop(0)
        if x.op == "and":
            stack = list(x.a) + stack
        else:
            flat.append(x)
    for x in flat:
        if x is TRUE or x in seen:
            continue
        if x is FALSE:
            return FALSE
        if lnot(x) in seen:
            return FALSE
        seen.add(x)
        out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    # inside a loop over a container, the container is not empty
    its = {strip(x.a[1]) for x in out if x.op == "iter"}
    its = {x for x in its if x.op != "obj"}
    if its:
        full = lambda l: l.op != "iter" and (strip(l) in its or (l.op == "nonempty" and strip(l.a[0]) in its))
        if any(x.op == "not" and full(x.a[0]) for x in out):
            return FALSE
        out = [x for x in out if not full(x)]
        if any(x.op == "or" and any(full(d) or (d.op == "not" and full(d.a[0])) for d in x.a) for x in out):
            out = [lor(*[d for d in x.a if not (d.op == "not" and full(d.a[0]))]) if x.op == "or" and not any(full(d) for d in x.a) else x
                   for x in out if not (x.op == "or" and any(full(d) for d in x.a))]
            return land(*out)
    # unit propagation into disjunctions
    units = {x for x in out if x.op != "or"}
    nots = {lnot(x) for x in units}
    res = []
    changed = False
    for x in out:
        if x.op == "or":
            keep = [d for d in x.a if d not in nots]
            if any(d in units for d in x.a):
                changed = True
                continue
            if len(keep) != len(x.a):
                changed = True
                x = lor(*keep)
        res.append(x)
    if changed:
        return land(*res)
    out = sorted(set(res), key=lambda t: t.h)
    return out[0] if len(out) == 1 else mk("and", *out)


def lor(*xs):
    flat = []
    stack = list(xs)
    while stack:
        x = stack.pop(0)
        if x.op == "or":
            stack = list(x.a) + stack
        else:
            flat.append(x)
    out = []
    seen = set()
    for x in flat:
        if x is FALSE or x in seen:
            continue
        if x is TRUE:
            return TRUE
        if lnot(x) in seen:
            return TRUE
        seen.add(x)
        out.append(x)
    if not out:
        return FALSE
    # absorption:  a or (not a and b) -> a or b ; a or (a and b) -> a
    if len(out) > 1 and len(out) < 40:
        units = {x for x in out if x.op != "and"}
        nots = {lnot(x) for x in units}
        res = []
        changed = False
        for x in out:
            if x.op == "and":
                if any(c in units for c in x.a):
                    changed = True
                    continue
                keep = [c for c in x.a if c not in nots]
                if len(keep) != len(x.a):
                    changed = True
                    x = land(*keep)
            res.append(x)
        if changed:
            return lor(*res)
        out = res
        # (p and a) or (p and not a) -> p
        for i in range(len(out)):
            for j in range(i + 1, len(out)):
                ci = set(out[i].a) if out[i].op == "and" else {out[i]}
                cj = set(out[j].a) if out[j].op == "and" else {out[j]}
                di, dj = ci - cj, cj - ci
                if len(di) == 1 and len(dj) == 1 and lnot(next(iter(di))) is next(iter(dj)):
                    rest = [o for k, o in enumerate(out) if k not in (i, j)]
                    return lor(land(*(ci & cj)), *rest)
    if len(out) == 1:
        return out[0]
    return mk("or", *sorted(set(out), key=lambda t: t.h))


def conjuncts(t):
    return list(t.a) if t.op == "and" else ([] if t is TRUE else [t])


def ite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if c.op == "not":
        return ite(c.a[0], y, x)
    if c.op == "cmp" and c.a[0] == "<=":
        # canonical guard is "<"
        n = lnot(c)
        if n.op == "cmp" and n.a[0] == "<":
            mm = _minmax(c, x, y)
            if mm is not None:
                return mm
            return ite(n, y, x)
    if x is TRUE and y is FALSE:
        return c
    if x is FALSE and y is TRUE:
        return lnot(c)
    if x is TRUE and y.op in BOOLOPS:
        return lor(c, y)
    if y is FALSE and x.op in BOOLOPS:
        return land(c, x)
    if x is FALSE and y.op in BOOLOPS:
        return land(lnot(c), y)
    if y is TRUE and x.op in BOOLOPS:
        return lor(lnot(c), x)
    mm = _minmax(c, x, y)
    if mm is not None:
        return mm
    if c.op in ("and", "or"):
        for l in c.a:
            if l.op == "cmp" and l.a[0] in ("<", "<=") and {l.a[1], l.a[2]} == {x, y}:
                mm = _minmax(l, x, y)
                if mm is not None:
                    rest = [z for z in c.a if z is not l]
                    return ite(land(*rest), mm, y) if c.op == "and" else ite(lor(*rest), x, mm)
    # a loop over a container, guarded by the container not being empty
    for u, v, cc in ((x, y, c), (y, x, None)):
        li = loop_parts(u)
        if li is None or li[0] is not v:
            continue
        if cc is None:
            cc = lnot(c)
        keep = [l for l in conjuncts(cc) if not _says_nonempty(l, li)]
        if len(keep) != len(conjuncts(cc)):
            return ite(land(*keep), u, v)
    # nested same-condition pruning
    if x.op == "ite" and x.a[0] is c:
        return ite(c, x.a[1], y)
    if y.op == "ite" and y.a[0] is c:
        return ite(c, x, y.a[2])
    # ite(c, ite(d, v, w), w) -> ite(c&d, v, w)
    if x.op == "ite" and x.a[2] is y:
        return ite(land(c, x.a[0]), x.a[1], y)
    if x.op == "ite" and x.a[1] is y:
        return ite(land(c, lnot(x.a[0])), x.a[2], y)
    if y.op == "ite" and y.a[1] is x:
        return ite(lor(c, y.a[0]), x, y.a[2])
    if y.op == "ite" and y.a[2] is x:
        return ite(lor(c, lnot(y.a[0])), x, y.a[1])
    return mk("ite", c, x, y)


def loop_parts(u):
    """(value before the loop, container, loop, condition of a contribution)"""
    if u.op in ("collect", "dictmap"):
        return u.a[0], u.a[2], u.a[1], u.a[3]
    if u.op == "fold":
        return u.a[1], u.a[3], u.a[2], u.a[4] if len(u.a) > 5 else TRUE
    if u.op == "last":
        return u.a[0], u.a[2], u.a[1], TRUE
    if u.op == "extend":
        return u.a[0], u.a[1], None, TRUE
    return None


def _says_nonempty(l, li):
    _, it, L, cond = li
    if strip(l) is strip(it):
        return True  # truth value of the container
    if l.op == "nonempty":
        return strip(l.a[0]) is strip(it)
    if l.op == "any" and L is not None and strip(l.a[1]) is strip(it):
        return reloop(l.a[2], l.a[0], L) is cond or (l.a[2] is TRUE)
    return False


def strip(t):
    while t.op == "conv" and t.a[0] in ("copy", "deepcopy", "tolist", "list", "array", "tuple", "iter"):
        t = t.a[1]
    return t


def reloop(t, L1, L2):
    def f(x):
        if x.op == "elem" and x.a[1] == L1:
            return mk("elem", x.a[0], L2)
        if x.op == "pos" and x.a[0] == L1:
            return mk("pos", L2)
        return None

    return rewrite(t, f)


def _minmax(c, x, y):
    if c.op == "cmp" and c.a[0] in ("<", "<="):
        p, q = c.a[1], c.a[2]
        if p is const(0) and q.op == "lin":
            # 0 < q-p form
            if add(y, x, -1) is q:  # x < y
                return tmin(x, y)
            if add(x, y, -1) is q:  # y < x
                return tmax(x, y)
            return None
        if p is x and q is y:
            return tmin(x, y)
        if p is y and q is x:
            return tmax(x, y)
    return None


def _mm(op, xs):
    flat = []
    for x in xs:
        if x.op == op:
            flat.extend(x.a)
        else:
            flat.append(x)
    flat = sorted(set(flat), key=lambda t: t.h)
    if len(flat) == 1:
        return flat[0]
    return mk(op, *flat)


def tmin(*xs):
    return _mm("min", xs)


def tmax(*xs):
    return _mm("max", xs)


# ---------------------------------------------------------------- traversal
def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            st = list(x)
            while st:
                y = st.pop()
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    st.extend(y)


def walk(t, seen=None):
    """All distinct subterms."""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def _gather(t):
    """fills in the operators and the loops of items that occur in t"""
    st = [t]
    while st:
        x = st[-1]
        if x.ops is not None:
            st.pop()
            continue
        todo = [y for y in children(x) if y.ops is None]
        if todo:
            st.extend(todo)
            continue
        ops, at = {x.op}, set()
        if x.op == "elem":
            at.add(x.a[1])
        elif x.op == "pos":
            at.add(x.a[0])
        for y in children(x):
            ops |= y.ops
            at |= y.at
        x.ops = _shared.setdefault(frozenset(ops), frozenset(ops))
        x.at = _shared.setdefault(frozenset(at), frozenset(at))
        st.pop()


_shared = {}


def hasop(t, op):
    if t.ops is None:
        _gather(t)
    return op in t.ops


def itemof(t, L):
    """an item or position of loop L occurs in t"""
    if t.ops is None:
        _gather(t)
    return L in t.at


def occurs(t, sub):
    return contains(t, lambda x: x is sub)


def _map_arg(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_map_arg(y, f) for y in x)
    return x


def rebuild(t, args):
    op = t.op
    if op == "attr":
        return attr(*args)
    if op == "lin":
        acc = const(args[1])
        for k, v in args[0]:
            acc = add(acc, mul(const(v), k))
        return acc
    if op == "mul":
        acc = args[0]
        for f in args[1:]:
            acc = mul(acc, f)
        return acc
    if op == "cmp":
        if args[0] in ("<", "<=", "==", "is", "in"):
            return cmp(*args)
        return mk(op, *args)
    if op == "not":
        return lnot(args[0])
    if op == "and":
        return land(*args)
    if op == "or":
        return lor(*args)
    if op == "ite":
        return ite(*args)
    if op == "min":
        return tmin(*args)
    if op == "max":
        return tmax(*args)
    if op == "bin":
        return binop(*args)
    if op == "nonempty":
        return nonempty(args[0])
    if op == "collect" or op == "dictmap":
        c = strip(args[2])
        if empty_seq(c) or args[3] is FALSE:
            return args[0]
    if op == "extend" and empty_seq(strip(args[1])):
        return args[0]
    if op == "any" and (args[2] is FALSE or empty_seq(strip(args[1]))):
        return FALSE
    return mk(op, *args)


def empty_seq(c):
    if c.op == "sub" and c.a[0].op == "dict" and not c.a[0].a:
        return True  # a defaultdict nothing was put into
    return c.op in ("list", "tuple", "dict", "set") and not c.a


def nonempty(c):
    c0 = strip(c)
    if empty_seq(c0):
        return FALSE
    if c0.op == "collect" and empty_seq(c0.a[0]) and c0.a[4].op != "splat":
        if c0.a[3] is TRUE:
            return nonempty(c0.a[2])
        return mk("any", c0.a[1], c0.a[2], c0.a[3])
    if c0.op == "dictmap" and empty_seq(c0.a[0]):
        if c0.a[3] is TRUE:
            return nonempty(c0.a[2])
        return mk("any", c0.a[1], c0.a[2], c0.a[3])
    if c0.op in ("append", "setitem"):
        return TRUE
    if c0.op in ("list", "tuple") and not any(x.op in ("star", "splat") for x in c0.a):
        return TRUE
    return mk("nonempty", c)


def subst(t, m, memo=None):
    """Replace subterms per dict m (term->term)."""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif x.op in ("const", "sym", "ref", "mu"):
            r = x
        else:
            na = tuple(_map_arg(y, go) for y in x.a)
            r = x if na == x.a else rebuild(x, na)
        memo[x] = r
        return r

    return go(t)


def rewrite(t, f, memo=None):
    """Bottom-up rewriting: f(term)->term or None."""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ("const", "sym", "ref", "mu"):
            r = x
        else:
            na = tuple(_map_arg(y, go) for y in x.a)
            r = x if na == x.a else rebuild(x, na)
        r2 = f(r)
        if r2 is not None:
            r = r2
        memo[x] = r
        return r

    return go(t)


# ---------------------------------------------------------------- printing
def show(t, depth=9):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    o, a = t.op, t.a
    if o == "const":
        return repr(a[0])
    if o == "sym":
        return a[0]
    if o == "ref":
        return a[0].split(":")[-1] if isinstance(a[0], str) else str(a[0])
    if o == "attr":
        return f"{show(a[0],d)}.{a[1]}"
    if o == "sub":
        return f"{show(a[0],d)}[{show(a[1],d)}]"
    if o == "slice":
        return ":".join("" if x is NONE else show(x, d) for x in a)
    if o == "lin":
        s = " + ".join((f"{v}*" if v != 1 else "") + show(k, d) for k, v in a[0])
        return f"({s}{' + ' + str(a[1]) if a[1] else ''})"
    if o == "cmp":
        return f"({show(a[1],d)} {a[0]} {show(a[2],d)})"
    if o == "bin":
        return f"({show(a[1],d)} {a[0]} {show(a[2],d)})"
    if o == "call":
        args = [show(x, d) for x in a[1]] + [f"{k}={show(v,d)}" for k, v in a[2]]
        return f"{show(a[0],d)}({', '.join(args)})"
    if o == "ite":
        return f"[{show(a[1],d)} if {show(a[0],d)} else {show(a[2],d)}]"
    if o in ("and", "or"):
        return "(" + f" {o} ".join(show(x, d) for x in a) + ")"
    if o == "not":
        return f"not {show(a[0],d)}"
    if o == "elem":
        return f"elem{a[1]}({show(a[0],d)})"
    if o == "index":
        return f"idx{a[1]}({show(a[0],d)})"
    return f"{o}({', '.join(show(x,d) for x in a)})"


def put_item(c, k, v):
    """container c after c[k] = v"""
    if k.op == "const":
        if c.op == "dict" and all(isinstance(p, tuple) and p[0].op == "const" for p in c.a):
            if any(p[0] is k for p in c.a):
                return mk("dict", *[(k, v) if p[0] is k else p for p in c.a])
            return mk("dict", *c.a, (k, v))
        i = k.a[0]
        if c.op == "list" and isinstance(i, int) and not isinstance(i, bool) and -len(c.a) <= i < len(c.a) and not any(y.op in ("star", "splat") for y in c.a):
            i %= len(c.a)
            return mk("list", *c.a[:i], v, *c.a[i + 1:])
    return mk("setitem", c, k, v)


def loops_of(t):
    return {x.a[1] if x.op == "elem" else x.a[0] for x in walk(t) if x.op in ("elem", "pos", "mu")}


BINDERS = {"collect": 1, "dictmap": 1, "fold": 2, "last": 1, "any": 0, "minover": None, "maxover": None}


def under(c, t, bools=False):
    """t simplified where the condition c holds: cases that c decides are chosen (bools: truth values, too)."""
    if not bools and not hasop(t, "ite"):
        return t
    lits = {}
    for x in conjuncts(c):
        if x.op != "ite" and x.op != "const":
            v = loops_of(x)
            lits[x] = (TRUE, v)
            lits[lnot(x)] = (FALSE, v)
    if not lits:
        return t
    memo = {}

    def decide(x, bound):
        r = lits.get(x)
        if r is not None and not (r[1] & bound):
            return r[0]
        if x.op == "and":
            return land(*[decide(y, bound) for y in x.a])
        if x.op == "or":
            return lor(*[decide(y, bound) for y in x.a])
        if x.op == "not":
            return lnot(decide(x.a[0], bound))
        return x

    def go(x, bound):
        k = (x, bound)
        r = memo.get(k)
        if r is not None:
            return r
        if x.op in ("const", "sym", "ref", "mu"):
            r = x
        elif x.op == "ite":
            d = decide(x.a[0], bound)
            if d is TRUE:
                r = go(x.a[1], bound)
            elif d is FALSE:
                r = go(x.a[2], bound)
            else:
                r = ite(go(d, bound), go(x.a[1], bound), go(x.a[2], bound))
        elif bools and x.op in ("and", "or") and decide(x, bound) in (TRUE, FALSE):
            r = decide(x, bound)
        else:
            b = bound
            i = BINDERS.get(x.op)
            if i is not None and isinstance(x.a[i], int):
                b = bound | {x.a[i]}
            na = tuple(_map_arg(y, lambda z: go(z, b)) for y in x.a)
            r = x if na == x.a else rebuild(x, na)
        memo[k] = r
        return r

    return go(t, frozenset())


def tidy(c):
    """a condition whose parts are simplified by the parts that are not gated"""
    if c.op != "and" or not hasop(c, "ite"):
        return c
    sure = land(*[x for x in c.a if not hasop(x, "ite")])
    return land(*[under(sure, x) for x in c.a])
