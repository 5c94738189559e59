"""Structural keys for terms that do not depend on loop numbering, object identities, local
variable names or the order in which commutative operands were built.  Two terms with the same key
denote the same function of the analysed entry point's inputs."""
import ast, hashlib

from .terms import cmp, T, mk, walk, const, ref, sym, rewrite, rebuild, land, lor, lnot, under, TRUE, FALSE, strip


def _h(*xs):
    return hashlib.sha1("\x00".join(xs).encode()).hexdigest()[:20]


COPIES = ("copy", "deepcopy", "tolist", "list", "array")
ALLOC = ("numpy.ndarray", "numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full")


def _alloc_rows(t):
    """number of rows of a freshly allocated array, or None"""
    if t.op == "call" and t.a[0].op == "ref" and t.a[0].a[0] in ALLOC:
        sh = dict(t.a[2]).get("shape") or (t.a[1][0] if t.a[1] else None)
        if sh is not None and sh.op in ("tuple", "list") and sh.a and sh.a[0].op == "const":
            return sh.a[0].a[0]
    return None


def plain(t, pre=None):
    """Forget value-preserving copies; rows assigned one by one to a fresh array are a list."""

    def f(x):
        if pre is not None and x in pre:
            return pre[x]
        if x.op == "conv" and x.a[0] in COPIES:
            return x.a[1]
        if x.op in ("collect", "dictmap", "extend", "any", "nonempty", "ite"):
            r = rebuild(x, x.a)
            if r is not x:
                return r
        if x.op == "setitem":
            rows, cur = {}, x
            while cur.op == "setitem" and cur.a[1].op == "const" and isinstance(cur.a[1].a[0], int):
                rows.setdefault(cur.a[1].a[0], cur.a[2])
                cur = cur.a[0]
            n = _alloc_rows(cur)
            if n is not None and sorted(rows) == list(range(n)):
                return mk("list", *[rows[i] for i in range(n)])
        if x.op == "call" and x.a[0].op == "ref" and x.a[0].a[0] == "builtins.len" and len(x.a[1]) == 1 and x.a[1][0].op == "collect":
            init, L, it, cond, item = x.a[1][0].a
            if init.op == "list" and not init.a and item.op != "splat" and cond is not TRUE:
                return mk("fold", "+", const(0), L, it, cond, const(1))
        if x.op == "tuple" and len(x.a) > 1 and all(y.op == "sub" and y.a[1] is const(i) for i, y in enumerate(x.a)):
            if all(y.a[0] is x.a[0].a[0] for y in x.a) and x.a[0].a[0].op == "call":
                return x.a[0].a[0]  # unpacked and packed again
        if x.op == "sub" and x.a[0].op in ("list", "tuple") and x.a[1].op == "const" and isinstance(x.a[1].a[0], int):
            i = x.a[1].a[0]
            if -len(x.a[0].a) <= i < len(x.a[0].a) and not any(y.op in ("star", "splat") for y in x.a[0].a):
                return x.a[0].a[i]
        return None

    return rewrite(t, f)


LIFT = [False]
LAZY = {"collect", "fold", "dictmap", "last", "any", "minover", "maxover", "mu", "ite", "and", "or", "not", "iter", "closure", "nonempty"}


def as_list(x):
    """what is in a set is what is in the list of its items"""
    if x.op == "conv" and x.a[0] in ("set", "list", "tuple", "frozenset"):
        return as_list(x.a[1])
    if x.op == "set":
        return mk("list", *x.a)
    if x.op == "collect":
        return mk("collect", as_list(x.a[0]), *x.a[1:])
    return x


def boolean(t):
    return t.op in ("cmp", "not", "isinst", "any") or t is TRUE or t is FALSE or t.op in ("and", "or") and all(boolean(x) for x in t.a)


def first_gate(t, memo, bools=False):
    """condition of a gated value that is always evaluated within t"""
    if t.op == "ite":
        return t.a[0]
    if bools and t.op in ("and", "or") and boolean(t):
        return t
    if t.op in LAZY or t in memo:
        return None
    memo.add(t)
    todo = list(t.a)
    while todo:
        x = todo.pop(0)
        if isinstance(x, tuple):
            todo = list(x) + todo
        elif isinstance(x, T):
            c = first_gate(x, memo, bools)
            if c is not None:
                return c
    return None


def fixed_key(x):
    return x.op == "const" or x.op == "tuple" and all(map(fixed_key, x.a))


class Canon:
    def __init__(self, it, pre=None):
        self.it, self.pre = it, pre
        self._next = {}
        self._fails = {}

    def lamterm(self, t):
        if t not in self.it.closures:
            return None
        v = self.it.lam_value(t)
        return None if v is None else (v[0], plain(v[1], self.pre))

    def lam(self, t):
        c = self.it.closures.get(t)
        if c is None:
            return "closure"
        node = c[0].node
        a = node.args
        names = {x.arg: f"_p{i}" for i, x in enumerate(a.posonlyargs + a.args + a.kwonlyargs)}

        class R(ast.NodeTransformer):
            def visit_Name(s, n):
                return ast.copy_location(ast.Name(id=names.get(n.id, n.id), ctx=n.ctx), n)

        body = node.body if isinstance(node.body, list) else [node.body]
        import copy as _c

        out = []
        for b in body:
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                continue
            if isinstance(b, ast.Return):
                b = b.value
            out.append(ast.dump(R().visit(_c.deepcopy(b))) if b is not None else "None")
        return "lambda " + "|".join(out)

    def initof(self, m):
        r = self.it.mu_init.get(m)
        return plain(r, self.pre) if r is not None else None

    def nextof(self, m):
        """what the loop-carried value m becomes in one iteration"""
        r = self._next.get(m)
        if r is None:
            n, st = self.it.mu_next.get(m), self.it.mu_state.get(m)
            if n is None:
                return None
            r = self._next[m] = plain(self.it.deep(n, st) if st is not None else n, self.pre)
        return r

    def walk(self, t):
        todo, seen = [t], set()
        while todo:
            for x in walk(todo.pop()):
                if x in seen:
                    continue
                seen.add(x)
                yield x
                if x.op == "closure":
                    v = self.lamterm(x)
                    if v is not None and v[1] not in seen:
                        todo.append(v[1])
                if x.op == "mu" and not (isinstance(x.a[1], T) and x.a[1].op in ("attr", "sub")):
                    for y in (self.initof(x), self.nextof(x)):
                        if y is not None and y not in seen:
                            todo.append(y)

    def fails(self, l):
        """condition under which an iteration of loop l ends with an error"""
        r = self._fails.get(l)
        if r is None:
            out = []
            for e in self.it.events:
                if e.kind == "raise":
                    i = next((i for i, c in enumerate(e.pc) if c.op == "iter" and c.a[0] == l), None)
                    rest = e.pc[i + 1:] if i is not None else ()
                    if i is not None and not any(c.op == "iter" for c in rest):
                        out.append(plain(land(*rest), self.pre))
            r = self._fails[l] = lor(*out)
        return r

    def untouched(self, mu, key):
        i, n = self.initof(mu), self.nextof(mu)
        if i is None or n is None or key.a[1] != mu.a[0] or strip(key.a[0]) is not strip(i):
            return False
        def own(x):
            if x is mu:
                return True
            if x.op == "setitem":
                return x.a[1] is key and own(x.a[0])
            if x.op == "ite":
                return own(x.a[1]) and own(x.a[2])
            return False
        return n is not mu and own(n)

    def key(self, t, heap=None):
        """heap: State or dict used to look through container identities"""
        if heap is not None:
            t = self.it.deep(t, heap)
        t = plain(t, self.pre)
        # a loop is named by what it iterates over and how often it is nested in a loop over the same
        loops, items = {}, {}
        for x in self.walk(t):
            if x.op == "elem":
                items[x.a[1]] = x.a[0]
            elif x.op in ("any", "iter"):
                loops.setdefault(x.a[0], x.a[1])
            elif x.op in ("fold",):
                loops.setdefault(x.a[2], x.a[3])
            elif x.op in ("collect", "dictmap", "last"):
                loops.setdefault(x.a[1], x.a[2])
            elif x.op == "pos":
                items.setdefault(x.a[0], None)
            elif x.op == "mu":
                items.setdefault(x.a[0], None)
        # the loop itself says what it goes over; otherwise an item taken in it
        for l, x in items.items():
            loops.setdefault(l, x)
        memos = {}
        progress = []
        lbase, lkey = {}, {}

        shallow = [0]

        def base_of(l):
            """a loop by what it iterates over, whatever the loops in that are called"""
            if l not in lbase:
                rec = self.it.loops.get(l)
                it = loops.get(l)
                if it is None:
                    it = rec.get("it") if rec else None
                shallow[0] += 1
                lbase[l] = k(it) if it is not None else "?"
                shallow[0] -= 1
            return lbase[l]

        def L(l):
            if shallow[0]:
                return "L"
            if l not in lkey:
                b = base_of(l)
                rec = self.it.loops.get(l)
                n = sum(base_of(p) == b for p in (rec["parents"] if rec else ()) if p != l)
                lkey[l] = f"L[{b}#{n}]"
            return lkey[l]

        def k(x):
            memo = memos.setdefault("shallow" if shallow[0] else tuple(progress), {})
            r = memo.get(x)
            if r is None:
                memo[x] = "cyc"
                r = memo[x] = _k(x)
            return r

        def arg(y):
            if isinstance(y, T):
                return k(y)
            if isinstance(y, tuple):
                return "(" + ",".join(arg(z) for z in y) + ")"
            return repr(y)

        def literal(x):
            """(atom key, polarity)"""
            pol = True
            while True:
                if x.op == "not":
                    x, pol = x.a[0], not pol
                elif x.op == "nonempty":
                    x = x.a[0]
                elif x.op == "cmp" and x.a[0] == "<=":
                    x, pol = cmp("<", x.a[2], x.a[1]), not pol
                else:
                    return k(x), pol

        def compile_(x, names):
            if x.op == "const":
                v = bool(x.a[0])
                return lambda e: v
            if x.op in ("and", "or"):
                fs = [compile_(y, names) for y in x.a]
                return (lambda e: all(f(e) for f in fs)) if x.op == "and" else (lambda e: any(f(e) for f in fs))
            if x.op == "not":
                f = compile_(x.a[0], names)
                return lambda e: not f(e)
            if x.op == "ite":
                c, f, g = (compile_(y, names) for y in x.a)
                return lambda e: f(e) if c(e) else g(e)
            kk, pol = literal(x)
            i = names.setdefault(kk, len(names))
            return (lambda e: e >> i & 1) if pol else (lambda e: not e >> i & 1)

        def nnf(x, neg):
            if x.op == "not":
                return nnf(x.a[0], not neg)
            if x.op in ("and", "or"):
                op = x.op if not neg else ("or" if x.op == "and" else "and")
                return _h(op, *sorted({nnf(y, neg) for y in x.a}))
            kk, pol = literal(x)
            return kk if pol != neg else _h("not", kk)

        def boolkey(x):
            names = {}
            f = compile_(x, names)
            n = len(names)
            if n > 10:
                return nnf(x, False)
            table = [bool(f(e)) for e in range(1 << n)]
            ks = list(names)
            i = 0
            while i < len(ks):  # drop atoms the function does not depend on
                m = 1 << i
                if all(table[e] == table[e ^ m] for e in range(len(table))):
                    table = [table[(e & (m - 1)) | ((e & ~(m - 1)) << 1)] for e in range(len(table) // 2)]
                    del ks[i]
                else:
                    i += 1
            if not ks:
                return _h("const", "bool", repr(table[0]))
            if len(ks) == 1:
                return ks[0] if table[1] else _h("not", ks[0])
            order = sorted(range(len(ks)), key=lambda j: ks[j])
            bits = []
            for e in range(len(table)):
                o = 0
                for j, i in enumerate(order):
                    if e >> j & 1:
                        o |= 1 << i
                bits.append("1" if table[o] else "0")
            return _h("bool", *[ks[j] for j in order], "".join(bits))

        def never(c):
            return boolkey(c) == _h("const", "bool", "False")

        def itekey(x):
            leaves = {}

            def flat(c, y):
                if y.op == "ite" and len(leaves) < 24:
                    flat(land(c, y.a[0]), y.a[1])
                    flat(land(c, lnot(y.a[0])), y.a[2])
                    return
                g = gate(y)
                if g is not None and len(leaves) < 24:
                    for h in (g, lnot(g)):
                        cc = land(c, h)
                        if cc is not FALSE:
                            flat(cc, under(h, y, True))
                else:
                    leaves.setdefault(k(y), []).append(c)

            flat(TRUE, x)
            if len(leaves) == 1:
                return next(iter(leaves))
            return _h("cases", *sorted(_h(kk, boolkey(lor(*cs))) for kk, cs in leaves.items()))

        def gate(x):
            """the condition of a case inside x that can be drawn out of it"""
            if not LIFT[0] or x.op in LAZY:
                return None
            g = first_gate(x, set(), True)
            return g if g is not None and under(g, x, True) is not x else None

        def _k(x):
            if x.op == "ite" or gate(x) is not None:
                return itekey(x)
            return base(x)

        def base(x):
            o, a = x.op, x.a
            if o == "const":
                v = a[0]
                if isinstance(v, float) and v == int(v) if isinstance(v, float) and v == v and abs(v) != float("inf") else False:
                    v = int(v)
                return _h("const", type(v).__name__, repr(v))
            if o == "ref" and "<locals>" in a[0]:
                return _h(o, "local")
            if o == "sym" or o == "ref":
                return _h(o, str(a[0]))
            if o == "dict" and len(a) > 1 and all(isinstance(p, tuple) and fixed_key(p[0]) for p in a) and len({p[0] for p in a}) == len(a):
                return _h(o, *sorted(arg(p) for p in a))
            if o in ("and", "or", "not"):
                return boolkey(x)
            if o == "cmp" and a[0] == "<=":
                return _h("not", k(cmp("<", a[2], a[1])))
            if o in ("min", "max", "mul", "set"):
                return _h(o, *sorted(arg(y) for y in a))
            if o == "lin":
                return _h(o, *sorted(k(t_) + "*" + repr(float(c)) for t_, c in a[0]), repr(float(a[1])))
            if o == "cmp" and a[0] == "in":
                return _h(o, "in", k(a[1]), k(as_list(a[2])))
            if o == "cmp" and a[0] in ("==", "is"):
                return _h(o, a[0], *sorted((k(a[1]), k(a[2]))))
            if o == "obj":
                return _h(o, str(a[-1]))
            if o == "closure":
                v = self.lamterm(x)
                if v is not None:
                    return _h("lambda", str(v[0]), k(v[1]))
                return _h(self.lam(x))
            if o == "elem":
                return _h(o, k(a[0]), L(a[1]))
            if o == "sub" and a[0].op == "mu" and a[1].op == "elem" and self.untouched(a[0], a[1]):
                # the entry of the key at hand, which no other turn of the loop writes
                return k(mk("sub", self.initof(a[0]), a[1]))
            if o == "pos":
                return _h(o, L(a[0]))
            if o in ("any", "iter"):
                return _h(o, L(a[0]), *[arg(y) for y in a[1:]])
            if o == "fold":
                return _h(o, arg(a[0]), arg(a[1]), L(a[2]), *[arg(y) for y in a[3:]])
            if o == "collect" and LIFT[0] and len(a) == 5:
                # items added by exclusive branches of one iteration: one item, by cases
                parts, y = [(a[3], a[4])], a[0]
                while y.op == "collect" and len(y.a) == 5 and y.a[1] == a[1] and y.a[2] == a[2] and all(never(land(y.a[3], c)) for c, _ in parts):
                    parts.append((y.a[3], y.a[4]))
                    y = y.a[0]
                v = mk("undef")
                for c, w in parts:
                    v = mk("ite", c, w, v) if c is not TRUE else w
                e = self.fails(a[1])
                if e is not FALSE:
                    v = mk("ite", e, mk("undef"), v)
                return _h(o, arg(y), L(a[1]), arg(a[2]), k(v))
            if o in ("collect", "dictmap", "last"):
                return _h(o, arg(a[0]), L(a[1]), *[arg(y) for y in a[2:]])
            if o == "mu" and isinstance(a[1], T) and a[1].op in ("attr", "sub"):
                # a field of an outer object at the loop head: what the loop does to it is an effect
                return _h("mu-loc", L(a[0]), k(plain(a[1], self.pre)))
            if o == "mu":
                i = self.initof(x)
                if x in progress:
                    return _h("mu-again", str(len(progress) - progress.index(x)))
                base = k(i) if i is not None else "?"
                if shallow[0]:
                    return _h(o, base)
                n = self.nextof(x)
                if n is None or len(progress) >= 3:
                    return _h(o, L(a[0]), base)
                progress.append(x)
                nk = k(n)
                progress.pop()
                return _h(o, L(a[0]), base, nk)
            if o == "whileloop":
                c = self.it.loops.get(a[0], {}).get("going", TRUE)
                if c is TRUE or x in progress or shallow[0]:
                    return _h(o)
                # what is carried round the loop is told apart by where it began
                shallow[0] += 1
                ck = k(c)
                shallow[0] -= 1
                return _h(o, ck)
            if o == "nobreak":
                twins = [l for l, r in self.it.loops.items() if r["breaks"] and L(l) == L(a[0])]
                return _h(o, L(a[0]), str(sum(l < a[0] for l in twins)))
            if o == "nonempty":
                return k(a[0])
            if o == "opaque":
                return _h(o, str(a[0]))
            return _h(o, *[arg(y) for y in a])

        return k(t)
