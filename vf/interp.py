"""Abstract interpreter over the syntax tree: builds gated value-graph terms.

One pass per entry point; both branches of every conditional are taken and joined with gated phis
(`ite`), loops are summarised from a single abstract iteration (header values become `mu` symbols,
accumulators are recognised as folds / collections), calls to repository functions are inlined when
the policy says so.  No path enumeration, no solver, nothing from the analysed code is executed.
"""
import ast
import builtins

from .terms import *
from .terms import _minmax
from .repo import Func, Class, Module, AnalysisBroken, import_bindings

BUILTINS = set(dir(builtins))
ARRAYS = ("numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full", "numpy.empty_like", "numpy.zeros_like", "numpy.ones_like", "numpy.eye")
ARITH = {"numpy.add": "+", "numpy.subtract": "-", "numpy.multiply": "*", "numpy.divide": "/", "numpy.matmul": "@", "numpy.dot": "@"}

MUTATORS = {
    "append", "extend", "insert", "add", "update", "remove", "discard", "pop", "popleft", "clear",
    "sort", "reverse", "setdefault", "appendleft", "extendleft", "popitem", "fill",
}
# method names never resolved through the unique-method fallback
COMMON = MUTATORS | {
    "keys", "values", "items", "get", "copy", "index", "count", "join", "split", "replace", "strip",
    "format", "startswith", "endswith", "tolist", "astype", "reshape", "flatten", "min", "max",
    "sum", "mean", "any", "all", "dot", "transpose", "apply", "intersection", "union", "issubset",
    "issuperset", "check", "visit", "generic_visit", "read", "write", "close", "next", "round",
    "parse", "run", "height", "contains", "show", "report", "h", "h3d",
}


class Event:
    __slots__ = ("kind", "pc", "a", "line", "func", "order", "heap", "store", "node", "d")

    def __init__(self, kind, pc, a, line, func, order, heap, store, node=None, d=None):
        self.kind, self.pc, self.a, self.line, self.func = kind, pc, a, line, func
        self.order, self.heap, self.store, self.node = order, heap, store, node
        self.d = d or {}

    def cond(self):
        return land(*self.pc)

    @property
    def where(self):
        return f"{self.func.mod.path}:{self.line} in {self.func.qual}"

    def __repr__(self):
        return f"<{self.kind} {show(self.a)} @{self.line} pc={show(self.pc)}>"


class State:
    __slots__ = ("stack", "heap", "store", "pc")

    def __init__(self, stack, heap, store, pc):
        self.stack, self.heap, self.store, self.pc = stack, heap, store, pc

    def copy(self):
        return State([(f, dict(e)) for f, e in self.stack], dict(self.heap), dict(self.store), self.pc)

    @property
    def env(self):
        return self.stack[-1][1]

    def become(self, o):
        self.stack, self.heap, self.store, self.pc = o.stack, o.heap, o.store, o.pc


class Frame:
    _n = 0

    def __init__(self, func, closure=None):
        self.func = func
        self.returns = []  # (State, value)
        self.raises = []  # (pc)
        self.loops = []
        self.closure = closure  # (frame object of definition, snapshot env)
        self.gen = None


class LoopRec:
    def __init__(self, lid):
        self.lid = lid
        self.breaks, self.continues = [], []


UNDEF = mk("undef")


class Limits(Exception):
    pass


def _inside(t):
    while t.op in ("sub", "attr", "setitem", "append"):
        t = t.a[0]
    return t.op == "obj"


def parts_of(v, mu, n):
    """v is, in every case, a tuple of n components or the value mu of the round before"""
    if v.op == "ite":
        return parts_of(v.a[1], mu, n) and parts_of(v.a[2], mu, n)
    return v is mu or v.op == "tuple" and len(v.a) == n and not any(x.op in ("splat", "star") for x in v.a)


def component(v, i):
    if v.op == "ite":
        return ite(v.a[0], component(v.a[1], i), component(v.a[2], i))
    if v.op == "tuple" and i < len(v.a):
        return v.a[i]
    return mk("sub", v, const(i))


def isinst(x, c):
    if x.op == "ite" and not any(y.op == "ite" for y in walk(x.a[0])):
        return lor(land(x.a[0], isinst(x.a[1], c)), land(lnot(x.a[0]), isinst(x.a[2], c)))
    return mk("isinst", x, c)


def fresh_default(n):
    """the kind of empty container a dataclass field starts with: field(default_factory=list)"""
    if isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", None)) == "field":
        for k in n.keywords:
            if k.arg == "default_factory" and isinstance(k.value, ast.Name) and k.value.id in ("list", "dict"):
                return k.value.id
    return None


def same_len(a, b):
    """lists collected from the same items under the same conditions"""
    a, b = strip(a), strip(b)
    if a is b:
        return True
    if a.op == "list" and b.op == "list":
        return len(a.a) == len(b.a) and not any(x.op in ("star", "splat") for x in a.a + b.a)
    return (a.op == b.op == "collect" and a.a[2] is b.a[2] and a.a[4].op != "splat" and b.a[4].op != "splat"
            and reloop(b.a[3], b.a[1], a.a[1]) is a.a[3] and same_len(a.a[0], b.a[0]))


class Interp:
    def __init__(self, repo, inline=None, opaque=None, known=None, max_depth=8, types=None, max_steps=400000, assume=None, copies=False):
        """inline/opaque: predicates or sets of 'module:qual' (or bare qual names).
        known: set of function full names existing on the reference tree; functions that are
        not known are always inlined (an extracted helper is part of its caller)."""
        self.repo = repo
        self.inline = inline or set()
        self.opaque = opaque or set()
        self.known = known if known is not None else None
        self.copies = copies  # copies are objects of their own
        self.max_depth = max_depth
        self.events = []
        self.mute = 0
        self.ctx = ()
        self.types = dict(types or {})
        self.assume = dict(assume or {})  # field of an input -> the value it is analysed for
        self.loopids = {}
        self.loops = {}  # lid -> dict(it=, func=, line=, kind=, breaks=[conds])
        self.mu_init = {}
        self.mu_next = {}
        self.mu_state = {}
        self.nestnodes = {}
        self.drained = []
        self.stmt_calls = set()  # calls made for their effect only
        self.closures = {}
        self.lams = {}
        self.nodeids = {}
        self.steps = 0
        self.max_steps = max_steps
        self.inlined = set()
        self.is_spec = False
        self.alloc = {}
        self.alloc_loops = {}
        self.unresolved = set()
        self.enums = set()

    # ------------------------------------------------------------------ entry
    def run(self, func, args=None, self_cls=None):
        if isinstance(func, str):
            func = self.repo.func(func)
        self.inlined.add(func.full)
        if func.qual.endswith("<spec>"):
            self.is_spec = True
        env = {}
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        for i, x in enumerate(a.posonlyargs + a.args + a.kwonlyargs):
            if args and x.arg in args:
                env[x.arg] = args[x.arg]
                continue
            t = sym(x.arg)
            env[x.arg] = t
            if i == 0 and func.cls is not None and not func.static:
                self.types[t] = self_cls or func.cls
            elif x.annotation is not None:
                c = self.ann_class(func.mod, x.annotation)
                if c is not None:
                    self.types[t] = c
        if a.vararg:
            env[a.vararg.arg] = sym(a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = sym(a.kwarg.arg)
        fr = Frame(func)
        st = State([(fr, env)], {}, {}, ())
        self.frames = [fr]
        end = self.block(func.node.body, st, fr)
        if end is not None:
            fr.returns.append((end, NONE))
        self.final = None
        self.ret = self.merge_returns(fr, ())
        self.returns = [(s.pc, v, s) for s, v in fr.returns]
        if fr.returns:
            self.final = self.join([s for s, _ in fr.returns])
        return self

    def ann_class(self, mod, ann):
        try:
            if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
                ann = ast.parse(ann.value, mode="eval").body
            if isinstance(ann, (ast.Name, ast.Attribute)):
                r = self.repo.resolve_expr(mod, ast.unparse(ann))
                if isinstance(r, Class):
                    return r
                # forward reference to a class not imported here
                nm = ast.unparse(ann).split(".")[-1]
                c = [m.classes[nm] for m in self.repo.modules.values() if nm in m.classes]
                if len(c) == 1 and r is None:
                    return c[0]
            if isinstance(ann, ast.Subscript):
                h = ast.unparse(ann.value).split(".")[-1]
                sl = ann.slice
                if h in ("Optional",):
                    return self.ann_class(mod, sl)
                if h in ("List", "Sequence", "list", "Iterable", "Set", "set"):
                    c = self.ann_class(mod, sl)
                    return ("of", c) if c is not None else None
                if h in ("Dict", "dict", "DefaultDict", "Mapping") and isinstance(sl, ast.Tuple):
                    c = self.ann_class(mod, sl.elts[1])
                    return ("of", c) if c is not None else None
        except Exception:
            return None
        return None

    def typeof(self, t, depth=0):
        if depth > 12:
            return None
        if t in self.types:
            return self.types[t]
        r = None
        if t.op == "new":
            r = self.repo.cls(t.a[0])
        elif t.op == "attr":
            c = self.typeof(t.a[0], depth + 1)
            if isinstance(c, Class):
                r = self.field_type(c, t.a[1])
        elif t.op in ("sub",):
            c = self.typeof(t.a[0], depth + 1)
            if isinstance(c, tuple):
                r = c[1]
        elif t.op == "elem":
            c = self.typeof(t.a[0], depth + 1)
            if isinstance(c, tuple):
                r = c[1]
        elif t.op == "ite":
            r = self.typeof(t.a[1], depth + 1) or self.typeof(t.a[2], depth + 1)
        elif t.op == "mu":
            i = self.mu_init.get(t)
            r = self.typeof(i, depth + 1) if i is not None else None
        elif t.op in ("conv",):
            r = self.typeof(t.a[1], depth + 1)
        if r is not None:
            self.types[t] = r
        return r

    def field_type(self, c, name):
        for n in c.node.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                return self.ann_class(c.mod, n.annotation)
        init = c.methods.get("__init__")
        for m in sorted(c.methods.values(), key=lambda m: m is not init):
            for n in ast.walk(m.node):
                if m is not init and not isinstance(n, ast.AnnAssign):
                    continue  # what later methods put there may differ
                tgt = None
                if isinstance(n, ast.Assign) and len(n.targets) == 1:
                    tgt, val, ann = n.targets[0], n.value, None
                elif isinstance(n, ast.AnnAssign):
                    tgt, val, ann = n.target, n.value, n.annotation
                if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == "self" and tgt.attr == name:
                    if ann is not None:
                        r = self.ann_class(c.mod, ann)
                        if r is not None:
                            return r
                    if isinstance(val, ast.Call):
                        r = self.repo.resolve_expr(c.mod, ast.unparse(val.func))
                        if isinstance(r, Class):
                            return r
                    if isinstance(val, ast.Name):
                        for x in init.node.args.args:
                            if x.arg == val.id and x.annotation is not None:
                                return self.ann_class(c.mod, x.annotation)
        for b in c.bases:
            r = self.repo.resolve_expr(c.mod, b)
            if isinstance(r, Class):
                t = self.field_type(r, name)
                if t is not None:
                    return t
        return None

    # ------------------------------------------------------------------ helpers
    def nid(self, node):
        k = id(node)
        if k not in self.nodeids:
            self.nodeids[k] = (len(self.nodeids), node)
        return self.nodeids[k][0]

    def loop_id(self, node):
        k = (self.ctx, self.nid(node))
        if k not in self.loopids:
            self.loopids[k] = len(self.loopids) + 1
        return self.loopids[k]

    def around(self, st):
        return tuple(dict.fromkeys(l.a[0] for l in st.pc if l.op == "iter"))

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limits("step limit")

    def emit(self, kind, st, a, node, **d):
        if self.mute:
            return
        self.events.append(
            Event(kind, st.pc, a, getattr(node, "lineno", 0), self.frames[-1].func, len(self.events),
                  dict(st.heap), dict(st.store), node, d)
        )

    def lam_value(self, t):
        """(number of parameters, value for symbolic arguments) of a local function without effects"""
        r = self.lams.get(t, 0)
        if r != 0:
            return r
        self.lams[t] = None
        f, fr, env, st, n, frames, ctx = self.closures[t]
        a = f.node.args
        if a.vararg or a.kwarg or a.kwonlyargs or (not isinstance(f.node, ast.Lambda) and is_generator(f.node)):
            return None
        ps = [x.arg for x in a.posonlyargs + a.args]
        args = tuple(sym(f"_p{i}") for i in range(len(ps)))
        keep = self.frames, self.ctx, len(self.events)
        self.frames, self.ctx = list(frames), ctx
        try:
            s = st.copy()
            v = self.apply(f, args, (), s, fr, n, closure=(fr, env))
            out = []
            for e in self.events[keep[2]:]:
                if e.kind in ("set", "mut") and not _inside(e.a[0]) or e.kind in ("raise", "del") or (e.kind == "call" and id(e.node) in self.stmt_calls):
                    pc = e.pc[len(st.pc):] if e.pc[:len(st.pc)] == st.pc else e.pc
                    xs = [e.a[0].a[0]] if e.kind == "raise" and e.a and isinstance(e.a[0], T) and e.a[0].op == "call" else e.a
                    out.append(mk("effect", e.kind, land(*pc), *[self.deep(x, s) if isinstance(x, T) else x for x in xs]))
            v = self.deep(v, s)
            if s.pc != st.pc:
                out.append(mk("effect", "end", land(*s.pc)))
            self.lams[t] = (len(ps), mk("effects", v, *out) if out else v)
        except (RecursionError, Limits):
            return None
        finally:
            self.frames, self.ctx = keep[:2]
            del self.events[keep[2]:]
        return self.lams[t]

    def content(self, t, st):
        """container content of a value"""
        if t.op == "obj":
            return st.heap.get(t, t)
        if t in st.store:
            return st.store[t]
        return t

    def new_obj(self, node, st, content, kind, of=()):
        o = mk("obj", self.ctx + of, self.nid(node), kind)
        self.alloc_loops.setdefault(o, frozenset(r.lid for f in self.frames for r in f.loops))
        st.heap[o] = content
        self.alloc[o] = node
        return o

    # ------------------------------------------------------------------ joins
    def suffix(self, pc, n):
        return self.close(pc[n:])

    def close(self, lits):
        """Conjunction of literals; loop markers become existential quantifiers."""
        for i, l in enumerate(lits):
            if l.op == "iter":
                inner = self.close(lits[i + 1:])
                q = mk("any", l.a[0], l.a[1], inner) if inner is not TRUE else nonempty(l.a[1])
                return land(*lits[:i], q)
        return land(*lits)

    def common(self, pcs):
        n = 0
        m = min(len(p) for p in pcs)
        while n < m and all(p[n] is pcs[0][n] for p in pcs):
            n += 1
        return n

    def join(self, states):
        states = [s for s in states if s is not None]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        n = self.common([s.pc for s in states])
        conds = [self.suffix(s.pc, n) for s in states]
        out = states[-1].copy()
        split = []
        parts = [set(conjuncts(c)) for c in conds]
        for i in range(len(conds) - 1):
            # what tells this state from all later ones is enough
            l = [x for x in conjuncts(conds[i]) if all(lnot(x) in q for q in parts[i + 1:])]
            split.append(l[0] if l else conds[i])

        def merge(vals):
            v = vals[-1]
            for c, x in zip(reversed(split), reversed(vals[:-1])):
                v = ite(c, x, v)
            return v

        depth = min(len(s.stack) for s in states)
        for i in range(depth):
            names = []
            for s in states:
                for k in s.stack[i][1]:
                    if k not in names:
                        names.append(k)
            env = out.stack[i][1]
            for k in names:
                vals = [s.stack[i][1].get(k, UNDEF) for s in states]
                dv = [v for v in vals if v is not UNDEF]
                if all(v is dv[0] for v in dv[1:]):
                    # a name bound on some paths only: wherever it is used it has that value
                    env[k] = dv[0] if dv else UNDEF
                else:
                    env[k] = merge([v if v is not UNDEF else dv[0] for v in vals])
        objs = []
        for s in states:
            for k in s.heap:
                if k not in objs:
                    objs.append(k)
        for k in objs:
            vals = [s.heap.get(k, UNDEF) for s in states]
            if all(v is vals[0] for v in vals):
                out.heap[k] = vals[0]
            else:
                dv = [v for v in vals if v is not UNDEF]
                out.heap[k] = merge([v if v is not UNDEF else dv[0] for v in vals])
        locs = []
        for s in states:
            for k in s.store:
                if k not in locs:
                    locs.append(k)
        for k in locs:
            vals = [s.store.get(k, k) if not (isinstance(k, tuple)) else s.store.get(k) for s in states]
            if all(v is vals[0] for v in vals):
                out.store[k] = vals[0]
            elif isinstance(k, tuple):
                out.store[k] = next(v for v in vals if v is not None)
            else:
                out.store[k] = merge(vals)
        d = lor(*conds)
        pre = states[0].pc[:n]
        out.pc = pre if d is TRUE else pre + tuple(conjuncts(d))
        return out

    def merge_returns(self, fr, pc0):
        if not fr.returns:
            return UNDEF
        n = len(pc0)
        vals = [(self.suffix(s.pc, n), v) for s, v in fr.returns]
        # returns are recorded in execution order; earlier returns are exclusive of later ones
        v = vals[-1][1]
        for c, x in reversed(vals[:-1]):
            v = self.merge_val(c, x, v)
        return v

    def merge_val(self, c, x, y):
        if x.op == "tuple" and y.op == "tuple" and len(x.a) == len(y.a):
            return mk("tuple", *[self.merge_val(c, p, q) for p, q in zip(x.a, y.a)])
        return ite(c, x, y)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st, fr)
        return st

    def stmt(self, n, st, fr):
        self.tick()
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            return st
        return m(n, st, fr)

    def s_Expr(self, n, st, fr):
        self.stmt_calls.add(id(n.value))
        self.ev(n.value, st, fr)
        return st

    def s_Assign(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        for t in n.targets:
            self.assign(t, v, st, fr, n)
        return st

    def s_AnnAssign(self, n, st, fr):
        if n.value is not None:
            v = self.ev(n.value, st, fr)
            self.assign(n.target, v, st, fr, n)
            c = self.ann_class(fr.func.mod, n.annotation)
            if c is not None and v.op not in ("const", "obj", "tuple") and v not in self.types:
                self.types[v] = c
        return st

    OPS = {
        ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
        ast.Pow: "**", ast.MatMult: "@", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^",
        ast.LShift: "<<", ast.RShift: ">>",
    }

    def s_AugAssign(self, n, st, fr):
        load = ast.copy_location(_as_load(n.target), n)
        old = self.ev(load, st, fr)
        rhs = self.ev(n.value, st, fr)
        op = self.OPS[type(n.op)]
        c = self.content(old, st)
        if op == "+" and (old.op == "obj" or c.op in ("list", "append", "extend", "collect")):
            loc = self.ev_loc(load, st, fr)
            self.mutate(loc, "extend", (rhs,), st, fr, n, target=n.target)
            return st
        self.assign(n.target, binop(op, old, rhs), st, fr, n, aug=(op, rhs))
        return st

    def assign(self, t, v, st, fr, n, aug=None):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            k = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.as_tuple(v, st)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    hi = NONE if i == k - 1 else const(i - k + 1)
                    if items is not None:
                        val = mk("list", *items[i: len(items) - (k - 1 - i)])
                    else:
                        val = self.sub(v, mk("slice", const(i) if i else NONE, hi, NONE), st)
                    self.assign(e.value, val, st, fr, n)
                elif star and i > star[0]:
                    self.assign(e, items[i - k] if items is not None else self.sub(v, const(i - k), st), st, fr, n)
                else:
                    if items is not None and i < len(items):
                        val = items[i]
                    else:
                        val = self.sub(v, const(i), st)
                    self.assign(e, val, st, fr, n)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fr)
            loc = attr(base, t.attr)
            st.store[loc] = v
            self.emit("set", st, (loc, v), n, base=base, key=t.attr, aug=aug)
        elif isinstance(t, ast.Subscript):
            bl = self.ev_loc(t.value, st, fr)
            idx = self.ev(t.slice, st, fr)
            base = self.content(bl, st)
            loc = mk("sub", bl, idx)
            if bl.op == "obj":
                if occurs(v, bl):
                    v = subst(v, {bl: base})
                was = mk("sub", bl, idx)
                for _, e in st.stack:
                    for k, x in e.items():
                        # what was read there before keeps its value
                        if x.op != "obj" and occurs(x, was):
                            e[k] = subst(x, {was: mk("sub", base, idx)})
                st.heap[bl] = put_item(base, idx, v)
            elif self.chain_root(bl) is not None:
                self.write_through(bl, put_item(self.inside(bl, st), idx, v), st)
            elif isinstance(t.value, ast.Name) and bl.op not in ("sym", "attr", "sub", "elem"):
                self.set_name(t.value.id, put_item(bl, idx, v), st, fr)
            elif bl.op == "elem" and isinstance(t.value, ast.Subscript) and isinstance(t.value.value, ast.Name) and self.allocated(bl.a[0]):
                self.set_name(t.value.value.id, put_item(bl.a[0], mk("tuple", mk("pos", bl.a[1]), idx), v), st, fr)
            elif bl.op == "sub" and isinstance(t.value, ast.Subscript) and isinstance(t.value.value, ast.Name) and self.allocated(bl.a[0]):
                self.set_name(t.value.value.id, put_item(bl.a[0], mk("tuple", bl.a[1], idx), v), st, fr)
            else:
                st.store[loc] = v
            self.emit("set", st, (loc, v), n, base=bl, key=idx, aug=aug)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr, n)

    def allocated(self, t):
        """an array made here: its rows are written in place"""
        while t.op in ("mu", "dictmap", "setitem"):
            t = self.mu_init.get(t) if t.op == "mu" else t.a[0]
            if t is None:
                return False
        return t.op == "call" and t.a[0].op == "ref" and t.a[0].a[0] in ARRAYS

    def set_name(self, name, v, st, fr):
        g = getattr(fr, "nonlocals", None)
        if g and name in g:
            for f, e in reversed(st.stack[:-1]):
                if name in e:
                    e[name] = v
                    return
        st.env[name] = v

    def s_Nonlocal(self, n, st, fr):
        if not hasattr(fr, "nonlocals"):
            fr.nonlocals = set()
        fr.nonlocals.update(n.names)
        return st

    s_Global = s_Nonlocal

    def s_Delete(self, n, st, fr):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                bl = self.ev_loc(t.value, st, fr)
                idx = self.ev(t.slice, st, fr)
                self.emit("del", st, (mk("sub", bl, idx),), n)
                if bl.op == "obj":
                    st.heap[bl] = mk("delitem", self.content(bl, st), idx)
        return st

    def s_Return(self, n, st, fr):
        v = self.ev(n.value, st, fr) if n.value is not None else NONE
        self.emit("return", st, (v,), n, depth=len(self.frames))
        fr.returns.append((st, v))
        return None

    def s_Raise(self, n, st, fr):
        v = self.ev(n.exc, st, fr) if n.exc is not None else NONE
        self.emit("raise", st, (v,), n)
        fr.raises.append(st.pc)
        return None

    def test(self, n, st, fr):
        """a condition, as it is at this point"""
        v = self.ev(n, st, fr)
        return truth(self.deep(v, st) if hasop(v, "obj") else v)

    def s_Assert(self, n, st, fr):
        c = self.test(n.test, st, fr)
        self.emit("assert", st, (c,), n)
        if c is FALSE:
            fr.raises.append(st.pc)
            return None
        # an assert is not recorded in the path condition: rules see it as an event
        return st

    def s_Pass(self, n, st, fr):
        return st

    def s_Break(self, n, st, fr):
        if fr.loops:
            fr.loops[-1].breaks.append(st)
            self.emit("break", st, (), n, loop=fr.loops[-1].lid)
        return None

    def s_Continue(self, n, st, fr):
        if fr.loops:
            fr.loops[-1].continues.append(st)
        return None

    def s_Import(self, n, st, fr):
        for name, q in import_bindings(fr.func.mod, n):
            if name == "*":
                continue
            e = self.repo.resolve_dotted(q)
            st.env[name] = self.entity(e, q)
        return st

    s_ImportFrom = s_Import

    def entity(self, e, q=None):
        if isinstance(e, Func):
            return ref(e.full)
        if isinstance(e, Class):
            return ref("class " + e.full)
        if isinstance(e, Module):
            return ref("module " + e.name)
        if isinstance(e, tuple) and e[0] == "ext":
            return ref(norm_ext(e[1]))
        if isinstance(e, tuple) and e[0] == "const":
            v = self.const_value(e[1].consts[e[2]], e[1])
            if v is not None and (e[1].name, e[2]) not in self.repo.rebound():
                return v
            return ref(f"{e[1].name}:{e[2]}")
        return ref(q or "?")

    def const_value(self, v, mod):
        """value of a module constant that is written out: numbers, strings, tuples of them, patterns"""
        if isinstance(v, ast.Constant):
            return const(v.value)
        if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub) and isinstance(v.operand, ast.Constant) and not isinstance(v.operand.value, bool):
            return neg(const(v.operand.value))
        if isinstance(v, ast.Tuple):
            es = [self.const_value(x, mod) for x in v.elts]
            return None if None in es else mk("tuple", *es)
        if isinstance(v, ast.Call) and not v.keywords and isinstance(v.func, (ast.Name, ast.Attribute)):
            r = self.repo.resolve_expr(mod, ast.unparse(v.func))
            es = [self.const_value(x, mod) for x in v.args]
            if r == ("ext", "re.compile") and None not in es:
                return mk("call", ref("re.compile"), tuple(es), ())
        return None

    def s_FunctionDef(self, n, st, fr):
        t = mk("closure", self.ctx, self.nid(n))
        f = Func(fr.func.mod, fr.func.qual + ".<locals>." + n.name, n, None)
        self.closures[t] = (f, fr, dict(st.env), st.copy(), n, tuple(self.frames), self.ctx)
        st.env[n.name] = t
        return st

    def s_ClassDef(self, n, st, fr):
        ms = []
        for b in n.body:
            if isinstance(b, ast.FunctionDef) and b.name != "__init__":
                t = mk("closure", self.ctx, self.nid(b))
                f = Func(fr.func.mod, fr.func.qual + ".<locals>." + n.name + "." + b.name, b, None)
                self.closures[t] = (f, fr, dict(st.env), st.copy(), b, tuple(self.frames), self.ctx)
                ms.append((b.name, t))
        st.env[n.name] = mk("localclass", tuple(self.ev(b, st, fr) for b in n.bases), tuple(sorted(ms, key=lambda x: x[0])))
        return st

    def s_If(self, n, st, fr):
        c = self.test(n.test, st, fr)
        if c is TRUE:
            return self.block(n.body, st, fr)
        if c is FALSE:
            return self.block(n.orelse, st, fr)
        s1, s2 = st.copy(), st
        base = st.pc
        s1.pc = base + tuple(conjuncts(c))
        s2.pc = base + tuple(conjuncts(lnot(c)))
        e1 = self.block(n.body, s1, fr) if not self.refuted(s1.pc, len(base)) else None
        e2 = self.block(n.orelse, s2, fr) if not self.refuted(s2.pc, len(base)) else None
        return self.join([e1, e2])

    def refuted(self, pc, n):
        """new literals contradict the existing path condition syntactically"""
        old = set(pc[:n])
        return any(lnot(l) in old for l in pc[n:]) and not any(l.op in ("iter",) for l in pc[n:])

    def s_With(self, n, st, fr):
        for it in n.items:
            v = self.ev(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr, n)
        return self.block(n.body, st, fr)

    def s_Try(self, n, st, fr):
        pre = st.copy()
        body = self.block(n.body, st, fr)
        if body is not None:
            body = self.block(n.orelse, body, fr)
        outs = [body]
        for i, h in enumerate(n.handlers):
            s = pre.copy()
            ty = self.ev(h.type, s, fr) if h.type is not None else ref("builtins.BaseException")
            s.pc = s.pc + (mk("exc", self.nid(n), i, ty),)
            if h.name:
                s.env[h.name] = mk("excval", self.nid(n), i)
            outs.append(self.block(h.body, s, fr))
        if body is not None and n.handlers:
            body.pc = body.pc + (mk("noexc", self.nid(n)),)
        out = self.join(outs)
        if out is not None:
            # drop the exception markers after the statement
            out.pc = tuple(l for l in out.pc if not (l.op in ("noexc",) and l.a[0] == self.nid(n)) and not (l.op == "or" and any(x.op == "noexc" for x in l.a)))
        if n.finalbody:
            if out is None:
                s = pre.copy()
                self.block(n.finalbody, s, fr)
            else:
                out = self.block(n.finalbody, out, fr)
        return out

    def s_Match(self, n, st, fr):
        subj = self.ev(n.subject, st, fr)
        outs = []
        cur = st
        for c in n.cases:
            s = cur.copy()
            cond = self.pattern(c.pattern, subj, s, fr)
            if c.guard is not None:
                cond = land(cond, truth(self.ev(c.guard, s, fr)))
            nxt = cur.copy()
            s.pc = cur.pc + tuple(conjuncts(cond))
            outs.append(self.block(c.body, s, fr) if cond is not FALSE else None)
            if cond is TRUE:
                cur = None
                break
            nxt.pc = cur.pc + tuple(conjuncts(lnot(cond)))
            cur = nxt
        if cur is not None:
            outs.append(cur)
        return self.join(outs)

    def pattern(self, p, subj, st, fr):
        if isinstance(p, ast.MatchValue):
            return cmp("==", subj, self.ev(p.value, st, fr))
        if isinstance(p, ast.MatchSingleton):
            return cmp("is", subj, const(p.value))
        if isinstance(p, ast.MatchAs):
            c = TRUE if p.pattern is None else self.pattern(p.pattern, subj, st, fr)
            if p.name:
                st.env[p.name] = subj
            return c
        if isinstance(p, ast.MatchOr):
            return lor(*[self.pattern(q, subj, st, fr) for q in p.patterns])
        if isinstance(p, ast.MatchClass):
            cs = [mk("isinst", subj, self.ev(p.cls, st, fr))]
            for k, q in zip(p.kwd_attrs, p.kwd_patterns):
                cs.append(self.pattern(q, attr(subj, k), st, fr))
            for i, q in enumerate(p.patterns):
                cs.append(self.pattern(q, mk("matcharg", subj, i), st, fr))
            return land(*cs)
        if isinstance(p, ast.MatchSequence):
            cs = [cmp("==", mk("call", ref("builtins.len"), (subj,), ()), const(len(p.patterns)))]
            for i, q in enumerate(p.patterns):
                if not isinstance(q, ast.MatchStar):
                    cs.append(self.pattern(q, self.sub(subj, const(i), st), st, fr))
            return land(*cs)
        return mk("matches", subj, ast.dump(p))

    # ------------------------------------------------------------------ loops
    def s_For(self, n, st, fr):
        it = self.ev(n.iter, st, fr)
        return self.loop(n, st, fr, it, n.target, n.body, n.orelse)

    s_AsyncFor = s_For

    def head_tested(self, n):
        """`while True: if c: break; ...` is `while not c: ...`"""
        if not (isinstance(n.test, ast.Constant) and n.test.value and len(n.body) > 1 and not n.orelse):
            return n
        f = n.body[0]
        if not (isinstance(f, ast.If) and not f.orelse and len(f.body) == 1 and isinstance(f.body[0], ast.Break)):
            return n
        k = ("head", self.nid(n))
        if k not in self.nestnodes:
            self.nestnodes[k] = ast.copy_location(ast.While(test=ast.copy_location(ast.UnaryOp(ast.Not(), f.test), f.test), body=n.body[1:], orelse=[]), n)
            ast.fix_missing_locations(self.nestnodes[k])
        return self.nestnodes[k]

    def s_While(self, n, st, fr):
        n = self.head_tested(n)
        q = worklist(n)
        if q is not None and q[0] in st.env and not n.orelse:
            # `while q: x = q.pop()` over a list nothing is put into is a loop over its items
            name, last, at = q
            obj = st.env[name]
            c = self.content(obj, st)
            if obj.op == "obj" and c.op in ("collect", "list", "conv"):
                k = ("drain", self.nid(n))
                if k not in self.nestnodes:
                    f = ast.For(target=n.body[at].targets[0], iter=TermExpr(), body=n.body[:at] + n.body[at + 1:] or [ast.Pass()], orelse=[])
                    ast.copy_location(f, n)
                    self.nestnodes[k] = f
                f = self.nestnodes[k]
                mark = (len(self.events), len(fr.returns), len(fr.raises))
                loops = dict(self.loopids)
                s2 = st.copy()
                m2 = self.mute
                self.drained.append([obj, False])
                try:
                    out = self.loop(f, s2, fr, rev(c) if last else c, f.target, f.body, [])
                    clean = not self.drained[-1][1]
                finally:
                    self.drained.pop()
                    self.mute = m2
                if clean:
                    if out is not None:
                        out.heap[obj] = mk("list") if not self.loops.get(self.loop_id(f), {}).get("breaks") else mk("rest", c)
                    return out
                del self.events[mark[0]:], fr.returns[mark[1]:], fr.raises[mark[2]:]
                for l in self.loopids.values():
                    if l > len(loops):
                        self.loops.pop(l, None)
                self.loopids = loops
        return self.loop(n, st, fr, None, None, n.body, n.orelse, test=n.test)

    def iter_bind(self, it, L, st):
        """-> (element term, iterable term for the marker, extra condition)"""
        # unwrap conversions that preserve elements and their order
        back = False
        while True:
            c = self.content(it, st)
            if it.op == "conv" and it.a[0] in ("list", "tuple", "iter", "copy", "deepcopy", "array", "tolist"):
                it = it.a[1]
            elif c.op == "conv" and c.a[0] in ("list", "tuple", "copy"):
                it = c.a[1]
            elif c.op == "conv" and c.a[0] == "reversed":
                it, back = c.a[1], not back
            else:
                break
        if back:
            if c.op == "collect" and empty_seq(c.a[0]) and c.a[4].op != "splat":
                _, L1, it1, cond, item = c.a
                r1 = rev(it1)

                def f(x):
                    if x.op == "elem" and x.a[1] == L1:
                        return mk("elem", rev(x.a[0]), L)
                    if x.op == "pos" and x.a[0] == L1:
                        return mk("elem", r1, L) if it1.op == "range" else add(call_len(it1), add(mk("pos", L), const(1)), -1)
                    return None

                return rewrite(item, f), r1, rewrite(cond, f)
            x = rev(self.deep(it, st))
            return mk("elem", x, L), x, TRUE
        if c.op == "collect" and c.a[0].op in ("list",) and len(c.a[0].a) == 0 and c.a[4].op != "splat":
            _, L1, it1, cond, item = c.a
            m = lambda x: self.reloop(x, L1, L)
            return m(item), it1, m(cond)
        if c.op == "range":
            lo, hi, step = c.a
            if lo is const(0) and step is const(1):
                if hi.op == "call" and hi.a[0] is ref("builtins.len") and len(hi.a[1]) == 1:
                    # positions of a sequence: the same loop as over its items
                    x = sequence(strip(self.deep(hi.a[1][0], st)))
                    if x.op == "range" and x.a[0] is const(0) and x.a[2] is const(1):
                        # as many as the items it was collected from
                        return mk("pos", L), x, TRUE
                    if x.op not in ("mu", "range"):
                        return mk("pos", L), x, TRUE
                return mk("pos", L), c, TRUE
            return mk("elem", c, L), c, TRUE
        if c.op == "call":
            f, args = c.a[0], c.a[1]
            if f is ref("builtins.enumerate") and len(args) >= 1:
                e, i, cond = self.iter_bind(args[0], L, st)
                if cond is not TRUE:
                    i = strip(self.deep(args[0], st))
                    e, cond = mk("elem", i, L), TRUE
                if cond is TRUE:
                    p = mk("pos", L)
                    if len(args) == 2 or c.a[2]:
                        start = args[1] if len(args) == 2 else c.a[2][0][1]
                        p = add(p, start)
                    return mk("tuple", p, e), i, TRUE
            if f is ref("builtins.zip"):
                if len(args) == 1 and args[0].op == "star":
                    return mk("elem", c, L), c, TRUE
                es = [self.iter_bind(a, L, st) for a in args]
                if es and all(e[2] is es[0][2] and (e[1] is es[0][1] or same_len(e[1], es[0][1])) for e in es):
                    # sequences built side by side
                    return mk("tuple", *[e[0] for e in es]), es[0][1], es[0][2]
                if all(e[2] is TRUE for e in es):
                    i = es[0][1] if len(es) == 1 else mk("zipit", *[e[1] for e in es])
                    return mk("tuple", *[e[0] for e in es]), i, TRUE
            if f is ref("tqdm.tqdm") and args:
                return self.iter_bind(args[0], L, st)
            if f is ref("itertools.product") and not c.a[2] and args and not any(a.op == "star" for a in args):
                return mk("elem", c, L), c, TRUE
            if f.op == "attr" and not args:
                d = f.a[0]
                if f.a[1] == "items":
                    k = mk("elem", d, L)
                    return mk("tuple", k, self.sub(d, k, st)), d, TRUE
                if f.a[1] == "keys":
                    return mk("elem", d, L), d, TRUE
                if f.a[1] == "values":
                    return self.sub(d, mk("elem", d, L), st), d, TRUE
                if f.a[1] == "copy":
                    return self.iter_bind(d, L, st)
        return mk("elem", self.deep(it, st), L), self.deep(it, st), TRUE

    def reloop(self, t, L1, L2):
        return reloop(t, L1, L2)

    def literal(self, it, st):
        """items of a sequence written out in full"""
        c = strip(self.content(strip(it), st))
        if c.op in ("list", "tuple") and 0 < len(c.a) <= 8 and not any(x.op in ("star", "splat") for x in c.a):
            return c.a
        return None

    def nested(self, it, st):
        """a container built by two nested loops: (outer loop, its iterable, condition, inner container)"""
        c = strip(self.content(strip(it), st))
        if c.op == "collect" and empty_seq(c.a[0]) and c.a[4].op == "splat":
            i = strip(self.content(strip(c.a[4].a[0]), st))
            if i.op == "collect" and empty_seq(i.a[0]):
                return c.a[1], c.a[2], c.a[3], i
        return None

    def unroll(self, n, st, fr, items, target, body, orelse):
        ctx = self.ctx
        for k, v in enumerate(items):
            self.ctx = ctx + (("round", self.nid(n), k),) if k else ctx
            try:
                self.assign(target, v, st, fr, n)
                st = self.block(body, st, fr)
            finally:
                self.ctx = ctx
            if st is None:
                return None
        return self.block(orelse, st, fr) if orelse else st

    def nest(self, n, st, fr, spec, target, body):
        k = ("nest", self.nid(n))
        if k not in self.nestnodes:
            inner = ast.For(target=target, iter=TermExpr(), body=body, orelse=[])
            test = TermExpr()
            outer = ast.For(target=None, iter=TermExpr(), body=[inner], orelse=[])
            guard = ast.If(test=test, body=[inner], orelse=[])
            for x in (inner, outer, guard):
                ast.copy_location(x, n)
            self.nestnodes[k] = (inner, outer, guard)
        inner, outer, guard = self.nestnodes[k]
        L1, it1, cond, i = spec
        L = self.loop_id(outer)
        inner.iter.term = reloop(i, L1, L)
        guard.test.term = reloop(cond, L1, L)
        return self.loop(outer, st, fr, it1, None, [inner] if cond is TRUE else [guard], [])

    def loop(self, n, st, fr, it, target, body, orelse, test=None):
        L = self.loop_id(n)
        extra = TRUE
        elem = None
        if it is not None:
            if target is not None and not leaves_loop(body, ast.Break):
                items = self.literal(it, st)
                if items is not None and not leaves_loop(body, ast.Continue):
                    return self.unroll(n, st, fr, items, target, body, orelse)
                spec = self.nested(it, st)
                if spec is not None and not orelse:
                    return self.nest(n, st, fr, spec, target, body)
            elem, itm, extra = self.iter_bind(it, L, st)
        else:
            itm = mk("whileloop", L)
        self.loops[L] = {"it": itm, "func": self.frames[-1].func, "line": n.lineno, "kind": "for" if it is not None else "while", "breaks": [], "node": n, "parents": self.around(st)}
        pre = st
        stored = assigned_names(body, False)
        assigned = {k for k in assigned_names(body) if k not in st.env or st.env[k].op != "obj" or k in stored}
        assigned |= target_names(target) if target is not None else set()
        induct = {}

        wide = {}  # tuples carried round the loop: one loop variable per component

        def header(s, changed_objs, changed_locs, names):
            for k in names:
                if k in s.env and k in wide:
                    part = []
                    for i, x in enumerate(s.env[k].a):
                        mu = mk("mu", L, f"{k}.{i}")
                        self.mu_init[mu] = x
                        part.append(mu)
                    s.env[k] = mk("tuple", *part)
                elif k in s.env and k not in induct:
                    mu = mk("mu", L, k)
                    self.mu_init[mu] = s.env[k]
                    s.env[k] = mu
            for o in changed_objs:
                if o in s.heap:
                    mu = mk("mu", L, o)
                    self.mu_init[mu] = s.heap[o]
                    s.heap[o] = mu
            for l in changed_locs:
                if isinstance(l, tuple):
                    continue
                mu = mk("mu", L, l)
                self.mu_init[mu] = s.store.get(l, l)
                s.store[l] = mu
            for k, v in induct.items():
                s.env[k] = v

        def once(s):
            rec = LoopRec(L)
            fr.loops.append(rec)
            base = s.pc
            try:
                s.pc = s.pc + (mk("iter", L, itm),)
                if extra is not TRUE:
                    s.pc = s.pc + tuple(conjuncts(extra))
                if target is not None:
                    self.assign(target, elem, s, fr, n)
                if test is not None:
                    c = self.test(test, s, fr)
                    rec.test = c
                    rec.going = self.deep(self.drop_induct(c, induct), s)
                    if c is not TRUE:
                        c2 = self.drop_induct(c, induct)
                        if c2 is not TRUE:
                            s.pc = s.pc + tuple(conjuncts(c2))
                end = self.block(body, s, fr)
            finally:
                fr.loops.pop()
            return end, rec, base

        names = sorted(k for k in assigned if k in pre.env and (target is None or k not in target_names(target)))
        # lists and dictionaries are assumed to stay the same object until an iteration says otherwise
        same = [k for k in names if pre.env[k].op == "obj"]
        names = [k for k in names if k not in same]
        # probe
        for _ in range(4 + len(same)):
            self.mute += 1
            nret, nrai = len(fr.returns), len(fr.raises)
            s = pre.copy()
            header(s, [], [], names)
            h0, t0 = dict(s.heap), dict(s.store)
            end, rec, base = once(s)
            self.mute -= 1
            # a flag every iteration leaves as it was before the loop is that constant throughout
            ends = [e for e in [end] + rec.continues + rec.breaks if e is not None]
            still = [k for k in names if pre.env[k].op == "const" and ends and all(
                e.env.get(k) is pre.env[k] or e.env.get(k) is mk("mu", L, k) for e in ends)]
            other = [k for k in same if any(e.env.get(k) is not pre.env[k] for e in ends)]
            # written by a function it is passed to
            other += [k for k in pre.env if k not in names and k not in same and k not in assigned and any(e.env.get(k) is not pre.env[k] for e in ends)]
            hit = {x for e in ends for l, v in e.store.items() if isinstance(l, T) and l.op in ("sym", "sub") and v is not t0.get(l) for x in (l, *l.a[:1])}
            other += [k for k, v in pre.env.items() if (v.op == "sym" or v.op == "sub" and v.a[0].op == "call") and v in hit and k not in names and k not in same and k not in assigned]
            if not still and not other:
                break
            same = [k for k in same if k not in other]
            names = sorted([k for k in names if k not in still] + other)
            del fr.returns[nret:], fr.raises[nrai:]
        ends = [e for e in [end] + rec.continues + rec.breaks if e is not None]
        for k in names:
            v = pre.env[k]
            if v.op == "tuple" and v.a and not any(x.op in ("splat", "star") for x in v.a) and ends and all(
                    k in e.env and parts_of(e.env[k], mk("mu", L, k), len(v.a)) for e in ends):
                wide[k] = len(v.a)
        objs, locs = [], []
        retst = [r[0] for r in fr.returns[nret:]]
        del fr.returns[nret:]
        del fr.raises[nrai:]
        for e in ends:
            for o, v in e.heap.items():
                if o in h0 and v is not h0[o] and o not in objs:
                    objs.append(o)
            for l, v in e.store.items():
                if v is not t0.get(l) and l not in locs and not self.keyed_by(l, L):
                    locs.append(l)
        # induction variables of while loops
        if test is not None and ends:
            for k in names:
                mu = mk("mu", L, k)
                vals = {e.env.get(k) for e in ends if e not in rec.breaks}
                if len(vals) == 1:
                    v = next(iter(vals))
                    if v is not None and v is not mu and v.op == "lin" and len(v.a[0]) == 1 and v.a[0][0] == (mu, 1):
                        step = const(v.a[1])
                        hi = None
                        for c in conjuncts(getattr(rec, "test", TRUE)):
                            if c.op == "cmp" and c.a[0] == "<" and c.a[1] is mu and not occurs(c.a[2], mu):
                                hi = c.a[2]
                            elif c.op == "cmp" and c.a[0] == "<" and c.a[1] is const(0) and c.a[2].op == "lin" and (mu, -1) in c.a[2].a[0]:
                                up = add(c.a[2], mu)
                                if not occurs(up, mu):
                                    hi = up
                        if hi is not None:
                            rng = mk("range", self.mu_init[mu], hi, step)
                            if self.mu_init[mu] is const(0) and v.a[1] == 1 and hi.op == "call" and hi.a[0] is ref("builtins.len") and len(hi.a[1]) == 1:
                                x = sequence(strip(self.deep(hi.a[1][0], pre)))
                                if x.op not in ("mu", "range"):
                                    rng = x
                            induct[k] = mk("pos", L) if (self.mu_init[mu] is const(0) and v.a[1] == 1) else mk("elem", rng, L)
                            itm = rng
                            self.loops[L]["it"] = itm
        s = pre.copy()
        header(s, objs, locs, names)
        h1, t1, e1 = dict(s.heap), dict(s.store), dict(s.env)
        end, rec, base = once(s)
        self.loops[L]["going"] = getattr(rec, "going", TRUE)
        ends = [e for e in [end] + rec.continues + rec.breaks if e is not None]
        for b in rec.breaks:
            self.loops[L]["breaks"].append(self.deep(self.close(b.pc[len(base) + 1:]), b))
        out = pre.copy()
        if not ends:
            # every iteration leaves the function; the zero-iteration state continues
            if orelse:
                return self.block(orelse, out, fr)
            if test is not None and isinstance(test, ast.Constant) and test.value:
                return None
            return out
        nx = self.join(ends)
        cnd0 = len(base) + 1

        def step(mu, nxt):
            return nxt if extra is TRUE or nxt is UNDEF else ite(extra, nxt, mu)

        def finish(init, mu, nxt):
            return self.fold(L, itm, init, mu, nxt)

        def final(init, v):
            return mk("last", init, L, itm if extra is TRUE else mk("filtered", itm, extra), v)

        for k in names:
            if k in induct:
                out.env[k] = mk("last", pre.env[k], L, itm, induct[k])
                continue
            if k in wide:
                part = []
                for i, x in enumerate(pre.env[k].a):
                    mu = mk("mu", L, f"{k}.{i}")
                    nxt = step(mu, component(nx.env.get(k, UNDEF), i))
                    self.mu_next[mu] = nxt
                    self.mu_state[mu] = nx
                    part.append(finish(x, mu, nxt))
                out.env[k] = mk("tuple", *part)
                continue
            mu = mk("mu", L, k)
            nxt = step(mu, nx.env.get(k, UNDEF))
            self.mu_next[mu] = nxt
            self.mu_state[mu] = nx
            out.env[k] = finish(pre.env[k], mu, nxt)
        for k, v in nx.env.items():
            if k not in pre.env:
                out.env[k] = v if v is UNDEF else final(UNDEF, v)
        if target is not None:
            for k in target_names(target):
                v = nx.env.get(k)
                if v is not None:
                    out.env[k] = final(pre.env.get(k, UNDEF), v)
        for o in objs:
            mu = mk("mu", L, o)
            self.mu_next[mu] = step(mu, nx.heap.get(o, UNDEF))
            self.mu_state[mu] = nx
            out.heap[o] = finish(pre.heap[o], mu, self.mu_next[mu])
        for o, v in nx.heap.items():
            if o not in pre.heap:
                out.heap[o] = v
        for l in locs:
            if isinstance(l, tuple):
                continue
            mu = mk("mu", L, l)
            self.mu_next[mu] = step(mu, nx.store.get(l, l))
            self.mu_state[mu] = nx
            out.store[l] = finish(pre.store.get(l, l), mu, self.mu_next[mu])
        for l, v in nx.store.items():
            if l not in pre.store and l not in locs:
                if self.keyed_by(l, L):
                    out.store[("q", L, itm, l)] = self.deep(v, nx)
                elif isinstance(l, tuple):
                    out.store[l] = v
                else:
                    out.store[l] = final(l, v)
            elif l in pre.store and v is not pre.store[l] and l not in locs and not isinstance(l, tuple) and self.keyed_by(l, L):
                out.store[("q", L, itm, l)] = self.deep(v, nx)
        if orelse:
            if rec.breaks:
                o2 = out.copy()
                o2.pc = o2.pc + (mk("nobreak", L),)
                o1 = out.copy()
                o1.pc = o1.pc + (lnot(mk("nobreak", L)),)
                e2 = self.block(orelse, o2, fr)
                return self.join([o1, e2])
            return self.block(orelse, out, fr)
        if test is not None and isinstance(test, ast.Constant) and test.value and not rec.breaks:
            return None
        return out

    def drop_induct(self, c, induct):
        if not induct:
            return c
        keep = []
        for l in conjuncts(c):
            if l.op == "cmp" and l.a[0] == "<" and l.a[1] in induct.values():
                continue
            keep.append(l)
        return land(*keep)

    def keyed_by(self, loc, L):
        if isinstance(loc, tuple):
            return False
        return itemof(loc, L)

    def fold(self, L, itm, init, mu, nxt):
        if nxt is mu:
            return init
        if nxt is UNDEF:
            return init
        if not occurs(nxt, mu):
            if nxt is init:
                return init
            return mk("last", init, L, itm, nxt)
        r = self._fold1(L, itm, init, mu, nxt, TRUE)
        if r is not None:
            return r
        return mk("fold", "gen", init, L, itm, nxt)

    def _fold1(self, L, itm, init, mu, nxt, cond):
        def clean(*xs):
            return not any(occurs(x, mu) for x in xs)

        if nxt.op == "ite":
            c, x, y = nxt.a
            if y is mu and clean(c) and x.op == "const" and init.op == "const" and {x.a[0], init.a[0]} == {True, False} and type(x.a[0]) is type(init.a[0]) is bool:
                q = mk("any", L, itm, land(cond, c))
                return q if x.a[0] else lnot(q)
            if y is mu and clean(c):
                return self._fold1(L, itm, init, mu, x, land(cond, c))
            if x is mu and clean(c):
                return self._fold1(L, itm, init, mu, y, land(cond, lnot(c)))
            if clean(c):
                a = self._fold1(L, itm, init, mu, x, land(cond, c))
                b = self._fold1(L, itm, a, mu, y, land(cond, lnot(c))) if a is not None else None
                return b
            if x.op in ("true",):
                return None
            return None
        if nxt.op in ("min", "max") and mu in nxt.a:
            rest = [x for x in nxt.a if x is not mu]
            if clean(*rest):
                return mk("fold", nxt.op, init, L, itm, cond, (tmin if nxt.op == "min" else tmax)(*rest))
        if nxt.op == "lin":
            d = dict(nxt.a[0])
            if d.get(mu) == 1:
                rest = mk_lin({k: v for k, v in d.items() if k is not mu}, nxt.a[1])
                if clean(rest):
                    return mk("fold", "+", init, L, itm, cond, rest)
        if nxt.op == "concat" and nxt.a[0] is mu and clean(*nxt.a[1:]):
            return mk("collect", init, L, itm, cond, mk("splat", nxt.a[1] if len(nxt.a) == 2 else mk("concat", *nxt.a[1:])))
        if nxt.op == "or" and mu in nxt.a:
            rest = lor(*[x for x in nxt.a if x is not mu])
            if clean(rest):
                q = mk("any", L, itm, land(cond, rest))
                return lor(init, q) if init.op in BOOLOPS + ("const",) else mk("or", init, q)
        if nxt.op == "and" and mu in nxt.a:
            rest = land(*[x for x in nxt.a if x is not mu])
            if clean(rest):
                q = lnot(mk("any", L, itm, land(cond, lnot(rest))))
                return land(init, q)
        if nxt.op == "setitem" and nxt.a[0] is mu and nxt.a[1].op == "elem" and nxt.a[1].a[1] == L and strip(nxt.a[1].a[0]) is strip(init):
            # every turn writes the entry of its own key
            v = subst(nxt.a[2], {mk("sub", mu, nxt.a[1]): mk("sub", init, nxt.a[1])})
            nxt = mk("setitem", mu, nxt.a[1], v)
        chain = []
        cur = nxt
        while cur is not mu:
            if cur.op == "append" and clean(cur.a[1]):
                chain.append(("a", cur.a[1], TRUE))
                cur = cur.a[0]
            elif cur.op == "extend" and clean(cur.a[1]):
                chain.append(("a", mk("splat", cur.a[1]), TRUE))
                cur = cur.a[0]
            elif cur.op == "collect" and clean(*cur.a[2:]):
                chain.append(("a", mk("splat", mk("collect", mk("list"), *cur.a[1:])), TRUE))
                cur = cur.a[0]
            elif cur.op == "setitem" and clean(cur.a[1], cur.a[2]):
                chain.append(("s", cur.a[1], cur.a[2], TRUE))
                cur = cur.a[0]
            elif cur.op == "ite" and clean(cur.a[0]):
                # one side adds on top of the other
                c, x, y = cur.a
                done = False
                for p, q, cc in ((x, y, c), (y, x, lnot(c))):
                    if p.op in ("append", "extend") and p.a[0] is q and clean(p.a[1]):
                        chain.append(("a", p.a[1] if p.op == "append" else mk("splat", p.a[1]), cc))
                        cur = q
                        done = True
                        break
                    if p.op == "setitem" and p.a[0] is q and clean(p.a[1], p.a[2]):
                        chain.append(("s", p.a[1], p.a[2], cc))
                        cur = q
                        done = True
                        break
                if not done:
                    return None
            else:
                return None
        acc = init
        for e in reversed(chain):
            if e[0] == "a":
                acc = mk("collect", acc, L, itm, land(cond, e[2]), e[1])
            else:
                acc = mk("dictmap", acc, L, itm, land(cond, e[3]), e[1], e[2])
        return acc

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st, fr):
        self.tick()
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return mk("opaque", type(n).__name__, self.nid(n))
        return m(n, st, fr)

    def ev_loc(self, n, st, fr):
        """Evaluate a receiver as a location (no final read of the abstract store)."""
        if isinstance(n, ast.Attribute):
            b = self.ev(n.value, st, fr)
            if b.op == "new":
                v = self.attr_of(b, n.attr, st)
                if v.op == "obj":
                    return v
            return self.attr_of(b, n.attr, st, read=False)
        if isinstance(n, ast.Subscript):
            b = self.ev_loc(n.value, st, fr)
            i = self.ev(n.slice, st, fr)
            if b.op == "obj" or self.content(b, st) is not b:
                v = self.sub(b, i, st)
                if v.op == "obj":
                    return v
                if b.op == "obj":
                    return v if v.op in ("obj",) else mk("sub", b, i)
            v = self.sub(b, i, st)
            return v if v.op == "obj" else mk("sub", b, i) if v.op not in ("elem",) else v
        return self.ev(n, st, fr)

    def e_TermExpr(self, n, st, fr):
        return n.term

    def e_Constant(self, n, st, fr):
        return const(n.value)

    def e_Name(self, n, st, fr):
        return self.name(n.id, st, fr)

    def name(self, id, st, fr):
        if id in st.env:
            return st.env[id]
        cl = fr.closure
        while cl is not None:
            dfr, snap = cl
            for f, e in reversed(st.stack):
                if f is dfr:
                    if id in e:
                        return e[id]
                    break
            else:
                if id in snap:
                    return snap[id]
            cl = dfr.closure
        r = self.repo.resolve(fr.func.mod, id)
        if isinstance(r, tuple) and r[0] == "const" and fr.func.mod.frozen:
            r = ("const", self.repo.as_frozen(r[1]), r[2])
        if r is not None:
            return self.entity(r, f"{fr.func.mod.name}:{id}")
        if id in BUILTINS:
            return ref("builtins." + id)
        return ref("global." + id)

    def attr_of(self, b, name, st, read=True):
        if b.op == "ref":
            q = b.a[0]
            if q.startswith("module "):
                r = self.repo.resolve(self.repo.modules[q[7:]], name)
                if r is None and f"{q[7:]}.{name}" in self.repo.modules:
                    r = self.repo.modules[f"{q[7:]}.{name}"]
                if r is not None:
                    return self.entity(r, f"{q[7:]}:{name}")
                return ref(f"{q[7:]}.{name}")
            if q.startswith("class "):
                c = self.repo.cls(q[6:])
                if c.is_enum:
                    self.enums.add(c.full)
                f = self.repo.find_method(c, name)
                if f is not None:
                    return ref(f.full)
                return attr(b, name)
            if ":" not in q:
                return ref(norm_ext(q + "." + name))
            return attr(b, name)
        if b.op == "new":
            c = self.repo.cls(b.a[0])
            kw = dict(b.a[1])
            if name in kw and (c.dataclass or self.init_copies(c, name)):
                l = attr(b, name)
                return st.store.get(l, kw[name]) if read else l
        loc = attr(b, name)
        if read:
            v = self.read(loc, st)
            if v is not None:
                return v
            if loc in self.assume:
                return self.assume[loc]
        return loc

    def init_copies(self, c, name):
        """__init__ stores parameter `name` unchanged in attribute `name`"""
        f = self.repo.find_method(c, "__init__")
        if f is None:
            return False
        hits = 0
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == "self":
                        if isinstance(x.value, ast.Name) and x.value.id == name:
                            hits += 1
                        else:
                            return False
        return hits == 1

    def read(self, loc, st):
        if loc in st.store:
            return st.store[loc]
        for k, v in reversed(list(st.store.items())):
            if isinstance(k, tuple) and k[0] == "q":
                _, L, itm, pat = k
                m = self.unify(pat, loc, L)
                if m is not None:
                    return subst(v, m) if m else v
        return None

    def unify(self, pat, loc, L):
        """match a loop-keyed location pattern against a location; binds elem/pos of loop L"""
        m = {}

        def go(p, q):
            if p is q and not self.keyed_by(p, L):
                return True
            if (p.op == "elem" and p.a[1] == L) or (p.op == "pos" and p.a[0] == L):
                if p.op == "elem" and q.op not in ("elem", "sym", "attr", "sub", "const"):
                    return False
                if p in m:
                    return m[p] is q
                m[p] = q
                return True
            if p.op != q.op or len(p.a) != len(q.a):
                return False
            for x, y in zip(p.a, q.a):
                if isinstance(x, T) and isinstance(y, T):
                    if not go(x, y):
                        return False
                elif x != y:
                    return False
            return True

        return m if go(pat, loc) else None

    def e_Attribute(self, n, st, fr):
        b = self.ev(n.value, st, fr)
        return self.attr_of(b, n.attr, st)

    def e_Subscript(self, n, st, fr):
        b = self.ev_loc(n.value, st, fr) if isinstance(n.value, (ast.Attribute, ast.Subscript)) else self.ev(n.value, st, fr)
        i = self.ev(n.slice, st, fr)
        # a read through a symbolic location: value stored at that very location wins
        l = mk("sub", b, i)
        v = self.read(l, st)
        if v is not None:
            return v
        bv = b
        if b.op in ("attr", "sub"):
            r = self.read(b, st)
            if r is not None:
                bv = r
                v = self.read(mk("sub", bv, i), st)
                if v is not None:
                    return v
            elif b.op == "sub" and b.a[1].op == "pos":
                bv = self.sub(b.a[0], b.a[1], st)  # the item at the loop's position
        return self.sub(bv, i, st)

    def e_Slice(self, n, st, fr):
        lo = self.ev(n.lower, st, fr) if n.lower else NONE
        hi = self.ev(n.upper, st, fr) if n.upper else NONE
        sp = self.ev(n.step, st, fr) if n.step else NONE
        if lo is const(0):
            lo = NONE
        if sp is const(1):
            sp = NONE
        return mk("slice", lo, hi, sp)

    def e_Index(self, n, st, fr):  # pragma: no cover (old ast)
        return self.ev(n.value, st, fr)

    def sub(self, b, i, st):
        c = self.content(b, st)
        r = self._sub(c, i, st, 0)
        if r is not None:
            return r
        if i.op == "pos":
            return mk("elem", strip(self.deep(b, st)), i.a[0])
        return mk("sub", b, i)

    def _sub(self, c, i, st, d):
        if d > 30:
            return None
        if i.op == "slice" and i.a[0] is NONE and i.a[1] is NONE and i.a[2] is const(-1):
            return rev(c)
        if c.op in ("tuple", "list"):
            if i.op == "const" and isinstance(i.a[0], int):
                try:
                    return c.a[i.a[0]]
                except IndexError:
                    return None
            if i.op == "slice" and all(x is NONE or (x.op == "const" and isinstance(x.a[0], int)) for x in i.a):
                return mk(c.op, *c.a[slice(*[x.a[0] for x in i.a])])
            return None
        if c.op == "lin" and i.op == "const" and isinstance(i.a[0], int) and all(k.op == "conv" and k.a[0] in ("array", "asarray") for k, _ in c.a[0]):
            r = const(c.a[1])
            for k, v in c.a[0]:
                x = self._subv(k, i, st, d + 1)
                if x is None:
                    return None
                r = add(r, mul(const(v), x))
            return r
        if c.op == "const" and isinstance(c.a[0], (str, tuple)) and i.op == "const":
            try:
                return const(c.a[0][i.a[0]])
            except Exception:
                return None
        if c.op == "ite":
            x = self._subv(c.a[1], i, st, d + 1)
            y = self._subv(c.a[2], i, st, d + 1)
            if x is not None and y is not None:
                return ite(c.a[0], x, y)
            return None
        if c.op == "dict":
            for k, v in c.a:
                if k is i:
                    return v
            return None
        if c.op == "setitem":
            if c.a[1] is i:
                return _unold(c.a[2], c.a[0], i)
            if c.a[1].op == "const" and i.op == "const":
                return self._subv(c.a[0], i, st, d + 1)
            return None
        if c.op == "dictmap":
            init, L, it, cond, k, v = c.a
            if k.op == "elem" and k.a[1] == L:
                if i.op == "elem" or i.op in ("sym", "attr", "sub"):
                    m = {k: i}
                    v = _unold(v, init, i)
                    if i.op == "elem":
                        return self.reloop(subst(v, m), L, i.a[1])
                    return subst(v, m)
            return None
        if c.op == "collect" and i.op == "pos":
            init, L, it, cond, item = c.a
            if cond is TRUE and init.op == "list" and not init.a and item.op != "splat":
                return self.reloop(item, L, i.a[0])
        if c.op == "conv" and c.a[0] in ("list", "tuple", "array", "copy", "deepcopy", "tolist", "asarray"):
            return self._subv(c.a[1], i, st, d + 1)
        return None

    def _subv(self, x, i, st, d):
        r = self._sub(self.content(x, st), i, st, d)
        if r is None and x.op in ("sym", "attr", "sub", "elem", "call", "mu", "last"):
            if i.op == "pos":
                return mk("elem", strip(self.deep(x, st)), i.a[0])
            return mk("sub", x, i)
        return r

    def as_tuple(self, v, st):
        c = self.content(v, st)
        if c.op in ("tuple", "list") and not any(x.op in ("star", "splat") for x in c.a):
            return list(c.a)
        if c.op == "conv" and c.a[0] in ("tuple", "list"):
            return self.as_tuple(c.a[1], st)
        if c.op == "const" and isinstance(c.a[0], tuple):
            return [const(x) for x in c.a[0]]
        if c.op == "ite":
            x, y = self.as_tuple(c.a[1], st), self.as_tuple(c.a[2], st)
            if x is not None and y is not None and len(x) == len(y):
                return [ite(c.a[0], p, q) for p, q in zip(x, y)]
        if c.op == "collect" and c.a[0].op == "list":
            return None
        return None

    def deep(self, t, st, d=0, memo=None):
        """replace container identities by their content"""
        heap = st.heap if isinstance(st, State) else st
        memo = {}

        def f(x, depth):
            if x in memo:
                return memo[x]
            if depth > 200:
                return x
            memo[x] = x
            if x.op == "obj":
                c = heap.get(x)
                r = f(c, depth + 1) if c is not None and c is not x else x
            elif x.op in ("const", "sym", "ref", "mu"):
                r = x
            else:
                na = tuple(_m(y, lambda z: f(z, depth + 1)) for y in x.a)
                r = x if na == x.a else rebuild(x, na)
            memo[x] = r
            return r

        def _m(y, g):
            if isinstance(y, T):
                return g(y)
            if isinstance(y, tuple):
                return tuple(_m(z, g) for z in y)
            return y

        if not hasop(t, "obj"):
            return t
        return f(t, 0)

    def e_BinOp(self, n, st, fr):
        a = self.ev(n.left, st, fr)
        b = self.ev(n.right, st, fr)
        op = self.OPS[type(n.op)]
        if op == "%" and a.op == "const" and isinstance(a.a[0], str):
            return mk("concat", a, mk("fmt", b))
        if op == "+" and (a.op == "obj" or b.op == "obj"):
            ca, cb = self.content(a, st), self.content(b, st)
            if ca.op == "list" and cb.op == "list":
                return self.new_obj(n, st, mk("list", *(ca.a + cb.a)), "list")
            return self.new_obj(n, st, mk("extend", ca, cb), "list")
        if op == "*" and (a.op == "obj" or b.op == "obj"):
            return mk("bin", "*", a, b)
        return binop(op, a, b)

    def e_UnaryOp(self, n, st, fr):
        v = self.ev(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return lnot(truth(v))
        if isinstance(n.op, ast.USub):
            return neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        return mk("un", "~", v)

    def e_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)
        base = st.pc
        vals = []
        for i, v in enumerate(n.values):
            x = self.ev(v, st, fr)
            vals.append(x)
            if i < len(n.values) - 1:
                t = truth(x)
                st.pc = st.pc + tuple(conjuncts(t if isand else lnot(t)))
        st.pc = base
        if all(self.boolish(v) for v in vals):
            return (land if isand else lor)(*[truth(v) for v in vals])
        # value semantics: a or b -> ite(a, a, b)
        acc = vals[-1]
        for v in reversed(vals[:-1]):
            if self.boolish(v) and self.boolish(acc):
                acc = land(truth(v), truth(acc)) if isand else lor(truth(v), truth(acc))
            else:
                acc = mk("andv" if isand else "orv", v, acc) if not self.boolish(v) else ite(truth(v), acc if isand else TRUE, FALSE if isand else acc)
        return acc

    def boolish(self, t):
        return t.op in BOOLOPS or t.op in ("nonempty", "call", "attr", "sym", "elem", "sub", "mu", "last", "fold", "andv", "orv", "ite", "nobreak") or (t.op == "const" and isinstance(t.a[0], bool))

    CMP = {
        ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=",
        ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in",
    }

    def e_Compare(self, n, st, fr):
        l = self.ev(n.left, st, fr)
        out = []
        for op, r in zip(n.ops, n.comparators):
            rv = self.ev(r, st, fr)
            o = self.CMP[type(op)]
            a, b = l, rv
            if o in ("==", "!=") and (a.op == "obj" or b.op == "obj"):
                a, b = self.content(a, st), self.content(b, st)
            if o in ("in", "not in"):
                cb = self.content(b, st)
                if cb.op in ("list", "tuple", "set"):
                    b = mk("tuple", *cb.a)
                elif b.op == "call" and b.a[0].op == "attr" and b.a[0].a[1] == "keys":
                    b = b.a[0].a[0]
                elif b.op == "conv" and b.a[0] in ("list", "set", "tuple"):
                    b = b.a[1]
            out.append(cmp(o, a, b))
            l = rv
        return truth(land(*out)) if len(out) > 1 else truth(out[0])

    def e_IfExp(self, n, st, fr):
        c = self.test(n.test, st, fr)
        base = st.pc
        if c is TRUE:
            return self.ev(n.body, st, fr)
        if c is FALSE:
            return self.ev(n.orelse, st, fr)
        s1 = st.copy()
        s1.pc = base + tuple(conjuncts(c))
        x = self.ev(n.body, s1, fr)
        s2 = st.copy()
        s2.pc = base + tuple(conjuncts(lnot(c)))
        y = self.ev(n.orelse, s2, fr)
        j = self.join([s1, s2])
        st.become(j)
        return ite(c, x, y)

    def e_NamedExpr(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        self.assign(n.target, v, st, fr, n)
        return v

    def e_Tuple(self, n, st, fr):
        return mk("tuple", *self.elts(n.elts, st, fr))

    def elts(self, es, st, fr):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st, fr)
                t = self.as_tuple(v, st)
                if t is not None:
                    out.extend(t)
                else:
                    out.append(mk("star", v))
            else:
                out.append(self.ev(e, st, fr))
        return out

    def e_List(self, n, st, fr):
        return self.new_obj(n, st, mk("list", *self.elts(n.elts, st, fr)), "list")

    def e_Set(self, n, st, fr):
        return self.new_obj(n, st, mk("set", *self.elts(n.elts, st, fr)), "set")

    def e_Dict(self, n, st, fr):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                items.append((mk("star"), self.ev(v, st, fr)))
            else:
                items.append((self.ev(k, st, fr), self.ev(v, st, fr)))
        return self.new_obj(n, st, mk("dict", *items), "dict")

    def e_JoinedStr(self, n, st, fr):
        acc = const("")
        for v in n.values:
            x = self.ev(v, st, fr)
            acc = add(acc, x)
        return acc

    def e_FormattedValue(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        if v.op == "const" and isinstance(v.a[0], str):
            return v
        return v

    def e_Starred(self, n, st, fr):
        return mk("star", self.ev(n.value, st, fr))

    def e_Lambda(self, n, st, fr):
        t = mk("closure", self.ctx, self.nid(n))
        f = Func(fr.func.mod, fr.func.qual + ".<lambda>", n, None)
        self.closures[t] = (f, fr, dict(st.env), st.copy(), n, tuple(self.frames), self.ctx)
        return t

    def e_Yield(self, n, st, fr):
        v = self.ev(n.value, st, fr) if n.value is not None else NONE
        if fr.gen is not None:
            st.heap[fr.gen] = mk("append", st.heap[fr.gen], v)
        self.emit("yield", st, (v,), n)
        return NONE

    def e_YieldFrom(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        if fr.gen is not None:
            st.heap[fr.gen] = mk("extend", st.heap[fr.gen], v)
        return NONE

    def e_Await(self, n, st, fr):
        return self.ev(n.value, st, fr)

    # comprehensions: nested loops collecting into a fresh object
    def comp(self, n, st, fr, leaf, kind):
        saved = dict(st.env)
        base = st.pc
        loops = []

        def go(gi):
            if gi == len(n.generators):
                return leaf(st)
            g = n.generators[gi]
            L = self.loop_id(g.iter)
            it = self.ev(g.iter, st, fr)
            spec = self.nested(it, st)
            if spec is not None:
                L1, it1, c1, it = spec
                c1, it = reloop(c1, L1, L), reloop(it, L1, L)
                st.pc = st.pc + (mk("iter", L, it1),) + tuple(conjuncts(c1))
                loops.append((L, it1, c1))
                L = self.loop_id(g)
            elem, itm, extra = self.iter_bind(it, L, st)
            self.loops[L] = {"it": itm, "func": self.frames[-1].func, "line": n.lineno, "kind": "comp", "breaks": [], "node": n, "parents": self.around(st)}
            st.pc = st.pc + (mk("iter", L, itm),)
            if extra is not TRUE:
                st.pc = st.pc + tuple(conjuncts(extra))
            self.assign(g.target, elem, st, fr, n)
            cond = extra
            for f in g.ifs:
                c = self.test(f, st, fr)
                cond = land(cond, c)
                st.pc = st.pc + tuple(conjuncts(c))
            loops.append((L, itm, cond))
            return go(gi + 1)

        res = go(0)
        st.stack[-1] = (st.stack[-1][0], saved)
        st.pc = base
        return loops, res

    def e_ListComp(self, n, st, fr, kind="list"):
        if len(n.generators) == 1 and not n.generators[0].ifs:
            items = self.literal(self.ev(n.generators[0].iter, st, fr), st)
            if items is not None:
                saved, out = dict(st.env), []
                for v in items:
                    self.assign(n.generators[0].target, v, st, fr, n)
                    out.append(self.ev(n.elt, st, fr))
                st.stack[-1] = (st.stack[-1][0], saved)
                return self.new_obj(n, st, mk("list", *out), kind)
        loops, item = self.comp(n, st, fr, lambda s: self.ev(n.elt, s, fr), kind)
        empty = mk("list")
        cur = item
        for i, (L, itm, cond) in enumerate(reversed(loops)):
            c = mk("collect", empty, L, itm, cond, cur if i == 0 else mk("splat", cur))
            cur = c
        return self.new_obj(n, st, cur, kind)

    def e_GeneratorExp(self, n, st, fr):
        return self.e_ListComp(n, st, fr, "gen")

    def e_SetComp(self, n, st, fr):
        return self.e_ListComp(n, st, fr, "set")

    def e_DictComp(self, n, st, fr):
        loops, kv = self.comp(n, st, fr, lambda s: (self.ev(n.key, s, fr), self.ev(n.value, s, fr)), "dict")
        k, v = kv
        if len(loops) == 1:
            L, itm, cond = loops[0]
            c = mk("dictmap", mk("dict"), L, itm, cond, k, v)
        else:
            c = mk("dictmap", mk("dict"), loops[-1][0], mk("tuple", *[l[1] for l in loops]), land(*[l[2] for l in loops]), k, v)
        return self.new_obj(n, st, c, "dict")

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, st, fr):
        f = n.func
        recv = None
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                recv = sym("self") if "self" in st.env and st.env["self"] is sym("self") else st.env.get("self", sym("self"))
                ft = mk("attr", mk("super", recv), f.attr)
                base_cls = self.lexical_class(fr)
                if base_cls is not None:
                    for b in base_cls.bases:
                        r = self.repo.resolve_expr(base_cls.mod, b)
                        if isinstance(r, Class):
                            m = self.repo.find_method(r, f.attr)
                            if m is not None:
                                ft = mk("bound", ref(m.full), recv)
                                break
            else:
                recv = self.ev_loc(f.value, st, fr) if f.attr in MUTATORS else self.ev(f.value, st, fr)
                ft = self.attr_of(recv, f.attr, st, read=False)
                if ft.op == "attr":
                    v = st.store.get(ft)
                    if v is not None and v.op in ("closure", "ref", "bound"):
                        ft = v
        else:
            ft = self.ev(f, st, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                t = self.as_tuple(v, st)
                if t is not None:
                    args.extend(t)
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.ev(a, st, fr))
        kw = []
        for k in n.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                c = self.content(v, st)
                if c.op == "dict" and all(kk.op == "const" for kk, _ in c.a):
                    kw.extend((kk.a[0], vv) for kk, vv in c.a)
                else:
                    kw.append(("**", v))
            else:
                kw.append((k.arg, v))
        return self.call(ft, tuple(args), tuple(kw), st, fr, n, recv)

    def lexical_class(self, fr):
        f = fr.func
        if f.cls is not None:
            return f.cls
        return None

    def call(self, ft, args, kw, st, fr, n, recv=None):
        # --- closures
        if ft.op == "closure" and ft in self.closures:
            cf, dfr, snap = self.closures[ft][:3]
            return self.apply(cf, args, kw, st, fr, n, closure=(dfr, snap))
        if ft.op == "ite":
            # a choice of callables
            base = st.pc
            s1, s2 = st.copy(), st.copy()
            s1.pc = base + tuple(conjuncts(ft.a[0]))
            s2.pc = base + tuple(conjuncts(lnot(ft.a[0])))
            x = self.call(ft.a[1], args, kw, s1, fr, n, recv)
            y = self.call(ft.a[2], args, kw, s2, fr, n, recv)
            st.become(self.join([s1, s2]))
            st.pc = base
            return self.merge_val(ft.a[0], x, y)
        if ft.op == "bound":
            m = self.repo_func(ft.a[0])
            return self.call_repo(m, (ft.a[1],) + args if not m.static else args, kw, st, fr, n, True)
        if ft.op == "ref":
            q = ft.a[0]
            if q.startswith("class "):
                return self.construct(self.repo.cls(q[6:]), args, kw, st, fr, n)
            if ":" in q and not q.startswith("module "):
                m = self.repo_func(ft)
                if m is not None:
                    return self.call_repo(m, args, kw, st, fr, n, False)
            r = self.known_ext(q, args, kw, st, fr, n)
            if r is not None:
                return r
            t = mk("call", ft, args, tuple(sorted(kw, key=lambda p: p[0])))
            self.emit("call", st, (t,), n, f=ft, args=args, kw=dict(kw))
            return t
        if ft.op == "attr":
            base, name = ft.a
            c = self.typeof(base)
            m = None
            if isinstance(c, Class):
                m = self.repo.find_method(c, name)
            if m is None and name not in COMMON and base.op not in ("const", "obj"):
                cands = self.repo.method_index.get(name, [])
                if len(cands) == 1:
                    m = cands[0]
                elif cands:
                    self.unresolved.add(name)
            if m is not None:
                return self.call_repo(m, (base,) + args if not m.static else args, kw, st, fr, n, True)
            if name in MUTATORS:
                return self.mutate(base, name, args, st, fr, n, kw=kw, target=n.func.value if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) else None)
            r = self.known_method(base, name, args, kw, st, fr, n)
            if r is not None:
                return r
        t = mk("call", ft, args, tuple(sorted(kw, key=lambda p: p[0])))
        self.emit("call", st, (t,), n, f=ft, args=args, kw=dict(kw), recv=recv)
        return t

    def repo_func(self, r):
        q = r.a[0]
        mn, qual = q.split(":")
        m = self.repo.modules.get(mn)
        if m is None:
            return None
        if qual in m.funcs:
            return m.funcs[qual]
        if "." in qual:
            cq, fn = qual.rsplit(".", 1)
            c = m.classes.get(cq)
            if c is not None:
                return c.methods.get(fn)
        return None

    def should_inline(self, f):
        if f.full in self.opaque or f.qual in self.opaque or f.name in self.opaque:
            return False
        if callable(self.inline):
            if self.inline(f):
                return True
        elif f.full in self.inline or f.qual in self.inline or f.name in self.inline:
            return True
        if self.known is not None and (f.full not in self.known or f.full in self.repo.changed):
            return True
        return False

    def call_repo(self, m, args, kw, st, fr, n, method):
        if not method and m.cls is not None and not m.static and not m.classmethod:
            pass  # Class.method(obj, ...) form: first arg is self already
        if m.classmethod:
            args = (ref("class " + m.cls.full),) + (args[1:] if method else args)
        if self.is_spec and m.full in self.repo.ghosts:
            m = self.repo.ghosts[m.full]
        depth = len(self.frames)
        if self.should_inline(m) and depth < self.max_depth and all(f.func is not m for f in self.frames):
            self.emit("enter", st, (ref(m.full),), n, f=ref(m.full), func=m, args=args, kw=dict(kw))
            return self.apply(m, args, kw, st, fr, n)
        b = self.bind(m, args, kw, st)
        if b is not None:
            t = mk("call", ref(m.full), (), tuple(sorted(b.items())))
        else:
            t = mk("call", ref(m.full), args, tuple(sorted(kw, key=lambda p: p[0])))
        self.emit("call", st, (t,), n, f=ref(m.full), func=m, args=args, kw=dict(kw), bound=b)
        return t

    def bind(self, m, args, kw, st):
        a = m.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        at = [i for i, x in enumerate(args) if x.op == "star"]
        if len(at) == 1 and not a.vararg:
            # f(*xs) fills the parameters that have no other value
            i, given = at[0], {k for k, _ in kw}
            req = [x for x in names[: len(names) - len(a.defaults)] if x not in given][len(args) - 1:]
            xs = args[i].a[0]
            t = self.as_tuple(xs, st)
            args = args[:i] + (tuple(t) if t is not None else tuple(self.sub(xs, const(j), st) for j in range(len(req)))) + args[i + 1:]
        if any(x.op == "star" for x in args) or any(k == "**" for k, _ in kw):
            return None
        for i, v in enumerate(args):
            if i < len(names):
                out[names[i]] = v
            elif a.vararg:
                out[a.vararg.arg] = mk("tuple", *args[i:])
                break
            else:
                return None
        for k, v in kw:
            out[k] = v
        for x, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults)]:
            if x not in out and isinstance(d, ast.Constant):
                out[x] = const(d.value)
        return out

    def construct(self, c, args, kw, st, fr, n):
        if c.is_enum and len(args) == 1:
            return mk("call", ref("class " + c.full), args, ())
        names = None
        init = self.repo.find_method(c, "__init__")
        if init is not None:
            a = init.node.args
            names = [x.arg for x in (a.posonlyargs + a.args)[1:]]
        elif c.dataclass:
            names = c.fields
        if names is not None and fr.func.mod.frozen:
            names = self.repo.frozen_fields(c, init) or names
        if names is not None and not any(x.op == "star" for x in args) and len(args) <= len(names) and not any(k == "**" for k, _ in kw):
            d = dict(zip(names, args))
            d.update(dict(kw))
            if init is None:
                for x in c.fields:
                    e = None if x in d else fresh_default(c.attrs.get(x))
                    if e is not None:
                        d[x] = self.new_obj(n, st, mk(e), e, (("field", x),))
            t = mk("new", c.full, tuple(sorted(d.items())))
        else:
            t = mk("new", c.full, tuple([(str(i), x) for i, x in enumerate(args)] + sorted(kw, key=lambda p: p[0])))
        self.emit("call", st, (t,), n, f=ref("class " + c.full), args=args, kw=dict(kw), cls=c, bound=dict(t.a[1]))
        return t

    def apply(self, func, args, kw, st, fr, n, closure=None):
        if len(self.frames) >= self.max_depth + 4 or sum(1 for f in self.frames if f.func.node is func.node) >= 1:
            t = mk("call", ref(func.full), args, tuple(sorted(kw, key=lambda p: p[0])))
            self.emit("call", st, (t,), n, f=ref(func.full), func=func, args=args, kw=dict(kw))
            return t
        node = func.node
        a = node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        rest = list(args)
        for i, name in enumerate(pos):
            if rest:
                if rest[0].op == "star":
                    env[name] = self.sub(rest[0].a[0], const(i), st)
                    continue
                env[name] = rest.pop(0)
        if a.vararg:
            env[a.vararg.arg] = mk("tuple", *rest)
        kws = dict(kw)
        for k, v in kws.items():
            if k != "**" and (k in pos or any(x.arg == k for x in a.kwonlyargs)):
                env[k] = v
        if a.kwarg:
            extra = [(const(k), v) for k, v in kws.items() if k not in env]
            env[a.kwarg.arg] = mk("dict", *extra)
        nf = Frame(func, closure)
        defaults = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
            (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None
        ]
        for name, d in defaults:
            if name not in env:
                env[name] = self.ev(d, st, fr if closure else nf) if isinstance(d, (ast.Constant, ast.Name, ast.UnaryOp, ast.Attribute)) else self.ev(d, st, nf)
        for i, x in enumerate(a.posonlyargs + a.args + a.kwonlyargs):
            if x.arg not in env:
                env[x.arg] = mk("missing", x.arg)
            v = env[x.arg]
            if x.annotation is not None and v not in self.types and v.op in ("sym", "attr", "sub", "elem", "call", "mu"):
                c = self.ann_class(func.mod, x.annotation)
                if c is not None:
                    self.types[v] = c
            if i == 0 and func.cls is not None and not func.static and v not in self.types and v.op not in ("const", "obj", "tuple"):
                self.types[v] = func.cls
        self.inlined.add(func.full)
        handed = self.handed(n, args, kw, env, st, func)
        octx = self.ctx
        self.ctx = octx + (self.nid(n),)
        self.frames.append(nf)
        st.stack.append((nf, env))
        pc0 = st.pc
        try:
            body = node.body if not isinstance(node, ast.Lambda) else None
            if body is None:
                v = self.ev(node.body, st, nf)
                nf.returns.append((st, v))
            else:
                if is_generator(node):
                    nf.gen = mk("obj", self.ctx, self.nid(node), "gen")
                    st.heap[nf.gen] = mk("list")
                s = st.copy()
                end = self.block(body, s, nf)
                if end is not None:
                    nf.returns.append((end, NONE))
        finally:
            self.ctx = octx
            self.frames.pop()
        if not nf.returns:
            # never returns normally
            st.stack.pop()
            fr.raises.append(pc0)
            st.pc = pc0 + (FALSE,)
            return UNDEF
        v = self.merge_returns(nf, pc0)
        out = self.join([s for s, _ in nf.returns]) if len(nf.returns) > 1 else nf.returns[0][0]
        if nf.gen is not None:
            v = nf.gen
        last = out.stack.pop()[1]
        for name, given in handed:
            # a value the callee wrote items of, known to the caller by a name of its own
            v2 = last.get(name)
            if v2 is not None and v2 is not given[1]:
                e = out.stack[-1][1]
                if e.get(given[0]) is given[1]:
                    e[given[0]] = v2
        # path condition: the callee may have raised
        if nf.raises:
            conds = [self.close(p[len(pc0):]) for p in nf.raises]
            out.pc = pc0 + tuple(conjuncts(lnot(lor(*conds))))
            fr.raises.extend(nf.raises)
        else:
            out.pc = pc0
        st.become(out)
        return v

    def handed(self, n, args, kw, env, st, func):
        """parameters the callee never rebinds, with the caller's name for what is passed"""
        if not isinstance(n, ast.Call) or not st.stack or isinstance(func.node, ast.Lambda) or any(isinstance(x, ast.Starred) for x in n.args):
            return []
        up = st.stack[-1][1]
        pos = [x.arg for x in func.node.args.posonlyargs + func.node.args.args]
        pairs = list(zip(reversed(pos[:len(args)]), reversed(n.args))) if len(args) <= len(pos) else []
        pairs += [(k.arg, k.value) for k in n.keywords if k.arg]
        out = []
        for p, e in pairs:
            if isinstance(e, ast.Name) and e.id in up and env.get(p) is up[e.id] and up[e.id].op not in ("obj", "const", "sym", "attr", "sub", "elem"):
                out.append((p, (e.id, up[e.id])))
        if out:
            stored = {x.id for x in ast.walk(func.node) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}
            out = [x for x in out if x[0] not in stored]
        return out

    # ------------------------------------------------------------------ mutation of containers
    def chain_root(self, loc):
        """the known object that `loc` (an item of an item of ... it) lies in"""
        while loc.op == "sub":
            loc = loc.a[0]
        return loc if loc.op == "obj" else None

    def inside(self, loc, st):
        """content of a location inside a known object, in terms of what was there before (OLD)"""
        if loc.op == "obj":
            return self.content(loc, st)
        p = self.inside(loc.a[0], st)
        r = self._sub(p, loc.a[1], st, 0) if p is not OLD else None
        if r is None or r.op == "sub" or r is p:
            return OLD
        return self.content(r, st)

    def write_through(self, loc, new, st):
        if loc.op == "obj":
            st.heap[loc] = new
            return
        up = self.inside(loc.a[0], st)
        old = self._sub(up, loc.a[1], st, 0) if up is not OLD else None
        if old is not None and old.op == "obj":
            st.heap[old] = new
            return
        self.write_through(loc.a[0], put_item(up, loc.a[1], new), st)

    def mutate(self, base, name, args, st, fr, n, kw=(), target=None):
        c = before = self.content(base, st)
        ret = NONE
        chained = base.op == "sub" and self.chain_root(base) is not None
        if chained:
            # a container stored inside a known one: written in terms of what was there before
            c = self.inside(base, st)
        if name in ("append", "add", "appendleft") and len(args) == 1:
            new = mk("append", c, args[0])
            if c.op == "list" and name == "append":
                new = mk("list", *(c.a + (args[0],)))
        elif name in ("extend",) and len(args) == 1:
            e = self.content(args[0], st)
            if c.op == "list" and e.op == "list":
                new = mk("list", *(c.a + e.a))
            elif e.op == "list":
                new = c
                for x in e.a:
                    new = mk("append", new, x)
            elif e.op == "collect" and e.a[0].op == "list" and not e.a[0].a:
                new = mk("extend", c, e)
            else:
                new = mk("extend", c, args[0])
        elif name == "update" and len(args) == 1:
            e = self.content(args[0], st)
            if e.op == "dict":
                new = c
                for k, v in e.a:
                    new = put_item(new, k, v)
            elif e.op == "dictmap" and e.a[0].op == "dict" and not e.a[0].a:
                new = mk("dictmap", c, *e.a[1:])
            else:
                new = mk("updated", c, args[0])
        elif name == "setdefault" and len(args) == 2:
            ret = mk("sub", base, args[0])
            new = mk("setdefault", c, args[0], args[1])
        elif name in ("pop", "popleft"):
            ret = mk("popped", base if base.op != "obj" else c, mk("tuple", *args))
            if c.op not in ("list", "append", "extend", "collect", "mu"):
                cc = c
            new = mk("pop", c, mk("tuple", *args))
        elif name == "reverse" and not args:
            new = rev(c)
        else:
            new = mk("mut", name, c, mk("tuple", *args))
        if base.op == "obj":
            args = tuple(subst(x, {base: before}) if x.op != "obj" and occurs(x, base) else x for x in args)
        for d in self.drained:
            if d[0] is base:
                d[1] = True
        self.emit("mut", st, (base, const(name)) + tuple(args), n, base=base, name=name, args=args, kw=dict(kw), before=before)
        if base.op == "obj":
            st.heap[base] = new
        elif base.op in ("attr", "sub", "sym", "elem", "popped"):
            # write-through for a container stored inside a known object
            if chained:
                self.write_through(base, new, st)
            else:
                st.store[base] = new
        elif isinstance(target, ast.Name):
            self.set_name(target.id, new, st, fr)
        return ret

    # ------------------------------------------------------------------ library knowledge
    def known_ext(self, q, args, kw, st, fr, n):
        kwd = dict(kw)
        k = len(args)
        if q in ("builtins.min", "numpy.minimum", "builtins.max", "numpy.maximum") and k >= 2 and not kw:
            return (tmin if "min" in q else tmax)(*args)
        if q in ("builtins.min", "numpy.min", "numpy.amin", "numpy.minimum.reduce") and k >= 1 and "key" not in kwd:
            return mk("minover", self.deep(args[0], st))
        if q in ("builtins.max", "numpy.max", "numpy.amax", "numpy.maximum.reduce") and k >= 1 and "key" not in kwd:
            return mk("maxover", self.deep(args[0], st))
        if q in ARITH and k == 2 and not kw and not any(self.content(x, st).op in ("list", "tuple", "append", "extend", "collect") for x in args):
            return binop(ARITH[q], *args)
        if q == "numpy.transpose" and k == 1 and not kw:
            return mk("attr", args[0], "T")
        if q == "builtins.range":
            if k == 1:
                return mk("range", const(0), args[0], const(1))
            if k == 2:
                return mk("range", args[0], args[1], const(1))
            if k == 3:
                return mk("range", *args)
        if q in ("builtins.list", "builtins.tuple", "builtins.set", "builtins.iter", "builtins.reversed", "builtins.frozenset"):
            nm = q.split(".")[1]
            if k == 0:
                return self.new_obj(n, st, mk("list" if nm != "set" else "set"), nm)
            a0 = args[0]
            if a0.op == "call" and a0.a[0].op == "attr" and a0.a[0].a[1] == "keys":
                a0 = a0.a[0].a[0]
            if nm == "tuple" and not kw:
                c = self.content(a0, st)
                if c.op in ("tuple", "list") and not any(x.op == "star" for x in c.a):
                    return mk("tuple", *c.a)
                return mk("conv", "tuple", a0)
            if nm in ("list",):
                return self.new_obj(n, st, mk("conv", "list", self.content(a0, st)), "list") if a0.op == "obj" else mk("conv", "list", a0)
            if nm == "reversed":
                return rev(self.content(a0, st) if a0.op == "obj" else a0)
            return mk("conv", nm, a0)
        if q == "builtins.dict":
            if k == 0:
                return self.new_obj(n, st, mk("dict", *[(const(a), b) for a, b in kw]), "dict")
            return mk("conv", "dict", args[0])
        if q == "collections.defaultdict":
            return self.new_obj(n, st, mk("dict"), "defaultdict")
        if q == "collections.deque" and k == 0:
            return self.new_obj(n, st, mk("list"), "list")
        if q in ("copy.copy", "copy.deepcopy", "numpy.copy", "numpy.array", "numpy.asarray"):
            nm = q.split(".")[1]
            how = [x for x in args[1:]] + [v for kk, v in kwd.items() if kk != "copy"]
            wide = all(x.op == "ref" and x.a[0] in ("builtins.float", "numpy.float64", "numpy.double", "float") for x in how)
            if k >= 1 and (wide or nm in ("copy", "deepcopy")):
                c = self.content(args[0], st)
                inner = c if args[0].op == "obj" else args[0]
                if nm in ("copy", "deepcopy") and args[0].op == "obj" :
                    return self.new_obj(n, st, mk("conv", nm, inner), args[0].a[2])
                t = mk("conv", nm, args[0])
                self.emit("call", st, (t,), n, f=ref(q), args=args, kw=kwd)
                if self.copies and nm in ("copy", "deepcopy"):
                    return self.new_obj(n, st, t, "copy")
                return t
        if q == "builtins.isinstance" and k == 2:
            c = self.content(args[1], st)
            if c.op == "tuple":
                return lor(*[isinst(args[0], x) for x in c.a])
            return isinst(args[0], args[1])
        if q in ("builtins.any", "builtins.all", "numpy.any", "numpy.all") and k == 1:
            c = self.content(args[0], st)
            if c.op == "collect" and c.a[0].op == "list" and not c.a[0].a:
                _, L, it, cond, item = c.a
                if item.op == "splat" and item.a[0].op == "collect":
                    _, L2, it2, cond2, item2 = item.a[0].a
                    if q.endswith("any"):
                        return mk("any", L, it, land(cond, mk("any", L2, it2, land(cond2, truth(item2)))))
                    return lnot(mk("any", L, it, land(cond, mk("any", L2, it2, land(cond2, lnot(truth(item2)))))))
                if q.endswith("any"):
                    return mk("any", L, it, land(cond, truth(item)))
                return lnot(mk("any", L, it, land(cond, lnot(truth(item)))))
            if c.op in ("list", "tuple") and not any(x.op == "star" for x in c.a):
                return (lor if q.endswith("any") else land)(*[truth(x) for x in c.a])
        if q in ("builtins.map", "builtins.filter") and k == 2:
            f, xs = args
            L = self.loop_id(n)
            elem, itm, extra = self.iter_bind(xs, L, st)
            self.loops[L] = {"it": itm, "func": self.frames[-1].func, "line": getattr(n, "lineno", 0), "kind": "comp", "breaks": [], "node": n, "parents": self.around(st)}
            base = st.pc
            st.pc = st.pc + (mk("iter", L, itm),) + tuple(conjuncts(extra))
            v = self.call(f, (elem,), (), st, fr, n) if f is not NONE else elem
            st.pc = base
            if q.endswith("map"):
                return self.new_obj(n, st, mk("collect", mk("list"), L, itm, extra, v), "gen")
            return self.new_obj(n, st, mk("collect", mk("list"), L, itm, land(extra, truth(v)), elem), "gen")
        if q == "builtins.bool" and k == 1:
            return truth(args[0])
        if q == "builtins.getattr" and k == 2 and args[1].op == "const":
            return self.attr_of(args[0], args[1].a[0], st)
        if q == "builtins.setattr" and k == 3:
            loc = attr(args[0], args[1].a[0]) if args[1].op == "const" else mk("attr", args[0], args[1])
            st.store[loc] = args[2]
            self.emit("set", st, (loc, args[2]), n, base=args[0], key=args[1].a[0] if args[1].op == "const" else args[1])
            return NONE
        if q == "builtins.round" and k >= 1:
            return mk("round", args[0], mk("tuple", *args[1:]))
        if q == "functools.reduce":
            # reduce(f, xs[, init]) as a fold
            f, xs = args[0], args[1]
            L = self.loop_id(n)
            elem, itm, extra = self.iter_bind(xs, L, st)
            self.loops[L] = {"it": itm, "func": self.frames[-1].func, "line": getattr(n, "lineno", 0), "kind": "comp", "breaks": [], "node": n, "parents": self.around(st)}
            mu = mk("mu", L, "acc")
            init = args[2] if k == 3 else self.sub(xs, const(0), st)
            self.mu_init[mu] = init
            base = st.pc
            st.pc = st.pc + (mk("iter", L, itm),)
            v = self.call(f, (mu, elem), (), st, fr, n)
            st.pc = base
            v = self.mu_next[mu] = v if extra is TRUE else ite(extra, v, mu)
            return self.fold(L, itm, init, mu, v)
        if q == "builtins.len" and k == 1:
            c = self.content(args[0], st)
            if c.op in ("list", "tuple") and not any(x.op == "star" for x in c.a):
                return const(len(c.a))
            return mk("call", ref("builtins.len"), (args[0],), ())
        return None

    def known_method(self, base, name, args, kw, st, fr, n):
        if name in ("copy", "tolist") and not args:
            c = self.content(base, st)
            if base.op == "obj":
                return self.new_obj(n, st, mk("conv", name, c), base.a[2])
            t = mk("conv", name, base)
            self.emit("call", st, (t,), n, f=attr(base, name), args=args, kw=dict(kw), recv=base)
            return t
        if name == "get" and len(args) in (1, 2):
            d = args[1] if len(args) == 2 else NONE
            s = self.sub(base, args[0], st)
            return mk("ite", cmp("in", args[0], base), s, d) if s is not d else s
        if name in ("min", "max") and base.op not in ("ref",):
            return mk(name + "over", self.deep(base, st))
        if name == "format" and base.op == "const" and isinstance(base.a[0], str):
            parts = base.a[0].split("{}")
            if len(parts) == len(args) + 1:
                acc = const(parts[0])
                for a, p in zip(args, parts[1:]):
                    acc = add(add(acc, a), const(p))
                return acc
        if name == "transpose" and not args:
            return mk("attr", base, "T")
        if name == "dot" and len(args) == 1:
            return binop("@", base, args[0])
        if name == "join" and base.op == "const" and len(args) == 1:
            return mk("join", base, self.deep(args[0], st))
        return None


def call_len(t):
    return mk("call", ref("builtins.len"), (t,), ())


def rev(t):
    if t.op == "conv" and t.a[0] == "reversed":
        return t.a[1]
    if t.op == "conv" and t.a[0] in ("list", "tuple"):
        return rev(t.a[1])
    return mk("conv", "reversed", t)


def norm_ext(q):
    parts = q.split(".")
    if parts[0] in ("np", "numpy"):
        parts[0] = "numpy"
    return ".".join(parts)


def is_generator(node):
    st = list(node.body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        st.extend(ast.iter_child_nodes(x))
    return False


def target_names(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


OLD = mk("old")


def _unold(v, base, i):
    """v, an item of a container, with what was there before spelled out"""
    if not hasop(v, OLD.op):
        return v
    now = mk("sub", base, i)
    memo = {}

    def f(x):
        if x is OLD:
            return now
        if not isinstance(x, T) or not hasop(x, OLD.op):
            return x
        if x not in memo:
            memo[x] = g(x)
        return memo[x]

    def g(x):
        if x.op == "setitem":
            return mk("setitem", f(x.a[0]), f(x.a[1]), x.a[2])
        if x.op == "dictmap":
            return mk("dictmap", f(x.a[0]), *x.a[1:])
        return rebuild(x, tuple(tuple(f(z) if isinstance(z, T) else z for z in y) if isinstance(y, tuple) else f(y) for y in x.a))

    return f(v)


def sequence(x):
    """what has one item for each item of x"""
    while x.op == "collect" and empty_seq(x.a[0]) and x.a[3] is TRUE and x.a[4].op not in ("splat", "star"):
        x = strip(x.a[2])
    return x


class TermExpr(ast.expr):
    """An expression whose value is already known."""

    _fields = ()
    term = None


def worklist(n):
    """(name, from the end?) for `while q:` loops that start by taking one item off q"""
    t = n.test
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        l, r = t.left, t.comparators[0]
        if isinstance(l, ast.Call) and ast.unparse(l.func) == "len" and isinstance(t.ops[0], (ast.Gt, ast.NotEq)) and ast.unparse(r) == "0":
            t = l
        elif isinstance(t.ops[0], ast.NotEq) and ast.unparse(r) == "[]":
            t = l
    if isinstance(t, ast.Call) and ast.unparse(t.func) == "len" and t.args:
        t = t.args[0]
    if not isinstance(t, ast.Name) or not n.body:
        return None
    f = None
    for at, b in enumerate(n.body):
        f = b.value if isinstance(b, ast.Assign) and len(b.targets) == 1 else None
        if isinstance(f, ast.Call) and isinstance(f.func, ast.Attribute) and f.func.attr == "pop" and isinstance(f.func.value, ast.Name) and f.func.value.id == t.id:
            break
        # what comes before has nothing to do with the list or the item
        if not isinstance(b, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Expr, ast.Pass)) or any(isinstance(x, ast.Name) and x.id == t.id for x in ast.walk(b)):
            return None
    else:
        return None
    if at:
        got = {x.id for x in ast.walk(b.targets[0]) if isinstance(x, ast.Name)}
        if any(isinstance(x, ast.Name) and x.id in got for s in n.body[:at] for x in ast.walk(s)):
            return None
    a = [ast.unparse(x) for x in f.args]
    if a not in ([], ["0"], ["-1"]) or f.keywords:
        return None
    for s in n.body[at + 1:]:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and x.id == t.id:
                # only puts are allowed elsewhere (and then only unreachable ones)
                ok = any(isinstance(y, ast.Attribute) and y.value is x and y.attr in ("append", "extend", "insert", "appendleft") for y in ast.walk(s))
                if not ok or isinstance(x.ctx, ast.Store):
                    return None
    return t.id, a != ["0"], at


def leaves_loop(body, kind):
    """a break or continue that belongs to the loop with this body"""
    todo = list(body)
    while todo:
        x = todo.pop()
        if isinstance(x, kind):
            return True
        if isinstance(x, (ast.For, ast.While, ast.AsyncFor)):
            todo.extend(x.orelse)
            continue
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(y for y in ast.iter_child_nodes(x) if isinstance(y, (ast.stmt, ast.ExceptHandler)) or type(y).__name__ == "match_case")
    return False


def assigned_names(body, inplace=True):
    """names a block assigns, with those of containers it changes in place"""
    out = set()
    st = list(body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if isinstance(x, ast.FunctionDef):
                out.add(x.name)
            continue
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for y in ast.walk(x):
                if isinstance(y, ast.NamedExpr):
                    out.add(y.target.id)
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and isinstance(x.target, ast.Name) and not inplace:
            st.append(x.value)
            continue
        st.extend(ast.iter_child_nodes(x))
    for s in body if inplace else ():
        for y in ast.walk(s):
            if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in MUTATORS and isinstance(y.func.value, ast.Name):
                out.add(y.func.value.id)
            if isinstance(y, (ast.Subscript,)) and isinstance(y.ctx, ast.Store) and isinstance(y.value, ast.Name):
                out.add(y.value.id)
    return out


def _as_load(t):
    import copy as _c

    r = _c.copy(t)
    if hasattr(r, "ctx"):
        r.ctx = ast.Load()
    return r
