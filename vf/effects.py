"""Alias and effect analysis on top of an interpretation: which objects reachable from the
parameters, from self or from module level does a function change, and which of them does it keep?

`aliases(t)` gives pairs (path, layers): the value t holds, below `layers` freshly made
containers, the object found at `path`.  Paths start at a parameter and end in `.name` (attribute)
and `[]` (any item).  layers == 0 means that t is that very object."""
import re

from .terms import *

FRESH_CALLS = ()
CLONES = {"GuardExpressionAst"}  # keeps a deep copy of what it is made from, see rule condition-not-shared
SAME = {"values", "items", "keys", "__iter__"}
ITEM = {"get", "pop", "popleft", "setdefault", "popitem"}
SELECT = {"find", "next", "builtins.next"}
WRAP = {"builtins.zip", "builtins.enumerate", "builtins.reversed", "builtins.sorted", "itertools.product", "itertools.chain", "builtins.filter",
        "itertools.zip_longest", "builtins.list", "builtins.tuple", "builtins.set", "builtins.dict", "builtins.frozenset", "copy.copy", "itertools.islice"}
STORED = {"check_hit", "query_cont", "calc_bloated_tube"}  # results that are also kept elsewhere
VISITORS = {"visit", "generic_visit"}  # syntax tree transformers change the nodes they are given


def item(p):
    return p if p.endswith("[][]") else p + "[]"


class Effects:
    def __init__(self, it, summary=None):
        self.it, self.summary = it, summary
        self.final, self.approx, self.keep, self.none = {}, {}, {}, {}

    # -- aliases
    def of(self, t, heap, store=None):
        """least fixed point of the alias equations of t and what it depends on"""
        k = (t, id(heap), id(store if store else self.none))
        while k not in self.final:
            self.done, self.changed = {}, False
            r = self._of(t, heap, store or self.none)
            if not self.changed:
                self.final.update(self.done)
        return self.final[k]

    def _of(self, t, heap, store):
        k = (t, id(heap), id(store))
        r = self.final.get(k)
        if r is None:
            r = self.done.get(k)
        if r is not None:
            return r
        self.keep[id(heap)], self.keep[id(store)] = heap, store
        old = self.done[k] = self.approx.get(k, frozenset())
        r = frozenset(self._al(t, heap, store)) | old
        if len(r) > 60:
            r = frozenset(sorted(r)[:60]) if len(old) < 60 else old
        if r != old:
            self.changed = True
        self.approx[k] = self.done[k] = r
        return r

    def _al(self, t, h, s):
        go = lambda x: self._of(x, h, s)
        o, a = t.op, t.a
        if o == "const":
            return ()
        if o == "sym":
            return {(a[0], 0)}
        if o == "ref":
            return {("global " + a[0], 0)}
        if o == "attr":
            if t in s and s[t] is not t:
                return go(s[t])
            r = set()
            for p, l in go(a[0]):
                r.add((p + "." + a[1], 0) if l == 0 else (p, l - 1))
            return {(p, l) for p, l in r if p.count(".") + p.count("[") <= 12}
        if o in ("sub", "elem", "popped"):
            if o == "sub" and t in s and s[t] is not t:
                return go(s[t]) | self._item(go(a[0]), a[1])
            return self._item(go(a[0]), a[1] if o == "sub" else None)
        if o == "obj":
            c = h.get(t)
            if c is None or c is t:
                return ()
            if c.op == "mu":
                return self._fresh(go(c))
            return self._fresh(go(c))
        if o == "mu":
            i, n, st = self.it.mu_init.get(t), self.it.mu_next.get(t), self.it.mu_state.get(t)
            r = set(self._of(i, h, self.none)) if i is not None else set()
            return r | self._of(n, st.heap if st is not None else h, s) if n is not None else r
        if o == "conv":
            kind, x = a[0], a[1]
            if kind in ("deepcopy", "array", "tolist"):
                return ()
            if kind == "iter":
                return go(x)
            return {(item(p), 1) if l == 0 else (p, l) for p, l in go(x)}
        if o in ("list", "tuple", "set"):
            r = set()
            for x in a:
                if isinstance(x, T):
                    if x.op in ("splat", "star"):
                        r |= self._item(go(x.a[0]), None, 1)
                    else:
                        r |= {(p, l + 1) for p, l in go(x)}
            return r
        if o == "dict":
            r = set()
            for x in a:
                if isinstance(x, tuple):
                    r |= {(p, l + 1) for p, l in go(x[1])}
            return r
        if o == "append":
            return go(a[0]) | {(p, l + 1) for p, l in go(a[1])}
        if o == "extend":
            return go(a[0]) | self._item(go(a[1]), None, 1)
        if o == "setitem":
            return go(a[0]) | {(p, l + 1) for p, l in go(a[2])}
        if o == "collect":
            x = a[4]
            return go(a[0]) | (self._item(go(x.a[0]), None, 1) if x.op in ("splat", "star") else {(p, l + 1) for p, l in go(x)})
        if o == "dictmap":
            return go(a[0]) | {(p, l + 1) for p, l in go(a[5])}
        if o == "ite":
            return go(a[1]) | go(a[2])
        if o == "last":
            return go(a[0]) | go(a[3])
        if o == "fold":
            r = set(go(a[1]))
            if a[0] == "gen":
                r |= go(a[-1])
            return r
        if o == "concat":
            r = set()
            for x in a:
                if isinstance(x, T):
                    r |= {(item(p), 1) if l == 0 else (p, l) for p, l in go(x)}
            return r
        if o == "new" and show(a[0], 2).split(":")[-1].split(".")[-1] in CLONES:
            return ()
        if o == "new":
            r = set()
            for x in a[1:]:
                for y in x if isinstance(x, tuple) else (x,):
                    y = y[1] if isinstance(y, tuple) and len(y) == 2 else y
                    if isinstance(y, T):
                        r |= {(p, l + 1) for p, l in go(y)}
            return r
        if o == "call":
            f = a[0]
            args = a[1] if isinstance(a[1], tuple) else ()
            kws = a[2] if len(a) > 2 and isinstance(a[2], tuple) else ()
            vals = [x for x in args if isinstance(x, T)] + [x[1] for x in kws if isinstance(x, tuple) and isinstance(x[1], T)]
            if f.op == "attr" and f.a[1] in SAME:
                return go(f.a[0])
            if f.op == "attr" and f.a[1] in ITEM:
                r = self._item(go(f.a[0]), None)
                for x in vals[1:]:
                    r |= go(x)
                return r
            if f.op == "attr" and f.a[1] == "copy":
                return {(item(p), 1) if l == 0 else (p, l) for p, l in go(f.a[0])}
            n = f.a[1] if f.op == "attr" else f.a[0].split(".")[-1] if f.op == "ref" else None
            if n in STORED:
                return {("result of " + n + "()", 0)}
            if f.op == "ref":
                n = f.a[0]
                if n in WRAP:
                    r = set()
                    for x in vals:
                        r |= {(item(p), 2) if l == 0 else (p, l + 1) for p, l in go(x)} if n.split(".")[-1] in ("zip", "enumerate", "product", "zip_longest") else {
                            (item(p), 1) if l == 0 else (p, l) for p, l in go(x)}
                    return r
                if n.split(":")[-1] in SELECT or n in SELECT:
                    return set().union(*[self._item(go(x), None) for x in vals]) if vals else ()
                if self.summary is not None:
                    b = dict(x for x in kws if isinstance(x, tuple) and len(x) == 2)
                    r = set()
                    for head, rest, k in self.summary(n)[1]:
                        if head is None:
                            r.add((rest, k))
                        elif isinstance(b.get(head), T):
                            for q, l in go(b[head]):
                                r.add(self.below(q, l, rest, k))
                    return {(q, l) for q, l in r if q.count(".") + q.count("[") <= 12}
            return ()
        if o in ("pop", "star", "splat", "undef"):
            return go(a[0]) if a and isinstance(a[0], T) else ()
        return ()

    def _fresh(self, al):
        """aliases of a new container with such content: an item level at least"""
        return {(item(p), 1) if l == 0 else (p, l) for p, l in al}

    def _item(self, al, i, extra=0):
        if i is not None and isinstance(i, T) and i.op == "slice":
            return set(al)  # a view of the same object
        return {(item(p), extra) if l == 0 else (p, l - 1 + extra) for p, l in al}

    def callee(self, t):
        """[(rest of the path, argument)]: what the called function changes of its arguments"""
        if self.summary is None or not isinstance(t, T) or t.op != "call" or t.a[0].op != "ref":
            return
        b = dict(x for x in t.a[2] if isinstance(x, tuple) and len(x) == 2) if len(t.a) > 2 else {}
        for head, rest in self.summary(t.a[0].a[0])[0]:
            if isinstance(b.get(head), T):
                yield rest, b[head]

    @staticmethod
    def below(q, l, rest, k=0):
        """(path, layers) of a value that holds, below k new containers, what is found by following `rest` from a
        value that holds, below l new containers, the object at q; None if that is itself a new container without it."""
        steps = re.findall(r"\[\]|\.[A-Za-z_0-9*]+", rest)
        for st in steps:
            if l:
                l -= 1
            else:
                q = item(q) if st == "[]" else q + st
        return q, l + k

    # -- effects
    def writes(self):
        """[(path, event)]: outside objects changed in place"""
        out = []
        for e in self.it.events:
            if e.kind == "set":
                base, key = e.d.get("base"), e.d.get("key")
                tail = "." + key if isinstance(key, str) else "[]"
            elif e.kind == "mut":
                base, tail = e.d.get("base"), "[]"
            elif e.kind == "call":
                f = e.d.get("f")
                for rest, x in self.callee(e.a[0] if e.a else None):
                    for q, l in self.of(x, e.heap, e.store):
                        r, k = self.below(q, l, rest)
                        if k == 0:
                            out.append((r, e))
                if isinstance(f, T) and f.op == "attr" and f.a[1] in VISITORS:
                    for x in e.d.get("args", ()):
                        for p, l in self.of(x, e.heap, e.store) if isinstance(x, T) else ():
                            out.append((item(p), e))
                continue
            elif e.kind == "del":
                base, tail = (e.a[0].a[0] if e.a[0].op == "sub" else None), "[]"
            else:
                continue
            if base is None:
                continue
            for p, l in self.of(base, e.heap, e.store):
                if l == 0:
                    out.append(((item(p) if tail == "[]" else p + tail), e))
        return out

    def kept(self):
        """[(where, path, layers, event)]: outside objects stored in outside places"""
        out = []
        for e in self.it.events:
            vals = ()
            if e.kind == "set":
                base, key = e.d.get("base"), e.d.get("key")
                tail = "." + key if isinstance(key, str) else "[]"
                vals = (e.a[1],)
            elif e.kind == "mut":
                base, tail = e.d.get("base"), "[]"
                vals = tuple(e.d.get("args", ()))
            else:
                continue
            for p, l in self.of(base, e.heap, e.store) if base is not None else ():
                if l != 0:
                    continue
                for v in vals:
                    for q, m in self.of(v, e.heap, e.store):
                        out.append((item(p) if tail == "[]" else p + tail, q, m, e))
        return out
