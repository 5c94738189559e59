"""Loads the analysed package: modules, functions, classes, import resolution."""
import ast
import os
import hashlib
import json

REPO = os.environ.get("VF_REPO", "/repo")
PKG = "verse"


class AnalysisBroken(Exception):
    """An anchor of a rule vanished: the check can give no verdict."""


def params(node):
    a = node.args
    return [x.arg for x in a.posonlyargs + a.args] + (["*" + a.vararg.arg] if a.vararg else []) + [x.arg for x in a.kwonlyargs] + (["**" + a.kwarg.arg] if a.kwarg else [])


class Func:
    def __init__(self, mod, qual, node, cls=None, parent=None):
        self.mod, self.qual, self.node, self.cls, self.parent = mod, qual, node, cls, parent
        decs = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]
        self.static = "staticmethod" in decs
        self.classmethod = "classmethod" in decs
        self.prop = "property" in decs

    @property
    def name(self):
        return self.qual.split(".")[-1]

    @property
    def full(self):
        return f"{self.mod.name}:{self.qual}"

    def __repr__(self):
        return f"<Func {self.full}>"


class Class:
    def __init__(self, mod, qual, node):
        self.mod, self.qual, self.node = mod, qual, node
        self.methods = {}
        self.bases = [ast.unparse(b) for b in node.bases]
        self.attrs = {}  # class-level assignments
        self.fields = []  # annotated (dataclass) fields, in order
        self.dataclass = any("dataclass" in ast.unparse(d) for d in node.decorator_list)

    @property
    def full(self):
        return f"{self.mod.name}:{self.qual}"

    @property
    def name(self):
        return self.qual.split(".")[-1]

    @property
    def is_enum(self):
        return any(b.split(".")[-1] in ("Enum", "IntEnum", "StrEnum", "Flag") for b in self.bases)

    def members(self):
        return [k for k in self.attrs]


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "env.json")) as _f:
    ENV = json.load(_f)


class Module:
    frozen = False

    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.funcs, self.classes, self.consts, self.imports = {}, {}, {}, {}
        self.stars = []


class Repo:
    def __init__(self, root=None, overlay=None):
        self.overlay = overlay or {}
        self.root = root or REPO
        self.modules = {}
        self.broken = []
        self.env, self.frozen_mods, self._rebound = ENV, {}, None
        self.ghosts = {}  # full name -> reference standing for a helper that is gone or has another signature
        self.changed = set()
        self.consulted = set()
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"package directory {base} not found")
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if f.endswith(".py"):
                    self._load(os.path.join(dp, f))
        for m in self.modules.values():
            self._index(m)
        self.method_index = {}
        for m in self.modules.values():
            for c in m.classes.values():
                for n, f in c.methods.items():
                    self.method_index.setdefault(n, []).append(f)

    def ghost(self, sig, sources):
        """A helper of the reference tree may since have been renamed, inlined, or given other
        parameters.  References that call it then use its own reference; the code is followed through."""
        import textwrap

        for full, src in sources.items():
            if full not in sig:
                continue
            kind, ps = sig[full]
            mn, q = full.split(":")
            m = self.modules.get(mn)
            if m is None:
                continue
            c = m.classes.get(q.rsplit(".", 1)[0]) if "." in q else None
            if "." in q and c is None:
                continue
            tab, name = (c.methods, q.rsplit(".", 1)[1]) if c is not None else (m.funcs, q)
            f = tab.get(name)
            if f is not None:
                cur = params(f.node)
                if tuple(cur) == tuple(ps):
                    continue
                self.changed.add(full)
            elif name in m.imports:
                continue  # moved to another module
            node = ast.parse(textwrap.dedent(src)).body[0]
            g = Func(m, q + "<ref>", node, c)
            g.static, g.classmethod, g.prop = kind == "s", kind == "c", kind == "p"
            self.ghosts[full] = g
            if f is None:
                tab[name] = g
                if c is not None:
                    self.method_index.setdefault(name, []).append(g)

    def missing(self, full):
        return full in self.ghosts

    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        name = rel[:-3].replace(os.sep, ".")
        if name.endswith(".__init__"):
            name = name[: -len(".__init__")]
        src = self.overlay[rel] if rel in self.overlay else open(path, encoding="utf-8", errors="replace").read()
        try:
            import warnings

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.parse(src, path)
        except SyntaxError as e:
            self.broken.append((rel, str(e)))
            return
        self.modules[name] = Module(name, rel, tree, src)

    def _index(self, m):
        def visit(body, cls=None):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(m, n.name if cls is None else f"{cls.qual}.{n.name}", n, cls)
                    if cls is None:
                        m.funcs[n.name] = f
                    else:
                        cls.methods[n.name] = f
                elif isinstance(n, ast.ClassDef):
                    c = Class(m, n.name if cls is None else f"{cls.qual}.{n.name}", n)
                    m.classes[c.qual] = c
                    visit(n.body, c)
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    (m.consts if cls is None else cls.attrs)[n.targets[0].id] = n.value
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple) and cls is None:
                    for t, v in zip(n.targets[0].elts, n.value.elts):
                        if isinstance(t, ast.Name):
                            m.consts[t.id] = v
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    if cls is not None:
                        cls.fields.append(n.target.id)
                    if n.value is not None:
                        (m.consts if cls is None else cls.attrs)[n.target.id] = n.value
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    self._imp(m, n)
                elif isinstance(n, (ast.If, ast.Try)):
                    visit(n.body, cls)
                    visit(n.orelse, cls)

        visit(m.tree.body)

    def _imp(self, m, n):
        for name, q in import_bindings(m, n):
            if name == "*":
                m.stars.append(q)
            else:
                m.imports[name] = q

    # ---- what the names of a module meant on the reference tree
    def as_frozen(self, m):
        """The module with the imports and constants it had on the reference tree (for references)."""
        if m.frozen or m.name not in self.env:
            return m
        if m.name not in self.frozen_mods:
            f = Module(m.name, m.path, m.tree, m.src)
            f.frozen = True
            self.frozen_mods[m.name] = f
            f.stars = m.stars
            f.imports = dict(m.imports)
            imps = {}
            for n, q in self.env[m.name]["imports"].items():
                r = self.resolve_dotted(q)
                if r is not None and not (isinstance(r, tuple) and r[0] == "ext" and q.split(".")[0] == PKG):
                    imps[n] = q
            f.imports.update(imps)
            vals = {n: ast.parse(t, mode="eval").body for n, t in self.env[m.name]["consts"].items()}
            hidden = set(imps) | set(vals)
            f.consts = {n: v for n, v in m.consts.items() if n not in imps}
            f.consts.update({n: v for n, v in vals.items() if n not in m.imports})
            f.funcs = {n: v for n, v in m.funcs.items() if n not in hidden}
            f.classes = {n: v for n, v in m.classes.items() if n not in hidden}
        return self.frozen_mods[m.name]

    def frozen_fields(self, c, init):
        """order of the arguments a class took on the reference tree (None: not known)"""
        t = self.env.get(c.mod.name, {}).get("classes", {}).get(c.qual)
        return t["args"] if t and bool(t["init"]) == (init is not None) else None

    def aliases(self, c):
        """enumeration members that are other names of an earlier member"""
        seen, out, names, last = {}, [], {}, 0
        for n, v in c.attrs.items():
            if isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] == "auto":
                val = last + 1
            elif isinstance(v, ast.Name) and v.id in names:
                val = names[v.id]
            else:
                try:
                    val = ast.literal_eval(v)
                    hash(val)
                except Exception:
                    val = ast.unparse(v)
            if isinstance(val, int):
                last = val
            names[n] = val
            if val in seen:
                out.append(f"{n} is another name of {seen[val]}")
            seen.setdefault(val, n)
        return out

    def rebound(self):
        """module constants some function rebinds"""
        if self._rebound is None:
            self._rebound = {(m.name, n) for m in self.modules.values() for x in ast.walk(m.tree) if isinstance(x, ast.Global) for n in x.names}
        return self._rebound

    # ---- resolution of dotted names to repo entities
    def resolve(self, mod, name, seen=None):
        """name visible at module level -> Func | Class | Module | ('ext', dotted) | ('const', mod, name) | None"""
        seen = seen or set()
        if (mod.name, name) in seen:
            return None
        seen.add((mod.name, name))
        if name in mod.funcs:
            return mod.funcs[name]
        if name in mod.classes:
            return mod.classes[name]
        if name in mod.consts:
            return ("const", mod, name)
        if name in mod.imports:
            return self.resolve_dotted(mod.imports[name], seen)
        for s in mod.stars:
            t = self.modules.get(s)
            if t is not None:
                r = self.resolve(t, name, seen)
                if r is not None:
                    return r
        return None

    def resolve_dotted(self, q, seen=None):
        seen = seen or set()
        if q in self.modules:
            return self.modules[q]
        parts = q.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mn = ".".join(parts[:i])
            if mn in self.modules:
                cur = self.modules[mn]
                for p in parts[i:]:
                    cur = self.member(cur, p, seen)
                    if cur is None:
                        return ("ext", q)
                return cur
        return ("ext", q)

    def member(self, ent, name, seen=None):
        if isinstance(ent, Module):
            r = self.resolve(ent, name, seen)
            if r is None and f"{ent.name}.{name}" in self.modules:
                return self.modules[f"{ent.name}.{name}"]
            return r
        if isinstance(ent, Class):
            return self.find_method(ent, name)
        return None

    def find_method(self, cls, name, seen=None):
        seen = seen or set()
        if cls.full in seen:
            return None
        seen.add(cls.full)
        if name in cls.methods:
            return cls.methods[name]
        for b in cls.bases:
            r = self.resolve_expr(cls.mod, b)
            if isinstance(r, Class):
                f = self.find_method(r, name, seen)
                if f is not None:
                    return f
        return None

    def resolve_expr(self, mod, text):
        parts = text.split(".")
        cur = self.resolve(mod, parts[0])
        for p in parts[1:]:
            if isinstance(cur, tuple) and cur[0] == "ext":
                cur = ("ext", cur[1] + "." + p)
            elif cur is None:
                return None
            else:
                cur = self.member(cur, p)
        return cur

    def alias_of(self, mod, name):
        """dotted name behind a module constant of the form functools.partial(f, ...) or f"""
        m = self.modules.get(mod)
        v = m.consts.get(name) if m else None
        if isinstance(v, ast.Call) and ast.unparse(v.func) in ("functools.partial", "partial") and v.args:
            v = v.args[0]
        if isinstance(v, (ast.Name, ast.Attribute)):
            r = self.resolve_expr(m, ast.unparse(v))
            if isinstance(r, tuple) and r[0] == "ext":
                return r[1]
        return None

    # ---- anchors
    def func(self, full):
        """'verse.analysis.simulator:Simulator.simulate' -> Func (AnalysisBroken when missing)."""
        mn, q = full.split(":")
        m = self.modules.get(mn)
        f = None
        if m is not None:
            if "." in q:
                cq, fn = q.rsplit(".", 1)
                c = m.classes.get(cq)
                if c is None:
                    r = self.resolve_expr(m, cq)
                    c = r if isinstance(r, Class) else None
                f = self.find_method(c, fn) if c is not None else None
            else:
                r = self.resolve(m, q)
                f = r if isinstance(r, Func) else None
        if f is None:
            # moved to another module of the package under the same (unique) name?
            cands = []
            for mm in self.modules.values():
                if "." in q:
                    cq, fn = q.rsplit(".", 1)
                    if cq in mm.classes and fn in mm.classes[cq].methods:
                        cands.append(mm.classes[cq].methods[fn])
                elif q in mm.funcs:
                    cands.append(mm.funcs[q])
            if len(cands) == 1:
                f = cands[0]
        if f is None:
            raise AnalysisBroken(f"anchor {full} not found")
        self.consulted.add(f.full)
        return f

    def cls(self, full):
        mn, q = full.split(":")
        m = self.modules.get(mn)
        c = m.classes.get(q) if m else None
        if c is None:
            cands = [mm.classes[q] for mm in self.modules.values() if q in mm.classes]
            if len(cands) == 1:
                c = cands[0]
        if c is None:
            raise AnalysisBroken(f"anchor class {full} not found")
        self.consulted.add(c.full)
        return c

    def mod(self, name):
        if name not in self.modules:
            raise AnalysisBroken(f"anchor module {name} not found")
        return self.modules[name]

    def subclasses(self, cls):
        out = []
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.bases:
                    r = self.resolve_expr(m, b)
                    if r is cls and c is not cls:
                        out.append(c)
                        out.extend(self.subclasses(c))
        return out

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode())
            h.update(self.modules[n].src.encode())
        return h.hexdigest()[:16]


def import_bindings(m, n):
    if isinstance(n, ast.Import):
        for a in n.names:
            if a.asname:
                yield a.asname, a.name
            else:
                yield a.name.split(".")[0], a.name.split(".")[0]
    else:
        base = n.module or ""
        if n.level:
            pk = m.name.split(".")
            is_pkg = m.path.endswith("__init__.py")
            pk = pk[: len(pk) - (n.level - (1 if is_pkg else 0))]
            base = ".".join(pk + ([n.module] if n.module else []))
        for a in n.names:
            if a.name == "*":
                yield "*", base
            else:
                yield a.asname or a.name, f"{base}.{a.name}" if base else a.name
