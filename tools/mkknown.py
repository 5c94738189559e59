"""Freeze the table of functions that exist on the reference tree, with their parameters (functions
added later, e.g. by extracting a helper, are analysed as part of their callers)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.repo import Repo, params
r = Repo()
rows = {}
for m in r.modules.values():
    for f in list(m.funcs.values()) + [x for c in m.classes.values() for x in c.methods.values()]:
        kind = "s" if f.static else "c" if f.classmethod else "p" if f.prop else "-"
        rows[f.full] = f"{f.full} {kind} {','.join(params(f.node))}"
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vf", "known.py")
with open(out, "w") as f:
    f.write('"""Functions present on the reference tree: name, kind, parameters (written by tools/mkknown.py)."""\nTABLE = """\n' + "\n".join(rows[k] for k in sorted(rows)) + '\n"""\nSIG = {}\nfor _l in TABLE.split("\\n"):\n    if _l.strip():\n        _n, _k, _p = (_l + " ").split(" ")[:3]\n        SIG[_n] = (_k, tuple(_p.split(",")) if _p else ())\nKNOWN = frozenset(SIG)\n')
print(len(rows))
