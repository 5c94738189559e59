import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vf.repo import Repo
from vf.interp import Interp
from vf.terms import show
from vf.known import KNOWN
import argparse
p = argparse.ArgumentParser(); p.add_argument("func"); p.add_argument("--inline", default=""); p.add_argument("--kinds", default=""); p.add_argument("-d", type=int, default=7); p.add_argument("--ret", action="store_true"); p.add_argument("--grep", default="")
a = p.parse_args()
it = Interp(Repo(), inline=set(x for x in a.inline.split(",") if x), known=KNOWN)
it.run(a.func)
for e in it.events:
    if a.kinds and e.kind not in a.kinds.split(","): continue
    s = f"{e.where} {e.kind:6} {' ; '.join(show(x, a.d) for x in e.a)}" + ("   WHEN " + show(e.cond(), a.d) if e.pc else "")
    if a.grep and a.grep not in s: continue
    print(s)
print("LOOPS", {k: (show(v['it'], 5) if v.get('it') is not None else None, v['line'], v['kind'], [show(b,5) for b in v.get('breaks', [])]) for k, v in it.loops.items()})
for pc, v, st in it.returns:
    print("RET", show(it.deep(v, st), a.d), " WHEN ", [show(c, a.d) for c in pc])
