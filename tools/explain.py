"""Where two terms first differ structurally."""
from vf.terms import *
from vf.canon import Canon, plain
def kids(t):
    out=[]
    def f(y):
        if isinstance(y,T): out.append(y)
        elif isinstance(y,tuple):
            for z in y: f(z)
    for y in t.a: f(y)
    return out
def explain(ia,ta,ib,tb,pre=None,depth=0):
    ca,cb=Canon(ia,pre),Canon(ib,pre)
    ta,tb=plain(ta,pre),plain(tb,pre)
    seen=set()
    while True:
        if ta.op!=tb.op:
            print("DIFF op",show(ta,6)[:600],"\n  VS  ",show(tb,6)[:600]); return
        if ta.op=="mu":
            for d in ("mu_init","mu_next"):
                x,y=getattr(ia,d).get(ta),getattr(ib,d).get(tb)
                if d=="mu_next":
                    x,y=(i.deep(v,i.mu_state[m]) if m in i.mu_state else v for i,v,m in ((ia,x,ta),(ib,y,tb)))
                if x is None or y is None: print("mu none",d,ta,tb); continue
                if ca.key(x)!=cb.key(y):
                    if (ta,tb) in seen: print("again"); return
                    seen.add((ta,tb)); ta,tb=plain(x,pre),plain(y,pre); break
            else: print("DIFF mu",show(ta,5),show(tb,5), ia.loops.get(ta.a[0]), ib.loops.get(tb.a[0])); return
            continue
        A,B=kids(ta),kids(tb)
        if len(A)!=len(B):
            print("DIFF arity",ta.op,len(A),len(B),show(ta,6)[:900],"\n  VS  ",show(tb,6)[:900]); return
        ka=[ca.key(x) for x in A]; kb=[cb.key(y) for y in B]
        if ta.op in("and","or","min","max","mul","set"):
            ra=[x for x,k in zip(A,ka) if k not in kb]; rb=[x for x,k in zip(B,kb) if k not in ka]
            if ra and rb and len(ra)==len(rb)==1: ta,tb=ra[0],rb[0]; continue
            print("DIFF",ta.op,[show(x,6)[:300] for x in ra],"\n  VS  ",[show(x,6)[:300] for x in rb]); return
        for x,y,k1,k2 in zip(A,B,ka,kb):
            if k1!=k2 and (x,y) not in seen: ta,tb=x,y; break
        else:
            print("DIFF leaf",show(ta,5)[:600],"\n VS ",show(tb,5)[:600]); return
