"""Obligations, findings, evidence and exit codes shared by all checks."""
import json, os, sys, time, traceback

from .repo import Repo, AnalysisBroken
from .interp import Interp, Limits
from .known import KNOWN, SIG
from .terms import T, show
from . import equiv, slices

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(HERE, "known_findings.json")


def prepare(repo):
    from rules.common import F

    if not repo.ghosts:
        repo.ghost(SIG, {f: src if isinstance(src, str) else src[0] for f, src, kw in reversed(list(F.values()))})


class Ctx:
    def __init__(self, prop, tier, repo=None):
        self.prop, self.tier = prop, tier
        self.repo = repo or Repo()
        prepare(self.repo)
        self.obs = []  # (rule, construct, ok, where, detail)
        self.assume = []
        self.funcs = set()
        self.enums = set()
        self._runs = {}

    # -- running the interpreter, memoised per (function, options)
    def run(self, func, **kw):
        k = (str(func), repr(sorted((a, repr(b)) for a, b in kw.items())))
        if k not in self._runs:
            args = kw.pop("args", None)
            kw.setdefault("known", KNOWN)
            it = Interp(self.repo, **kw)
            it.run(func, args=args)
            self._runs[k] = it
            self.funcs.add(str(func) if isinstance(func, str) else func.full)
            for e in it.events:
                if e.func is not None:
                    self.funcs.add(getattr(e.func, "full", str(e.func)))
        return self._runs[k]

    # -- conformance with a reference definition
    def ref(self, like, src, **kw):
        """Interpretation of a reference snippet in the name space of the function `like`."""
        k = ("ref", str(like), src, repr(sorted((a, repr(b)) for a, b in kw.items())))
        if k not in self._runs:
            args = kw.pop("args", None)
            kw.setdefault("known", KNOWN)
            it = Interp(self.repo, **kw)
            it.run(equiv.spec_func(self.repo, like, src), args=args)
            self._runs[k] = it
        return self._runs[k]

    def same(self, rule, func, src, construct=None, pre=None, effects=True, breaks=True, kinds=("set", "mut", "raise", "call"), **kw):
        """The whole function agrees with the reference definition (any of them)."""
        a = self.run(func, **kw)
        srcs = [src] if isinstance(src, str) else src
        best = None
        for s in srcs:
            d = equiv.diff(a, self.ref(func, s, **kw), effects=effects, breaks=breaks, kinds=kinds)
            if best is None or len(d) < len(best):
                best = d
            if not d:
                break
        c = construct or func.split(":")[-1]
        return self.ob(rule, c, not best, best[0][0] if best else func, "; ".join(f"{w}: {x}" for w, x in best[:4]))

    def part(self, rule, func, src, picks, construct=None, pre=None, **kw):
        """Chosen parts of the function agree with the same parts of the reference definition (with
        several references: all parts agree with one of them)."""
        best = None
        for s in [src] if isinstance(src, str) else src:
            a, b = self.run(func, **dict(kw)), self.ref(func, s, **dict(kw))
            res = []
            for p in picks:
                c = (construct or func.split(":")[-1]) + ": " + p.name
                if p.breaks:
                    d = equiv.diff_breaks(a, b)
                    res.append((c, not d, d[0][0] if d else func, "; ".join(f"{w}: {x}" for w, x in d[:3])))
                    continue
                x, y = p.get(a), p.get(b)
                if not y and not p.empty:
                    raise AnalysisBroken(f"the reference of {func} has no {p.name}")
                if not x and not p.empty:
                    res.append((c, False, func, "nothing of this kind in the function"))
                    continue
                d = slices.compare(a, x, b, y, pre, p.cond)
                res.append((c, not d, (d[0][0] or func) if d else "", "; ".join(f"{w} {x}" for w, x in d[:4])))
            n = sum(not r[1] for r in res)
            if best is None or n < best[0]:
                best = (n, res)
            if not n:
                break
        for c, ok, w, d in best[1]:
            self.ob(rule, c, ok, w, d)
        return not best[0]

    def conform(self, rule, construct, ia, a, ib, b, pre=None, cond=True, least=1):
        if least and len(a) < least:
            return self.ob(rule, construct, False, "", f"expected at least {least} place(s), found {len(a)}")
        d = slices.compare(ia, a, ib, b, pre, cond)
        return self.ob(rule, construct, not d, d[0][0] if d else "", "; ".join(f"{w} {x}" for w, x in d[:4]))

    def ob(self, rule, construct, ok, where="", detail=""):
        self.obs.append((rule, construct, bool(ok), str(where), detail))
        return bool(ok)

    def need(self, rule, n, least, where=""):
        """The rule must have met at least `least` instances; fewer means the code is no longer
        understood, and a check that looked at nothing says nothing."""
        if n < least:
            self.ob(rule, "instances", False, where, f"only {n} of at least {least} expected places found")

    def violations(self):
        return [o for o in self.obs if not o[2]]


def known_findings(prop):
    if not os.path.exists(FINDINGS):
        return []
    with open(FINDINGS) as f:
        return [e for e in json.load(f) if e.get("property") == prop and e.get("status") == "known"]


def main(prop, fn, tier, title=""):
    t0 = time.time()
    viol, err = [], None
    try:
        ctx = Ctx(prop, tier)
        fn(ctx)
        if not ctx.obs:
            raise AnalysisBroken("no obligation was generated")
    except (AnalysisBroken, Limits) as e:
        print(f"ERROR property={prop} the analysis could not be carried out: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={prop} internal error in the analysis")
        return 2
    known = known_findings(prop)
    seen, new = [], []
    for r, c, ok, where, detail in ctx.violations():
        k = next((e for e in known if e["rule"] == r and e["construct"] == c), None)
        if k is not None:
            if k not in seen:
                seen.append(k)
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
        else:
            new.append((r, c, where, detail))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rules = {}
    for r, c, ok, where, detail in ctx.obs:
        d = rules.setdefault(r, {"obligations": 0, "discharged": 0, "constructs": []})
        d["obligations"] += 1
        d["discharged"] += ok
        if len(d["constructs"]) < 12 and c not in d["constructs"]:
            d["constructs"].append(c)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of the current source: the functions listed are "
            "interpreted symbolically over abstract terms (no execution, no solver), and each rule "
            "is decided on the resulting guarded effects, returned values and loops.",
            "functions_analysed": sorted(ctx.funcs),
            "rules": rules,
            "obligations": len(ctx.obs),
            "obligations_discharged": sum(o[2] for o in ctx.obs),
            "source_digest": ctx.repo.digest(),
        },
        "assumptions": ctx.assume or ["third-party library calls behave as documented"],
        "wall_s": round(time.time() - t0, 3),
        "violations": [
            {"rule": r, "construct": c, "where": w, "detail": d} for r, c, w, d in new
        ],
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if new:
        rp = os.path.join(HERE, "evidence", prop + ".violations.txt")
        with open(rp, "w") as f:
            for r, c, w, d in new:
                f.write(f"[{r}] {c}\n  at {w}\n  {d}\n")
        for r, c, w, d in new[:8]:
            print(f"  [{r}] {c} at {w}: {d[:400]}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    print(
        f"ok property={prop} obligations={len(ctx.obs)} rules={len(rules)} "
        f"functions={len(ctx.funcs)} known={len(seen)} wall={time.time()-t0:.1f}s"
    )
    return 0
