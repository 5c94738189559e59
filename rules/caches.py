"""Rules for the caches of incremental runs."""
from . import refs_inc
from .common import *
from .effects import cached

refs("verse.analysis.incremental:", {
    "to_simulate": ("to_simulate", "TO_SIMULATE"),
    "conv_sim": ("convert_sim_trans", "SIM_TRANS"),
    "conv_reach": ("convert_reach_trans", "REACH_TRANS"),
    "combine_all": ("combine_all", "COMBINE_ALL"),
    "sim_suit": ("sim_trans_suit", "SIM_SUIT"),
    "reach_suit": ("reach_trans_suit", "REACH_SUIT"),
    "tube_eq": ("CachedTube.__eq__", "TUBE_EQ"),
    "sim_cache": ("SimTraceCache.__init__", "CACHE_INIT"), "tube_store": ("TubeCache.__init__", "CACHE_INIT"), "reach_cache": ("ReachTubeCache.__init__", "CACHE_INIT"),
    "add_segment": ("SimTraceCache.add_segment", "ADD_SEGMENT"),
    "sim_query": ("SimTraceCache.query_cont", "SIM_QUERY"),
    "sim_hit": ("SimTraceCache.check_hit", "SIM_HIT"),
    "add_tube": ("TubeCache.add_tube", "ADD_TUBE"),
    "tube_hit": ("TubeCache.check_hit", "TUBE_HIT"),
    "add_reach": ("ReachTubeCache.add_tube", "ADD_REACH"),
    "reach_query": ("ReachTubeCache.query_cont", "REACH_QUERY"),
    "reach_hit": ("ReachTubeCache.check_hit", "REACH_HIT"),
}, vars(refs_inc))
from .engine import DRYVR

refs("verse.analysis.", {
    "sim_trans_cached": ("simulator:Simulator.get_transition_simulate", "SIM_TRANS_CACHED"),
    "trans_cached": ("verifier:Verifier.get_transition_verify_opt", "TRANS_CACHED", {"assume": DRYVR}),
}, vars(refs_inc))


def mentions(t, names, seen=None):
    if not isinstance(t, T):
        return any(mentions(x, names) for x in t) if isinstance(t, tuple) else False
    if t.op == "sym" and t.a[0] in names or t.op == "attr" and t.a[1] in names:
        return True
    return any(mentions(x, names) for x in t.a)


def f01(ctx):
    check(ctx, "entries-stored-for-their-set", ("add_segment",), ("add_tube",), ("add_reach",), ("combine_all",), ("conv_sim",), ("conv_reach",), ("sim_cache",), ("tube_store",), ("reach_cache",))
    check(ctx, "entries-found-only-for-contained-sets", ("sim_query",), ("sim_hit",), ("tube_hit",), ("reach_query",), ("reach_hit",), ("sim_suit",), ("reach_suit",), ("tube_cache",), ("tube_eq",))
    check(ctx, "asked-for-the-set-at-hand", ("sim_loop", CALL("check_hit"), CALL("simulate_one")), ("loop", CALL("check_hit"), CALL("check_cache_bloated_tube"), CALL("compute_full_reachtube_step")))
    check(ctx, "cached-results-used-for-their-agent", ("sim_one", SETS("trace")), ("step", SETS("trace")), ("tube",))
    cached(ctx)
    check(ctx, "results-stored-under-their-key", ("sim_proc",), ("proc",))
    for name, fn, what in (("sim_loop", "check_hit", "simulated traces"), ("loop", "check_cache_bloated_tube", "tubes")):
        func, _, kw = F[name]
        got = slices.call_items(ctx.run(func, **dict(kw)), [fn], ())
        ok = bool(got) and all(any(mentions(t, ("time_horizon", "time_step", "start_time", "static")) for t in x.terms) for x in got)
        ctx.ob("entries-asked-for-the-time-at-hand", "lookup of " + what, ok, func, "the lookup does not depend on the start time, the remaining time, the time step or the static parameters")


def f02(ctx):
    check(ctx, "changed-logic-is-rechecked", ("to_simulate",), ("path_eq",))
    check(ctx, "cached-transitions-combined-with-rechecked-ones", ("sim_trans_cached",), ("trans_cached",))
    check(ctx, "cached-transitions-fit-the-states", ("sim_suit",), ("reach_suit",), ("sim_hit",), ("reach_hit",), ("sim_query",), ("reach_query",))
    check(ctx, "transitions-stored-with-their-states", ("conv_sim",), ("conv_reach",), ("add_segment",), ("add_reach",), ("sim_proc",), ("proc",))
    check(ctx, "old-and-new-logic-compared", ("sim_one", CALL("to_simulate"), CALL("get_transition_simulate")), ("step", CALL("to_simulate"), CALL("get_transition_verify_opt")))
    check(ctx, "snapshot-of-the-logic", ("root",))
    for name, what in (("sim_trans_cached", "simulation"), ("trans_cached", "verification")):
        func, _, kw = F[name]
        a = ctx.run(func, **dict(kw))
        bad = [x for x in slices.ret_items(a, 0) if x.terms[0].op == "const" and any(c == lnot(mk("nonempty", sym("paths"))) for c in conjuncts(x.cond))]
        ctx.ob("assertions-checked-on-cached-nodes", what + ": node whose transitions are all cached", not bad, func, "returns the cached transitions without looking at any assertion")


RULES = {"F01": f01, "F02": f02}
