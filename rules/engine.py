"""Rules for the simulation and reachability engines."""
import ast

from . import refs_sim, refs_ver
from .common import *
from .effects import choices, engines
from vf import equiv

V = "verse.analysis.verifier:Verifier."
M = "verse.analysis.simulator:"


def method(name):
    return attr(ref("class verse.analysis.verifier:ReachabilityMethod"), name)


def assuming(name):
    rm = method(name)
    return {attr(sym("consts"), "reachability_method"): rm, attr(sym("config"), "reachability_method"): rm,
            attr(attr(sym("self"), "config"), "reachability_method"): rm}


DRYVR = assuming("DRYVR")
RM = {"reachability_method": method("DRYVR")}
EMPTY = {"cache": mk("dict")}

STAR_SCAN = refs_ver.TRANSITIONS  # the same scan over a list of star sets, one per time step
for old, new in (("node.trace[a][0:2]", "node.trace[a][0:1][0]"), ("node.trace.values()) // 2)", "node.trace.values()))"),
                 ("combine_rect(node.trace[a][idx * 2:(idx + 1) * 2])", "node.trace[a][idx]"), ("track_map, False)\n                        if sat", "track_map, True)\n                        if sat"),
                 ("evaluate_guard_cont(agent, cont, track_map, False)", "evaluate_guard_cont(agent, cont, track_map, True)"),
                 ("evaluate_guard_hybrid(agent, dv, cv, track_map, False)", "evaluate_guard_hybrid(agent, dv, cv, track_map, True)"),
                 ("evaluate_guard_cont(agent, cv, track_map, False)", "evaluate_guard_cont(agent, cv, track_map, True)"), ("Verifier.apply_reset(", "Verifier.apply_reset_stars(")):
    assert old in STAR_SCAN
    STAR_SCAN = STAR_SCAN.replace(old, new)

refs(M, {
    "sim_one": ("Simulator.simulate_one", ("SIMULATE_ONE", "SIMULATE_ONE_GO_ON")),
    "sim_trans": ("Simulator.get_transition_simulate", "GET_TRANSITION", {"args": {"cache": mk("dict"), "paths": mk("list")}}),
    "sim_check": ("check_sim_transitions", "CHECK_SIM"),
    "sim_proc": ("Simulator.proc_result", "PROC_RESULT"),
    "sim_loop": ("Simulator.simulate", "SIMULATE"),
    "simple_trans": ("Simulator.get_transition_simulate_simple", "GET_TRANSITION_SIMPLE"),
    "simple_loop": ("Simulator.simulate_simple", "SIMULATE_SIMPLE"),
    "pack": ("pack_env", "PACK_ENV"),
    "sim_init": ("Simulator.__init__", "SIM_INIT"),
}, vars(refs_sim))
refs(V, {
    "tube": ("calculate_full_bloated_tube_simple", "TUBE_SIMPLE"),
    "tube_cache": ("check_cache_bloated_tube", "CHECK_CACHE_TUBE"),
    "step": ("compute_full_reachtube_step", "STEP", {"assume": DRYVR}),
    "step_mc": ("compute_full_reachtube_step", "STEP", {"assume": assuming("MIXMONO_CONT")}),
    "step_md": ("compute_full_reachtube_step", "STEP", {"assume": assuming("MIXMONO_DISC")}),
    "step_neu": ("compute_full_reachtube_step", "STEP", {"assume": assuming("NEU_REACH")}),
    "step_disc": ("compute_full_reachtube_step", "STEP", {"assume": assuming("DRYVR_DISC")}),
    "step_star": ("compute_full_reachtube_step", "STEP_STAR", {"assume": assuming("STAR_SETS")}),
    "proc": ("proc_result", "PROC"),
    "loop": ("compute_full_reachtube", "LOOP", {"args": RM}),
    "trans": ("get_transition_verify_opt", "TRANSITIONS", {"assume": DRYVR, "args": EMPTY}),
    "trans_star": ("get_transition_verify_opt", "STAR_SCAN", {"assume": assuming("STAR_SETS"), "args": EMPTY}),
    "updater": ("apply_cont_var_updater", "UPDATER"),
    "reset": ("apply_reset", "RESET"),
    "ver_init": ("__init__", "VER_INIT"),
    "corners": ("_get_combinations", "CORNERS"),
    "part": ("_partition_rect", "PARTITION"),
    "part_trace": ("_compute_trace_for_partition", "TRACE_PART", {"args": RM}),
    "part_step": ("compute_full_reachtube_step_partitioned", "STEP_PART", {"assume": DRYVR}),
    "part_loop": ("compute_full_reachtube_partitioned", "LOOP_PART", {"args": RM}),
}, dict(vars(refs_ver), STAR_SCAN=STAR_SCAN))


CHILD = lambda *p: CALL("new_child", *p)


def a02(ctx):
    check(ctx, "cells-cover-the-box", ("part",))
    check(ctx, "every-box-is-propagated", ("part_step", SETS("trace")), ("part_trace",))
    check(ctx, "every-cell-is-reset", ("part_step", CHILD("init"), RET(2)), ("reset",), ("corners",), ("updater",))
    check(ctx, "partition-asked-for", ("part_loop", CALL("compute_full_reachtube_step_partitioned")), ("verify_part", CALL("compute_full_reachtube_partitioned")))


def a03(ctx):
    for n in ("step", "step_mc", "step_md", "step_neu", "step_disc", "step_star"):
        check(ctx, "tube-of-this-agent", (n, SETS("trace")))
    check(ctx, "settings-reach-the-engine", ("loop", CALL("ReachConsts"), CALL("compute_full_reachtube_step")),
          ("part_loop", CALL("ReachConsts"), CALL("compute_full_reachtube_step_partitioned")), ("sim_loop", CALL("SimConsts"), CALL("simulate_one")))
    check(ctx, "settings-reach-the-tube", ("tube", CALL("calc_bloated_tube")), ("part_trace",), ("part_step", SETS("trace")))
    check(ctx, "settings-reach-the-simulation", ("sim_one", SETS("trace")), ("simple_loop", CALL("TC_simulate")))
    check(ctx, "settings-of-the-scenario-used", ("verify", CALL("compute_full_reachtube")), ("verify_part", CALL("compute_full_reachtube_partitioned")),
          ("simulate", CALL("simulate")), ("simulate_simple", CALL("simulate_simple")), ("simulate_multi", CALL("simulate")))


def b01(ctx):
    check(ctx, "hits-kept-on-the-node", ("sim_one", SETS("assert_hits"), RET(4)), ("step", SETS("assert_hits"), RET(4)), ("step_star", SETS("assert_hits"), RET(4)),
          ("part_step", SETS("assert_hits"), RET(4)), ("simple_loop", SETS("assert_hits")))
    check(ctx, "hits-returned-by-the-scan", ("trans", RET(0)), ("trans_star", RET(0)), ("sim_check", RET(0)), ("sim_trans", RET(0)), ("simple_trans", RET(0)))
    check(ctx, "hits-kept-after-the-step", ("sim_proc", SETS("assert_hits")), ("proc", SETS("assert_hits")))


def b02(ctx):
    check(ctx, "reported-iff-violated", ("trans", RET(0)), ("trans_star", RET(0)), ("sim_check", RET(0)), ("sim_trans", RET(0)), ("simple_trans", RET(0)))
    check(ctx, "states-the-assertion-is-evaluated-on", ("pack",))
    check(ctx, "can-hold-unless-refuted", ("guard_cont",), ("guard_build",), ("guard_formula",), ("guard_formula_node",), ("guard_disc",), ("guard_disc_node",))


def b03(ctx):
    check(ctx, "children-after-a-hit", ("sim_one", RET(2)), ("step", RET(2)), ("part_step", RET(2)), ("simple_loop", CHILD()))
    ideal(ctx, "simulation-goes-on-when-asked", "successors of a node with a violation", "sim_one", refs_sim.SIMULATE_ONE_GO_ON, RET(2))
    check(ctx, "trace-kept-after-a-hit", ("sim_one", SETS("trace")), ("step", SETS("trace")), ("part_step", SETS("trace")), ("simple_loop", SETS("trace")),
          ("step_star", SETS("trace")))
    check(ctx, "same-transitions-when-going-on", ("trans", RET()), ("trans_star", RET()), ("sim_trans", RET()), ("simple_trans", RET()), ("sim_check",))


def b04(ctx):
    check(ctx, "no-early-exit", ("trans", BREAKS, RET(1)), ("trans_star", BREAKS, RET(1)), ("sim_trans", BREAKS, RET(1), RET(2)), ("simple_trans", BREAKS, RET(1), RET(2)))

    a = ctx.run(F["trans"][0], **F["trans"][2])
    left = [c for c in equiv.group_breaks(a).values() if c is not FALSE]
    ctx.ob("whole-tube-scanned", "tube scan: exits before the last segment", not left, F["trans"][0],
           "leaves the scan when " + "; ".join(show(c, 6) for c in left[:2]))


def c01(ctx):
    check(ctx, "explored-iff-within-limits", ("loop", CALL("compute_full_reachtube_step", "node", "remain_time")),
          ("part_loop", CALL("compute_full_reachtube_step_partitioned", "node", "remain_time")), ("sim_loop", CALL("simulate_one", "node", "remain_time")),
          ("simple_loop", CALL("TC_simulate")))
    check(ctx, "children-are-queued", ("proc", SETS("verification_queue", "nodes", "child")), ("sim_proc", SETS("simulation_queue", "nodes", "child")),
          ("simple_loop", SETS("child")))
    check(ctx, "run-not-ended-early", *[(n, BREAKS) for n in ("loop", "part_loop", "sim_loop", "simple_loop")])
    check(ctx, "depth-and-start-of-a-node", ("child",), ("root",), ("node_init",))
    check(ctx, "limits-given-to-the-engine", ("verify", CALL("compute_full_reachtube")), ("verify_part", CALL("compute_full_reachtube_partitioned")),
          ("simulate", CALL("simulate")), ("simulate_simple", CALL("simulate_simple")), ("simulate_multi", CALL("simulate")))
    check(ctx, "children-until-the-depth-limit", ("step", RET(2)), ("part_step", RET(2)), ("sim_one", RET(2)))


ENGINES = ("sim_one", "step", "part_step", "simple_loop", "step_star")


def c02(ctx):
    check(ctx, "successor-starts-where-the-node-ends", *[(n, CHILD("start_time", "trace")) for n in ENGINES])
    check(ctx, "node-ends-where-the-successor-starts", *[(n, SETS("trace")) for n in ENGINES])
    check(ctx, "successor-keeps-its-start-time", ("child",), ("root",), ("node_init",))
    check(ctx, "time-of-the-transition", ("sim_trans", RET(2)), ("simple_trans", RET(2)), ("trans", RET(1)), ("trans_star", RET(1)))
    check(ctx, "tube-follows-the-initial-boxes", ("tube",), ("part_trace",))
    d = ctx.repo.cls("verse.scenario.scenario_config:ScenarioConfig").attrs.get("init_seg_length")
    ctx.ob("initial-boxes-keep-their-jump-time", "ScenarioConfig: default number of initial boxes merged", isinstance(d, ast.Constant) and d.value == 1,
           "verse/scenario/scenario_config.py", "initial boxes of different jump times are merged into one that starts at the first jump time")


def c03(ctx):
    check(ctx, "successor-state", *[(n, CHILD("init", "mode", "trace")) for n in ENGINES])
    check(ctx, "successor-fields", ("child",), ("root",), ("node_init",))
    engines(ctx)
    check(ctx, "successor-queued-unchanged", ("proc",), ("sim_proc",))


def c04(ctx):
    check(ctx, "every-choice-explored", ("sim_check", RET(1)), ("sim_trans", RET(1)), ("trans", RET(1)), ("trans_star", RET(1)))
    check(ctx, "one-successor-per-choice", *[(n, CHILD("mode", "init")) for n in ENGINES], *[(n, RET(2)) for n in ENGINES if n != "simple_loop"])
    check(ctx, "only-equal-transitions-merge", ("dedup",), ("simple_trans", RET(1)))
    check(ctx, "every-successor-kept", ("proc", SETS("verification_queue", "nodes", "child")), ("sim_proc", SETS("simulation_queue", "nodes", "child")))
    choices(ctx)


def c05(ctx):
    check(ctx, "only-permitted-transitions", ("sim_trans", RET(1)), ("trans", RET(1)), ("trans_star", RET(1)))
    check(ctx, "track-and-maneuver-of-a-mode", ("track",), ("mode",))
    check(ctx, "what-the-map-permits", ("h",), ("h_exist",), ("h3",), ("h3_exist",))


def c06(ctx):
    check(ctx, "state-the-expressions-are-evaluated-in", ("pack",))
    check(ctx, "reset-values", ("reset",), ("corners",), ("sim_check", RET(1)), ("simple_trans", RET(1)), ("trans", RET(1)), ("trans_star", RET(1)))
    choices(ctx)
    check(ctx, "reset-applied-on-each-cell", ("part_step", CHILD("init")))
    check(ctx, "bounds-used-by-the-reset", ("updater",))
    check(ctx, "reset-reaches-the-successor", *[(n, CHILD("init", "mode")) for n in ENGINES])


def o01(ctx):
    check(ctx, "same-work-sent-away", ("sim_loop", CALL("remote"), CALL("simulate_one"), CALL("SimConsts")),
          ("loop", CALL("remote"), CALL("compute_full_reachtube_step"), CALL("ReachConsts")))
    check(ctx, "whole-result-of-a-step", ("sim_one", RET()), ("step", RET()))
    check(ctx, "every-result-awaited", ("sim_loop", SETS("result_refs"), BREAKS), ("loop", SETS("result_refs"), BREAKS))
    check(ctx, "same-handling-of-results", ("sim_loop", CALL("proc_result")), ("loop", CALL("proc_result")), ("sim_proc",), ("proc",))


RULES = {"A02": a02, "A03": a03, "B01": b01, "B02": b02, "B03": b03, "B04": b04, "C01": c01, "C02": c02, "C03": c03, "C04": c04,
         "C05": c05, "C06": c06, "O01": o01}
