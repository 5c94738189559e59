"""Rules about what functions change and keep: aliases and effects (vf/effects.py)."""
import re

from .common import *
from vf.effects import Effects
from vf.interp import Limits
from vf.known import KNOWN
from vf.repo import AnalysisBroken

ENGINE = {"self.*"}
PROTECTED = {  # what belongs to the user of a class and is changed by its setters only
    "Scenario": ("agent_dict", "init_dict", "init_mode_dict", "static_dict", "uncertain_param_dict", "map", "sensor", "config"),
    "Simulator": ("config",), "Verifier": ("config",),
    "LaneMap": ("",), "LaneMap_3d": ("",), "BaseAgent": ("",), "BaseSensor": ("",), "AnalysisTree": ("",), "AnalysisTreeNode": ("",),
    "SimTraceCache": ("cache",), "TubeCache": ("cache",), "ReachTubeCache": ("cache",),
}
ALLOWED = {  # in-place changes that are the purpose of a function
    "Scenario.*": ["self.agent_dict[].init_cont", "self.agent_dict[].init_disc", "self.agent_dict[].*_parameters"],  # an agent is told its initial set
    "BaseAgent.__init__": ["code*"],  # a string
    "Scenario._get_init_from_agent": ["self.*_dict[]"],
    "add_states_*d": ["cont[]", "cont[][]", "disc[]", "disc[][]"], "set_states_*d": ["cnts[]", "disc[]"],
    "Simulator.simulate": ["root.trace[]", "root.assert_hits", "root.trace"],
    "Verifier.compute_full_reachtube": ["root.trace[]", "root.assert_hits", "root.trace"],
    "Verifier.compute_full_reachtube_partitioned": ["root.trace[]", "root.assert_hits", "root.trace"],
    "Benchmark.replace_scenario": ["new_scenario.config", "new_scenario.*.config"],
    "Scenario.simulate": ["self.past_runs[]"], "Scenario.simulate_simple": ["self.past_runs[]"], "Scenario.simulate_multi": ["self.past_runs[]"],
    "Scenario.verify": ["self.past_runs[]"], "Scenario.verify_partitioned": ["self.past_runs[]"],
    "Scenario.add_agent": ["self.*_dict[]", "agent.decision_logic.mode_defs[].modes[]"], "Scenario.set_init_single": ["self.*_dict[]"],
    "Scenario.set_init": ["self.*_dict[]"], "Scenario.set_map": ["self.map", "self.agent_dict[].decision_logic.mode_defs[].modes[]"], "Scenario.set_sensor": ["self.sensor"],
    "Scenario._update_agent_lane_mode": ["agent.decision_logic.mode_defs[].modes[]"],
    "Scenario.update_config": ["self.config", "self.verifier.config", "self.simulator.config"], "Scenario.cleanup_cache": ["self.past_runs", "self.simulator", "self.verifier"],
    "Benchmark.*": ["self.*"],
    "Simulator.proc_result": ["next_nodes[].id", "result of check_hit().transitions*", "result of check_hit().node_ids[]"],
    "Verifier.proc_result": ["next_nodes[].id", "result of check_hit().transitions*", "result of check_hit().node_ids[]"],
    "Simulator.simulate_one": ["node.trace", "node.trace[]", "node.assert_hits"],
    "Verifier.compute_full_reachtube_step": ["cached_tubes[][]", "node.trace", "node.trace[]", "node.assert_hits"],
    "Verifier.compute_full_reachtube_step_partitioned": ["node.trace", "node.trace[]", "node.assert_hits"],
    "Simulator.simulate_simple": ["root.trace", "root.trace[]", "root.assert_hits", "root.child", "root.child[]"],
    "Verifier.calculate_full_bloated_tube_simple": ["cached_tube_info[][]"],  # a copy, see COPIES
    "Verifier.apply_cont_var_updater": ["cont_var_dict[]"],
    "SimTraceCache.add_segment": ["self.cache*"], "TubeCache.add_tube": ["self.cache*"], "ReachTubeCache.add_tube": ["self.cache*"],
    "LaneMap.add_lanes": ["self.*"], "LaneMap.pair_lanes": ["self.*"], "LaneMap_3d.add_lanes": ["self.*"], "LaneMap_3d.pair_lanes": ["self.*"],
    "LaneMap_3d.get_next_point": ["self.curr_*", "self.wps*"],
    "Lane._set_longitudinal_start": ["self.segment_list[].longitudinal_start"], "Lane_3d._set_longitudinal_start": ["self.segment_list[].longitudinal_start"],
    "*.from_config": ["config[]"],
    "AnalysisTree.collect_leaf_nodes": ["leafs[]"], "AnalysisTree._get_len": ["lens[]"], "AnalysisTree.dump": ["self.root.id[]"],
    "convertStrToEnum": ["inp[]"], "convertEnumToStr": ["inp[]"],
    "sets": ["d[]"], "adds": ["d[]", "d[][]"],
    "BaseAgent.set_*": ["self.*"],
}
STATE = ("verse.scenario.scenario:", "verse.analysis.simulator:", "verse.analysis.verifier:", "verse.analysis.incremental:", "verse.analysis.analysis_tree:",
         "verse.sensor.base_sensor:", "verse.agents.base_agent:", "verse.analysis.dryvr:", "verse.analysis.utils:", "verse.utils.utils:", "verse.utils.fixed_points:",
         "verse.map.lane:", "verse.map.lane_map:", "verse.map.lane_segment:", "verse.map.lane_3d:", "verse.map.lane_map_3d:", "verse.map.lane_segment_3d:",
         "verse.automaton.reset:", "verse.analysis.mixmonotone:")
STARS = ("_stars", "_star")  # incremental runs with star sets fail before they get this far
SHOW = ("verse.plotter.plotter2D:", "verse.plotter.plotter3D:", "verse.plotter.plotter3D_new:", "verse.plotter.plotterStar:", "verse.utils.fixed_points:")
FILLS = ("verse.scenario.scenario:Scenario._get_init_from_agent",)  # completes what the user left open
QUIET = ("AnalysisTree.dump", "AnalysisTree.height", "AnalysisTree.leaves", "AnalysisTree.is_equal", "AnalysisTree.contains", "AnalysisTree.get_leaf_nodes",
         "AnalysisTree.first_transitions", "AnalysisTree.transition_times", "AnalysisTree._get_len", "AnalysisTree.get_timed_agent_reach_dict", "AnalysisTree.check_mode",
         "AnalysisTree._get_all_nodes", "AnalysisTreeNode.to_dict", "AnalysisTreeNode.get_track", "AnalysisTreeNode.get_mode")


def rex(p):
    return re.compile("".join(".*" if c == "*" else re.escape(c) for c in p) + r"\Z")


def match(p, pats):
    return any(rex(x).match(p) for x in pats)


def names(ctx, full):
    """current parameter name -> name on the reference tree, by position"""
    old, new = SIG[full][1], params(ctx.repo.func(full).node)
    return dict(zip(new, old)) if len(old) <= len(new) else {}


def renamed(m, p):
    h = re.match(r"[A-Za-z_0-9]+", p)
    return m.get(h.group(), h.group()) + p[h.end():] if h and not p.startswith("global ") else p


def own(cls):
    for c, fs in PROTECTED.items():
        if cls == c:
            return fs
    return ("",)


def allowed(name, path):
    cls, _, meth = name.rpartition(".")
    if meth == "__init__":
        return path.startswith("self.") or match(path, ALLOWED.get(name, ()))
    for k, v in ALLOWED.items():
        if match(name, [k]) and match(path, v):
            return True
    if path.startswith("self."):
        f = own(cls)
        return f != ("",) and not any(path == "self." + x or path.startswith(("self." + x + ".", "self." + x + "[")) for x in f) and not path.startswith("self.past_runs")
    return False


def summary(ctx):
    """name of a function -> ([(parameter, rest of the path)] it changes, [(parameter, rest, layers)] it returns)"""
    memo = ctx.__dict__.setdefault("_summaries", {})

    def of(name):
        full = name[5:] if name.startswith("func ") else name
        if full not in SIG or any(full.endswith(x) for x in STARS) or full in FILLS:
            return (), ()
        if full not in memo:
            memo[full] = (), ()
            if not ctx.repo.missing(full):
                m = names(ctx, full)
                eff = Effects(ctx.run(full), of)
                out, ret = set(), set()
                for p, e in eff.writes():
                    p = renamed(m, p)
                    h = re.match(r"[A-Za-z_0-9]+", p)
                    if h and not p.startswith(("global ", "result of ")):
                        out.add((h.group(), p[h.end():]))
                for pc, val, st in eff.it.returns:
                    for p, l in (x for x in eff.of(val, st.heap, st.store) if not x[1]) if isinstance(val, T) else ():
                        if p.startswith(("global ", "result of ")):
                            ret.add((None, p, l))
                        else:
                            p = renamed(m, p)
                            h = re.match(r"[A-Za-z_0-9]+", p)
                            ret.add((h.group(), p[h.end():], l))
                memo[full] = tuple(sorted(out)), tuple(sorted(ret, key=repr))
        return memo[full]
    return of


def unchanged(ctx, rule, full, more=()):
    """The function changes nothing it was given, except what the table allows."""
    if ctx.repo.missing(full) or full in ctx.repo.changed and extras(ctx, full) is None:
        return
    name = full.split(":")[-1]
    m = names(ctx, full)
    it = ctx.run(full)
    bad = {}
    for p, e in Effects(it, summary(ctx)).writes():
        q = renamed(m, p)
        if not allowed(name, q) and not match(q, more) and ".id[" not in q:  # the id of a node is a number
            bad.setdefault(q, e)
    for q, e in list(bad.items())[:4]:
        ctx.ob(rule, name + ": " + q, False, f"{full.split(':')[0]}:{e.line}", "changes " + q + " in place")
    if not bad:
        ctx.ob(rule, name, True, full)


def copied(ctx, rule, full, forbidden, through=False):
    """Nothing the function stores or returns holds one of the given objects itself."""
    if ctx.repo.missing(full) or full in ctx.repo.changed and extras(ctx, full) is None:
        return
    name, m = full.split(":")[-1], names(ctx, full)
    it = ctx.run(full)
    ef = Effects(it, summary(ctx) if through else None)
    got = [(renamed(m, q), p, f"line {e.line}") for p, q, l, e in ef.kept()]
    for pc, v, s in it.returns:
        got += [(renamed(m, q), "the result", "") for q, l in ef.of(v, s.heap, s.store)]
    for f in forbidden:
        hit = [(p, w) for q, p, w in got if match(q, [f])]
        ctx.ob(rule, name + ": " + f, not hit, full, "".join(f"{p} holds the caller's {f} itself ({w})" for p, w in hit[:1]))


SC, AG = "verse.scenario.scenario:Scenario.", "verse.agents.base_agent:BaseAgent."
COPIES = {
    SC + "set_init_single": ("init", "init[]", "init_mode", "static", "uncertain_param", "uncertain_param[]"),
    SC + "add_agent": ("agent.init_cont", "agent.init_cont[]", "agent.init_disc", "agent.static_parameters", "agent.uncertain_parameters", "agent.uncertain_parameters[]"),
    AG + "set_initial_state": ("initial_state", "initial_state[]"),
    AG + "set_initial_mode": ("initial_mode",),
    AG + "set_static_parameter": ("static_param",),
    AG + "set_uncertain_parameter": ("uncertain_param", "uncertain_param[]"),
    "verse.analysis.analysis_tree:AnalysisTreeNode.root_from_inits": ("uncertain_param", "agent", "agent[]"),
    "verse.analysis.verifier:Verifier.check_cache_bloated_tube": ("result of check_hit()*",),
}


def rewritten(ctx, rule, full, forbidden):
    """What is handed to a rewriting visitor, which changes it in place, holds nothing of the given objects."""
    if ctx.repo.missing(full) or full in ctx.repo.changed and extras(ctx, full) is None:
        return
    name, m = full.split(":")[-1], names(ctx, full)
    it = ctx.run(full)
    ef = Effects(it, summary(ctx))
    bad = {}
    for e in it.events:
        c = e.a[0] if e.kind == "call" else None
        if isinstance(c, T) and c.op == "call" and c.a[0].op == "attr" and c.a[0].a[1] == "visit":
            for x in list(c.a[1]) + [v for _, v in c.a[2]]:
                for q, l in ef.of(x, {}, {}):
                    q = renamed(m, q)
                    if match(q, forbidden):
                        bad.setdefault(q, e.line)
    for q, l in bad.items():
        ctx.ob(rule, f"{name}: {q}", False, f"{full.split(':')[0]}:{l}", q + " itself is rewritten")
    if not bad:
        ctx.ob(rule, name, True, full)


def in_scope(ctx, pre, skip=()):
    return [f for f in KNOWN if f.startswith(pre) and not any(f.endswith(s) for s in skip)]


def h02(ctx):
    n = 0
    for f in in_scope(ctx, STATE, STARS):
        unchanged(ctx, "inputs-left-unchanged", f)
        n += 1
    ctx.need("inputs-left-unchanged", n, 100)
    for f, what in COPIES.items():
        copied(ctx, "settings-are-copies", f, what)
    copied(ctx, "guards-are-copies", "verse.automaton.guard:GuardExpressionAst.__init__", ("guard_list", "guard_list[]"))


def cached(ctx):
    """results kept in a cache are not changed by those who use them"""
    for f in ("Verifier.check_cache_bloated_tube", "Verifier.calculate_full_bloated_tube_simple", "Verifier.compute_full_reachtube_step"):
        unchanged(ctx, "cached-results-left-unchanged", "verse.analysis.verifier:" + f)
    copied(ctx, "cached-results-left-unchanged", "verse.analysis.verifier:Verifier.check_cache_bloated_tube", ("result of check_hit()*",))
    unchanged(ctx, "cached-results-left-unchanged", "verse.analysis.simulator:Simulator.simulate_one")


def choices(ctx):
    """one choice does not see what another one changed"""
    for f in ("simulator:check_sim_transitions", "simulator:Simulator.get_transition_simulate", "simulator:Simulator.get_transition_simulate_simple",
              "verifier:Verifier.get_transition_verify_opt", "verifier:Verifier.apply_reset"):
        unchanged(ctx, "choices-do-not-share-state", "verse.analysis." + f)


def engines(ctx):
    """a node keeps its own state when its successors are made"""
    for f in ("simulator:Simulator.simulate_one", "simulator:Simulator.simulate_simple", "verifier:Verifier.compute_full_reachtube_step",
              "verifier:Verifier.compute_full_reachtube_step_partitioned"):
        unchanged(ctx, "parent-keeps-its-state", "verse.analysis." + f)


def n01(ctx):
    for f in in_scope(ctx, SHOW):
        unchanged(ctx, "figures-leave-the-result-unchanged", f, ("fig*", "ax*", "fig[]*"))
    for q in QUIET:
        f = "verse.analysis.analysis_tree:" + q
        if f in KNOWN:
            unchanged(ctx, "queries-leave-the-result-unchanged", f)


RULES = {"H02": h02, "N01": n01}
