"""Rules for guard evaluation in verification."""
from . import refs_guard
from .common import *
from .effects import unchanged

G = "verse.automaton.guard:"
C = G + "GuardExpressionAst."
BOXES = {"args": {"stars": FALSE}}
NOSTARS = {"args": {"agent_vars": mk("dict")}}

refs(C, {
    "guard_cont": ("evaluate_guard_cont", "CONT", BOXES),
    "guard_build": ("_build_guard", "BUILD"),
    "guard_formula": ("generate_z3_expression", "FORMULA"),
    "guard_formula_node": ("_generate_z3_expression_node", "FORMULA_NODE"),
    "guard_hybrid": ("evaluate_guard_hybrid", "HYBRID", BOXES),
    "guard_hybrid_node": ("_evaluate_guard_hybrid", "HYBRID_NODE", NOSTARS),
    "guard_along": ("_handle_longitudinal_set", "ALONG"),
    "guard_aside": ("_handle_lateral_set", "ASIDE"),
    "guard_disc": ("evaluate_guard_disc", "DISC"),
    "guard_disc_node": ("_evaluate_guard_disc", "DISC_NODE"),
    "guard_reduce": ("parse_any_all_new", "REDUCE"),
    "guard_unroll": ("unroll_any_all_new", "UNROLL"),
    "guard_element": ("_parse_elt_new", "ELEMENT"),
    "guard_init": ("__init__", "INIT"),
}, vars(refs_guard))
refs(G, {
    "subst_init": ("NodeSubstituter.__init__", "SUBST_INIT"),
    "value_init": ("ValueSubstituter.__init__", "VALUE_INIT"),
    "subst_node": ("NodeSubstituter.visit_Reduction", "SUBST_NODE"),
    "subst_attr": ("ValueSubstituter.visit_Attribute", "SUBST_ATTR"),
    "subst_red": ("ValueSubstituter.visit_Reduction", "SUBST_RED"),
}, vars(refs_guard))


def d01(ctx):
    check(ctx, "possible-unless-refuted", ("guard_cont",), ("guard_build",))
    check(ctx, "formula-of-the-condition", ("guard_formula",), ("guard_formula_node",))
    check(ctx, "discrete-part", ("guard_disc",), ("guard_disc_node",))
    check(ctx, "map-functions-become-variables", ("guard_hybrid",), ("guard_hybrid_node", RET()))
    check(ctx, "condition-not-shared", ("guard_init",))
    check(ctx, "quantifiers-and-map-functions", ("guard_reduce",), ("guard_unroll",), ("guard_element",), ("guard_along",), ("guard_aside",))
    check(ctx, "guard-asked-on-every-segment", ("trans", RET(1)))
    check(ctx, "bounds-of-the-variables", ("updater",), *[(x,) for x in ("sense", "sets", "adds", "set2", "set3", "add2", "add3")])


def d03(ctx):
    check(ctx, "quantifiers-expanded-over-all-agents", ("guard_reduce",), ("guard_unroll",), ("guard_element",))
    check(ctx, "expansion-in-place-of-the-quantifier", ("subst_node",), ("subst_attr",), ("subst_red",), ("subst_init", SETS("new_node", "old_node")), ("value_init", SETS("val", "node")))
    unchanged(ctx, "quantifier-left-as-it-was", C + "unroll_any_all_new", ("cont_var_updater*", "disc_var_dict[]", "node[]"))
    check(ctx, "variables-of-the-expansion", ("updater",), ("sense",), ("sets",), ("adds",))
    check(ctx, "expansion-evaluated", ("guard_disc",), ("guard_disc_node",), ("guard_hybrid",), ("guard_hybrid_node", RET()),
          ("guard_build",), ("guard_formula",), ("guard_formula_node",), ("guard_init",), ("trans", RET(1)))


def d02(ctx):
    check(ctx, "intervals-enclose-the-box", ("guard_along",), ("guard_aside",))
    check(ctx, "intervals-of-both-corners-united", ("guard_hybrid_node",))
    func, _, kw = F["guard_hybrid_node"]
    if ctx.repo.missing(func):
        return
    segs = [dict(e.a[0].a[2]).get("lane_seg") for e in ctx.run(func, **dict(kw)).events if e.kind == "call" and isinstance(e.a[0], T) and e.a[0].op == "call" and "_handle_l" in show(e.a[0].a[0], 2)]
    segs = [x for x in segs if x is not None]
    few = [x for x in segs if any(c.op == "call" and "get_lane_segment" in show(c.a[0], 2) for c in walk(x))]
    if segs:
        ctx.ob("every-segment-of-the-box", "segments under a box", not few, func, "the interval is taken over the segments of the lower and the upper corner only")


RULES = {"D01": d01, "D02": d02, "D03": d03}
