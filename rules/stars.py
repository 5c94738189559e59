"""Rules for star sets."""
from . import refs_star
from .common import *

M = "verse.stars.starset:"
V = vars(refs_star)
refs(M, {
    "star_new": ("StarSet.__init__", "NEW"), "star_starcopy": ("StarSet.starcopy", "COPY"), "star_copy": ("StarSet.copy", "COPY"),
    "star_super": ("StarSet.superposition", "SAME_PREDICATE"), "star_linear": ("StarSet.calc_reach_tube_linear", "LINEAR_TUBE"),
    "star_box": ("StarSet.overapprox_rectangle", "BOX"), "star_minmax": ("StarSet.get_max_min", "EXTREMES"),
    "star_rect": ("StarSet.rect_to_star", "FROM_BOX"), "star_polytope": ("StarSet.from_polytope", "FROM_POLYTOPE"), "star_poly": ("StarSet.from_poly", "FROM_POLY"),
    "star_tube": ("StarSet.calc_reach_tube", "TUBE"), "star_post": ("StarSet.post_cont", "POST"), "star_reset": ("StarSet.apply_reset", "RESET"),
    "star_cutcopy": ("StarSet.get_halfspace_intersection", "CUT_COPY"), "star_half": ("StarSet.intersection_halfspace", "CUT_HALF"), "star_cut": ("StarSet.intersection_poly", "CUT_POLY"),
    "star_inside": ("StarSet.satisfies", "INSIDE"), "star_point": ("StarSet.contains_point", "HAS_POINT"), "star_constrain": ("StarSet.add_constraints", "CONSTRAIN"),
    "star_furthest": ("StarSet.maximize", "FURTHEST"), "star_empty": ("StarSet.is_empty", "EMPTY"), "star_feasible": ("StarSet.is_feasible", "FEASIBLE"),
    "star_hull": ("StarSet.combine_stars", "HULL"), "star_middle": ("StarSet.get_true_center", "MIDDLE"),
    "star_has": ("containment_poly", "HAS_POINT_FUN"), "star_sample": ("sample_star", "SAMPLE"),
    "star_around": ("post_cont_pca", "AROUND"), "star_unit": ("new_pred", "UNIT"), "star_fit": ("gen_starset", "FIT"), "star_runs": ("gen_starsets_post_sim", "RUNS"), "star_stepwise": ("sim_star", "STEPWISE"),
}, V)

refs("verse.analysis.verifier:Verifier.", {
    "star_segments": ("calculate_full_bloated_tube_stars", "SEGMENTS", {"args": {"incremental": FALSE}}),
    "star_resets": ("apply_reset_stars", "RESET_STARS"),
}, V)


def q01(ctx):
    check(ctx, "set-built-as-given", ("star_new",), ("star_starcopy",), ("star_copy",), ("star_super",), ("star_rect",), ("star_polytope",), ("star_poly",))
    check(ctx, "image-under-a-map", ("star_post",), ("star_reset",), ("star_linear",), ("star_tube",))
    check(ctx, "intersection-keeps-exactly-the-common-points", ("star_cutcopy",), ("star_half",), ("star_cut",))
    check(ctx, "extent-of-the-set", ("star_box",), ("star_minmax",), ("star_hull",), ("star_furthest",), ("star_middle",))
    check(ctx, "membership-and-emptiness", ("star_inside",), ("star_point",), ("star_constrain",), ("star_empty",), ("star_feasible",), ("star_has",), ("star_sample",))



def q02(ctx):
    check(ctx, "set-around-the-sample-runs", ("star_around",), ("star_unit",), ("star_fit",), ("star_runs",), ("star_stepwise",))
    check(ctx, "segments-of-the-initial-set", ("star_segments",), ("step_star", CALL("calculate_full_bloated_tube_stars")))
    check(ctx, "reset-of-a-set", ("star_resets",))
    check(ctx, "scan-of-a-tube-of-sets", ("trans_star",), ("step_star", CALL("new_child", "init", "start_time"), SETS("trace")))
    check(ctx, "state-a-sensor-hands-on", *[(n,) for n in ("star_sense", "star_sets", "star_adds", "star_set2", "star_set3", "star_add2", "star_add3")])


RULES = {"Q01": q01, "Q02": q02}
