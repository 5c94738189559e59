"""Tubes from sampled trajectories, mixed monotonicity, fixed points."""
from . import refs_reach
from .common import refs, check, CALL, RET, SETS

for tag, mod, tube in (("", "dryvr", "calc_bloated_tube"), ("_DISC", "dryvr_disc", "calc_bloated_tube_dryvr")):
    p = "ds_" if tag else "dr_"
    refs(f"verse.analysis.{mod}:", {
        p + "sens": ("all_sensitivities_calc", "SENSITIVITY" + tag),
        p + "seg": ("get_reachtube_segment", "SEGMENT" + tag),
        p + "center": ("calcCenterPoint", "CENTER"),
        p + "delta": ("calcDelta", "DELTA"),
        p + "point": ("randomPoint", "POINT" + tag),
        p + "trim": ("trimTraces", "TRIM"),
        p + "tube": (tube, "BLOAT" + tag),
    }, vars(refs_reach))

refs("verse.analysis.mixmonotone:", {
    "mix_disc": ("compute_reachtube_mixmono_disc", "MIX_DISC"),
    "mix_cont": ("compute_reachtube_mixmono_cont", "MIX_CONT"),
    "mix_min": ("find_min", "FIND_MIN"),
    "mix_max": ("find_max", "FIND_MAX"),
    "mix_min_sym": ("find_min_symbolic", "FIND_MIN_SYM"),
    "mix_max_sym": ("find_max_symbolic", "FIND_MAX_SYM"),
    "mix_tube_disc": ("calculate_bloated_tube_mixmono_disc", "TUBE_DISC"),
    "mix_tube_cont": ("calculate_bloated_tube_mixmono_cont", "TUBE_CONT"),
}, vars(refs_reach))

refs("verse.utils.fixed_points:", {
    "reached": ("reach_at_fix", "REACHED"),
    "contained": ("contain_all_fix", "CONTAINED"),
    "fixed": ("fixed_points_fix", "FIXED"),
}, vars(refs_reach))


def a04(ctx):
    for p in ("dr_", "ds_"):
        check(ctx, "bloated-by-the-learnt-factor", (p + "seg",), (p + "sens",))
        check(ctx, "learnt-on-the-whole-box", (p + "tube",), (p + "center",), (p + "delta",), (p + "point",), (p + "trim",))
    check(ctx, "as-many-sample-runs-as-asked", *[(n, SETS("trace")) for n in ("step", "step_disc", "part_step")], ("tube", CALL("calc_bloated_tube")), ("part_trace",))


def k01(ctx):
    check(ctx, "both-corners-followed", ("mix_disc",), ("mix_cont",), ("mix_tube_disc",), ("mix_tube_cont",))
    check(ctx, "extremes-over-the-box", ("mix_min",), ("mix_max",), ("mix_min_sym",), ("mix_max_sym",))


def p01(ctx):
    check(ctx, "last-sets-contained-in-earlier-ones", ("fixed",), ("contained",), ("reached",))


RULES = {"A04": a04, "K01": k01, "P01": p01}
