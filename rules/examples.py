"""Rules for the bundled maps."""
from . import refs_examples
from .common import *

M = "verse.map.example_map."
V = vars(refs_examples)
NEW = {
    "simple_map2": {"SimpleMap2": "ONE_LANE", "SimpleMap3": "THREE_LANES", "SimpleMap4": "FIVE_LANES", "SimpleMap4Switch2": "SWITCH2", "SimpleMap5": "BENDING", "SimpleMap6": "TURNING"},
    "simple_map": {"SimpleMap": "TWO_BEAMS", "SimpleMap2": "THREE_BEAMS"},
    "map_tacas": {"M1": "THREE_BRAKING", "M2": "FIVE_LANES", "M3": "TURNING", "M5": "LEVELS", "M6": "LOOPS"},
    "simple_map_3d": {"SimpleMap1": "STAR_OF_FIVE", "SimpleMap2": "CIRCLE", "SimpleMap3": "LOOP_ONE", "SimpleMap4": "LOOP_PAIR_4", "SimpleMap5": "LOOP_PAIR_5", "SimpleMap6": "LOOPS", "SimpleMap7": "LEVELS"},
    "intersection": {"Intersection": "CROSS"},
}
NAMES = [f"{m}_{c}" for m in NEW for c in NEW[m]]
for m, cs in NEW.items():
    refs(f"{M}{m}:", {f"{m}_{c}": (c + ".__init__", r) for c, r in cs.items()}, V)
refs(M, {
    "switch2_h": ("simple_map2:SimpleMap4Switch2.h", "SWITCH2_H"), "cross_h": ("intersection:Intersection.h", "CROSS_H"),
    "five_left": ("simple_map2:SimpleMap4.left_lane", "LEFT_OF"), "five_right": ("simple_map2:SimpleMap4.right_lane", "RIGHT_OF"),
    "m2_left": ("map_tacas:M2.left_lane", "LEFT_OF_NAMED"), "m2_right": ("map_tacas:M2.right_lane", "RIGHT_OF_NAMED"),
    "m5_h": ("map_tacas:M5.h", "TABLE_H_NAMED"), "m5_exist": ("map_tacas:M5.h_exist", "TABLE_EXIST_NAMED"),
    "m6_h": ("map_tacas:M6.h_func", "TABLE_H"), "m6_exist": ("map_tacas:M6.h_exist_func", "TABLE_EXIST"),
    "s6_h": ("simple_map_3d:SimpleMap6.h", "TABLE_H"), "s6_exist": ("simple_map_3d:SimpleMap6.h_exist", "TABLE_EXIST"),
    "s7_h": ("simple_map_3d:SimpleMap7.h", "TABLE_H"), "s7_exist": ("simple_map_3d:SimpleMap7.h_exist", "TABLE_EXIST"),
    "m5_trans": ("map_tacas:M5.trans_func", "TRANS"), "m6_trans": ("map_tacas:M6.trans_func", "TRANS"),
    "s6_trans": ("simple_map_3d:SimpleMap6.trans_func", "TRANS"), "s7_trans": ("simple_map_3d:SimpleMap7.trans_func", "TRANS"),
    "tacas_end": ("map_tacas:get_end", "GET_END"), "s3d_end": ("simple_map_3d:get_end", "GET_END"),
}, V)


def j04(ctx):
    check(ctx, "lanes-and-switches-of-the-map", *[(n,) for n in NAMES])
    check(ctx, "switch-leads-to-the-lane-beside", *[(n,) for n in ("switch2_h", "cross_h", "m5_h", "m5_exist", "m6_h", "m6_exist", "s6_h", "s6_exist", "s7_h", "s7_exist")])
    check(ctx, "lane-of-a-track", *[(n,) for n in ("m5_trans", "m6_trans", "s6_trans", "s7_trans", "five_left", "five_right", "m2_left", "m2_right", "tacas_end", "s3d_end")])


RULES = {"J04": j04}
