"""Rules for the sensors."""
from . import refs_sensor
from .common import *

V = vars(refs_sensor)
refs("verse.sensor.base_sensor:", {
    "sense": ("BaseSensor.sense", "SENSE"),
    "sets": ("sets", "SETS"),
    "adds": ("adds", "ADDS"),
    "set2": ("set_states_2d", "SET2"),
    "set3": ("set_states_3d", "SET3"),
    "add2": ("add_states_2d", "ADD2"),
    "add3": ("add_states_3d", "ADD3"),
}, V)
refs("verse.sensor.base_sensor_stars:", {
    "star_sense": ("BaseStarSensor.sense", "SENSE"),
    "star_sets": ("sets", "STAR_SETS_"),
    "star_adds": ("adds", "STAR_ADDS"),
    "star_set2": ("set_states_2d", "STAR_SET"),
    "star_set3": ("set_states_3d", "STAR_SET"),
    "star_add2": ("add_states_2d", "STAR_ADD"),
    "star_add3": ("add_states_3d", "STAR_ADD"),
}, V)
KINDS = {
    "craft": ("CraftSensor", ["xp", "yp", "xd", "yd", "total_time", "cycle_time"], ["craft_mode"]),
    "thermo": ("ThermoSensor", ["temp", "total_time", "cycle_time"], ["thermo_mode"]),
    "quadrotor": ("QuadrotorSensor", ["x", "y", "z", "vx", "vy", "vz", "waypoint_index", "done_flag"], ["craft_mode", "lane_mode"]),
}
PARTS = ("sense", "sets", "adds", "set2", "set3", "add2", "add3")
for k, (c, cont, modes) in KINDS.items():
    fix = {x: V["FIXED_" + x].replace("VARS", repr(cont)).replace("MODES", repr(modes)).replace("END", str(len(cont) + 1)) for x in ("SET2", "SET3", "ADD2", "ADD3", "SENSE")}
    refs(f"verse.sensor.example_sensor.{k}_sensor:", {
        k + "_sense": (c + ".sense", "SENSE"), k + "_sets": ("sets", "SETS"), k + "_adds": ("adds", "ADDS"),
        k + "_set2": ("set_states_2d_ball", "SET2"), k + "_set3": ("set_states_3d_ball", "SET3"),
        k + "_add2": ("add_states_2d_ball", "ADD2"), k + "_add3": ("add_states_3d_ball", "ADD3"),
    }, dict(fix, SETS=V["SETS"], ADDS=V["ADDS"]))


def i01(ctx):
    check(ctx, "each-agent-is-sensed-with-its-own-definition", ("sense",))
    check(ctx, "values-stored-under-their-own-names", *[(x,) for x in ("sets", "adds", "set2", "set3", "add2", "add3")])


def i02(ctx):
    check(ctx, "every-agent-is-sensed", *[(k + "_sense",) for k in (*KINDS, "star")])
    check(ctx, "values-under-their-own-names", *[(k + "_" + x,) for k in (*KINDS, "star") for x in PARTS[1:]])


RULES = {"I01": i01, "I02": i02}
