"""Rules for lanes and maps."""
from . import refs_map
from .common import *

_R = vars(refs_map)
_2, _3 = "map.lane_segment:", "map.lane_segment_3d:"
refs("verse.", {
    "lane_init": ("map.lane:Lane.__init__", "LANE"), "lane_start": ("map.lane:Lane._set_longitudinal_start", "START"),
    "lane_seg": ("map.lane:Lane.get_lane_segment", "SEG"), "lane_head": ("map.lane:Lane.get_heading", "HEADING"),
    "lane_long": ("map.lane:Lane.get_longitudinal_position", "LONG"), "lane_lat": ("map.lane:Lane.get_lateral_distance", "LAT"),
    "lane_width": ("map.lane:Lane.get_lane_width", "WIDTH"), "lane_limit": ("map.lane:Lane.get_speed_limit", "LIMIT"),
    "straight": (_2 + "StraightLane.__init__", "STRAIGHT"), "s_pos": (_2 + "StraightLane.position", "S_POS"),
    "s_local": (_2 + "StraightLane.local_coordinates", "S_LOCAL"), "s_head": (_2 + "StraightLane.heading_at", "S_HEAD"),
    "s_width": (_2 + "StraightLane.width_at", "SEG_WIDTH"), "s_conf": (_2 + "StraightLane.to_config", "S_CONF"), "s_from": (_2 + "StraightLane.from_config", "S_FROM"),
    "circ": (_2 + "CircularLane.__init__", "CIRC"), "c_pos": (_2 + "CircularLane.position", "C_POS"),
    "c_local": (_2 + "CircularLane.local_coordinates", "C_LOCAL"), "c_head": (_2 + "CircularLane.heading_at", "C_HEAD"),
    "c_width": (_2 + "CircularLane.width_at", "SEG_WIDTH"), "c_conf": (_2 + "CircularLane.to_config", "C_CONF"), "c_from": (_2 + "CircularLane.from_config", "C_FROM"),
    "wrap": ("utils.utils:wrap_to_pi", "WRAP"), "ser": ("utils.utils:to_serializable", "SER"), "cpath": ("utils.utils:get_class_path", "PATH"),
    "on_lane": (_2 + "AbstractLane.on_lane", "ON_LANE"), "reachable": (_2 + "AbstractLane.is_reachable_from", "REACHABLE"),
    "after": (_2 + "AbstractLane.after_end", "AFTER"), "dist": (_2 + "AbstractLane.distance", "DIST"), "dist_h": (_2 + "AbstractLane.distance_with_heading", "DIST_H"),
    "map": ("map.lane_map:LaneMap.__init__", "MAP"), "map_add": ("map.lane_map:LaneMap.add_lanes", "ADD"), "phys": ("map.lane_map:LaneMap.get_phys_lane", "PHYS"),
    "m_geom": ("map.lane_map:LaneMap.lane_geometry", "M_GEOM"), "m_long": ("map.lane_map:LaneMap.get_longitudinal_position", "M_LONG"),
    "m_lat": ("map.lane_map:LaneMap.get_lateral_distance", "M_LAT"), "m_head": ("map.lane_map:LaneMap.get_lane_heading", "M_HEAD"),
    "m_seg": ("map.lane_map:LaneMap.get_lane_segment", "M_SEG"), "m_limit": ("map.lane_map:LaneMap.get_speed_limit", "M_LIMIT"),
    "m_limits": ("map.lane_map:LaneMap.get_all_speed_limit", "M_LIMITS"), "m_width": ("map.lane_map:LaneMap.get_lane_width", "M_WIDTH"),
    "h": ("map.lane_map:LaneMap.h", "H"), "h_exist": ("map.lane_map:LaneMap.h_exist", "H_EXIST"),
    # three dimensions
    "lane3_init": ("map.lane_3d:Lane_3d.__init__", "LANE3"), "lane3_start": ("map.lane_3d:Lane_3d._set_longitudinal_start", "START"),
    "lane3_seg": ("map.lane_3d:Lane_3d.get_lane_segment", "SEG3"), "lane3_long": ("map.lane_3d:Lane_3d.get_longitudinal_position", "LONG3"),
    "lane3_lat": ("map.lane_3d:Lane_3d.get_lateral_distance", "LAT3"), "lane3_theta": ("map.lane_3d:Lane_3d.get_theta_angle", "THETA3"),
    "lane3_lrt": ("map.lane_3d:Lane_3d.get_l_r_theta", "LRT3"), "lane3_width": ("map.lane_3d:Lane_3d.get_lane_width", "WIDTH"),
    "s3_init": (_3 + "StraightLane_3d.__init__", "S3_INIT"), "s3_local": (_3 + "StraightLane_3d.local_coordinates", "S3_LOCAL"), "s3_pos": (_3 + "StraightLane_3d.position", "S3_POS"),
    "s3_conf": (_3 + "StraightLane_3d.to_config", "S_CONF"), "s3_from": (_3 + "StraightLane_3d.from_config", "S_FROM"),
    "c3_conf": (_3 + "CircularLane_3d_v1.to_config", "C_CONF3"), "c3_from": (_3 + "CircularLane_3d_v1.from_config", "C_FROM"),
    "c3_pos": (_3 + "CircularLane_3d_v1.position", "C3_POS"), "c3_outer": (_3 + "CircularLane_3d_v1.get_outer_center", "C3_OUTER"),
    "c3_local": (_3 + "CircularLane_3d_v1.local_coordinates", "C3_LOCAL"), "rtp": (_3 + "get_rtp_by_coor", "RTP"), "center": (_3 + "get_center_radius", "CENTER"),
    "map3": ("map.lane_map_3d:LaneMap_3d.__init__", "MAP3"), "map3_add": ("map.lane_map_3d:LaneMap_3d.add_lanes", "ADD3"), "pair": ("map.lane_map_3d:LaneMap_3d.pair_lanes", "PAIR"),
    "h3": ("map.lane_map_3d:LaneMap_3d.h", "H3"), "h3_exist": ("map.lane_map_3d:LaneMap_3d.h_exist", "H3_EXIST"),
    **{"has_" + d: ("map.lane_map_3d:LaneMap_3d.has_" + d, "HAS_" + d.upper()) for d in ("left", "right", "up", "down")},
    **{"the_" + d: (f"map.lane_map_3d:LaneMap_3d.{d}_lane", "THE_" + d.upper()) for d in ("left", "right", "up", "down")},
    "m3_long": ("map.lane_map_3d:LaneMap_3d.get_longitudinal_position", "M3_LONG"), "m3_lat": ("map.lane_map_3d:LaneMap_3d.get_lateral_distance", "M3_LAT"),
    "m3_theta": ("map.lane_map_3d:LaneMap_3d.get_theta_angle", "M3_THETA"), "m3_lrt": ("map.lane_map_3d:LaneMap_3d.get_l_r_theta", "M3_LRT"),
    "m3_width": ("map.lane_map_3d:LaneMap_3d.get_lane_width", "M3_WIDTH"), "guard_box": ("map.lane_map_3d:LaneMap_3d.check_guard_box", "GUARD_BOX"),
    "trans3": ("map.lane_map_3d:LaneMap_3d.trans_func", "TRANS3"), "m3_geom": ("map.lane_map_3d:LaneMap_3d.lane_geometry", "M3_GEOM"),
    "m3_alt": ("map.lane_map_3d:LaneMap_3d.altitude", "M3_ALT"), "m3_seg": ("map.lane_map_3d:LaneMap_3d.get_lane_segment", "M3_SEG"),
    "m3_wps": ("map.lane_map_3d:LaneMap_3d.get_curr_waypoint", "M3_WPS"), "m3_next": ("map.lane_map_3d:LaneMap_3d.get_next_point", "M3_NEXT"),
    "lane3_alt": ("map.lane_3d:Lane_3d.get_altitude", "LANE_ALT"),
    "s3_alt": (_3 + "StraightLane_3d.altitude", "MEAN_ALT"), "s3_width": (_3 + "StraightLane_3d.width_at", "SEG_WIDTH"), "s3_tang": (_3 + "StraightLane_3d.get_tang", "S3_TANG"),
    "c3_init": (_3 + "CircularLane_3d_v1.__init__", "C3_INIT"), "c3_alt": (_3 + "CircularLane_3d_v1.altitude", "ARC_ALT"), "c3_width": (_3 + "CircularLane_3d_v1.width_at", "SEG_WIDTH"),
    "c3_tang": (_3 + "CircularLane_3d_v1.get_tang", "C3_TANG"), "c3_ends": (_3 + "CircularLane_3d_v1.get_start_end_tang", "C3_ENDS"),
    "c3v2_init": (_3 + "CircularLane_3d_v2.__init__", "C3V2_INIT"), "c3v2_conf": (_3 + "CircularLane_3d_v2.to_config", "C3V2_CONF"),
    "coor": (_3 + "get_coor_by_rt", "COOR"), "theta_of": (_3 + "get_theta_by_coor", "THETA_OF"), "frame_a": (_3 + "func_a", "FRAME_A"), "frame_b": (_3 + "func_b", "FRAME_B"),
    "on_lane3": (_3 + "AbstractLane_3d.on_lane", "ON_LANE3"), "reachable3": (_3 + "AbstractLane_3d.is_reachable_from", "REACHABLE3"), "after3": (_3 + "AbstractLane_3d.after_end", "AFTER"),
    "dist3": (_3 + "AbstractLane_3d.distance", "DIST3"), "dist_h3": (_3 + "AbstractLane_3d.distance_with_heading", "DIST_H3"),
}, _R)


def all_of(ctx, rule, names):
    check(ctx, rule, *[(n,) for n in names.split()])


def j01(ctx):
    all_of(ctx, "successor-track-is-the-one-registered", "h h_exist h3 h3_exist trans3")
    all_of(ctx, "queries-go-to-the-physical-lane", "phys m_geom m_long m_lat m_head m_seg m_limit m_limits m_width m3_long m3_lat m3_theta m3_lrt m3_width m3_geom m3_alt m3_seg")
    all_of(ctx, "waypoints-follow-the-lane", "m3_next m3_wps")
    all_of(ctx, "lanes-registered-under-their-id", "map map_add map3 map3_add")
    all_of(ctx, "neighbours-are-mutual", "pair has_left has_right has_up has_down the_left the_right the_up the_down")


def j02(ctx):
    all_of(ctx, "position-on-the-nearest-segment", "lane_seg lane_head lane_long lane_lat lane3_seg lane3_long lane3_lat lane3_theta lane3_lrt")
    all_of(ctx, "segments-follow-one-another", "lane_init lane_start lane_width lane_limit lane3_init lane3_start lane3_width")
    all_of(ctx, "segment-geometry", "straight s_pos s_local s_head s_width circ c_pos c_local c_head c_width wrap s3_init s3_local s3_pos c3_pos c3_outer c3_local rtp center s3_alt s3_width s3_tang c3_init c3_alt c3_width c3_tang c3_ends c3v2_init coor theta_of frame_a frame_b lane3_alt")
    all_of(ctx, "on-lane-tests", "on_lane reachable after dist dist_h guard_box on_lane3 reachable3 after3 dist3 dist_h3")


def j03(ctx):
    all_of(ctx, "configuration-written-completely", "s_conf c_conf s3_conf c3_conf c3v2_conf ser cpath")
    all_of(ctx, "configuration-read-back", "s_from c_from s3_from c3_from")


RULES = {"J01": j01, "J02": j02, "J03": j03}
