"""Reference definitions for the bundled maps: lanes, the track of each switch, neighbours."""

# ----- in the plane: lanes beside each other, left is +y when heading along +x
_SW3 = """
    self.h_dict = {
        ("T0", "Normal", "SwitchRight"): "M01", ("M01", "SwitchRight", "Normal"): "T1",
        ("T1", "Normal", "SwitchRight"): "M12", ("M12", "SwitchRight", "Normal"): "T2",
        ("T1", "Normal", "SwitchLeft"): "M10", ("M10", "SwitchLeft", "Normal"): "T0",
        ("T2", "Normal", "SwitchLeft"): "M21", ("M21", "SwitchLeft", "Normal"): "T1",
    }
"""
_LEFT5 = """{"T3": "T2", "T2": "T1", "T1": "T0", "T0": "T4"}"""
_RIGHT5 = """{"T4": "T0", "T0": "T1", "T1": "T2", "T2": "T3"}"""
ONE_LANE = """
def ref(self):
    super().__init__()
    self.add_lanes([Lane("Lane1", [StraightLane("seg0", [0, 0], [100, 0], 3)])])
"""
_THREE = """
def ref(self):
    super().__init__()
    self.add_lanes([
        Lane("T0", [StraightLane("Seg0", [0, 3], [500, 3], 3)]),
        Lane("T1", [StraightLane("seg0", [0, 0], [500, 0], 3)]),
        Lane("T2", [StraightLane("seg0", [0, -3], [500, -3], 3)]),
    ])
"""
THREE_LANES = _THREE + _SW3
THREE_BRAKING = _THREE + """
    self.h_dict = {
        ("T0", "Normal", "SwitchRight"): "M01", ("M01", "SwitchRight", "Normal"): "T1",
        ("T1", "Normal", "SwitchRight"): "M12", ("M12", "SwitchRight", "Normal"): "T2",
        ("T1", "Normal", "SwitchLeft"): "M10", ("M10", "SwitchLeft", "Normal"): "T0",
        ("T2", "Normal", "SwitchLeft"): "M21", ("M21", "SwitchLeft", "Normal"): "T1",
        ("T0", "Normal", "Brake"): "T0", ("T1", "Normal", "Brake"): "T1", ("T2", "Normal", "Brake"): "T2",
    }
"""
FIVE_LANES = """
def ref(self):
    super().__init__()
    self.add_lanes([
        Lane("T0", [StraightLane("Seg0", [0, 3], [100, 3], 3)]),
        Lane("T1", [StraightLane("seg0", [0, 0], [100, 0], 3)]),
        Lane("T2", [StraightLane("seg0", [0, -3], [100, -3], 3)]),
        Lane("T3", [StraightLane("seg3", [0, -6], [100, -6], 3)]),
        Lane("T4", [StraightLane("Seg4", [0, 6], [100, 6], 3)]),
    ])
    self.h_dict = {
        ("T0", "Normal", "SwitchLeft"): "M04", ("M04", "SwitchLeft", "Normal"): "T4",
        ("T1", "Normal", "SwitchLeft"): "M10", ("M10", "SwitchLeft", "Normal"): "T0",
        ("T2", "Normal", "SwitchLeft"): "M21", ("M21", "SwitchLeft", "Normal"): "T1",
        ("T3", "Normal", "SwitchLeft"): "M32", ("M32", "SwitchLeft", "Normal"): "T2",
        ("T4", "Normal", "SwitchRight"): "M40", ("M40", "SwitchRight", "Normal"): "T0",
        ("T0", "Normal", "SwitchRight"): "M01", ("M01", "SwitchRight", "Normal"): "T1",
        ("T1", "Normal", "SwitchRight"): "M12", ("M12", "SwitchRight", "Normal"): "T2",
        ("T2", "Normal", "SwitchRight"): "M23", ("M23", "SwitchRight", "Normal"): "T3",
    }
    self.left_dict = """ + _LEFT5 + """
    self.right_dict = """ + _RIGHT5 + """
"""
LEFT_OF = """
def ref(self, lane_mode):
    return self.left_dict[lane_mode]
"""
RIGHT_OF = """
def ref(self, lane_mode):
    return self.right_dict[lane_mode]
"""
_NAMED = """
    if isinstance(lane_mode, Enum):
        lane_mode = lane_mode.name
"""
LEFT_OF_NAMED = LEFT_OF.replace("    return", _NAMED[1:] + "    return")
RIGHT_OF_NAMED = RIGHT_OF.replace("    return", _NAMED[1:] + "    return")
SWITCH2 = """
def ref(self):
    super().__init__()
    self.add_lanes([Lane(f"T{i}", [StraightLane(f"seg{i}", [0, 6 - 3 * i], [100, 6 - 3 * i], 3)]) for i in range(5)])
"""
SWITCH2_H = """
def ref(self, lane_idx, mode_src, mode_dest):
    if mode_src.startswith("Switch"):
        if mode_dest.startswith("Switch"):
            return None
        return "T" + lane_idx[2]
    if not mode_dest.startswith("Switch"):
        return lane_idx
    switch = mode_dest[6:]
    ind = int(lane_idx[1])
    if switch == "Left" and ind > 0:
        new = ind - 1
    elif switch == "Left2" and ind > 1:
        new = ind - 2
    elif switch == "Right" and ind < 4:
        new = ind + 1
    elif switch == "Right2" and ind < 3:
        new = ind + 2
    else:
        return None
    return f"M{ind}{new}"
"""
BENDING = """
def ref(self):
    super().__init__()
    lane0 = Lane("Lane0", [StraightLane("Seg0", [0, 3], [15, 3], 3), StraightLane("Seg1", [15, 3], [25, 13], 3), StraightLane("Seg2", [25, 13], [50, 13], 3)])
    lane1 = Lane("Lane1", [StraightLane("seg0", [0, 0], [17, 0], 3), StraightLane("seg1", [17, 0], [27, 10], 3), StraightLane("seg2", [27, 10], [50, 10], 3)])
    lane2 = Lane("Lane2", [StraightLane("seg0", [0, -3], [19, -3], 3), StraightLane("seg1", [19, -3], [29, 7], 3), StraightLane("seg2", [29, 7], [50, 7], 3)])
    self.add_lanes([lane0, lane1, lane2])
    self.left_lane_dict[lane1.id].append(lane0.id)
    self.left_lane_dict[lane2.id].append(lane1.id)
    self.right_lane_dict[lane0.id].append(lane1.id)
    self.right_lane_dict[lane1.id].append(lane2.id)
"""
TURNING = """
def ref(self):
    super().__init__()
    self.add_lanes([
        Lane("T0", [StraightLane("Seg0", [0, 3], [22.5, 3], 3), CircularLane("Seg1", [22.5, 13], 10, np.pi * 3 / 2, np.pi * 2, False, 3), StraightLane("Seg2", [32.5, 13], [32.5, 100], 3)]),
        Lane("T1", [StraightLane("seg0", [0, 0], [22.5, 0], 3), CircularLane("seg1", [22.5, 13], 13, np.pi * 3 / 2, np.pi * 2, False, 3), StraightLane("seg2", [35.5, 13], [35.5, 100], 3)]),
        Lane("T2", [StraightLane("seg0", [0, -3], [22.5, -3], 3), CircularLane("seg1", [22.5, 13], 16, np.pi * 3 / 2, np.pi * 2, False, 3), StraightLane("seg2", [38.5, 13], [38.5, 100], 3)]),
    ])
""" + _SW3
CROSS = """
def ref(self, width=3, size=20, length=300, lanes=2):
    assert width > 0 and lanes > 0 and length > 0
    assert size >= (1 + lanes) * width, "Intersection too small for the number of lanes"
    super().__init__()
    self.width, self.size, self.length, self.lanes = width, size, length, lanes
    edge = size + length
    segs = {}
    for i in range(lanes):
        off = width * (i + 1 / 2)
        segs[f"NR{i}"] = StraightLane(f"NR{i}", (-off, edge), (-off, size), width)
        segs[f"SR{i}"] = StraightLane(f"SR{i}", (off, -edge), (off, -size), width)
        segs[f"ER{i}"] = StraightLane(f"ER{i}", (edge, off), (size, off), width)
        segs[f"WR{i}"] = StraightLane(f"WR{i}", (-edge, -off), (-size, -off), width)
        segs[f"NL{i}"] = StraightLane(f"NL{i}", (off, size), (off, edge), width)
        segs[f"EL{i}"] = StraightLane(f"EL{i}", (size, -off), (edge, -off), width)
        segs[f"SL{i}"] = StraightLane(f"SL{i}", (-off, -size), (-off, -edge), width)
        segs[f"WL{i}"] = StraightLane(f"WL{i}", (-size, off), (-edge, off), width)
        segs[f"NSR{i}"] = StraightLane(f"NSR{i}", (-off, size), (-off, -size), width)
        segs[f"NSL{i}"] = StraightLane(f"NSL{i}", (off, -size), (off, size), width)
        segs[f"WER{i}"] = StraightLane(f"WER{i}", (-size, -off), (size, -off), width)
        segs[f"WEL{i}"] = StraightLane(f"WEL{i}", (size, off), (-size, off), width)
    # the quadrant's centre and the quarter at which its outer (counterclockwise) arc starts; inner arcs are driven clockwise
    corners = {"NW": ((-size, size), 3), "NE": ((size, size), 2), "SW": ((-size, -size), 0), "SE": ((size, -size), 1)}
    segs.update({
        (name := k + "IO"[io] + str(lane)): CircularLane(
            name, center, size + width * (lane + 1 / 2) * [-1, 1][io],
            (start + int(io == 0)) * math.pi / 2, (start + int(io == 1)) * math.pi / 2, clockwise=io == 0, width=width)
        for k, (center, start) in corners.items() for io in range(2) for lane in range(lanes)
    })
    straights = [("NS", "NR", "NSR", "SL"), ("SN", "SR", "NSL", "NL"), ("WE", "WR", "WER", "EL"), ("EW", "ER", "WEL", "WL")]
    self.add_lanes([Lane(f"{s[0]}_{i}", [segs[seg + str(i)] for seg in s[1:]]) for s in straights for i in range(lanes)])
    self.add_lanes([
        Lane(f"{s}{e}_{i}", [segs[s + "R" + str(i)], segs.get(s + e + d + str(i), None) or segs[e + s + d + str(i)], segs[e + "L" + str(i)]])
        for s, e, d in ["NWI", "NEO", "WNO", "ENI", "SWO", "SEI", "WSI", "ESO"] for i in range(lanes)
    ])
"""
CROSS_H = """
def ref(self, lane_idx, mode_src, mode_dest):
    if mode_src.startswith("Switch"):
        if mode_dest.startswith("Switch"):
            return None
        lanes, _, ind = lane_idx.split("_", 2)
        return f"{lanes}_{int(ind)}"
    if not mode_dest.startswith("Switch"):
        return lane_idx
    lanes, ind = lane_idx.split("_")
    ind = int(ind)
    if "Left" in mode_dest and ind > 0:
        new = ind - 1
    elif "Right" in mode_dest and ind < self.lanes - 1:
        new = ind + 1
    else:
        return None
    return f"{lanes}_{ind}_{new}"
"""
TWO_BEAMS = """
def ref(self):
    super().__init__()
    a, b = LaneSegment("Lane0", 0), LaneSegment("Lane1", 3)
    self.add_lanes([a, b])
    self.left_lane_dict[a.id].append(b.id)
    self.right_lane_dict[b.id].append(a.id)
"""
THREE_BEAMS = """
def ref(self):
    super().__init__()
    a, b, c = LaneSegment("Lane0", 3), LaneSegment("Lane1", 0), LaneSegment("Lane2", -3)
    self.add_lanes([a, b, c])
    self.left_lane_dict[b.id].append(a.id)
    self.left_lane_dict[c.id].append(b.id)
    self.right_lane_dict[a.id].append(b.id)
    self.right_lane_dict[b.id].append(c.id)
"""

# ----- in space
_MOVES = """
    self.h_dict = {
        ("T1", "Normal", "MoveUp"): "M10", ("M10", "MoveUp", "Normal"): "T0",
        ("T2", "Normal", "MoveUp"): "M21", ("M21", "MoveUp", "Normal"): "T1",
        ("T0", "Normal", "MoveDown"): "M01", ("M01", "MoveDown", "Normal"): "T1",
        ("T1", "Normal", "MoveDown"): "M12", ("M12", "MoveDown", "Normal"): "T2",
    }
"""
LEVELS = """
def ref(self):
    super().__init__()
    width = 4
    level = Lane_3d("T1", [StraightLane_3d("seg0", [0, 0, 0], [100, 0, 0], width)])
    above = Lane_3d("T0", [StraightLane_3d("seg0", [0, 0, 2 * width], [100, 0, 2 * width], width)])
    below = Lane_3d("T2", [StraightLane_3d("seg0", [0, 0, -2 * width], [100, 0, -2 * width], width)])
    self.add_lanes([level, above, below])
""" + _MOVES
_LOOP = """
    def loop(name, center, radius, n, width, last):
        first = CircularLane_3d_v1("seg0", center, radius, n, 0, 1.5 * pi, True, width)
        start, start_tang, end, end_tang = first.get_start_end_tang()
        before = get_end(start, -start_tang, 2 * radius)
        second = StraightLane_3d("seg1", before, start, width)
        after = get_end(end, end_tang, 2 * radius)
        third = StraightLane_3d("seg2", end, after, width)
        return Lane_3d(name, [first, second, third, CircularLane_3d_v2("seg3", after, before, -n, 1.5 * pi, True, last)])
"""
LOOPS = """
def ref(self):
    super().__init__()""" + _LOOP + """
    n = np.array([0, 0, 1])
    center = np.array([0, 0, 0])
    lane1 = loop("T1", center, 10, n, 2, 2)
    lane0 = loop("T0", center + 2 * 2 * n, 10, n, 2, 2)
    lane2 = loop("T2", center - 2 * 2 * n, 10, n, 2, 2)
    self.add_lanes([lane0, lane1, lane2])
    self.pair_lanes(lane1.id, lane0.id, "up")
    self.pair_lanes(lane1.id, lane2.id, "down")
""" + _MOVES
LOOP_PAIR = """
def ref(self, box_side={}, t_v_pair={}):
    super().__init__()""" + _LOOP + """
    n = np.array([1, 1, 1])
    center = np.array([0, -RADIUS, 0])
    lane0 = loop("Lane0", center, RADIUS, n, WIDTH, 1)
    self.add_lanes([lane0])
    lane1 = loop("Lane1", center + 2 * WIDTH * n, RADIUS, n, WIDTH, 1)
    self.add_lanes([lane1])
    self.pair_lanes(lane0.id, lane1.id, "up")
"""
LOOP_ONE = """
def ref(self, box_side={}, t_v_pair={}):
    super().__init__()""" + _LOOP + """
    n = np.array([1, 1, 1])
    self.add_lanes([loop("Lane0", [0, -20, 0], 20, n, 5, 5)])
"""
CIRCLE = """
def ref(self, box_side={}, t_v_pair={}):
    super().__init__()
    self.add_lanes([Lane_3d("Lane1", [CircularLane_3d_v1("seg0", [0, 0, 0], 6, [1, 1, 1], 0, 2 * pi, True, 2)])])
"""
STAR_OF_FIVE = """
def ref(self, box_side={}, t_v_pair={}):
    super().__init__()
    width = 0.3
    lane0 = Lane_3d("Lane0", [StraightLane_3d("seg0", [0, 0, 0], [100, 0, 0], width)])
    lane1 = Lane_3d("Lane1", [StraightLane_3d("seg0", [0, -2 * width, 0], [100, -2 * width, 0], width)])
    lane2 = Lane_3d("Lane2", [StraightLane_3d("seg0", [0, 2 * width, 0], [100, 2 * width, 0], width)])
    lane3 = Lane_3d("Lane3", [StraightLane_3d("seg0", [0, 0, 2 * width], [100, 0, 2 * width], width)])
    lane4 = Lane_3d("Lane4", [StraightLane_3d("seg0", [0, 0, -2 * width], [100, 0, -2 * width], width)])
    self.add_lanes([lane0, lane1, lane2, lane3, lane4])
    self.pair_lanes(lane0.id, lane1.id, "right")
    self.pair_lanes(lane0.id, lane2.id, "left")
    self.pair_lanes(lane0.id, lane3.id, "up")
    self.pair_lanes(lane0.id, lane4.id, "down")
"""
GET_END = """
def ref(start, n, lens):
    return (start + n / np.linalg.norm(n) * lens).tolist()
"""
TABLE_H = """
def ref(self, lane_idx, agent_mode_src, agent_mode_dest):
    return self.h_dict[(lane_idx, agent_mode_src, agent_mode_dest)]
"""
TABLE_EXIST = """
def ref(self, lane_idx, agent_mode_src, agent_mode_dest):
    return (lane_idx, agent_mode_src, agent_mode_dest) in self.h_dict
"""
_STR = """
    if not isinstance(lane_idx, str):
        lane_idx = lane_idx.name
    if not isinstance(agent_mode_src, str):
        agent_mode_src = agent_mode_src.name
    if not isinstance(agent_mode_dest, str):
        agent_mode_dest = agent_mode_dest.name
"""
TABLE_H_NAMED = TABLE_H.replace("    return", _STR[1:] + "    return")
TABLE_EXIST_NAMED = TABLE_EXIST.replace("    return", _STR[1:] + "    return")
TRANS = """
def ref(self, lane_idx):
    last = lane_idx[-1]
    if last == "0":
        return "T0"
    if last == "1":
        return "T1"
    if last == "2":
        return "T2"
    return ""
"""
LOOP_PAIR_5 = LOOP_PAIR.replace("RADIUS", "20").replace("WIDTH", "3")
LOOP_PAIR_4 = LOOP_PAIR.replace("RADIUS", "5").replace("WIDTH", "1")
