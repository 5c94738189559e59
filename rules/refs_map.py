"""Reference definitions for lanes and maps."""

# ---------------------------------------------------------------- lanes
START = """
def ref(self):
    s = 0
    for seg in self.segment_list:
        seg.longitudinal_start = s
        s = s + seg.length
"""
SEG = """
def ref(self, position):
    best = float("inf")
    found = (-1, None)
    for i, seg in enumerate(self.segment_list):
        along, lat = seg.local_coordinates(position)
        if -Lane.COMPENSATE <= along < seg.length and abs(lat) < best:
            best = abs(lat)
            found = (i, seg)
    return found
"""
SEG3 = """
def ref(self, position):
    best = float("inf")
    found = (-1, None)
    on = []
    for i, seg in enumerate(self.segment_list):
        along, lat, theta = seg.local_coordinates(position)
        if -Lane_3d.COMPENSATE <= along < seg.length:
            on.append(seg)
            if lat < best:
                best = lat
                found = (i, seg)
    return found[0], found[1], on
"""
HEADING = """
def ref(self, position):
    _, seg = self.get_lane_segment(position)
    along, lat = seg.local_coordinates(position)
    return seg.heading_at(along)
"""
LONG = """
def ref(self, position):
    i, seg = self.get_lane_segment(position)
    along, lat = seg.local_coordinates(position)
    for k in range(i):
        along += self.segment_list[k].length
    return along
"""
LAT = """
def ref(self, position):
    _, seg = self.get_lane_segment(position)
    along, lat = seg.local_coordinates(position)
    return lat
"""
LONG3 = """
def ref(self, position):
    i, seg, _ = self.get_lane_segment(position)
    along, lat, theta = seg.local_coordinates(position)
    for k in range(i):
        along += self.segment_list[k].length
    return along
"""
LAT3 = """
def ref(self, position):
    _, seg, _ = self.get_lane_segment(position)
    return seg.local_coordinates(position)[1]
"""
THETA3 = """
def ref(self, position):
    _, seg, _ = self.get_lane_segment(position)
    return seg.local_coordinates(position)[2]
"""
LRT3 = """
def ref(self, position):
    _, seg, _ = self.get_lane_segment(position)
    along, lat, theta = seg.local_coordinates(position)
    return along, lat, theta
"""
LANE = """
def ref(self, id, seg_list, speed_limit=None):
    self.id = id
    self.segment_list = seg_list
    self.speed_limit = speed_limit
    self._set_longitudinal_start()
    self.lane_width = seg_list[0].width
"""
LANE3 = """
def ref(self, id, seg_list, plotted=True):
    self.id = id
    self.segment_list = seg_list
    self._set_longitudinal_start()
    self.lane_width = seg_list[0].width
    self.plotted = plotted
"""
WIDTH = "def ref(self): return self.lane_width"
LIMIT = "def ref(self): return self.speed_limit"

# ---------------------------------------------------------------- segments
STRAIGHT = """
def ref(self, id, start, end, width=AbstractLane.DEFAULT_WIDTH, line_types=None, forbidden=False, speed_limit=20, priority=0):
    self.id = id
    self.start = np.array(start)
    self.end = np.array(end)
    d = np.array(end) - np.array(start)
    self.heading = np.arctan2(d[1], d[0])
    self.length = np.linalg.norm(d)
    self.direction = d / np.linalg.norm(d)
    self.direction_lateral = np.array([-(d / np.linalg.norm(d))[1], (d / np.linalg.norm(d))[0]])
    self.width = width
    self.line_types = line_types or [LineType.STRIPED, LineType.STRIPED]
    self.forbidden = forbidden
    self.speed_limit = speed_limit
    self.priority = priority
    self.type = "Straight"
    self.longitudinal_start = 0
"""
S_POS = """
def ref(self, longitudinal, lateral):
    return self.start + longitudinal * self.direction + lateral * self.direction_lateral
"""
S_LOCAL = """
def ref(self, position):
    return float(np.dot(position - self.start, self.direction)), float(np.dot(position - self.start, self.direction_lateral))
"""
S_HEAD = "def ref(self, longitudinal): return self.heading"
SEG_WIDTH = "def ref(self, longitudinal): return self.width"
CIRC = """
def ref(self, id, center, radius, start_phase, end_phase, clockwise=True, width=AbstractLane.DEFAULT_WIDTH, line_types=None, forbidden=False, speed_limit=20, priority=0):
    super().__init__(id)
    self.center = np.array(center)
    self.radius = radius
    self.start_phase = start_phase
    self.end_phase = end_phase
    self.clockwise = clockwise
    if clockwise:
        self.direction = -1
        self.length = radius * (start_phase - end_phase)
    else:
        self.direction = 1
        self.length = radius * (end_phase - start_phase)
    self.width = width
    self.line_types = line_types or [LineType.STRIPED, LineType.STRIPED]
    self.forbidden = forbidden
    self.priority = priority
    self.speed_limit = speed_limit
    self.type = "Circular"
    self.longitudinal_start = 0
"""
C_POS = """
def ref(self, longitudinal, lateral):
    phi = self.start_phase + self.direction * longitudinal / self.radius
    return self.center + (self.radius - self.direction * lateral) * np.array([np.cos(phi), np.sin(phi)])
"""
C_LOCAL = """
def ref(self, position):
    d = position - self.center
    turned = wrap_to_pi(np.arctan2(d[1], d[0]) - self.start_phase)
    return self.direction * turned * self.radius, self.direction * (self.radius - np.linalg.norm(d))
"""
C_HEAD = """
def ref(self, longitudinal):
    return wrap_to_pi(self.direction * longitudinal / self.radius + self.start_phase + self.direction * np.pi / 2)
"""
WRAP = """
def ref(x):
    return ((x + np.pi) % (2 * np.pi)) - np.pi
"""
S_CONF = """
def ref(self):
    return {"class_path": get_class_path(self.__class__), "config": {
        "id": self.id, "start": to_serializable(self.start), "end": to_serializable(self.end), "width": self.width,
        "line_types": self.line_types, "forbidden": self.forbidden, "speed_limit": self.speed_limit, "priority": self.priority}}
"""
C_CONF = """
def ref(self):
    return {"class_path": get_class_path(self.__class__), "config": {
        "id": self.id, "center": to_serializable(self.center), "radius": self.radius, "start_phase": self.start_phase,
        "end_phase": self.end_phase, "clockwise": self.clockwise, "width": self.width,
        "line_types": self.line_types, "forbidden": self.forbidden, "speed_limit": self.speed_limit, "priority": self.priority}}
"""
C_CONF3 = """
def ref(self):
    return {"class_path": get_class_path(self.__class__), "config": {
        "id": self.id, "center": to_serializable(self.center), "radius": self.radius, "norm_vec": to_serializable(self.norm_vec),
        "start_phase": self.start_phase, "end_phase": self.end_phase, "right_rotate": self.right_rotate, "width": self.width,
        "line_types": self.line_types, "forbidden": self.forbidden, "speed_limit": self.speed_limit, "priority": self.priority}}
"""
S_FROM = """
def ref(cls, config):
    config["start"] = np.array(config["start"])
    config["end"] = np.array(config["end"])
    return cls(**config)
"""
C_FROM = """
def ref(cls, config):
    config["center"] = np.array(config["center"])
    return cls(**config)
"""
SER = """
def ref(arg):
    if isinstance(arg, np.ndarray):
        return arg.tolist()
    return arg
"""
PATH = """
def ref(cls):
    return cls.__module__ + "." + cls.__qualname__
"""
ON_LANE = """
def ref(self, position, longitudinal=None, lateral=None, margin=0):
    if longitudinal is None or lateral is None:
        longitudinal, lateral = self.local_coordinates(position)
    inside = np.abs(lateral) <= self.width_at(longitudinal) / 2 + margin
    return inside and -self.VEHICLE_LENGTH <= longitudinal < self.length + self.VEHICLE_LENGTH
"""
REACHABLE = """
def ref(self, position):
    if self.forbidden:
        return False
    longitudinal, lateral = self.local_coordinates(position)
    return np.abs(lateral) <= 2 * self.width_at(longitudinal) and 0 <= longitudinal < self.length + self.VEHICLE_LENGTH
"""
AFTER = """
def ref(self, position, longitudinal=None, lateral=None):
    if not longitudinal:
        longitudinal = self.local_coordinates(position)[0]
    return longitudinal > self.length - self.VEHICLE_LENGTH / 2
"""
DIST = """
def ref(self, position):
    s, r = self.local_coordinates(position)
    return abs(r) + max(s - self.length, 0) + max(-s, 0)
"""
DIST_H = """
def ref(self, position, heading, heading_weight=1.0):
    if heading is None:
        return self.distance(position)
    s, r = self.local_coordinates(position)
    return abs(r) + max(s - self.length, 0) + max(-s, 0) + heading_weight * np.abs(wrap_to_pi(heading - self.heading_at(s)))
"""

# ---------------------------------------------------------------- maps
MAP = """
def ref(self, lane_seg_list=[]):
    self.lane_dict = {}
    self.left_lane_dict = {}
    self.right_lane_dict = {}
    self.h_dict = {}
    for lane in lane_seg_list:
        self.lane_dict[lane.id] = lane
        self.left_lane_dict[lane.id] = []
        self.right_lane_dict[lane.id] = []
"""
ADD = """
def ref(self, lane_seg_list):
    for lane in lane_seg_list:
        self.lane_dict[lane.id] = lane
        self.left_lane_dict[lane.id] = []
        self.right_lane_dict[lane.id] = []
"""
PHYS = """
def ref(lane):
    if isinstance(lane, Enum):
        lane = lane.name
    if VIRT_LANE.match(lane):
        return "T" + lane[1]
    if INTERSECT_VIRT_LANE.match(lane):
        return lane.rsplit("_", 1)[0]
    return lane
"""
def _through(method, args="position", arr=True):
    return f"""
def ref(self, lane_idx{', position' if arr else ''}):
    lane = self.lane_dict[LaneMap.get_phys_lane(lane_idx)]
    {'if not isinstance(position, np.ndarray): position = np.array(position)' if arr else ''}
    return lane.{method}({args if arr else ''})
"""
M_GEOM = _through("get_geometry", arr=False)
M_LONG = _through("get_longitudinal_position")
M_LAT = _through("get_lateral_distance")
M_HEAD = _through("get_heading")
M_SEG = _through("get_lane_segment").replace("return lane.get_lane_segment(position)", "return lane.get_lane_segment(position)[1]")
M_LIMIT = _through("get_speed_limit", arr=False)
M_WIDTH = _through("get_lane_width", arr=False)
M_LIMITS = """
def ref(self):
    return {i: lane.get_speed_limit() for i, lane in self.lane_dict.items()}
"""
_NAMES = """
    if isinstance(lane_idx, Enum):
        lane_idx = lane_idx.name
    if isinstance(agent_mode_src, Enum):
        agent_mode_src = agent_mode_src.name
    if isinstance(agent_mode_dest, Enum):
        agent_mode_dest = agent_mode_dest.name
"""
H = """
def ref(self, lane_idx, agent_mode_src, agent_mode_dest):""" + _NAMES + """
    if self.h_dict == {}:
        return None
    return self.h_dict[(lane_idx, agent_mode_src, agent_mode_dest)]
"""
H_EXIST = """
def ref(self, lane_idx, agent_mode_src, agent_mode_dest):""" + _NAMES + """
    if self.h_dict == {}:
        return self.h(lane_idx, agent_mode_src, agent_mode_dest) is not None
    return (lane_idx, agent_mode_src, agent_mode_dest) in self.h_dict
"""
H3 = """
def ref(self, lane_idx, agent_mode_src, agent_mode_dest):""" + _NAMES + """
    return self.h_func(lane_idx, agent_mode_src, agent_mode_dest)
"""
H3_EXIST = """
def ref(self, lane_idx, agent_mode_src, agent_mode_dest):""" + _NAMES + """
    return self.h_exist_func(lane_idx, agent_mode_src, agent_mode_dest)
"""
MAP3 = """
def ref(self, lane_seg_list=[]):
    self.lane_dict = {}
    self.left_lane_dict = {}
    self.right_lane_dict = {}
    self.up_lane_dict = {}
    self.down_lane_dict = {}
    for lane in lane_seg_list:
        self.lane_dict[lane.id] = lane
        self.left_lane_dict[lane.id] = []
        self.right_lane_dict[lane.id] = []
        self.up_lane_dict[lane.id] = []
        self.down_lane_dict[lane.id] = []
    self.curr_wp = {}
    self.curr_seg = {}
    self.wps = {}
"""
ADD3 = """
def ref(self, lane_seg_list):
    for lane in lane_seg_list:
        self.lane_dict[lane.id] = lane
        self.left_lane_dict[lane.id] = []
        self.right_lane_dict[lane.id] = []
        self.up_lane_dict[lane.id] = []
        self.down_lane_dict[lane.id] = []
"""
PAIR = """
def ref(self, lane_idx_src, lane_idx_dest, relation):
    if isinstance(lane_idx_src, Enum):
        lane_idx_src = lane_idx_src.name
    if isinstance(lane_idx_dest, Enum):
        lane_idx_dest = lane_idx_dest.name
    if relation == "left":
        self.left_lane_dict[lane_idx_src].append(lane_idx_dest)
        self.right_lane_dict[lane_idx_dest].append(lane_idx_src)
    elif relation == "right":
        self.right_lane_dict[lane_idx_src].append(lane_idx_dest)
        self.left_lane_dict[lane_idx_dest].append(lane_idx_src)
    elif relation == "up":
        self.up_lane_dict[lane_idx_src].append(lane_idx_dest)
        self.down_lane_dict[lane_idx_dest].append(lane_idx_src)
    elif relation == "down":
        self.down_lane_dict[lane_idx_src].append(lane_idx_dest)
        self.up_lane_dict[lane_idx_dest].append(lane_idx_src)
    else:
        raise ValueError
"""
for _d in ("left", "right", "up", "down"):
    globals()["HAS_" + _d.upper()] = f"""
def ref(self, lane_idx):
    if isinstance(lane_idx, Enum):
        lane_idx = lane_idx.name
    if lane_idx not in self.lane_dict:
        Warning(f"lane {{lane_idx}} not available")
        return False
    return len(self.{_d}_lane_dict[lane_idx]) > 0
"""
    globals()["THE_" + _d.upper()] = f"""
def ref(self, lane_idx):
    assert all((elem in self.{_d}_lane_dict) for elem in self.lane_dict)
    if isinstance(lane_idx, Enum):
        lane_idx = lane_idx.name
    if lane_idx not in self.{_d if _d == 'right' else 'left'}_lane_dict:
        raise ValueError(f"lane_idx {{lane_idx}} not in lane_dict")
    return copy.deepcopy(self.{_d}_lane_dict[lane_idx][0])
"""
def _through3(method):
    return f"""
def ref(self, lane_idx, position):
    if not isinstance(position, np.ndarray):
        position = np.array(position)
    return self.lane_dict[lane_idx].{method}(position)
"""
M3_LONG = _through3("get_longitudinal_position")
M3_LAT = _through3("get_lateral_distance")
M3_THETA = _through3("get_theta_angle")
M3_LRT = _through3("get_l_r_theta")
M3_WIDTH = "def ref(self, lane_idx): return self.lane_dict[lane_idx].get_lane_width()"
GUARD_BOX = """
def ref(self, agent_id, state, box_side):
    dest = self.curr_wp[agent_id][3:]
    for i in range(len(dest)):
        if state[i] < dest[i] - box_side[i] / 2 or state[i] > dest[i] + box_side[i] / 2:
            return False
    return True
"""
S3_LOCAL = """
def ref(self, position):
    d = position - self.start
    off = np.linalg.norm(np.cross(self.direction, d))
    along = np.dot(d, self.direction)
    if round(off, 3) == 0:
        return along, off, 0
    return float(along), float(off), get_theta_by_coor(position, self.direction, self.start + along * self.direction, off, True)
"""
S3_POS = """
def ref(self, longitudinal, lateral, theta):
    return get_coor_by_rt(lateral, theta, self.direction, self.start + longitudinal * self.direction)
"""
CENTER = """
def ref(start, end, n, phase, right_rotate=True):
    n, end, start = np.array(n), np.array(end), np.array(start)
    assert 2 * pi > phase > 0 and np.any(start != end)
    side = np.cross(n, end - start)
    side = side / np.linalg.norm(side)
    half = np.linalg.norm(end - start) / 2
    return (end + start) / 2 + half / tan(phase / 2) * side, half / sin(phase / 2)
"""
S3_INIT = """
def ref(self, id, start, end, width=AbstractLane_3d.DEFAULT_WIDTH, line_types=None, forbidden=False, speed_limit=20, priority=0):
    self.id = id
    self.start = np.array(start)
    self.end = np.array(end)
    self.width = width
    self.length = np.linalg.norm(self.end - self.start)
    self.line_types = line_types or [LineType_3d.STRIPED, LineType_3d.STRIPED]
    self.direction = (self.end - self.start) / self.length
    self.forbidden = forbidden
    self.priority = priority
    self.speed_limit = speed_limit
    self.type = "Straight"
    self.longitudinal_start = 0
"""
C3_POS = """
def ref(self, longitudinal, lateral, theta):
    c = self.get_outer_center(longitudinal)
    along = np.cross(self.norm_vec, c - self.center)
    return get_coor_by_rt(lateral, theta, along / np.linalg.norm(along), c)
"""
C3_OUTER = """
def ref(self, longitudinal):
    phase = self.start_phase + (self.end_phase - self.start_phase) * longitudinal / self.length
    return get_coor_by_rt(self.radius, phase, self.norm_vec, self.center, self.right_rotate)
"""
C3_LOCAL = """
def ref(self, position):
    off, theta, phase = get_rtp_by_coor(position, self.norm_vec, self.center, self.radius, self.right_rotate)
    if phase < self.start_phase and phase < self.end_phase:
        phase += 2 * pi
    if phase > self.start_phase and phase > self.end_phase:
        phase -= 2 * pi
    return (phase - self.start_phase) * self.length / (self.end_phase - self.start_phase), off, theta
"""
RTP = """
def ref(point, n, center, radius, right_rotate=True):
    side = np.cross(n, point - center)
    side = side / np.linalg.norm(side)
    out = np.cross(side, n)
    mid = center + out / np.linalg.norm(out) * radius
    off = np.linalg.norm(point - mid)
    return off, get_theta_by_coor(point, side, mid, off), get_theta_by_coor(mid, n, center, radius, right_rotate)
"""

C3V2_CONF = """
def ref(self):
    config = super().to_config()
    config["class_path"] = get_class_path(CircularLane_3d_v1)
    return config
"""
ON_LANE3 = ON_LANE.replace("longitudinal, lateral = self", "longitudinal, lateral, _ = self")
REACHABLE3 = REACHABLE.replace("longitudinal, lateral = self", "longitudinal, lateral, _ = self")
DIST3 = DIST.replace("s, r = self", "s, r, _ = self")
DIST_H3 = DIST_H.replace("s, r = self", "s, r, _ = self")
MEAN_ALT = "def ref(self): return (self.start[2] + self.end[2]) / 2"
ARC_ALT = """
def ref(self):
    start, _, end, _ = self.get_start_end_tang()
    return (start[2] + end[2]) / 2
"""
LANE_ALT = """
def ref(self):
    total = 0
    for seg in self.segment_list:
        total += seg.altitude()
    return total / len(self.segment_list)
"""
S3_TANG = "def ref(self, longitudinal): return self.direction"
C3_TANG = "def ref(self, longitudinal): return np.cross(self.norm_vec, self.get_outer_center(longitudinal) - self.center)"
C3_ENDS = """
def ref(self):
    start, end = self.get_outer_center(0), self.get_outer_center(self.length)
    return start, np.cross(self.norm_vec, start - self.center), end, np.cross(self.norm_vec, end - self.center)
"""
C3_INIT = """
def ref(self, id, center, radius, norm_vec, start_phase, end_phase, right_rotate=True, width=AbstractLane_3d.DEFAULT_WIDTH, line_types=None, forbidden=False, speed_limit=20, priority=0):
    super().__init__(id)
    self.center = np.array(center)
    self.radius = radius
    self.norm_vec = norm_vec / np.linalg.norm(norm_vec)
    n = self.norm_vec
    flat = (n[0] ** 2 + n[1] ** 2) ** 0.5
    if flat != 0:
        full = (n[0] ** 2 + n[1] ** 2 + n[2] ** 2) ** 0.5
        self.a = np.array([n[1] / flat, -n[0] / flat, 0])
        self.b = np.array([n[0] * n[2] / flat / full, n[1] * n[2] / flat / full, -flat / full])
    else:
        self.a = np.array([1, 0, 0])
        if n[2] > 0:
            self.b = np.array([0, 1, 0])
        elif n[2] < 0:
            self.b = np.array([0, -1, 0])
        else:
            raise ValueError
    if not right_rotate:
        self.b = -self.b
    self.start_phase = start_phase
    self.end_phase = end_phase
    if right_rotate and self.end_phase <= self.start_phase:
        self.end_phase += 2 * pi
    if not right_rotate and self.end_phase >= self.start_phase:
        self.start_phase += 2 * pi
    if max(self.start_phase, self.end_phase) > 2 * pi:
        self.start_phase -= 2 * pi
        self.end_phase -= 2 * pi
    self.right_rotate = right_rotate
    self.direction = -1 if right_rotate else 1
    self.width = width
    self.line_types = line_types or [LineType_3d.STRIPED, LineType_3d.STRIPED]
    self.forbidden = forbidden
    self.length = abs(radius * (self.end_phase - self.start_phase))
    self.priority = priority
    self.speed_limit = speed_limit
    self.type = "Circular"
    self.longitudinal_start = 0
"""
C3V2_INIT = """
def ref(self, id, start, end, norm_vec, delta_phase, right_rotate=True, width=AbstractLane_3d.DEFAULT_WIDTH, line_types=None, forbidden=False, speed_limit=20, priority=0):
    norm_vec = np.array(norm_vec) / np.linalg.norm(norm_vec)
    center, radius = get_center_radius(start, end, norm_vec, delta_phase, right_rotate)
    first = get_theta_by_coor(start, norm_vec, center, radius, right_rotate)
    last = get_theta_by_coor(end, norm_vec, center, radius, right_rotate)
    super().__init__(id, center, radius, norm_vec, first, last, right_rotate, width, line_types, forbidden, speed_limit, priority)
"""
COOR = """
def ref(r, theta, n, center, right_rotate=True):
    flat = (n[0] ** 2 + n[1] ** 2) ** 0.5
    if flat != 0:
        full = (n[0] ** 2 + n[1] ** 2 + n[2] ** 2) ** 0.5
        a = np.array([n[1] / flat, -n[0] / flat, 0])
        b = np.array([n[0] * n[2] / flat / full, n[1] * n[2] / flat / full, -flat / full])
    else:
        a = np.array([1, 0, 0])
        b = np.array([0, 1, 0])
        if n[2] < 0:
            b = np.array([0, -1, 0])
    if not right_rotate:
        b = -b
    return center + r * (a * cos(theta) + b * sin(theta))
"""
THETA_OF = """
def ref(point, n, center, r, right_rotate=True):
    if round(r, 3) == 0:
        return 0
    d = (point - center) / r
    flat = (n[0] ** 2 + n[1] ** 2) ** 0.5
    if flat != 0:
        a = np.array([n[1] / flat, -n[0] / flat, 0])
        b = np.array([n[0] * n[2] / flat, n[1] * n[2] / flat, -flat])
        if not right_rotate:
            b = -b
        sinx = round(d[2] / b[2], 5)
        if n[0] != 0:
            cosx = round((d[1] - b[1] * sinx) / a[1], 5)
        if n[1] != 0:
            cosx = round((d[0] - b[0] * sinx) / a[0], 5)
    else:
        sinx = round(d[1], 5)
        if n[2] < 0:
            sinx = -sinx
        elif n[2] == 0:
            raise ValueError
        if not right_rotate:
            sinx = -sinx
        cosx = round(d[0], 5)
    if round(cosx, 5) == 0:
        if sinx > 0:
            return pi / 2
        if sinx < 0:
            return 1.5 * pi
        return 0
    theta = atan(sinx / cosx)
    if cosx < 0:
        return pi + theta
    if theta < 0 and cosx > 0:
        return 2 * pi + theta
    return theta
"""
FRAME_A = """
def ref(n):
    flat = (n[0] ** 2 + n[1] ** 2) ** 0.5
    return np.array([n[1] / flat, -n[0] / flat, 0]) if flat != 0 else np.array([1, 0, 0])
"""
FRAME_B = """
def ref(n):
    flat = (n[0] ** 2 + n[1] ** 2) ** 0.5
    if flat != 0:
        full = (n[0] ** 2 + n[1] ** 2 + n[2] ** 2) ** 0.5
        return np.array([n[0] * n[2] / flat / full, n[1] * n[2] / flat / full, -flat / full])
    return np.array([0, 1, 0])
"""
TRANS3 = """
def ref(self, lane_idx):
    return "T" + lane_idx[-1]
"""
_NAME1 = """
    if isinstance(lane_idx, Enum):
        lane_idx = lane_idx.name
"""
M3_GEOM = "def ref(self, lane_idx):" + _NAME1 + "    return self.lane_dict[lane_idx].get_geometry()"
M3_ALT = "def ref(self, lane_idx):" + _NAME1 + "    return self.lane_dict[self.trans_func(lane_idx)].get_altitude()"
M3_SEG = """
def ref(self, lane_idx, position):
    if not isinstance(position, np.ndarray):
        position = np.array(position)
    _, segment, possible = self.lane_dict[lane_idx].get_lane_segment(position)
    return segment, possible
"""
M3_WPS = "def ref(self, agent_id): return self.wps[agent_id]"
M3_NEXT = """
def ref(self, lane, agent_id, pos, velocity, t_v_pair):
    ahead = t_v_pair[0] * t_v_pair[1]
    if isinstance(pos, np.ndarray):
        here = pos[:3]
    elif agent_id in self.curr_wp:
        here = self.curr_wp[agent_id][3:]
    else:
        raise ValueError
    seg, possible = self.get_lane_segment(lane, here)
    if agent_id not in self.curr_seg:
        self.curr_seg[agent_id] = seg
    elif self.curr_seg[agent_id] in possible:
        seg = self.curr_seg[agent_id]
    along, off, theta = seg.local_coordinates(here)
    rate = 0.7
    if ahead >= off / rate:
        to, beside = along + (ahead**2 - off**2) ** 0.5, 0
    else:
        to, beside = along + ahead * (1 - rate**2) ** 0.5, off - rate * ahead
    point = seg.position(to, beside, theta)
    if to > seg.length:
        following, candidates = self.get_lane_segment(lane, point)
        best = -float("inf")
        for c in candidates:
            start = c.position(0, off, theta)
            d = np.inner((start - here) / np.linalg.norm(start - here), velocity)
            if d > best:
                best = d
                following = c
        point = following.position(0, off, theta)
        self.curr_seg[agent_id] = following
    waypoint = list(here) + point.tolist()
    self.curr_wp[agent_id] = waypoint
    if agent_id not in self.wps:
        self.wps[agent_id] = [waypoint]
    else:
        self.wps[agent_id].append(waypoint)
    return waypoint
"""
