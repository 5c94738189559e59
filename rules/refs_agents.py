"""Reference definitions: the bundled agents."""

CAR_TC = """
def ref(self, mode, init, time_bound, time_step, lane_map=None):
    n = int(np.ceil(float(time_bound) / time_step))
    trace = np.zeros((n + 1, 1 + len(init)))
    trace[1:, 0] = [round(i * time_step, 10) for i in range(n)]
    trace[0, 1:] = init
    x = init
    for i in range(n):
        steering, a = self.action_handler(mode, x, lane_map)
        r = ode(self.dynamics)
        r.set_initial_value(x).set_f_params([steering, a])
        x = r.integrate(r.t + time_step).flatten()
        if x[3] < 0:
            x[3] = 0
        trace[i + 1, 0] = time_step * (i + 1)
        trace[i + 1, 1:] = x
    return trace
"""

NPC_DYN = """
def ref(t, state, u):
    theta, v = state[2:4]
    delta, a = u
    d = [v * np.cos(theta + delta), v * np.sin(theta + delta), v / 1.75 * np.sin(delta), a]
    return d if len(state) == 4 else d + [1]
"""

CAR_DYN = """
def ref(t, state, u):
    x, y, theta, v = state
    delta, a = u
    return [v * np.cos(theta + delta), v * np.sin(theta + delta), v / 1.75 * np.sin(delta), a]
"""

NPC_ACT = """
def ref(self, mode, state, lane_map):
    x, y, theta, v = state[:4]
    pos = np.array([x, y])
    d = -lane_map.get_lateral_distance(mode[1], pos)
    psi = lane_map.get_lane_heading(mode[1], pos) - theta
    return np.clip(psi + np.arctan2(0.45 * d, v), -0.61, 0.61), 0
"""

CAR_ACT = """
def ref(self, mode, state, lane_map):
    x, y, theta, v = state
    what, lane = mode
    pos = np.array([x, y])
    width = lane_map.get_lane_width(lane)
    d = -lane_map.get_lateral_distance(lane, pos)
    a = 0
    if what == "Normal" or what == "Stop":
        pass
    elif what == "SwitchLeft":
        d = d + width
    elif what == "SwitchRight":
        d = d - width
    elif what == "Brake":
        a = max(-self.accel, -v)
    elif what == "Accel":
        a = min(self.accel, self.speed - v)
    else:
        raise ValueError(f"Invalid mode: {what}")
    psi = wrap_to_pi(lane_map.get_lane_heading(lane, pos) - theta)
    return np.clip(psi + np.arctan2(0.45 * d, v), -0.61, 0.61), a
"""

CAR2_ACT = """
def ref(self, mode, state, lane_map):
    x, y, theta, v, _ = state
    what, lane = mode
    pos = np.array([x, y])
    width = lane_map.get_lane_width(lane)
    d = -lane_map.get_lateral_distance(lane, pos)
    a = 0
    if what == "Normal" or what == "Stop":
        pass
    elif what == "SwitchLeft":
        d = d + width
    elif what == "SwitchRight":
        d = d - width
    elif what == "SwitchLeft2":
        d = d + 2 * width
    elif what == "SwitchRight2":
        d = d - 2 * width
    elif what == "Brake":
        a = max(-self.accel, -v)
    elif what == "Accel":
        a = min(self.accel, self.speed - v)
    else:
        raise ValueError(f"Invalid mode: {what}")
    psi = wrap_to_pi(lane_map.get_lane_heading(lane, pos) - theta)
    return np.clip(psi + np.arctan2(0.45 * d, v), -0.61, 0.61), a
"""

WEIRD_ACT = """
def ref(self, mode, state, lane_map):
    theta = state[2]
    if abs(theta) > self.thres:
        return 0, 0
    if mode[0] == "SwitchLeft" and theta >= 0:
        return self.gain, 0
    if mode[0] == "SwitchRight" and theta <= 0:
        return -self.gain, 0
    return 0, 0
"""

STEP_TC = """
def ref(self, mode, initialCondition, time_bound, time_step, lane_map=None):
    x = initialCondition
    trace = [[0] + x]
    for i in range(int(np.ceil(float(time_bound) / time_step))):
        r = ode(self.dynamics)
        r.set_initial_value(x)
        x = r.integrate(r.t + time_step).flatten().tolist()
        trace.append([round(i * time_step, 10) + time_step] + x)
    return np.array(trace)
"""

THERMO_TC = """
def ref(self, mode, initialCondition, time_bound, time_step, lane_map=None):
    x = initialCondition
    trace = [[0] + x]
    for i in range(int(np.ceil(float(time_bound) / time_step))):
        r = ode(self.dynamics)
        r.set_initial_value(x).set_f_params(self.action_handler(mode[0]))
        x = r.integrate(r.t + time_step).flatten().tolist()
        trace.append([round(i * time_step, 10) + time_step] + x)
    return np.array(trace)
"""

CRAFT_TC = """
def ref(self, mode, initialCondition, time_bound, time_step, lane_map=None):
    x = initialCondition
    trace = [[0] + x]
    for i in range(int(np.ceil(float(time_bound) / time_step))):
        r = self.action_handler(mode[0])
        r.set_initial_value(x)
        x = r.integrate(r.t + time_step).flatten().tolist()
        trace.append([round(i * time_step, 10) + time_step] + x)
    return np.array(trace)
"""

SIGN_TC = """
def ref(self, mode, init, time_horizon, time_step, map=None):
    n = int(np.ceil(float(time_horizon) / time_step))
    return np.array([[0] + init] + [[i * time_step + time_step] + init for i in range(n)])
"""

THERMO_DYN = """
def ref(t, state, rate):
    temp, total, cycle = state
    return [float(temp) * rate, 1, 1]
"""

THERMO_ACT = """
def ref(self, mode):
    if mode == "ON":
        return 0.1
    if mode == "OFF":
        return -0.1
    print(mode)
    raise ValueError(f"Invalid mode: {mode}")
"""

CRAFT_ACT = """
def ref(self, mode):
    if mode == "ProxA":
        return ode(self.ProxA_dynamics)
    if mode == "ProxB":
        return ode(self.ProxB_dynamics)
    if mode == "Passive":
        return ode(self.Passive_dynamics)
    raise ValueError
"""

VDP_DYN = """
def ref(t, state):
    x, y = state
    x, y = float(x), float(y)
    return [y, (1 - x**2) * y - x]
"""

BALL_DYN = """
def ref(self, t, state):
    x, y, vx, vy = state
    return [vx, vy, 0, 0]
"""

LINE_DYN = """
def ref(self, t, state):
    x, vx = state
    return [vx, 0]
"""

ROBOT_DYN = """
def ref(t, state):
    return [1]
"""

PASSIVE_DYN = """
def ref(t, state):
    x, y, vx, vy, total, cycle = state
    return [vx, vy, 0.0000575894721132000 * x + 0.00876276 * vy, -0.00876276 * vx, 1, 1]
"""

PROX_A = """
def ref(t, state):
    x, y, vx, vy, total, cycle = state
    pull = pow(pow(y, 2) + pow(x + 42164000, 2), -1.5)
    ax = (-2.89995083970656 * vx - 0.0576765518445905 * x + 0.00877200894463775 * vy + 0.000200959896519766 * y
          - (1.43496e18 * x + 6.050365344e25) * pull + 807.153595726846)
    ay = (-0.00875351105536225 * vx - 0.000174031357370456 * x - 2.90300269286856 * vy
          - 1.43496e18 * y * pull - 0.0664932019993982 * y)
    return [vx, vy, ax, ay, 1, 1]
"""

PROX_B = """
def ref(t, state):
    x, y, vx, vy, total, cycle = state
    pull = pow(pow(y, 2) + pow(x + 42164000, 2), -1.5)
    ax = (-19.2299795908647 * vx - 0.576076729033652 * x + 0.00876275931760007 * vy + 0.000262486079431672 * y
          - (1.43496e18 * x + 6.050365344e25) * pull + 807.153595726846)
    ay = (-0.00876276068239993 * vx - 0.000262486080737868 * x - 19.2299765959399 * vy
          - 1.43496e18 * y * pull - 0.575980743701182 * y)
    return [vx, vy, ax, ay, 1, 1]
"""

QUAD_DYN = """
def ref(t, state, u):
    u1, u2, u3, bx, by, bz, sc, ddf = u
    vx, vy, vz = state[6:]
    sc = -1 * sc
    ax = 9.81 * np.sin(u1) / np.cos(u1)
    ay = -9.81 * np.sin(u2) / np.cos(u2)
    return [bx, by, bz, vx, vy, vz, ax * math.cos(sc) - ay * math.sin(sc), ax * math.sin(sc) + ay * math.cos(sc), u3 - 9.81]
"""

QUAD_ACT = """
def ref(self, mode, state, lane_map):
    return 1 if lane_map.check_guard_box(self.id, state[3:9], self.box_side) else 0
"""

QUAD_TC = """
def ref(self, mode, initialCondition, time_bound, time_step, lane_map=None):
    time_bound = float(time_bound)
    traces = []
    end = 0
    leg = self.t_v_pair[0]
    at = initialCondition
    w = lane_map.get_next_point(lane_map.trans_func(mode[1]), self.id, np.array(at[:3]), np.array(at[3:6]), self.t_v_pair)
    while time_bound > end:
        speed = [(w[3] - w[0]) / leg, (w[4] - w[1]) / leg, (w[5] - w[2]) / leg, 0]
        trace = self.runModel(mode, w[0:3] + list(at), min(leg, time_bound - end), time_step, speed, lane_map)
        for p in trace:
            p[0] = round(p[0] + end, 4)
        end = trace[-1][0]
        at = trace[-1][1:]
        w = lane_map.get_next_point(lane_map.trans_func(mode[1]), self.id, None, np.array(at[3:6]), self.t_v_pair)
        if round(trace[0][0] - 0, 4) != 0:
            trace = trace[1:]
        traces.extend(trace)
    return np.array(traces)
"""

WEIRD_OUT = """
def ref(self, mode, state, lane_map):
    steering, a = self._action_handler(mode, state, lane_map)
    return steering, a
"""

NPC_NEW = """
def ref(self, id, initial_state=None, initial_mode=None):
    self.id = id
    self.decision_logic = ControllerIR.empty()
    self.set_initial_state(initial_state)
    self.set_initial_mode(initial_mode)
    self.set_static_parameter(None)
    self.set_uncertain_parameter(None)
"""
CAR_NEW = """
def ref(self, id, code=None, file_name=None, initial_state=None, initial_mode=None, speed=2, accel=1):
    super().__init__(id, code, file_name, initial_state=initial_state, initial_mode=initial_mode)
    self.speed = speed
    self.accel = accel
"""
CAR_SUB_NEW = """
def ref(self, id, code=None, file_name=None, initial_state=None, initial_mode=None, speed=2, accel=1):
    super().__init__(id, code, file_name, initial_state=initial_state, initial_mode=initial_mode, speed=speed, accel=accel)
"""
WEIRD_NEW = """
def ref(self, id, code=None, file_name=None):
    super().__init__(id, code, file_name)
    self.gain = 0.2
    self.thres = 0.8
"""
PLAIN_NEW = """
def ref(self, id, code=None, file_name=None):
    super().__init__(id, code, file_name)
"""
SIGN_NEW = """
def ref(self, id):
    self.id = id
    self.decision_logic = ControllerIR.empty()
"""
QUAD_NEW = """
def ref(self, id, code=None, file_name=None, t_v_pair=[], box_side=[]):
    super().__init__(id, code, file_name)
    self.t_v_pair = t_v_pair
    self.box_side = box_side
"""
DEB_ACT = """
def ref(self, mode, state, lane_map):
    return super(CarAgentDebounced, self).action_handler(mode, state[:4], lane_map)
"""
DEB_DYN = """
def ref(t, state, u):
    return super(CarAgentDebounced, CarAgentDebounced).dynamics(t, state[:4], u) + [1]
"""
CAR2_DYN = """
def ref(t, state, u):
    return super(CarAgentSwitch2, CarAgentSwitch2).dynamics(t, state[:4], u) + [1]
"""
