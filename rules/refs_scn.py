"""Reference definitions for scenarios, agents and helpers."""

_NAMES = """
        mode={a: tuple(m if isinstance(m, str) else m.name for m in ms) for a, ms in self.init_mode_dict.items()},
        static={a: [m.name for m in ms] for a, ms in self.static_dict.items()},
        uncertain_param=self.uncertain_param_dict, agent=self.agent_dict, ndigits=10,"""

SIM = """
def ref(self, time_horizon, time_step, max_height=None, seed=None):
    _check_ray_init(self.config.parallel)
    self._get_init_from_agent()
    self._check_init()
    root = AnalysisTreeNode.root_from_inits(init={a: sample_rect(b, seed) for a, b in self.init_dict.items()},""" + _NAMES + """
        type=AnalysisTreeNodeType.SIM_TRACE)
    tree = self.simulator.simulate(root, self.sensor, time_horizon, time_step, max_height, self.map, len(self.past_runs), self.past_runs)
    self.past_runs.append(tree)
    return tree
"""

SIM_SIMPLE = """
def ref(self, time_horizon, time_step, max_height=None, seed=None):
    self._get_init_from_agent()
    self._check_init()
    root = AnalysisTreeNode.root_from_inits(init={a: sample_rect(b, seed) for a, b in self.init_dict.items()},""" + _NAMES + """
        type=AnalysisTreeNodeType.SIM_TRACE)
    tree = self.simulator.simulate_simple(root, time_horizon, time_step, max_height, self.map, self.sensor, len(self.past_runs), self.past_runs)
    self.past_runs.append(tree)
    return tree
"""

SIM_MULTI = """
def ref(self, time_horizon, time_step, init_dict_list=None, max_height=None, seed=None, num_sims=10):
    _check_ray_init(self.config.parallel)
    self._get_init_from_agent()
    self._check_init()
    if init_dict_list is None:
        return [self.simulate(time_horizon, time_step, max_height, seed + i if seed is not None else None) for i in range(num_sims)]
    out = []
    for init in init_dict_list:
        root = AnalysisTreeNode.root_from_inits(init=init,""" + _NAMES + """
            type=AnalysisTreeNodeType.SIM_TRACE)
        tree = self.simulator.simulate(root, self.sensor, time_horizon, time_step, max_height, self.map, len(self.past_runs), self.past_runs)
        self.past_runs.append(tree)
        out.append(tree)
    return out
"""

VERIFY = """
def ref(self, time_horizon, time_step, max_height=None, params={}):
    _check_ray_init(self.config.parallel)
    self._get_init_from_agent()
    self._check_init()
    root = AnalysisTreeNode.root_from_inits(init={a: [b] for a, b in self.init_dict.items()},""" + _NAMES + """
        type=AnalysisTreeNodeType.REACH_TUBE)
    tree = self.verifier.compute_full_reachtube(root, self.sensor, time_horizon, time_step, max_height, self.map,
        self.config.init_seg_length, self.config.reachability_method, len(self.past_runs), self.past_runs, params)
    self.past_runs.append(tree)
    return tree
"""

VERIFY_PART = """
def ref(self, time_horizon, time_step, n, max_height=None, partition_initial=False, partition_dims=None, params={}):
    _check_ray_init(self.config.parallel)
    self._get_init_from_agent()
    self._check_init()
    root = AnalysisTreeNode.root_from_inits(init={a: [b] for a, b in self.init_dict.items()},""" + _NAMES + """
        type=AnalysisTreeNodeType.REACH_TUBE)
    tree = self.verifier.compute_full_reachtube_partitioned(root, self.sensor, time_horizon, time_step, max_height, self.map,
        self.config.init_seg_length, self.config.reachability_method, len(self.past_runs), self.past_runs, n, partition_initial, partition_dims, params)
    self.past_runs.append(tree)
    return tree
"""

ADD_AGENT = """
def ref(self, agent):
    if self.map is not None:
        self._update_agent_lane_mode(agent, self.map)
    self.agent_dict[agent.id] = agent
    if hasattr(agent, "init_cont") and agent.init_cont is not None:
        self.init_dict[agent.id] = copy.deepcopy(agent.init_cont)
    if hasattr(agent, "init_disc") and agent.init_disc is not None:
        self.init_mode_dict[agent.id] = copy.deepcopy(agent.init_disc)
    self.static_dict[agent.id] = copy.deepcopy(agent.static_parameters) if hasattr(agent, "static_parameters") and agent.static_parameters is not None else []
    self.uncertain_param_dict[agent.id] = copy.deepcopy(agent.uncertain_parameters) if hasattr(agent, "uncertain_parameters") and agent.uncertain_parameters is not None else []
"""

LANE_MODE = """
def ref(self, agent, track_map):
    for lane in track_map.lane_dict:
        if "TrackMode" in agent.decision_logic.mode_defs:
            if lane not in agent.decision_logic.mode_defs["TrackMode"].modes:
                agent.decision_logic.mode_defs["TrackMode"].modes.append(lane)
"""

SET_MAP = """
def ref(self, track_map):
    self.map = track_map
    for a in self.agent_dict:
        self._update_agent_lane_mode(self.agent_dict[a], track_map)
"""

SET_ONE = """
def ref(self, agent_id, init, init_mode, static=[], uncertain_param=[]):
    assert agent_id in self.agent_dict
    agent = self.agent_dict[agent_id]
    assert len(init) == 1 or len(init) == 2
    if agent.decision_logic != agent.decision_logic.empty():
        for corner in init:
            assert len(corner) == len(list(agent.decision_logic.state_defs.values())[0].cont)
        assert len(init_mode) == len(list(agent.decision_logic.state_defs.values())[0].disc)
    box = init + init if len(init) == 1 else init
    self.init_dict[agent_id] = copy.deepcopy(box)
    self.init_mode_dict[agent_id] = copy.deepcopy(init_mode)
    self.agent_dict[agent_id].set_initial(box, init_mode)
    if static:
        self.static_dict[agent_id] = copy.deepcopy(static)
        self.agent_dict[agent_id].set_static_parameter(static)
    else:
        self.static_dict[agent_id] = []
    if uncertain_param:
        self.uncertain_param_dict[agent_id] = copy.deepcopy(uncertain_param)
        self.agent_dict[agent_id].set_uncertain_parameter(uncertain_param)
    else:
        self.uncertain_param_dict[agent_id] = []
"""

SET_ALL = """
def ref(self, init_list, init_mode_list, static_list=[], uncertain_param_list=[]):
    assert len(init_list) == len(self.agent_dict)
    assert len(init_mode_list) == len(self.agent_dict)
    assert len(static_list) == len(self.agent_dict) or len(static_list) == 0
    assert len(uncertain_param_list) == len(self.agent_dict) or len(uncertain_param_list) == 0
    static = static_list if static_list else [[] for i in range(len(self.agent_dict))]
    param = uncertain_param_list if uncertain_param_list else [[] for i in range(len(self.agent_dict))]
    for i, a in enumerate(self.agent_dict.keys()):
        self.set_init_single(a, init_list[i], init_mode_list[i], static[i], param[i])
"""

CHECK_INIT = """
def ref(self):
    for a in self.agent_dict.keys():
        assert a in self.init_dict
        assert a in self.init_mode_dict
        assert a in self.static_dict
        assert a in self.uncertain_param_dict
"""

FROM_AGENT = """
def ref(self):
    for a in self.agent_dict.keys():
        if a in self.init_dict:
            continue
        agent = self.agent_dict[a]
        if hasattr(agent, "init_cont") and agent.init_cont is not None and hasattr(agent, "init_disc") and agent.init_disc is not None:
            static = agent.static_parameters if hasattr(agent, "static_parameters") and agent.static_parameters is not None else []
            param = agent.uncertain_parameters if hasattr(agent, "uncertain_parameters") and agent.uncertain_parameters is not None else []
            self.set_init_single(a, agent.init_cont, agent.init_disc, static, param)
"""

RAY_INIT = """
def ref(parallel):
    if parallel:
        import ray
        if not ray.is_initialized():
            ray.init()
"""

CLEANUP = """
def ref(self):
    self.past_runs = []
    self.simulator = Simulator(self.config)
    self.verifier = Verifier(self.config)
"""

UPDATE_CONFIG = """
def ref(self, config):
    self.config = config
    self.verifier.config = config
    self.simulator.config = config
"""

SCENARIO_INIT = """
def ref(self, config=ScenarioConfig()):
    self.agent_dict = {}
    self.simulator = Simulator(config)
    self.verifier = Verifier(config)
    self.init_dict = {}
    self.init_mode_dict = {}
    self.static_dict = {}
    self.uncertain_param_dict = {}
    self.map = LaneMap()
    self.sensor = BaseSensor()
    self.past_runs = []
    self.config = config
"""

AGENT_INIT = """
def ref(self, id, code=None, file_name=None, initial_state=None, initial_mode=None):
    self.decision_logic = ControllerIR.parse(code, file_name)
    self.id = id
    self.init_cont = initial_state
    self.init_disc = initial_mode
    self.static_parameters = None
    self.uncertain_parameters = None
"""

AGENT_SET = """
def ref(self, initial_state, initial_mode, static_param=None, uncertain_param=None):
    self.set_initial_state(initial_state)
    self.set_initial_mode(initial_mode)
    self.set_static_parameter(static_param)
    self.set_uncertain_parameter(uncertain_param)
"""
AGENT_STATE = """
def ref(self, initial_state):
    self.init_cont = copy.deepcopy(initial_state)
"""
AGENT_MODE = """
def ref(self, initial_mode):
    self.init_disc = copy.deepcopy(initial_mode)
"""
AGENT_STATIC = """
def ref(self, static_param):
    self.static_parameters = copy.deepcopy(static_param)
"""
AGENT_PARAM = """
def ref(self, uncertain_param):
    self.uncertain_parameters = copy.deepcopy(uncertain_param)
"""

TC = """
def ref(self, mode, initialSet, time_horizon, time_step, map=None):
    t = np.round(np.arange(0.0, time_horizon + time_step / 2, time_step), 8)
    states = odeint(func=self.dynamics, y0=initialSet, t=t, tfirst=True)
    return np.hstack((t.reshape((-1, 1)), states))
"""

SAMPLE = """
def ref(rect, seed=None):
    if seed is not None:
        np.random.seed(seed)
    return np.random.uniform(rect[0], rect[1]).tolist()
"""

DEDUP = """
def ref(l, f=(lambda a: a)):
    out = []
    for i, k in [(i, f(i)) for i in l]:
        for _, seen in out:
            if k == seen:
                break
        else:
            out.append((i, k))
    return [i for i, _ in out]
"""

SET_SENSOR = """
def ref(self, sensor):
    self.sensor = sensor
"""
