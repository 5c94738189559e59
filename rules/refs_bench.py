"""Reference definitions for benchmarks."""

FROM_ARG = """
def ref(a, **kw):
    flags = a[1] if len(a) >= 2 else ""
    cfg = ScenarioConfig(incremental="i" in flags, parallel="l" in flags, try_local="t" in flags, **kw)
    compare = "c" in flags
    plot = "p" in flags
    dump = "d" in flags
    sim = not ("v" in flags)
    left = flags
    for o in "cilpdv":
        left = left.replace(o, "")
    res = ExprConfig(cfg, left, a[2:], compare, plot, dump, sim)
    res.kw = kw
    return res
"""

NEW = """
def ref(self, argv, **kw):
    self.config = ExprConfig.from_arg(argv, **kw)
    self.scenario = Scenario(self.config.config)
    self.agent_type = "N/A"
    self.noisy_s = "no"
    self.parallelness = 0
    self.timesteps = 0
    self.parallel_time_offset = 0
"""

RUN = """
def ref(self, *a, **kw):
    self.cont_engine = str(self.scenario.config.reachability_method)
    self.timesteps = int(a[0] / a[1])
    self._start_time = timeit.default_timer()
    if self.config.sim:
        self.traces = self.scenario.simulate(*a)
    else:
        self.traces = self.scenario.verify(*a, **kw)
    self.run_time = timeit.default_timer() - self._start_time
    if self.config.sim:
        self.cache_size = asizeof.asizeof(self.scenario.simulator.cache) / 1_000_000
        self.cache_hits = self.scenario.simulator.cache_hits
    else:
        v = self.scenario.verifier
        self.cache_size = (asizeof.asizeof(v.cache) + asizeof.asizeof(v.trans_cache)) / 1_000_000
        self.cache_hits = (v.tube_cache_hits[0] + v.trans_cache_hits[0], v.tube_cache_hits[1] + v.trans_cache_hits[1])
    self.num_agent = len(self.scenario.agent_dict)
    self.map_name = self.scenario.map.__class__.__name__
    if self.map_name == "LaneMap":
        self.map_name = "N/A"
    self.num_nodes = len(self.traces.nodes)
    self.leaves = self.traces.leaves()
    return self.traces
"""

COMPARE = """
def ref(self, *a, **kw):
    assert self.config.compare
    first = self.run(*a, **kw)
    self.report()
    if len(self.config.rest) == 0:
        second = self.run(*a, **kw)
    else:
        self.replace_scenario(self.config.rest[1])
        second = self.run(*a, **kw)
    self.report()
    print("trace1 contains trace2?", first.contains(second))
    print("trace2 contains trace1?", second.contains(first))
    return first, second
"""

REPLACE = """
def ref(self, new_scenario):
    flags = self.config.rest[0]
    self.config.config = ScenarioConfig(incremental="i" in flags, parallel="l" in flags, **self.config.kw)
    self.scenario = new_scenario
    self.scenario.update_config(self.config.config)
"""

SWAP = """
def ref(self, id, alt_ctlr):
    self.scenario.agent_dict[id].decision_logic = ControllerIR.parse(fn=alt_ctlr)
"""
