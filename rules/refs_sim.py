"""Reference definitions for the simulation engine."""

SIMULATE_ONE = """
def ref(config, cached_segments, node, old_node_id, later, remain_time, consts):
    cache_updates = []
    for aid in node.agent:
        if aid in node.trace:
            continue
        if aid in cached_segments:
            node.trace[aid] = cached_segments[aid].trace
        else:
            tr = node.agent[aid].TC_simulate(node.mode[aid], node.init[aid], remain_time, consts.time_step, consts.lane_map)
            tr[:, 0] += node.start_time
            node.trace[aid] = tr
    cache, paths = {}, []
    if old_node_id != None:
        if old_node_id[0] != consts.run_num:
            old = find(consts.past_runs[old_node_id[0]].nodes, lambda n: n.id == old_node_id[1])
            assert old != None
            cache, paths = to_simulate(old.agent, node.agent, cached_segments)
    asserts, transitions, at = Simulator.get_transition_simulate(
        cache, paths, node, consts.lane_map, consts.sensor, consts.agent_dict, config.print_level)
    node.assert_hits = asserts
    if not config.unsafe_continue and asserts != None:
        for aid in node.agent:
            node.trace[aid] = node.trace[aid][:at]
        return node.id, later, [], node.trace, asserts, cache_updates
    rest = {}
    whole = {}
    for aid in node.agent:
        whole[aid] = node.trace[aid]
        if transitions:
            rest[aid] = node.trace[aid][at:]
            node.trace[aid] = node.trace[aid][:at + 1]
    if asserts != None:
        return node.id, later, [], node.trace, asserts, cache_updates
    if not transitions:
        if config.incremental:
            for aid in node.agent:
                cache_updates.append((aid not in cached_segments, aid, [], whole[aid], [], at, consts.run_num))
        return node.id, later, [], node.trace, asserts, cache_updates
    if config.incremental:
        for aid in node.agent:
            cache_updates.append((aid not in cached_segments, aid, transitions.keys(), whole[aid],
                transitions[aid] if aid in transitions.keys() else [], at, consts.run_num))
    children = []
    for combo in itertools.product(*transitions.values()):
        mode = copy.deepcopy(node.mode)
        init = {}
        trace = {}
        for aid, dest, nxt, paths in combo:
            if dest is not None:
                mode[aid] = dest
                init[aid] = nxt
        for aid in node.agent:
            if aid not in init:
                trace[aid] = rest[aid]
                init[aid] = rest[aid][0][1:].tolist()
        children.append(node.new_child(trace=trace, init=init, mode=mode, start_time=list(rest.values())[0][0][0], id=-1))
    return node.id, later, children, node.trace, asserts, cache_updates
"""

# continuing past a violation when asked to
SIMULATE_ONE_GO_ON = SIMULATE_ONE.replace("""    if asserts != None:
        return node.id, later, [], node.trace, asserts, cache_updates
    if not transitions""", """    if not transitions""")

# without cached segments
GET_TRANSITION = """
def ref(cache, paths, node, track_map, sensor, agent_dict, print_level):
    n = len(list(node.trace.values())[0])
    guards = defaultdict(list)
    for agent in node.agent.values():
        for path in agent.decision_logic.paths:
            if len(agent.decision_logic.args) != 0:
                first = {a: (node.trace[a][0], node.mode[a], node.static[a]) for a in node.agent}
                guards[agent.id].append((path, sensor.sense(agent, first, track_map)[1]))
    transitions = defaultdict(list)
    for idx in range(n):
        satisfied = []
        hit = defaultdict(list)
        for aid in node.agent:
            agent: BaseAgent = agent_dict[aid]
            if len(agent.decision_logic.args) == 0:
                continue
            now = {a: (node.trace[a][idx], node.mode[a], node.static[a]) for a in node.agent}
            cont, disc, _ = sensor.sense(agent, now, track_map)
            labels, sat = check_sim_transitions(agent, guards[aid], cont, disc, track_map, node.trace[aid][idx][1:], node.mode[aid])
            if labels != None:
                hit[aid] = labels
            elif len(sat) != 0:
                satisfied.extend(sat)
        if len(hit) > 0:
            return hit, dict(transitions), idx
        for aid, dest, nxt, ps in satisfied:
            dest = tuple(dest)
            sm, st = node.get_mode(aid, node.mode[aid]), node.get_track(aid, node.mode[aid])
            dm, dt = node.get_mode(aid, dest), node.get_track(aid, dest)
            if (sm != dm or st != dt) and dt != track_map.h(st, sm, dm):
                continue
            transitions[aid].append((aid, dest, nxt, ps))
        if len(satisfied) > 0 and transitions:
            break
    return None, {a: dedup(v, lambda p: (p[1], list(p[2]))) for a, v in transitions.items()}, idx
"""

CHECK_SIM = """
def ref(agent, guards, cont, disc, map, state, mode):
    out = []
    ty = find(agent.decision_logic.args, lambda a: a.name == EGO).typ
    here = pack_env(agent, ty, cont, disc, map)
    hit = []
    for a in agent.decision_logic.asserts:
        if eval(a.pre, here) and not eval(a.cond, here):
            hit.append(a.label)
    if len(hit) != 0:
        return hit, out
    env = pack_env(agent, ty, cont, disc, map)
    env['np'] = np
    resets = defaultdict(list)
    for path, _ in guards:
        if eval(path.cond, env):
            resets[path.var].append((path.val, path))
    choices = []
    for vals in resets.values():
        choices.append(zip(range(len(vals)), [p for _, p in vals]))
    combos = list(itertools.product(*choices))
    if len(combos) == 1 and combos[0] == ():
        return None, out
    for combo in combos:
        nxt = copy.deepcopy(state)
        dests = [[m] for m in copy.deepcopy(mode)]
        for j, (k, path) in enumerate(combo):
            var = list(resets.keys())[j]
            val = eval(resets[var][k][0], here)
            ego = agent.decision_logic.state_defs[ty]
            if "mode" in var:
                dests[ego.disc.index(var)] = [(val, path)]
            else:
                nxt[ego.cont.index(var)] = val
        targets = list(itertools.product(*dests))
        if not targets:
            targets.append(None)
        for dest in targets:
            ps = []
            pure = []
            for d in dest:
                if isinstance(d, tuple):
                    pure.append(d[0])
                    ps.append(d[1])
                else:
                    pure.append(d)
            out.append((agent.id, pure, nxt, ps))
    return None, out
"""

# cache bookkeeping left out (it is specified with the caches)
PROC_RESULT = """
def ref(self, id, later, next_nodes, traces, assert_hits, cache_updates):
    done = self.nodes[id]
    done.child = next_nodes
    done.trace = traces
    done.assert_hits = assert_hits
    last = self.nodes[-1].id
    for i, nn in enumerate(next_nodes):
        nn.id = i + 1 + last
        self.simulation_queue.append((nn, 0 if i == 0 else 1))
    self.simulation_queue.sort(key=lambda p: p[1:])
    self.nodes.extend(next_nodes)
    for new, aid, agents, full, transition, at, run in cache_updates:
        cached = self.cache.check_hit(aid, done.mode[aid], done.init[aid], done.init)
        if new and not cached:
            self.cache.add_segment(aid, done, agents, full, transition, at, run)
            self.num_cached += 1
        else:
            cached.transitions.extend(convert_sim_trans(aid, agents, done.init, transition, at))
            cached.transitions = dedup(cached.transitions, lambda i: (i.disc, i.cont, i.inits))
            cached.node_ids.add((run, done.id))
"""

SIMULATE = """
def ref(self, root, sensor, time_horizon, time_step, max_height, lane_map, run_num, past_runs):
    import ray
    limit = float("inf") if max_height == None else max_height
    self.simulation_queue = [(root, 0)]
    self.result_refs = []
    self.nodes = [root]
    self.num_cached = 0
    consts = SimConsts(time_step, lane_map, run_num, past_runs, sensor, root.agent)
    if self.config.parallel:
        shared = ray.put(consts)
    while True:
        wait = False
        if len(self.simulation_queue) > 0:
            node, later = self.simulation_queue.pop(0)
            if node.height >= limit - 1:
                continue
            left = round(time_horizon - node.start_time, 10)
            if left <= 0:
                continue
            segs = {}
            for aid in node.agent:
                if self.config.incremental:
                    c = self.cache.check_hit(aid, node.mode[aid], node.init[aid], node.init)
                    if c != None:
                        self.cache_hits = self.cache_hits[0] + 1, self.cache_hits[1]
                        segs[aid] = c
                    else:
                        self.cache_hits = self.cache_hits[0], self.cache_hits[1] + 1
            old = None
            if len(segs) == len(node.agent):
                ids = list(functools.reduce(lambda a, b: a.intersection(b), [s.node_ids for s in segs.values()]))
                if len(ids) > 0:
                    old = ids[0]
            if not self.config.parallel or old != None:
                self.proc_result(*self.simulate_one(self.config, segs, node, old, later, left, consts))
            else:
                self.result_refs.append(self.simulate_one_remote.remote(self.config, segs, node, old, later, left, shared))
            if len(self.result_refs) >= self.config.parallel_sim_ahead:
                wait = True
        elif len(self.result_refs) > 0:
            wait = True
        else:
            break
        if wait:
            [res], remaining = ray.wait(self.result_refs)
            self.proc_result(*ray.get(res))
            self.result_refs = remaining
    self.simulation_tree = AnalysisTree(root)
    return self.simulation_tree
"""

GET_TRANSITION_SIMPLE = """
def ref(node, track_map, sensor):
    n = len(list(node.trace.values())[0])
    guards = defaultdict(list)
    transitions = defaultdict(list)
    for idx in range(n):
        now = {a: (node.trace[a][idx], node.mode[a], node.static[a]) for a in node.agent}
        satisfied = []
        hit = defaultdict(list)
        for aid in node.agent:
            agent: BaseAgent = node.agent[aid]
            if len(agent.decision_logic.args) == 0:
                continue
            dl = types.ModuleType("dl")
            exec(agent.decision_logic.controller_code, dl.__dict__)
            cont, disc, _ = sensor.sense(agent, now, track_map)
            given = []
            env = pack_env(agent, EGO, cont, disc, track_map)
            for arg in agent.decision_logic.args:
                if arg.name == EGO:
                    given.append(convertStrToEnum(env[EGO], agent, dl))
                elif arg.name == "track_map":
                    given.append(track_map)
                elif isinstance(env[arg.name], list):
                    given.append([convertStrToEnum(x, agent, dl) for x in env[arg.name]])
                else:
                    given.append(convertStrToEnum(env[arg.name], agent, dl))
            try:
                output = dl.decisionLogic(*given)
                if env[EGO] != output:
                    nxt = []
                    pure = []
                    output = convertEnumToStr(output, agent, dl)
                    for field in env[EGO].__dict__:
                        if disc_field(field, agent):
                            pure.append(getattr(output, field))
                        else:
                            nxt.append(getattr(output, field))
                    satisfied.append((aid, pure, nxt, []))
            except AssertionError:
                _, error, _ = sys.exc_info()
                hit[aid] = error.args[0]
                continue
        if len(hit) > 0:
            for aid, dest, nxt, ps in satisfied:
                transitions[aid].append((aid, dest, nxt, ps))
            return hit, dict(transitions), idx
        if len(satisfied) > 0:
            break
    for aid, dest, nxt, ps in satisfied:
        transitions[aid].append((aid, dest, nxt, ps))
    return None, dict(transitions), idx
"""

SIMULATE_SIMPLE = """
def ref(self, root, time_horizon, time_step, max_height, lane_map, sensor, run_num, past_runs):
    limit = float("inf") if max_height == None else max_height
    queue = [root]
    while queue != []:
        node: AnalysisTreeNode = queue.pop(0)
        if node.height >= limit - 1:
            continue
        left = round(time_horizon - node.start_time, 10)
        if left <= 0:
            continue
        for aid in node.agent:
            tr = node.agent[aid].TC_simulate(node.mode[aid], node.init[aid], left, time_step, lane_map)
            tr[:, 0] += node.start_time
            node.trace[aid] = tr
        asserts, transitions, at = Simulator.get_transition_simulate_simple(node, lane_map, sensor)
        node.assert_hits = asserts
        rest = {}
        for aid in node.agent:
            if transitions or asserts:
                rest[aid] = node.trace[aid][at:]
                node.trace[aid] = node.trace[aid][:at + 1]
        if asserts != None or not transitions:
            continue
        for combo in itertools.product(*transitions.values()):
            mode = copy.deepcopy(node.mode)
            init = {}
            trace = {}
            for aid, dest, nxt, ps in combo:
                if dest is not None:
                    mode[aid] = dest
                    init[aid] = nxt
            for aid in node.agent:
                if aid not in init:
                    trace[aid] = rest[aid]
                    init[aid] = rest[aid][0][1:]
            child = node.new_child(trace=trace, init=init, mode=mode, start_time=list(rest.values())[0][0][0], id=-1)
            node.child.append(child)
            queue.append(child)
    self.simulation_tree = AnalysisTree(root)
    return self.simulation_tree
"""

PACK_ENV = """
def ref(agent, ego_ty_name, cont, disc, track_map):
    packed = defaultdict(dict)
    for k, v in cont.items():
        a, b = k.split(".")
        packed[a][b] = v
    for k, v in disc.items():
        a, b = k.split(".")
        packed[a][b] = v
    env = {EGO: SimpleNamespace(**packed[EGO])}
    for arg in agent.decision_logic.args:
        if "map" in arg.name:
            env[arg.name] = track_map
        elif arg.name != EGO:
            other = arg.name
            if other in packed:
                keys, vals = tuple(map(list, zip(*packed[other].items())))
                if arg.is_list:
                    env[other] = list(map(lambda v: SimpleNamespace(**{k: v for k, v in zip(keys, v)}), zip(*vals)))
                else:
                    env[other] = SimpleNamespace(**packed[other])
            elif arg.is_list:
                env[other] = []
    return env
"""

SIM_INIT = """
def ref(self, config):
    self.simulation_tree = None
    self.cache = SimTraceCache()
    self.config = config
    self.cache_hits = (0, 0)
    if config.parallel:
        import ray
        self.simulate_one_remote = ray.remote(Simulator.simulate_one)
"""
