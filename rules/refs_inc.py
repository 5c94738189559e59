"""Reference definitions for the caches of incremental runs."""

TO_SIMULATE = """
def ref(old_agents, new_agents, cached):
    assert set(old_agents.keys()) == set(new_agents.keys())
    kept = {}
    todo = []
    for aid, seg in cached.items():
        seg = copy.deepcopy(seg)
        gone, added, reset = [], [], []
        now = new_agents[aid]
        a, b = old_agents[aid].decision_logic, now.decision_logic
        assert a.args == b.args
        def by_var(ctlr: ControllerIR):
            g = defaultdict(list)
            for p in ctlr.paths:
                g[p.var].append(p)
            return dict(g)
        ga, gb = by_var(a), by_var(b)
        if set(ga.keys()) != set(gb.keys()):
            raise NotImplementedError("different variable outputs")
        for var, ps in ga.items():
            for i, (x, y) in enumerate(itertools.zip_longest(ps, gb[var])):
                if y == None:
                    gone.append(x)
                elif x == None:
                    added.append(y)
                elif not ControllerIR.ir_eq(x.cond_veri, y.cond_veri):
                    gone.append(x)
                    added.append(y)
                elif not ControllerIR.ir_eq(x.val_veri, y.val_veri):
                    reset.append(y)
        if any(p in gone or p.cond in [q.cond for q in reset] for t in seg.transitions for p in t.paths):
            todo.extend((now, p) for p in b.paths)
        else:
            kept[aid] = seg
            todo.extend((now, p) for p in added)
    return kept, todo
"""

SIM_TRANS = """
def ref(agent_id, transit_agents, inits, transition, trans_ind):
    if agent_id not in transit_agents:
        return []
    return [CachedTransition({k: list(v) for k, v in inits.items()}, trans_ind, mode, list(init), ps) for a, mode, init, ps in transition]
"""

REACH_TRANS = """
def ref(agent_id, transit_agents, inits, transition, trans_ind):
    if agent_id not in transit_agents:
        return []
    return [CachedReachTrans(inits, trans_ind, mode, dest, reset, idx, ps) for a, mode, dest, reset, idx, ps in transition]
"""

COMBINE_ALL = """
def ref(inits, stars=False):
    if stars:
        from verse.stars.starset import StarSet
        while type(inits[0]) == list:
            inits = inits[0]
        return StarSet.combine_stars(inits)
    return [[min(a) for a in np.transpose(np.array(inits)[:, 0])], [max(a) for a in np.transpose(np.array(inits)[:, 1])]]
"""

SIM_SUIT = """
def ref(a, b):
    assert set(a.keys()) == set(b.keys())
    return all(abs(x - y) < _EPSILON for aid in a.keys() for x, y in zip(a[aid], b[aid]))
"""

REACH_SUIT = """
def ref(a, b):
    assert set(a.keys()) == set(b.keys())
    def inside(p, q):
        return all(pl <= ql and ph >= qh for (pl, ph), (ql, qh) in zip(list(map(list, zip(*p))), list(map(list, zip(*q)))))
    return all(inside(p, q) for aid in a.keys() for p, q in zip(a[aid], b[aid]))
"""

TUBE_EQ = """
def ref(self, other):
    return other is not None and (self.tube == other.tube).all()
"""

ADD_SEGMENT = """
def ref(self, agent_id, node, transit_agents, trace, transition, trans_ind, run_num):
    init = node.init[agent_id]
    hits = node.assert_hits or {}
    tree = self.cache[(agent_id,) + tuple(node.mode[agent_id])]
    for i, v in enumerate(init):
        if i == len(init) - 1:
            entry = CachedSegment(trace, hits.get(agent_id), convert_sim_trans(agent_id, transit_agents, node.init, transition, trans_ind), set([(run_num, node.id)]))
            tree[v - _EPSILON:v + _EPSILON] = entry
            return entry
        sub = IntervalTree()
        tree[v - _EPSILON:v + _EPSILON] = sub
        tree = sub
    raise Exception("no variables")
"""

SIM_QUERY = """
def ref(tree, cont):
    assert isinstance(tree, IntervalTree)
    found = [t.data for t in tree[cont[0]]]
    if len(cont) == 1:
        for e in found:
            assert isinstance(e, CachedSegment)
        return found
    return [e for t in found for e in SimTraceCache.query_cont(t, cont[1:])]
"""

SIM_HIT = """
def ref(self, agent_id, mode, init, inits):
    key = (agent_id,) + tuple(mode)
    if key not in self.cache:
        return None
    found = self.query_cont(self.cache[key], init)
    if len(found) == 0:
        return None
    def good(e: CachedSegment):
        return sum(1 if sim_trans_suit(t.inits, inits) else 0 for t in e.transitions)
    return list(sorted([(e, -good(e)) for e in found], key=lambda p: p[1]))[0][0]
"""

ADD_TUBE = """
def ref(self, agent_id, mode, init, trace):
    box = list(map(list, zip(*init)))
    tree = self.cache[(agent_id,) + tuple(mode)]
    for i, (low, high) in enumerate(box):
        if i == len(box) - 1:
            entry = CachedTube(trace)
            tree[low:high + _EPSILON] = entry
            return entry
        sub = IntervalTree()
        tree[low:high + _EPSILON] = sub
        tree = sub
    raise Exception("no variables")
"""

TUBE_HIT = """
def ref(self, agent_id, mode, init):
    key = (agent_id,) + tuple(mode)
    if key not in self.cache:
        return None
    tree = self.cache[key]
    for low, high in list(map(list, zip(*init))):
        found = [t for t in tree[low:high + _EPSILON] if t.begin <= low and high <= t.end]
        if len(found) == 0:
            return None
        tree = min(found, key=lambda e: low - e.begin + e.end - high).data
    return tree
"""

ADD_REACH = """
def ref(self, agent_id, init, node, transit_agents, transition, trans_ind, run_num):
    tree = self.cache[(agent_id,) + tuple(node.mode[agent_id])]
    hits = node.assert_hits or {}
    box = list(map(tuple, zip(*init[agent_id])))
    for i, (low, high) in enumerate(box):
        if i == len(box) - 1:
            entry = CachedRTTrans(hits.get(agent_id), convert_reach_trans(agent_id, transit_agents, node.init, transition, trans_ind), set([(run_num, node.id)]))
            tree[low:high + _EPSILON] = entry
            return entry
        sub = IntervalTree()
        tree[low:high + _EPSILON] = sub
        tree = sub
    raise Exception("no variables")
"""

REACH_QUERY = """
def ref(tree, cont):
    assert isinstance(tree, IntervalTree)
    low, high = cont[0]
    found = [t.data for t in tree[low:high + _EPSILON] if t.begin <= low and high <= t.end]
    if len(cont) == 1:
        for e in found:
            assert isinstance(e, CachedRTTrans)
        return found
    return [e for t in found for e in ReachTubeCache.query_cont(t, cont[1:])]
"""

REACH_HIT = """
def ref(self, agent_id, mode, init, inits):
    key = (agent_id,) + tuple(mode)
    if key not in self.cache:
        return None
    found = self.query_cont(self.cache[key], list(map(tuple, zip(*init))))
    if len(found) == 0:
        return None
    def good(e: CachedRTTrans):
        return sum(1 if reach_trans_suit(t.inits, inits) else 0 for t in e.transitions)
    return list(sorted([(e, -good(e)) for e in found], key=lambda p: p[1]))[0][0]
"""

from . import refs_sim

# with cached segments (cache is not empty)
SIM_TRANS_CACHED = refs_sim.GET_TRANSITION.replace("""    guards = defaultdict(list)
    for agent in node.agent.values():
        for path in agent.decision_logic.paths:
            if len(agent.decision_logic.args) != 0:
                first""", """    at_least = None
    known = defaultdict(list)
    recheck = defaultdict(list)
    if not cache:
        paths = [(a, p) for a in node.agent.values() for p in a.decision_logic.paths]
    else:
        usable = [(aid, t) for aid, seg in cache.items() for t in seg.transitions if sim_trans_suit(t.inits, node.init)]
        if len(usable) > 0:
            at_least = min([t.transition for _, t in usable])
            for aid, t in usable:
                if t.transition == at_least:
                    known[aid].append((aid, t.disc, t.cont, t.paths))
            for aid in known:
                known[aid] = dedup(known[aid], lambda p: p[:3])
            if len(paths) == 0:
                return None, dict(known), at_least
            latest = defaultdict(int)
            for seg in cache.values():
                for t in seg.transitions:
                    for p in t.paths:
                        latest[p.cond] = max(latest[p.cond], t.transition)
            for aid, seg in cache.items():
                agent = node.agent[aid]
                if len(agent.decision_logic.args) == 0:
                    continue
                first = {a: (node.trace[a][0], node.mode[a], node.static[a]) for a in node.agent}
                disc = sensor.sense(agent, first, track_map)[1]
                for p in dedup([p for t in seg.transitions for p in t.paths], lambda i: (i.var, i.cond, i.val)):
                    recheck[aid].append((p, disc, latest[p.cond]))
    guards = defaultdict(list)
    if True:
        for agent, path in paths:
            if len(agent.decision_logic.args) != 0:
                first""").replace("""    for idx in range(n):
        satisfied""", """    for idx in range(n):
        if at_least != None and idx >= at_least:
            return None, dict(known), at_least
        satisfied""").replace("check_sim_transitions(agent, guards[aid],", "check_sim_transitions(agent, guards[aid] + [g[:2] for g in recheck[aid] if g[2] < idx],")

TRANS_CACHED = """
def ref(config, cache, paths, node, track_map, sensor):
    agent_guard_dict = defaultdict(list)
    cached_guards = defaultdict(list)
    min_trans_ind = None
    cached_trans = []
    agent_dict = node.agent
    if not cache:
        paths = [(agent, p) for agent in node.agent.values() for p in agent.decision_logic.paths]
    else:
        _transitions = [(aid, trans) for aid, seg in cache.items() for trans in seg.transitions if reach_trans_suit(trans.inits, node.init)]
        if len(_transitions) > 0:
            min_trans_ind = min([t.transition for _, t in _transitions])
            cached_trans = [(aid, tran.mode, tran.dest, tran.reset, tran.reset_idx, tran.paths) for aid, tran in dedup(_transitions, lambda p: (p[0], p[1].mode, p[1].dest)) if tran.transition == min_trans_ind]
            if len(paths) == 0:
                return (None, cached_trans)
            path_transitions = defaultdict(int)
            for seg in cache.values():
                for tran in seg.transitions:
                    for p in tran.paths:
                        path_transitions[p.cond] = max(path_transitions[p.cond], tran.transition)
            for agent_id, segment in cache.items():
                agent = node.agent[agent_id]
                if len(agent.decision_logic.args) == 0:
                    continue
                state_dict = {aid: (node.trace[aid][0], node.mode[aid], node.static[aid]) for aid in node.agent}
                agent_paths = dedup([p for tran in segment.transitions for p in tran.paths], lambda i: (i.var, i.cond, i.val))
                for path in agent_paths:
                    cont_var_dict_template, discrete_variable_dict, length_dict = sensor.sense(agent, state_dict, track_map, False)
                    reset = (path.var, path.val_veri)
                    guard_expression = GuardExpressionAst([path.cond_veri])
                    cont_var_updater = guard_expression.parse_any_all_new(cont_var_dict_template, discrete_variable_dict, length_dict)
                    Verifier.apply_cont_var_updater(cont_var_dict_template, cont_var_updater)
                    guard_can_satisfied = guard_expression.evaluate_guard_disc(agent, discrete_variable_dict, cont_var_dict_template, track_map)
                    if not guard_can_satisfied:
                        continue
                    cached_guards[agent_id].append((path, guard_expression, cont_var_updater, copy.deepcopy(discrete_variable_dict), reset, path_transitions[path.cond]))
    for agent, path in paths:
        if len(agent.decision_logic.args) == 0:
            continue
        agent_id = agent.id
        state_dict = {}
        if config.reachability_method == ReachabilityMethod.STAR_SETS:
            state_dict = {aid: (node.trace[aid][0:1][0], node.mode[aid], node.static[aid]) for aid in node.agent}
        else:
            state_dict = {aid: (node.trace[aid][0:2], node.mode[aid], node.static[aid]) for aid in node.agent}
        cont_var_dict_template, discrete_variable_dict, length_dict = sensor.sense(agent, state_dict, track_map, False)
        guard_expression = GuardExpressionAst([path.cond_veri])
        cont_var_updater = guard_expression.parse_any_all_new(cont_var_dict_template, discrete_variable_dict, length_dict)
        Verifier.apply_cont_var_updater(cont_var_dict_template, cont_var_updater)
        guard_can_satisfied = guard_expression.evaluate_guard_disc(agent, discrete_variable_dict, cont_var_dict_template, track_map)
        if not guard_can_satisfied:
            continue
        agent_guard_dict[agent_id].append((guard_expression, cont_var_updater, copy.deepcopy(discrete_variable_dict), path))
    guard_hits = []
    guard_hit = False
    reduction_rate = 10
    reduction_queue = []
    if config.reachability_method == ReachabilityMethod.STAR_SETS:
        trace_length = int(min((len(v) for v in node.trace.values())))
        reduction_queue = [(i, i + 1, 1) for i in range(0, trace_length)]
        reduction_queue.reverse()
    else:
        trace_length = int(min((len(v) for v in node.trace.values())) // 2)
        reduction_queue = [(i, i + 1, 1) for i in range(0, trace_length)]
        reduction_queue.reverse()
    hits = []
    all_asserts = defaultdict(list)
    while reduction_queue:
        idx, end_idx, combine_len = reduction_queue.pop()
        reduction_needed = False
        any_contained = False
        state_dict = {}
        if config.reachability_method == ReachabilityMethod.STAR_SETS:
            state_dict = {aid: (node.trace[aid][idx], node.mode[aid], node.static[aid]) for aid in node.agent}
        else:
            state_dict = {aid: (combine_rect(node.trace[aid][idx * 2:end_idx * 2]), node.mode[aid], node.static[aid]) for aid in node.agent}
        if min_trans_ind != None and idx > min_trans_ind:
            if hits:
                guard_hits.append((hits, state_dict, idx))
                guard_hit = True
                break
            else:
                return (dict(all_asserts) or None, cached_trans)
        hits = []
        asserts = defaultdict(list)
        for agent_id in agent_dict.keys():
            agent: BaseAgent = agent_dict[agent_id]
            if len(agent.decision_logic.args) == 0:
                continue
            cont_vars, disc_vars, len_dict = sensor.sense(agent, state_dict, track_map, False)
            resets = defaultdict(list)
            for i, a in enumerate(agent.decision_logic.asserts_veri):
                pre_expr = a.pre

                def eval_expr(expr, whole=True):
                    ge = GuardExpressionAst([copy.deepcopy(expr)])
                    cont_var_updater = ge.parse_any_all_new(cont_vars, disc_vars, len_dict)
                    Verifier.apply_cont_var_updater(cont_vars, cont_var_updater)
                    sat = ge.evaluate_guard_disc(agent, disc_vars, cont_vars, track_map)
                    if sat:
                        sat = ge.evaluate_guard_hybrid(agent, disc_vars, cont_vars, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS)
                        if sat:
                            sat, contained = ge.evaluate_guard_cont(agent, cont_vars, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS)
                            sat = sat and (contained or not whole)
                    return sat
                implication = ast.BoolOp(op=ast.Or(), values=[ast.UnaryOp(op=ast.Not(), operand=pre_expr), a.cond])
                if eval_expr(pre_expr, whole=False) and (not eval_expr(implication)):
                    if combine_len == 1:
                        label = a.label if a.label != None else f'<assert {i}>'
                        asserts[agent_id].append(label)
                    else:
                        new_len = int(np.ceil(combine_len / reduction_rate))
                        next_list = [(i, min(i + new_len, end_idx), new_len) for i in range(idx, end_idx, new_len)]
                        reduction_queue.extend(next_list[::-1])
                        reduction_needed = True
                        break
            if reduction_needed:
                break
            if agent_id in asserts and (not config.unsafe_continue):
                continue
            if agent_id not in agent_guard_dict:
                continue
            unchecked_cache_guards = [g[:-1] for g in cached_guards[agent_id] if g[-1] < idx]
            for guard_expression, continuous_variable_updater, discrete_variable_dict, path in agent_guard_dict[agent_id] + unchecked_cache_guards:
                assert isinstance(path, ModePath)
                new_cont_var_dict = copy.deepcopy(cont_vars)
                one_step_guard: GuardExpressionAst = copy.deepcopy(guard_expression)
                Verifier.apply_cont_var_updater(new_cont_var_dict, continuous_variable_updater)
                guard_can_satisfied = one_step_guard.evaluate_guard_hybrid(agent, discrete_variable_dict, new_cont_var_dict, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS)
                if not guard_can_satisfied:
                    continue
                guard_satisfied, is_contained = one_step_guard.evaluate_guard_cont(agent, new_cont_var_dict, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS)
                if combine_len == 1:
                    any_contained = any_contained or is_contained
                if guard_satisfied and combine_len == 1:
                    reset_expr = ResetExpression((path.var, path.val_veri))
                    resets[reset_expr.var].append((reset_expr, discrete_variable_dict, new_cont_var_dict, guard_expression.guard_idx, path))
                elif guard_satisfied and combine_len > 1:
                    new_len = int(np.ceil(combine_len / reduction_rate))
                    next_list = [(i, min(i + new_len, end_idx), new_len) for i in range(idx, end_idx, new_len)]
                    reduction_queue.extend(next_list[::-1])
                    reduction_needed = True
                    break
            if reduction_needed:
                break
            if combine_len == 1:
                combined_reset_list = list(itertools.product(*resets.values()))
                if len(combined_reset_list) == 1 and combined_reset_list[0] == ():
                    continue
                for i in range(len(combined_reset_list)):
                    reset_idx = []
                    for reset_info in combined_reset_list[i]:
                        reset_idx.append(reset_info[3])
                    hits.append((agent_id, tuple(reset_idx), combined_reset_list[i]))
        if reduction_needed or combine_len > 1:
            continue
        if len(asserts) > 0 and (not config.unsafe_continue):
            return ((asserts, idx), None)
        for agent_id, labels in asserts.items():
            all_asserts[agent_id].extend((l for l in labels if l not in all_asserts[agent_id]))
        if hits != []:
            guard_hits.append((hits, state_dict, idx))
            guard_hit = True
        elif guard_hit:
            break
        if any_contained:
            break
    reset_func = Verifier.apply_reset
    if config.reachability_method == ReachabilityMethod.STAR_SETS:
        reset_func = Verifier.apply_reset_stars
    reset_dict = {}
    for hits, all_agent_state, hit_idx in guard_hits:
        for agent_id, reset_idx, reset_list in hits:
            dest_list, reset_rect = reset_func(node.agent[agent_id], reset_list, all_agent_state, track_map)
            if agent_id not in reset_dict:
                reset_dict[agent_id] = {}
            if not dest_list:
                warnings.warn(f'Guard hit for mode {node.mode[agent_id]} for agent {agent_id} without available next mode')
                dest_list.append(None)
            if reset_idx not in reset_dict[agent_id]:
                reset_dict[agent_id][reset_idx] = {}
            for dest in dest_list:
                if dest not in reset_dict[agent_id][reset_idx]:
                    reset_dict[agent_id][reset_idx][dest] = []
                reset_dict[agent_id][reset_idx][dest].append((reset_rect, hit_idx, reset_list))
    possible_transitions = []
    count = 0
    for agent in reset_dict:
        for reset_idx in reset_dict[agent]:
            for dest in reset_dict[agent][reset_idx]:
                reset_data = tuple(map(list, zip(*reset_dict[agent][reset_idx][dest])))
                paths = [r[-1] for r in reset_data[-1][0]]
                transition = (agent, node.mode[agent], dest, *reset_data[:-1], paths)
                src_mode = node.get_mode(agent, node.mode[agent])
                src_track = node.get_track(agent, node.mode[agent])
                dest_mode = node.get_mode(agent, dest)
                dest_track = node.get_track(agent, dest)
                map_modes = [[src_mode, src_track, dest_mode, dest_track]]
                if all((map_mode is not None for map_mode in map_modes)) and (src_mode != dest_mode or src_track != dest_track) and (dest_track != track_map.h(src_track, src_mode, dest_mode)):
                    continue
                else:
                    count += 1
                    possible_transitions.append(transition)
    return (dict(all_asserts) or None, possible_transitions + cached_trans)
"""

CACHE_INIT = """
def ref(self):
    self.cache = defaultdict(IntervalTree)
"""
