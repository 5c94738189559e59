"""Reference definitions for the reachability engine (box representation)."""

# boxes of `init_seg_length` consecutive initial boxes share one tube
TUBE_SIMPLE = """
def ref(agent_id, cached_tube_info, incremental, mode_label, initial_set, time_horizon, time_step, sim_func,
        params, kvalue, sim_trace_num, combine_seg_length=1000, guard_checker=None, guard_str="", lane_map=None):
    method = params["bloating_method"] if "bloating_method" in params else "PW"
    updates = []
    if incremental:
        tube, missing = cached_tube_info
    else:
        tube = None
        missing = range(0, len(initial_set), combine_seg_length)
    n = 0 if tube is None else tube.shape[0]
    for at in missing:
        hull = None
        for box in initial_set[at:at + combine_seg_length]:
            box = np.array(box)
            if hull is None:
                hull = box
            else:
                hull[0, :] = np.minimum(hull[0, :], box[0, :])
                hull[1, :] = np.maximum(hull[1, :], box[1, :])
        hull = hull.tolist()
        cur = calc_bloated_tube(mode_label, hull, time_horizon, time_step, sim_func, method, kvalue, sim_trace_num, lane_map=lane_map)
        if incremental:
            updates.append((agent_id, mode_label, hull, cur))
        if tube is None:
            tube = cur
            n = cur.shape[0]
        else:
            if n <= 2 * at:
                break
            part = cur[:n - at * 2, :]
            tube[at * 2::2, 1:] = np.minimum(tube[at * 2::2, 1:], part[::2, 1:])
            tube[at * 2 + 1::2, 1:] = np.maximum(tube[at * 2 + 1::2, 1:], part[1::2, 1:])
    return tube.tolist(), updates
"""

CHECK_CACHE_TUBE = """
def ref(self, agent_id, mode_label, initial_set, combine_seg_length=1000):
    missing = []
    tube = None
    n = 0
    for at in range(0, len(initial_set), combine_seg_length):
        hull = None
        for box in initial_set[at:at + combine_seg_length]:
            box = np.array(box)
            if hull is None:
                hull = box
            else:
                hull[0, :] = np.minimum(hull[0, :], box[0, :])
                hull[1, :] = np.maximum(hull[1, :], box[1, :])
        hull = hull.tolist()
        hit = None
        if self.config.incremental:
            hit = self.cache.check_hit(agent_id, mode_label, hull)
            if hit != None:
                self.tube_cache_hits = self.tube_cache_hits[0] + 1, self.tube_cache_hits[1]
            else:
                self.tube_cache_hits = self.tube_cache_hits[0], self.tube_cache_hits[1] + 1
        if hit == None:
            missing.append(at)
        elif tube is None:
            tube = hit.tube
            n = hit.tube.shape[0]
        else:
            part = hit.tube[:n - at * 2, :]
            tube[at * 2::2, 1:] = np.minimum(tube[at * 2::2, 1:], part[::2, 1:])
            tube[at * 2 + 1::2, 1:] = np.maximum(tube[at * 2 + 1::2, 1:], part[1::2, 1:])
    return tube, missing
"""

STEP = """
def ref(config, cached_trans_tubes, cached_tubes, node, old_node_id, later, remain_time, consts, max_height, params={}):
    limit = float("inf") if max_height == None else max_height
    cache_trans_tube_updates = []
    cache_tube_updates = []
    kids = []
    for aid in node.agent:
        if aid in node.trace:
            continue
        agent = node.agent[aid]
        method = consts.reachability_method
        if method == ReachabilityMethod.DRYVR:
            tube, more = Verifier.calculate_full_bloated_tube_simple(
                aid, cached_tubes[aid] if config.incremental else None, config.incremental, node.mode[aid], node.init[aid],
                remain_time, consts.time_step, agent.TC_simulate, params, 100, SIMTRACENUM,
                combine_seg_length=consts.init_seg_length, lane_map=consts.lane_map)
            if config.incremental:
                cache_tube_updates.extend(more)
        elif method == ReachabilityMethod.MIXMONO_CONT:
            from verse.analysis.mixmonotone import calculate_bloated_tube_mixmono_cont
            tube = calculate_bloated_tube_mixmono_cont(node.mode[aid], node.init[aid], node.uncertain_param[aid], remain_time, consts.time_step, agent, consts.lane_map)
        elif method == ReachabilityMethod.MIXMONO_DISC:
            from verse.analysis.mixmonotone import calculate_bloated_tube_mixmono_disc
            tube = calculate_bloated_tube_mixmono_disc(node.mode[aid], node.init[aid], node.uncertain_param[aid], remain_time, consts.time_step, agent, consts.lane_map)
        elif method == ReachabilityMethod.NEU_REACH:
            from verse.analysis.NeuReach.NeuReach_onestep_rect import postCont
            tube = postCont(node.mode[aid], node.init[aid][0], remain_time, consts.time_step, agent.TC_simulate, consts.lane_map, params)
        elif method == ReachabilityMethod.STAR_SETS:
            tube, more = Verifier.calculate_full_bloated_tube_stars(
                aid, cached_tubes[aid] if config.incremental else None, config.incremental, node.mode[aid], node.init[aid],
                remain_time, consts.time_step, agent.TC_simulate, params, 100, SIMTRACENUM,
                combine_seg_length=consts.init_seg_length, lane_map=consts.lane_map, pca=config.pca)
            if config.incremental:
                cache_tube_updates.extend(more)
        elif method == ReachabilityMethod.DRYVR_DISC:
            from verse.analysis.dryvr_disc import calc_bloated_tube_dryvr
            first = node.init[aid][0]
            if isinstance(first, np.ndarray):
                first = first.tolist()
            tube = calc_bloated_tube_dryvr(node.mode[aid], first, remain_time, consts.time_step, agent.TC_simulate,
                params['bloating_method'] if 'bloating_method' in params else 'PW', 100,
                params['sim_trace_num'] if 'sim_trace_num' in params else SIMTRACENUM,
                lane_map=consts.lane_map, traces=params['traces'] if 'traces' in params else None)
            if isinstance(tube, np.ndarray):
                tube = tube.tolist()
        rows = np.array(tube)
        rows[:, 0] += node.start_time
        node.trace[aid] = rows.tolist()
    cache, paths = {}, []
    if old_node_id != None and old_node_id[0] != consts.run_num:
        old = find(consts.past_runs[old_node_id[0]].nodes, lambda n: n.id == old_node_id[1])
        assert old != None
        cache, paths = to_simulate(old.agent, node.agent, cached_trans_tubes)
    hits, transitions = Verifier.get_transition_verify_opt(config, cache, paths, node, consts.lane_map, consts.sensor)
    node.assert_hits = hits
    if not config.unsafe_continue and hits != None:
        labels, at = hits
        for aid in node.agent:
            node.trace[aid] = node.trace[aid][:(at + 1) * 2]
        return node.id, later, kids, node.trace, labels, cache_tube_updates, cache_trans_tube_updates
    by_agent = {k: list(l) for k, l in itertools.groupby(transitions, key=lambda p: p[0])}
    if config.incremental:
        at = min(l[-2][-1] for l in transitions) if len(transitions) > 0 else len(list(node.trace.values())[0])
        for aid in node.agent:
            cache_trans_tube_updates.append((aid not in cached_trans_tubes, aid, by_agent.keys(), by_agent[aid] if aid in by_agent.keys() else [], at, consts.run_num))
    if node.height >= limit:
        return node.id, later, kids, node.trace, hits, cache_tube_updates, cache_trans_tube_updates
    last = 0
    for aid, src, dest, nxt, idx, path in transitions:
        if idx[-1] > last:
            last = idx[-1]
        if dest is None:
            continue
        rest = {}
        for a in node.agent:
            rest[a] = node.trace[a][idx[0] * 2:]
        mode = copy.deepcopy(node.mode)
        mode[aid] = dest
        init = {}
        trace = {}
        for a in node.agent:
            if a == aid:
                init[a] = nxt
            else:
                init[a] = [[rest[a][0][1:], rest[a][1][1:]]]
                trace[a] = rest[a]
        kids.append(node.new_child(trace=trace, init=init, mode=mode, start_time=round(list(rest.values())[0][0][0], 10), id=-1))
    if transitions:
        for a in node.agent:
            node.trace[a] = node.trace[a][:(last + 1) * 2]
    return node.id, later, kids, node.trace, hits, cache_tube_updates, cache_trans_tube_updates
"""

STEP_STAR = STEP.replace(" * 2:]", ":]").replace("(at + 1) * 2", "at + 1").replace("(last + 1) * 2", "last + 1")

PROC = """
def ref(self, id, later, next_nodes, traces, assert_hits, cache_tube_updates, cache_trans_tube_updates, max_height):
    done: AnalysisTreeNode = self.nodes[id]
    done.child = next_nodes
    done.trace = traces
    done.assert_hits = assert_hits
    last = self.nodes[-1].id
    for i, nn in enumerate(next_nodes):
        nn.id = i + 1 + last
        if done.height <= max_height:
            self.verification_queue.append((nn, 0 if i == 0 else 1))
    self.verification_queue.sort(key=lambda p: p[1:])
    if done.height <= max_height:
        self.nodes.extend(next_nodes)
    hulls = {a: combine_all(i, self.config.reachability_method == ReachabilityMethod.STAR_SETS) for a, i in done.init.items()}
    for new, aid, agents, transition, at, run in cache_trans_tube_updates:
        cached = self.trans_cache.check_hit(aid, done.mode[aid], combine_all(done.init[aid]), done.init)
        if new and not cached:
            self.trans_cache.add_tube(aid, hulls, done, agents, transition, at, run)
            self.num_cached += 1
        else:
            cached.transitions.extend(convert_reach_trans(aid, agents, done.init, transition, at))
            cached.transitions = dedup(cached.transitions, lambda i: (i.mode, i.dest, i.inits))
            cached.node_ids.add((run, done.id))
    for aid, mode, hull, tube in cache_tube_updates:
        self.cache.add_tube(aid, mode, hull, tube)
"""

LOOP = """
def ref(self, root, sensor, time_horizon, time_step, max_height, lane_map, init_seg_length, reachability_method, run_num, past_runs, params={}):
    limit = float("inf") if max_height == None else max_height
    self.verification_queue = [(root, 0)]
    self.result_refs = []
    self.nodes = [root]
    self.num_cached = 0
    done = 0
    consts = ReachConsts(time_step, lane_map, init_seg_length, reachability_method, run_num, past_runs, sensor, root.agent)
    if self.config.parallel:
        shared = ray.put(consts)
    while True:
        wait = False
        if len(self.verification_queue) > 0:
            node, later = self.verification_queue.pop(0)
            if node.height >= limit - 1:
                continue
            done += 1
            left = round(time_horizon - node.start_time, 10)
            if left <= 0:
                continue
            segs = {}
            tubes = {}
            for aid in node.agent:
                hull = combine_all(node.init[aid], reachability_method == ReachabilityMethod.STAR_SETS)
                if self.config.incremental:
                    c = self.trans_cache.check_hit(aid, node.mode[aid], hull, node.init)
                    if c != None:
                        self.trans_cache_hits = self.trans_cache_hits[0] + 1, self.trans_cache_hits[1]
                        segs[aid] = c
                    else:
                        self.trans_cache_hits = self.trans_cache_hits[0], self.trans_cache_hits[1] + 1
                    if aid not in node.trace and reachability_method == ReachabilityMethod.DRYVR:
                        tubes[aid] = self.check_cache_bloated_tube(aid, node.mode[aid], node.init[aid], combine_seg_length=init_seg_length)
            old = None
            if len(segs) == len(node.agent):
                ids = list(functools.reduce(lambda a, b: a.intersection(b), [s.node_ids for s in segs.values()]))
                if len(ids) > 0:
                    old = ids[0]
            if not self.config.parallel or (old != None and self.config.try_local):
                self.proc_result(*self.compute_full_reachtube_step(self.config, segs, tubes, node, old, later, left, consts, limit, params), limit)
            else:
                self.result_refs.append(self.compute_full_reachtube_step_remote.remote(self.config, segs, tubes, node, old, later, left, shared, limit, params))
            if len(self.result_refs) >= self.config.parallel_ver_ahead:
                wait = True
        elif len(self.result_refs) > 0:
            wait = True
        else:
            break
        if wait:
            [res], rest = ray.wait(self.result_refs)
            self.result_refs = rest
            id, later, kids, traces, hits, up1, up2 = ray.get(res)
            self.proc_result(id, later, kids, traces, hits, up1, up2, limit)
    self.reachtube_tree = AnalysisTree(root)
    self.num_transitions = done
    return self.reachtube_tree
"""

# nothing cached
TRANSITIONS = """
def ref(config, cache, paths, node, track_map, sensor):
    guards = defaultdict(list)
    for agent in node.agent.values():
        for path in agent.decision_logic.paths:
            if len(agent.decision_logic.args) != 0:
                first = {a: (node.trace[a][0:2], node.mode[a], node.static[a]) for a in node.agent}
                cont, disc, lens = sensor.sense(agent, first, track_map, False)
                g = GuardExpressionAst([path.cond_veri])
                up = g.parse_any_all_new(cont, disc, lens)
                Verifier.apply_cont_var_updater(cont, up)
                if g.evaluate_guard_disc(agent, disc, cont, track_map):
                    guards[agent.id].append((g, up, copy.deepcopy(disc), path))
    n = int(min(len(v) for v in node.trace.values()) // 2)
    found = []
    hit_before = False
    hits = []
    unsafe = defaultdict(list)
    for idx in range(n):
        contained = False
        state = {a: (combine_rect(node.trace[a][idx * 2:(idx + 1) * 2]), node.mode[a], node.static[a]) for a in node.agent}
        hits = []
        asserts = defaultdict(list)
        for aid in node.agent.keys():
            agent: BaseAgent = node.agent[aid]
            if len(agent.decision_logic.args) == 0:
                continue
            cont, disc, lens = sensor.sense(agent, state, track_map, False)
            resets = defaultdict(list)
            for i, a in enumerate(agent.decision_logic.asserts_veri):
                def holds(expr, whole):
                    ge = GuardExpressionAst([copy.deepcopy(expr)])
                    up = ge.parse_any_all_new(cont, disc, lens)
                    Verifier.apply_cont_var_updater(cont, up)
                    sat = ge.evaluate_guard_disc(agent, disc, cont, track_map)
                    if sat:
                        sat = ge.evaluate_guard_hybrid(agent, disc, cont, track_map, False)
                        if sat:
                            sat, inside = ge.evaluate_guard_cont(agent, cont, track_map, False)
                            sat = sat and (inside or not whole)
                    return sat
                imp = ast.BoolOp(op=ast.Or(), values=[ast.UnaryOp(op=ast.Not(), operand=a.pre), a.cond])
                if holds(a.pre, False) and not holds(imp, True):
                    asserts[aid].append(a.label if a.label != None else f"<assert {i}>")
            if aid in asserts and not config.unsafe_continue:
                continue
            if aid not in guards:
                continue
            for g, up, dv, path in guards[aid]:
                cv = copy.deepcopy(cont)
                one: GuardExpressionAst = copy.deepcopy(g)
                Verifier.apply_cont_var_updater(cv, up)
                if not one.evaluate_guard_hybrid(agent, dv, cv, track_map, False):
                    continue
                sat, inside = one.evaluate_guard_cont(agent, cv, track_map, False)
                contained = contained or inside
                if sat:
                    r = ResetExpression((path.var, path.val_veri))
                    resets[r.var].append((r, dv, cv, g.guard_idx, path))
            combos = list(itertools.product(*resets.values()))
            if len(combos) == 1 and combos[0] == ():
                continue
            for c in combos:
                hits.append((aid, tuple([x[3] for x in c]), c))
        if len(asserts) > 0 and not config.unsafe_continue:
            return (asserts, idx), None
        for aid, labels in asserts.items():
            unsafe[aid].extend(l for l in labels if l not in unsafe[aid])
        if hits != []:
            found.append((hits, state, idx))
            hit_before = True
        elif hit_before:
            break
        if contained:
            break
    table = {}
    for hits, state, at in found:
        for aid, key, combo in hits:
            dests, box = Verifier.apply_reset(node.agent[aid], combo, state, track_map)
            if aid not in table:
                table[aid] = {}
            if not dests:
                dests.append(None)
            if key not in table[aid]:
                table[aid][key] = {}
            for d in dests:
                if d not in table[aid][key]:
                    table[aid][key][d] = []
                table[aid][key][d].append((box, at, combo))
    out = []
    for aid in table:
        for key in table[aid]:
            for d in table[aid][key]:
                data = tuple(map(list, zip(*table[aid][key][d])))
                ps = [r[-1] for r in data[-1][0]]
                sm, st = node.get_mode(aid, node.mode[aid]), node.get_track(aid, node.mode[aid])
                dm, dt = node.get_mode(aid, d), node.get_track(aid, d)
                if (sm != dm or st != dt) and dt != track_map.h(st, sm, dm):
                    continue
                out.append((aid, node.mode[aid], d, *data[:-1], ps))
    return (dict(unsafe) or None), out
"""

UPDATER = """
def ref(cont_var_dict, updater):
    for var, pairs in updater.items():
        for name, i in pairs:
            cont_var_dict[name] = cont_var_dict[var][i]
"""

RESET = """
def ref(agent, reset_list, all_agent_state, track_map):
    state, mode, static = all_agent_state[agent.id]
    dests = [[m] for m in copy.deepcopy(mode)]
    ty = find(agent.decision_logic.args, lambda a: a.name == EGO).typ
    low_high = copy.deepcopy([state[0][1:], state[1][1:]])
    for reset, disc, cont, _, _p in reset_list:
        expr = reset.expr
        if "mode" in reset.var:
            found = False
            for at, name in enumerate(agent.decision_logic.state_defs[ty].disc):
                if name == reset.var:
                    found = True
                    break
            if not found:
                raise ValueError("no such mode variable")
            if isinstance(reset.val_ast, ast.Constant):
                dests[at] = [eval(expr)]
            else:
                parts = expr.split(".")
                if "map" in parts[0]:
                    for v in disc:
                        expr = expr.replace(v, f"'{disc[v]}'")
                    got = eval(expr)
                    if not isinstance(got, list):
                        got = [got]
                    dests[at] = got
                elif parts[0].strip(" ") in agent.decision_logic.mode_defs:
                    dests[at] = [parts[1]]
        else:
            found = False
            for at, name in enumerate(agent.decision_logic.state_defs[ty].cont):
                if name == reset.var:
                    found = True
                    break
            if not found:
                raise ValueError("no such state variable")
            used = [v for v in cont if v in expr]
            low = float("inf")
            high = -float("inf")
            for corner in Verifier._get_combinations(used, cont):
                text = expr
                for i, v in enumerate(used):
                    text = re.sub(rf"\\b{re.escape(v)}\\b", f"({corner[i]})", text)
                val = eval(text, {}, {})
                low = min(low, val)
                high = max(high, val)
            low_high[0][at] = low
            low_high[1][at] = high
    return [d for d in itertools.product(*dests)], low_high
"""

CORNERS = """
def ref(symbols, cont_var_dict):
    return list(itertools.product(*[cont_var_dict[s] for s in symbols]))
"""

PARTITION = """
def ref(rect, n, partition_dims=None):
    lo, hi = rect
    if partition_dims is None:
        dims = [i for i in range(1, len(lo))]
    else:
        dims = partition_dims
    wide = [i for i in [d for d in dims if d != 0] if lo[i] != hi[i]]
    if len(wide) == 0:
        return [rect]
    out = []
    for cell in itertools.product(range(n), repeat=len(wide)):
        a = lo.copy()
        b = hi.copy()
        for j in range(len(wide)):
            d = wide[j]
            a[d] = lo[d] + cell[j] * ((hi[d] - lo[d]) / n)
            b[d] = lo[d] + (cell[j] + 1) * ((hi[d] - lo[d]) / n)
        out.append([a, b])
    return out
"""

TRACE_PART = """
def ref(mode, inits, remain_time, time_step, sim_func, params, reachability_method, lane_map=None):
    return Verifier.calculate_full_bloated_tube_simple(None, None, False, mode, inits, remain_time, time_step, sim_func,
        params, 100, SIMTRACENUM, 1000, None, "", lane_map=lane_map)[0]
"""

STEP_PART = """
def ref(config, cached_trans_tubes, cached_tubes, node, old_node_id, later, remain_time, consts, max_height, n, partition_initial, partition_dims, params={}):
    kids = []
    for aid in node.agent:
        if aid in node.trace:
            continue
        f = lambda boxes: Verifier._compute_trace_for_partition(node.mode[aid], boxes, remain_time, consts.time_step, node.agent[aid].TC_simulate, params, consts.reachability_method, consts.lane_map)
        if len(node.init[aid]) == 1:
            tube = f(node.init[aid])
        else:
            tube = Verifier._union_traces([f([b]) for b in node.init[aid]], consts.reachability_method)
        rows = np.array(tube)
        rows[:, 0] += node.start_time
        node.trace[aid] = rows.tolist()
    hits, transitions = Verifier.get_transition_verify_opt(config, {}, [], node, consts.lane_map, consts.sensor)
    node.assert_hits = hits
    if not config.unsafe_continue and hits != None:
        labels, at = hits
        for aid in node.agent:
            node.trace[aid] = node.trace[aid][:(at + 1) * 2]
        return node.id, later, kids, node.trace, labels, [], []
    for aid, src, dest, nxt, idx, path in transitions:
        first, last = idx[0], idx[-1]
        cells = Verifier._partition_rect(combine_rect(node.trace[aid][first * 2:(last + 1) * 2]), n, partition_dims)
        boxes = []
        for cell in cells:
            state = {a: (combine_rect(node.trace[a][first * 2:(last + 1) * 2]), node.mode[a], node.static.get(a, [])) for a in node.agent}
            state[aid] = ([cell[0], cell[1]], node.mode[aid], node.static.get(aid, []))
            seen = state
            if src != dest:
                seen = copy.deepcopy(state)
                seen[aid] = (seen[aid][0], dest, seen[aid][2])
            cont, disc, lens = consts.sensor.sense(node.agent[aid], seen, consts.lane_map, False)
            if src != dest:
                _, disc, _ = consts.sensor.sense(node.agent[aid], state, consts.lane_map, False)
            resets = [(ResetExpression((p.var, p.val_veri)), disc, cont, 0, p) for p in path]
            _, box = Verifier.apply_reset(node.agent[aid], resets, state, consts.lane_map)
            boxes.append(box)
        rest = {}
        for a in node.agent:
            rest[a] = node.trace[a][first * 2:]
        mode = copy.deepcopy(node.mode)
        mode[aid] = dest
        init = {}
        trace = {}
        for a in node.agent:
            if a == aid:
                init[a] = boxes
            else:
                init[a] = [[rest[a][0][1:], rest[a][1][1:]]]
                trace[a] = rest[a]
        kids.append(node.new_child(trace=trace, init=init, mode=mode, start_time=round(list(rest.values())[0][0][0], 10), id=-1))
    if transitions:
        last = max(t[4][-1] for t in transitions)
        for a in node.agent:
            node.trace[a] = node.trace[a][:(last + 1) * 2]
    return node.id, later, kids, node.trace, hits, [], []
"""

LOOP_PART = """
def ref(self, root, sensor, time_horizon, time_step, max_height, lane_map, init_seg_length, reachability_method, run_num, past_runs, n, partition_initial, partition_dims, params={}):
    limit = float("inf") if max_height == None else max_height
    self.verification_queue = [(root, 0)]
    self.result_refs = []
    self.nodes = [root]
    self.num_cached = 0
    done = 0
    consts = ReachConsts(time_step, lane_map, init_seg_length, reachability_method, run_num, past_runs, sensor, root.agent)
    if self.config.parallel:
        shared = ray.put(consts)
    while True:
        wait = False
        if len(self.verification_queue) > 0:
            node, later = self.verification_queue.pop(0)
            if node.height >= limit - 1:
                continue
            done += 1
            left = round(time_horizon - node.start_time, 10)
            if left <= 0:
                continue
            self.proc_result(*self.compute_full_reachtube_step_partitioned(self.config, {}, {}, node, None, later, left, consts, limit, n, partition_initial, partition_dims, params), limit)
            if len(self.result_refs) >= self.config.parallel_ver_ahead:
                wait = True
        elif len(self.result_refs) > 0:
            wait = True
        else:
            break
        if wait:
            [res], rest = ray.wait(self.result_refs)
            self.result_refs = rest
            id, later, kids, traces, hits, up1, up2 = ray.get(res)
            self.proc_result(id, later, kids, traces, hits, up1, up2, limit)
    self.reachtube_tree = AnalysisTree(root)
    self.num_transitions = done
    return self.reachtube_tree
"""

VER_INIT = """
def ref(self, config):
    self.reachtube_tree = None
    self.cache = TubeCache()
    self.trans_cache = ReachTubeCache()
    self.tube_cache_hits = (0, 0)
    self.trans_cache_hits = (0, 0)
    self.config = config
    self.compute_full_reachtube_step_remote = ray.remote(Verifier.compute_full_reachtube_step)
"""
