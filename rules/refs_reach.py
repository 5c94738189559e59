"""Reference definitions: tubes from sampled trajectories and from mixed monotonicity; fixed points."""

# largest ratio of the distance of two trajectories to the distance of their starting points, per variable and time
SENSITIVITY = """
def ref(training_traces, initial_radii):
    runs, length, columns = training_traces.shape
    unit = initial_radii.copy()
    unit[np.where(unit == 0)] = 1.0
    out = np.zeros((unit.shape[0], length - 1))
    for d in range(1, columns):
        start = spatial.distance.pdist(training_traces[:, 0, 1:] / unit, "chebyshev") + _SMALL_EPSILON
        for t in range(1, length):
            column = np.reshape(training_traces[:, t, d], (training_traces.shape[0], 1))
            out[d - 1, t - 1] = np.max((spatial.distance.pdist(column, "chebyshev") / unit[d - 1]) / start)
    return out
"""
SENSITIVITY_DISC = SENSITIVITY.replace('(column, "chebyshev")', '(column, "chebychev")').replace('/ unit, "chebyshev"', '/ unit, "chebyshev"')

_SEGMENT = """
def ref(training_traces, initial_radii, method="PWGlobal"):
    columns = training_traces.shape[2]
    length = training_traces.shape[1]
    center = training_traces[0, :, :]
    elapsed = center[:, 0] - center[0, 0]
    assert np.all(training_traces[0, :, 0] == training_traces[1:, :, 0])
    factor = all_sensitivities_calc(training_traces, initial_radii)
    points = np.zeros((columns - 1, length, 2))
    points[np.where(initial_radii != 0), 0, 1] = 1.0
    points[:, :, 0] = np.reshape(elapsed, (1, elapsed.shape[0]))
    points[:, 1:, 1] = factor
    unit = initial_radii.copy()
    unit[np.where(unit == 0)] = 1.0
    radius = np.zeros((length, columns))
    if method == "PW":
        radius[:, 1:] = np.transpose(points[:, :, 1] * np.reshape(unit, (unit.size, 1)))
    elif method == "PWGlobal":
        points[:, :, 1] = np.maximum(points[:, :, 1], _EPSILON)
        points[:, :, 1] = np.log(points[:, :, 1])
        for d in range(1, columns):
            low = min(np.min(points[d - 1, 1:, 1]) + _TRUE_MIN_CONST, -10)
            if initial_radii[d - 1] == 0:
                more = np.row_stack((np.array((points[d - 1, 1, 0], low)), np.array((points[d - 1, -1, 0], low))))
            else:
                more = np.row_stack((points[d - 1, 0, :], np.array((points[d - 1, 0, 0], low)), np.array((points[d - 1, -1, 0], low))))
                radius[0, d] = initial_radii[d - 1]
            cloud = np.concatenate((points[d - 1, 1:, :], more), axis=0)
            hull = spatial.ConvexHull(cloud)
            pieces = []
            edges = list(zip(hull.vertices[:-1], hull.vertices[1:]))
            edges.append((hull.vertices[-1], hull.vertices[0]))
            for b, a in edges:
                if cloud[a, 1] != low and cloud[b, 1] != low:
                    slope = (cloud[b, 1] - cloud[a, 1]) / (cloud[b, 0] - cloud[a, 0])
                    offset = cloud[a, 1] - cloud[a, 0] * slope
                    assert cloud[a, 0] < cloud[b, 0]
                    if cloud[a, 0] == 0:
                        pieces.append((cloud[a, 0], cloud[b, 0], slope, offset, 0, b + 1))
                    else:
                        pieces.append((cloud[a, 0], cloud[b, 0], slope, offset, a + 1, b + 1))
            pieces.sort()
            last = 0
            at = 1 if initial_radii[d - 1] == 0 else 0
            for _, _, slope, offset, a, b in pieces:
                assert at == a
                assert a < b
                times = center[a : b + 1, 0]
                r = unit[d - 1] * np.exp(offset) * np.exp(slope * times)
                r[0] = max(r[0], last)
                radius[a : b + 1, d] = r
                last = r[-1]
                at = b
    else:
        raise ValueError
    assert np.all(radius >= 0)
%s
    return tube
"""
SEGMENT = _SEGMENT % """
    tube = np.zeros((length - 1, 2, columns))
    tube[:, 0, :] = np.minimum(center[:-1, :] - radius[:-1, :], center[1:, :] - radius[1:, :])
    tube[:, 1, :] = np.maximum(center[:-1, :] + radius[:-1, :], center[1:, :] + radius[1:, :])
"""
SEGMENT_DISC = _SEGMENT % """
    tube = np.zeros((length, 2, columns))
    tube[:, 0, :] = center - radius
    tube[:, 1, :] = center + radius
"""

CENTER = """
def ref(lower, upper):
    lower = [float(x) for x in lower]
    upper = [float(x) for x in upper]
    assert len(lower) == len(upper)
    return [(upper[i] + lower[i]) / 2 for i in range(len(upper))]
"""
DELTA = CENTER.replace("upper[i] + lower[i]", "upper[i] - lower[i]")

_BLOAT = """
def ref(mode_label, initial_set, time_horizon, time_step, sim_func, bloating_method, kvalue, sim_trace_num, guard_checker=None, guard_str="", lane_map=None%s):
    center = calcCenterPoint(initial_set[0], initial_set[1])
    radii = calcDelta(initial_set[0], initial_set[1])
%s
    traces = trimTraces(traces)
    if guard_checker is not None:
        stop = -1
        for trace in traces:
            stop = max(stop, guard_checker.guard_sim_trace_time(trace, guard_str) + 1)
        for i in range(len(traces)):
            traces[i] = traces[i][:stop]
    if bloating_method == GLOBAL:
        parts = get_reachtube_segment(np.array(traces), np.array(radii), "PWGlobal")
    elif bloating_method == PW:
        parts = get_reachtube_segment(np.array(traces), np.array(radii), "PW")
    else:
        raise ValueError("Unsupported bloating method '" + bloating_method + "'")
    tube = np.zeros((parts.shape[0] * 2, parts.shape[2]))
    tube[0::2, :] = parts[:, 0, :]
    tube[1::2, :] = parts[:, 1, :]
    return tube
"""
BLOAT = _BLOAT % ("", """
    traces = [sim_func(mode_label, center, time_horizon, time_step, lane_map)]
    for i in range(sim_trace_num):
        traces.append(sim_func(mode_label, randomPoint(initial_set[0], initial_set[1], i), time_horizon, time_step, lane_map))
""")
BLOAT_DISC = _BLOAT % (", traces=None", """
    if traces is None:
        traces = [sim_func(mode_label, center, time_horizon, time_step, lane_map)]
        for i in range(sim_trace_num):
            traces.append(sim_func(mode_label, randomPoint(initial_set[0], initial_set[1], i), time_horizon, time_step, lane_map))
""")

TRIM = """
def ref(traces):
    n = min(len(t) for t in traces)
    return [t[:n] for t in traces]
"""
POINT = """
def ref(lower, upper, seed=None):
    if seed is not None:
        random.seed(seed)
    if isinstance(lower, int) or isinstance(lower, float):
        return random.uniform(lower, upper)
    if isinstance(lower, list):
        assert len(lower) == len(upper)
        return [random.uniform(lower[i], upper[i]) for i in range(len(lower))]
"""
POINT_DISC = POINT + """
    raise Exception(f"Unexpected initial set type: expected a list or instance of int or floats, got {type(lower)}")
"""

_ROWS = """
    out = []
    for i in range(len(trace) - 1):
        a, b = trace[i], trace[i + 1]
        out.append([a[0]] + np.minimum.reduce([a[1 : 1 + n], b[1 : 1 + n], a[1 + n :], b[1 + n :]]).tolist())
        out.append([b[0]] + np.maximum.reduce([a[1 : 1 + n], b[1 : 1 + n], a[1 + n :], b[1 + n :]]).tolist())
    return out
"""
MIX_DISC = """
def ref(initial_set, uncertain_var_bound, time_horizon, time_step, decomposition):
    low, high = initial_set[0][0], initial_set[0][1]
    wlow, whigh = uncertain_var_bound[0], uncertain_var_bound[1]
    n = len(low)
    times = [round(i * time_step, 10) for i in range(0, int(np.ceil(time_horizon / time_step)))]
    trace = [[0] + low + high]
    for i in range(len(times)):
        x = trace[-1][1 : 1 + n]
        xhat = trace[-1][1 + n :]
        d = decomposition(x, wlow, xhat, whigh, time_step)
        dhat = decomposition(xhat, whigh, x, wlow, time_step)
        trace.append([round(times[i] + time_step, 10)] + d + dhat)
""" + _ROWS
MIX_CONT = """
def ref(initial_set, uncertain_var_bound, time_horizon, time_step, decomposition):
    low, high = initial_set[0][0], initial_set[0][1]
    n = len(low)
    m = len(uncertain_var_bound[0])

    def flow(t, state, u):
        d = decomposition(state[:n], u[:m], state[n:], u[m:])
        dhat = decomposition(state[n:], u[m:], state[:n], u[:m])
        return np.concatenate((d, dhat))

    times = [round(i * time_step, 10) for i in range(0, int(np.ceil(float(time_horizon) / time_step)))]
    r = ode(flow).set_integrator("dopri5", nsteps=2000).set_initial_value(low + high).set_f_params(uncertain_var_bound[0] + uncertain_var_bound[1])
    trace = [[0] + (low + high)]
    for i in range(len(times)):
        x = r.integrate(r.t + time_step)
        trace.append([times[i] + time_step] + x.flatten().tolist())
""" + _ROWS

FIND_MIN = """
def ref(expr_func, jac_func, var_range, num_var, args, idx):
    bounds = [(var_range[0, i], var_range[1, i]) for i in range(var_range.shape[1])]
    x0 = [var_range[0, i] for i in range(var_range.shape[1])]
    return minimize(expr_func, x0, args=(num_var, args, idx), bounds=bounds, jac=jac_func, method="L-BFGS-B").fun
"""
FIND_MAX = """
def ref(expr_func, jac_func, var_range, num_var, args, idx):
    f = lambda x, num_var, args, idx: -expr_func(x, num_var, args, idx)
    g = lambda x, num_var, args, idx: -jac_func(x, num_var, args, idx)
    return -find_min(f, g, var_range, num_var, args, idx)
"""
FIND_MIN_SYM = """
def ref(expr, var_range):
    vs = list(expr.free_symbols)
    bounds = [var_range[v] for v in vs]
    x0 = [var_range[v][0] for v in vs]
    jac = [diff(expr, v) for v in vs]
    return minimize(lambdify([vs], expr), x0, bounds=bounds, jac=lambdify([vs], jac), method="L-BFGS-B").fun
"""
FIND_MAX_SYM = """
def ref(expr, var_range):
    return -find_min_symbolic(-expr, var_range)
"""
TUBE_CONT = """
def ref(mode, init, uncertain_param, time_horizon, time_step, agent, lane_map):
    if hasattr(agent, "dynamics") and hasattr(agent, "decomposition"):
        return compute_reachtube_mixmono_cont(init, uncertain_param, time_horizon, time_step, agent.decomposition)
    raise ValueError("Not enough information to apply discrete time mixed monotone algorithm.")
"""

TUBE_DISC = """
def ref(mode, init, uncertain_param, time_horizon, time_step, agent, lane_map):
    if hasattr(agent, "dynamics") and hasattr(agent, "decomposition"):
        return compute_reachtube_mixmono_disc(init, uncertain_param, time_horizon, time_step, agent.decomposition)
    if hasattr(agent, "dynamics") and hasattr(agent, "dynamics_jac"):

        def by_gradient(x, w, xhat, what, dt):
            f = lambda x, n, args, i: agent.dynamics(list(x[:n]), list(x[n:]) + args)[i]
            g = lambda x, n, args, i: agent.dynamics_jac(list(x[:n]), list(x[n:]) + args)[i, :]
            assert len(x) == len(xhat)
            assert len(w) == len(what)
            n = len(x)
            args = [dt]
            d = []
            if all(a <= b for a, b in zip(x, xhat)) and all(a <= b for a, b in zip(w, what)):
                box = np.array([x + w, xhat + what])
                for i in range(len(x)):
                    d.append(find_min(f, g, box, n, args, i))
            elif all(b <= a for a, b in zip(x, xhat)) and all(b <= a for a, b in zip(w, what)):
                box = np.array([xhat + what, x + w])
                for i in range(len(x)):
                    d.append(find_max(f, g, box, n, args, i))
            else:
                raise ValueError()
            return d

        return compute_reachtube_mixmono_disc(init, uncertain_param, time_horizon, time_step, by_gradient)
    if hasattr(agent, "dynamics"):
        dynamics_func = agent.dynamics
        body = ast.parse(textwrap.dedent(inspect.getsource(dynamics_func))).body[0].body
        if not isinstance(body, list):
            raise ValueError()
        texts = []
        extract = False
        xs = []
        ws = []
        for s in body:
            if isinstance(s, ast.Expr):
                if isinstance(s.value, ast.Constant) and s.value.value == "Begin Dynamic":
                    extract = True
            elif extract:
                if isinstance(s, ast.Assign):
                    texts.append(astunparse.unparse(s.value))
            elif isinstance(s, ast.Assign):
                if s.value.id == "args":
                    for v in s.targets[0].elts[:-1]:
                        ws.append(v.id)
                elif s.value.id == "x":
                    for v in s.targets[0].elts:
                        xs.append(v.id)
        if len(texts) != len(xs):
            raise ValueError()
        symbol_x = [Symbol(n, real=True) for n in xs]
        symbol_w = [Symbol(n, real=True) for n in ws]
        first = [sympify(t).subs("dt", time_step) for t in texts]
        exprs = []
        for e in first:
            for s in symbol_x:
                e = e.subs(s.name, s)
            for s in symbol_w:
                e = e.subs(s.name, s)
            exprs.append(e)

        def by_symbols(x, w, x_hat, w_hat, dt):
            d = []
            for e in exprs:
                if all(a <= b for a, b in zip(x, x_hat)) and all(a <= b for a, b in zip(w, w_hat)):
                    box = {}
                    for i, v in enumerate(symbol_x):
                        box[v] = (x[i], x_hat[i])
                    for i, v in enumerate(symbol_w):
                        box[v] = (w[i], w_hat[i])
                    d.append(find_min_symbolic(e, box))
                elif all(a >= b for a, b in zip(x, x_hat)) and all(a >= b for a, b in zip(w, w_hat)):
                    box = {}
                    for i, v in enumerate(symbol_x):
                        box[v] = (x_hat[i], x[i])
                    for i, v in enumerate(symbol_w):
                        box[v] = (w_hat[i], w[i])
                    d.append(find_max_symbolic(e, box))
                else:
                    raise ValueError()
            return d

        return compute_reachtube_mixmono_disc(init, uncertain_param, time_horizon, time_step, by_symbols)
    raise ValueError()
"""

REACHED = """
def ref(tree, t_lower=None, t_upper=None):
    nodes: List[AnalysisTreeNode] = tree.nodes
    agents = nodes[0].agent.keys()
    reached = {}
    counter = 0
    number = {}
    for agent in agents:
        number[agent] = {"_index": 0}
    T = 0
    if t_lower is None or t_upper is None:
        leaves = tree.get_leaf_nodes(tree.root)
        T = max(leaf.trace[list(agents)[0]][-1][0] for leaf in leaves)
    for node in nodes:
        reached[counter] = None
        modes = node.mode
        boxes = {}
        for agent in agents:
            boxes[agent] = []
            for mode in modes[agent]:
                if mode not in number[agent]:
                    number[agent][mode] = number[agent]["_index"]
                    number[agent]["_index"] += 1
            if t_lower is not None and t_upper is not None:
                if agent not in node.trace:
                    continue
                for i in range(0, len(node.trace[agent]) - 1, 1 if node.trace[agent][0][0] == node.trace[agent][1][0] else 2):
                    if node.trace[agent][i][0] < t_lower:
                        continue
                    if node.trace[agent][i + 1][0] > t_upper:
                        break
                    lower = list(node.trace[agent][i][1:])
                    upper = list(node.trace[agent][i + 1][1:])
                    for mode in modes[agent]:
                        lower.append(number[agent][mode])
                        upper.append(number[agent][mode])
                    boxes[agent] += [lower, upper]
            elif node.trace[agent][-1][0] == T:
                lower = list(node.trace[agent][-2][1:])
                upper = list(node.trace[agent][-1][1:])
                for mode in modes[agent]:
                    lower.append(number[agent][mode])
                    upper.append(number[agent][mode])
                boxes[agent] += [lower, upper]
        for agent in agents:
            for i in range(len(boxes[agent])):
                if reached[counter] is None:
                    reached[counter] = [[] for _ in range(len(boxes[agent]))]
                reached[counter][i] += boxes[agent][i]
        if reached[counter] is not None:
            counter += 1
    return reached
"""

CONTAINED = """
def ref(reach1, reach2):
    n = len(reach1[list(reach1.keys())[0]][0])
    P = RealVector("p", n)
    inside1 = Or()
    inside2 = Or()
    s = Solver()
    for node in reach1:
        if reach1[node] is None:
            continue
        for i in range(0, len(reach1[node]), 2):
            box = And()
            for j in range(n):
                box = And(box, P[j] >= reach1[node][i][j], P[j] <= reach1[node][i + 1][j])
            inside1 = Or(inside1, box)
    for node in reach2:
        if reach2[node] is None:
            continue
        for i in range(0, len(reach2[node]), 2):
            box = And()
            for j in range(n):
                box = And(box, P[j] >= reach2[node][i][j], P[j] <= reach2[node][i + 1][j])
            inside2 = Or(inside2, box)
    s.add(inside1, Not(inside2))
    return s.check() == unsat
"""

FIXED = """
def ref(tree, T=40, t_step=0.01):
    return contain_all_fix(reach_at_fix(tree), reach_at_fix(tree, 0, T - t_step + t_step * 0.01))
"""
