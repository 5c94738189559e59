"""Reference definitions for star sets: the points center + sum_i a_i basis[i] with C a <= g."""

NEW = """
def ref(self, center, basis, C, g):
    self.n = len(center)
    self.m = len(basis)
    self.center = np.copy(center)
    for vec in basis:
        if len(vec) != self.n:
            raise Exception("dimension")
    self.basis = np.copy(basis)
    if C.shape[1] != self.m:
        raise Exception("width")
    if len(g) != len(C):
        raise Exception("length")
    self.C = np.copy(C)
    self.g = np.copy(g)
"""
COPY = """
def ref(self):
    return StarSet(self.center, self.basis, self.C, self.g)
"""
SAME_PREDICATE = """
def ref(self, new_center, new_basis):
    if len(new_basis) == len(self.basis):
        return StarSet(new_center, new_basis, self.C, self.g)
    raise Exception("basis")
"""
LINEAR_TUBE = """
def ref(self, mode_label, time_horizon, time_step, sim_func, lane_map):
    run = sim_func(mode_label, self.center.copy(), time_horizon, time_step, lane_map)
    centers = run[:, 1:]
    times = run[:, 0]
    moved = []
    for i in range(len(self.basis)):
        other = sim_func(mode_label, self.center + self.basis[i], time_horizon, time_step, lane_map)[:, 1:]
        moved.append([])
        for j in range(len(other)):
            moved[i].append(other[j] - centers[j])
    tube = []
    for i in range(len(centers)):
        basis = []
        for b in moved:
            basis.append(b[i])
        tube.append([times[i], self.superposition(centers[i], basis)])
    return tube
"""
BOX = """
def ref(self):
    lo, hi = [], []
    for i in range(self.n):
        a, b = self.get_max_min(i)
        hi.append(b)
        lo.append(a)
    return [lo, hi]
"""
EXTREMES = """
def ref(self, i):
    row = self.basis[:, i]
    low = linprog(c=row, A_ub=self.C, b_ub=self.g, bounds=(None, None))
    high = linprog(c=-1 * row, A_ub=self.C, b_ub=self.g, bounds=(None, None))
    return self.center[i] + row @ low.x, self.center[i] + row @ high.x
"""
FROM_BOX = """
def ref(min_list, max_list):
    if len(min_list) != len(max_list):
        raise Exception("length")
    dims = []
    for i in range(len(min_list)):
        dims.append([min_list[i], max_list[i]])
    return StarSet.from_polytope(pc.box2poly(dims))
"""
FROM_POLYTOPE = """
def ref(polytope):
    return StarSet.from_poly(polytope.A, polytope.b)
"""
FROM_POLY = """
def ref(constraint_mat, rhs):
    if len(rhs) != len(constraint_mat):
        raise Exception("length")
    n = len(constraint_mat[0])
    basis = np.zeros((n, n))
    for i in range(n):
        basis[i][i] = 1.0
    return StarSet(np.zeros(n), basis, constraint_mat, rhs)
"""
TUBE = """
def ref(self, mode_label, time_horizon, time_step, sim_func, bloating_method, kvalue, sim_trace_num, lane_map, pca):
    if not pca:
        box = self.overapprox_rectangle()
        tube = calc_bloated_tube(mode_label, box, time_horizon, time_step, sim_func, bloating_method, kvalue, sim_trace_num, lane_map=lane_map)
        out = []
        for i in range(0, len(tube), 2):
            out.append([tube[i][0], StarSet.rect_to_star(tube[i][1:], tube[i + 1][1:])])
        return out
    reach = gen_starsets_post_sim(self, sim_func, time_horizon, time_step, mode_label=mode_label)
    out = []
    for i in range(len(reach)):
        out.append([i * time_step, reach[i]])
    return out
"""
POST = """
def ref(self, simulate, t):
    center = simulate(self.center, t)
    basis = np.empty_like(self.basis)
    for i in range(len(self.basis)):
        basis[i] = simulate(self.center + self.basis[i], t) - center
    return self.superposition(center, basis)
"""
RESET = """
def ref(self, reset_function, expr_list, reset_vars):
    center = reset_function(self.center, expr_list, reset_vars)
    basis = np.empty_like(self.basis)
    for i in range(len(self.basis)):
        basis[i] = reset_function(self.center + self.basis[i], expr_list, reset_vars) - center
    return self.superposition(center, basis)
"""
CUT_COPY = """
def ref(starset, constraint_vec, rhs_val):
    new = StarSet(starset.center, starset.basis, starset.C, starset.g)
    new.intersection_halfspace(constraint_vec, rhs_val)
    return new
"""
CUT_HALF = """
def ref(self, constraint_vec, rhs_val):
    if not (constraint_vec.ndim == 1) or not (len(constraint_vec == self.n)):
        raise Exception("length")
    self.intersection_poly(np.array([constraint_vec]), np.array([rhs_val]))
"""
CUT_POLY = """
def ref(self, constraint_mat, rhs):
    if not (len(constraint_mat[0] == self.n)):
        raise Exception("length")
    if not (len(rhs) == len(constraint_mat)):
        raise Exception("length")
    C = np.vstack((self.C, np.matmul(constraint_mat, self.basis.T)))
    g = np.append(self.g, rhs - np.matmul(constraint_mat, self.center))
    self.C = C
    self.g = g
"""
INSIDE = """
def ref(self, constraint_vec, rhs):
    return StarSet.get_halfspace_intersection(self, -1 * constraint_vec, -1 * rhs).is_empty()
"""
HAS_POINT = """
def ref(self, point):
    s = Solver()
    a = [Real("alpha_%s" % (j + 1)) for j in range(len(self.basis))]
    for j in range(len(point)):
        x = self.center[j]
        for i in range(len(self.basis)):
            x = x + a[i] * self.basis[i][j]
        s.add(x == point[j])
    for i in range(len(self.C)):
        x = 0
        for j in range(len(a)):
            x = x + self.C[i][j] * a[j]
        s.add(x <= self.g[i])
    if s.check() == sat:
        return True
    return False
"""
CONSTRAIN = """
def ref(self, cur_solver, state_vec, agent):
    a = [Real("%s_alpha_%s" % (agent, (j + 1))) for j in range(len(self.basis))]
    x = self.center + (self.basis.transpose() @ a)
    for i in range(len(x)):
        cur_solver.add(x[i] == state_vec[i])
    for i in range(len(self.C)):
        s = 0
        for j in range(len(a)):
            s = s + self.C[i][j] * a[j]
        cur_solver.add(s <= self.g[i])
"""
FURTHEST = """
def ref(self, opt_direction):
    d = -1 * opt_direction
    res = linprog(c=d.T @ self.basis.T, A_ub=self.C, b_ub=self.g, bounds=(None, None))
    return self.center + res.x.reshape((res.x.shape[0], 1)).T @ self.basis
"""
EMPTY = """
def ref(self):
    return not StarSet.is_feasible(self.m, self.C, self.g)
"""
FEASIBLE = """
def ref(n, constraint_mat, rhs, equal_mat=None, equal_rhs=None):
    r = linprog(c=np.zeros(n), A_ub=constraint_mat, b_ub=rhs, A_eq=equal_mat, b_eq=equal_rhs, bounds=(None, None))
    if r.status == 0:
        return True
    if r.status == 2:
        return False
    raise Exception("lp")
"""
HULL = """
def ref(stars):
    box = []
    for i in range(stars[0].n):
        lo = None
        hi = None
        for star in stars:
            a, b = star.get_max_min(i)
            if lo == None or a < lo:
                lo = a
            if hi == None or b > hi:
                hi = b
        box.append([lo, hi])
    return StarSet.from_polytope(pc.box2poly(box))
"""
MIDDLE = """
def ref(self):
    pt = []
    for i in range(self.n):
        lo, hi = self.get_max_min(i)
        pt.append((lo + hi) / 2)
    return pt
"""
HAS_POINT_FUN = """
def ref(star, point):
    if star.dimension() != point.shape[0]:
        raise ValueError("dimension")
    a = RealVector('a', star.C.shape[1])
    s = Solver()
    for i in range(star.dimension()):
        x = star.center[i]
        for j in range(len(a)):
            x = x + a[j] * star.basis[j][i]
        s.add(x == point[i])
    for i in range(star.C.shape[0]):
        x = 0
        for j in range(len(a)):
            x = x + star.C[i][j] * a[j]
        s.add(x <= star.g[i])
    return s.check() == sat
"""
SAMPLE = """
def ref(star, N, tol=0.2):
    rect = star.overapprox_rectangle()
    points = []
    misses = 0
    while len(points) < N:
        p = np.array(sample_rect(rect))
        if containment_poly(star, p):
            points.append(p)
            misses = 0
        else:
            misses += 1
            if misses > int(N * tol):
                raise Exception("misses")
    return points
"""

SEGMENTS = """
def ref(agent_id, cached_tube_info, incremental, mode_label, initial_set, time_horizon, time_step, sim_func, params, kvalue, sim_trace_num, combine_seg_length=1000, guard_checker=None, guard_str="", lane_map=None, pca=True):
    from verse.stars.starset import StarSet
    method = "PW"
    if "bloating_method" in params:
        method = params["bloating_method"]
    whole = None
    for first in range(0, len(initial_set), combine_seg_length):
        stars = initial_set[first:first + combine_seg_length]
        start = stars[0]
        if len(stars) > 1:
            start = StarSet.combine_stars(stars)
        tube = start.calc_reach_tube(mode_label, time_horizon, time_step, sim_func, method, kvalue, sim_trace_num, lane_map=lane_map, pca=pca)
        if whole is None:
            whole = tube
        else:
            for i, (_, star) in enumerate(tube[:max(len(whole) - first, 0)]):
                row = whole[first + i]
                row[1] = StarSet.combine_stars([row[1], star])
    return whole, []
"""
RESET_STARS = """
def ref(agent, reset_list, all_agent_state, track_map):
    state, mode, static = all_agent_state[agent.id]
    dests = [[m] for m in copy.deepcopy(mode)]
    ty = find(agent.decision_logic.args, lambda a: a.name == EGO).typ
    old = state[1].starcopy()
    names = {}
    exprs = {}
    for reset, disc, cont, _, _p in reset_list:
        expr = reset.expr
        if "mode" in reset.var:
            found = False
            for at, name in enumerate(agent.decision_logic.state_defs[ty].disc):
                if name == reset.var:
                    found = True
                    break
            if not found:
                raise ValueError("no such mode variable")
            if isinstance(reset.val_ast, ast.Constant):
                dests[at] = [eval(expr)]
            else:
                parts = expr.split(".")
                if "map" in parts[0]:
                    for v in disc:
                        expr = expr.replace(v, f"'{disc[v]}'")
                    got = eval(expr)
                    if not isinstance(got, list):
                        got = [got]
                    dests[at] = got
                elif parts[0].strip(" ") in agent.decision_logic.mode_defs:
                    dests[at] = [parts[1]]
        else:
            found = False
            for at, name in enumerate(agent.decision_logic.state_defs[ty].cont):
                if name == reset.var:
                    found = True
                    exprs[at] = expr
                    names[at] = reset.var
                    break
            if not found:
                raise ValueError("no such state variable")
            own = []
            for v in cont:
                if 'ego' in v:
                    own.append(v)

    def image(state, exprs, names):
        out = np.copy(state)
        for at in list(names.keys()):
            text = copy.deepcopy(exprs[at])
            for i in range(0, len(state)):
                text = re.sub(rf"\\b{re.escape(own[i])}\\b", f"({state[i]})", text)
            val = eval(text, {}, {})
            for i in range(0, len(state)):
                if names[at] == own[i].split('.', 1)[1]:
                    out[i] = val
        return out

    new = old.apply_reset(image, exprs, names)
    return [d for d in itertools.product(*dests)], new
"""

AROUND = """
def ref(old_star, derived_basis, points, usat=False):
    if points.size == 0:
        raise ValueError("points")
    if old_star.dimension() != points.shape[1]:
        raise ValueError("dimension")
    if old_star.basis.shape != derived_basis.shape:
        raise ValueError("basis")
    C, g = old_star.C, old_star.g
    a = [RealVector(f'a_{i}', C.shape[1]) for i in range(points.shape[0])]
    u = Real('u')
    c = RealVector('i', old_star.dimension())
    o = Optimize()
    for p in range(len(points)):
        for i in range(old_star.dimension()):
            x = c[i]
            for j in range(len(a[p])):
                x = x + a[p][j] * derived_basis[j][i]
            o.add(x == points[p][i])
        for i in range(C.shape[0]):
            x = 0
            for j in range(len(a[p])):
                x = x + C[i][j] * a[p][j]
            o.add(x <= u * g[i])
    o.minimize(u)
    if o.check() == sat:
        m = o.model()
        return StarSet(np.array([float(m[c[i]].as_fraction()) for i in range(len(c))]), np.array(derived_basis), C, g * float(m[u].as_fraction()))
    if not usat:
        return post_cont_pca(new_pred(old_star), derived_basis, points, True)
    raise RuntimeError("no scale")
"""
UNIT = """
def ref(old_star):
    n = old_star.C.shape[1]
    cols = []
    for i in range(n):
        col = []
        for j in range(n * 2):
            if i * 2 == j:
                col.append(1)
            elif i * 2 + 1 == j:
                col.append(-1)
            else:
                col.append(0)
        cols.append(col)
    return StarSet(old_star.center, old_star.basis, np.transpose(np.array(cols)), np.ones(old_star.g.shape))
"""
FIT = """
def ref(points, old_star):
    pca = PCA(n_components=points.shape[1])
    pca.fit(points)
    return post_cont_pca(old_star, (pca.components_.T @ np.diag(np.sqrt(pca.explained_variance_))).T, points)
"""
RUNS = """
def ref(old_star, sim, T=7, ts=0.05, N=100, no_init=False, mode_label=None):
    starts = np.array(sample_star(old_star, N))
    runs = []
    if no_init:
        for p in starts:
            runs.append(sim(mode=mode_label, initialCondition=p, time_bound=T, time_step=ts).tolist()[1:])
    else:
        for p in starts:
            runs.append(sim(mode_label, p, T, ts).tolist())
    runs = np.array(runs)
    stars = []
    for t in range(runs.shape[1]):
        stars.append(gen_starset(runs[:, t, 1:], old_star))
    return stars
"""
STEPWISE = """
def ref(init_star, sim, T=7, ts=0.05, N=100):
    t = 0
    stars = []
    at = init_star
    while t < T:
        new = gen_starsets_post_sim(at, sim, ts, ts, N, True)[0]
        stars.append(new)
        t += ts
        at = copy.deepcopy(new)
    return stars
"""
