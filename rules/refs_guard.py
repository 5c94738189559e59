"""Reference definitions for guard evaluation in verification."""

CONT = """
def ref(self, agent, continuous_variable_dict, track_map, stars):
    for name in continuous_variable_dict:
        flat = name.replace(".", "_")
        self.cont_variables[name] = flat
        self.varDict[flat] = Real(flat)
    formula = self.generate_z3_expression()
    if isinstance(formula, bool):
        return formula, formula
    solver, symbols = self._build_guard(formula, agent)
    solver.push()
    for s in symbols:
        lo, hi = continuous_variable_dict[symbols[s]]
        solver.add(self.varDict[s] >= lo, self.varDict[s] <= hi)
    possible = solver.check() != unsat
    contained = False
    if possible:
        solver.pop()
        other = Solver()
        other.add(Not(solver.assertions()[0]))
        for s in symbols:
            lo, hi = continuous_variable_dict[symbols[s]]
            other.add(self.varDict[s] >= lo, self.varDict[s] <= hi)
        contained = other.check() == unsat
    return possible, contained
"""

BUILD = """
def ref(self, guard_str, agent):
    solver = Solver()
    symbols = {v: k for k, v in self.cont_variables.items() if k in guard_str}
    for name in reversed(self.cont_variables):
        guard_str = guard_str.replace(name, self.cont_variables[name])
    solver.add(eval(guard_str, globals(), self.varDict))
    return solver, symbols
"""

FORMULA = """
def ref(self):
    parts = []
    for node in self.ast_list:
        f = self._generate_z3_expression_node(node)
        if isinstance(f, bool):
            if not f:
                return False
            continue
        parts.append(f)
    if not parts:
        return True
    if len(parts) == 1:
        return parts[0]
    return "And(" + ",".join(parts) + ")"
"""

FORMULA_NODE = """
def ref(self, node):
    if isinstance(node, ast.BoolOp):
        if isinstance(node.op, ast.And):
            parts = []
            for val in node.values:
                f = self._generate_z3_expression_node(val)
                if isinstance(f, bool):
                    if f:
                        continue
                    return False
                parts.append(f)
            if len(parts) == 1:
                return parts[0]
            return "And(" + ",".join(parts) + ")"
        elif isinstance(node.op, ast.Or):
            parts = []
            for val in node.values:
                f = self._generate_z3_expression_node(val)
                if isinstance(f, bool):
                    if f:
                        return True
                    continue
                parts.append(f)
            if len(parts) == 1:
                return parts[0]
            return "Or(" + ",".join(parts) + ")"
    elif isinstance(node, ast.Constant):
        if isinstance(node.value, bool):
            return node.value
        return unparse(node).strip("\\n")
    elif isinstance(node, ast.UnaryOp):
        f = self._generate_z3_expression_node(node.operand)
        if isinstance(node.op, ast.USub):
            return f"-({f})"
        if isinstance(node.op, ast.Not):
            return f"Not({f})"
        raise NotImplementedError(f"UnaryOp {node.op} is not supported")
    else:
        return unparse(node).strip("\\n")
"""

HYBRID = """
def ref(self, agent, discrete_variable_dict, continuous_variable_dict, track_map, stars):
    res = True
    for i, node in enumerate(self.ast_list):
        ok, self.ast_list[i] = self._evaluate_guard_hybrid(node, agent, discrete_variable_dict, continuous_variable_dict, track_map, {})
        res = res and ok
    return res
"""

HYBRID_NODE = """
def ref(self, root, agent, disc_var_dict, cont_var_dict, track_map, agent_vars):
    if isinstance(root, ast.Compare):
        _, root.left = self._evaluate_guard_hybrid(root.left, agent, disc_var_dict, cont_var_dict, track_map, agent_vars)
        _, root.comparators[0] = self._evaluate_guard_hybrid(root.comparators[0], agent, disc_var_dict, cont_var_dict, track_map, agent_vars)
        return True, root
    elif isinstance(root, ast.BoolOp):
        if isinstance(root.op, ast.And):
            res = True
            for i, val in enumerate(root.values):
                ok, root.values[i] = self._evaluate_guard_hybrid(val, agent, disc_var_dict, cont_var_dict, track_map, agent_vars)
                res = res and ok
                if not res:
                    break
            return res, root
        elif isinstance(root.op, ast.Or):
            res = False
            for val in root.values:
                ok, _ = self._evaluate_guard_hybrid(val, agent, disc_var_dict, cont_var_dict, track_map, agent_vars)
                res = res or ok
            return res, root
    elif isinstance(root, ast.BinOp):
        _, root.left = self._evaluate_guard_hybrid(root.left, agent, disc_var_dict, cont_var_dict, track_map, agent_vars)
        _, root.right = self._evaluate_guard_hybrid(root.right, agent, disc_var_dict, cont_var_dict, track_map, agent_vars)
        return True, root
    elif isinstance(root, ast.Call):
        if not isinstance(root.func, ast.Attribute):
            raise ValueError(f"Node type {root.func} from {unparse(root.func)} is not supported")
        func = root.func
        if "map" not in func.value.id:
            raise ValueError(f"Node type {func} from {unparse(func)} is not supported")
        if func.attr == "get_lateral_distance":
            lane_node = root.args[0]
            pos_node = root.args[1]
            if isinstance(lane_node, ast.Attribute):
                lane_var = lane_node.value.id + "." + lane_node.attr
            elif isinstance(lane_node, ast.Name):
                lane_var = lane_node.id
            else:
                raise ValueError(f"Node type {type(lane_node)} is not supported")
            if lane_var in disc_var_dict:
                lane = disc_var_dict[lane_var]
            else:
                lane = track_map.get_phys_lane(lane_var)
            assert isinstance(pos_node, ast.List)
            lower, upper = [], []
            for elt in pos_node.elts:
                if isinstance(elt, ast.Attribute):
                    var = elt.value.id + "." + elt.attr
                elif isinstance(elt, ast.Name):
                    var = elt.id
                else:
                    raise ValueError(f"Node type {type(elt)} is not supported")
                lower.append(cont_var_dict[var][0])
                upper.append(cont_var_dict[var][1])
            pos = (lower, upper)
            a = self._handle_lateral_set(track_map.get_lane_segment(lane, lower), np.array(pos))
            b = self._handle_lateral_set(track_map.get_lane_segment(lane, upper), np.array(pos))
            name = f"tmp_variable{len(cont_var_dict)+1}"
            cont_var_dict[name] = [min(a[0], b[0]), max(a[1], b[1])]
            return True, ast.parse(name).body[0].value
        elif func.attr == "get_longitudinal_position":
            lane_node = root.args[0]
            pos_node = root.args[1]
            if isinstance(lane_node, ast.Attribute):
                lane_var = lane_node.value.id + "." + lane_node.attr
            elif isinstance(lane_node, ast.Name):
                lane_var = lane_node.id
            else:
                raise ValueError(f"Node type {type(lane_node)} is not supported")
            if lane_var in disc_var_dict:
                lane = disc_var_dict[lane_var]
            else:
                lane = track_map.get_phys_lane(lane_var)
            assert isinstance(pos_node, ast.List)
            lower, upper = [], []
            for elt in pos_node.elts:
                if isinstance(elt, ast.Attribute):
                    var = elt.value.id + "." + elt.attr
                elif isinstance(elt, ast.Name):
                    var = elt.id
                else:
                    raise ValueError(f"Node type {type(elt)} is not supported")
                lower.append(cont_var_dict[var][0])
                upper.append(cont_var_dict[var][1])
            pos = (lower, upper)
            a = self._handle_longitudinal_set(track_map.get_lane_segment(lane, lower), np.array(pos))
            b = self._handle_longitudinal_set(track_map.get_lane_segment(lane, upper), np.array(pos))
            name = f"tmp_variable{len(cont_var_dict)+1}"
            cont_var_dict[name] = [min(a[0], b[0]), max(a[1], b[1])]
            return True, ast.parse(name).body[0].value
        else:
            raise ValueError(f"Node type {func} from {unparse(func)} is not supported")
    elif isinstance(root, ast.Attribute):
        return True, root
    elif isinstance(root, ast.Constant):
        return root.value, root
    elif isinstance(root, ast.Name):
        return True, root
    elif isinstance(root, ast.UnaryOp):
        if isinstance(root.op, ast.USub):
            _, root.operand = self._evaluate_guard_hybrid(root.operand, agent, disc_var_dict, cont_var_dict, track_map, agent_vars)
        elif isinstance(root.op, ast.Not):
            ok, root.operand = self._evaluate_guard_hybrid(root.operand, agent, disc_var_dict, cont_var_dict, track_map, agent_vars)
            if not ok:
                root.operand = ast.parse("False").body[0].value
                return True, ast.parse("True").body[0].value
        else:
            raise ValueError(f"Node type {root} from {unparse(root)} is not supported")
        return True, root
    else:
        raise ValueError(f"Node type {root} from {unparse(root)} is not supported")
"""

ALONG = """
def ref(self, lane_seg, position):
    if lane_seg.type == "Straight":
        d0 = position[0, :] - lane_seg.start
        d1 = position[1, :] - lane_seg.start
        low = min(d0[0] * lane_seg.direction[0], d1[0] * lane_seg.direction[0]) + min(d0[1] * lane_seg.direction[1], d1[1] * lane_seg.direction[1])
        high = max(d0[0] * lane_seg.direction[0], d1[0] * lane_seg.direction[0]) + max(d0[1] * lane_seg.direction[1], d1[1] * lane_seg.direction[1])
        low += lane_seg.longitudinal_start
        high += lane_seg.longitudinal_start
        assert high >= low
        return low, high
    elif lane_seg.type == "Circular":
        d0 = position[0, :] - lane_seg.center
        d1 = position[1, :] - lane_seg.center
        phis = wrap_to_pi(np.array([np.arctan2(d0[1], d0[0]), np.arctan2(d0[1], d1[0]), np.arctan2(d1[1], d0[0]), np.arctan2(d1[1], d1[0])]) - lane_seg.start_phase)
        if np.max(phis) - np.min(phis) > np.pi:
            phis = np.array([-np.pi, np.pi])
        p0 = lane_seg.start_phase + np.min(phis)
        p1 = lane_seg.start_phase + np.max(phis)
        a = lane_seg.direction * (p0 - lane_seg.start_phase) * lane_seg.radius
        b = lane_seg.direction * (p1 - lane_seg.start_phase) * lane_seg.radius
        low = min(a, b) + lane_seg.longitudinal_start
        high = max(a, b) + lane_seg.longitudinal_start
        assert high >= low
        return low, high
    else:
        raise ValueError(f"Lane segment with type {lane_seg.type} is not supported")
"""

ASIDE = """
def ref(self, lane_seg, position):
    if lane_seg.type == "Straight":
        d0 = position[0, :] - lane_seg.start
        d1 = position[1, :] - lane_seg.start
        n = lane_seg.direction_lateral
        low = min(d0[0] * n[0], d1[0] * n[0]) + min(d0[1] * n[1], d1[1] * n[1])
        high = max(d0[0] * n[0], d1[0] * n[0]) + max(d0[1] * n[1], d1[1] * n[1])
        assert high >= low
        return low, high
    elif lane_seg.type == "Circular":
        c = lane_seg.center
        near = np.linalg.norm([np.max([position[0, 0] - c[0], 0, c[0] - position[1, 0]]), np.max([position[0, 1] - c[1], 0, c[1] - position[1, 1]])])
        far = np.linalg.norm([np.max([np.abs(position[0, 0] - c[0]), np.abs(position[1, 0] - c[0])]), np.max([np.abs(position[0, 1] - c[1]), np.abs(position[1, 1] - c[1])])])
        a = lane_seg.direction * (lane_seg.radius - far)
        b = lane_seg.direction * (lane_seg.radius - near)
        low = min(a, b)
        high = max(a, b)
        assert high >= low
        return low, high
    else:
        raise ValueError(f"Lane segment with type {lane_seg.type} is not supported")
"""

DISC = """
def ref(self, agent, discrete_variable_dict, continuous_variable_dict, track_map):
    res = True
    for i, node in enumerate(self.ast_list):
        ok, self.ast_list[i] = self._evaluate_guard_disc(node, agent, discrete_variable_dict, continuous_variable_dict, track_map)
        res = res and ok
        if not res:
            break
    return res
"""

DISC_NODE = """
def ref(self, root, agent, disc_var_dict, cont_var_dict, track_map):
    if isinstance(root, ast.Compare):
        left, root.left = self._evaluate_guard_disc(root.left, agent, disc_var_dict, cont_var_dict, track_map)
        right, root.comparators[0] = self._evaluate_guard_disc(root.comparators[0], agent, disc_var_dict, cont_var_dict, track_map)
        if isinstance(left, bool) or isinstance(right, bool):
            return True, root
        if isinstance(root.ops[0], ast.GtE):
            res = left >= right
        elif isinstance(root.ops[0], ast.Gt):
            res = left > right
        elif isinstance(root.ops[0], ast.Lt):
            res = left < right
        elif isinstance(root.ops[0], ast.LtE):
            res = left <= right
        elif isinstance(root.ops[0], ast.Eq):
            res = left == right
        elif isinstance(root.ops[0], ast.NotEq):
            res = left != right
        else:
            raise ValueError(f"Node type {root} from {unparse(root)} is not supported")
        return res, (ast.parse("True").body[0].value if res else ast.parse("False").body[0].value)
    elif isinstance(root, ast.BoolOp):
        if isinstance(root.op, ast.And):
            res = True
            for i, val in enumerate(root.values):
                ok, root.values[i] = self._evaluate_guard_disc(val, agent, disc_var_dict, cont_var_dict, track_map)
                res = res and ok
                if not res:
                    root = ast.Constant(value=False, kind=None)
                    break
            return res, root
        elif isinstance(root.op, ast.Or):
            res = False
            for i, val in enumerate(root.values):
                ok, root.values[i] = self._evaluate_guard_disc(val, agent, disc_var_dict, cont_var_dict, track_map)
                res = res or ok
            return res, root
    elif isinstance(root, ast.BinOp):
        _, root.left = self._evaluate_guard_disc(root.left, agent, disc_var_dict, cont_var_dict, track_map)
        _, root.right = self._evaluate_guard_disc(root.right, agent, disc_var_dict, cont_var_dict, track_map)
        return True, root
    elif isinstance(root, ast.Call):
        args = []
        for arg in root.args:
            res, new = self._evaluate_guard_disc(arg, agent, disc_var_dict, cont_var_dict, track_map)
            if isinstance(res, bool):
                if not isinstance(new, ast.Constant):
                    args.append(arg)
                elif not isinstance(new.value, bool) or new.value != res:
                    args.append(arg)
                else:
                    args.append(new)
            else:
                args.append(new)
        root.args = args
        expr = unparse(root)
        if any([var in expr for var in disc_var_dict]) and all([var not in expr for var in cont_var_dict]):
            for var in disc_var_dict:
                expr = expr.replace(var, f'"{disc_var_dict[var]}"')
            res = eval(expr)
            if isinstance(res, bool):
                if res:
                    root = ast.parse("True").body[0].value
                else:
                    root = ast.parse("False").body[0].value
            else:
                root = ast.parse(str(res)).body[0].value
            return res, root
        return True, root
    elif isinstance(root, ast.Attribute):
        expr = unparse(root).strip("\\n")
        if expr in disc_var_dict:
            return disc_var_dict[expr], root
        elif root.value.id in agent.decision_logic.mode_defs:
            return expr, root
        else:
            return True, root
    elif isinstance(root, ast.Constant):
        return root.value, root
    elif isinstance(root, ast.UnaryOp):
        if isinstance(root.op, ast.USub):
            _, root.operand = self._evaluate_guard_disc(root.operand, agent, disc_var_dict, cont_var_dict, track_map)
        elif isinstance(root.op, ast.Not):
            ok, root.operand = self._evaluate_guard_disc(root.operand, agent, disc_var_dict, cont_var_dict, track_map)
            if not ok:
                root.operand = ast.parse("False").body[0].value
                return True, ast.parse("True").body[0].value
        else:
            raise ValueError(f"Node type {root} from {unparse(root)} is not supported")
        return True, root
    elif isinstance(root, ast.Name):
        if root.id in disc_var_dict:
            return disc_var_dict[root.id], root
        return True, root
    elif isinstance(root, ast.List):
        return True, root
    else:
        raise ValueError(f"Node type {root} from {unparse(root)} is not supported")
"""

REDUCE = """
def ref(self, cont_var_dict, disc_var_dict, len_dict):
    updater = {}
    for i in range(len(self.ast_list)):
        root = self.ast_list[i]
        for node in ast.walk(root):
            if isinstance(node, Reduction):
                root = NodeSubstituter(node, self.unroll_any_all_new(node, cont_var_dict, disc_var_dict, len_dict, updater)).visit(root)
        self.ast_list[i] = root
    return updater
"""

UNROLL = """
def ref(self, node, cont_var_dict, disc_var_dict, len_dict, cont_var_updater):
    parts = []
    for pos in itertools.product(range(len_dict[node.value.id])):
        parts.append(self._parse_elt_new(copy.deepcopy(node.expr), cont_var_dict, disc_var_dict, cont_var_updater, [node.value.id], [node.it], pos))
    return ValueSubstituter(parts, node).visit(node)
"""

ELEMENT = """
def ref(self, root, cont_var_dict, disc_var_dict, cont_var_updater, iter_name_list, targ_var_list, iter_pos_list):
    for node in ast.walk(root):
        if isinstance(node, ast.Attribute):
            if node.value.id in targ_var_list:
                k = targ_var_list.index(node.value.id)
                lst, pos = iter_name_list[k], iter_pos_list[k]
                tmp = f"{lst}_{pos}.{node.attr}"
                root = ValueSubstituter(tmp, node).visit(root)
                name = lst + "." + node.attr
                if name in cont_var_dict:
                    if name not in cont_var_updater:
                        cont_var_updater[name] = [(tmp, pos)]
                    elif (tmp, pos) not in cont_var_updater[name]:
                        cont_var_updater[name].append((tmp, pos))
                elif name in disc_var_dict:
                    disc_var_dict[tmp] = disc_var_dict[name][pos]
    return root
"""

INIT = """
def ref(self, guard_list, guard_idx=0):
    self.ast_list = copy.deepcopy(guard_list)
    self.cont_variables = {}
    self.varDict = {}
    self.guard_idx = guard_idx
"""


SUBST_NODE = """
def ref(self, node):
    self.generic_visit(node)
    return self.new_node if node == self.old_node else node
"""

SUBST_ATTR = """
def ref(self, node):
    if isinstance(self.node, Reduction):
        return node
    if node == self.node:
        return ast.Name(id=self.val, ctx=ast.Load())
    return node
"""

SUBST_RED = """
def ref(self, node):
    self.generic_visit(node)
    if node == self.node:
        if len(self.val) == 1:
            return self.val[0]
        if node.op == ReductionType.Any:
            return ast.BoolOp(op=ast.Or(), values=self.val)
        if node.op == ReductionType.All:
            return ast.BoolOp(op=ast.And(), values=self.val)
        if node.op == ReductionType.Sum:
            return ast.Call(func=ast.Name(id="sum", ctx=ast.Load()), args=[ast.List(elts=self.val, ctx=ast.Load())], keywords=[])
    return node
"""

SUBST_INIT = """
def ref(self, new_node, old_node):
    self.new_node = new_node
    self.old_node = old_node
"""

VALUE_INIT = """
def ref(self, val, node):
    self.val = val
    self.node = node
"""
