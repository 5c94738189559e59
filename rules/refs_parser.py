"""Reference definitions for the reading of decision logics."""

CONDS = """
def ref(c):
    return ast.Constant(True) if not len(c) else c[0] if len(c) == 1 else ast.BoolOp(ast.And(), c)
"""

LAMBDA = """
def ref(tree, env):
    def name(ann):
        if isinstance(ann, ast.Constant):
            return ann.value
        if isinstance(ann, ast.Name):
            return ann.id
        if isinstance(ann, ast.Index):
            return ann.value.id
        raise TypeError("")

    args = []
    for a in tree.args.args:
        if a.annotation is None:
            args.append(LambdaArg(a.arg, None, False))
        elif isinstance(a.annotation, ast.Subscript) and isinstance(a.annotation.value, ast.Name) and a.annotation.value.id == "List":
            args.append(LambdaArg(a.arg, name(a.annotation.slice), True))
        else:
            args.append(LambdaArg(a.arg, name(a.annotation), False))
    env.push()
    for a in args:
        env.add_hole(a.name, a.typ)
    body = None
    if isinstance(tree, ast.FunctionDef):
        for node in tree.body:
            body = proc(node, env)
            if isinstance(node, ast.Return):
                break
    elif isinstance(tree, ast.Lambda):
        body = proc(tree.body, env)
    asserts = env.scopes[0].asserts
    env.pop()
    return Lambda(args, body, asserts)
"""

APPLY = """
def ref(self, args):
    subst = ArgSubstituter({p.name: v for p, v in zip(self.args, args)})
    body = subst.visit(copy.deepcopy(self.body))
    asserts = []
    for a in copy.deepcopy(self.asserts):
        a = copy.deepcopy(a)
        pre = [subst.visit(p) for p in a.pre]
        asserts.append(_Assert(subst.visit(a.cond), a.label, pre))
    return asserts, body
"""

SUBST_ARG = """
def ref(self, node):
    if node.arg in self.args:
        return self.args[node.arg]
    self.generic_visit(node)
    return node
"""

SUBST_REDUCTION = """
def ref(self, node):
    node.value = self.visit(node.value)
    rest = {k: v for k, v in self.args.items() if k != node.it}
    trees = [v for v in rest.values() if isinstance(v, ast.AST)]
    used = {n.arg for v in trees for n in ast.walk(v) if isinstance(n, ast.arg)}
    if node.it in used:
        used |= {n.arg for n in ast.walk(node.expr) if isinstance(n, ast.arg)}
        new = node.it
        while new in used:
            new += "_"
        node.expr = ArgSubstituter({node.it: ast.arg(new, None)}).visit(node.expr)
        node.it = new
    node.expr = ArgSubstituter(rest).visit(node.expr)
    return node
"""

FROM_ENV = """
def ref(env):
    top = env.scopes[0].v
    if "decisionLogic" not in top or not isinstance(top["decisionLogic"], Lambda):
        raise TypeError("can't find controller")
    logic = top["decisionLogic"]
    found = [(a.cond, f"<assert {i}>" if a.label is None else a.label, merge_conds(a.pre)) for i, a in enumerate(logic.asserts)]
    veri = []
    for cond, label, pre in found:
        veri.append(Assert(Env.trans_args(copy.deepcopy(cond), True), label, Env.trans_args(copy.deepcopy(pre), True)))
    sim = []
    for cond, label, pre in found:
        sim.append(CompiledAssert(compile_expr(Env.trans_args(cond, False)), label, compile_expr(Env.trans_args(pre, False))))
    if not isinstance(logic.body, dict):
        raise NotImplementedError("non-object return")
    paths = []
    for var, val in logic.body.items():
        if isinstance(val, CondVal):
            for case in val.elems:
                if len(case.cond) > 0:
                    cond = merge_conds(case.cond)
                    cond_veri = Env.trans_args(copy.deepcopy(cond), True)
                    val_veri = Env.trans_args(copy.deepcopy(case.val), True)
                    paths.append(ModePath(compile_expr(Env.trans_args(cond, False)), cond_veri, var, compile_expr(Env.trans_args(case.val, False)), val_veri))
    return ControllerIR(logic.args, paths, sim, veri, env.state_defs, env.mode_defs, env.controller_code)
"""

PARSE = """
def ref(code, fn):
    if code is not None:
        text = code
        root = ast.parse(code, fn) if fn is not None else ast.parse(code)
    elif fn is not None:
        with open(fn) as f:
            text = f.read()
        root = ast.parse(text, fn)
    else:
        raise TypeError("need at least one of `code` and `fn`")
    env = Env(controller_code=text)
    proc(root, env)
    return env
"""

PUSH = """
def ref(self):
    self.scopes = [ScopeLevel()] + self.scopes
"""
POP = """
def ref(self):
    self.scopes = self.scopes[1:]
"""
LOOKUP = """
def ref(self, key):
    for scope in self.scopes:
        if key in scope.v:
            return scope.v[key]
    return None
"""
SET = """
def ref(self, key, val):
    self.scopes[0].v[key] = val
"""
HOLE = """
def ref(self, name, typ):
    self.set(name, ast.arg(name, ast.Constant(typ, None)))
"""
ASSERT = """
def ref(self, expr, label):
    self.scopes[0].asserts.append(_Assert(expr, label))
"""

TRANS = """
def ref(sv, veri):
    def cases(cv, veri):
        raise NotImplementedError("flatten CondVal assignments")

    def reduction(red, veri):
        if veri:
            red.expr = Env.trans_args(red.expr, True)
            red.value = Env.trans_args(red.value, True)
            return red
        expr = Env.trans_args(red.expr, False)
        value = Env.trans_args(red.value, False)
        gen = ast.GeneratorExp(expr, [ast.comprehension(ast.Name(red.it, ctx=ast.Store()), value, [], False)])
        return ast.Call(ast.Name(str(red.op), ctx=ast.Load()), [gen], [])

    if isinstance(sv, Reduction):
        return reduction(sv, veri)
    if isinstance(sv, CondVal):
        return cases(sv, veri)
    if isinstance(sv, ast.AST):
        class ArgTransformer(ast.NodeTransformer):
            def __init__(self, veri):
                super().__init__()
                self.veri = veri

            def visit_arg(self, node):
                return ast.Name(node.arg, ctx=ast.Load())

            def visit_CondVal(self, node):
                return cases(node, self.veri)

            def visit_Reduction(self, node):
                return reduction(node, self.veri)

        return ArgTransformer(veri).visit(sv)
    if isinstance(sv, dict):
        for k, v in sv.items():
            sv[k] = Env.trans_args(v, veri)
        return sv
    if isinstance(sv, Lambda):
        sv.body = Env.trans_args(sv.body, veri)
        sv.asserts = [Env.trans_args(a, veri) for a in sv.asserts]
        return sv
    if isinstance(sv, _Assert):
        sv.cond = Env.trans_args(sv.cond, veri)
        sv.pre = [Env.trans_args(p, veri) for p in sv.pre]
        return sv
    raise NotImplementedError(str(sv.__class__))
"""

MERGE_IF = """
def ref(test, trues, falses, env):
    for t, f in zip(trues.scopes, falses.scopes):
        merge_if_single(test, t.v, f.v, env)
    env.scopes[0].asserts = merge_assert(test, trues.scopes[0].asserts, falses.scopes[0].asserts, env.scopes[0].asserts)
"""

MERGE_ASSERT = """
def ref(test, trues, falses, orig):
    for o in orig:
        if o in trues:
            trues.remove(o)
        if o in falses:
            falses.remove(o)
    for a in trues:
        a.pre.append(test)
    other = ast.UnaryOp(ast.Not(), test)
    for a in falses:
        a.pre.append(other)
    return trues + falses + orig
"""

MERGE_SINGLE = """
def ref(test, true, false, scope):
    def lookup(s, k):
        return s.lookup(k) if isinstance(s, Env) else s.get(k)

    def assign(s, k, v):
        if isinstance(s, Env):
            s.set(k, v)
        else:
            s[k] = v

    for var in set(true.keys()).union(set(false.keys())):
        t, f = true.get(var), false.get(var)
        if ControllerIR.ir_eq(t, f):
            continue
        if t is not None and f is not None:
            assert isinstance(t, dict) == isinstance(f, dict)
        if isinstance(t, dict):
            if not isinstance(lookup(scope, var), dict):
                if lookup(scope, var) is not None:
                    raise NotImplementedError("")
                assign(scope, var, {})
            t, f, inner = true.get(var, {}), false.get(var, {}), lookup(scope, var)
            assert isinstance(t, dict) and isinstance(f, dict) and isinstance(inner, dict)
            merge_if_single(test, t, f, inner)
        else:
            old = lookup(scope, var)
            assign(scope, var, copy.deepcopy(merge_if_val(test, t, f, old)))
"""

MERGE_VAL = """
def ref(test, true, false, orig):
    def under(test, val):
        if isinstance(val, CondVal):
            for elem in val.elems:
                elem.cond.append(test)
            return val
        return CondVal([CondValCase([test], val)])

    def cases(a):
        if a is None:
            return None
        if not isinstance(a, CondVal):
            return CondVal([CondValCase([], a)])
        return a

    true, false, orig = cases(true), cases(false), cases(orig)
    if orig is not None:
        for case in orig.elems:
            if true is not None and case in true.elems:
                true.elems.remove(case)
            if false is not None and case in false.elems:
                false.elems.remove(case)
    no_true = true is None or len(true.elems) == 0
    no_false = false is None or len(false.elems) == 0
    if no_true and no_false:
        raise Exception("no need for merge?")
    if no_true:
        ret = under(ast.UnaryOp(ast.Not(), test), false)
    elif no_false:
        ret = under(test, true)
    else:
        t, f = under(test, true), under(ast.UnaryOp(ast.Not(), test), false)
        ret = CondVal(t.elems + f.elems)
    return CondVal(ret.elems + orig.elems) if orig is not None else ret
"""

ASSIGN = """
def ref(target, val, env):
    def value(val):
        res = proc(val, env)
        if res is None and isinstance(val, ast.Name):
            raise NameError("")
        return res

    def attribute(obj, attr, val):
        if proc(obj, env) is None:
            proc_assign(obj, {}, env)
        o = proc(obj, env)
        if isinstance(val, ast.AST):
            val = value(val)
            if val is not None:
                o[attr] = val
        else:
            o[attr] = val

    if isinstance(target, ast.Name):
        if isinstance(val, ast.AST):
            val = value(val)
            if val is not None:
                if isinstance(val, ast.arg):
                    assert isinstance(val.annotation, ast.Constant)
                    typ = val.annotation.s
                    if typ in env.state_defs:
                        for attr in env.state_defs[typ].all_vars():
                            attribute(target, attr, ast.Attribute(val, attr, ast.Load()))
                else:
                    env.set(target.id, val)
        else:
            env.set(target.id, val)
    elif isinstance(target, ast.Attribute):
        attribute(target.value, target.attr, val)
    else:
        raise NotImplementedError("assign.others")
"""

MAIN = """
def ref(node):
    def name_is_main(a, b):
        return isinstance(a, ast.Name) and a.id == "__name__" and isinstance(b, ast.Constant) and b.value == "__main__"
    t = node.test
    return isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq) and (
        name_is_main(t.left, t.comparators[0]) or name_is_main(t.comparators[0], t.left))
"""

COPY = """
def ref(self, memo):
    new = self.__class__.__new__(self.__class__)
    for k, v in self.__dict__.items():
        setattr(new, k, copy.deepcopy(v))
    return new
"""

CASE_EQ = """
def ref(self, o):
    if o is None or len(self.cond) != len(o.cond):
        return False
    return all(ControllerIR.ir_eq(a, b) for a, b in zip(self.cond, o.cond)) and ControllerIR.ir_eq(self.val, o.val)
"""
REDUCTION_EQ = """
def ref(self, o):
    if o is None:
        return False
    return self.op == o.op and self.it == o.it and ControllerIR.ir_eq(self.expr, o.expr) and ControllerIR.ir_eq(self.value, o.value)
"""
ASSERT_EQ = """
def ref(self, o):
    if o is None:
        return False
    return len(self.pre) == len(o.pre) and all(ControllerIR.ir_eq(a, b) for a, b in zip(self.pre, o.pre)) and ControllerIR.ir_eq(self.cond, o.cond)
"""
IR_EQ = """
def ref(a, b):
    return ControllerIR.dump(a) == ControllerIR.dump(b)
"""
ALL_VARS = """
def ref(self):
    return self.cont + self.disc + self.static
"""
FROM_STR = """
def ref(s):
    return getattr(ReductionType, s.title())
"""

PROC = """
def ref(node, env):
    if isinstance(node, ast.Module):
        for node in node.body:
            if proc(node, env) == "--start-of-main--":
                break
        return None
    if not_ir_ast(node):
        return node
    if isinstance(node, (ast.For, ast.While)):
        raise NotImplementedError("")
    if isinstance(node, ast.If):
        if is_main_check(node):
            return "--start-of-main--"
        if any(isinstance(s, ast.Return) for s in node.body + node.orelse):
            raise NotImplementedError("")
        test = proc(node.test, env)
        yes = copy.deepcopy(env)
        for s in node.body:
            proc(s, yes)
        no = copy.deepcopy(env)
        for s in node.orelse:
            proc(s, no)
        merge_if(test, yes, no, env)
        return None
    if isinstance(node, (ast.Import, ast.ImportFrom)):
        for alias in node.names:
            env.add_hole(alias.name if alias.asname is None else alias.asname, None)
        return None
    if isinstance(node, ast.Assign):
        if len(node.targets) != 1:
            raise NotImplementedError("")
        proc_assign(node.targets[0], node.value, env)
        return None
    if isinstance(node, ast.Name):
        return env.lookup(node.id)
    if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
        if isinstance(node.value, ast.Name) and node.value.id in env.mode_defs:
            return ast.Constant(node.attr)
        obj = proc(node.value, env)
        if not not_ir_ast(obj):
            return obj[node.attr]
        if obj.arg in env.mode_defs:
            return ast.Constant(node.attr, kind=None)
        return ast.Attribute(obj, node.attr, ctx=ast.Load())
    if isinstance(node, ast.FunctionDef):
        env.set(node.name, Lambda.from_ast(node, env))
        return None
    if isinstance(node, ast.Lambda):
        return Lambda.from_ast(node, env)
    if isinstance(node, ast.ClassDef):
        def names_of(nodes):
            names = []
            for n in nodes:
                if isinstance(n, ast.Assign):
                    if len(n.targets) > 1:
                        raise NotImplementedError("")
                    if not isinstance(n.targets[0], ast.Name):
                        raise NotImplementedError("")
                    names.append(n.targets[0].id)
                elif isinstance(n, ast.AnnAssign):
                    if not isinstance(n.target, ast.Name):
                        raise NotImplementedError("")
                    names.append(n.target.id)
            return names

        def types_of(nodes):
            types = []
            for n in nodes:
                if isinstance(n, ast.Assign):
                    types.append(None)
                elif isinstance(n, ast.AnnAssign):
                    if not isinstance(n.annotation, ast.Name):
                        raise NotImplementedError("")
                    types.append(n.annotation.id)
            return types

        if node.name.endswith("Mode"):
            env.mode_defs[node.name] = ModeDef(names_of(node.body))
        elif node.name.endswith("State"):
            names = names_of(node.body)
            types = types_of(node.body)
            state = StateDef()
            for i, name in enumerate(names):
                if name == "type":
                    state.static.append(name)
                    state.static_type.append(types[i])
                elif "mode" in name:
                    state.disc.append(name)
                    state.disc_type.append(types[i])
                else:
                    state.cont.append(name)
            env.state_defs[node.name] = state
        env.add_hole(node.name, None)
        return None
    if isinstance(node, ast.Assert):
        cond = proc(node.test, env)
        if node.msg is None:
            env.add_assert(cond, None)
        elif isinstance(node.msg, ast.Constant):
            env.add_assert(cond, node.msg.s)
        else:
            raise NotImplementedError("")
        return None
    if isinstance(node, ast.UnaryOp):
        return ast.UnaryOp(node.op, proc(node.operand, env))
    if isinstance(node, ast.BinOp):
        return ast.BinOp(proc(node.left, env), node.op, proc(node.right, env))
    if isinstance(node, ast.BoolOp):
        return ast.BoolOp(node.op, [proc(v, env) for v in node.values])
    if isinstance(node, ast.Compare):
        comps = [proc(c, env) for c in node.comparators]
        first = ast.Compare(proc(node.left, env), node.ops[:1], comps[:1])
        rest = [ast.Compare(comps[i], node.ops[i + 1 : i + 2], comps[i + 1 : i + 2]) for i in range(len(node.ops) - 1)]
        if rest:
            return ast.BoolOp(ast.And(), [first, *rest])
        return first
    if isinstance(node, ast.Call):
        fun = proc(node.func, env)
        if isinstance(fun, Lambda):
            if node.keywords or len(node.args) != len(fun.args):
                raise NotImplementedError("")
            asserts, ret = fun.apply([proc(a, env) for a in node.args])
            env.scopes[0].asserts.extend(asserts)
            return ret
        if isinstance(fun, ast.Attribute):
            if isinstance(fun.value, ast.arg) and fun.value.arg == "copy" and fun.attr == "deepcopy":
                if len(node.args) > 1:
                    raise ValueError("")
                return proc(node.args[0], env)
            node.args = [proc(a, env) for a in node.args]
            return node
        if isinstance(fun, ast.arg):
            if fun.arg == "copy.deepcopy":
                raise Exception("")
            node.args = [proc(a, env) for a in node.args]
            return node
        if isinstance(node.func, ast.Name):
            name = node.func.id
            if name not in ["any", "all", "sum"]:
                raise NotImplementedError("")
            if len(node.args) != 1 or not isinstance(node.args[0], ast.GeneratorExp):
                raise NotImplementedError("")
            gens = node.args[0]
            if len(gens.generators) != 1:
                raise NotImplementedError("")
            body = gens.elt
            gen = gens.generators[0]
            if not isinstance(gen.target, ast.Name):
                raise NotImplementedError("")
            env.push()
            env.add_hole(gen.target.id, None)
            op = ReductionType.from_str(name)

            def filtered(e, c):
                if op == ReductionType.Any:
                    return ast.BoolOp(ast.And(), [e, c])
                if op == ReductionType.All:
                    return ast.BoolOp(ast.Or(), [e, ast.UnaryOp(ast.Not(), c)])
                if op == ReductionType.Sum:
                    return ast.IfExp(test=c, body=e, orelse=ast.Constant(value=0))
                raise NotImplementedError("")

            body = proc(body, env)
            ifs = [proc(i, env) for i in gen.ifs]
            if len(gen.ifs) > 0:
                body = filtered(body, merge_conds(ifs))
            ret = Reduction(op, body, gen.target.id, proc(gen.iter, env))
            if env.scopes[0].asserts:
                raise NotImplementedError("")
            env.pop()
            return ret
        raise NotImplementedError("")
    if isinstance(node, ast.Return):
        return proc(node.value, env) if node.value is not None else None
    if isinstance(node, ast.IfExp):
        return ast.IfExp(proc(node.test, env), proc(node.body, env), proc(node.orelse, env))
    if isinstance(node, ast.Expr):
        return None
    if isinstance(node, (ast.List, ast.Tuple)):
        node.elts = [proc(e, env) for e in node.elts]
        return node
    if isinstance(node, ast.Constant):
        return node
    raise NotImplementedError("")
"""

IS_HOLE = """
def ref(a):
    return isinstance(a, ast.arg)
"""

ARG_INIT = """
def ref(self, args):
    self.args = args
"""

COMPILE = """
def ref(e):
    return compile(ast.fix_missing_locations(ast.Expression(e)), "", "eval")
"""

PATH_EQ = """
def ref(self, other):
    if other is None:
        return False
    return self.cond == other.cond and self.val == other.val
"""
