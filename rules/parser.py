"""Rules for the reading of decision logics."""
from . import refs_parser
from .common import *
from .effects import Effects, copied, names, renamed, rewritten, summary

P = "verse.parser.parser:"
refs(P, {
    "merge_conds": ("merge_conds", "CONDS"), "lambda": ("Lambda.from_ast", "LAMBDA"), "apply": ("Lambda.apply", "APPLY"),
    "subst_arg": ("ArgSubstituter.visit_arg", "SUBST_ARG"), "subst_reduction": ("ArgSubstituter.visit_Reduction", "SUBST_REDUCTION"),
    "from_env": ("ControllerIR.from_env", "FROM_ENV"), "env_parse": ("Env.parse", "PARSE"),
    "env_push": ("Env.push", "PUSH"), "env_pop": ("Env.pop", "POP"), "env_lookup": ("Env.lookup", "LOOKUP"), "env_set": ("Env.set", "SET"),
    "env_hole": ("Env.add_hole", "HOLE"), "env_assert": ("Env.add_assert", "ASSERT"),
    "trans_args": ("Env.trans_args", "TRANS"),
    "merge_if": ("merge_if", "MERGE_IF"), "merge_assert": ("merge_assert", "MERGE_ASSERT"), "merge_single": ("merge_if_single", "MERGE_SINGLE"),
    "merge_val": ("merge_if_val", "MERGE_VAL"), "assign": ("proc_assign", "ASSIGN"), "main_check": ("is_main_check", "MAIN"),
    "ir_copy": ("CustomIR.__deepcopy__", "COPY"), "case_eq": ("CondValCase.__eq__", "CASE_EQ"), "reduction_eq": ("Reduction.__eq__", "REDUCTION_EQ"),
    "assert_eq": ("_Assert.__eq__", "ASSERT_EQ"), "ir_eq": ("ControllerIR.ir_eq", "IR_EQ"), "all_vars": ("StateDef.all_vars", "ALL_VARS"),
    "reduction_op": ("ReductionType.from_str", "FROM_STR"), "read": ("proc", "PROC"), "is_hole": ("not_ir_ast", "IS_HOLE"),
    "arg_init": ("ArgSubstituter.__init__", "ARG_INIT"), "compile": ("compile_expr", "COMPILE"), "path_eq": ("ModePath.__eq__", "PATH_EQ"),
}, vars(refs_parser))

WHOLE = ("names",)


def of_class(c, node, K):
    """the condition c for a node of class K"""
    if c.op == "isinst" and c.a[0] is node and c.a[1].op == "ref" and c.a[1].a[0].startswith("ast."):
        C = getattr(ast, c.a[1].a[0][4:], None)
        return TRUE if C and issubclass(K, C) else FALSE
    if c.op == "call" and c.a[0].op == "ref" and c.a[0].a[0].endswith(":not_ir_ast") and dict(c.a[2]).get("a") is node:
        return TRUE if issubclass(K, ast.arg) else FALSE
    if c.op == "and":
        return land(*[of_class(x, node, K) for x in c.a])
    if c.op == "or":
        return lor(*[of_class(x, node, K) for x in c.a])
    if c.op == "not":
        return lnot(of_class(c.a[0], node, K))
    return c


def rejection(ctx):
    """Every kind of statement and expression is either read or rejected, never passed over."""
    func = P + "proc"
    if ctx.repo.missing(func):
        return
    it = ctx.run(func)
    node = sym(params(ctx.repo.func(func).node)[0])
    outs = [(land(*pc), v) for pc, v, st in it.returns]
    evs = [(land(*e.pc), e) for e in it.events if e.kind in ("call", "set", "mut", "new")]
    for base in (ast.stmt, ast.expr):
        for K in sorted(base.__subclasses__(), key=lambda k: k.__name__):
            if K.__module__ not in ("ast", "_ast") or K in (ast.Pass, ast.Expr, ast.Constant):
                continue
            out = [v for c, v in outs if of_class(c, node, K) is not FALSE]
            done = (e for c, e in evs if of_class(c, node, K) is not FALSE)
            if base is ast.stmt:
                ok = not out or any(True for e in done)
            else:
                ok = all(v is not NONE for v in out) and (node not in out or any(e.kind in ("set", "mut") and node in walk(e.a[0]) for e in done))
            ctx.ob("nothing-passed-over", "proc: " + K.__name__, bool(ok), func, "a node of this kind is accepted without being read")


def separate(ctx):
    """The reading for simulation rewrites the expressions in place: the one for verification works on copies made before that."""
    func = P + "ControllerIR.from_env"
    if ctx.repo.missing(func) or ctx.repo.missing(P + "Env.trans_args"):
        return
    it = ctx.run(func)
    ef = Effects(it, summary(ctx))
    m = names(ctx, func)
    of = lambda t: {renamed(m, p) for p, l in ef.of(t, {}, {})}
    done, at, n = {}, {}, 0
    for i, e in enumerate(it.events):
        c = e.a[0] if e.kind == "call" else None
        if not isinstance(c, T):
            continue
        if c.op == "conv":
            at.setdefault(c, i)
        if c.op != "call" or c.a[0].op != "ref" or not c.a[0].a[0].endswith(":Env.trans_args"):
            continue
        k = dict(c.a[2])
        sv, n = k.get("sv"), n + 1
        if k.get("veri") is FALSE:
            for p in of(sv):
                done.setdefault(p, i)
            continue
        for p in of(sv):
            ctx.ob("verification-reads-a-copy", "ControllerIR.from_env: " + p, False, f"{func.split(':')[0]}:{e.line}", "the expression itself is rewritten for verification")
        for y in walk(sv):
            if y.op == "conv" and y.a[0] == "deepcopy":
                for p in of(y.a[1]):
                    late = [q for q, j in done.items() if j < at.get(y, i) and (p.startswith(q) or q.startswith(p))]
                    ctx.ob("verification-reads-a-copy", "ControllerIR.from_env: " + p, not late, f"{func.split(':')[0]}:{e.line}",
                           "copied after it was rewritten for simulation")
    ctx.need("verification-reads-a-copy", n, 4)


def branches(ctx):
    """Each branch is read into a copy of its own of the scope before the `if`, and the two are merged in that order."""
    func = P + "proc"
    if ctx.repo.missing(func) or ctx.repo.missing(P + "merge_if"):
        return
    it = ctx.run(func, copies=True)

    def bound(c, params):
        return dict(zip(params, c.a[1]), **dict(c.a[2]))

    read, n = {}, 0
    for e in it.events:
        c = e.a[0] if e.kind == "call" else None
        if not isinstance(c, T) or c.op != "call" or c.a[0].op != "ref":
            continue
        q = c.a[0].a[0]
        if q == func:
            b = bound(c, ("node", "env", "veri"))
            scope = b.get("env")
            if isinstance(scope, T) and scope.op == "obj":
                read.setdefault(scope, []).append(b["node"])
        if q != P + "merge_if":
            continue
        n += 1
        b = bound(c, ("test", "trues", "falses", "env"))
        ts = [b.get("trues"), b.get("falses")]
        env = b.get("env")
        ctx.ob("branches-read-apart", "proc: " + show(b.get("test"), 4), ts[0] is not ts[1] and all(
            isinstance(x, T) and x.op == "obj" and (h := e.heap.get(x)) is not None and h.op == "conv" and h.a[0] == "deepcopy" and h.a[1] is env for x in ts),
            e.where, "the two branches are not read into copies of the scope before them")
        t = b.get("test")
        c = bound(t, ("node", "env", "veri")) if isinstance(t, T) and t.op == "call" and t.a[0] is ref(func) else {}
        ctx.ob("branch-condition", "proc", c.get("env") is env and c["node"].op == "attr" and c["node"].a[1] == "test", e.where,
               "not the value of the condition in the scope before the branches")
        for x, name in zip(ts, ("body", "orelse")):
            got = [y for y in read.get(x, ())]
            ctx.ob("branch-read", f"proc: {name}", len(got) == 1 and got[0].op == "elem" and got[0].a[0].op == "attr" and got[0].a[0].a[1] == name, e.where,
                   "merged as read from " + ", ".join(show(y, 4) for y in got))
    ctx.need("branches-read-apart", n, 1)


def e01(ctx):
    check(ctx, "scopes", ("env_push",), ("env_pop",), ("env_lookup",), ("env_set",), ("env_hole",), ("lambda",))
    check(ctx, "arguments-take-the-place-of-parameters", ("apply",), ("subst_arg",), ("subst_reduction",), ("arg_init", SETS("args")))
    rewritten(ctx, "function-kept-for-its-next-call", P + "Lambda.apply", ("self*", "args*"))
    check(ctx, "assignment", ("assign",), ("is_hole",))
    check(ctx, "reading-of-each-construct", ("read",), ("reduction_op",))


def e02(ctx):
    check(ctx, "branches-merged-under-their-conditions", ("merge_if",), ("merge_single",), ("merge_val",))
    branches(ctx)
    check(ctx, "same-values-recognised", ("case_eq",), ("reduction_eq",), ("ir_eq",), ("ir_copy",))
    check(ctx, "conditions-of-the-branches", ("read", SETS("scopes", "asserts")), ("env_push",), ("env_pop",), ("env_set",), ("env_lookup",))
    check(ctx, "transitions-of-the-result", ("from_env",), ("merge_conds",), ("env_parse",), ("main_check",))


def e03(ctx):
    check(ctx, "assertions-kept-under-their-conditions", ("merge_assert",), ("env_assert",), ("assert_eq",), ("merge_if", SETS("asserts")))
    check(ctx, "assertions-of-called-functions", ("apply",))
    check(ctx, "assertions-of-the-result", ("from_env",), ("merge_conds",), ("trans_args",))
    check(ctx, "assertions-read", ("read", CALL("add_assert")))


def e04(ctx):
    check(ctx, "same-source", ("from_env",), ("compile",))
    separate(ctx)
    copied(ctx, "transitions-do-not-share-conditions", P + "merge_if_single", ("test*", "true*", "false*"), True)
    check(ctx, "translation", ("trans_args",), ("env_parse",), ("main_check",))


def e05(ctx):
    rejection(ctx)
    check(ctx, "every-part-of-an-expression-read", ("read", RET()))


def e06(ctx):
    check(ctx, "declared-names-in-order", ("all_vars",), ("read", SETS("state_defs", "mode_defs", "state_defs[]", "mode_defs[]")))


RULES = {"E01": e01, "E02": e02, "E03": e03, "E04": e04, "E05": e05, "E06": e06}
