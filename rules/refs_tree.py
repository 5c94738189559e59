"""Reference definitions for the analysis tree."""

NODE_INIT = """
def ref(self, trace, init, mode, static, uncertain_param, agent, height, assert_hits, child, start_time, ndigits, type, id):
    self.trace = trace
    self.init = init
    self.mode = mode
    self.agent = agent
    self.height = height
    self.child = child
    self.start_time = round(start_time, ndigits)
    self.assert_hits = assert_hits
    self.type = type
    self.static = static
    self.uncertain_param = uncertain_param
    self.id = id
    self.ndigits = ndigits
"""

ROOT = """
def ref(init, mode, static, uncertain_param, agent, ndigits, type):
    return AnalysisTreeNode(trace={}, init=init, mode=mode, static=static, uncertain_param=uncertain_param, agent={aid: copy(a) for aid, a in agent.items()},
        height=0, assert_hits={}, child=[], start_time=0, ndigits=ndigits, type=type, id=0)
"""

CHILD = """
def ref(self, init, mode, trace, start_time, id):
    return AnalysisTreeNode(trace=trace, init=init, mode=mode, static=self.static, uncertain_param=self.uncertain_param,
        agent=self.agent, height=self.height + 1, assert_hits={}, child=[], start_time=start_time, ndigits=self.ndigits, type=self.type, id=id)
"""

TO_DICT = """
def ref(self):
    if self.type == AnalysisTreeNodeType.SIM_TRACE:
        trace = {a: t.tolist() for a, t in self.trace.items()}
    else:
        trace = self.trace
    return {"id": self.id, "parent": None, "child": [], "agent": {a: f"{type(self.agent[a])}" for a in self.agent},
        "init": {a: list(i) for a, i in self.init.items()}, "mode": self.mode, "height": self.height, "static": self.static,
        "start_time": self.start_time, "trace": trace, "type": str(self.type), "assert_hits": self.assert_hits,
        "uncertain_param": self.uncertain_param, "ndigits": self.ndigits}
"""

FROM_DICT = """
def ref(data):
    if data["type"] == "simtrace":
        trace = {a: np.array(data["trace"][a]) for a in data["agent"].keys()}
    else:
        trace = data["trace"]
    return AnalysisTreeNode(trace=trace, id=data["id"], init=data["init"], mode=data["mode"], height=data["height"], static=data["static"],
        agent=data["agent"], assert_hits=data["assert_hits"], child=[], start_time=data["start_time"],
        type=AnalysisTreeNodeType._from_str(data["type"]), uncertain_param=data["uncertain_param"], ndigits=data["ndigits"])
"""

TYPE_STR = """
def ref(self):
    if self == AnalysisTreeNodeType.SIM_TRACE:
        return "simtrace"
    return "reachtube"
"""

TYPE_FROM = """
def ref(s):
    if s == "simtrace":
        return AnalysisTreeNodeType.SIM_TRACE
    if s == "reachtube":
        return AnalysisTreeNodeType.REACH_TUBE
    raise ValueError("unknown")
"""

ALL_NODES = """
def ref(root):
    out = []
    queue = [root]
    while queue:
        node = queue.pop(0)
        out.append(node)
        queue += node.child
    return out
"""

DUMP = """
def ref(self, fn):
    out = {}
    out[self.root.id] = self.root._to_dict()
    queue = [self.root]
    while queue:
        parent = queue.pop(0)
        for c in parent.child:
            d = c._to_dict()
            d["parent"] = parent.id
            out[c.id] = d
            out[parent.id]["child"].append(c.id)
            queue.append(c)
    with open(fn, "w+") as f:
        json.dump(out, f, indent=4, sort_keys=True)
"""

LOAD = """
def ref(fn):
    with open(fn, "r") as f:
        data = json.load(f)
    top = data[str(0)]
    root = AnalysisTreeNode._from_dict(top)
    queue = [(top, root)]
    while queue:
        d, node = queue.pop(0)
        for i in d["child"]:
            cd = data[str(i)]
            c = AnalysisTreeNode._from_dict(cd)
            node.child.append(c)
            queue.append((cd, c))
    return AnalysisTree(root)
"""

TREE_INIT = """
def ref(self, root):
    self.root = root
    self.nodes = AnalysisTree._get_all_nodes(root)
    self.type = root.type
"""

TRACK = """
def ref(self, agent_id, mode):
    names = next(iter(self.agent[agent_id].decision_logic.state_defs.values())).disc_type
    i = index_of(names, "TrackMode")
    if i is None:
        return None
    return mode[i]
"""

MODE = """
def ref(self, agent_id, mode):
    names = next(iter(self.agent[agent_id].decision_logic.state_defs.values())).disc_type
    t = index_of(names, "TrackMode")
    if t is None:
        if len(mode) == 1:
            return mode[0]
        return mode
    for i in range(len(names)):
        if i != t:
            return mode[i]
    return None
"""

INDEX_OF = """
def ref(l, item):
    for i, v in enumerate(l):
        if v == item:
            return i
    return None
"""

LEAVES = """
def ref(self):
    return len([n for n in self.nodes if len(n.child) == 0])
"""

COLLECT = """
def ref(self, node, leafs):
    if node is not None:
        if len(node.child) == 0:
            leafs.append(node)
        for n in node.child:
            self.collect_leaf_nodes(n, leafs)
"""

LEAF_NODES = """
def ref(self, root):
    out = []
    self.collect_leaf_nodes(root, out)
    return out
"""

HEIGHT = """
def ref(self, root):
    if not root.child:
        return 1
    return 1 + max(self.height(x) for x in root.child)
"""

FIRST = """
def ref(tree):
    d = {}
    for node in tree.nodes:
        for child in node.child:
            for a in node.agent:
                if node.mode[a] != child.mode[a]:
                    if a not in d:
                        d[a] = child.start_time
    return d
"""

EQUAL = """
def ref(self, other):
    return self.contains(other) and other.contains(self)
"""

CONTAINS = """
def ref(self, other, strict=True, tol=None):
    eps = _EPSILON if tol is None else tol
    mine = set(self.nodes[0].agent.keys())
    theirs = set(other.nodes[0].agent.keys())
    order = list(theirs)
    kinds = list(set(n.type for n in self.nodes + other.nodes))
    assert len(kinds) == 1
    if strict and mine != theirs:
        return False
    if not strict and not mine.issuperset(theirs):
        return False
    if kinds[0] == AnalysisTreeNodeType.SIM_TRACE:
        if len(self.nodes) != len(other.nodes):
            return False
        def close(a, b):
            return all(a[i].shape == b[i].shape and bool(np.all(np.abs(a[i][:, 1:] - b[i][:, 1:]) < eps)) for i in order)
        def within(a, b):
            if not close(a.trace, b.trace):
                return False
            if len(a.child) != len(b.child):
                return False
            left = set(range(len(a.child)))
            for i in range(len(a.child)):
                for j in left:
                    if within(a.child[i], b.child[j]):
                        left.remove(j)
                        break
                else:
                    return False
            return True
        return within(self.root, other.root)
    width = len(other.nodes[0].trace[order[0]][0])
    def ranges(n):
        rows = len(n.trace[order[0]])
        own = {a: [[portion.closed(n.trace[a][i][j], n.trace[a][i + 1][j]) for j in range(width)] for i in range(0, rows, 2)] for a in order}
        if len(n.child) == 0:
            return {a: own[a] for a in theirs}
        kids = [ranges(c) for c in n.child]
        dt = round(n.trace[order[0]][-1][0] - n.trace[order[0]][-2][0], 10)
        first = min([c.start_time for c in n.child])
        shift = [round((c.start_time - first) / dt) for c in n.child]
        size = [len(kids[i][order[0]]) for i in range(len(kids))]
        both = {a: [[reduce(portion.Interval.union, (kids[k][a][i - shift[k]][j] if i - shift[k] >= 0 and i - shift[k] < size[k] else portion.empty() for k in range(len(kids))))
                 for j in range(width)] for i in range(max(size))] for a in theirs}
        lap = round((n.trace[order[0]][-1][0] - first) / dt)
        mid = {a: [[portion.Interval.union(own[a][i][j], both[a][lap + i][j]) for j in range(width)] for i in range(-lap, 0)] for a in theirs}
        return {a: own[a][:-lap] + mid[a] + both[a][lap:] for a in theirs}
    big, small = ranges(self.root), ranges(other.root)
    n = len(small[order[0]])
    assert n <= len(big[order[0]])
    return all(small[a][i][j] in big[a][i][j].apply(lambda x: x.replace(lower=lambda v: v - eps, upper=lambda v: v + eps))
        for a in theirs for i in range(n) for j in range(width))
"""
