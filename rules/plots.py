"""Rules for what the plotters are given."""
from .common import *

THIN = """
def ref(root, sample_rate=1):
    root = copy.copy(root)
    queue = [root]
    if root.type == AnalysisTreeNodeType.REACH_TUBE:
        step = sample_rate * 2
        while queue != []:
            node = queue.pop()
            node.trace = dict(node.trace)
            node.child = [copy.copy(c) for c in node.child]
            for aid in node.trace:
                kept = []
                for i in range(0, len(node.trace[aid]), step):
                    if i + step - 1 < len(node.trace[aid]):
                        kept.append(node.trace[aid][i])
                        kept.append(node.trace[aid][i + step - 1])
                node.trace[aid] = kept
            queue += node.child
    else:
        while queue != []:
            node = queue.pop()
            node.trace = dict(node.trace)
            node.child = [copy.copy(c) for c in node.child]
            for aid in node.trace:
                node.trace[aid] = [node.trace[aid][i] for i in range(0, len(node.trace[aid]), sample_rate)]
            queue += node.child
    return root
"""

F["thin_2d"] = ("verse.plotter.plotter2D:sample_trace", THIN, {})
F["thin_3d"] = ("verse.plotter.plotter3D_new:sample_trace", THIN, {})


def n02(ctx):
    check(ctx, "pairs-of-bounds-are-kept", ("thin_2d",), ("thin_3d",))


RULES = {"N02": n02}
