"""Reachable-set plumbing: merging, partitioning, dispatch."""
from vf.terms import *
from vf import slices
from .common import check

V = "verse.analysis.verifier:"
INC = "verse.analysis.incremental:"

HULL2 = """
def ref(trace):
    return [np.min(trace[::2], 0), np.max(trace[1::2], 0)]
"""

UNION = """
def ref(traces, reachability_method):
    if not traces:
        return []
    out = []
    for i in range(0, len(traces[0]), 2):
        out.append(np.min([t[i] for t in traces], axis=0))
        out.append(np.max([t[i + 1] for t in traces], axis=0))
    return out
"""

def a01(ctx):
    ctx.same("merge-is-hull", V + "combine_rect", HULL2)
    ctx.same("merge-is-hull", V + "Verifier._union_traces", UNION)
    check(ctx, "tubes-of-all-boxes-merged", ("tube",), ("tube_cache",), ("combine_all",), ("part_trace",))


RULES = {"A01": a01}
