"""Rules for the analysis tree."""
from . import refs_tree
from .common import *

refs("verse.analysis.analysis_tree:", {
    "node_init": ("AnalysisTreeNode.__init__", "NODE_INIT"),
    "root": ("AnalysisTreeNode.root_from_inits", "ROOT"),
    "child": ("AnalysisTreeNode.new_child", "CHILD"),
    "to_dict": ("AnalysisTreeNode._to_dict", "TO_DICT"),
    "from_dict": ("AnalysisTreeNode._from_dict", "FROM_DICT"),
    "type_str": ("AnalysisTreeNodeType.__str__", "TYPE_STR"),
    "type_from": ("AnalysisTreeNodeType._from_str", "TYPE_FROM"),
    "all_nodes": ("AnalysisTree._get_all_nodes", "ALL_NODES"),
    "dump": ("AnalysisTree.dump", "DUMP"),
    "load": ("AnalysisTree.load", "LOAD"),
    "tree_init": ("AnalysisTree.__init__", "TREE_INIT"),
    "track": ("AnalysisTreeNode.get_track", "TRACK"),
    "mode": ("AnalysisTreeNode.get_mode", "MODE"),
    "index_of": ("index_of", "INDEX_OF"),
    "leaves": ("AnalysisTree.leaves", "LEAVES"),
    "collect": ("AnalysisTree.collect_leaf_nodes", "COLLECT"),
    "leaf_nodes": ("AnalysisTree.get_leaf_nodes", "LEAF_NODES"),
    "height": ("AnalysisTree.height", "HEIGHT"),
    "first": ("first_transitions", "FIRST"),
    "equal": ("AnalysisTree.is_equal", "EQUAL"),
    "contains": ("AnalysisTree.contains", "CONTAINS"),
}, vars(refs_tree))


def g01(ctx):
    check(ctx, "fields-written", ("to_dict",), ("type_str",), ("dump",))
    check(ctx, "fields-read-back", ("from_dict",), ("type_from",), ("load",), ("node_init",))
    check(ctx, "every-node-listed", ("all_nodes",), ("tree_init",))


def g02(ctx):
    check(ctx, "every-node-listed", ("all_nodes",), ("tree_init",))
    check(ctx, "leaves", ("leaves",), ("collect",), ("leaf_nodes",))
    check(ctx, "height", ("height",), ("child",), ("root",), ("node_init",))


def g03(ctx):
    check(ctx, "equality", ("equal",))
    check(ctx, "containment", ("contains",), ("first",), ("index_of",))


RULES = {"G01": g01, "G02": g02, "G03": g03}
