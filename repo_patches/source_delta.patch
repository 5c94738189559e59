From 8f5cbb15cc308a6985e9e0661fd120f0224688c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 01/43] fix: report assertion hits found by a remote simulation
 step

simulate_one runs on a copy of the node when ray is used (the default), so
the assert_hits it stored were lost: a simulation that hit an assertion came
back with an empty assert_hits. Return them with the rest of the result, as
the verifier does.
---
 verse/analysis/simulator.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 4c9f185..003bc15 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -252,6 +252,7 @@ class Simulator:
                 later,
                 [], 
                 node.trace,
+                asserts,
                 cache_updates
             )
 
@@ -267,7 +268,7 @@ class Simulator:
                 node.trace[agent_idx] = node.trace[agent_idx][: transition_idx + 1]
 
         if asserts != None:  # FIXME
-            return (node.id, later, [], node.trace, cache_updates)
+            return (node.id, later, [], node.trace, asserts, cache_updates)
             # print(transition_idx)
             # pp({a: len(t) for a, t in node.trace.items()})
         else:
@@ -288,7 +289,7 @@ class Simulator:
                         )
                 # print(red("no trans"))
                 # print(f"node {node.id} dur {timeit.default_timer() - t}")
-                return (node.id, later, [], node.trace, cache_updates)
+                return (node.id, later, [], node.trace, asserts, cache_updates)
 
             transit_agents = transitions.keys()
             # pp(("transit agents", transit_agents))
@@ -347,14 +348,15 @@ class Simulator:
                 next_nodes.append(tmp)
             # print(len(next_nodes))
             # print(f"node {node.id} dur {timeit.default_timer() - t}")
-            return (node.id, later, next_nodes, node.trace, cache_updates)
+            return (node.id, later, next_nodes, node.trace, asserts, cache_updates)
 
-    def proc_result(self, id, later, next_nodes, traces, cache_updates):
+    def proc_result(self, id, later, next_nodes, traces, assert_hits, cache_updates):
         t = timeit.default_timer()
         # print("got id:", id)
         done_node = self.nodes[id]
         done_node.child = next_nodes
         done_node.trace = traces
+        done_node.assert_hits = assert_hits
         last_id = self.nodes[-1].id
         # assert max(n.id for n in self.nodes) == last_id
         for i, node in enumerate(next_nodes):
@@ -489,8 +491,8 @@ class Simulator:
                 break
             if wait:
                 [res], remaining = ray.wait(self.result_refs)
-                id, later, next_nodes, traces, cache_updates = ray.get(res)
-                self.proc_result(id, later, next_nodes, traces, cache_updates)
+                id, later, next_nodes, traces, assert_hits, cache_updates = ray.get(res)
+                self.proc_result(id, later, next_nodes, traces, assert_hits, cache_updates)
                 self.result_refs = remaining
         # print("cached", self.num_cached)
         # pp(self.cache.get_cached_inits(3))
-- 
2.43.0


From 177cee6011a5dadc93903d8543bd0b22d721d9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 02/43] fix: keep exploring after an assertion hit when
 unsafe_continue is set in verify

get_transition_verify_opt returned at the first hit with no transitions at
all, and the caller, told to continue, then crashed on iterating over None.
Collect the hits of every segment and still compute the transitions.
---
 verse/analysis/verifier.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 09ebcbc..7f26a51 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1061,6 +1061,7 @@ class Verifier:
             reduction_queue.reverse()
         # for idx, end_idx,combine_len in reduction_queue:
         hits = []
+        all_asserts = defaultdict(list)
         while reduction_queue:
             idx, end_idx, combine_len = reduction_queue.pop()
             reduction_needed = False
@@ -1092,7 +1093,7 @@ class Verifier:
                     guard_hit = True
                     break
                 else:
-                    return None, cached_trans
+                    return (dict(all_asserts) or None), cached_trans
             hits = []
 
             asserts = defaultdict(list)
@@ -1140,7 +1141,7 @@ class Verifier:
                                 break
                 if reduction_needed:
                     break
-                if agent_id in asserts:
+                if agent_id in asserts and not config.unsafe_continue:
                     continue
                 if agent_id not in agent_guard_dict:
                     continue
@@ -1204,8 +1205,10 @@ class Verifier:
 
             if reduction_needed or combine_len > 1:
                 continue
-            if len(asserts) > 0:
+            if len(asserts) > 0 and not config.unsafe_continue:
                 return (asserts, idx), None
+            for agent_id, labels in asserts.items():
+                all_asserts[agent_id].extend(l for l in labels if l not in all_asserts[agent_id])
             if hits != []:
                 guard_hits.append((hits, state_dict, idx))
                 guard_hit = True
@@ -1275,7 +1278,7 @@ class Verifier:
                         possible_transitions.append(transition)
                         # print(transition[4])
         # Return result
-        return None, possible_transitions + cached_trans
+        return (dict(all_asserts) or None), possible_transitions + cached_trans
 
     @staticmethod
     def apply_cont_var_updater(cont_var_dict, updater):
-- 
2.43.0


From afe48c84dc1b03c3b09b6692f751a0717ce61509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 03/43] fix: keep simulating past a step where the map forbids
 every satisfied transition

get_transition_simulate stopped scanning the trace at the first step with a
satisfied guard even when the map rejected all of its transitions, so later
transitions and assertion hits of the same node were never seen.
---
 verse/analysis/simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 003bc15..92b1aae 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -772,7 +772,8 @@ class Simulator:
                             print("cond_veri", unparse(paths[0].cond_veri))
                             print("val_veri", unparse(paths[0].val_veri))
                         transitions[agent_idx].append((agent_idx, dest, next_init, paths))
-                break
+                if transitions:
+                    break
         transitions = {aid: dedup(v, lambda p: p[1]) for aid, v in transitions.items()}
         return None, transitions, idx
 
-- 
2.43.0


From f2789d91d7cd3f345b82d328ffb4e05ea8937666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 04/43] fix: check assertions of agents whose decision logic
 has no transitions

Both simulators only visited agents that have at least one mode or reset
path, so an agent whose decision logic only asserts was never checked,
unlike in verify.
---
 verse/analysis/simulator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 92b1aae..38a25a0 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -717,8 +717,10 @@ class Simulator:
                 return None, dict(cached_trans), min_trans_ind
             satisfied_guard = []
             all_asserts = defaultdict(list)
-            for agent_id in agent_guard_dict:
+            for agent_id in node.agent:
                 agent: BaseAgent = agent_dict[agent_id]
+                if len(agent.decision_logic.args) == 0:
+                    continue
                 state_dict = {
                     aid: (node.trace[aid][idx], node.mode[aid], node.static[aid])
                     for aid in node.agent
@@ -813,10 +815,12 @@ class Simulator:
             }
             satisfied_guard = []
             all_asserts = defaultdict(list)
-            for agent_id in agent_guard_dict:
+            for agent_id in node.agent:
                 # Get agent controller
                 # Reference: https://stackoverflow.com/questions/55905240/python-dynamically-import-modules-code-from-string-with-importlib
                 agent: BaseAgent = node.agent[agent_id]
+                if len(agent.decision_logic.args) == 0:
+                    continue
                 dl = types.ModuleType("dl")
                 exec(agent.decision_logic.controller_code, dl.__dict__)
 
-- 
2.43.0


From 06e217471820ad927acb56ba6787316741f5a7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 05/43] fix: keep simulated transitions to one mode that differ
 in their continuous reset

Transitions of a step were deduplicated by destination mode alone, so of two
enabled resets into the same mode only the first one got a child.
---
 verse/analysis/simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 38a25a0..e32794b 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -776,7 +776,9 @@ class Simulator:
                         transitions[agent_idx].append((agent_idx, dest, next_init, paths))
                 if transitions:
                     break
-        transitions = {aid: dedup(v, lambda p: p[1]) for aid, v in transitions.items()}
+        transitions = {
+            aid: dedup(v, lambda p: (p[1], list(p[2]))) for aid, v in transitions.items()
+        }
         return None, transitions, idx
 
     @staticmethod
-- 
2.43.0


From c48127722f9f5fa0509c8fb897a988890adfd23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 06/43] fix: check an assertion wherever its precondition can
 hold, not only where it must

verify skipped an assertion unless the whole set satisfied its precondition,
so a violation by the part of the set that does was not reported. Check that
the set satisfies precondition => condition instead.
---
 verse/analysis/verifier.py | 45 +++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 7f26a51..0bab9fd 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1109,7 +1109,7 @@ class Verifier:
                 for i, a in enumerate(agent.decision_logic.asserts_veri):
                     pre_expr = a.pre
 
-                    def eval_expr(expr):
+                    def eval_expr(expr, whole=True):
                         ge = GuardExpressionAst([copy.deepcopy(expr)])
                         cont_var_updater = ge.parse_any_all_new(cont_vars, disc_vars, len_dict)
                         Verifier.apply_cont_var_updater(cont_vars, cont_var_updater)
@@ -1118,27 +1118,32 @@ class Verifier:
                             sat = ge.evaluate_guard_hybrid(agent, disc_vars, cont_vars, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS)
                             if sat:
                                 sat, contained = ge.evaluate_guard_cont(agent, cont_vars, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS)
-                                sat = sat and contained
+                                sat = sat and (contained or not whole)
                         return sat
 
-                    if eval_expr(pre_expr):
-                        if not eval_expr(a.cond):
-                            if combine_len == 1:
-                                label = a.label if a.label != None else f"<assert {i}>"
-                                if config.print_level >= 1:
-                                    print(f'assert hit for {agent_id}: "{label}"')
-                                    print("index", idx)
-                                    print("start_time", node.start_time)
-                                asserts[agent_id].append(label)
-                            else:
-                                new_len = int(np.ceil(combine_len / reduction_rate))
-                                next_list = [
-                                    (i, min(i + new_len, end_idx), new_len)
-                                    for i in range(idx, end_idx, new_len)
-                                ]
-                                reduction_queue.extend(next_list[::-1])
-                                reduction_needed = True
-                                break
+                    # the assertion holds on the whole set if each state in it that meets the
+                    # precondition also meets the condition
+                    implication = ast.BoolOp(
+                        op=ast.Or(),
+                        values=[ast.UnaryOp(op=ast.Not(), operand=pre_expr), a.cond],
+                    )
+                    if eval_expr(pre_expr, whole=False) and not eval_expr(implication):
+                        if combine_len == 1:
+                            label = a.label if a.label != None else f"<assert {i}>"
+                            if config.print_level >= 1:
+                                print(f'assert hit for {agent_id}: "{label}"')
+                                print("index", idx)
+                                print("start_time", node.start_time)
+                            asserts[agent_id].append(label)
+                        else:
+                            new_len = int(np.ceil(combine_len / reduction_rate))
+                            next_list = [
+                                (i, min(i + new_len, end_idx), new_len)
+                                for i in range(idx, end_idx, new_len)
+                            ]
+                            reduction_queue.extend(next_list[::-1])
+                            reduction_needed = True
+                            break
                 if reduction_needed:
                     break
                 if agent_id in asserts and not config.unsafe_continue:
-- 
2.43.0


From acadfcb7ce3560d079fddea460aec8b854c6a51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 07/43] fix: partition the whole hitting set in
 verify_partitioned

A transition that stays enabled over several segments was re-evaluated on
the first of them only, so states that enter the guard later were missing
from the initial set of the child.
---
 verse/analysis/verifier.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 0bab9fd..06c8ae1 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1696,11 +1696,10 @@ class Verifier:
             for transition in all_possible_transitions:
                 transit_agent_idx, src_mode, dest_mode, next_init, idx, path = transition
 
-                # NOTE: is this correct, or do I need indices from start to end as well 
-                start_idx = idx[0]  # Use start_idx as the hitting index, end_idx = idx[1] exists sometimes
+                start_idx, end_idx = idx[0], idx[-1]
                 
-                # Get the hitting set at start_idx
-                hitting_rect = combine_rect([node.trace[transit_agent_idx][start_idx * 2], node.trace[transit_agent_idx][start_idx * 2 + 1]])
+                # Get the hitting set: the transition can happen anywhere from start_idx to end_idx
+                hitting_rect = combine_rect(node.trace[transit_agent_idx][start_idx * 2 : (end_idx + 1) * 2])
                 
                 # Partition the hitting rect -- NOTE: fixing partitioning of time (0th dim always) and adding option to only partition a select number of partitions 
                 partitions = Verifier._partition_rect(hitting_rect, n, partition_dims)
@@ -1710,7 +1709,7 @@ class Verifier:
                 for part in partitions:
                     # Update state_dict with the partition for transit_agent_idx
                     state_dict = {
-                        aid: (node.trace[aid][start_idx * 2 : start_idx * 2 + 2], node.mode[aid], node.static.get(aid, []))
+                        aid: (combine_rect(node.trace[aid][start_idx * 2 : (end_idx + 1) * 2]), node.mode[aid], node.static.get(aid, []))
                         for aid in node.agent
                     }
                     state_dict[transit_agent_idx] = ([part[0], part[1]], node.mode[transit_agent_idx], node.static.get(transit_agent_idx, []))
-- 
2.43.0


From 37b37db89cadbe22ff1bb98545d81660971dff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 08/43] fix: take initial conditions set on the agents in
 verify and verify_partitioned

---
 verse/scenario/scenario.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verse/scenario/scenario.py b/verse/scenario/scenario.py
index 69e4cdb..ff7ceb1 100644
--- a/verse/scenario/scenario.py
+++ b/verse/scenario/scenario.py
@@ -337,6 +337,7 @@ class Scenario:
     def verify(self, time_horizon, time_step, max_height=None, params={}) -> AnalysisTree:
         '''Compute the set of reachable states, starting from a set of initial states states.'''
         _check_ray_init(self.config.parallel)
+        self._get_init_from_agent()
         self._check_init()
         root = AnalysisTreeNode.root_from_inits(
             init={
@@ -384,6 +385,7 @@ class Scenario:
         :return: AnalysisTree with branching preserved.
         '''
         _check_ray_init(self.config.parallel)
+        self._get_init_from_agent()
         self._check_init()
         root = AnalysisTreeNode.root_from_inits(
             init={
-- 
2.43.0


From 5cc54ed273c97a0c7fe526e50316b3c77e94d459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:25 +0000
Subject: [PATCH 09/43] fix: compare simulation trees as simulations

---
 verse/analysis/analysis_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index 41e5fa7..0216e2f 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -335,7 +335,7 @@ class AnalysisTree:
             or (not strict and cur_agents.issuperset(other_agents))
         ):
             return False
-        if types[0] == "simtrace":  # Simulation
+        if types[0] == AnalysisTreeNodeType.SIM_TRACE:  # Simulation
             if len(self.nodes) != len(other.nodes):
                 return False
 
-- 
2.43.0


From 5b27e3ed424809e95dfd5a576f926acf5af5f83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:01 +0000
Subject: [PATCH 10/43] fix: keep a snapshot of the agents in each analysis
 tree so incremental runs see changed decision logic

---
 verse/analysis/analysis_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index 0216e2f..e520db5 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -1,3 +1,4 @@
+from copy import copy
 from enum import Enum, auto
 from functools import reduce
 from typing import Any, Iterable, List, Dict, Optional, Sequence, TypeVar, Literal
@@ -134,7 +135,7 @@ class AnalysisTreeNode:
             mode=mode,
             static=static,
             uncertain_param=uncertain_param,
-            agent=agent,
+            agent={aid: copy(a) for aid, a in agent.items()},
             ndigits=ndigits,
             type=type,
             trace={},
-- 
2.43.0


From 0c36e839c475ff0681d72a39d0ab7f9b06d91ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:01 +0000
Subject: [PATCH 11/43] fix: accept decision logic with additional paths in
 incremental runs

---
 verse/analysis/incremental.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verse/analysis/incremental.py b/verse/analysis/incremental.py
index 46a18b7..af3c4ac 100644
--- a/verse/analysis/incremental.py
+++ b/verse/analysis/incremental.py
@@ -80,6 +80,8 @@ def to_simulate(
             for i, (old, new) in enumerate(itertools.zip_longest(old_paths, new_paths)):
                 if new == None:
                     removed_paths.append(old)
+                elif old == None:
+                    added_paths.append(new)
                 elif not ControllerIR.ir_eq(old.cond_veri, new.cond_veri):
                     removed_paths.append(old)
                     added_paths.append(new)
-- 
2.43.0


From ab798008b74c0b4fe9640f79fc87247cf8af6d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 12/43] fix: check added paths on cached segments that had no
 transitions

---
 verse/analysis/incremental.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/verse/analysis/incremental.py b/verse/analysis/incremental.py
index af3c4ac..1883e12 100644
--- a/verse/analysis/incremental.py
+++ b/verse/analysis/incremental.py
@@ -57,9 +57,6 @@ def to_simulate(
     new_cache = {}
     total_added_paths = []
     for agent_id, segment in cached.items():
-        if not segment.transitions:
-            new_cache[agent_id] = segment
-            continue
         segment = copy.deepcopy(segment)
         removed_paths, added_paths, reset_changed_paths = [], [], []
         old_agent, new_agent = old_agents[agent_id], new_agents[agent_id]
-- 
2.43.0


From 93f032947bd0cde21009e9651d5eb4db503889ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 13/43] fix: recheck all paths of an agent whose cached
 transitions are outdated

---
 verse/analysis/incremental.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/verse/analysis/incremental.py b/verse/analysis/incremental.py
index 1883e12..d665b94 100644
--- a/verse/analysis/incremental.py
+++ b/verse/analysis/incremental.py
@@ -84,16 +84,18 @@ def to_simulate(
                     added_paths.append(new)
                 elif not ControllerIR.ir_eq(old.val_veri, new.val_veri):
                     reset_changed_paths.append(new)
-        removed = False
-        for trans in segment.transitions:
-            for path in trans.paths:
-                removed = removed or (path in removed_paths)
-                for rcp in reset_changed_paths:
-                    if path.cond == rcp.cond:
-                        path.val = rcp.val
-        if not removed:
+        changed_conds = [p.cond for p in reset_changed_paths]
+        outdated = any(
+            path in removed_paths or path.cond in changed_conds
+            for trans in segment.transitions
+            for path in trans.paths
+        )
+        if outdated:
+            # the cached transitions can't be reused, check everything for this agent again
+            total_added_paths.extend((new_agent, p) for p in new_ctlr.paths)
+        else:
             new_cache[agent_id] = segment
-        total_added_paths.extend((new_agent, p) for p in added_paths)
+            total_added_paths.extend((new_agent, p) for p in added_paths)
     return new_cache, total_added_paths
 
 
-- 
2.43.0


From ca653a3e45143171001fc34dd6c37024f870971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:35 +0000
Subject: [PATCH 14/43] fix: pick the lane segment nearest to the position on
 either side

---
 verse/map/lane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/map/lane.py b/verse/map/lane.py
index 226b253..63b6a86 100644
--- a/verse/map/lane.py
+++ b/verse/map/lane.py
@@ -29,10 +29,10 @@ class Lane:
             logitudinal, lateral = segment.local_coordinates(position)
             is_on = 0 - Lane.COMPENSATE <= logitudinal < segment.length
             if is_on:
-                if lateral < min_lateral:
+                if abs(lateral) < min_lateral:
                     idx = seg_idx
                     seg = segment
-                    min_lateral = lateral
+                    min_lateral = abs(lateral)
         return idx, seg
 
     def get_heading(self, position: np.ndarray) -> float:
-- 
2.43.0


From ed80ac392711643a287886859e4f01a808ebfcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:35 +0000
Subject: [PATCH 15/43] fix: write every required constructor argument into a
 lane's configuration

---
 verse/map/lane_segment.py    | 2 ++
 verse/map/lane_segment_3d.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/verse/map/lane_segment.py b/verse/map/lane_segment.py
index 3c3f679..5a7ab69 100644
--- a/verse/map/lane_segment.py
+++ b/verse/map/lane_segment.py
@@ -218,6 +218,7 @@ class StraightLane(AbstractLane):
         return {
             "class_path": get_class_path(self.__class__),
             "config": {
+                "id": self.id,
                 "start": to_serializable(self.start),
                 "end": to_serializable(self.end),
                 "width": self.width,
@@ -295,6 +296,7 @@ class CircularLane(AbstractLane):
         return {
             "class_path": get_class_path(self.__class__),
             "config": {
+                "id": self.id,
                 "center": to_serializable(self.center),
                 "radius": self.radius,
                 "start_phase": self.start_phase,
diff --git a/verse/map/lane_segment_3d.py b/verse/map/lane_segment_3d.py
index 0f43223..405fc39 100644
--- a/verse/map/lane_segment_3d.py
+++ b/verse/map/lane_segment_3d.py
@@ -279,6 +279,7 @@ class StraightLane_3d(AbstractLane_3d):
         return {
             "class_path": get_class_path(self.__class__),
             "config": {
+                "id": self.id,
                 "start": to_serializable(self.start),
                 "end": to_serializable(self.end),
                 "width": self.width,
@@ -476,8 +477,10 @@ class CircularLane_3d_v1(AbstractLane_3d):
         return {
             "class_path": get_class_path(self.__class__),
             "config": {
+                "id": self.id,
                 "center": to_serializable(self.center),
                 "radius": self.radius,
+                "norm_vec": to_serializable(self.norm_vec),
                 "start_phase": self.start_phase,
                 "end_phase": self.end_phase,
                 "right_rotate": self.right_rotate,
-- 
2.43.0


From 52d9405298f754484bc93fbeb0c863cae7474b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:05 +0000
Subject: [PATCH 16/43] fix: 3D arcs given by their end points sweep the
 requested angle

---
 verse/map/lane_segment_3d.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/verse/map/lane_segment_3d.py b/verse/map/lane_segment_3d.py
index 405fc39..e846c1f 100644
--- a/verse/map/lane_segment_3d.py
+++ b/verse/map/lane_segment_3d.py
@@ -508,6 +508,7 @@ class CircularLane_3d_v2(CircularLane_3d_v1):
         speed_limit: float = 20,
         priority: int = 0,
     ) -> None:
+        norm_vec = np.array(norm_vec) / np.linalg.norm(norm_vec)
         center, radius = get_center_radius(start, end, norm_vec, delta_phase, right_rotate)
         start_phase = get_theta_by_coor(start, norm_vec, center, radius, right_rotate)
         end_phase = get_theta_by_coor(end, norm_vec, center, radius, right_rotate)
@@ -625,17 +626,9 @@ def func_b(n):
 def get_center_radius(start, end, n, phase, right_rotate=True):
     n, end, start = np.array(n), np.array(end), np.array(start)
     assert 2 * pi > phase > 0 and np.any(start != end)
-    if right_rotate:
-        l_n = np.cross(n, start - end)
-    else:
-        l_n = np.cross(n, end - start)
+    l_n = np.cross(n, end - start)
     l_n = l_n / np.linalg.norm(l_n)
     mid = (end + start) / 2
     l = np.linalg.norm(end - start) / 2
-    if phase > pi:
-        theta = (phase - pi) / 2
-    elif phase < pi:
-        theta = phase / 2
-    else:
-        return mid, l / 2
+    theta = phase / 2
     return mid + l / tan(theta) * l_n, l / sin(theta)
-- 
2.43.0


From a6030955717df2c4fbf653463776c78208224145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:21 +0000
Subject: [PATCH 17/43] fix: 3D lanes unpack all three local coordinates

---
 verse/map/lane_segment_3d.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/verse/map/lane_segment_3d.py b/verse/map/lane_segment_3d.py
index e846c1f..f45e3bc 100644
--- a/verse/map/lane_segment_3d.py
+++ b/verse/map/lane_segment_3d.py
@@ -124,7 +124,7 @@ class AbstractLane_3d(object):
         :return: is the position on the lane?
         """
         if longitudinal is None or lateral is None:
-            longitudinal, lateral = self.local_coordinates(position)
+            longitudinal, lateral, _ = self.local_coordinates(position)
         is_on = (
             np.abs(lateral) <= self.width_at(longitudinal) / 2 + margin
             and -self.VEHICLE_LENGTH <= longitudinal < self.length + self.VEHICLE_LENGTH
@@ -140,7 +140,7 @@ class AbstractLane_3d(object):
         """
         if self.forbidden:
             return False
-        longitudinal, lateral = self.local_coordinates(position)
+        longitudinal, lateral, _ = self.local_coordinates(position)
         is_close = (
             np.abs(lateral) <= 2 * self.width_at(longitudinal)
             and 0 <= longitudinal < self.length + self.VEHICLE_LENGTH
@@ -151,12 +151,12 @@ class AbstractLane_3d(object):
         self, position: np.ndarray, longitudinal: float = None, lateral: float = None
     ) -> bool:
         if not longitudinal:
-            longitudinal, _ = self.local_coordinates(position)
+            longitudinal, _, _ = self.local_coordinates(position)
         return longitudinal > self.length - self.VEHICLE_LENGTH / 2
 
     def distance(self, position: np.ndarray):
         """Compute the L1 distance [m] from a position to the lane."""
-        s, r = self.local_coordinates(position)
+        s, r, _ = self.local_coordinates(position)
         return abs(r) + max(s - self.length, 0) + max(0 - s, 0)
 
     def distance_with_heading(
@@ -165,7 +165,7 @@ class AbstractLane_3d(object):
         """Compute a weighted distance in position and heading to the lane."""
         if heading is None:
             return self.distance(position)
-        s, r = self.local_coordinates(position)
+        s, r, _ = self.local_coordinates(position)
         angle = np.abs(wrap_to_pi(heading - self.heading_at(s)))
         return abs(r) + max(s - self.length, 0) + max(0 - s, 0) + heading_weight * angle
 
-- 
2.43.0


From b23a52a86b69a429712208f9534812510a205da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:55 +0000
Subject: [PATCH 18/43] fix: widen a copy of a tube when segments are merged,
 not the tube kept in the cache

---
 verse/analysis/verifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 06c8ae1..1853995 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -280,7 +280,7 @@ class Verifier:
                 continue
             # FIXME
             if res_tube is None:
-                res_tube = cur_bloated_tube
+                res_tube = np.array(cur_bloated_tube)
                 tube_length = cur_bloated_tube.shape[0]
             else:
                 cur_bloated_tube = cur_bloated_tube[: tube_length - combine_seg_idx * 2, :]
@@ -360,7 +360,7 @@ class Verifier:
             if incremental:
                 cache_tube_updates.append((agent_id, mode_label, combined_rect, cur_bloated_tube))
             if res_tube is None:
-                res_tube = cur_bloated_tube
+                res_tube = np.array(cur_bloated_tube)
                 tube_length = cur_bloated_tube.shape[0]
             else:
                 if tube_length <= 2 * combine_seg_idx:
-- 
2.43.0


From 61d636218e8f53cf6a9e0798712b1a4f540e96c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 19/43] fix: plots thin out a copy of the tree instead of the
 tree that was passed in

---
 verse/plotter/plotter2D.py     | 6 ++++++
 verse/plotter/plotter3D_new.py | 7 +++++++
 verse/plotter/plotterStar.py   | 6 ++++++
 3 files changed, 19 insertions(+)

diff --git a/verse/plotter/plotter2D.py b/verse/plotter/plotter2D.py
index 7b57484..95092f5 100644
--- a/verse/plotter/plotter2D.py
+++ b/verse/plotter/plotter2D.py
@@ -2364,12 +2364,16 @@ def get_text_pos(veh_mode):
 
 
 def sample_trace(root, sample_rate: int = 1):
+    # the nodes shown are copies: the tree that was passed in keeps its traces
+    root = copy.copy(root)
     queue = [root]
     # print(root.trace)
     if root.type == "reachtube":
         sample_rate = sample_rate * 2
         while queue != []:
             node = queue.pop()
+            node.trace = dict(node.trace)
+            node.child = [copy.copy(c) for c in node.child]
             for agent_id in node.trace:
                 trace_length = len(node.trace[agent_id])
                 tmp = []
@@ -2382,6 +2386,8 @@ def sample_trace(root, sample_rate: int = 1):
     else:
         while queue != []:
             node: AnalysisTreeNode = queue.pop()
+            node.trace = dict(node.trace)
+            node.child = [copy.copy(c) for c in node.child]
             for agent_id in node.trace:
                 node.trace[agent_id] = [
                     node.trace[agent_id][i]
diff --git a/verse/plotter/plotter3D_new.py b/verse/plotter/plotter3D_new.py
index d3be486..d69a256 100644
--- a/verse/plotter/plotter3D_new.py
+++ b/verse/plotter/plotter3D_new.py
@@ -1,3 +1,4 @@
+import copy
 import plotly.graph_objects as go
 import numpy as np
 from typing import List, Tuple, Union
@@ -477,12 +478,16 @@ def check_dim(num_dim: int, x_dim: int = 1, y_dim: int = 2, z_dim: int = 3, prin
 
 
 def sample_trace(root, sample_rate: int = 1):
+    # the nodes shown are copies: the tree that was passed in keeps its traces
+    root = copy.copy(root)
     queue = [root]
     # print(root.trace)
     if root.type == "reachtube":
         sample_rate = sample_rate * 2
         while queue != []:
             node = queue.pop()
+            node.trace = dict(node.trace)
+            node.child = [copy.copy(c) for c in node.child]
             for agent_id in node.trace:
                 trace_length = len(node.trace[agent_id])
                 tmp = []
@@ -495,6 +500,8 @@ def sample_trace(root, sample_rate: int = 1):
     else:
         while queue != []:
             node = queue.pop()
+            node.trace = dict(node.trace)
+            node.child = [copy.copy(c) for c in node.child]
             for agent_id in node.trace:
                 node.trace[agent_id] = [
                     node.trace[agent_id][i]
diff --git a/verse/plotter/plotterStar.py b/verse/plotter/plotterStar.py
index d163885..6d07cbc 100644
--- a/verse/plotter/plotterStar.py
+++ b/verse/plotter/plotterStar.py
@@ -78,12 +78,16 @@ def reachtube_tree_single(root,agent_id,x_dim,y_dim, color):
 
 
 def sample_trace(root, sample_rate: int = 1):
+    # the nodes shown are copies: the tree that was passed in keeps its traces
+    root = copy.copy(root)
     queue = [root]
     # print(root.trace)
     if root.type == "reachtube":
         sample_rate = sample_rate * 2
         while queue != []:
             node = queue.pop()
+            node.trace = dict(node.trace)
+            node.child = [copy.copy(c) for c in node.child]
             for agent_id in node.trace:
                 trace_length = len(node.trace[agent_id])
                 tmp = []
@@ -96,6 +100,8 @@ def sample_trace(root, sample_rate: int = 1):
     else:
         while queue != []:
             node: AnalysisTreeNode = queue.pop()
+            node.trace = dict(node.trace)
+            node.child = [copy.copy(c) for c in node.child]
             for agent_id in node.trace:
                 node.trace[agent_id] = [
                     node.trace[agent_id][i]
-- 
2.43.0


From 2adaa52934d3b2dc7e0180da33b28f409f192ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 20/43] fix: thinning a reach tube for plotting keeps pairs of
 lower and upper bounds

---
 verse/plotter/plotter2D.py     | 4 ++--
 verse/plotter/plotter3D_new.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/verse/plotter/plotter2D.py b/verse/plotter/plotter2D.py
index 95092f5..10b1869 100644
--- a/verse/plotter/plotter2D.py
+++ b/verse/plotter/plotter2D.py
@@ -10,7 +10,7 @@ import plotly.graph_objects as go
 from typing import List, Tuple, Union
 import numbers
 from plotly.graph_objs.scatter import Marker
-from verse.analysis.analysis_tree import AnalysisTree, AnalysisTreeNode
+from verse.analysis.analysis_tree import AnalysisTree, AnalysisTreeNode, AnalysisTreeNodeType
 from verse.map.lane_map import LaneMap
 import os
 
@@ -2368,7 +2368,7 @@ def sample_trace(root, sample_rate: int = 1):
     root = copy.copy(root)
     queue = [root]
     # print(root.trace)
-    if root.type == "reachtube":
+    if root.type == AnalysisTreeNodeType.REACH_TUBE:
         sample_rate = sample_rate * 2
         while queue != []:
             node = queue.pop()
diff --git a/verse/plotter/plotter3D_new.py b/verse/plotter/plotter3D_new.py
index d69a256..bc31cd1 100644
--- a/verse/plotter/plotter3D_new.py
+++ b/verse/plotter/plotter3D_new.py
@@ -14,7 +14,7 @@ from matplotlib.animation import FuncAnimation
 import math
 
 # import time
-from verse.analysis.analysis_tree import AnalysisTree, AnalysisTreeNode
+from verse.analysis.analysis_tree import AnalysisTree, AnalysisTreeNode, AnalysisTreeNodeType
 from verse.map.lane_map_3d import LaneMap_3d
 from verse.map.lane_segment_3d import StraightLane_3d, CircularLane_3d_v1
 
@@ -482,7 +482,7 @@ def sample_trace(root, sample_rate: int = 1):
     root = copy.copy(root)
     queue = [root]
     # print(root.trace)
-    if root.type == "reachtube":
+    if root.type == AnalysisTreeNodeType.REACH_TUBE:
         sample_rate = sample_rate * 2
         while queue != []:
             node = queue.pop()
-- 
2.43.0


From 098a58c99aca84825017cc8c58f239bcd6c27d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 21/43] fix: a tree keeps the uncertain parameters it was
 computed with

---
 verse/analysis/analysis_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index e520db5..340c1b5 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -134,7 +134,7 @@ class AnalysisTreeNode:
             init=init,
             mode=mode,
             static=static,
-            uncertain_param=uncertain_param,
+            uncertain_param=copy(uncertain_param),
             agent={aid: copy(a) for aid, a in agent.items()},
             ndigits=ndigits,
             type=type,
-- 
2.43.0


From 8b0d374bc587fead4301672c3c1bb1dbd0201971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 22/43] fix: a guard the solver cannot decide counts as
 possible in verification

---
 verse/automaton/guard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/automaton/guard.py b/verse/automaton/guard.py
index 953eee8..c8d534f 100644
--- a/verse/automaton/guard.py
+++ b/verse/automaton/guard.py
@@ -210,7 +210,7 @@ class GuardExpressionAst:
             #guard \cap hyperrectangle =/= empty set
             # if false, then they are disjoint
             #breakpoint()
-            if cur_solver.check() == sat: #checking intersection with guard
+            if cur_solver.check() != unsat: #checking intersection with guard
                 # The reachtube hits the guard
                 # remove hyperrectangle
                 cur_solver.pop()
@@ -233,7 +233,7 @@ class GuardExpressionAst:
             for symbol in symbols:
                 start, end = continuous_variable_dict[symbols[symbol]]
                 cur_solver.add(self.varDict[symbol] >= start, self.varDict[symbol] <= end)
-            if cur_solver.check() == sat:
+            if cur_solver.check() != unsat:
                 # The reachtube hits the guard
                 cur_solver.pop()
                 res = True
-- 
2.43.0


From 012c09af342e77f2469913eb7c8ffb667775eadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 23/43] fix: the interval of positions along an arc covers
 boxes across the 180 degree direction

---
 verse/automaton/guard.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/verse/automaton/guard.py b/verse/automaton/guard.py
index c8d534f..40e2038 100644
--- a/verse/automaton/guard.py
+++ b/verse/automaton/guard.py
@@ -619,25 +619,24 @@ class GuardExpressionAst:
             # Delta upper
             delta1 = position[1, :] - lane_seg.center
 
-            phi0 = np.min(
-                [
-                    np.arctan2(delta0[1], delta0[0]),
-                    np.arctan2(delta0[1], delta1[0]),
-                    np.arctan2(delta1[1], delta0[0]),
-                    np.arctan2(delta1[1], delta1[0]),
-                ]
-            )
-            phi1 = np.max(
-                [
-                    np.arctan2(delta0[1], delta0[0]),
-                    np.arctan2(delta0[1], delta1[0]),
-                    np.arctan2(delta1[1], delta0[0]),
-                    np.arctan2(delta1[1], delta1[0]),
-                ]
+            # angles of the corners relative to the start of the segment
+            phis = wrap_to_pi(
+                np.array(
+                    [
+                        np.arctan2(delta0[1], delta0[0]),
+                        np.arctan2(delta0[1], delta1[0]),
+                        np.arctan2(delta1[1], delta0[0]),
+                        np.arctan2(delta1[1], delta1[0]),
+                    ]
+                )
+                - lane_seg.start_phase
             )
+            if np.max(phis) - np.min(phis) > np.pi:
+                # around the center or across the opposite direction, every angle is possible
+                phis = np.array([-np.pi, np.pi])
 
-            phi0 = lane_seg.start_phase + wrap_to_pi(phi0 - lane_seg.start_phase)
-            phi1 = lane_seg.start_phase + wrap_to_pi(phi1 - lane_seg.start_phase)
+            phi0 = lane_seg.start_phase + np.min(phis)
+            phi1 = lane_seg.start_phase + np.max(phis)
             longitudinal_low = (
                 min(
                     lane_seg.direction * (phi0 - lane_seg.start_phase) * lane_seg.radius,
-- 
2.43.0


From 3c886b919738f8da8d733ac3d9859485070742fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 24/43] fix: names assigned in a function of a decision logic
 are local to it

---
 verse/parser/parser.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index 63be923..dbcd0cf 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -458,10 +458,6 @@ class Env:
         return None
 
     def set(self, key, val):
-        for env in self.scopes:
-            if key in env.v:
-                env.v[key] = val
-                return
         self.scopes[0].v[key] = val
 
     def add_hole(self, name: str, typ: Optional[str]):
-- 
2.43.0


From c0605c82c132d1544389bdace9d22845481edbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 25/43] fix: conditional expressions and filters of reductions
 refer to the names of their scope

---
 verse/parser/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index dbcd0cf..07cd209 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -922,14 +922,15 @@ def proc(node: ast.AST, env: Env) -> Any:
                     raise NotImplementedError(f"Reduction type {op} not supported in cond_trans")
 
             expr = proc(expr, env)
-            expr = cond_trans(expr, ast.BoolOp(ast.And(), ifs)) if len(ifs) > 0 else expr
+            ifs = [proc(i, env) for i in ifs]
+            expr = cond_trans(expr, merge_conds(ifs)) if len(ifs) > 0 else expr
             ret = Reduction(op, expr, target.id, proc(iter, env))
             env.pop()
             return ret
     elif isinstance(node, ast.Return):
         return proc(node.value, env) if node.value != None else None
     elif isinstance(node, ast.IfExp):
-        return node
+        return ast.IfExp(proc(node.test, env), proc(node.body, env), proc(node.orelse, env))
     elif isinstance(node, ast.Expr):
         if isinstance(node.value, ast.Call):
             warnings.warn(
-- 
2.43.0


From dcb7e5fdd2e5073f19be91ac852a96bdc4d7ac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 26/43] fix: a reduction in a function keeps its own variable
 when the function is called

---
 verse/parser/parser.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index 07cd209..a21079d 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -294,6 +294,22 @@ class ArgSubstituter(ast.NodeTransformer):
         self.generic_visit(node)
         return node
 
+    def visit_Reduction(self, node):
+        node.value = self.visit(node.value)
+        inner = {k: v for k, v in self.args.items() if k != node.it}
+        trees = [v for v in inner.values() if isinstance(v, ast.AST)]
+        used = {n.arg for v in trees for n in ast.walk(v) if isinstance(n, ast.arg)}
+        if node.it in used:
+            # the variable of this reduction would capture a variable of the arguments
+            used |= {n.arg for n in ast.walk(node.expr) if isinstance(n, ast.arg)}
+            new = node.it
+            while new in used:
+                new += "_"
+            node.expr = ArgSubstituter({node.it: ast.arg(new, None)}).visit(node.expr)
+            node.it = new
+        node.expr = ArgSubstituter(inner).visit(node.expr)
+        return node
+
 
 @dataclass
 class ModePath:
-- 
2.43.0


From c23d78428ec977fc6bd827621e91511b7617242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 27/43] fix: assigning an undefined name in a decision logic is
 an error

---
 verse/parser/parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index a21079d..30c1801 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -704,12 +704,18 @@ def merge_if_val(
 
 
 def proc_assign(target: ast.AST, val, env: Env):
+    def proc_value(val):
+        res = proc(val, env)
+        if res == None and isinstance(val, ast.Name):
+            raise NameError(f'name "{val.id}" is not defined')
+        return res
+
     def proc_assign_attr(value, attr, val):
         if proc(value, env) == None:
             proc_assign(value, {}, env)
         obj = proc(value, env)
         if isinstance(val, ast.AST):
-            val = proc(val, env)
+            val = proc_value(val)
             if val != None:
                 obj[attr] = val
         else:
@@ -717,7 +723,7 @@ def proc_assign(target: ast.AST, val, env: Env):
 
     if isinstance(target, ast.Name):
         if isinstance(val, ast.AST):
-            val = proc(val, env)
+            val = proc_value(val)
             if val != None:
                 if isinstance(val, ast.arg):
                     assert isinstance(val.annotation, ast.Constant)
-- 
2.43.0


From 7be2d35c4e15c06558fca761cf0bb3566ba0d843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 28/43] fix: a return before the end of a function of a
 decision logic is not ignored

---
 verse/parser/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index 30c1801..af3afd9 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -247,6 +247,8 @@ class Lambda:
         if isinstance(tree, ast.FunctionDef):
             for node in tree.body:
                 ret = proc(node, env)
+                if isinstance(node, ast.Return):
+                    break
         elif isinstance(tree, ast.Lambda):
             ret = proc(tree.body, env)
         asserts = env.scopes[0].asserts
@@ -777,6 +779,8 @@ def proc(node: ast.AST, env: Env) -> Any:
     elif isinstance(node, ast.If): # add error message/assert message if else is called
         if is_main_check(node):
             return START_OF_MAIN
+        if any(isinstance(s, ast.Return) for s in node.body + node.orelse):
+            raise NotImplementedError("return inside of if")
         test = proc(node.test, env)
         true_scope = copy.deepcopy(env)
         for true in node.body:
-- 
2.43.0


From cab96b4c3b80354693199129aa2be1ccc77c7450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 29/43] fix: an assertion in a function called in a reduction
 is not dropped silently

---
 verse/parser/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index af3afd9..50ad85a 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -951,6 +951,8 @@ def proc(node: ast.AST, env: Env) -> Any:
             ifs = [proc(i, env) for i in ifs]
             expr = cond_trans(expr, merge_conds(ifs)) if len(ifs) > 0 else expr
             ret = Reduction(op, expr, target.id, proc(iter, env))
+            if env.scopes[0].asserts:
+                raise NotImplementedError("assert in a reduction")
             env.pop()
             return ret
     elif isinstance(node, ast.Return):
-- 
2.43.0


From f9b33cd6acd9264a4d59a0cdec0cb1216e0f6c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 30/43] fix: a call with keyword, default or missing arguments
 is not misread

---
 verse/parser/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index 50ad85a..ee097db 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -897,6 +897,8 @@ def proc(node: ast.AST, env: Env) -> Any:
         fun = proc(node.func, env)
 
         if isinstance(fun, Lambda):  # TODO fix substitution
+            if node.keywords or len(node.args) != len(fun.args):
+                raise NotImplementedError("keyword, default or missing arguments")
             asserts, ret = fun.apply([proc(a, env) for a in node.args])
             env.scopes[0].asserts.extend(asserts)
             return ret
-- 
2.43.0


From 9e6d358c28b103f6fa990dbc1713ddc63cd95f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 31/43] fix: a call of a computed function in a decision logic
 is rejected, not dropped

---
 verse/parser/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index ee097db..32eb7b1 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -957,6 +957,7 @@ def proc(node: ast.AST, env: Env) -> Any:
                 raise NotImplementedError("assert in a reduction")
             env.pop()
             return ret
+        raise NotImplementedError("complex function expression")
     elif isinstance(node, ast.Return):
         return proc(node.value, env) if node.value != None else None
     elif isinstance(node, ast.IfExp):
-- 
2.43.0


From d431b357483dd61228b23f720ba0c33052d1f7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:33 +0000
Subject: [PATCH 32/43] fix: dryvr_disc scales the learnt sensitivity back by
 the radius it was normalised with

---
 verse/analysis/dryvr_disc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/analysis/dryvr_disc.py b/verse/analysis/dryvr_disc.py
index 7a3c6a6..2ecf60f 100644
--- a/verse/analysis/dryvr_disc.py
+++ b/verse/analysis/dryvr_disc.py
@@ -19,7 +19,7 @@ def all_sensitivities_calc(training_traces: np.ndarray, initial_radii: np.ndarra
     y_points: np.array = np.zeros(
         (normalizing_initial_set_radii.shape[0], trace_len - 1))
     normalizing_initial_set_radii[np.where(
-        normalizing_initial_set_radii < 1e-10)] = 1.0
+        normalizing_initial_set_radii == 0)] = 1.0
     for cur_dim_ind in range(1, ndims):
         # keyi: move out of loop
         normalized_initial_points: np.array = training_traces[:,
-- 
2.43.0


From 205d5a41500acce9301ba8f1ac143b57576e4ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:35 +0000
Subject: [PATCH 33/43] fix: fixed point check compares the sets at the latest
 end of the tree, not at the first leaf's

---
 verse/utils/fixed_points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/utils/fixed_points.py b/verse/utils/fixed_points.py
index cb9fc25..d852b4c 100644
--- a/verse/utils/fixed_points.py
+++ b/verse/utils/fixed_points.py
@@ -27,10 +27,10 @@ def reach_at_fix(tree: AnalysisTree, t_lower: float = None, t_upper: float = Non
     sim_enum: Dict[str, Dict[str, int]] = {} #indexed by agent and then by mode -- simulates the enum class 
     for agent in agents:
         sim_enum[agent] = {'_index': 0} # initial start with an index of 0 
-    T = 0 # we know time horizon occurs in the leaf node, by definition, shouldn't matter which leaf node we check
+    T = 0 # time horizon: the latest end of a leaf node (a leaf may end before it, at a violated assertion)
     if t_lower is None or t_upper is None:
         last: list[AnalysisTreeNode] = tree.get_leaf_nodes(tree.root)
-        T = last[0].trace[list(agents)[0]][-1][0] # using list casting since the agent doesn't matter
+        T = max(leaf.trace[list(agents)[0]][-1][0] for leaf in last) # using list casting since the agent doesn't matter
     for node in nodes:
         reached[node_counter] = None
         modes = node.mode 
-- 
2.43.0


From b8fe49b6d6be33b1f77178f0ec910b49c9bd8421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:09 +0000
Subject: [PATCH 34/43] fix: SimpleMap4Switch2 gives the track of a switch to
 the left

---
 verse/map/example_map/simple_map2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/map/example_map/simple_map2.py b/verse/map/example_map/simple_map2.py
index 3bc84dd..1228e01 100644
--- a/verse/map/example_map/simple_map2.py
+++ b/verse/map/example_map/simple_map2.py
@@ -114,7 +114,7 @@ class SimpleMap4Switch2(LaneMap):
                 ind = int(lane_idx[1])
                 if typ == "Left" and ind > 0:
                     new_ind = ind - 1
-                if typ == "Left2" and ind > 1:
+                elif typ == "Left2" and ind > 1:
                     new_ind = ind - 2
                 elif typ == "Right" and ind < 4:
                     new_ind = ind + 1
-- 
2.43.0


From b78aba914d2746f23e4d21746a7111eef7d70681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:09 +0000
Subject: [PATCH 35/43] fix: h_exist agrees with h on maps that compute their
 tracks

---
 verse/map/lane_map.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verse/map/lane_map.py b/verse/map/lane_map.py
index 4cca517..d6a58b5 100644
--- a/verse/map/lane_map.py
+++ b/verse/map/lane_map.py
@@ -114,6 +114,9 @@ class LaneMap:
             agent_mode_src = agent_mode_src.name
         if isinstance(agent_mode_dest, Enum):
             agent_mode_dest = agent_mode_dest.name
+        if self.h_dict == {}:
+            # maps that compute their tracks instead of listing them
+            return self.h(lane_idx, agent_mode_src, agent_mode_dest) is not None
         if (lane_idx, agent_mode_src, agent_mode_dest) in self.h_dict:
             return True
         else:
-- 
2.43.0


From 69490aed0d1df620a7be0351589d1ae59a84184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:19 +0000
Subject: [PATCH 36/43] fix: 3D arcs measure the angle around them as they
 place it

---
 verse/map/lane_segment_3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verse/map/lane_segment_3d.py b/verse/map/lane_segment_3d.py
index f45e3bc..8655929 100644
--- a/verse/map/lane_segment_3d.py
+++ b/verse/map/lane_segment_3d.py
@@ -557,7 +557,8 @@ def get_rtp_by_coor(point, n, center, radius, right_rotate=True):
     tang = tang / np.linalg.norm(tang) * radius
     outer_center = center + tang
     rget = np.linalg.norm(point - outer_center)
-    theta = get_theta_by_coor(point, norm, outer_center, rget, right_rotate)
+    # measured around the direction of travel, as position() and straight lanes do
+    theta = get_theta_by_coor(point, norm, outer_center, rget)
     phase = get_theta_by_coor(outer_center, n, center, radius, right_rotate)
     return rget, theta, phase
 
-- 
2.43.0


From c07d8ad83a2170cd3f349f3b9a872322c5c16288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:39 +0000
Subject: [PATCH 37/43] fix: 3D arcs given by their end points write a
 configuration that can be read back

---
 verse/map/lane_segment_3d.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/verse/map/lane_segment_3d.py b/verse/map/lane_segment_3d.py
index 8655929..dff4389 100644
--- a/verse/map/lane_segment_3d.py
+++ b/verse/map/lane_segment_3d.py
@@ -528,6 +528,12 @@ class CircularLane_3d_v2(CircularLane_3d_v1):
             priority,
         )
 
+    def to_config(self) -> dict:
+        # written with the centre and phases computed from the end points
+        config = super().to_config()
+        config["class_path"] = get_class_path(CircularLane_3d_v1)
+        return config
+
 
 def get_coor_by_rt(r, theta, n, center, right_rotate=True):
     l1 = (n[0] ** 2 + n[1] ** 2) ** 0.5
-- 
2.43.0


From 407c8805332eecaeafbfd7c20953d56f405ab054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:47 +0000
Subject: [PATCH 38/43] fix: intersecting a star set takes the basis vectors as
 rows

---
 verse/stars/starset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/stars/starset.py b/verse/stars/starset.py
index ea0dbf5..8bf4f28 100644
--- a/verse/stars/starset.py
+++ b/verse/stars/starset.py
@@ -272,7 +272,7 @@ class StarSet:
             raise Exception("constraint_mat vectors should be of length n")
         if not (len(rhs) == len(constraint_mat)):
             raise Exception("constraint_mat should be length of rhs")
-        new_c = np.matmul(constraint_mat, self.basis)
+        new_c = np.matmul(constraint_mat, self.basis.T)
         conj_c = np.vstack((self.C, new_c))
         new_g = np.subtract(rhs, np.matmul(constraint_mat, self.center))
         conj_g = np.append(self.g, new_g) 
-- 
2.43.0


From 047387c73c95a4921371812058588f171b3b55c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:47 +0000
Subject: [PATCH 39/43] fix: the furthest point of a star set is sought along
 its basis vectors

---
 verse/stars/starset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/stars/starset.py b/verse/stars/starset.py
index 8bf4f28..349b299 100644
--- a/verse/stars/starset.py
+++ b/verse/stars/starset.py
@@ -463,11 +463,11 @@ class StarSet:
     def maximize(self, opt_direction):
         """return the point that maximizes the direction"""
 
-        opt_direction *= -1
+        opt_direction = -1 * opt_direction
 
         # convert opt_direction to domain
         #print(self.basis)
-        domain_direction = opt_direction.T @ self.basis
+        domain_direction = opt_direction.T @ self.basis.T
 
 
         # use LP to optimize the constraints
-- 
2.43.0


From 706c4eac847c59ba6bd51aa52e132a1ae832fcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:47 +0000
Subject: [PATCH 40/43] fix: a star set is empty only if no coefficients at all
 satisfy its predicate

---
 verse/stars/starset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/stars/starset.py b/verse/stars/starset.py
index 349b299..f1583b1 100644
--- a/verse/stars/starset.py
+++ b/verse/stars/starset.py
@@ -531,13 +531,13 @@ class StarSet:
 #        return None
 
     def is_empty(self):
-        feasible = StarSet.is_feasible(self.n,self.C,self.g)
+        feasible = StarSet.is_feasible(self.m,self.C,self.g)
         if feasible:
             return False
         return True
 
     def is_feasible(n, constraint_mat, rhs, equal_mat=None, equal_rhs=None):
-        results = linprog(c=np.zeros(n),A_ub=constraint_mat,b_ub=rhs,A_eq=equal_mat, b_eq=equal_rhs)
+        results = linprog(c=np.zeros(n),A_ub=constraint_mat,b_ub=rhs,A_eq=equal_mat, b_eq=equal_rhs, bounds=(None, None))
         if results.status == 0:
             return True
         if results.status == 2:
-- 
2.43.0


From ff34f9920ca6ab4a9aa25d12fcb4add1333694b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:47 +0000
Subject: [PATCH 41/43] fix: the center of a star set is midway between its
 bounds

---
 verse/stars/starset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/stars/starset.py b/verse/stars/starset.py
index f1583b1..cde003d 100644
--- a/verse/stars/starset.py
+++ b/verse/stars/starset.py
@@ -496,7 +496,7 @@ class StarSet:
         pt = []
         for i in range(0,self.n):
             min, max = self.get_max_min(i)
-            pt.append(max - min / 2)
+            pt.append((max + min) / 2)
             #maxes.append(max)
             #mins.append(min)
         return pt
-- 
2.43.0


From 587be8d50b9fc26ad87a190195ebfd2bcf2973cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:47 +0000
Subject: [PATCH 42/43] fix: values are put into a reset expression for whole
 names only

---
 verse/analysis/verifier.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 1853995..170ec63 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1,7 +1,7 @@
 from enum import Enum, auto
 from dataclasses import dataclass
 from collections import defaultdict
-import copy, itertools, functools, pprint
+import copy, itertools, functools, pprint, re
 from typing import Dict, List, Optional, Tuple
 import numpy as np
 import warnings
@@ -1373,7 +1373,7 @@ class Verifier:
                     val_dict = {}
                     tmp = copy.deepcopy(expr)
                     for symbol_idx, symbol in enumerate(symbols):
-                        tmp = tmp.replace(symbol, str(comb[symbol_idx]))
+                        tmp = re.sub(rf"\b{re.escape(symbol)}\b", f"({comb[symbol_idx]})", tmp)
                     res = eval(tmp, {}, val_dict)
                     lb = min(lb, res)
                     ub = max(ub, res)
@@ -1480,8 +1480,7 @@ class Verifier:
                 val_dict = {}
                 tmp_exp = copy.deepcopy(expr_list[idx])
                 for i in range(0, len(state)):
-                    if statevec[i] in tmp_exp:
-                        tmp_exp = tmp_exp.replace(statevec[i], str(state[i]))
+                    tmp_exp = re.sub(rf"\b{re.escape(statevec[i])}\b", f"({state[i]})", tmp_exp)
                 #print(tmp_exp)
                 result = eval(tmp_exp, {}, val_dict)
                 for i in range(0, len(state)):
-- 
2.43.0


From 370822c0220173c06a7a2ce77f437c990e7e42c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:47 +0000
Subject: [PATCH 43/43] fix: every segment of star sets is followed and kept in
 the tube

---
 verse/analysis/verifier.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 170ec63..8d22990 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -179,7 +179,7 @@ class Verifier:
             #        combined_rect[0, :] = np.minimum(combined_rect[0, :], rect[0, :])
             #        combined_rect[1, :] = np.maximum(combined_rect[1, :], rect[1, :])
             from verse.stars.starset import StarSet
-            combined_star = initial_set[0]
+            combined_star = rect_seg[0]
             if len(rect_seg) > 1:
                 combined_star = StarSet.combine_stars(rect_seg)
             #print(combined_rect)
@@ -211,7 +211,14 @@ class Verifier:
             pca=pca,
             )
 
-           
+            if res_tube is None:
+                res_tube = reach_tube
+            else:
+                # the sets of this segment are reached combine_seg_idx steps into the tube
+                for step, (_, star) in enumerate(reach_tube[: max(len(res_tube) - combine_seg_idx, 0)]):
+                    entry = res_tube[combine_seg_idx + step]
+                    entry[1] = StarSet.combine_stars([entry[1], star])
+
             if incremental:
                 cache_tube_updates.append((agent_id, mode_label, combined_rect, cur_bloated_tube))
                 #EXISTING CODE, NOT SURE WHAT TO DO:
@@ -233,7 +240,7 @@ class Verifier:
                             res_tube[combine_seg_idx * 2 + 1 :: 2, 1:], cur_bloated_tube[1::2, 1:]
                         )
         
-        return reach_tube, cache_tube_updates
+        return res_tube, cache_tube_updates
 
     def check_cache_bloated_tube(
         self,
-- 
2.43.0

