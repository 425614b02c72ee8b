From 1c0ab331fc5b71a64072e932bd57b752be602ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:28 +0000
Subject: [PATCH 01/63] fix: parents_of_node of a node without edges raised
 KeyError

---
 causy/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/graph.py b/causy/graph.py
index 9e22e05..5f7f2b4 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -95,7 +95,7 @@ class GraphBaseAccessMixin:
 
         return [
             self.nodes[n]
-            for n in self._reverse_edges[u].keys()
+            for n in self._reverse_edges.get(u, {}).keys()
             if not self.directed_edge_is_soft_deleted(n, u)
         ]
 
-- 
2.43.0


From 71291f15ed9d4fa60535c7b28b97617899cd9bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:28 +0000
Subject: [PATCH 02/63] fix: remove_edge failed on a pair joined by a single
 directed edge

---
 causy/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 5f7f2b4..dbd3752 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -775,12 +775,12 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
         if u.id in self.edges and v.id in self.edges[u.id]:
             self._deleted_edges[u.id][v.id] = self.edges[u.id][v.id]
             del self.edges[u.id][v.id]
-            del self._reverse_edges[u.id][v.id]
+            del self._reverse_edges[v.id][u.id]
 
         if v.id in self.edges and u.id in self.edges[v.id]:
             self._deleted_edges[v.id][u.id] = self.edges[v.id][u.id]
             del self.edges[v.id][u.id]
-            del self._reverse_edges[v.id][u.id]
+            del self._reverse_edges[u.id][v.id]
 
     def restore_edge(self, u: Node, v: Node):
         """
-- 
2.43.0


From 5a687a84f0e7e119d0a7b825ab48cb53749bbe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:28 +0000
Subject: [PATCH 03/63] fix: edge_value and edge_type raised KeyError (or
 showed a deleted edge) when only the opposite direction exists

---
 causy/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index dbd3752..b62c832 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -178,7 +178,7 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
-        if not self.edge_exists(u, v):
+        if not self.directed_edge_exists(u, v):
             return None
         return self.edges[u][v].metadata
 
@@ -195,7 +195,7 @@ class GraphBaseAccessMixin:
             u = u.id
         if isinstance(v, Node):
             v = v.id
-        if not self.edge_exists(u, v):
+        if not self.directed_edge_exists(u, v):
             return None
         return self.edges[u][v].edge_type
 
-- 
2.43.0


From f0eac9b462d24af2f6f2404a14940137e720765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:28 +0000
Subject: [PATCH 04/63] fix: retrieve_edge_history without an action raised
 KeyError for a pair without history

---
 causy/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index b62c832..72e5bc6 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -246,12 +246,12 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
-        if action is None:
-            return self.edge_history[(u, v)]
-
         if (u, v) not in self.edge_history:
             return []
 
+        if action is None:
+            return self.edge_history[(u, v)]
+
         return [i for i in self.edge_history[(u, v)] if i.action == action]
 
     def directed_path_exists(self, u: Union[Node, str], v: Union[Node, str]) -> bool:
-- 
2.43.0


From 4ad8266b5c25b80df3e8c4663e7902d03c95bd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:28 +0000
Subject: [PATCH 05/63] fix: retrieve_edges listed soft-deleted edges

---
 causy/graph_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causy/graph_utils.py b/causy/graph_utils.py
index b49c6ca..9c10fc5 100644
--- a/causy/graph_utils.py
+++ b/causy/graph_utils.py
@@ -48,7 +48,8 @@ def retrieve_edges(graph) -> List[Tuple[str, str]]:
     edges = []
     for u in graph.edges:
         for v in graph.edges[u]:
-            edges.append((u, v))
+            if not graph.directed_edge_is_soft_deleted(u, v):
+                edges.append((u, v))
     return edges
 
 
-- 
2.43.0


From 4e19a5284ce24d33f0e8a747531b4e61e10fcf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:29 +0000
Subject: [PATCH 06/63] fix: restoring an edge lost its type, or failed
 half-way when only one direction had been removed

---
 causy/graph.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 72e5bc6..587b3b5 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -794,19 +794,22 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
         if v.id not in self.nodes:
             raise GraphError(f"Node {v} does not exist")
 
-        if u.id in self.edges and v.id in self.edges[u.id]:
-            self.edges[u.id][v.id].deleted = False
-            self._reverse_edges[v.id][u.id].deleted = False
-        else:
-            self.add_edge(u, v, self._deleted_edges[u.id][v.id].metadata)
-            del self._deleted_edges[u.id][v.id]
+        # restore each direction the edge had (a directed edge has only one)
+        restorable = [
+            (a, b) for a, b in ((u, v), (v, u)) if self._is_edge_restorable(a, b)
+        ]
+        if len(restorable) == 0:
+            raise GraphError(f"There is no deleted edge between {u} and {v}")
+        for a, b in restorable:
+            self.restore_directed_edge(a, b)
 
-        if v.id in self.edges and u.id in self.edges[v.id]:
-            self.edges[v.id][u.id].deleted = False
-            self._reverse_edges[u.id][v.id].deleted = False
-        else:
-            self.add_edge(v, u, self._deleted_edges[v.id][u.id].metadata)
-            del self._deleted_edges[v.id][u.id]
+    def _is_edge_restorable(self, u: Node, v: Node) -> bool:
+        """
+        Check if there is an edge from u to v which is (soft) deleted or still exists
+        """
+        return v.id in self.edges.get(u.id, {}) or v.id in self._deleted_edges.get(
+            u.id, {}
+        )
 
     def remove_directed_edge(self, u: Node, v: Node, soft_delete: bool = False):
         """
@@ -847,11 +850,17 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
         if v.id not in self.nodes:
             raise GraphError(f"Node {v} does not exist")
 
+        if not self._is_edge_restorable(u, v):
+            raise GraphError(f"There is no deleted edge from {u} to {v}")
+
         if u.id in self.edges and v.id in self.edges[u.id]:
             self.edges[u.id][v.id].deleted = False
             self._reverse_edges[v.id][u.id].deleted = False
         else:
-            self.add_directed_edge(u, v, self._deleted_edges[u.id][v.id].metadata)
+            deleted_edge = self._deleted_edges[u.id][v.id]
+            self.add_directed_edge(
+                u, v, deleted_edge.metadata, edge_type=deleted_edge.edge_type
+            )
             del self._deleted_edges[u.id][v.id]
 
     def update_edge(
-- 
2.43.0


From 9eade0b2624d50a95e14dcd1f7cfa24e55d9b3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:18 +0000
Subject: [PATCH 07/63] fix: d-separation treated a path as open when a later
 collider on it was open

---
 causy/graph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 587b3b5..3d93c1a 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -340,15 +340,15 @@ class GraphBaseAccessMixin:
         Check if a path is blocked by a collider which is not in the conditioning set and has no descendants in the conditioning set.
         :return: Boolean indicating if the path is blocked
         """
-        is_path_blocked = False
         for i in range(1, len(path) - 1):
             if self._is_collider(path[i - 1], path[i], path[i + 1]):
                 # if the node is a collider, check if the node or any of its descendants are in the conditioning set
-                is_path_blocked = True
-                for descendant in self.descendants_of_node(path[i]):
-                    if descendant in conditioning_set:
-                        is_path_blocked = False
-        return is_path_blocked
+                if not any(
+                    descendant in conditioning_set
+                    for descendant in self.descendants_of_node(path[i])
+                ):
+                    return True
+        return False
 
     def _is_a_non_collider_in_conditioning_set(self, path, conditioning_set) -> bool:
         """
-- 
2.43.0


From b4946e2d41d9aebe1fd10fef60fa42bd0fa5c352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:18 +0000
Subject: [PATCH 08/63] fix: d-separation in CPDAGs counted paths without
 definite status as open

---
 causy/graph.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 3d93c1a..5246724 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -454,14 +454,16 @@ class GraphBaseAccessMixin:
             # If the path only has two nodes, it cannot be blocked and is open. Therefore, u and v are not d-separated
             if len(path) == 2:
                 return False
+            # only paths of definite status can be open
+            if not self._is_path_of_definite_status(path):
+                continue
             is_path_blocked = False
-            if self._is_path_of_definite_status(path):
-                if self._is_definite_noncollider_in_conditioning_set(
-                    path, conditioning_set
-                ):
-                    is_path_blocked = True
-                if self._is_a_collider_blocking(path, conditioning_set):
-                    is_path_blocked = True
+            if self._is_definite_noncollider_in_conditioning_set(
+                path, conditioning_set
+            ):
+                is_path_blocked = True
+            if self._is_a_collider_blocking(path, conditioning_set):
+                is_path_blocked = True
             list_of_results_for_paths.append(is_path_blocked)
         if False in list_of_results_for_paths:
             return False
-- 
2.43.0


From 327909441dc95f523723b15f51371611f780ed7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:18 +0000
Subject: [PATCH 09/63] fix: d-separation ignored conditioning sets given as
 node ids and accepted u or v in the conditioning set when given as nodes

---
 causy/graph.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 5246724..65a94bf 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -392,8 +392,13 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
+        # the conditioning set may contain nodes or node ids
+        conditioning_set = [
+            n if isinstance(n, Node) else self.node_by_id(n) for n in conditioning_set
+        ]
+
         # u and v may not be in the conditioning set, throw error
-        if u in conditioning_set or v in conditioning_set:
+        if any(n is not None and n.id in (u, v) for n in conditioning_set):
             raise ValueError("Nodes u and v may not be in the conditioning set")
 
         # If there are no paths between u and v, they are d-separated
@@ -441,8 +446,13 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
+        # the conditioning set may contain nodes or node ids
+        conditioning_set = [
+            n if isinstance(n, Node) else self.node_by_id(n) for n in conditioning_set
+        ]
+
         # u and v may not be in the conditioning set, throw error
-        if u in conditioning_set or v in conditioning_set:
+        if any(n is not None and n.id in (u, v) for n in conditioning_set):
             raise ValueError("Nodes u and v may not be in the conditioning set")
 
         # If there are no paths between u and v, they are d-separated
-- 
2.43.0


From 9bbaca621b9209ee8fe80e3aaed52660c99e0d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:01 +0000
Subject: [PATCH 10/63] fix: directed_path_exists did not terminate on cycles,
 followed deleted edges and failed on nodes without edges

---
 causy/graph.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 65a94bf..5b17b95 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -267,11 +267,16 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
-        if self.directed_edge_exists(u, v):
-            return True
-        for w in self.edges[u]:
-            if self.directed_path_exists(self.nodes[w], v):
+        visited = {u}
+        stack = [u]
+        while stack:
+            node = stack.pop()
+            if self.directed_edge_exists(node, v):
                 return True
+            for w in self.edges.get(node, {}):
+                if w not in visited and self.directed_edge_exists(node, w):
+                    visited.add(w)
+                    stack.append(w)
         return False
 
     def edge_of_type_exists(
-- 
2.43.0


From 7fc212480ceeefb3a4d89b7ee63b13e95614d229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:01 +0000
Subject: [PATCH 11/63] fix: directed_paths missed every longer path next to a
 direct edge and did not terminate on cycles

---
 causy/edge_types.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/causy/edge_types.py b/causy/edge_types.py
index f789fd2..293629c 100644
--- a/causy/edge_types.py
+++ b/causy/edge_types.py
@@ -1,5 +1,5 @@
 import enum
-from typing import Optional, List, Generic, Union, Tuple
+from typing import Optional, List, Generic, Set, Union, Tuple
 
 from causy.contrib.graph_ui import (
     EdgeTypeConfig,
@@ -71,13 +71,24 @@ class DirectedEdge(EdgeTypeInterface, Generic[EdgeTypeInterfaceType]):
             """
             u, v = self._resolve_node_references(u, v)
             # TODO: try a better data structure for this
-            if self.directed_edge_exists(u, v):
-                return [[(u, v)]]
+            return self._directed_paths(u, v, {u.id})
+
+        def _directed_paths(
+            self, u: NodeInterface, v: NodeInterface, visited: Set[str]
+        ) -> List[List[Tuple[NodeInterface, NodeInterface]]]:
+            """
+            Return all directed paths from u to v which do not touch a visited node
+            """
             paths = []
-            for w in self.edges[u.id]:
-                if self.directed_edge_exists(u, self.nodes[w]):
-                    for path in self.directed_paths(self.nodes[w], v):
-                        paths.append([(u, self.nodes[w])] + path)
+            for w in self.edges.get(u.id, {}):
+                if w in visited or not self.directed_edge_exists(u, self.nodes[w]):
+                    continue
+                step = (u, self.nodes[w])
+                if w == v.id:
+                    paths.append([step])
+                    continue
+                for path in self._directed_paths(self.nodes[w], v, visited | {w}):
+                    paths.append([step] + path)
             return paths
 
 
-- 
2.43.0


From ef7d76a69bf7197fe89a178bc3701b6bd69de08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:43 +0000
Subject: [PATCH 12/63] fix: edges removed inside a logic step stayed in the
 graph as soft-deleted (PCStable oriented non-existing edges)

---
 causy/graph_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 2f7222a..51d410f 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -209,6 +209,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
             if isinstance(filter, LogicStepInterface):
                 actions_taken = filter.execute(self.graph.graph, self)
                 self.graph.graph.action_history.append(actions_taken)
+                self.graph.purge_soft_deleted_edges()
                 continue
             yield {
                 "step": filter.__class__.__name__,
-- 
2.43.0


From 4dbe4f160ed7278673a18dfae63ec42c9491e9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:49 +0000
Subject: [PATCH 13/63] fix: FurtherOrientTripleTest deleted an edge it would
 have to orient in both directions

---
 .../constraint/orientation_rules/pc.py              | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index aa0e1c1..8e1a983 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -360,6 +360,19 @@ class FurtherOrientTripleTest(
                         data={"between": {"x": x, "y": y, "z": z}},
                     )
                 )
+
+        # if the edge would have to be oriented in both directions, removing both directions would remove the edge
+        # from the graph. We keep it and report the conflict.
+        if len({(result.u.id, result.v.id) for result in results}) > 1:
+            return [
+                TestResult(
+                    u=result.u,
+                    v=result.v,
+                    action=TestResultAction.DO_NOTHING,
+                    data={"orientation_conflict": True, **result.data},
+                )
+                for result in results
+            ]
         return results
 
 
-- 
2.43.0


From 97ab08e22cd96cbfe85131021654072ec67dbe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:01 +0000
Subject: [PATCH 14/63] fix: conflicting quadruple orientations within one pass
 deleted the edge

---
 causy/causal_discovery/constraint/orientation_rules/pc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index 8e1a983..5a20cc3 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -384,6 +384,9 @@ class OrientQuadrupleTest(
     )
     chunk_size_parallel_processing: IntegerParameter = 1
     parallel: BoolParameter = False
+    # apply each orientation before the next one is decided: two orientations of the same edge in opposite directions
+    # would otherwise remove the edge from the graph
+    apply_synchronous: BoolParameter = True
 
     def process(
         self, nodes: Tuple[str], graph: BaseGraphInterface
@@ -452,6 +455,9 @@ class FurtherOrientQuadrupleTest(
     )
     chunk_size_parallel_processing: int = 1
     parallel: bool = False
+    # apply each orientation before the next one is decided: two orientations of the same edge in opposite directions
+    # would otherwise remove the edge from the graph
+    apply_synchronous: BoolParameter = True
 
     def process(
         self, nodes: Tuple[str], graph: BaseGraphInterface
-- 
2.43.0


From 33c311c4ffdc751ff477fe4199ec640dce166f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:01 +0000
Subject: [PATCH 15/63] fix: pipeline steps ignored falsy settings
 (threshold=0.0, parallel=False, apply_synchronous=False)

---
 causy/interfaces.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/causy/interfaces.py b/causy/interfaces.py
index 0fbf88f..2aa35f8 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -369,25 +369,25 @@ class PipelineStepInterface(ABC, BaseModel, Generic[PipelineStepInterfaceType]):
         **kwargs,
     ) -> None:
         super().__init__()
-        if generator:
+        if generator is not None:
             if isinstance(generator, dict):
                 self.generator = load_pipeline_artefact_by_definition(generator)
             else:
                 self.generator = generator
 
-        if chunk_size_parallel_processing:
+        if chunk_size_parallel_processing is not None:
             self.chunk_size_parallel_processing = chunk_size_parallel_processing
 
-        if apply_synchronous:
+        if apply_synchronous is not None:
             self.apply_synchronous = apply_synchronous
 
-        if parallel:
+        if parallel is not None:
             self.parallel = parallel
 
         if display_name:
             self.display_name = display_name
 
-        if threshold:
+        if threshold is not None:
             self.threshold = threshold
 
     @computed_field
-- 
2.43.0


From 8120502c9196879a8c633d574304b7d7bd4e03bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:01 +0000
Subject: [PATCH 16/63] fix: step specific settings were dropped (ColliderTest
 always used KEEP_FIRST)

---
 causy/causal_discovery/constraint/orientation_rules/pc.py | 4 ++--
 causy/interfaces.py                                       | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index 5a20cc3..e666b45 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -144,7 +144,7 @@ class ColliderTest(
                 if len(unapplied_actions_y_z) > 0 or len(unapplied_actions_x_z) > 0:
                     if (
                         ColliderTestConflictResolutionStrategies.KEEP_FIRST
-                        is self.conflict_resolution_strategy
+                        == self.conflict_resolution_strategy
                     ):
                         # We prioritize the first edge that was removed, we do nothing
                         if len(unapplied_actions_y_z) > 0:
@@ -174,7 +174,7 @@ class ColliderTest(
 
                     elif (
                         ColliderTestConflictResolutionStrategies.KEEP_LAST
-                        is self.conflict_resolution_strategy
+                        == self.conflict_resolution_strategy
                     ):
                         # We keep the last edge that was removed and restore the other edges
                         results.extend(generate_restores(unapplied_actions_x_z))
diff --git a/causy/interfaces.py b/causy/interfaces.py
index 2aa35f8..e971e76 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -390,6 +390,11 @@ class PipelineStepInterface(ABC, BaseModel, Generic[PipelineStepInterfaceType]):
         if threshold is not None:
             self.threshold = threshold
 
+        # settings which are declared by the specific pipeline step
+        for key, value in kwargs.items():
+            if key in self.model_fields:
+                setattr(self, key, value)
+
     @computed_field
     @property
     def name(self) -> str:
-- 
2.43.0


From 7f3a56b2c657885f2ea025bddcc9a268bc8c0619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:29 +0000
Subject: [PATCH 17/63] fix: PairsWithEdgesInBetweenGenerator yielded every
 pair a second time when chunked

---
 causy/generators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causy/generators.py b/causy/generators.py
index 73a3219..0c63ff8 100644
--- a/causy/generators.py
+++ b/causy/generators.py
@@ -89,6 +89,7 @@ class PairsWithEdgesInBetweenGenerator(GeneratorInterface):
         if self.chunked:
             for i in range(0, len(edges), self.chunk_size):
                 yield edges[i : i + self.chunk_size]
+            return
 
         for edge in edges:
             yield edge
-- 
2.43.0


From fae2f3437445e5f1cdc9f8d00ecc6b0eb8c290fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:29 +0000
Subject: [PATCH 18/63] fix: PairsWithNeighboursGenerator yielded nested pairs
 for size 2 when not chunked

---
 causy/generators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/causy/generators.py b/causy/generators.py
index 0c63ff8..0402e80 100644
--- a/causy/generators.py
+++ b/causy/generators.py
@@ -151,7 +151,10 @@ class PairsWithNeighboursGenerator(GeneratorInterface):
 
                     checked_combinations.add((node, neighbour))
                     if range_size == 2:
-                        yield [[node, neighbour]]
+                        if self.chunked:
+                            yield [[node, neighbour]]
+                        else:
+                            yield [node, neighbour]
                         continue
 
                     other_neighbours = set(
-- 
2.43.0


From a47191cceaf247e7a71cf993675dcb7ca1e7ef2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:56 +0000
Subject: [PATCH 19/63] fix: results depended on the hash seed of the process
 (iteration over sets of node ids)

---
 .../constraint/independence_tests/common.py   | 28 ++++++-------------
 .../constraint/orientation_rules/fci.py       |  4 +--
 .../constraint/orientation_rules/pc.py        | 16 ++++-------
 causy/generators.py                           | 12 ++++----
 4 files changed, 20 insertions(+), 40 deletions(-)

diff --git a/causy/causal_discovery/constraint/independence_tests/common.py b/causy/causal_discovery/constraint/independence_tests/common.py
index aa3f84b..6855553 100644
--- a/causy/causal_discovery/constraint/independence_tests/common.py
+++ b/causy/causal_discovery/constraint/independence_tests/common.py
@@ -240,7 +240,7 @@ class ExtendedPartialCorrelationTestMatrix(
         p_value = 2 * (1 - stats.norm.cdf(z_value))
 
         # If the p value is smaller than the threshold, the null hypothesis (conditional independence) is rejected, otherwise we accept it and delete the edge
-        nodes_set = set([graph.nodes[n] for n in nodes])
+        separators = [graph.nodes[n] for n in nodes[2:]]
         if p_value > self.threshold:
             logger.debug(
                 f"Nodes {graph.nodes[nodes[0]].name} and {graph.nodes[nodes[1]].name} are uncorrelated given nodes {','.join([graph.nodes[on].name for on in other_neighbours])}"
@@ -250,15 +250,11 @@ class ExtendedPartialCorrelationTestMatrix(
                 v=graph.nodes[nodes[1]],
                 action=TestResultAction.REMOVE_EDGE_UNDIRECTED,
                 data={
-                    "separatedBy": list(
-                        nodes_set - {graph.nodes[nodes[0]], graph.nodes[nodes[1]]}
-                    ),
+                    "separatedBy": separators,
                     "triple": [
                         graph.nodes[nodes[0]],
                         graph.nodes[nodes[1]],
-                        list(
-                            nodes_set - {graph.nodes[nodes[0]], graph.nodes[nodes[1]]}
-                        ),
+                        separators,
                     ],
                 },
             )
@@ -271,9 +267,7 @@ class ExtendedPartialCorrelationTestMatrix(
                     "triple": [
                         graph.nodes[nodes[0]],
                         graph.nodes[nodes[1]],
-                        list(
-                            nodes_set - {graph.nodes[nodes[0]], graph.nodes[nodes[1]]}
-                        ),
+                        separators,
                     ],
                 },
             )
@@ -337,7 +331,7 @@ class ExtendedPartialCorrelationTestLinearRegression(
             partial_correlation.item(),
             self.threshold,
         )
-        nodes_set = set([graph.nodes[n] for n in nodes])
+        separators = [graph.nodes[n] for n in nodes[2:]]
         if abs(t) < critical_t:
             logger.debug(
                 f"Nodes {graph.nodes[nodes[0]].name} and {graph.nodes[nodes[1]].name} are uncorrelated given nodes {','.join([graph.nodes[on].name for on in other_neighbours])}"
@@ -347,15 +341,11 @@ class ExtendedPartialCorrelationTestLinearRegression(
                 v=graph.nodes[nodes[1]],
                 action=TestResultAction.REMOVE_EDGE_UNDIRECTED,
                 data={
-                    "separatedBy": list(
-                        nodes_set - {graph.nodes[nodes[0]], graph.nodes[nodes[1]]}
-                    ),
+                    "separatedBy": separators,
                     "triple": [
                         graph.nodes[nodes[0]],
                         graph.nodes[nodes[1]],
-                        list(
-                            nodes_set - {graph.nodes[nodes[0]], graph.nodes[nodes[1]]}
-                        ),
+                        separators,
                     ],
                 },
             )
@@ -368,9 +358,7 @@ class ExtendedPartialCorrelationTestLinearRegression(
                     "triple": [
                         graph.nodes[nodes[0]],
                         graph.nodes[nodes[1]],
-                        list(
-                            nodes_set - {graph.nodes[nodes[0]], graph.nodes[nodes[1]]}
-                        ),
+                        separators,
                     ]
                 },
             )
diff --git a/causy/causal_discovery/constraint/orientation_rules/fci.py b/causy/causal_discovery/constraint/orientation_rules/fci.py
index 0012ab7..7c7d832 100644
--- a/causy/causal_discovery/constraint/orientation_rules/fci.py
+++ b/causy/causal_discovery/constraint/orientation_rules/fci.py
@@ -52,9 +52,7 @@ class ColliderRuleFCI(
             return
 
         # if u and v are NOT adjacent, store all shared adjacent nodes
-        potential_zs = set(graph.edges[x.id].keys()).intersection(
-            set(graph.edges[y.id].keys())
-        )
+        potential_zs = [z for z in graph.edges[x.id] if z in graph.edges[y.id]]
 
         actions = graph.retrieve_edge_history(
             x, y, TestResultAction.REMOVE_EDGE_UNDIRECTED
diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index e666b45..f3709ac 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -116,9 +116,7 @@ class ColliderTest(
             return
 
         # if u and v are NOT adjacent, store all shared adjacent nodes
-        potential_zs = set(graph.edges[x.id].keys()).intersection(
-            set(graph.edges[y.id].keys())
-        )
+        potential_zs = [z for z in graph.edges[x.id] if z in graph.edges[y.id]]
 
         actions = graph.retrieve_edge_history(
             x, y, TestResultAction.REMOVE_EDGE_UNDIRECTED
@@ -242,9 +240,7 @@ class NonColliderTest(
             return
 
         # if u and v are NOT adjacent, store all shared adjacent nodes
-        potential_zs = set(graph.edges[x.id].keys()).intersection(
-            set(graph.edges[y.id].keys())
-        )
+        potential_zs = [z for z in graph.edges[x.id] if z in graph.edges[y.id]]
         # if one edge has an arrowhead at z, orient the other one pointing away from z.
         # It cannot be a collider because we have already oriented all unshielded triples that contain colliders.
         for z in potential_zs:
@@ -401,13 +397,13 @@ class OrientQuadrupleTest(
         y = graph.nodes[nodes[0]]
         w = graph.nodes[nodes[1]]
 
-        potential_zs = set()
+        potential_zs = []
 
         # TODO: just iterate over edges
         for z in graph.nodes:
             z = graph.nodes[z]
             if graph.edge_exists(y, z) and graph.edge_exists(z, w):
-                potential_zs.add(z)
+                potential_zs.append(z)
 
         results = []
         for zs in itertools.combinations(potential_zs, 2):
@@ -472,13 +468,13 @@ class FurtherOrientQuadrupleTest(
         x = graph.nodes[nodes[0]]
         w = graph.nodes[nodes[1]]
 
-        potential_zs = set()
+        potential_zs = []
 
         # TODO: just iterate over edges
         for z in graph.nodes:
             z = graph.nodes[z]
             if graph.edge_exists(x, z) and graph.edge_exists(z, w):
-                potential_zs.add(z)
+                potential_zs.append(z)
 
         results = []
         for zs in itertools.combinations(potential_zs, 2):
diff --git a/causy/generators.py b/causy/generators.py
index 0402e80..2708ac7 100644
--- a/causy/generators.py
+++ b/causy/generators.py
@@ -157,13 +157,11 @@ class PairsWithNeighboursGenerator(GeneratorInterface):
                             yield [node, neighbour]
                         continue
 
-                    other_neighbours = set(
-                        [
-                            k
-                            for k, value in graph.edges[node].items()
-                            if graph.directed_edge_exists(k, node)
-                        ]
-                    )
+                    other_neighbours = [
+                        k
+                        for k, value in graph.edges[node].items()
+                        if graph.directed_edge_exists(k, node)
+                    ]
                     logger.info(f"other_neighbors before removal={other_neighbours}")
 
                     if neighbour in other_neighbours:
-- 
2.43.0


From 3a99d79f98a07c608f2b53fe6151ab4a1ce349bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:56 +0000
Subject: [PATCH 20/63] fix: time series samples of a seeded generator depended
 on the hash seed of the process

---
 causy/sample_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causy/sample_generator.py b/causy/sample_generator.py
index 306b499..632ecf8 100644
--- a/causy/sample_generator.py
+++ b/causy/sample_generator.py
@@ -258,6 +258,8 @@ class TimeseriesSampleGenerator(AbstractSampleGenerator):
         random: Callable = random_normal,  # for setting that to a fixed value for testing use random = lambda: 0
     ):
         super().__init__(edges, random)
+        # sets are ordered differently in every process
+        self._variables = sorted(self._variables)
         self._longest_lag = max(
             [abs(edge.from_node.point_in_time) for edge in self._edges]
         )
-- 
2.43.0


From 721bdc7bc4a0b1d6ac37468b50b6111189ac4290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:56 +0000
Subject: [PATCH 21/63] fix: IIDSampleGenerator did not terminate when the
 edges contain a cycle

---
 causy/sample_generator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/causy/sample_generator.py b/causy/sample_generator.py
index 632ecf8..48d1e2c 100644
--- a/causy/sample_generator.py
+++ b/causy/sample_generator.py
@@ -148,6 +148,7 @@ class IIDSampleGenerator(AbstractSampleGenerator):
         """
         sorted_nodes = []
         while nodes:
+            # a pass which does not find a node to place means that the edges contain a cycle
             for node in nodes:
                 if set(
                     [edge.from_node.node for edge in self._get_edges_for_node_to(node)]
@@ -155,6 +156,10 @@ class IIDSampleGenerator(AbstractSampleGenerator):
                     sorted_nodes.append(node)
                     nodes.remove(node)
                     break
+            else:
+                raise ValueError(
+                    "The edges of the sample generator contain a cycle."
+                )
         return sorted_nodes
 
     def _generate_data(self, size):
-- 
2.43.0


From c00f1ecc1680fdee00ebc712561a965dcfe61be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:34 +0000
Subject: [PATCH 22/63] fix: CorrelationCoefficientTest crashed on pairs
 without an edge

---
 .../constraint/independence_tests/common.py                 | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/causy/causal_discovery/constraint/independence_tests/common.py b/causy/causal_discovery/constraint/independence_tests/common.py
index 6855553..9248afc 100644
--- a/causy/causal_discovery/constraint/independence_tests/common.py
+++ b/causy/causal_discovery/constraint/independence_tests/common.py
@@ -44,7 +44,11 @@ class CorrelationCoefficientTest(
 
         # Use Fisher's Z test for independency of u and v
         sample_size = len(x.values)
-        corr = graph.edge_value(x, y)["correlation"]
+        try:
+            corr = graph.edge_value(x, y)["correlation"]
+        except (KeyError, TypeError):
+            # there is no edge (or no correlation) to test
+            return
 
         # Fisher's Z transformation
         fisher_z = 0.5 * math.log((1 + corr) / (1 - corr))
-- 
2.43.0


From 07ad735edc6b1bcebdfce0bf60ee96d33f7daf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:34 +0000
Subject: [PATCH 23/63] fix: independence tests crashed on perfectly correlated
 variables

---
 .../constraint/independence_tests/common.py            |  6 ++++--
 causy/math_utils.py                                    | 10 ++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/causy/causal_discovery/constraint/independence_tests/common.py b/causy/causal_discovery/constraint/independence_tests/common.py
index 9248afc..507a874 100644
--- a/causy/causal_discovery/constraint/independence_tests/common.py
+++ b/causy/causal_discovery/constraint/independence_tests/common.py
@@ -7,7 +7,7 @@ import torch
 from scipy import stats
 
 from causy.generators import AllCombinationsGenerator, PairsWithNeighboursGenerator
-from causy.math_utils import get_t_and_critical_t
+from causy.math_utils import clamp_correlation, get_t_and_critical_t
 from causy.interfaces import (
     PipelineStepInterface,
     BaseGraphInterface,
@@ -49,6 +49,7 @@ class CorrelationCoefficientTest(
         except (KeyError, TypeError):
             # there is no edge (or no correlation) to test
             return
+        corr = clamp_correlation(corr)
 
         # Fisher's Z transformation
         fisher_z = 0.5 * math.log((1 + corr) / (1 - corr))
@@ -130,7 +131,7 @@ class PartialCorrelationTest(
             if denominator == 0:
                 return
 
-            par_corr = numerator / denominator
+            par_corr = clamp_correlation(numerator / denominator)
 
             # make t test for independency of u and v given z
             sample_size = len(x.values)
@@ -230,6 +231,7 @@ class ExtendedPartialCorrelationTestMatrix(
         par_corr = (-1 * precision_matrix[0][1]) / torch.sqrt(
             precision_matrix[0][0] * precision_matrix[1][1]
         )
+        par_corr = clamp_correlation(par_corr.item())
 
         sample_size = len(graph.nodes[nodes[0]].values)
         nb_of_control_vars = len(nodes) - 2
diff --git a/causy/math_utils.py b/causy/math_utils.py
index c679e66..2d7c4d5 100644
--- a/causy/math_utils.py
+++ b/causy/math_utils.py
@@ -14,6 +14,16 @@ def sum_lists(*lists):
     return list(map(sum, zip(*lists)))
 
 
+def clamp_correlation(corr):
+    """
+    Keep a (partial) correlation within the open interval (-1, 1) in which Fisher's Z transformation is defined.
+    :param corr: the correlation, may be exactly -1 or 1 or even slightly exceed it due to numerical errors
+    :return: the clamped correlation
+    """
+    limit = 1 - 1e-15
+    return max(-limit, min(limit, corr))
+
+
 def get_t_and_critical_t(sample_size, nb_of_control_vars, par_corr, threshold):
     # TODO: rewrite this function with torch
     # check if we have to normalize data
-- 
2.43.0


From c1582c8cf917fd2ec80279f042eb11be66cad0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:34 +0000
Subject: [PATCH 24/63] fix: the correlation with a constant variable was NaN
 and such edges were never removed

---
 causy/common_pipeline_steps/calculation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/causy/common_pipeline_steps/calculation.py b/causy/common_pipeline_steps/calculation.py
index 60e0ef5..572271b 100644
--- a/causy/common_pipeline_steps/calculation.py
+++ b/causy/common_pipeline_steps/calculation.py
@@ -39,7 +39,11 @@ class CalculatePearsonCorrelations(
         std_y = y_val.std(unbiased=False)
         pearson_correlation = cov_xy / (std_x * std_y)
 
-        correlation = pearson_correlation.item()
+        # a variable without any variance is not correlated with any other variable
+        if std_x == 0 or std_y == 0:
+            correlation = 0.0
+        else:
+            correlation = pearson_correlation.item()
 
         # Clamp the correlation to -1 and 1 to avoid numerical errors
         if correlation < -1:
-- 
2.43.0


From ba30d24611483ca95e6de54c204271ef47b52c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:34 +0000
Subject: [PATCH 25/63] fix: steps which compute edge values changed the graph
 and its recorded history in place

---
 causy/causal_effect_estimation/multivariate_regression.py | 4 ++--
 causy/common_pipeline_steps/calculation.py                | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/causy/causal_effect_estimation/multivariate_regression.py b/causy/causal_effect_estimation/multivariate_regression.py
index bda11b6..48d865d 100644
--- a/causy/causal_effect_estimation/multivariate_regression.py
+++ b/causy/causal_effect_estimation/multivariate_regression.py
@@ -28,10 +28,10 @@ class ComputeDirectEffectsInDAGsMultivariateRegression(PipelineStepInterface):
 
         # if there is an undirected edge, the effect is not identifiable
         if graph.undirected_edge_exists(cause_variable, effect_variable):
-            edge_data = graph.edge_value(cause_variable, effect_variable)
             return
 
-        edge_data = graph.edge_value(cause_variable, effect_variable)
+        # copy the value: changes are applied to the graph by the returned action
+        edge_data = dict(graph.edge_value(cause_variable, effect_variable) or {})
 
         all_parents_of_effect_variable = graph.parents_of_node(effect_variable)
         parents_of_effect_variable_without_cause_variable = [
diff --git a/causy/common_pipeline_steps/calculation.py b/causy/common_pipeline_steps/calculation.py
index 572271b..3161afc 100644
--- a/causy/common_pipeline_steps/calculation.py
+++ b/causy/common_pipeline_steps/calculation.py
@@ -29,7 +29,8 @@ class CalculatePearsonCorrelations(
         """
         x = graph.nodes[nodes[0]]
         y = graph.nodes[nodes[1]]
-        edge_value = graph.edge_value(graph.nodes[nodes[0]], graph.nodes[nodes[1]])
+        # copy the value: changes are applied to the graph by the returned action
+        edge_value = dict(graph.edge_value(x, y) or {})
 
         x_val = x.values
         y_val = y.values
-- 
2.43.0


From fe81b7950c1977d15d47054ed305585be7dc50e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:34 +0000
Subject: [PATCH 26/63] fix: direct effects were wrong for variables with a
 mean other than zero

---
 causy/causal_effect_estimation/multivariate_regression.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/causy/causal_effect_estimation/multivariate_regression.py b/causy/causal_effect_estimation/multivariate_regression.py
index 48d865d..8d979af 100644
--- a/causy/causal_effect_estimation/multivariate_regression.py
+++ b/causy/causal_effect_estimation/multivariate_regression.py
@@ -48,8 +48,14 @@ class ComputeDirectEffectsInDAGsMultivariateRegression(PipelineStepInterface):
             ],
             dim=1,
         )
+        # center the variables because the regression is fitted without an intercept
+        effect_variable_parents_values = (
+            effect_variable_parents_values - effect_variable_parents_values.mean(dim=0)
+        )
         # multivariate regression via tridiagonal reduction and SVD, see torch documentation
-        reshaped_effect_variable_values = effect_variable.values.view(-1, 1)
+        reshaped_effect_variable_values = (
+            effect_variable.values - effect_variable.values.mean()
+        ).view(-1, 1)
 
         coefficients = torch.linalg.lstsq(
             effect_variable_parents_values,
-- 
2.43.0


From d2e69d4cb0a3bfdae2fbfff560f519ecd830a212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:34 +0000
Subject: [PATCH 27/63] fix: regression based partial correlation was wrong for
 variables with a mean other than zero

---
 causy/causal_discovery/constraint/independence_tests/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causy/causal_discovery/constraint/independence_tests/common.py b/causy/causal_discovery/constraint/independence_tests/common.py
index 507a874..0a80ea0 100644
--- a/causy/causal_discovery/constraint/independence_tests/common.py
+++ b/causy/causal_discovery/constraint/independence_tests/common.py
@@ -290,6 +290,9 @@ def partial_correlation_regression(x, y, z):
     Returns:
     partial_corr : torch.Tensor : Partial correlation coefficient between x and y.
     """
+    # center the variables because the regressions are fitted without an intercept
+    x, y, z = x - x.mean(), y - y.mean(), z - z.mean(dim=1, keepdim=True)
+
     # Define linear regression model
     model_x = torch.linalg.lstsq(z.T, x).solution
     model_y = torch.linalg.lstsq(z.T, y).solution
-- 
2.43.0


From 7796c7b1e60acc6f29495084d69c4600a326e2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:34 +0000
Subject: [PATCH 28/63] fix: actions which change the type of an edge always
 failed (TestResult had no edge_type)

---
 causy/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causy/models.py b/causy/models.py
index 96f5f13..4ce262d 100644
--- a/causy/models.py
+++ b/causy/models.py
@@ -57,6 +57,7 @@ class TestResult(TestResultInterface):
     v: NodeInterface
     action: TestResultAction
     data: Optional[Dict] = None
+    edge_type: Optional[EdgeTypeInterface] = None  # for UPDATE_EDGE_TYPE(_DIRECTED)
 
 
 class AlgorithmReferenceType(str, enum.Enum):
-- 
2.43.0


From 492b9358c8511eaffa0d6ec6d2c4e7e505acf233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:34 +0000
Subject: [PATCH 29/63] fix: updating a pair of nodes joined by a single
 directed edge aborted the pipeline

---
 causy/graph_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 51d410f..6f6522e 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -338,7 +338,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                     self.graph.add_edge_history(i.v, i.u, i)
                     self._execute_hook("post_edge_remove_hook", i)
                 elif i.action == TestResultAction.UPDATE_EDGE:
-                    if not self.graph.edge_exists(i.u, i.v):
+                    if not self.graph.undirected_edge_exists(i.u, i.v):
                         logger.debug(
                             f"Tried to update edge {i.u.name} -> {i.v.name}. But it does not exist."
                         )
@@ -381,7 +381,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                     self.graph.add_edge_history(i.u, i.v, i)
                     self._execute_hook("post_edge_remove_hook", i)
                 elif i.action == TestResultAction.UPDATE_EDGE_TYPE:
-                    if not self.graph.edge_exists(i.u, i.v):
+                    if not self.graph.undirected_edge_exists(i.u, i.v):
                         logger.debug(
                             f"Tried to update edge type {i.u.name} <-> {i.v.name}. But it does not exist."
                         )
-- 
2.43.0


From 8b803bb2dca89fca2428e66a8d19cebdd7eeb9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:34 +0000
Subject: [PATCH 30/63] fix: removing a direction which does not exist was
 recorded as an action taken

---
 causy/graph_model.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 6f6522e..47a2562 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -362,9 +362,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                 elif i.action == TestResultAction.DO_NOTHING:
                     continue
                 elif i.action == TestResultAction.REMOVE_EDGE_DIRECTED:
-                    if not self.graph.directed_edge_exists(
-                        i.u, i.v
-                    ) and not self.graph.edge_exists(i.u, i.v):
+                    if not self.graph.directed_edge_exists(i.u, i.v):
                         logger.debug(
                             f"Tried to remove directed edge {i.u.name} -> {i.v.name}. But it does not exist."
                         )
-- 
2.43.0


From 9adea39078ee6fc3421f06a60a9b8f57cb48e371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:34 +0000
Subject: [PATCH 31/63] fix: parallel steps failed with chunked generators

---
 causy/graph_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 47a2562..77c0383 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -237,6 +237,11 @@ class AbstractGraphModel(GraphModelInterface, ABC):
         :return: yields the test function with its inputs
         """
         for i in generator:
+            if test_fn.generator.chunked:
+                # a chunked generator yields lists of combinations
+                for c in i:
+                    yield [test_fn, [*c], graph]
+                continue
             yield [test_fn, [*i], graph]
 
     def _execute_pre_graph_update_hooks(
-- 
2.43.0


From 4d80668b362c4bc3b05aa2b7140a3bcd33075a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:13 +0000
Subject: [PATCH 32/63] fix: partial correlation tests were skipped for
 variables with small units (determinant underflow)

---
 causy/causal_discovery/constraint/independence_tests/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causy/causal_discovery/constraint/independence_tests/common.py b/causy/causal_discovery/constraint/independence_tests/common.py
index 0a80ea0..2977def 100644
--- a/causy/causal_discovery/constraint/independence_tests/common.py
+++ b/causy/causal_discovery/constraint/independence_tests/common.py
@@ -207,7 +207,8 @@ class ExtendedPartialCorrelationTestMatrix(
 
         if not set(nodes[2:]).issubset(set([on for on in list(other_neighbours)])):
             return
-        cov_matrix = torch.cov(
+        # use standardized variables: the determinant must not depend on the units of the variables
+        cov_matrix = torch.corrcoef(
             torch.stack([graph.nodes[node].values for node in nodes])
         )
         # check if the covariance matrix is ill-conditioned
-- 
2.43.0


From 71f141973c275d2df61c3c0051c885caa1f3c19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:54 +0000
Subject: [PATCH 33/63] fix: algorithms loaded by python module reference
 shared their state between experiments

---
 causy/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/serialization.py b/causy/serialization.py
index b9f91ba..87e095f 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -83,7 +83,7 @@ def load_algorithm_by_reference(reference_type: str, algorithm: str):
         st_function = getattr(module, ref_)
         if not st_function:
             raise ValueError(f"Algorithm {algorithm} not found")
-        return st_function()._original_algorithm
+        return copy.deepcopy(st_function()._original_algorithm)
 
 
 class CausyJSONEncoder(JSONEncoder):
-- 
2.43.0


From 8754f5f39308f1388623b4d5b192a56a211763ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:08 +0000
Subject: [PATCH 34/63] fix: dynamic data loaders could not be loaded

---
 causy/data_loader.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/causy/data_loader.py b/causy/data_loader.py
index afe56e7..488aeb3 100644
--- a/causy/data_loader.py
+++ b/causy/data_loader.py
@@ -111,22 +111,26 @@ class DynamicDataLoader(AbstractDataLoader):
 
     def __init__(self, reference: str, options: Optional[Dict[str, Any]] = None):
         self.reference = reference
-        self.data_loader = self._load_data_loader()
         self.options = options
+        self.data_loader = self._load_data_loader()
 
     reference: str
     data_loader: AbstractDataLoader
 
     def _load_data_loader(self) -> AbstractDataLoader:
-        module = importlib.import_module(self.reference)
-        # todo: should the cls be referenced here?
-        return module.DataLoader(**self.options)
+        # the reference has the form "module.Class"
+        module, cls = self.reference.rsplit(".", 1)
+        return getattr(importlib.import_module(module), cls)(**(self.options or {}))
 
     def load(self) -> Iterator[Dict[str, Union[float, int, str]]]:
         return self.data_loader.load()
 
     def hash(self) -> str:
-        return f"{self.data_loader.hash()}_{self._hash_options()}"
+        data_hash = self.data_loader.hash()
+        if data_hash is None:
+            # the data loader can not tell if its data has changed
+            return None
+        return f"{data_hash}_{self._hash_options()}"
 
 
 DATA_LOADERS = {
-- 
2.43.0


From 71799f72c58f86512a92ff29098f29f76291db30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:36 +0000
Subject: [PATCH 35/63] fix: ejected algorithms could not be loaded and
 executed

---
 causy/graph_utils.py   | 4 +---
 causy/serialization.py | 7 +++++++
 causy/variables.py     | 2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/causy/graph_utils.py b/causy/graph_utils.py
index 9c10fc5..bf5b9f6 100644
--- a/causy/graph_utils.py
+++ b/causy/graph_utils.py
@@ -25,9 +25,7 @@ def load_pipeline_artefact_by_definition(step):
     if not st_function:
         raise ValueError(f"{name} not found")
 
-    del step["name"]
-
-    return st_function(**step)
+    return st_function(**{key: step[key] for key in step if key != "name"})
 
 
 def load_pipeline_steps_by_definition(steps):
diff --git a/causy/serialization.py b/causy/serialization.py
index 87e095f..ad390ef 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -28,6 +28,7 @@ def serialize_algorithm(model, algorithm_name: str = None):
 
 def load_algorithm_from_specification(algorithm_dict: Dict[str, Any]):
     """Load the model from a dictionary."""
+    algorithm_dict = dict(algorithm_dict)
     algorithm_dict["pipeline_steps"] = load_pipeline_steps_by_definition(
         algorithm_dict["pipeline_steps"]
     )
@@ -37,6 +38,12 @@ def load_algorithm_from_specification(algorithm_dict: Dict[str, Any]):
         )
     else:
         algorithm_dict["extensions"] = []
+    algorithm_dict["edge_types"] = [
+        EDGE_TYPES[edge_type["name"]](**edge_type)
+        if isinstance(edge_type, dict)
+        else edge_type
+        for edge_type in algorithm_dict.get("edge_types") or []
+    ]
     if "variables" not in algorithm_dict or algorithm_dict["variables"] is None:
         algorithm_dict["variables"] = []
 
diff --git a/causy/variables.py b/causy/variables.py
index bf59625..a849085 100644
--- a/causy/variables.py
+++ b/causy/variables.py
@@ -256,7 +256,7 @@ def deserialize_variable_references(element: object) -> object:
         if isinstance(value, dict) and "type" in value and value["type"] == "reference":
             setattr(element, attribute, VariableReference(name=value["name"]))
 
-        if hasattr(value, "__dict__"):
+        if isinstance(value, BaseModel):
             setattr(element, attribute, deserialize_variable_references(value))
 
     if hasattr(element, "pipeline_steps"):
-- 
2.43.0


From 6a661759bec9b4a10f3497e7f061149bcdc5998c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:54 +0000
Subject: [PATCH 36/63] fix: the chunk size of a generator was lost when an
 algorithm is serialized

---
 causy/interfaces.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/causy/interfaces.py b/causy/interfaces.py
index e971e76..9be4dcc 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -296,6 +296,7 @@ class GraphModelInterface(ABC):
 class GeneratorInterface(ABC, BaseModel):
     comparison_settings: Optional[ComparisonSettingsInterface] = None
     chunked: Optional[BoolParameter] = False
+    chunk_size: Optional[IntegerParameter] = None
     every_nth: Optional[IntegerParameter] = None
     generator: Optional["GeneratorInterface"] = None
     shuffle_combinations: Optional[BoolParameter] = None
@@ -311,6 +312,7 @@ class GeneratorInterface(ABC, BaseModel):
         every_nth: Optional[IntegerParameter] = None,
         generator: Optional["GeneratorInterface"] = None,
         shuffle_combinations: Optional[BoolParameter] = None,
+        chunk_size: Optional[IntegerParameter] = None,
     ) -> None:
         super().__init__(comparison_settings=comparison_settings)
         if isinstance(comparison_settings, dict):
@@ -321,6 +323,9 @@ class GeneratorInterface(ABC, BaseModel):
         if chunked is not None:
             self.chunked = chunked
 
+        if chunk_size is not None:
+            self.chunk_size = chunk_size
+
         if every_nth is not None:
             self.every_nth = every_nth
 
-- 
2.43.0


From b47e1125ccfe9b51f83a8db9a9811701e5b9776f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:54 +0000
Subject: [PATCH 37/63] fix: logic steps without pipeline steps could not be
 created

---
 causy/interfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/interfaces.py b/causy/interfaces.py
index 9be4dcc..56690db 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -501,7 +501,7 @@ class LogicStepInterface(ABC, BaseModel, Generic[LogicStepInterfaceType]):
             exit_condition = load_pipeline_artefact_by_definition(exit_condition)
 
         # TODO: check if this is a good idea
-        if len(pipeline_steps) > 0 and isinstance(pipeline_steps[0], dict):
+        if pipeline_steps and isinstance(pipeline_steps[0], dict):
             pipeline_steps = load_pipeline_steps_by_definition(pipeline_steps)
 
         self.pipeline_steps = pipeline_steps or []
-- 
2.43.0


From 8b247bbf16df94aa318574cbe3e3fde46690aa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:01 +0000
Subject: [PATCH 38/63] fix: graph update hooks were lost when an algorithm is
 serialized

---
 causy/interfaces.py    | 5 +++++
 causy/models.py        | 6 +++---
 causy/serialization.py | 5 +++++
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/causy/interfaces.py b/causy/interfaces.py
index 56690db..8bdd514 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -529,6 +529,11 @@ class GraphUpdateHook(BaseModel):
     A hook that is executed before or after the graph is updated. This can be used to modify the graph before or after an update.
     """
 
+    @computed_field
+    @property
+    def name(self) -> str:
+        return serialize_module_name(self)
+
     @abstractmethod
     def execute(
         self, graph: BaseGraphInterface, updates: List[TestResultInterface]
diff --git a/causy/models.py b/causy/models.py
index 4ce262d..87bfc07 100644
--- a/causy/models.py
+++ b/causy/models.py
@@ -2,7 +2,7 @@ import enum
 from datetime import datetime
 from typing import Optional, Dict, List, Union, Any
 
-from pydantic import BaseModel, computed_field, Field
+from pydantic import BaseModel, SerializeAsAny, computed_field, Field
 
 from causy.graph_utils import serialize_module_name, hash_dictionary
 from causy.interfaces import (
@@ -78,8 +78,8 @@ class Algorithm(BaseModel):
     edge_types: List[EdgeTypeInterfaceType]
     extensions: Optional[List[ExtensionType]] = None
     variables: Optional[List[Union[VariableInterfaceType]]] = None
-    pre_graph_update_hooks: Optional[List[GraphUpdateHook]] = None
-    post_graph_update_hooks: Optional[List[GraphUpdateHook]] = None
+    pre_graph_update_hooks: Optional[List[SerializeAsAny[GraphUpdateHook]]] = None
+    post_graph_update_hooks: Optional[List[SerializeAsAny[GraphUpdateHook]]] = None
 
     def hash(self) -> str:
         return hash_dictionary(self.model_dump())
diff --git a/causy/serialization.py b/causy/serialization.py
index ad390ef..4480e1f 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -44,6 +44,11 @@ def load_algorithm_from_specification(algorithm_dict: Dict[str, Any]):
         else edge_type
         for edge_type in algorithm_dict.get("edge_types") or []
     ]
+    for hooks in ["pre_graph_update_hooks", "post_graph_update_hooks"]:
+        if algorithm_dict.get(hooks) is not None:
+            algorithm_dict[hooks] = load_pipeline_steps_by_definition(
+                algorithm_dict[hooks]
+            )
     if "variables" not in algorithm_dict or algorithm_dict["variables"] is None:
         algorithm_dict["variables"] = []
 
-- 
2.43.0


From 5ea0dc1fe0511885af27a350a3171b5d2a66574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:08 +0000
Subject: [PATCH 39/63] fix: strings like yes or 1e5 in an ejected algorithm
 changed their type when it was loaded

---
 causy/serialization.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/causy/serialization.py b/causy/serialization.py
index 4480e1f..87463c7 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -7,9 +7,9 @@ from typing import Dict, Any, List
 import os
 
 import torch
-import yaml
 from pydantic import TypeAdapter
-
+from pydantic_yaml import parse_yaml_raw_as
+from ruamel.yaml.error import YAMLError
 
 from causy.edge_types import EDGE_TYPES
 from causy.graph_utils import load_pipeline_steps_by_definition
@@ -81,9 +81,10 @@ def load_algorithm_by_reference(reference_type: str, algorithm: str):
             file.seek(0)
             # then try yaml
             try:
-                data = yaml.load(file.read(), Loader=yaml.FullLoader)
+                # the same yaml version as used for ejecting an algorithm
+                data = parse_yaml_raw_as(dict, file.read())
                 return load_algorithm_from_specification(data)
-            except yaml.YAMLError:
+            except YAMLError:
                 pass
             raise ValueError("Invalid file format")
 
-- 
2.43.0


From 96b80297e89eb3acd744684cfcdde1745c44e7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:47 +0000
Subject: [PATCH 40/63] fix: a second model built from the same algorithm
 ignored its variable values

---
 causy/graph_model.py    | 2 ++
 causy/workspaces/cli.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 77c0383..f0d7b1d 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -540,6 +540,8 @@ def graph_model_factory(
     :return: the graph model
     """
     original_algorithm = deepcopy(algorithm)
+    # the variables are resolved in a copy: the algorithm can be used again with other values
+    algorithm = deepcopy(algorithm)
     if variables is None and algorithm.variables is not None:
         variables = resolve_variables(algorithm.variables, {})
     elif variables is None:
diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index f486b7b..09b4385 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -309,7 +309,7 @@ def _execute_experiment(workspace: Workspace, experiment: Experiment) -> Result:
         nodes=model.graph.nodes,
         variables=variables,
         data_loader_hash=data_loader.hash(),
-        algorithm_hash=pipeline.hash(),
+        algorithm_hash=model.algorithm.hash(),
         variables_hash=hash_dictionary(variables),
     )
 
-- 
2.43.0


From 0c8787ce87e47917516ca0618eb4d21ea292390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:47 +0000
Subject: [PATCH 41/63] fix: experiments which do not set every variable could
 not be executed

---
 causy/workspaces/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 09b4385..5eae936 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -278,7 +278,7 @@ def _execute_experiment(workspace: Workspace, experiment: Experiment) -> Result:
 
     typer.echo(f"Loading Data: {experiment.dataloader}")
     data_loader = load_data_loader(workspace.dataloaders[experiment.dataloader])
-    model = graph_model_factory(pipeline, experiment.variables)()
+    model = graph_model_factory(pipeline, variables)()
     model.create_graph_from_data(data_loader)
     model.create_all_possible_edges()
     task_count = len(model.pipeline_steps)
-- 
2.43.0


From 867fce5a2e049edea58e7ca81300a3c103bfce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:45 +0000
Subject: [PATCH 42/63] fix: experiments without variables and pipelines
 without variables could not be executed

---
 causy/variables.py      | 7 ++++---
 causy/workspaces/cli.py | 9 ++++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/causy/variables.py b/causy/variables.py
index a849085..0ca56f8 100644
--- a/causy/variables.py
+++ b/causy/variables.py
@@ -158,9 +158,9 @@ def validate_variable_values(algorithm, variable_values: Dict[str, VariableType]
     :param variable_values:
     :return:
     """
-    algorithm_variables = {avar.name: avar for avar in algorithm.variables}
+    algorithm_variables = {avar.name: avar for avar in algorithm.variables or []}
 
-    for variable_name, variable_value in variable_values.items():
+    for variable_name, variable_value in (variable_values or {}).items():
         if variable_name not in algorithm_variables.keys():
             raise ValueError(
                 f"Variable {variable_name} not found in the algorithm variables."
@@ -180,7 +180,8 @@ def resolve_variables(
     :return:
     """
     resolved_variables = {}
-    for variable in variables:
+    variable_values = variable_values or {}
+    for variable in variables or []:
         if variable.name in variable_values:
             resolved_variables[variable.name] = variable_values[variable.name]
         else:
diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 5eae936..f7d7e22 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -203,7 +203,7 @@ def _create_experiment(workspace: Workspace) -> Workspace:
         workspace.pipelines[experiment_pipeline].type,
         workspace.pipelines[experiment_pipeline].reference,
     )
-    if len(pipeline.variables) > 0:
+    if pipeline.variables:
         variables = resolve_variables(pipeline.variables, {})
 
     workspace.experiments[experiment_slug] = Experiment(
@@ -534,7 +534,7 @@ def update_experiment_variable(
     )
 
     current_variable = None
-    for existing_variable in pipeline.variables:
+    for existing_variable in pipeline.variables or []:
         if variable_name == existing_variable.name:
             current_variable = existing_variable
             break
@@ -556,7 +556,10 @@ def update_experiment_variable(
         show_error(f"Variable {variable_name} is not a valid value.")
         return
 
-    experiment.variables[variable_name] = variable_value
+    experiment.variables = {
+        **(experiment.variables or {}),
+        variable_name: variable_value,
+    }
 
     write_to_workspace(workspace)
 
-- 
2.43.0


From aabb19d838b514bf6ba438d27a9f0eedb6089710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:16 +0000
Subject: [PATCH 43/63] fix: references were left unresolved when no variable
 value is given or the algorithm has no variables

---
 causy/graph_model.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index f0d7b1d..a79f898 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -542,15 +542,12 @@ def graph_model_factory(
     original_algorithm = deepcopy(algorithm)
     # the variables are resolved in a copy: the algorithm can be used again with other values
     algorithm = deepcopy(algorithm)
-    if variables is None and algorithm.variables is not None:
+    if not variables:
         variables = resolve_variables(algorithm.variables, {})
-    elif variables is None:
-        variables = {}
 
-    if len(variables) > 0:
-        algorithm.pipeline_steps = resolve_variables_to_algorithm_for_pipeline_steps(
-            algorithm.pipeline_steps, variables
-        )
+    algorithm.pipeline_steps = resolve_variables_to_algorithm_for_pipeline_steps(
+        algorithm.pipeline_steps, variables
+    )
 
     bases = tuple()
     if algorithm.edge_types is not None:
-- 
2.43.0


From aa3417f79726e08b2e2221524287a97d5e8d3ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:36 +0000
Subject: [PATCH 44/63] fix: a file like experiment_data.json in the workspace
 broke every command for the experiment

---
 causy/workspaces/cli.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index f7d7e22..57481ea 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -1,5 +1,6 @@
 import json
 import logging
+import re
 from collections import OrderedDict
 from datetime import datetime
 from typing import List, Dict
@@ -354,13 +355,11 @@ def _load_experiment_versions(workspace: Workspace, experiment_name: str) -> Lis
         # check for files if they have the right prefix followed by a unix timestamp (int) and the file extension, e.g. experiment_123456789.json.
         # Extract the unix timestamp
         if file.startswith(f"{experiment_name}_") and file.endswith(".json"):
-            segments = file.split("_")
-            timestamp = int(segments[-1].split(".")[0])
-            name = "_".join(segments[:-1])
-            if name != experiment_name:
-                # an experiment with a different name
+            timestamp = file[len(f"{experiment_name}_") : -len(".json")]
+            if not re.fullmatch("[0-9]+", timestamp):
+                # another file or an experiment with a different name
                 continue
-            versions.append(timestamp)
+            versions.append(int(timestamp))
     return sorted(versions, reverse=True)
 
 
-- 
2.43.0


From 11679ed743ad21928e83a6af602fbd2a50dc22bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:36 +0000
Subject: [PATCH 45/63] fix: update-variable set bool variables to True
 whatever value was given

---
 causy/workspaces/cli.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 57481ea..a7b11c5 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -543,8 +543,12 @@ def update_experiment_variable(
 
     # try to cast the variable value to the correct type
     try:
-        variable_value = current_variable._PYTHON_TYPE(variable_value)
-    except ValueError:
+        if current_variable._PYTHON_TYPE is bool:
+            # bool("False") is True
+            variable_value = {"true": True, "false": False}[variable_value.lower()]
+        else:
+            variable_value = current_variable._PYTHON_TYPE(variable_value)
+    except (ValueError, KeyError):
         show_error(
             f'Variable {variable_name} should be {current_variable.type}. But got "{variable_value}" which is not a valid value.'
         )
-- 
2.43.0


From c22345023ed41c35c760ecdabf69a03f92efdc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:36 +0000
Subject: [PATCH 46/63] fix: update-variable crashed on values which are not in
 the list of choices

---
 causy/workspaces/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index a7b11c5..746df7b 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -555,7 +555,7 @@ def update_experiment_variable(
         return
 
     # check if the variable is a valid value
-    if not validate_variable_values(pipeline, {variable_name: variable_value}):
+    if not current_variable.is_valid_value(variable_value):
         show_error(f"Variable {variable_name} is not a valid value.")
         return
 
-- 
2.43.0


From 4950ce4c240c7e08e0641f91e8c484d5277cebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:36 +0000
Subject: [PATCH 47/63] fix: strings like 1e5 or 0o7 in the workspace changed
 their type when it was saved

---
 causy/workspaces/cli.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 746df7b..ab260c7 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -1,7 +1,6 @@
 import json
 import logging
 import re
-from collections import OrderedDict
 from datetime import datetime
 from typing import List, Dict
 
@@ -11,7 +10,6 @@ import typer
 import os
 import sys
 
-import yaml
 from markdown.extensions.toc import slugify
 from pydantic_yaml import to_yaml_str
 from jinja2 import (
@@ -80,14 +78,8 @@ def show_success(message: str):
 
 def write_to_workspace(workspace: Workspace):
     workspace_path = os.path.join(os.getcwd(), WORKSPACE_FILE_NAME)
-    ordered_val = OrderedDict(json.loads(workspace.model_dump_json()))
-    yaml.add_representer(
-        OrderedDict,
-        lambda dumper, data: dumper.represent_mapping(
-            "tag:yaml.org,2002:map", data.items()
-        ),
-    )
-    output = yaml.dump(ordered_val)
+    # the same yaml version as used for reading the workspace
+    output = to_yaml_str(workspace)
     with open(workspace_path, "w") as f:
         f.write(output)
 
-- 
2.43.0


From b91f3486bdd62104346dd4bca534c2325f81e87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:36 +0000
Subject: [PATCH 48/63] fix: algorithm files in a sibling folder with the same
 prefix were accepted as inside of the workspace

---
 causy/serialization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/serialization.py b/causy/serialization.py
index 87463c7..2aff3a1 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -66,8 +66,8 @@ def load_algorithm_by_reference(reference_type: str, algorithm: str):
         # validate if the reference points only in the same directory or subdirectory
         # to avoid security issues
         absolute_path = os.path.realpath(algorithm)
-        common_prefix = os.path.commonprefix([os.getcwd(), absolute_path])
-        if common_prefix != os.getcwd():
+        common_path = os.path.commonpath([os.path.realpath(os.getcwd()), absolute_path])
+        if common_path != os.path.realpath(os.getcwd()):
             raise ValueError("Invalid reference")
 
         with open(absolute_path, "r") as file:
-- 
2.43.0


From e0b2aaa22a2ed61c3453aa37eeba7b949e4b6dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:59 +0000
Subject: [PATCH 49/63] fix: bool variables of an experiment were saved as 1.0
 in the workspace, which made it unusable

---
 causy/interfaces.py | 2 +-
 causy/variables.py  | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/causy/interfaces.py b/causy/interfaces.py
index 8bdd514..6baae74 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -25,7 +25,7 @@ DEFAULT_THRESHOLD = 0.01
 
 AS_MANY_AS_FIELDS = 0
 
-MetadataBaseType = Union[str, int, float, bool]
+MetadataBaseType = Union[bool, str, int, float]
 MetadataType = Union[
     str, int, float, bool, List[MetadataBaseType], Dict[str, MetadataBaseType]
 ]
diff --git a/causy/variables.py b/causy/variables.py
index 0ca56f8..79e0855 100644
--- a/causy/variables.py
+++ b/causy/variables.py
@@ -8,7 +8,8 @@ from pydantic import BaseModel, computed_field
 
 VariableInterfaceType = TypeVar("VariableInterfaceType")
 
-VariableType = Union[str, int, float, bool]
+# bool first: pydantic would serialize a bool as a float otherwise
+VariableType = Union[bool, str, int, float]
 
 
 class VariableTypes(enum.Enum):
@@ -29,8 +30,8 @@ class BaseVariable(BaseModel, Generic[VariableInterfaceType]):
         self.validate_value(self.value)
 
     name: str
-    value: Union[str, int, float, bool]
-    choices: Optional[List[Union[str, int, float, bool]]] = None
+    value: VariableType
+    choices: Optional[List[VariableType]] = None
 
     def is_valid(self):
         return self.is_valid_value(self.value)
-- 
2.43.0


From ef30cdd50028cb6ad1a17b79358d4066ea035b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:55 +0000
Subject: [PATCH 50/63] fix: diff showed edges of opposite direction as if they
 had the same direction

---
 causy/workspaces/cli.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index ab260c7..563a4bb 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -738,6 +738,19 @@ def execute(experiment_name: str = None, force_reexecution: bool = False):
         _save_experiment_result(workspace, experiment_name, result)
 
 
+def _edge_representation(edge, reference_edge) -> str:
+    """
+    Return the string representation of an edge, read in the direction of the reference edge.
+    :param edge: the edge
+    :param reference_edge: an edge between the same nodes
+    :return: the string representation
+    """
+    representation = edge.edge_type.STR_REPRESENTATION
+    if edge.edge_type.IS_DIRECTED and edge.u != reference_edge.u:
+        return representation.translate(str.maketrans("<>", "><"))[::-1]
+    return representation
+
+
 @workspace_app.command()
 def diff(experiment_names: List[str], only_differences: bool = False):
     """
@@ -837,7 +850,7 @@ def diff(experiment_names: List[str], only_differences: bool = False):
         table.add_row(
             *[f"{first_element.u.name} - {first_element.v.name}"]
             + [
-                f"{row[experiment].edge_type.STR_REPRESENTATION}"
+                _edge_representation(row[experiment], first_element)
                 if row[experiment]
                 else ""
                 for experiment in resolved_experiments
-- 
2.43.0


From 156f599956848b0f6d50269b77cfb84165a95aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:01 +0000
Subject: [PATCH 51/63] revert: leave the independence tests as they were

---
 .../constraint/independence_tests/common.py   | 46 ++++++++++---------
 causy/math_utils.py                           | 10 ----
 2 files changed, 24 insertions(+), 32 deletions(-)

diff --git a/causy/causal_discovery/constraint/independence_tests/common.py b/causy/causal_discovery/constraint/independence_tests/common.py
index 2977def..aa3f84b 100644
--- a/causy/causal_discovery/constraint/independence_tests/common.py
+++ b/causy/causal_discovery/constraint/independence_tests/common.py
@@ -7,7 +7,7 @@ import torch
 from scipy import stats
 
 from causy.generators import AllCombinationsGenerator, PairsWithNeighboursGenerator
-from causy.math_utils import clamp_correlation, get_t_and_critical_t
+from causy.math_utils import get_t_and_critical_t
 from causy.interfaces import (
     PipelineStepInterface,
     BaseGraphInterface,
@@ -44,12 +44,7 @@ class CorrelationCoefficientTest(
 
         # Use Fisher's Z test for independency of u and v
         sample_size = len(x.values)
-        try:
-            corr = graph.edge_value(x, y)["correlation"]
-        except (KeyError, TypeError):
-            # there is no edge (or no correlation) to test
-            return
-        corr = clamp_correlation(corr)
+        corr = graph.edge_value(x, y)["correlation"]
 
         # Fisher's Z transformation
         fisher_z = 0.5 * math.log((1 + corr) / (1 - corr))
@@ -131,7 +126,7 @@ class PartialCorrelationTest(
             if denominator == 0:
                 return
 
-            par_corr = clamp_correlation(numerator / denominator)
+            par_corr = numerator / denominator
 
             # make t test for independency of u and v given z
             sample_size = len(x.values)
@@ -207,8 +202,7 @@ class ExtendedPartialCorrelationTestMatrix(
 
         if not set(nodes[2:]).issubset(set([on for on in list(other_neighbours)])):
             return
-        # use standardized variables: the determinant must not depend on the units of the variables
-        cov_matrix = torch.corrcoef(
+        cov_matrix = torch.cov(
             torch.stack([graph.nodes[node].values for node in nodes])
         )
         # check if the covariance matrix is ill-conditioned
@@ -232,7 +226,6 @@ class ExtendedPartialCorrelationTestMatrix(
         par_corr = (-1 * precision_matrix[0][1]) / torch.sqrt(
             precision_matrix[0][0] * precision_matrix[1][1]
         )
-        par_corr = clamp_correlation(par_corr.item())
 
         sample_size = len(graph.nodes[nodes[0]].values)
         nb_of_control_vars = len(nodes) - 2
@@ -247,7 +240,7 @@ class ExtendedPartialCorrelationTestMatrix(
         p_value = 2 * (1 - stats.norm.cdf(z_value))
 
         # If the p value is smaller than the threshold, the null hypothesis (conditional independence) is rejected, otherwise we accept it and delete the edge
-        separators = [graph.nodes[n] for n in nodes[2:]]
+        nodes_set = set([graph.nodes[n] for n in nodes])
         if p_value > self.threshold:
             logger.debug(
                 f"Nodes {graph.nodes[nodes[0]].name} and {graph.nodes[nodes[1]].name} are uncorrelated given nodes {','.join([graph.nodes[on].name for on in other_neighbours])}"
@@ -257,11 +250,15 @@ class ExtendedPartialCorrelationTestMatrix(
                 v=graph.nodes[nodes[1]],
                 action=TestResultAction.REMOVE_EDGE_UNDIRECTED,
                 data={
-                    "separatedBy": separators,
+                    "separatedBy": list(
+                        nodes_set - {graph.nodes[nodes[0]], graph.nodes[nodes[1]]}
+                    ),
                     "triple": [
                         graph.nodes[nodes[0]],
                         graph.nodes[nodes[1]],
-                        separators,
+                        list(
+                            nodes_set - {graph.nodes[nodes[0]], graph.nodes[nodes[1]]}
+                        ),
                     ],
                 },
             )
@@ -274,7 +271,9 @@ class ExtendedPartialCorrelationTestMatrix(
                     "triple": [
                         graph.nodes[nodes[0]],
                         graph.nodes[nodes[1]],
-                        separators,
+                        list(
+                            nodes_set - {graph.nodes[nodes[0]], graph.nodes[nodes[1]]}
+                        ),
                     ],
                 },
             )
@@ -291,9 +290,6 @@ def partial_correlation_regression(x, y, z):
     Returns:
     partial_corr : torch.Tensor : Partial correlation coefficient between x and y.
     """
-    # center the variables because the regressions are fitted without an intercept
-    x, y, z = x - x.mean(), y - y.mean(), z - z.mean(dim=1, keepdim=True)
-
     # Define linear regression model
     model_x = torch.linalg.lstsq(z.T, x).solution
     model_y = torch.linalg.lstsq(z.T, y).solution
@@ -341,7 +337,7 @@ class ExtendedPartialCorrelationTestLinearRegression(
             partial_correlation.item(),
             self.threshold,
         )
-        separators = [graph.nodes[n] for n in nodes[2:]]
+        nodes_set = set([graph.nodes[n] for n in nodes])
         if abs(t) < critical_t:
             logger.debug(
                 f"Nodes {graph.nodes[nodes[0]].name} and {graph.nodes[nodes[1]].name} are uncorrelated given nodes {','.join([graph.nodes[on].name for on in other_neighbours])}"
@@ -351,11 +347,15 @@ class ExtendedPartialCorrelationTestLinearRegression(
                 v=graph.nodes[nodes[1]],
                 action=TestResultAction.REMOVE_EDGE_UNDIRECTED,
                 data={
-                    "separatedBy": separators,
+                    "separatedBy": list(
+                        nodes_set - {graph.nodes[nodes[0]], graph.nodes[nodes[1]]}
+                    ),
                     "triple": [
                         graph.nodes[nodes[0]],
                         graph.nodes[nodes[1]],
-                        separators,
+                        list(
+                            nodes_set - {graph.nodes[nodes[0]], graph.nodes[nodes[1]]}
+                        ),
                     ],
                 },
             )
@@ -368,7 +368,9 @@ class ExtendedPartialCorrelationTestLinearRegression(
                     "triple": [
                         graph.nodes[nodes[0]],
                         graph.nodes[nodes[1]],
-                        separators,
+                        list(
+                            nodes_set - {graph.nodes[nodes[0]], graph.nodes[nodes[1]]}
+                        ),
                     ]
                 },
             )
diff --git a/causy/math_utils.py b/causy/math_utils.py
index 2d7c4d5..c679e66 100644
--- a/causy/math_utils.py
+++ b/causy/math_utils.py
@@ -14,16 +14,6 @@ def sum_lists(*lists):
     return list(map(sum, zip(*lists)))
 
 
-def clamp_correlation(corr):
-    """
-    Keep a (partial) correlation within the open interval (-1, 1) in which Fisher's Z transformation is defined.
-    :param corr: the correlation, may be exactly -1 or 1 or even slightly exceed it due to numerical errors
-    :return: the clamped correlation
-    """
-    limit = 1 - 1e-15
-    return max(-limit, min(limit, corr))
-
-
 def get_t_and_critical_t(sample_size, nb_of_control_vars, par_corr, threshold):
     # TODO: rewrite this function with torch
     # check if we have to normalize data
-- 
2.43.0


From 8e6d9398913bb7e3c1ab0d2ed44b34cc2995e1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:17 +0000
Subject: [PATCH 52/63] fix: CalculatePearsonCorrelations writes its result to
 the edge as before, hooks and tests rely on it

---
 causy/common_pipeline_steps/calculation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causy/common_pipeline_steps/calculation.py b/causy/common_pipeline_steps/calculation.py
index 3161afc..3a6c258 100644
--- a/causy/common_pipeline_steps/calculation.py
+++ b/causy/common_pipeline_steps/calculation.py
@@ -29,8 +29,10 @@ class CalculatePearsonCorrelations(
         """
         x = graph.nodes[nodes[0]]
         y = graph.nodes[nodes[1]]
-        # copy the value: changes are applied to the graph by the returned action
-        edge_value = dict(graph.edge_value(x, y) or {})
+        edge_value = graph.edge_value(graph.nodes[nodes[0]], graph.nodes[nodes[1]])
+        if edge_value is None:
+            # there is no edge, the update will be ignored
+            edge_value = {}
 
         x_val = x.values
         y_val = y.values
-- 
2.43.0


From c840709e1eace16a98ba8518b2caa6f707eb047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:38 +0000
Subject: [PATCH 53/63] fix: orientation rules crashed on nodes which never had
 an edge

---
 .../causal_discovery/constraint/orientation_rules/fci.py  | 4 +++-
 causy/causal_discovery/constraint/orientation_rules/pc.py | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/causy/causal_discovery/constraint/orientation_rules/fci.py b/causy/causal_discovery/constraint/orientation_rules/fci.py
index 7c7d832..0ab932e 100644
--- a/causy/causal_discovery/constraint/orientation_rules/fci.py
+++ b/causy/causal_discovery/constraint/orientation_rules/fci.py
@@ -52,7 +52,9 @@ class ColliderRuleFCI(
             return
 
         # if u and v are NOT adjacent, store all shared adjacent nodes
-        potential_zs = [z for z in graph.edges[x.id] if z in graph.edges[y.id]]
+        potential_zs = [
+            z for z in graph.edges.get(x.id, {}) if z in graph.edges.get(y.id, {})
+        ]
 
         actions = graph.retrieve_edge_history(
             x, y, TestResultAction.REMOVE_EDGE_UNDIRECTED
diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index f3709ac..b60438d 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -116,7 +116,9 @@ class ColliderTest(
             return
 
         # if u and v are NOT adjacent, store all shared adjacent nodes
-        potential_zs = [z for z in graph.edges[x.id] if z in graph.edges[y.id]]
+        potential_zs = [
+            z for z in graph.edges.get(x.id, {}) if z in graph.edges.get(y.id, {})
+        ]
 
         actions = graph.retrieve_edge_history(
             x, y, TestResultAction.REMOVE_EDGE_UNDIRECTED
@@ -240,7 +242,9 @@ class NonColliderTest(
             return
 
         # if u and v are NOT adjacent, store all shared adjacent nodes
-        potential_zs = [z for z in graph.edges[x.id] if z in graph.edges[y.id]]
+        potential_zs = [
+            z for z in graph.edges.get(x.id, {}) if z in graph.edges.get(y.id, {})
+        ]
         # if one edge has an arrowhead at z, orient the other one pointing away from z.
         # It cannot be a collider because we have already oriented all unshielded triples that contain colliders.
         for z in potential_zs:
-- 
2.43.0


From 887e548b88b7e691f0ccb40dff639bd6e2700f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:46 +0000
Subject: [PATCH 54/63] fix: a result was stored with the hash of data which
 changed while the experiment was running

The hash was computed after the pipeline had finished. If the data changed in the meantime, the result of the old data
was taken for the result of the new data and the experiment was never executed again.
---
 causy/workspaces/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 563a4bb..d7b4549 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -271,6 +271,8 @@ def _execute_experiment(workspace: Workspace, experiment: Experiment) -> Result:
 
     typer.echo(f"Loading Data: {experiment.dataloader}")
     data_loader = load_data_loader(workspace.dataloaders[experiment.dataloader])
+    # the hash of the data which is loaded now - it might change while the pipeline is running
+    data_loader_hash = data_loader.hash()
     model = graph_model_factory(pipeline, variables)()
     model.create_graph_from_data(data_loader)
     model.create_all_possible_edges()
@@ -301,7 +303,7 @@ def _execute_experiment(workspace: Workspace, experiment: Experiment) -> Result:
         edges=model.graph.retrieve_edges(),
         nodes=model.graph.nodes,
         variables=variables,
-        data_loader_hash=data_loader.hash(),
+        data_loader_hash=data_loader_hash,
         algorithm_hash=model.algorithm.hash(),
         variables_hash=hash_dictionary(variables),
     )
-- 
2.43.0


From 65d3e60ce01e8b4f23a4b1856f198028958ec5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:46 +0000
Subject: [PATCH 55/63] fix: two results of an experiment created within one
 second overwrote each other

---
 causy/workspaces/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index d7b4549..9b53220 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -359,6 +359,9 @@ def _load_experiment_versions(workspace: Workspace, experiment_name: str) -> Lis
 
 def _save_experiment_result(workspace: Workspace, experiment_name: str, result: Result):
     timestamp = int(datetime.timestamp(result.created_at))
+    # do not overwrite a result which was created within the same second
+    while os.path.exists(f"{experiment_name}_{timestamp}.json"):
+        timestamp += 1
     with open(f"{experiment_name}_{timestamp}.json", "w") as f:
         f.write(json.dumps(result.model_dump(), cls=CausyJSONEncoder, indent=4))
 
-- 
2.43.0


From e4f5991b15784e143d0f7ed0f284cf19cfda9775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:47 +0000
Subject: [PATCH 56/63] fix: a file like experiment_007.json in the workspace
 broke every command for the experiment

It was listed as version 7, but experiment_7.json does not exist.
---
 causy/workspaces/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 9b53220..70feb46 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -350,7 +350,7 @@ def _load_experiment_versions(workspace: Workspace, experiment_name: str) -> Lis
         # Extract the unix timestamp
         if file.startswith(f"{experiment_name}_") and file.endswith(".json"):
             timestamp = file[len(f"{experiment_name}_") : -len(".json")]
-            if not re.fullmatch("[0-9]+", timestamp):
+            if not re.fullmatch("0|[1-9][0-9]*", timestamp):
                 # another file or an experiment with a different name
                 continue
             versions.append(int(timestamp))
-- 
2.43.0


From 6d65f84413fa7996791670a7a5e6fe58575e618d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:12 +0000
Subject: [PATCH 57/63] fix: first values of strongly coupled time series had a
 wrong standard deviation (or were NaN)

---
 causy/sample_generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causy/sample_generator.py b/causy/sample_generator.py
index 48d1e2c..3a4cac9 100644
--- a/causy/sample_generator.py
+++ b/causy/sample_generator.py
@@ -355,7 +355,7 @@ class TimeseriesSampleGenerator(AbstractSampleGenerator):
         total_cols = num_matrices * n
 
         # Create an empty tensor to hold the block diagonal matrix
-        block_diag = torch.zeros(total_rows, total_cols)
+        block_diag = torch.zeros(total_rows, total_cols, dtype=torch.float64)
 
         # Fill in the first rows with the input matrices
         for i, matrix in enumerate(matrices):
@@ -399,7 +399,7 @@ class TimeseriesSampleGenerator(AbstractSampleGenerator):
 
     def vectorize_identity_block(self, n):
         # Create an empty tensor
-        matrix = torch.zeros(n, n)
+        matrix = torch.zeros(n, n, dtype=torch.float64)
 
         # Fill the upper left block with an identity matrix
         matrix[: n // self._longest_lag, : n // self._longest_lag] = torch.eye(
@@ -432,7 +432,7 @@ class TimeseriesSampleGenerator(AbstractSampleGenerator):
         n, _ = coefficient_matrix.shape
 
         kronecker_product = torch.kron(coefficient_matrix, coefficient_matrix)
-        identity_matrix = torch.eye(n**2)
+        identity_matrix = torch.eye(n**2, dtype=torch.float64)
         cov_matrix_noise_terms_vectorized = self.vectorize_identity_block(n)
         inv_identity_minus_kronecker_product = torch.linalg.pinv(
             identity_matrix - kronecker_product
-- 
2.43.0


From 9ce5f5e9aefe61935c8d47578dc9de5a3e290797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:12 +0000
Subject: [PATCH 58/63] fix: bool values of edges were served as numbers by the
 ui

---
 causy/interfaces.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causy/interfaces.py b/causy/interfaces.py
index 6baae74..ef8a8ac 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -26,8 +26,9 @@ DEFAULT_THRESHOLD = 0.01
 AS_MANY_AS_FIELDS = 0
 
 MetadataBaseType = Union[bool, str, int, float]
+# bool first: pydantic would serialize a bool as a float otherwise
 MetadataType = Union[
-    str, int, float, bool, List[MetadataBaseType], Dict[str, MetadataBaseType]
+    bool, str, int, float, List[MetadataBaseType], Dict[str, MetadataBaseType]
 ]
 
 
-- 
2.43.0


From 7f803ea6e8aecfb609d92297ef8dee8c52359fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:29 +0000
Subject: [PATCH 59/63] fix: the ui served a wrong version number or an error
 500 if the latest result changed during the request

---
 causy/ui/server.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/causy/ui/server.py b/causy/ui/server.py
index 202f3bb..d148e66 100644
--- a/causy/ui/server.py
+++ b/causy/ui/server.py
@@ -16,7 +16,6 @@ from causy.models import (
 from causy.serialization import load_algorithm_by_reference
 from causy.ui.models import ExtendedResult, ExtendedExperiment, ExperimentVersion
 from causy.workspaces.cli import (
-    _load_latest_experiment_result,
     _load_experiment_versions,
     _load_experiment_result,
 )
@@ -67,12 +66,17 @@ async def get_latest_experiment(experiment_name: str):
         raise HTTPException(404, "Experiment not found")
 
     try:
-        experiment = _load_latest_experiment_result(WORKSPACE, experiment_name)
+        # the versions might change at any time: load the one which is served as latest
+        versions = _load_experiment_versions(WORKSPACE, experiment_name)
+        if len(versions) == 0:
+            raise ValueError(
+                f"Experiment {experiment_name} not found in the file system"
+            )
+        version = versions[0]
+        experiment = _load_experiment_result(WORKSPACE, experiment_name, version)
     except Exception as e:
         raise HTTPException(400, str(e))
 
-    version = _load_experiment_versions(WORKSPACE, experiment_name)[0]
-
     experiment["algorithm"] = AlgorithmReference(**experiment["algorithm"])
     experiment["version"] = version
     experiment = ExtendedResult(**experiment)
-- 
2.43.0


From bbc93293cd69fa433d791396247314bc83cd3cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:29 +0000
Subject: [PATCH 60/63] fix: results of two processes created within one second
 overwrote each other

---
 causy/workspaces/cli.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 70feb46..2024014 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -359,11 +359,15 @@ def _load_experiment_versions(workspace: Workspace, experiment_name: str) -> Lis
 
 def _save_experiment_result(workspace: Workspace, experiment_name: str, result: Result):
     timestamp = int(datetime.timestamp(result.created_at))
-    # do not overwrite a result which was created within the same second
-    while os.path.exists(f"{experiment_name}_{timestamp}.json"):
-        timestamp += 1
-    with open(f"{experiment_name}_{timestamp}.json", "w") as f:
-        f.write(json.dumps(result.model_dump(), cls=CausyJSONEncoder, indent=4))
+    content = json.dumps(result.model_dump(), cls=CausyJSONEncoder, indent=4)
+    # do not overwrite a result which was created within the same second, e.g. by another process
+    while True:
+        try:
+            with open(f"{experiment_name}_{timestamp}.json", "x") as f:
+                f.write(content)
+            return
+        except FileExistsError:
+            timestamp += 1
 
 
 @pipeline_app.command(name="add")
-- 
2.43.0


From e74b716ae9c4995ed61ce97591bb7d7b78d63251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:29 +0000
Subject: [PATCH 61/63] fix: rows with a column called _dict could not be
 loaded

---
 causy/graph_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index a79f898..70ec9ab 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -144,7 +144,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
 
         # load nodes into node dict
         for row in data_loader.load():
-            if isinstance(row, dict) and "_dict" in row:
+            if isinstance(row, dict) and isinstance(row.get("_dict"), dict):
                 # edge case for when data is in a dict of lists
                 return self.__create_graph_from_dict(row["_dict"])
 
-- 
2.43.0


From 531a8c2552cd023bf07aaeaf71ab4c180e88687a Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Wed, 18 Nov 2026 16:29:23 +0000
Subject: [PATCH 62/63] fix: diff showed variables and experiments with
 brackets in their name under a wrong name (or failed)

---
 causy/workspaces/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 2024014..18beb23 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -20,6 +20,7 @@ from jinja2 import (
     PackageLoader,
 )
 from rich.console import Console
+from rich.markup import escape
 from rich.progress import Progress, SpinnerColumn, TextColumn
 from rich.table import Table
 
@@ -843,7 +844,7 @@ def diff(experiment_names: List[str], only_differences: bool = False):
     table.add_column("Edge")
 
     for experiment in resolved_experiments:
-        table.add_column(experiment, justify="center")
+        table.add_column(escape(experiment), justify="center")
 
     for row in experiment_table:
         elements = [key for key in row.values()]
@@ -857,7 +858,7 @@ def diff(experiment_names: List[str], only_differences: bool = False):
         if only_differences and all_elements_same:
             continue
         table.add_row(
-            *[f"{first_element.u.name} - {first_element.v.name}"]
+            *[escape(f"{first_element.u.name} - {first_element.v.name}")]
             + [
                 _edge_representation(row[experiment], first_element)
                 if row[experiment]
-- 
2.43.0


From ef27660d90518997851f2ac1b312e3008fcf62a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:06 +0000
Subject: [PATCH 63/63] fix: init wrote the workspace although its prompts were
 left with ctrl-c

---
 causy/workspaces/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 18beb23..b108145 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -669,6 +669,8 @@ def init():
                 ),
             ],
         ).ask()
+        if data_loader_type is None:
+            raise typer.Abort()
 
         if data_loader_type in ["json", "jsonl"]:
             data_loader_path = questionary.path(
-- 
2.43.0

