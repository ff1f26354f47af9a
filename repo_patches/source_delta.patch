From 590eaec43d0e6f8413df407a85a4d3faad282236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:22 +0000
Subject: [PATCH 01/36] fix: remove_edge drops the matching entries of the
 reverse edge index

Removing u -> v deleted the reverse entry of v -> u, so removing an edge
which exists in one direction only raised KeyError after the forward index
was already changed.
---
 causy/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 9e22e05..21e2735 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -775,12 +775,12 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
         if u.id in self.edges and v.id in self.edges[u.id]:
             self._deleted_edges[u.id][v.id] = self.edges[u.id][v.id]
             del self.edges[u.id][v.id]
-            del self._reverse_edges[u.id][v.id]
+            del self._reverse_edges[v.id][u.id]
 
         if v.id in self.edges and u.id in self.edges[v.id]:
             self._deleted_edges[v.id][u.id] = self.edges[v.id][u.id]
             del self.edges[v.id][u.id]
-            del self._reverse_edges[v.id][u.id]
+            del self._reverse_edges[u.id][v.id]
 
     def restore_edge(self, u: Node, v: Node):
         """
-- 
2.43.0


From 483662751d1e004c86eb901eb8a73635ad385c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:12 +0000
Subject: [PATCH 02/36] fix: edge_value and edge_type only read a live edge of
 the asked direction

When only v -> u existed they raised KeyError, and when u -> v was soft
deleted they returned the data of the deleted edge.
---
 causy/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 21e2735..2b389dd 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -178,7 +178,7 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
-        if not self.edge_exists(u, v):
+        if not self.directed_edge_exists(u, v):
             return None
         return self.edges[u][v].metadata
 
@@ -195,7 +195,7 @@ class GraphBaseAccessMixin:
             u = u.id
         if isinstance(v, Node):
             v = v.id
-        if not self.edge_exists(u, v):
+        if not self.directed_edge_exists(u, v):
             return None
         return self.edges[u][v].edge_type
 
-- 
2.43.0


From 8f1b36a1e47876556dae6a56fcb8f816ee946406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:12 +0000
Subject: [PATCH 03/36] fix: parents_of_node returns no parents for a node
 without any edges

It raised KeyError for nodes which never had an edge.
---
 causy/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/graph.py b/causy/graph.py
index 2b389dd..b62c832 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -95,7 +95,7 @@ class GraphBaseAccessMixin:
 
         return [
             self.nodes[n]
-            for n in self._reverse_edges[u].keys()
+            for n in self._reverse_edges.get(u, {}).keys()
             if not self.directed_edge_is_soft_deleted(n, u)
         ]
 
-- 
2.43.0


From c89b0bf857a98b479d8f057f0a9b9018028ae820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:12 +0000
Subject: [PATCH 04/36] fix: graph_utils.retrieve_edges does not return soft
 deleted edges

---
 causy/graph_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causy/graph_utils.py b/causy/graph_utils.py
index b49c6ca..f20c84f 100644
--- a/causy/graph_utils.py
+++ b/causy/graph_utils.py
@@ -48,7 +48,8 @@ def retrieve_edges(graph) -> List[Tuple[str, str]]:
     edges = []
     for u in graph.edges:
         for v in graph.edges[u]:
-            edges.append((u, v))
+            if not graph.edges[u][v].deleted:
+                edges.append((u, v))
     return edges
 
 
-- 
2.43.0


From d3014941797176ebe3dbce08faac15e5e2541eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:44 +0000
Subject: [PATCH 05/36] fix: restore_edge and restore_directed_edge bring back
 exactly the removed directions

---
 causy/graph.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index b62c832..9523c56 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -794,19 +794,30 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
         if v.id not in self.nodes:
             raise GraphError(f"Node {v} does not exist")
 
+        restored_uv = self._restore_direction(u, v)
+        restored_vu = self._restore_direction(v, u)
+        if not restored_uv and not restored_vu:
+            raise GraphError(f"There is no removed edge between {u} and {v}")
+
+    def _restore_direction(self, u: Node, v: Node) -> bool:
+        """
+        Restore the edge u -> v if it is soft deleted or was removed before
+        :param u:
+        :param v:
+        :return: True if the edge exists now, False if there is nothing to restore
+        """
         if u.id in self.edges and v.id in self.edges[u.id]:
             self.edges[u.id][v.id].deleted = False
             self._reverse_edges[v.id][u.id].deleted = False
-        else:
-            self.add_edge(u, v, self._deleted_edges[u.id][v.id].metadata)
+            return True
+
+        if u.id in self._deleted_edges and v.id in self._deleted_edges[u.id]:
+            edge = self._deleted_edges[u.id][v.id]
+            self.add_directed_edge(u, v, edge.metadata, edge.edge_type)
             del self._deleted_edges[u.id][v.id]
+            return True
 
-        if v.id in self.edges and u.id in self.edges[v.id]:
-            self.edges[v.id][u.id].deleted = False
-            self._reverse_edges[u.id][v.id].deleted = False
-        else:
-            self.add_edge(v, u, self._deleted_edges[v.id][u.id].metadata)
-            del self._deleted_edges[v.id][u.id]
+        return False
 
     def remove_directed_edge(self, u: Node, v: Node, soft_delete: bool = False):
         """
@@ -847,12 +858,8 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
         if v.id not in self.nodes:
             raise GraphError(f"Node {v} does not exist")
 
-        if u.id in self.edges and v.id in self.edges[u.id]:
-            self.edges[u.id][v.id].deleted = False
-            self._reverse_edges[v.id][u.id].deleted = False
-        else:
-            self.add_directed_edge(u, v, self._deleted_edges[u.id][v.id].metadata)
-            del self._deleted_edges[u.id][v.id]
+        if not self._restore_direction(u, v):
+            raise GraphError(f"There is no removed edge from {u} to {v}")
 
     def update_edge(
         self,
-- 
2.43.0


From 2ab31c3a668a2636efff2d3b52438dbdcdf83042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:31 +0000
Subject: [PATCH 06/36] fix: update and remove actions are skipped unless the
 edge they name exists

---
 causy/graph_model.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 2f7222a..ab692c5 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -337,7 +337,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                     self.graph.add_edge_history(i.v, i.u, i)
                     self._execute_hook("post_edge_remove_hook", i)
                 elif i.action == TestResultAction.UPDATE_EDGE:
-                    if not self.graph.edge_exists(i.u, i.v):
+                    if not self.graph.undirected_edge_exists(i.u, i.v):
                         logger.debug(
                             f"Tried to update edge {i.u.name} -> {i.v.name}. But it does not exist."
                         )
@@ -361,9 +361,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                 elif i.action == TestResultAction.DO_NOTHING:
                     continue
                 elif i.action == TestResultAction.REMOVE_EDGE_DIRECTED:
-                    if not self.graph.directed_edge_exists(
-                        i.u, i.v
-                    ) and not self.graph.edge_exists(i.u, i.v):
+                    if not self.graph.directed_edge_exists(i.u, i.v):
                         logger.debug(
                             f"Tried to remove directed edge {i.u.name} -> {i.v.name}. But it does not exist."
                         )
@@ -380,7 +378,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                     self.graph.add_edge_history(i.u, i.v, i)
                     self._execute_hook("post_edge_remove_hook", i)
                 elif i.action == TestResultAction.UPDATE_EDGE_TYPE:
-                    if not self.graph.edge_exists(i.u, i.v):
+                    if not self.graph.undirected_edge_exists(i.u, i.v):
                         logger.debug(
                             f"Tried to update edge type {i.u.name} <-> {i.v.name}. But it does not exist."
                         )
-- 
2.43.0


From f50325e94460666826299d84eaf82eb9fb327af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:31 +0000
Subject: [PATCH 07/36] fix: soft deleted edges are purged after logic steps
 too

---
 causy/graph_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index ab692c5..47a2562 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -209,6 +209,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
             if isinstance(filter, LogicStepInterface):
                 actions_taken = filter.execute(self.graph.graph, self)
                 self.graph.graph.action_history.append(actions_taken)
+                self.graph.purge_soft_deleted_edges()
                 continue
             yield {
                 "step": filter.__class__.__name__,
-- 
2.43.0


From 15bf49beb754fd2e90a2cb7e90fad894b7e47b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:40 +0000
Subject: [PATCH 08/36] fix: test results carry the edge type of an edge type
 action

---
 causy/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causy/models.py b/causy/models.py
index 96f5f13..ede176f 100644
--- a/causy/models.py
+++ b/causy/models.py
@@ -57,6 +57,7 @@ class TestResult(TestResultInterface):
     v: NodeInterface
     action: TestResultAction
     data: Optional[Dict] = None
+    edge_type: Optional[EdgeTypeInterface] = None
 
 
 class AlgorithmReferenceType(str, enum.Enum):
-- 
2.43.0


From ccddab416536a8790bf2d92246abd1485287610f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:30 +0000
Subject: [PATCH 09/36] fix: pipeline steps keep every parameter they are
 created with

Explicit false or zero values and the parameters which only the concrete
step defines were silently replaced by the defaults.
---
 causy/interfaces.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/causy/interfaces.py b/causy/interfaces.py
index 0fbf88f..b259d09 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -369,27 +369,32 @@ class PipelineStepInterface(ABC, BaseModel, Generic[PipelineStepInterfaceType]):
         **kwargs,
     ) -> None:
         super().__init__()
-        if generator:
+        if generator is not None:
             if isinstance(generator, dict):
                 self.generator = load_pipeline_artefact_by_definition(generator)
             else:
                 self.generator = generator
 
-        if chunk_size_parallel_processing:
+        if chunk_size_parallel_processing is not None:
             self.chunk_size_parallel_processing = chunk_size_parallel_processing
 
-        if apply_synchronous:
+        if apply_synchronous is not None:
             self.apply_synchronous = apply_synchronous
 
-        if parallel:
+        if parallel is not None:
             self.parallel = parallel
 
-        if display_name:
+        if display_name is not None:
             self.display_name = display_name
 
-        if threshold:
+        if threshold is not None:
             self.threshold = threshold
 
+        # parameters which are only defined by the concrete pipeline step
+        for parameter, value in kwargs.items():
+            if parameter in self.model_fields and value is not None:
+                setattr(self, parameter, value)
+
     @computed_field
     @property
     def name(self) -> str:
-- 
2.43.0


From a17d3db51f54adf1aa85bc873284f53a1b111e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:30 +0000
Subject: [PATCH 10/36] fix: conflict resolution strategies given as plain
 strings are honoured

A strategy loaded from a definition is a plain string, which is never
identical to the enum member.
---
 causy/causal_discovery/constraint/orientation_rules/pc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index aa0e1c1..f0bd2c5 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -144,7 +144,7 @@ class ColliderTest(
                 if len(unapplied_actions_y_z) > 0 or len(unapplied_actions_x_z) > 0:
                     if (
                         ColliderTestConflictResolutionStrategies.KEEP_FIRST
-                        is self.conflict_resolution_strategy
+                        == self.conflict_resolution_strategy
                     ):
                         # We prioritize the first edge that was removed, we do nothing
                         if len(unapplied_actions_y_z) > 0:
@@ -174,7 +174,7 @@ class ColliderTest(
 
                     elif (
                         ColliderTestConflictResolutionStrategies.KEEP_LAST
-                        is self.conflict_resolution_strategy
+                        == self.conflict_resolution_strategy
                     ):
                         # We keep the last edge that was removed and restore the other edges
                         results.extend(generate_restores(unapplied_actions_x_z))
-- 
2.43.0


From e81ba66e2dac0db025564e9dfd45d6be6684cac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:06 +0000
Subject: [PATCH 11/36] fix: chunked PairsWithEdgesInBetweenGenerator yields
 every edge only once

After the chunks it went on to yield every edge on its own, which the
chunked execution then took for a chunk.
---
 causy/generators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causy/generators.py b/causy/generators.py
index 73a3219..0c63ff8 100644
--- a/causy/generators.py
+++ b/causy/generators.py
@@ -89,6 +89,7 @@ class PairsWithEdgesInBetweenGenerator(GeneratorInterface):
         if self.chunked:
             for i in range(0, len(edges), self.chunk_size):
                 yield edges[i : i + self.chunk_size]
+            return
 
         for edge in edges:
             yield edge
-- 
2.43.0


From dc0492ec52cf288afe72e4d550abe9787cd2b808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:06 +0000
Subject: [PATCH 12/36] fix: PairsWithNeighboursGenerator yields plain pairs
 when it is not chunked

---
 causy/generators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causy/generators.py b/causy/generators.py
index 0c63ff8..8d43ad2 100644
--- a/causy/generators.py
+++ b/causy/generators.py
@@ -151,7 +151,8 @@ class PairsWithNeighboursGenerator(GeneratorInterface):
 
                     checked_combinations.add((node, neighbour))
                     if range_size == 2:
-                        yield [[node, neighbour]]
+                        pair = [node, neighbour]
+                        yield [pair] if self.chunked else pair
                         continue
 
                     other_neighbours = set(
-- 
2.43.0


From 193cf7d2043776d1fd1e334520fda0135d0bb995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:06 +0000
Subject: [PATCH 13/36] fix: RandomSampleGenerator keeps one of every_nth
 combinations

randint includes its upper bound, so that only one of every_nth + 1
combinations was kept, and half of them with every_nth=1.
---
 causy/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/generators.py b/causy/generators.py
index 8d43ad2..583d9f1 100644
--- a/causy/generators.py
+++ b/causy/generators.py
@@ -224,5 +224,5 @@ class RandomSampleGenerator(GeneratorInterface, BaseModel):
         :return: yields a random sample of the results
         """
         for combination in self.generator.generate(graph, graph_model_instance_):
-            if random.randint(0, self.every_nth) == 0:
+            if random.randrange(self.every_nth) == 0:
                 yield combination
-- 
2.43.0


From 2615b24ae96320f2ae56d1ad01d107e679bf3f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:56 +0000
Subject: [PATCH 14/36] fix: CorrelationCoefficientTest skips pairs without an
 edge or a correlation

It failed with a TypeError or KeyError, unlike PartialCorrelationTest.
---
 .../constraint/independence_tests/common.py                | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/causy/causal_discovery/constraint/independence_tests/common.py b/causy/causal_discovery/constraint/independence_tests/common.py
index aa3f84b..446abfa 100644
--- a/causy/causal_discovery/constraint/independence_tests/common.py
+++ b/causy/causal_discovery/constraint/independence_tests/common.py
@@ -42,9 +42,14 @@ class CorrelationCoefficientTest(
         x = graph.nodes[nodes[0]]
         y = graph.nodes[nodes[1]]
 
+        # without an edge or its correlation there is nothing to test
+        edge_value = graph.edge_value(x, y)
+        if edge_value is None or "correlation" not in edge_value:
+            return
+
         # Use Fisher's Z test for independency of u and v
         sample_size = len(x.values)
-        corr = graph.edge_value(x, y)["correlation"]
+        corr = edge_value["correlation"]
 
         # Fisher's Z transformation
         fisher_z = 0.5 * math.log((1 + corr) / (1 - corr))
-- 
2.43.0


From f82a82879880363ddd8b81be5958ec98ac4fa8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:56 +0000
Subject: [PATCH 15/36] fix: calculation steps propose values instead of
 writing them into the graph

They wrote into the value of the live edge while computing the result, so
that the graph changed even when the result was not to be applied. A pair
without an edge is skipped instead of failing.
---
 .../multivariate_regression.py                        |  4 ++--
 causy/common_pipeline_steps/calculation.py            | 11 +++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/causy/causal_effect_estimation/multivariate_regression.py b/causy/causal_effect_estimation/multivariate_regression.py
index bda11b6..eeb3bb3 100644
--- a/causy/causal_effect_estimation/multivariate_regression.py
+++ b/causy/causal_effect_estimation/multivariate_regression.py
@@ -57,11 +57,11 @@ class ComputeDirectEffectsInDAGsMultivariateRegression(PipelineStepInterface):
             driver="gelsd",
         ).solution
 
-        edge_data["direct_effect"] = coefficients[0][0].item()
+        direct_effect = coefficients[0][0].item()
 
         return TestResult(
             u=graph.nodes[nodes[0]],
             v=graph.nodes[nodes[1]],
             action=TestResultAction.UPDATE_EDGE_DIRECTED,
-            data=edge_data,
+            data={**edge_data, "direct_effect": direct_effect},
         )
diff --git a/causy/common_pipeline_steps/calculation.py b/causy/common_pipeline_steps/calculation.py
index 60e0ef5..1142a2b 100644
--- a/causy/common_pipeline_steps/calculation.py
+++ b/causy/common_pipeline_steps/calculation.py
@@ -21,7 +21,9 @@ class CalculatePearsonCorrelations(
     chunk_size_parallel_processing: int = 1
     parallel: bool = False
 
-    def process(self, nodes: Tuple[str], graph: BaseGraphInterface) -> TestResult:
+    def process(
+        self, nodes: Tuple[str], graph: BaseGraphInterface
+    ) -> Optional[TestResult]:
         """
         Calculate the correlation between each pair of nodes and store it to the respective edge.
         :param nodes: list of nodes
@@ -30,6 +32,9 @@ class CalculatePearsonCorrelations(
         x = graph.nodes[nodes[0]]
         y = graph.nodes[nodes[1]]
         edge_value = graph.edge_value(graph.nodes[nodes[0]], graph.nodes[nodes[1]])
+        # there is no edge which could carry the correlation
+        if edge_value is None:
+            return
 
         x_val = x.values
         y_val = y.values
@@ -47,11 +52,9 @@ class CalculatePearsonCorrelations(
         elif correlation > 1:
             correlation = 1
 
-        edge_value["correlation"] = correlation
-
         return TestResult(
             u=x,
             v=y,
             action=TestResultAction.UPDATE_EDGE,
-            data=edge_value,
+            data={**edge_value, "correlation": correlation},
         )
-- 
2.43.0


From 1b9682802313941e8724e3f968f72a683747357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:50 +0000
Subject: [PATCH 16/36] fix: directed path queries end on cycles and only
 follow live edges

---
 causy/edge_types.py | 18 ++++++++++++------
 causy/graph.py      | 14 +++++++++++---
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/causy/edge_types.py b/causy/edge_types.py
index f789fd2..768b52c 100644
--- a/causy/edge_types.py
+++ b/causy/edge_types.py
@@ -61,7 +61,10 @@ class DirectedEdge(EdgeTypeInterface, Generic[EdgeTypeInterfaceType]):
             return u, v
 
         def directed_paths(
-            self, u: Union[NodeInterface, str], v: Union[NodeInterface, str]
+            self,
+            u: Union[NodeInterface, str],
+            v: Union[NodeInterface, str],
+            visited: Tuple[str, ...] = (),
         ) -> List[List[Tuple[NodeInterface, NodeInterface]]]:
             """
             Return all directed paths from u to v
@@ -71,12 +74,15 @@ class DirectedEdge(EdgeTypeInterface, Generic[EdgeTypeInterfaceType]):
             """
             u, v = self._resolve_node_references(u, v)
             # TODO: try a better data structure for this
-            if self.directed_edge_exists(u, v):
-                return [[(u, v)]]
             paths = []
-            for w in self.edges[u.id]:
-                if self.directed_edge_exists(u, self.nodes[w]):
-                    for path in self.directed_paths(self.nodes[w], v):
+            visited = (*visited, u.id)
+            for w in self.edges.get(u.id, {}):
+                if not self.directed_edge_exists(u, self.nodes[w]):
+                    continue
+                if w == v.id:
+                    paths.append([(u, v)])
+                elif w not in visited:
+                    for path in self.directed_paths(self.nodes[w], v, visited):
                         paths.append([(u, self.nodes[w])] + path)
             return paths
 
diff --git a/causy/graph.py b/causy/graph.py
index 9523c56..492257b 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -254,7 +254,9 @@ class GraphBaseAccessMixin:
 
         return [i for i in self.edge_history[(u, v)] if i.action == action]
 
-    def directed_path_exists(self, u: Union[Node, str], v: Union[Node, str]) -> bool:
+    def directed_path_exists(
+        self, u: Union[Node, str], v: Union[Node, str], visited=None
+    ) -> bool:
         """
         Check if a directed path from u to v exists
         :param u: node u
@@ -262,6 +264,9 @@ class GraphBaseAccessMixin:
         :return: True if a directed path exists, False otherwise
         """
 
+        if visited is None:
+            visited = set()
+
         if isinstance(u, Node):
             u = u.id
         if isinstance(v, Node):
@@ -269,8 +274,11 @@ class GraphBaseAccessMixin:
 
         if self.directed_edge_exists(u, v):
             return True
-        for w in self.edges[u]:
-            if self.directed_path_exists(self.nodes[w], v):
+        visited.add(u)
+        for w in self.edges.get(u, {}):
+            if w in visited or not self.directed_edge_exists(u, w):
+                continue
+            if self.directed_path_exists(self.nodes[w], v, visited):
                 return True
         return False
 
-- 
2.43.0


From c07ad753c4af7754f3a5fe9ed24574ce9e86c078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:50 +0000
Subject: [PATCH 17/36] fix: a blocking collider blocks the path even if a
 later collider is open

---
 causy/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 492257b..8e24a3b 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -348,7 +348,6 @@ class GraphBaseAccessMixin:
         Check if a path is blocked by a collider which is not in the conditioning set and has no descendants in the conditioning set.
         :return: Boolean indicating if the path is blocked
         """
-        is_path_blocked = False
         for i in range(1, len(path) - 1):
             if self._is_collider(path[i - 1], path[i], path[i + 1]):
                 # if the node is a collider, check if the node or any of its descendants are in the conditioning set
@@ -356,7 +355,10 @@ class GraphBaseAccessMixin:
                 for descendant in self.descendants_of_node(path[i]):
                     if descendant in conditioning_set:
                         is_path_blocked = False
-        return is_path_blocked
+                # one blocking collider is enough, no matter what follows on the path
+                if is_path_blocked:
+                    return True
+        return False
 
     def _is_a_non_collider_in_conditioning_set(self, path, conditioning_set) -> bool:
         """
-- 
2.43.0


From 829410f7a3ab247e51746f0f985e7f99c16b5320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:50 +0000
Subject: [PATCH 18/36] fix: d-separation queries accept node ids in the
 conditioning set

---
 causy/graph.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 8e24a3b..fdb778f 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -402,8 +402,13 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
+        # The conditioning set may contain nodes and node ids
+        conditioning_set = [
+            n if isinstance(n, Node) else self.node_by_id(n) for n in conditioning_set
+        ]
+
         # u and v may not be in the conditioning set, throw error
-        if u in conditioning_set or v in conditioning_set:
+        if any(n is not None and n.id in (u, v) for n in conditioning_set):
             raise ValueError("Nodes u and v may not be in the conditioning set")
 
         # If there are no paths between u and v, they are d-separated
@@ -451,8 +456,13 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
+        # The conditioning set may contain nodes and node ids
+        conditioning_set = [
+            n if isinstance(n, Node) else self.node_by_id(n) for n in conditioning_set
+        ]
+
         # u and v may not be in the conditioning set, throw error
-        if u in conditioning_set or v in conditioning_set:
+        if any(n is not None and n.id in (u, v) for n in conditioning_set):
             raise ValueError("Nodes u and v may not be in the conditioning set")
 
         # If there are no paths between u and v, they are d-separated
-- 
2.43.0


From ff5645e61354eab6c28d0fdd25bf90912a3e4601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:50 +0000
Subject: [PATCH 19/36] fix: only paths of definite status d-connect nodes in a
 CPDAG

---
 causy/graph.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index fdb778f..397c1d3 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -474,14 +474,16 @@ class GraphBaseAccessMixin:
             # If the path only has two nodes, it cannot be blocked and is open. Therefore, u and v are not d-separated
             if len(path) == 2:
                 return False
+            # only paths of definite status can d-connect u and v
+            if not self._is_path_of_definite_status(path):
+                continue
             is_path_blocked = False
-            if self._is_path_of_definite_status(path):
-                if self._is_definite_noncollider_in_conditioning_set(
-                    path, conditioning_set
-                ):
-                    is_path_blocked = True
-                if self._is_a_collider_blocking(path, conditioning_set):
-                    is_path_blocked = True
+            if self._is_definite_noncollider_in_conditioning_set(
+                path, conditioning_set
+            ):
+                is_path_blocked = True
+            if self._is_a_collider_blocking(path, conditioning_set):
+                is_path_blocked = True
             list_of_results_for_paths.append(is_path_blocked)
         if False in list_of_results_for_paths:
             return False
-- 
2.43.0


From 7b55899f950764c1f65270fa528bc2b5840cf4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:12 +0000
Subject: [PATCH 20/36] Revert "fix: CorrelationCoefficientTest skips pairs
 without an edge or a correlation"

This reverts commit 2615b24ae96320f2ae56d1ad01d107e679bf3f0d.
---
 .../constraint/independence_tests/common.py                | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/causy/causal_discovery/constraint/independence_tests/common.py b/causy/causal_discovery/constraint/independence_tests/common.py
index 446abfa..aa3f84b 100644
--- a/causy/causal_discovery/constraint/independence_tests/common.py
+++ b/causy/causal_discovery/constraint/independence_tests/common.py
@@ -42,14 +42,9 @@ class CorrelationCoefficientTest(
         x = graph.nodes[nodes[0]]
         y = graph.nodes[nodes[1]]
 
-        # without an edge or its correlation there is nothing to test
-        edge_value = graph.edge_value(x, y)
-        if edge_value is None or "correlation" not in edge_value:
-            return
-
         # Use Fisher's Z test for independency of u and v
         sample_size = len(x.values)
-        corr = edge_value["correlation"]
+        corr = graph.edge_value(x, y)["correlation"]
 
         # Fisher's Z transformation
         fisher_z = 0.5 * math.log((1 + corr) / (1 - corr))
-- 
2.43.0


From 0c5b0c618e76d669c7fa1210c71595eb97150945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:19 +0000
Subject: [PATCH 21/36] Undo the part of f82a828 that needs the reverted change
 of CorrelationCoefficientTest

---
 causy/common_pipeline_steps/calculation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/causy/common_pipeline_steps/calculation.py b/causy/common_pipeline_steps/calculation.py
index 1142a2b..d4c9caa 100644
--- a/causy/common_pipeline_steps/calculation.py
+++ b/causy/common_pipeline_steps/calculation.py
@@ -52,9 +52,11 @@ class CalculatePearsonCorrelations(
         elif correlation > 1:
             correlation = 1
 
+        edge_value["correlation"] = correlation
+
         return TestResult(
             u=x,
             v=y,
             action=TestResultAction.UPDATE_EDGE,
-            data={**edge_value, "correlation": correlation},
+            data=edge_value,
         )
-- 
2.43.0


From 9af1197341ab307ff48440117f20b8153ab14e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:48 +0000
Subject: [PATCH 22/36] fix: create nodes in sorted order for rows and data
 loaders, as for columns

---
 causy/graph_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 47a2562..6b51d6b 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -128,7 +128,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                 nodes[key].append(row[key])
 
         graph = GraphManager(graph_class=self._graph_class)
-        for key in keys:
+        for key in sorted(keys):
             graph.add_node(key, nodes[key], id_=key)
 
         return graph
@@ -157,7 +157,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                 nodes[key].append(row[key])
 
         graph = GraphManager(graph_class=self._graph_class)
-        for key in keys:
+        for key in sorted(keys):
             graph.add_node(key, nodes[key], id_=key)
 
         return graph
-- 
2.43.0


From 47f9dd08675ea78c1f939ebed550f4b61b83f232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:48 +0000
Subject: [PATCH 23/36] fix: dynamic data loaders get their options, and work
 without any

---
 causy/data_loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/data_loader.py b/causy/data_loader.py
index afe56e7..ad78d1c 100644
--- a/causy/data_loader.py
+++ b/causy/data_loader.py
@@ -111,8 +111,8 @@ class DynamicDataLoader(AbstractDataLoader):
 
     def __init__(self, reference: str, options: Optional[Dict[str, Any]] = None):
         self.reference = reference
-        self.data_loader = self._load_data_loader()
         self.options = options
+        self.data_loader = self._load_data_loader()
 
     reference: str
     data_loader: AbstractDataLoader
@@ -120,7 +120,7 @@ class DynamicDataLoader(AbstractDataLoader):
     def _load_data_loader(self) -> AbstractDataLoader:
         module = importlib.import_module(self.reference)
         # todo: should the cls be referenced here?
-        return module.DataLoader(**self.options)
+        return module.DataLoader(**(self.options or {}))
 
     def load(self) -> Iterator[Dict[str, Union[float, int, str]]]:
         return self.data_loader.load()
-- 
2.43.0


From 9cfd7d4e4348fad781e2e066fad132bdbebf3902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:44 +0000
Subject: [PATCH 24/36] fix: building a model does not resolve the variables of
 the caller's algorithm

---
 causy/graph_model.py    | 2 ++
 causy/workspaces/cli.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 6b51d6b..9707122 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -535,6 +535,8 @@ def graph_model_factory(
     :return: the graph model
     """
     original_algorithm = deepcopy(algorithm)
+    # resolve the variables in a copy - the algorithm of the caller might be used for other models
+    algorithm = deepcopy(algorithm)
     if variables is None and algorithm.variables is not None:
         variables = resolve_variables(algorithm.variables, {})
     elif variables is None:
diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index f486b7b..09b4385 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -309,7 +309,7 @@ def _execute_experiment(workspace: Workspace, experiment: Experiment) -> Result:
         nodes=model.graph.nodes,
         variables=variables,
         data_loader_hash=data_loader.hash(),
-        algorithm_hash=pipeline.hash(),
+        algorithm_hash=model.algorithm.hash(),
         variables_hash=hash_dictionary(variables),
     )
 
-- 
2.43.0


From 58543bd3fffe8c103d80f7797287a2dcd1154388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:58 +0000
Subject: [PATCH 25/36] fix: variables that are not given to
 graph_model_factory have their default value

---
 causy/graph_model.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 9707122..a16753b 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -537,10 +537,8 @@ def graph_model_factory(
     original_algorithm = deepcopy(algorithm)
     # resolve the variables in a copy - the algorithm of the caller might be used for other models
     algorithm = deepcopy(algorithm)
-    if variables is None and algorithm.variables is not None:
-        variables = resolve_variables(algorithm.variables, {})
-    elif variables is None:
-        variables = {}
+    # variables which are not given have their default value
+    variables = {**resolve_variables(algorithm.variables or [], {}), **(variables or {})}
 
     if len(variables) > 0:
         algorithm.pipeline_steps = resolve_variables_to_algorithm_for_pipeline_steps(
-- 
2.43.0


From 76b3b7a0662f69ee1643aa38dfeae556c2692515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:58 +0000
Subject: [PATCH 26/36] fix: other json files next to the results of an
 experiment are no versions of it

---
 causy/workspaces/cli.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 09b4385..9b069d4 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -355,12 +355,12 @@ def _load_experiment_versions(workspace: Workspace, experiment_name: str) -> Lis
         # Extract the unix timestamp
         if file.startswith(f"{experiment_name}_") and file.endswith(".json"):
             segments = file.split("_")
-            timestamp = int(segments[-1].split(".")[0])
+            timestamp = segments[-1].removesuffix(".json")
             name = "_".join(segments[:-1])
-            if name != experiment_name:
-                # an experiment with a different name
+            if name != experiment_name or not timestamp.isdecimal():
+                # an experiment with a different name or not a result of an experiment
                 continue
-            versions.append(timestamp)
+            versions.append(int(timestamp))
     return sorted(versions, reverse=True)
 
 
-- 
2.43.0


From c38f892b1acbc5ee1cf957b222360f24bb825a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:58 +0000
Subject: [PATCH 27/36] fix: experiments without variables can be executed

---
 causy/workspaces/cli.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 9b069d4..79f3bc7 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -272,13 +272,14 @@ def _execute_experiment(workspace: Workspace, experiment: Experiment) -> Result:
         workspace.pipelines[experiment.pipeline].reference,
     )
 
-    validate_variable_values(pipeline, experiment.variables)
-    variables = resolve_variables(pipeline.variables, experiment.variables)
+    variable_values = experiment.variables or {}
+    validate_variable_values(pipeline, variable_values)
+    variables = resolve_variables(pipeline.variables, variable_values)
     typer.echo(f"Using variables: {variables}")
 
     typer.echo(f"Loading Data: {experiment.dataloader}")
     data_loader = load_data_loader(workspace.dataloaders[experiment.dataloader])
-    model = graph_model_factory(pipeline, experiment.variables)()
+    model = graph_model_factory(pipeline, variables)()
     model.create_graph_from_data(data_loader)
     model.create_all_possible_edges()
     task_count = len(model.pipeline_steps)
@@ -434,8 +435,9 @@ def _experiment_needs_reexecution(workspace: Workspace, experiment_name: str) ->
         workspace.pipelines[experiment.pipeline].reference,
     )
 
-    validate_variable_values(pipeline, experiment.variables)
-    variables = resolve_variables(pipeline.variables, experiment.variables)
+    variable_values = experiment.variables or {}
+    validate_variable_values(pipeline, variable_values)
+    variables = resolve_variables(pipeline.variables, variable_values)
 
     if latest_experiment.variables_hash != hash_dictionary(variables):
         logger.info(f"Experiment {experiment_name} has different variables.")
-- 
2.43.0


From 3290a186cf8a60f054971c5f12eb97bc87248ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:58 +0000
Subject: [PATCH 28/36] fix: update-variable understands booleans and reports
 invalid values

---
 causy/workspaces/cli.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 79f3bc7..80497c3 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -546,19 +546,25 @@ def update_experiment_variable(
 
     # try to cast the variable value to the correct type
     try:
-        variable_value = current_variable._PYTHON_TYPE(variable_value)
-    except ValueError:
+        if current_variable._PYTHON_TYPE is bool:
+            variable_value = {"true": True, "false": False}[variable_value.lower()]
+        else:
+            variable_value = current_variable._PYTHON_TYPE(variable_value)
+    except (ValueError, KeyError):
         show_error(
             f'Variable {variable_name} should be {current_variable.type}. But got "{variable_value}" which is not a valid value.'
         )
         return
 
     # check if the variable is a valid value
-    if not validate_variable_values(pipeline, {variable_name: variable_value}):
+    if not current_variable.is_valid_value(variable_value):
         show_error(f"Variable {variable_name} is not a valid value.")
         return
 
-    experiment.variables[variable_name] = variable_value
+    experiment.variables = {
+        **(experiment.variables or {}),
+        variable_name: variable_value,
+    }
 
     write_to_workspace(workspace)
 
-- 
2.43.0


From 1e4e7050d440a9ce67e60f4e54711b9e335790c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:58 +0000
Subject: [PATCH 29/36] fix: new dynamic data loaders refer to the module that
 is created for them

---
 causy/workspaces/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 80497c3..543f723 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -250,7 +250,7 @@ def _create_data_loader(workspace: Workspace) -> Workspace:
         workspace.dataloaders[data_loader_slug] = DataLoaderReference(
             **{
                 "type": data_loader_type,
-                "reference": f"{data_loader_slug}.DataLoader",
+                "reference": data_loader_slug,
             }
         )
 
@@ -695,7 +695,7 @@ def init():
             workspace.dataloaders[data_loader_slug] = DataLoaderReference(
                 **{
                     "type": data_loader_type,
-                    "reference": f"{data_loader_slug}.DataLoader",
+                    "reference": data_loader_slug,
                 }
             )
     workspace.experiments = {}
-- 
2.43.0


From c93a220df575d407a9191936c78024ec9fb5bf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:58 +0000
Subject: [PATCH 30/36] fix: algorithm files outside of the working directory
 are rejected even if its path is a prefix of theirs

---
 causy/serialization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causy/serialization.py b/causy/serialization.py
index b9f91ba..6d43220 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -54,8 +54,9 @@ def load_algorithm_by_reference(reference_type: str, algorithm: str):
         # validate if the reference points only in the same directory or subdirectory
         # to avoid security issues
         absolute_path = os.path.realpath(algorithm)
-        common_prefix = os.path.commonprefix([os.getcwd(), absolute_path])
-        if common_prefix != os.getcwd():
+        working_directory = os.path.realpath(os.getcwd())
+        common_path = os.path.commonpath([working_directory, absolute_path])
+        if common_path != working_directory:
             raise ValueError("Invalid reference")
 
         with open(absolute_path, "r") as file:
-- 
2.43.0


From 9e1915d8e6bc6e73b852da14d2808e5fa8c91a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:58 +0000
Subject: [PATCH 31/36] fix: algorithms loaded from a python module are
 independent of each other

---
 causy/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/serialization.py b/causy/serialization.py
index 6d43220..a46a877 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -84,7 +84,7 @@ def load_algorithm_by_reference(reference_type: str, algorithm: str):
         st_function = getattr(module, ref_)
         if not st_function:
             raise ValueError(f"Algorithm {algorithm} not found")
-        return st_function()._original_algorithm
+        return copy.deepcopy(st_function()._original_algorithm)
 
 
 class CausyJSONEncoder(JSONEncoder):
-- 
2.43.0


From 3bc748bb01cce30a98fd227da6e9c6c9bf02ffe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:58 +0000
Subject: [PATCH 32/36] fix: loading an algorithm leaves its definition
 unchanged

---
 causy/graph_utils.py   | 4 ++--
 causy/serialization.py | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/causy/graph_utils.py b/causy/graph_utils.py
index f20c84f..33a1d7b 100644
--- a/causy/graph_utils.py
+++ b/causy/graph_utils.py
@@ -25,9 +25,9 @@ def load_pipeline_artefact_by_definition(step):
     if not st_function:
         raise ValueError(f"{name} not found")
 
-    del step["name"]
+    parameters = {key: value for key, value in step.items() if key != "name"}
 
-    return st_function(**step)
+    return st_function(**parameters)
 
 
 def load_pipeline_steps_by_definition(steps):
diff --git a/causy/serialization.py b/causy/serialization.py
index a46a877..1468c4e 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -28,6 +28,7 @@ def serialize_algorithm(model, algorithm_name: str = None):
 
 def load_algorithm_from_specification(algorithm_dict: Dict[str, Any]):
     """Load the model from a dictionary."""
+    algorithm_dict = dict(algorithm_dict)
     algorithm_dict["pipeline_steps"] = load_pipeline_steps_by_definition(
         algorithm_dict["pipeline_steps"]
     )
-- 
2.43.0


From e742bbfefdde6813f27f60c3ac5398fc050405b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:58 +0000
Subject: [PATCH 33/36] fix: deserializing a result leaves its input unchanged

---
 causy/serialization.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/causy/serialization.py b/causy/serialization.py
index 1468c4e..dcf7274 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -106,10 +106,14 @@ def load_json(pipeline_file: str):
 def deserialize_result(result: Dict[str, Any], klass=Result):
     """Deserialize the result."""
 
+    result = dict(result)
     result["algorithm"] = AlgorithmReference(**result["algorithm"])
-    for i, edge in enumerate(result["edges"]):
-        result["edges"][i]["edge_type"] = EDGE_TYPES[edge["edge_type"]["name"]](
-            **edge["edge_type"]
-        )
+    result["edges"] = [
+        {
+            **edge,
+            "edge_type": EDGE_TYPES[edge["edge_type"]["name"]](**edge["edge_type"]),
+        }
+        for edge in result["edges"]
+    ]
 
     return TypeAdapter(klass).validate_python(result)
-- 
2.43.0


From 119dc82f5f06d5d096b7f6ef036293b4f344b75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:57 +0000
Subject: [PATCH 34/36] fix: algorithms loaded from a specification have their
 edge types

---
 causy/serialization.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/causy/serialization.py b/causy/serialization.py
index dcf7274..05c9d7c 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -38,6 +38,13 @@ def load_algorithm_from_specification(algorithm_dict: Dict[str, Any]):
         )
     else:
         algorithm_dict["extensions"] = []
+    if algorithm_dict.get("edge_types") is not None:
+        algorithm_dict["edge_types"] = [
+            EDGE_TYPES[edge_type["name"]](**edge_type)
+            if isinstance(edge_type, dict)
+            else edge_type
+            for edge_type in algorithm_dict["edge_types"]
+        ]
     if "variables" not in algorithm_dict or algorithm_dict["variables"] is None:
         algorithm_dict["variables"] = []
 
-- 
2.43.0


From bee08d288c7bea819c6a998eda240f3895b357dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:36 +0000
Subject: [PATCH 35/36] fix: a step definition which leaves out an enum
 parameter can be loaded

---
 causy/variables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causy/variables.py b/causy/variables.py
index bf59625..fdd4476 100644
--- a/causy/variables.py
+++ b/causy/variables.py
@@ -256,7 +256,8 @@ def deserialize_variable_references(element: object) -> object:
         if isinstance(value, dict) and "type" in value and value["type"] == "reference":
             setattr(element, attribute, VariableReference(name=value["name"]))
 
-        if hasattr(value, "__dict__"):
+        # enum members have no references but refer to their class, which must not be changed
+        if hasattr(value, "__dict__") and not isinstance(value, enum.Enum):
             setattr(element, attribute, deserialize_variable_references(value))
 
     if hasattr(element, "pipeline_steps"):
-- 
2.43.0


From 1952d6016ac0bf4292347195c42ddf5adb997490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:45 +0000
Subject: [PATCH 36/36] fix: an ejected pipeline is stored under the slug of
 its name

---
 causy/workspaces/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 543f723..94f7603 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -167,7 +167,7 @@ def _create_pipeline(workspace: Workspace = None) -> Workspace:
             reference=f"{pipeline_slug}.yml", type=AlgorithmReferenceType.FILE
         )
 
-        workspace.pipelines[pipeline_name] = pipeline
+        workspace.pipelines[pipeline_slug] = pipeline
     elif pipeline_creation == "SKELETON":
         pipeline_name = questionary.text("Enter the name of the pipeline").ask()
         pipeline_slug = slugify(pipeline_name, "_")
-- 
2.43.0

