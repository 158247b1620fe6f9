From b5ff630fec5e2ef28eb8dd681bd1dc8d58e481a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 01/60] fix: translate a user-supplied flow and partial order
 without self-recursion

---
 mentpy/mbqc/mbqcircuit.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 389e841..b04b150 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -76,9 +76,11 @@ class MBQCircuit:
             input_nodes = [mapping[i] for i in input_nodes]
             output_nodes = [mapping[i] for i in output_nodes]
             if flow is not None:
-                flow = lambda x: mapping[flow(inv_mapping[x])]
+                user_flow = flow
+                flow = lambda x: mapping[user_flow(inv_mapping[x])]
             if partial_order is not None:
-                partial_order = lambda x, y: partial_order(
+                user_partial_order = partial_order
+                partial_order = lambda x, y: user_partial_order(
                     inv_mapping[x], inv_mapping[y]
                 )
             if measurement_order is not None:
@@ -143,6 +145,8 @@ class MBQCircuit:
 
         elif (flow is not None) and (partial_order is not None):
             check_if_flow(graph, input_nodes, output_nodes, flow, partial_order)
+            if len(input_nodes) == len(output_nodes):
+                self.gflow = Flow(graph, input_nodes, output_nodes)
 
         self._flow = flow
         self._partial_order = partial_order
-- 
2.43.0


From 1c2187a077a525c950b8832cbfd30d8dadf4c88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 02/60] fix: stop attribute delegation from recursing while
 copying or unpickling

---
 mentpy/mbqc/mbqcircuit.py              | 4 ++++
 mentpy/simulators/pattern_simulator.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index b04b150..50ce71b 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -171,6 +171,10 @@ class MBQCircuit:
 
     # if an attribute is not found, look for it in the graph
     def __getattr__(self, name):
+        # nothing to delegate to yet, e.g. while being copied or unpickled
+        if "_graph" not in self.__dict__ or "gflow" not in self.__dict__:
+            raise AttributeError(f"Attribute {name} not found in MBQCircuit.")
+
         # try getting the attribute in graph, if not there, look in gflow
         try:
             return getattr(self.graph, name)
diff --git a/mentpy/simulators/pattern_simulator.py b/mentpy/simulators/pattern_simulator.py
index a4e1796..b2d7886 100644
--- a/mentpy/simulators/pattern_simulator.py
+++ b/mentpy/simulators/pattern_simulator.py
@@ -70,6 +70,8 @@ class PatternSimulator:
         )
 
     def __getattr__(self, name):
+        if "simulator" not in self.__dict__:
+            raise AttributeError(f"Attribute {name} not found in PatternSimulator.")
         return getattr(self.simulator, name)
 
     def __call__(self, angles: List[float], **kwargs):
-- 
2.43.0


From 544bfeb01f4728a81bc99be6fbe2fb171ce40db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 03/60] fix: build circuits on a graph state whose nodes follow
 the label order

---
 mentpy/mbqc/mbqcircuit.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 50ce71b..d7a3050 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -72,7 +72,12 @@ class MBQCircuit:
             N = graph.number_of_nodes()
             mapping = dict(zip(sorted(graph.nodes), range(N)))
             inv_mapping = dict(zip(range(N), sorted(graph.nodes)))
-            graph = nx.relabel_nodes(graph, mapping)
+            relabeled = nx.relabel_nodes(graph, mapping)
+            # list the nodes in label order, whatever order they were added in
+            graph = GraphState()
+            graph.graph.update(relabeled.graph)
+            graph.add_nodes_from((i, relabeled.nodes[i]) for i in range(N))
+            graph.add_edges_from(relabeled.edges(data=True))
             input_nodes = [mapping[i] for i in input_nodes]
             output_nodes = [mapping[i] for i in output_nodes]
             if flow is not None:
@@ -87,6 +92,12 @@ class MBQCircuit:
                 measurement_order = [mapping[i] for i in measurement_order]
             if measurements is not None:
                 measurements = {mapping[k]: v for k, v in measurements.items()}
+        else:
+            # do not share mutable arguments with the caller
+            graph = GraphState(graph)
+            input_nodes, output_nodes = list(input_nodes), list(output_nodes)
+            if measurements is not None:
+                measurements = dict(measurements)
 
         self._graph = graph
 
-- 
2.43.0


From 34738d5c2ab7ff3b9beb26d592a8c7940808a870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 04/60] fix: report quantum outputs in the order of the output
 nodes

---
 mentpy/mbqc/mbqcircuit.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index d7a3050..8b0f349 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -165,11 +165,6 @@ class MBQCircuit:
         if measurement_order is None and flow is not None:
             measurement_order = self.calculate_order()
 
-        # in case we measure an output node
-        quantum_output_nodes = [
-            node for node, i in self.measurements.items() if i is None
-        ]
-        self._quantum_output_nodes = quantum_output_nodes
         self._measurement_order = measurement_order
 
     def __repr__(self) -> str:
@@ -345,8 +340,6 @@ class MBQCircuit:
         trainable_nodes = []
         controlled_nodes = []
         planes = {}
-        quantum_outputs = []
-        classical_outputs = []
         for nodei, menti in self._measurements.items():
             if menti is not None:
                 if isinstance(menti, ControlMent):
@@ -358,12 +351,20 @@ class MBQCircuit:
                 planes[nodei] = menti.plane
                 self._measurements[nodei] = copy.deepcopy(menti)
                 self._measurements[nodei].node_id = nodei
-                if nodei in self._output_nodes:
-                    classical_outputs.append(nodei)
             else:
                 planes[nodei] = ""
-                if nodei in self._output_nodes:
-                    quantum_outputs.append(nodei)
+
+        # unmeasured nodes: the outputs in their given order, then any others
+        quantum_outputs = [
+            o for o in self._output_nodes if self._measurements.get(o) is None
+        ] + [
+            node
+            for node, i in self._measurements.items()
+            if i is None and node not in self._output_nodes
+        ]
+        classical_outputs = [
+            o for o in self._output_nodes if self._measurements.get(o) is not None
+        ]
 
         self._trainable_nodes = trainable_nodes
         self._controlled_nodes = controlled_nodes
-- 
2.43.0


From 44884b9810628e20fa1652f5acd777612493523e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:59 +0000
Subject: [PATCH 05/60] fix: keep attribute delegation working when only a
 user-supplied flow exists

---
 mentpy/mbqc/mbqcircuit.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 8b0f349..4b7fe74 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -156,8 +156,11 @@ class MBQCircuit:
 
         elif (flow is not None) and (partial_order is not None):
             check_if_flow(graph, input_nodes, output_nodes, flow, partial_order)
-            if len(input_nodes) == len(output_nodes):
-                self.gflow = Flow(graph, input_nodes, output_nodes)
+            self.gflow = (
+                Flow(graph, input_nodes, output_nodes)
+                if len(input_nodes) == len(output_nodes)
+                else None
+            )
 
         self._flow = flow
         self._partial_order = partial_order
-- 
2.43.0


From a65fc949b602f869f7606bea08a18bf057730121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:59 +0000
Subject: [PATCH 06/60] fix: rebuild the partial order of controlled circuits
 from the flow's order

---
 mentpy/mbqc/mbqcircuit.py | 48 +++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 4b7fe74..bf562e5 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -146,6 +146,7 @@ class MBQCircuit:
 
         self._measurements = measurements
         self._flow, self._partial_order = None, None
+        self._base_partial_order = None
         self._update_attributes()
 
         if (flow is None) or (partial_order is None):
@@ -163,7 +164,8 @@ class MBQCircuit:
             )
 
         self._flow = flow
-        self._partial_order = partial_order
+        self._base_partial_order = partial_order
+        self._update_attributes()
 
         if measurement_order is None and flow is not None:
             measurement_order = self.calculate_order()
@@ -389,10 +391,9 @@ class MBQCircuit:
         #     self._partial_order = partial_order
         #     self._depth = depth
 
-        if self._partial_order is not None:
-            old_partial_order = self._partial_order
+        if self._base_partial_order is not None:
             self._partial_order = _create_new_partial_order(
-                self.controlled_nodes, self.measurements, old_partial_order
+                self.controlled_nodes, self.measurements, self._base_partial_order
             )
 
     def _update_attributes_key(self, key) -> None:
@@ -635,21 +636,30 @@ def _hstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
 
 
 def _create_new_partial_order(controlled_nodes, measurements, old_partial_order):
-    def new_partial_order(i, j):
-        for c in controlled_nodes:
-            cns = measurements[c].condition.cond_nodes
-
-            ibeforecns = any([old_partial_order(i, cn) for cn in cns]) or i in cns
-            jafterc = old_partial_order(c, j) or j == c
-            # print(f"Comparing {i} and {j}")
-            # print(any([old_partial_order(i, cn) for cn in cns]), i in cns)
-            # print(old_partial_order(c, j), j == c)
-            if ibeforecns and jafterc and i != j:
-                return True
-
-            if j in cns and i == c:
-                return False
+    # nodes that have to be measured before each controlled node
+    # (conditions that are plain booleans do not depend on any node)
+    cond_nodes = {
+        c: set(getattr(measurements[c].condition, "cond_nodes", ()))
+        for c in controlled_nodes
+    }
 
-        return old_partial_order(i, j)
+    def new_partial_order(i, j):
+        if old_partial_order(i, j):
+            return True
+
+        # follow the chains of controls that start after i
+        frontier, reached = [i], set()
+        while frontier:
+            v = frontier.pop()
+            for c, cns in cond_nodes.items():
+                if c not in reached and any(
+                    v == cn or old_partial_order(v, cn) for cn in cns
+                ):
+                    if c == j or old_partial_order(c, j):
+                        return True
+                    reached.add(c)
+                    frontier.append(c)
+
+        return False
 
     return new_partial_order
-- 
2.43.0


From 3da9d5f8418ba0b7f8d7105c81ad6bdf454bc691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:59 +0000
Subject: [PATCH 07/60] fix: never measure an input before the nodes that
 precede it

---
 mentpy/mbqc/flow.py       |  8 +++-----
 mentpy/mbqc/mbqcircuit.py | 17 ++++++++++++++++-
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index a54dd99..70a646a 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -75,11 +75,9 @@ class Flow:
             self.layers = ord_layers[::-1]
 
             # This can be optimized!!
-            order = [item for sublist in self.layers for item in sublist]
-            for i in self.input_nodes[::-1]:
-                order.remove(i)
-                order.insert(0, i)
-            self.measurement_order = order
+            self.measurement_order = [
+                item for sublist in self.layers for item in sublist
+            ]
         else:
             self.layers = None
             self.measurement_order = None
diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index bf562e5..006a1f3 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -443,7 +443,7 @@ class MBQCircuit:
             order.remove(i)
             order.insert(0, i)
 
-        return order
+        return _sort_with_partial_order(order, self.partial_order)
 
     def add_edge(self, u, v):
         r"""Adds an edge between nodes u and v"""
@@ -480,6 +480,21 @@ def _check_measurement_order(measurement_order: List, partial_order: Callable):
     return True
 
 
+def _sort_with_partial_order(order: List, partial_order: Callable) -> List:
+    r"""Sorts the nodes so that they respect the partial order, keeping the given
+    order wherever possible."""
+    remaining, sorted_order = list(order), []
+    while remaining:
+        for node in remaining:
+            if not any(partial_order(other, node) for other in remaining):
+                break
+        else:
+            node = remaining[0]
+        remaining.remove(node)
+        sorted_order.append(node)
+    return sorted_order
+
+
 def merge(state1: MBQCircuit, state2: MBQCircuit, along=[]) -> MBQCircuit:
     """Merge two MBQC circuits into a larger MBQC circuit. This is, the input and
     output of the new MBQC circuit will depend on the concat_indices."""
-- 
2.43.0


From 4f20ff14fa414528ef0b5f60dae6fbfe7ed1beac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:59 +0000
Subject: [PATCH 08/60] fix: accept exactly the measurement orders that respect
 the partial order

---
 mentpy/mbqc/mbqcircuit.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 006a1f3..37a0ea1 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -315,9 +315,11 @@ class MBQCircuit:
     @measurement_order.setter
     def measurement_order(self, measurement_order: List[int]) -> None:
         r"""Set the measurement order of the MBQC circuit."""
-        if not _check_measurement_order(measurement_order, self.partial_order):
+        if sorted(measurement_order) != sorted(
+            self.graph.nodes
+        ) or not _check_measurement_order(measurement_order, self.partial_order):
             raise ValueError(f"Invalid measurement order {measurement_order}.")
-        self._measurement_order = measurement_order
+        self._measurement_order = list(measurement_order)
 
     @cached_property
     def outputc(self) -> List:
@@ -473,9 +475,11 @@ class MBQCircuit:
 
 def _check_measurement_order(measurement_order: List, partial_order: Callable):
     r"""Checks that the measurement order is valid"""
+    if partial_order is None:
+        return True
     for i in range(len(measurement_order)):
         for j in range(i + 1, len(measurement_order)):
-            if partial_order(measurement_order[i], measurement_order[j]):
+            if partial_order(measurement_order[j], measurement_order[i]):
                 return False
     return True
 
-- 
2.43.0


From 0eb7eae9e25de7017ee9a3974f9334a9a00b7659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:59 +0000
Subject: [PATCH 09/60] fix: refresh the circuit attributes when a measurement
 is deleted

---
 mentpy/mbqc/mbqcircuit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 37a0ea1..723b242 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -225,6 +225,7 @@ class MBQCircuit:
             raise ValueError(f"Node {key} is not in the graph.")
 
         self._measurements[key] = None
+        self._update_attributes()
 
     @property
     def measurements(self) -> Dict[int, Ment]:
-- 
2.43.0


From 3f82b548bdbadaebf4a2cbee7a08e8b7b23e8994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 10/60] fix: keep unmeasured nodes when all measurements are
 replaced

---
 mentpy/mbqc/mbqcircuit.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 723b242..4454fbe 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -207,7 +207,7 @@ class MBQCircuit:
         # self._update_attributes_key(key)
         self._update_attributes()
 
-        if isinstance(value, ControlMent):
+        if isinstance(value, ControlMent) and self._partial_order is not None:
             # recalculate measurement order
             self._measurement_order = self.calculate_order()
 
@@ -237,13 +237,22 @@ class MBQCircuit:
         r"""Set the measurements of the MBQC circuit."""
         if not all([v in self.graph.nodes for v in measurements.keys()]):
             raise ValueError(f"Nodes {measurements.keys()} are not in the graph.")
-        if not all([isinstance(v, Ment) for v in measurements.values()]):
+        if not all([isinstance(v, Ment) or v is None for v in measurements.values()]):
             raise ValueError(
                 f"Values {measurements.values()} are not Measurement objects."
             )
+        measurements = dict(measurements)
+        for node in self.graph.nodes:
+            if node not in measurements:
+                measurements[node] = (
+                    self._default_measurement if node in self.outputc else None
+                )
         self._measurements = measurements
         self._update_attributes()
 
+        if len(self.controlled_nodes) > 0 and self._partial_order is not None:
+            self._measurement_order = self.calculate_order()
+
     @property
     def graph(self) -> GraphState:
         r"""Return the graph of the resource state."""
-- 
2.43.0


From 78c238504bda1cc96e4692f727830a50d5bb7595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 11/60] fix: keep measurements and refresh all attributes when
 edges are added

---
 mentpy/mbqc/mbqcircuit.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 4454fbe..500c436 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -100,6 +100,7 @@ class MBQCircuit:
                 measurements = dict(measurements)
 
         self._graph = graph
+        self._relabel_indices = relabel_indices
 
         # check input and output nodes are in graph. If not, raise error with the node(s) that are not in the graph
         if not all([v in self.graph.nodes for v in input_nodes]):
@@ -459,28 +460,28 @@ class MBQCircuit:
 
     def add_edge(self, u, v):
         r"""Adds an edge between nodes u and v"""
-        self.graph.add_edge(u, v)
-        # try resetting self with new graph, if it fails, remove the edge
         try:
-            self.__init__(self.graph, self.input_nodes, self.output_nodes)
+            self.add_edges_from([(u, v)])
         except Exception as e:
-            self.graph.remove_edge(u, v)
             raise ValueError(f"Cannot add edge between {u} and {v}.\n" + str(e))
 
     def add_edges_from(self, edges, **kwargs):
         r"""Adds edges from a list of tuples"""
         new_graph = self.graph.copy()
-        new_graph.add_edges_from(edges, **kwargs)
+        # build the new circuit first, so that nothing changes if that fails
         try:
-            self.__init__(
+            new_graph.add_edges_from(edges, **kwargs)
+            new_circuit = MBQCircuit(
                 new_graph,
                 self.input_nodes,
                 self.output_nodes,
-                self.flow,
-                self.partial_order,
+                measurements=dict(self.measurements),
+                default_measurement=self._default_measurement,
+                relabel_indices=self._relabel_indices,
             )
         except Exception as e:
             raise ValueError(f"Cannot add edges {edges}.\n" + str(e))
+        self.__dict__ = new_circuit.__dict__
 
 
 def _check_measurement_order(measurement_order: List, partial_order: Callable):
-- 
2.43.0


From 90331a92f567dae15bdb5202fa341dc3999896e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 12/60] fix: allow merging circuits along no nodes

---
 mentpy/mbqc/mbqcircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 500c436..015a3f7 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -519,7 +519,7 @@ def merge(state1: MBQCircuit, state2: MBQCircuit, along=[]) -> MBQCircuit:
             raise ValueError(f"Cannot merge states at indices {i} and {j}")
 
     graph = nx.disjoint_union(state1.graph, state2.graph)
-    along1, along2 = zip(*along)
+    along1, along2 = zip(*along) if len(along) > 0 else ((), ())
 
     input_nodes = state1.input_nodes + [
         i + len(state1.graph) for i in state2.input_nodes if i not in along2
-- 
2.43.0


From 3440cf750410aa6786302cf2db68af518b6cd1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 13/60] fix: skip fixed measurements when listing the layers of
 trainable indices

---
 mentpy/mbqc/mbqcircuit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 015a3f7..356dba5 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -349,7 +349,11 @@ class MBQCircuit:
         if train_indices:
             # return the nested layers in Flow.layers but with the trainable_nodes indices
             return [
-                [self.trainable_nodes.index(node) for node in layer]
+                [
+                    self.trainable_nodes.index(node)
+                    for node in layer
+                    if node in self.trainable_nodes
+                ]
                 for layer in self.gflow.layers[:-1]
             ]
         return self.gflow.layers
-- 
2.43.0


From 40954d4afc81786ca27b97c5d53f5dad825474d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 14/60] fix: stack circuits in which an input is also an output

---
 mentpy/mbqc/mbqcircuit.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 356dba5..0bab4c5 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -555,6 +555,10 @@ def merge(state1: MBQCircuit, state2: MBQCircuit, along=[]) -> MBQCircuit:
         graph = nx.contracted_edge(graph, (j + len(state1.graph), i), self_loops=False)
         del measurements[i]
 
+    # an output of state1 may also be one of its inputs
+    merged = {i: j + len(state1.graph) for i, j in along}
+    input_nodes = [merged.get(i, i) for i in input_nodes]
+
     return MBQCircuit(graph, input_nodes, output_nodes, measurements=measurements)
 
 
@@ -665,6 +669,12 @@ def _hstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
         graph = nx.contracted_edge(graph, (j + len(state1.graph), i), self_loops=False)
         del measurements[i]
 
+    # an output of state1 may also be one of its inputs
+    merged = {
+        i: j + len(state1.graph) for i, j in zip(state1.output_nodes, state2.input_nodes)
+    }
+    input_nodes = [merged.get(i, i) for i in input_nodes]
+
     # TODO: Compute flow and partial order
     return MBQCircuit(graph, input_nodes, output_nodes, measurements=measurements)
 
-- 
2.43.0


From 9f5ca57c66bc35fa8b2bb6507597a504d7d4d877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 15/60] fix: report the number of layers as the depth of a
 causal flow

---
 mentpy/mbqc/flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index 70a646a..e247a9f 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -142,7 +142,7 @@ def find_cflow(graph: GraphState, input_nodes, output_nodes) -> object:
     if len(flow) != len(graph.nodes()) - len(output_nodes):
         return None, None, None, None
 
-    return lambda x: flow[x], lambda u, v: ln[u] > ln[v], max(flow.values()), ln
+    return lambda x: flow[x], lambda u, v: ln[u] > ln[v], max(ln.values()), ln
 
 
 def causal_flow_aux(graph: GraphState, inputs, outputs, C, past, k, g, l) -> object:
-- 
2.43.0


From d2a4966c89f601e083fe101fa2c9cfc5acbeb92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 16/60] fix: find the causal flow of circuits with thousands of
 layers

---
 mentpy/mbqc/flow.py | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index e247a9f..24c2f5e 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -135,9 +135,12 @@ def find_cflow(graph: GraphState, input_nodes, output_nodes) -> object:
         if past[v] == 1:
             C_set = C_set.union({v})
 
-    flow, ln = causal_flow_aux(
-        graph, set(input_nodes), set(output_nodes), C_set, past, 1, g, l
-    )
+    # one call per layer, as deep circuits would exhaust the call stack
+    k, inputs, outputs = 1, set(input_nodes), set(output_nodes)
+    while len(C_set) > 0:
+        C_set = causal_flow_aux(graph, inputs, outputs, C_set, past, k, g, l)
+        k += 1
+    flow, ln = g, l
 
     if len(flow) != len(graph.nodes()) - len(output_nodes):
         return None, None, None, None
@@ -146,7 +149,8 @@ def find_cflow(graph: GraphState, input_nodes, output_nodes) -> object:
 
 
 def causal_flow_aux(graph: GraphState, inputs, outputs, C, past, k, g, l) -> object:
-    """Aux function for causal_flow"""
+    """Aux function for causal_flow. Corrects one layer and returns the nodes that
+    can correct the next one."""
     V = set(graph.nodes())
     C_prime = set()
 
@@ -167,20 +171,7 @@ def causal_flow_aux(graph: GraphState, inputs, outputs, C, past, k, g, l) -> obj
                     if past[w] == 1:
                         C_prime.add(w)
 
-    if len(C_prime) == 0:
-        return g, l
-
-    else:
-        return causal_flow_aux(
-            graph,
-            inputs,
-            outputs,
-            C_prime,
-            past,
-            k + 1,
-            g,
-            l,
-        )
+    return C_prime
 
 
 ### This section implements generalized flow -- Runs in time O(n^4)
-- 
2.43.0


From 47229be78eea02be5ae49190cba12572d11c57c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 17/60] fix: let controlled measurements with a fixed branch or
 a boolean condition be measured

---
 mentpy/operators/controlled_ment.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mentpy/operators/controlled_ment.py b/mentpy/operators/controlled_ment.py
index aa0b13e..f8a2460 100644
--- a/mentpy/operators/controlled_ment.py
+++ b/mentpy/operators/controlled_ment.py
@@ -80,7 +80,7 @@ class ControlMent(Ment):
 
     def copy(self):
         return ControlMent(
-            self.condition,
+            self._condition,
             self._true_ment.angle,
             self._true_ment.plane,
             self._angle,
@@ -104,10 +104,7 @@ class ControlMent(Ment):
                 return super().matrix()
 
     def get_povm(self, angle: float | None = None, *args, **kwargs):
-        if self.condition(*args, **kwargs):
-            return self._true_ment.get_povm(angle, *args, **kwargs)
-        else:
-            return super().get_povm(angle, *args, **kwargs)
+        return super().get_povm(angle, *args, **kwargs)
 
 
 ControlledMent = ControlMent
-- 
2.43.0


From 2aa76bd08031724d589de9a15276ae79b9e1ae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 18/60] fix: keep the dependencies of a negated outcome

---
 mentpy/operators/ment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mentpy/operators/ment.py b/mentpy/operators/ment.py
index 722123b..bbfa483 100644
--- a/mentpy/operators/ment.py
+++ b/mentpy/operators/ment.py
@@ -117,7 +117,9 @@ class MentOutcome:
         return self._binary_operation(lambda x, y: x ^ y, other)
 
     def __invert__(self):
-        return MentOutcome(lambda x: not self._outcome(x))
+        return MentOutcome(
+            lambda x: not self._outcome(x), cond_nodes=self._cond_nodes
+        )
 
 
 class Ment:
-- 
2.43.0


From 4e7bafbb5d0aa2e49425bd7813e22d1b7228728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:33 +0000
Subject: [PATCH 19/60] fix: compare Pauli operators of different shapes

---
 mentpy/operators/pauliop.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mentpy/operators/pauliop.py b/mentpy/operators/pauliop.py
index 3ba3ea3..7dc3230 100644
--- a/mentpy/operators/pauliop.py
+++ b/mentpy/operators/pauliop.py
@@ -117,7 +117,11 @@ class PauliOp:
         return hash(str(self.matrix))
 
     def __eq__(self, other: "PauliOp"):
-        return np.all(self.matrix == other.matrix)
+        if not isinstance(other, PauliOp):
+            return NotImplemented
+        return self.matrix.shape == other.matrix.shape and bool(
+            np.all(self.matrix == other.matrix)
+        )
 
     def _mat_to_txt(self, op):
         n_qubits = op.shape[1] // 2
-- 
2.43.0


From 668dcc911389f5b0c525e31715166cff00608ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:33 +0000
Subject: [PATCH 20/60] fix: refuse Pauli strings with unknown letters

---
 mentpy/operators/pauliop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mentpy/operators/pauliop.py b/mentpy/operators/pauliop.py
index 7dc3230..94d0392 100644
--- a/mentpy/operators/pauliop.py
+++ b/mentpy/operators/pauliop.py
@@ -155,6 +155,8 @@ class PauliOp:
                 elif char == "Y":
                     mat[i, j] = 1
                     mat[i, j + n_qubits] = 1
+                elif char != "I":
+                    raise ValueError(f"Invalid Pauli {char} in {op}")
         return GF(mat)
 
     @property
-- 
2.43.0


From 066254d3b1908a958690e453cdc86f7f34a122a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:33 +0000
Subject: [PATCH 21/60] fix: swap the two qubits in swap_qubits instead of
 flipping them

---
 mentpy/operators/gates.py | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/mentpy/operators/gates.py b/mentpy/operators/gates.py
index af9d58b..25d100f 100644
--- a/mentpy/operators/gates.py
+++ b/mentpy/operators/gates.py
@@ -39,23 +39,7 @@ def swap_qubits(state_vector, i, j):
 
     n_qubits = int(np.log2(len(state_vector)))
 
-    swap_matrix = np.zeros((2, 2), dtype=int)
-    swap_matrix[0, 1] = swap_matrix[1, 0] = 1
-
-    identity = np.identity(2)
-    swap_operator = None
-    for k in range(n_qubits):
-        if k == i or k == j:
-            current_operator = swap_matrix
-        else:
-            current_operator = identity
-
-        if swap_operator is None:
-            swap_operator = current_operator
-        else:
-            swap_operator = np.kron(swap_operator, current_operator)
-
-    swapped_state_vector = swap_operator @ state_vector
+    swapped_state_vector = swap_ij(i, j, n_qubits) @ state_vector
     return swapped_state_vector
 
 
-- 
2.43.0


From 57792e6d0b8e5017bd6662ca7f84f36d88383ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:33 +0000
Subject: [PATCH 22/60] fix: keep the remaining factor when tracing out qubits
 of a product vector

---
 mentpy/calculator/state_ops.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mentpy/calculator/state_ops.py b/mentpy/calculator/state_ops.py
index a978593..4605d9f 100644
--- a/mentpy/calculator/state_ops.py
+++ b/mentpy/calculator/state_ops.py
@@ -66,12 +66,11 @@ def partial_trace_pure_state(psi, indices):
     num_qubits = int(np.log2(psi.shape[0]))
     remaining_qubits = sorted(set(range(num_qubits)) - set(indices))
     tensor = psi.reshape([2] * num_qubits).transpose(remaining_qubits + indices)
-    traced_tensor = tensor.reshape([-1] + [2] * len(indices)).sum(
-        axis=tuple(range(1, 1 + len(indices)))
-    )
-    traced_tensor = traced_tensor.reshape(-1)
-    traced_tensor /= np.linalg.norm(traced_tensor)
-    return traced_tensor
+    # the traced factor only contributes a scalar to each branch, but summing the
+    # branches could cancel them, so keep the one with the largest norm
+    branches = tensor.reshape([-1, 2 ** len(indices)])
+    norms = np.linalg.norm(branches, axis=0)
+    return branches[:, np.argmax(norms)] / np.max(norms)
 
 
 def partial_trace_mixed_state(rho, indices):
-- 
2.43.0


From 5469088c9ab6d2877c3823a05cd1465a96a71ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 23/60] fix: compute the Lie algebra of circuits with a single
 generator

---
 mentpy/utils/lie_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/utils/lie_algebra.py b/mentpy/utils/lie_algebra.py
index c06059b..f69b584 100644
--- a/mentpy/utils/lie_algebra.py
+++ b/mentpy/utils/lie_algebra.py
@@ -161,7 +161,7 @@ def remove_repeated_ops(ops: PauliOp):
     """Removes repeated Pauli operators from a set"""
     ops = copy.deepcopy(ops)
     unrep_ops = ops[0]
-    for op in ops[1:]:
+    for op in list(ops)[1:]:
         if op not in unrep_ops:
             unrep_ops.append(op)
     return unrep_ops
-- 
2.43.0


From 687bfb81502f09e17c5448ec7e50614c290fa2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 24/60] fix: use the parameter-shift prefactor that is exact
 for every shift

---
 mentpy/gradients/_parameter_shift.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mentpy/gradients/_parameter_shift.py b/mentpy/gradients/_parameter_shift.py
index 30da5b4..105cdd5 100644
--- a/mentpy/gradients/_parameter_shift.py
+++ b/mentpy/gradients/_parameter_shift.py
@@ -21,7 +21,7 @@ def psr_gradient(cost, x, shift=1.5):
     for i in range(len(x)):
         grad[i] = (
             cost(x + shift * np.eye(len(x))[i]) - cost(x - shift * np.eye(len(x))[i])
-        ) / (2 * shift)
+        ) / (2 * np.sin(shift))
     return grad
 
 
@@ -44,5 +44,5 @@ def psr_hessian(cost, x, shift=1.5):
                 - cost(x + shift * np.eye(len(x))[i] - shift * np.eye(len(x))[j])
                 - cost(x - shift * np.eye(len(x))[i] + shift * np.eye(len(x))[j])
                 + cost(x - shift * np.eye(len(x))[i] - shift * np.eye(len(x))[j])
-            ) / (4 * shift**2)
+            ) / (4 * np.sin(shift) ** 2)
     return hess
-- 
2.43.0


From c805ab6eb59def10ae8f32dbf76900008cab629e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 25/60] fix: leave the starting point of random coordinate
 descent unchanged

---
 mentpy/optimizers/rcd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mentpy/optimizers/rcd.py b/mentpy/optimizers/rcd.py
index c51b93b..efdc218 100644
--- a/mentpy/optimizers/rcd.py
+++ b/mentpy/optimizers/rcd.py
@@ -55,7 +55,7 @@ class RCDOptimizer(BaseOptimizer):
 
     def optimize(self, f, x0, num_iters=100, callback=None, verbose=False, **kwargs):
         """Optimize a function f using the random coordinate descent optimizer."""
-        x = x0
+        x = np.array(x0, dtype=float)
         for i in range(num_iters):
             x = self.step(f, x, i, **kwargs)
             if callback is not None:
@@ -72,7 +72,7 @@ class RCDOptimizer(BaseOptimizer):
         self, f, x0, num_iters=100, callback=None, verbose=False, **kwargs
     ):
         """Optimize a function f using the random coordinate descent optimizer."""
-        x = x0
+        x = np.array(x0, dtype=float)
         coord_iters = np.zeros(len(x))
         norm = []
 
-- 
2.43.0


From c566e72eecd1b836fa3e694122bdfe9a9c9a08e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 26/60] fix: draw graph states, controlled nodes and wires of a
 single node

---
 mentpy/mbqc/view.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/mentpy/mbqc/view.py b/mentpy/mbqc/view.py
index 33a571d..4a44784 100644
--- a/mentpy/mbqc/view.py
+++ b/mentpy/mbqc/view.py
@@ -112,8 +112,8 @@ def draw(state: Union[MBQCircuit, GraphState], fix_wires=None, **kwargs):
         if state.flow is not None:
             fix_wires = []
             for inp in state.input_nodes:
-                is_output = False
                 wire = [inp]
+                is_output = inp in state.output_nodes
                 while not is_output:
                     out = state.flow(wire[-1])
                     wire.append(out)
@@ -122,6 +122,7 @@ def draw(state: Union[MBQCircuit, GraphState], fix_wires=None, **kwargs):
                 fix_wires.append(tuple(wire))
 
     if isinstance(state, GraphState):
+        options.pop("label"), options.pop("pauliop")
         nx.draw(state, ax=ax, **options)
 
     elif isinstance(state, MBQCircuit):
@@ -205,15 +206,26 @@ def process_labels(state: MBQCircuit, options: dict):
             "XYZ": r"$\nwarrow \nearrow$",
             "": "",
         }
-        labels = {node: plane2arrow[state.planes[node]] for node in state.graph.nodes()}
-        for node in state.controlled_nodes:
-            labels[node] = "Ctrl"
+        labels = {
+            node: (
+                "Ctrl"
+                if node in state.controlled_nodes
+                else plane2arrow[state.planes[node]]
+            )
+            for node in state.graph.nodes()
+        }
         return labels
     elif label_option in ("angles", "angle"):
         labels = {}
         for node in state.graph.nodes():
-            if state.measurements[node] is not None:
-                if state.measurements[node].angle is not None:
+            if node in state.controlled_nodes:
+                labels[node] = "Ctrl"
+            elif state.measurements[node] is not None:
+                if isinstance(state.measurements[node].angle, tuple):
+                    labels[node] = tuple(
+                        round(a, 3) for a in state.measurements[node].angle
+                    )
+                elif state.measurements[node].angle is not None:
                     labels[node] = round(state.measurements[node].angle, 3)
                 else:
                     labels[node] = r"$\theta$"
-- 
2.43.0


From 86b311359962d4a4ef65738b1d5af4fe4643afc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 27/60] fix: pass the noise strength to the PennyLane damping
 channels

---
 mentpy/simulators/pennylane_simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mentpy/simulators/pennylane_simulator.py b/mentpy/simulators/pennylane_simulator.py
index 298f0cf..b324e85 100644
--- a/mentpy/simulators/pennylane_simulator.py
+++ b/mentpy/simulators/pennylane_simulator.py
@@ -125,9 +125,9 @@ def mbqcircuit_to_circuit(
                 if circuit_noise == "depolarizing":
                     qml.DepolarizingChannel(wires=i, *args, **kwargs)
                 elif circuit_noise == "amplitude_damping":
-                    qml.AmplitudeDamping(wires=i, *args, **kwargs)
+                    qml.AmplitudeDamping(kwargs["p"], wires=i)
                 elif circuit_noise == "phase_damping":
-                    qml.PhaseDamping(wires=i, *args, **kwargs)
+                    qml.PhaseDamping(kwargs["p"], wires=i)
                 elif circuit_noise == "phase_flip":
                     qml.PhaseFlip(wires=i, *args, **kwargs)
                 elif circuit_noise == "generalized_amplitude_damping":
-- 
2.43.0


From ff29ec24f4568e2dbfadc778ad39b1ef623b4fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 28/60] fix: generate the right circuit for Pauli strings with
 an even number of Ys

---
 mentpy/mbqc/templates.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/templates.py b/mentpy/mbqc/templates.py
index 747a38e..079327d 100644
--- a/mentpy/mbqc/templates.py
+++ b/mentpy/mbqc/templates.py
@@ -309,6 +309,7 @@ def from_pauli(pauli_op: PauliOp):
 
     measurements = {3 * n_qubits + 1: Ment("XY")}
 
+    n_ys = 0
     for q in range(n_qubits):
         has_x, has_z = False, False
         if pauli_op.matrix[0, q] == 1:
@@ -320,7 +321,11 @@ def from_pauli(pauli_op: PauliOp):
             has_z = True
 
         if has_x and has_z:
-            measurements[3 * n_qubits] = Ment("Y")
+            n_ys += 1
+
+    # every Y contributes a factor of i, so pairs of them cancel out
+    if n_ys % 2 == 1:
+        measurements[3 * n_qubits] = Ment("Y")
 
     input_nodes = [3 * q for q in range(n_qubits)]
     output_nodes = [3 * q + 2 for q in range(n_qubits)]
-- 
2.43.0


From bd2f6f2a04ddfc25f9c576f650bb84a91a655ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 29/60] fix: generate datasets of one sample and shuffle lists

---
 mentpy/utils/generate_data.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mentpy/utils/generate_data.py b/mentpy/utils/generate_data.py
index 9c7c8aa..0425ff6 100644
--- a/mentpy/utils/generate_data.py
+++ b/mentpy/utils/generate_data.py
@@ -35,7 +35,7 @@ def generate_random_dataset(
 ) -> tuple:
     r"Return random training and test data (input, target) for a given unitary gate ``unitary``."
     n_qubits = int(np.log2(unitary.shape[0]))
-    random_inputs = generate_haar_random_states(n_qubits, n_samples=n_samples)
+    random_inputs = [_generate_haar_random_state(n_qubits) for _ in range(n_samples)]
     random_targets = [(unitary @ st.T).T for st in random_inputs]
     return train_test_split(random_inputs, random_targets, test_size=test_size)
 
@@ -48,8 +48,14 @@ def train_test_split(inputs, targets, test_size: float = 0.3, randomize=False) -
 
     if randomize:
         shuffled_indices = np.random.permutation(n_samples)
-        inputs = inputs[shuffled_indices]
-        targets = targets[shuffled_indices]
+        if isinstance(inputs, np.ndarray):
+            inputs = inputs[shuffled_indices]
+        else:
+            inputs = [inputs[i] for i in shuffled_indices]
+        if isinstance(targets, np.ndarray):
+            targets = targets[shuffled_indices]
+        else:
+            targets = [targets[i] for i in shuffled_indices]
 
     return (inputs[:n_train_samples], targets[:n_train_samples]), (
         inputs[n_train_samples:],
@@ -95,7 +101,7 @@ def generate_random_dataset_noisy(
         raise ValueError("noise_level must be between 0 and 1")
 
     n_qubits = int(np.log2(unitary.shape[0]))
-    random_inputs = generate_haar_random_states(n_qubits, n_samples=n_samples)
+    random_inputs = [_generate_haar_random_state(n_qubits) for _ in range(n_samples)]
     n_samples = len(random_inputs)
     n_test_samples = int(n_samples * test_size)
     n_train_samples = n_samples - n_test_samples
-- 
2.43.0


From 9c1998cb0f9f1799fc686798129e7d5b030babef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 30/60] fix: solve binary systems given as plain integer arrays

---
 mentpy/calculator/linalg2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mentpy/calculator/linalg2.py b/mentpy/calculator/linalg2.py
index 727e5d7..d79b9f4 100644
--- a/mentpy/calculator/linalg2.py
+++ b/mentpy/calculator/linalg2.py
@@ -14,7 +14,7 @@ def solve(A, b):
     Solve a linear system of equations Ax = b for x.
     """
     rows, cols = A.shape
-    augmented_matrix = np.hstack((A, b.reshape(-1, 1)))
+    augmented_matrix = np.array(np.hstack((A, b.reshape(-1, 1))), dtype=int) % 2
 
     row = 0
     for col in range(cols):
@@ -43,8 +43,8 @@ def solve(A, b):
     x = np.zeros(cols, dtype=int)
     for row in range(min(rows, cols) - 1, -1, -1):
         col = np.argmax(augmented_matrix[row, :cols])
-        x[col] = augmented_matrix[row, -1] ^ np.sum(
-            augmented_matrix[row, col + 1 : cols] * x[col + 1 : cols]
+        x[col] = augmented_matrix[row, -1] ^ (
+            np.sum(augmented_matrix[row, col + 1 : cols] * x[col + 1 : cols]) % 2
         )
 
     return x
-- 
2.43.0


From 3863c8f437b8c73336e2ce156186de9a8462b376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 31/60] fix: compare graph states and circuits for local
 Clifford equivalence

---
 mentpy/utils/lc_equivalence.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mentpy/utils/lc_equivalence.py b/mentpy/utils/lc_equivalence.py
index 65dcd55..3ec455d 100644
--- a/mentpy/utils/lc_equivalence.py
+++ b/mentpy/utils/lc_equivalence.py
@@ -225,8 +225,16 @@ def are_lc_equivalent(graph1, graph2, clifford_form="tensor"):
             Clifford output according to 'clifford_form' specification.
     """
     # get adjacency matrices of input graphs
-    G = nx.adjacency_matrix(graph1.graph)
-    H = nx.adjacency_matrix(graph2.graph)
+    # (of graph states, or of the graphs of circuits, with nodes in the same order)
+    graph1 = graph1 if isinstance(graph1, nx.Graph) else graph1.graph
+    graph2 = graph2 if isinstance(graph2, nx.Graph) else graph2.graph
+    if len(graph1) == 0 or len(graph2) == 0:
+        return False, None
+    nodes1, nodes2 = list(graph1.nodes), list(graph2.nodes)
+    G = nx.adjacency_matrix(graph1, nodelist=nodes1).toarray()
+    H = nx.adjacency_matrix(
+        graph2, nodelist=nodes1 if set(nodes1) == set(nodes2) else nodes2
+    ).toarray()
 
     # check adjacency matrices for same non-empty square shape
     if np.shape(G) == (0, 0) or np.shape(H) == (0, 0):
-- 
2.43.0


From 9077b73f35eed836b59751822398d9c8c6fdbc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 32/60] fix: search small nullspaces completely for local
 Clifford equivalence

---
 mentpy/utils/lc_equivalence.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mentpy/utils/lc_equivalence.py b/mentpy/utils/lc_equivalence.py
index 3ec455d..260bd48 100644
--- a/mentpy/utils/lc_equivalence.py
+++ b/mentpy/utils/lc_equivalence.py
@@ -122,13 +122,20 @@ def search_nullspace(basis):
     equivalent = False
     # array to store potential solutions
     sols = []
+    if d <= 4:
+        # sums of pairs are only sufficient in larger nullspaces, so here search
+        # through all the elements of the nullspace, as sums of pairs of them
+        elements = [np.zeros(4 * n, dtype=int)]
+        for vec in basis:
+            elements += [np.add(vec, el) % 2 for el in elements]
+        basis, d = np.array(elements), len(elements)
     # search through distinct pairs of basis vectors
     for i in range(d):
         for j in range(i):
             # boolean for checking solution constraints
             sat = True
             # potential solution as sum (modulo 2) of basis pair
-            sol = np.vectorize(lambda x: x % 2)(np.add(basis[i], basis[j]))
+            sol = np.add(basis[i], basis[j]) % 2
             # store potential solution
             sols.append(sol)
             for k in range(n):
-- 
2.43.0


From 8f954dca5772e4a635fd7662e584cbde8516602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 33/60] fix: compute the entanglement entropy of graph states
 from the cut rank

---
 mentpy/mbqc/states/graphstate.py | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/mentpy/mbqc/states/graphstate.py b/mentpy/mbqc/states/graphstate.py
index a90420f..8ad17ce 100644
--- a/mentpy/mbqc/states/graphstate.py
+++ b/mentpy/mbqc/states/graphstate.py
@@ -6,6 +6,7 @@
 import numpy as np
 from mentpy.operators import PauliOp
 import networkx as nx
+import galois
 from typing import Optional, List
 
 __all__ = ["GraphState", "entanglement_entropy"]
@@ -78,31 +79,21 @@ def lc_reduce(graph: GraphState):
     raise NotImplementedError
 
 
-# TODO: Check if this is correct.
 def entanglement_entropy(
     state: GraphState, subRegionA: List, subRegionB: Optional[List] = None
 ) -> float:
-    """Calculate the entanglement entropy of a subregion of a graph state."""
+    """Calculate the entanglement entropy of a subregion of a graph state.
 
-    G = state.copy()
+    It is the rank over GF(2) of the adjacency matrix between the two regions."""
 
-    # minimum_cut requires the capacity kwarg.
-    nx.set_edge_attributes(G, 1, name="capacity")
     if subRegionB is None:
-        subRegionB = set(state.nodes()) - set(subRegionA)
-
-    # Allow subregions. These are merged into a supernode to calculate
-    # the minimum cut between them.
-    if isinstance(subRegionA, List):
-        for v in subRegionA:
-            G = nx.contracted_nodes(G, subRegionA[0], v)
-        subRegionA = subRegionA[0]
-    if isinstance(subRegionB, List):
-        for v in subRegionA:
-            G = nx.contracted_nodes(G, subRegionB[0], v)
-        subRegionB = subRegionB[0]
-
-    return nx.minimum_cut(G, subRegionA, subRegionB)[0]
+        subRegionB = [v for v in state.nodes() if v not in subRegionA]
+
+    if len(subRegionA) == 0 or len(subRegionB) == 0:
+        return 0
+
+    cut = [[int(state.has_edge(u, v)) for v in subRegionB] for u in subRegionA]
+    return int(np.linalg.matrix_rank(galois.GF(2)(cut)))
 
 
 def _get_stabilizers(graph: GraphState) -> List[PauliOp]:
-- 
2.43.0


From 23e8bedad37e21dc0979fb4105d6e4b1d623a67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 34/60] fix: sample the fidelities of a circuit with the
 pattern simulator

---
 mentpy/utils/expressivity.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mentpy/utils/expressivity.py b/mentpy/utils/expressivity.py
index 616fdab..5cd688f 100644
--- a/mentpy/utils/expressivity.py
+++ b/mentpy/utils/expressivity.py
@@ -11,6 +11,7 @@ from scipy.special import kl_div, rel_entr
 
 import pennylane as qml
 
+from mentpy.calculator import pure2density
 from mentpy.mbqc import MBQCircuit
 from mentpy.simulators import PatternSimulator
 from mentpy.utils.lc_equivalence import are_lc_equivalent
@@ -92,20 +93,21 @@ def sample_probability_density_of_fidelities(
 ):
     r"""Calculates samples of the probability of fidelities of the given graph state circuit"""
 
-    pattern_simulator = PatternSimulator(graph_state_circuit)
-    random_input_states = generate_haar_random_states(
-        len(graph_state_circuit.input_nodes), n_samples
-    )
+    random_input_states = [
+        generate_haar_random_states(len(graph_state_circuit.input_nodes))
+        for _ in range(n_samples)
+    ]
     fidelities = []
 
     if backend == "pennylane":
-        qmlcircuit = pattern_simulator.graphstate_to_circuit()
+        pattern_simulator = PatternSimulator(graph_state_circuit, backend=backend)
         for random_st in random_input_states:
             random_pattern = (
-                2 * np.pi * np.random.rand(pattern_simulator.max_measure_number)
+                2 * np.pi * np.random.rand(len(graph_state_circuit.trainable_nodes))
             )
-            final_state = qmlcircuit(random_pattern, output="density")
-            fid = qml.math.fidelity(np.kron(random_st.T, random_st), final_state)
+            pattern_simulator.reset(input_state=random_st)
+            final_state = pattern_simulator.run(random_pattern)
+            fid = qml.math.fidelity(pure2density(random_st), final_state)
             fidelities.append(fid)
 
     # elif backend == "cirq":
-- 
2.43.0


From f2080a4cc0781bbb44651f9db4d157220fcebca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 35/60] fix: simulate a large enough window of nodes in the
 density matrix simulator

---
 mentpy/simulators/base_simulator.py  | 13 +++++
 mentpy/simulators/np_simulator_dm.py | 74 ++++++++++++++++------------
 2 files changed, 55 insertions(+), 32 deletions(-)

diff --git a/mentpy/simulators/base_simulator.py b/mentpy/simulators/base_simulator.py
index de9eb08..c27ef81 100644
--- a/mentpy/simulators/base_simulator.py
+++ b/mentpy/simulators/base_simulator.py
@@ -99,3 +99,16 @@ class BaseSimulator(abc.ABC):
     def reset(self, input_state=None):
         """Resets the simulator to the initial state."""
         pass
+
+
+def minimum_window_size(graph, schedule, schedule_measure, n_inputs: int) -> int:
+    """Returns the smallest number of nodes that have to be simulated at once, when
+    nodes are prepared in the order of ``schedule`` and measured in the order of
+    ``schedule_measure``: a node can only be measured once it is entangled with all of
+    its neighbours."""
+    position = {node: i for i, node in enumerate(schedule)}
+    min_window = max(1, n_inputs, len(schedule) - len(schedule_measure))
+    for k, node in enumerate(schedule_measure):
+        last = max(position[v] for v in [node, *graph.neighbors(node)])
+        min_window = max(min_window, last - k + 1)
+    return min_window
diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index b01aae1..f089d30 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -12,7 +12,7 @@ import networkx as nx
 
 from mentpy.operators import Ment, ControlledMent
 from mentpy.mbqc.mbqcircuit import MBQCircuit
-from mentpy.simulators.base_simulator import BaseSimulator
+from mentpy.simulators.base_simulator import BaseSimulator, minimum_window_size
 
 from mentpy.operators import gates
 
@@ -35,7 +35,8 @@ class NumpySimulatorDM(BaseSimulator):
     ) -> None:
         super().__init__(mbqcircuit, input_state)
 
-        self.window_size = kwargs.pop("window_size", 1)
+        window_size = kwargs.pop("window_size", None)
+        self.window_size = 1 if window_size is None else window_size
         self.schedule = kwargs.pop("schedule", None)
         self.force0 = kwargs.pop("force0", True)
         self.dev_mode = kwargs.pop("dev_mode", False)
@@ -64,6 +65,23 @@ class NumpySimulatorDM(BaseSimulator):
                 "Schedule must be provided for numpy simulator as the MBQCircuit does not have a flow."
             )
 
+        if not self.dev_mode:
+            # the input qubits have to be in the window from the beginning, even if
+            # they are measured later
+            inputs = mbqcircuit.input_nodes
+            self.schedule = [i for i in self.schedule if i in inputs] + [
+                i for i in self.schedule if i not in inputs
+            ]
+            min_window = minimum_window_size(
+                mbqcircuit.graph, self.schedule, self.schedule_measure, len(inputs)
+            )
+            if window_size is None:
+                self.window_size = min_window
+            elif window_size < min_window:
+                raise ValueError(
+                    f"Window size is set to {window_size}, but the pattern needs a window of at least {min_window}."
+                )
+
         input_state = self.reorder_qubits(
             input_state,
             self.mbqcircuit.input_nodes,
@@ -79,9 +97,9 @@ class NumpySimulatorDM(BaseSimulator):
                 " Input state must have at most as many qubits as the window size minus one."
             )
 
-        if self.window_size > len(self.schedule_measure):
+        if self.window_size > len(self.schedule):
             raise ValueError(
-                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule_measure)} measurements."
+                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule)} nodes."
             )
 
         self.current_measurement = 0
@@ -97,8 +115,7 @@ class NumpySimulatorDM(BaseSimulator):
 
         self.initial_czs = np.eye(2**self.window_size)
 
-        if self.dev_mode:
-            self._current_simulated_nodes = self.schedule[0 : self.window_size]
+        self._current_simulated_nodes = self.schedule[0 : self.window_size]
 
         # apply cz gates to neighboring qubits
         for node in self.subgraph.nodes:
@@ -116,12 +133,7 @@ class NumpySimulatorDM(BaseSimulator):
 
     def current_simulated_nodes(self) -> List[int]:
         """Returns the nodes that are currently simulated."""
-        if not self.dev_mode:
-            return self.schedule[
-                self.current_measurement : self.current_measurement + self.window_size
-            ]
-        elif self.dev_mode:
-            return self._current_simulated_nodes
+        return self._current_simulated_nodes
 
     def current_number_simulated_nodes(self) -> int:
         """Returns the number of nodes that are currently simulated."""
@@ -153,10 +165,9 @@ class NumpySimulatorDM(BaseSimulator):
             raise ValueError("No more measurements to be done.")
 
         if not self.dev_mode:
-            current_ment = self.mbqcircuit[
-                self.schedule_measure[self.current_measurement]
-            ].copy()
-            indx = 0
+            node = self.schedule_measure[self.current_measurement]
+            current_ment = self.mbqcircuit[node].copy()
+            indx = self.current_simulated_nodes().index(node)
         elif self.dev_mode:
             # if in dev mode, we measure the first node in the current_simulated_nodes
             # only if a neighbor in the same wire is also in the current_simulated_nodes
@@ -184,17 +195,16 @@ class NumpySimulatorDM(BaseSimulator):
 
         self.qstate = calc.partial_trace(self.qstate, [indx])
 
-        if self.dev_mode:
-            # remove qubit at indx from current_simulated_nodes
-            self._current_simulated_nodes = [
-                i for i in self._current_simulated_nodes if i != node
-            ]
-            if self.current_measurement + self.window_size <= len(
-                self.mbqcircuit.graph.nodes
-            ):
-                self._current_simulated_nodes.append(
-                    self.schedule[self.current_measurement + self.window_size - 1]
-                )
+        # remove qubit at indx from current_simulated_nodes
+        self._current_simulated_nodes = [
+            i for i in self._current_simulated_nodes if i != node
+        ]
+        if self.current_measurement + self.window_size <= len(
+            self.mbqcircuit.graph.nodes
+        ):
+            self._current_simulated_nodes.append(
+                self.schedule[self.current_measurement + self.window_size - 1]
+            )
 
         if self.current_measurement + self.window_size <= len(
             self.mbqcircuit.graph.nodes
@@ -231,6 +241,9 @@ class NumpySimulatorDM(BaseSimulator):
             for i in self.schedule_measure:
                 if i in self.mbqcircuit.trainable_nodes:
                     angle = angles[self.mbqcircuit.trainable_nodes.index(i)]
+                elif i in self.mbqcircuit.controlled_nodes:
+                    # the angle depends on the outcomes
+                    angle = None
                 else:
                     angle = self.mbqcircuit[i].angle
 
@@ -264,9 +277,7 @@ class NumpySimulatorDM(BaseSimulator):
                 self.qstate, outcome = self.measure(angle, mode)
                 self.outcomes[node] = outcome
 
-        current_output_order = [
-            i for i in self.schedule if i not in self.schedule_measure
-        ]
+        current_output_order = self.current_simulated_nodes()
         if self.mbqcircuit.quantum_output_nodes != current_output_order:
             self.qstate = self.reorder_qubits(
                 self.qstate, current_output_order, self.mbqcircuit.quantum_output_nodes
@@ -301,8 +312,7 @@ class NumpySimulatorDM(BaseSimulator):
         self.qstate = self.initial_czs @ self.qstate @ np.conj(self.initial_czs).T
         self.outcomes = {}
 
-        if self.dev_mode:
-            self._current_simulated_nodes = self.schedule[0 : self.window_size]
+        self._current_simulated_nodes = self.schedule[0 : self.window_size]
 
     def measure_ment(self, ment: Ment, angle, i, force0=False, mode="sample"):
         """
-- 
2.43.0


From a6f4ee8c1e27ee6bf12264d0782dc5da213f66d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 36/60] fix: simulate a large enough window and measured
 outputs in the state vector simulator

---
 mentpy/simulators/np_simulator_sv.py | 84 ++++++++++++++--------------
 1 file changed, 43 insertions(+), 41 deletions(-)

diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index e7491f8..0846ab5 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -12,7 +12,7 @@ import networkx as nx
 
 from mentpy.operators import Ment
 from mentpy.mbqc.mbqcircuit import MBQCircuit
-from mentpy.simulators.base_simulator import BaseSimulator
+from mentpy.simulators.base_simulator import BaseSimulator, minimum_window_size
 
 from mentpy.operators import gates
 import mentpy.calculator as calc
@@ -40,7 +40,8 @@ class NumpySimulatorSV(BaseSimulator):
     ) -> None:
         super().__init__(mbqcircuit, input_state)
 
-        self.window_size = kwargs.pop("window_size", 1)
+        window_size = kwargs.pop("window_size", None)
+        self.window_size = 1 if window_size is None else window_size
         self.schedule = kwargs.pop("schedule", None)
         self.force0 = kwargs.pop("force0", True)
 
@@ -61,14 +62,14 @@ class NumpySimulatorSV(BaseSimulator):
         # TODO: FIND SCHEDULE IF NOT PROVIDED
         if self.schedule is not None:
             self.schedule_measure = [
-                i for i in self.schedule if i not in mbqcircuit.output_nodes
+                i for i in self.schedule if i not in mbqcircuit.quantum_output_nodes
             ]
         elif mbqcircuit.measurement_order is not None:
             # remove output nodes from the measurement order
             self.schedule_measure = [
                 i
                 for i in mbqcircuit.measurement_order
-                if i not in mbqcircuit.output_nodes
+                if i not in mbqcircuit.quantum_output_nodes
             ]
             self.schedule = mbqcircuit.measurement_order
             if self.window_size == 1 and mbqcircuit.flow is not None:
@@ -78,6 +79,23 @@ class NumpySimulatorSV(BaseSimulator):
                 "Schedule must be provided for numpy simulator as the MBQCircuit does not have a flow."
             )
 
+        if not self.dev_mode:
+            # the input qubits have to be in the window from the beginning, even if
+            # they are measured later
+            inputs = mbqcircuit.input_nodes
+            self.schedule = [i for i in self.schedule if i in inputs] + [
+                i for i in self.schedule if i not in inputs
+            ]
+            min_window = minimum_window_size(
+                mbqcircuit.graph, self.schedule, self.schedule_measure, len(inputs)
+            )
+            if window_size is None:
+                self.window_size = min_window
+            elif window_size < min_window:
+                raise ValueError(
+                    f"Window size is set to {window_size}, but the pattern needs a window of at least {min_window}."
+                )
+
         input_state = self.reorder_qubits(
             input_state,
             self.mbqcircuit.input_nodes,
@@ -93,9 +111,9 @@ class NumpySimulatorSV(BaseSimulator):
                 " Input state must have at most as many qubits as the window size minus one."
             )
 
-        if self.window_size > len(self.schedule_measure):
+        if self.window_size > len(self.schedule):
             raise ValueError(
-                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule_measure)} measurements."
+                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule)} nodes."
             )
 
         self.current_measurement = 0
@@ -111,8 +129,7 @@ class NumpySimulatorSV(BaseSimulator):
 
         self.initial_czs = np.eye(2**self.window_size)
 
-        if self.dev_mode:
-            self._current_simulated_nodes = self.schedule[0 : self.window_size]
+        self._current_simulated_nodes = self.schedule[0 : self.window_size]
 
         # apply cz gates to neighboring qubits
         for node in self.subgraph.nodes:
@@ -129,12 +146,7 @@ class NumpySimulatorSV(BaseSimulator):
 
     def current_simulated_nodes(self) -> List[int]:
         """Returns the nodes that are currently simulated."""
-        if not self.dev_mode:
-            return self.schedule[
-                self.current_measurement : self.current_measurement + self.window_size
-            ]
-        elif self.dev_mode:
-            return self._current_simulated_nodes
+        return self._current_simulated_nodes
 
     def current_number_simulated_nodes(self) -> int:
         """Returns the number of nodes that are currently simulated."""
@@ -166,10 +178,9 @@ class NumpySimulatorSV(BaseSimulator):
             raise ValueError("No more measurements to be done.")
 
         if not self.dev_mode:
-            current_ment = self.mbqcircuit[
-                self.schedule_measure[self.current_measurement]
-            ].copy()
-            indx = 0
+            node = self.schedule_measure[self.current_measurement]
+            current_ment = self.mbqcircuit[node].copy()
+            indx = self.current_simulated_nodes().index(node)
         elif self.dev_mode:
             # if in dev mode, we measure the first node in the current_simulated_nodes
             # only if a neighbor in the same wire is also in the current_simulated_nodes
@@ -192,17 +203,16 @@ class NumpySimulatorSV(BaseSimulator):
         self.current_measurement += 1
         self.qstate = calc.partial_trace(self.qstate, [indx])
 
-        if self.dev_mode:
-            # remove qubit at indx from current_simulated_nodes
-            self._current_simulated_nodes = [
-                i for i in self._current_simulated_nodes if i != node
-            ]
-            if self.current_measurement + self.window_size <= len(
-                self.mbqcircuit.graph.nodes
-            ):
-                self._current_simulated_nodes.append(
-                    self.schedule[self.current_measurement + self.window_size - 1]
-                )
+        # remove qubit at indx from current_simulated_nodes
+        self._current_simulated_nodes = [
+            i for i in self._current_simulated_nodes if i != node
+        ]
+        if self.current_measurement + self.window_size <= len(
+            self.mbqcircuit.graph.nodes
+        ):
+            self._current_simulated_nodes.append(
+                self.schedule[self.current_measurement + self.window_size - 1]
+            )
 
         if self.current_measurement + self.window_size <= len(
             self.mbqcircuit.graph.nodes
@@ -275,18 +285,10 @@ class NumpySimulatorSV(BaseSimulator):
                 self.qstate, outcome = self.measure(angle)
                 self.outcomes[node] = outcome
 
-        # check if output nodes have a measurement, if so, measure them
-        for i in self.mbqcircuit.output_nodes:
-            if isinstance(self.mbqcircuit[i], Ment):
-                self.qstate, outcome = self.measure_ment(
-                    self.mbqcircuit[i], self.mbqcircuit[i].angle, i, force0=self.force0
-                )
-                self.outcomes[i] = outcome
-
         current_output_order = self.current_simulated_nodes()
         if self.mbqcircuit.quantum_output_nodes != current_output_order:
             self.qstate = self.reorder_qubits(
-                self.qstate, current_output_order, self.mbqcircuit.output_nodes
+                self.qstate, current_output_order, self.mbqcircuit.quantum_output_nodes
             )
 
         if output_form.lower() == "dm" or output_form.lower() == "densitymatrix":
@@ -316,8 +318,7 @@ class NumpySimulatorSV(BaseSimulator):
 
         self.outcomes = {}
 
-        if self.dev_mode:
-            self._current_simulated_nodes = self.schedule[0 : self.window_size]
+        self._current_simulated_nodes = self.schedule[0 : self.window_size]
 
     def measure_ment(self, ment: Ment, angle, i, force0=False):
         """
@@ -346,7 +347,8 @@ class NumpySimulatorSV(BaseSimulator):
         if not force0:
             outcome = np.random.choice([0, 1], p=[prob0, prob1] / (prob0 + prob1))
         else:
-            outcome = 0
+            # outcome 0 might be impossible, e.g. for measured outputs
+            outcome = 1 if np.real(prob0) < 1e-4 else 0
 
         if outcome == 0:
             self.qstate = p0_extended @ self.qstate
-- 
2.43.0


From 32b22467718498d98d98b84637b7b28ac2f1ceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 37/60] fix: numpy simulators no longer replace an explicit
 window size of 1 by the default

---
 mentpy/simulators/np_simulator_dm.py | 2 +-
 mentpy/simulators/np_simulator_sv.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index f089d30..3df1eac 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -58,7 +58,7 @@ class NumpySimulatorDM(BaseSimulator):
                 if i not in mbqcircuit.quantum_output_nodes
             ]
             self.schedule = mbqcircuit.measurement_order
-            if self.window_size == 1 and mbqcircuit.flow is not None:
+            if window_size is None and mbqcircuit.flow is not None:
                 self.window_size = len(mbqcircuit.input_nodes) + 1
         else:
             raise ValueError(
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index 0846ab5..7f86a01 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -72,7 +72,7 @@ class NumpySimulatorSV(BaseSimulator):
                 if i not in mbqcircuit.quantum_output_nodes
             ]
             self.schedule = mbqcircuit.measurement_order
-            if self.window_size == 1 and mbqcircuit.flow is not None:
+            if window_size is None and mbqcircuit.flow is not None:
                 self.window_size = len(mbqcircuit.input_nodes) + 1
         else:
             raise ValueError(
-- 
2.43.0


From 08c1394dbd9f8b96ce19a2dbb97625388eaf2729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:34 +0000
Subject: [PATCH 38/60] fix: numpy-dm clips rounding-negative outcome
 probabilities instead of crashing

---
 mentpy/simulators/np_simulator_dm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index 3df1eac..59d16f5 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -331,8 +331,9 @@ class NumpySimulatorDM(BaseSimulator):
             p1, i, self.current_number_simulated_nodes()
         )
 
-        prob0 = np.real(np.trace(self.qstate @ p0_extended))
-        prob1 = np.real(np.trace(self.qstate @ p1_extended))
+        # rounding must not make a probability negative
+        prob0 = max(0.0, np.real(np.trace(self.qstate @ p0_extended)))
+        prob1 = max(0.0, np.real(np.trace(self.qstate @ p1_extended)))
 
         COND = (mode == "expectation" or mode == "exp") and ment.plane == "Z"
 
-- 
2.43.0


From a7e5bba6114ef56486a6305cf40c2ee4d5139433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:52 +0000
Subject: [PATCH 39/60] fix: pennylane backend matches angles to trainable
 nodes in their reported order

---
 mentpy/simulators/pennylane_simulator.py | 35 +++++++++++-------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/mentpy/simulators/pennylane_simulator.py b/mentpy/simulators/pennylane_simulator.py
index b324e85..d69a8ea 100644
--- a/mentpy/simulators/pennylane_simulator.py
+++ b/mentpy/simulators/pennylane_simulator.py
@@ -65,26 +65,23 @@ class PennylaneSimulator(BaseSimulator):
 
         extended_angles = []
 
-        if len(self.mbqcircuit.trainable_nodes) != len(self.mbqcircuit.outputc):
-            for i in self.mbqcircuit.outputc:
-                if i in self.mbqcircuit.trainable_nodes:
-                    angle = angles[self.mbqcircuit.trainable_nodes.index(i)]
+        for i in self.mbqcircuit.outputc:
+            if i in self.mbqcircuit.trainable_nodes:
+                angle = angles[self.mbqcircuit.trainable_nodes.index(i)]
+            else:
+                plane = self.mbqcircuit.planes[i]
+                if plane == "X":
+                    angle = 0
+                elif plane == "Y":
+                    angle = np.pi / 2
+                elif plane == "XY":
+                    angle = self.mbqcircuit[i].angle
                 else:
-                    plane = self.mbqcircuit.planes[i]
-                    if plane == "X":
-                        angle = 0
-                    elif plane == "Y":
-                        angle = np.pi / 2
-                    elif plane == "XY":
-                        angle = self.mbqcircuit[i].angle
-                    else:
-                        raise ValueError(
-                            f"Plane {plane} is not supported for pennylane simulator."
-                        )
-
-                extended_angles.append(angle)
-        else:
-            extended_angles = angles
+                    raise ValueError(
+                        f"Plane {plane} is not supported for pennylane simulator."
+                    )
+
+            extended_angles.append(angle)
 
         return self.circuit(extended_angles, st=self.input_state, **kwargs)
 
-- 
2.43.0


From 05bf1781593b329ea991f711bf6b18a1c6b524a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:10 +0000
Subject: [PATCH 40/60] fix: PauliOp.get_subset refuses negative qubit indices
 instead of swapping X and Z

---
 mentpy/operators/pauliop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/operators/pauliop.py b/mentpy/operators/pauliop.py
index 94d0392..575d29a 100644
--- a/mentpy/operators/pauliop.py
+++ b/mentpy/operators/pauliop.py
@@ -210,7 +210,7 @@ class PauliOp:
             print(op.get_subset([0, 2]))
         """
         inds = indices.copy()
-        if max(inds) >= self.matrix.shape[1] // 2:
+        if max(inds) >= self.matrix.shape[1] // 2 or min(inds) < 0:
             raise ValueError("Index out of range")
 
         inds += [i + self.matrix.shape[1] // 2 for i in inds]
-- 
2.43.0


From 4b64389bd09e92659c3fad7bd34eada777cef2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:27 +0000
Subject: [PATCH 41/60] fix: stabilizers of a graph state without edges

---
 mentpy/mbqc/states/graphstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/mbqc/states/graphstate.py b/mentpy/mbqc/states/graphstate.py
index 8ad17ce..706d35d 100644
--- a/mentpy/mbqc/states/graphstate.py
+++ b/mentpy/mbqc/states/graphstate.py
@@ -103,7 +103,7 @@ def _get_stabilizers(graph: GraphState) -> List[PauliOp]:
     -----
     states
     """
-    z_mat = nx.adjacency_matrix(graph).todense()
+    z_mat = nx.adjacency_matrix(graph, dtype=int).todense()
     x_mat = np.eye(graph.number_of_nodes(), dtype=int)
 
     return PauliOp(np.hstack((x_mat, z_mat)))
-- 
2.43.0


From 8f1fdfa3a72cb2745ad8f381ebd7a4565e53dc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 42/60] fix: Lie-algebra generators do not use the stabilizers
 of input nodes

---
 mentpy/utils/lie_algebra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mentpy/utils/lie_algebra.py b/mentpy/utils/lie_algebra.py
index f69b584..7853eca 100644
--- a/mentpy/utils/lie_algebra.py
+++ b/mentpy/utils/lie_algebra.py
@@ -24,12 +24,14 @@ def _constrains(j: int, state: MBQCircuit, stabilizers: PauliOp):
     mo = state.measurement_order
     mapping = state.index_mapping()
     mo = [mapping[i] for i in mo]
+    inputs = [mapping[i] for i in state.input_nodes]
     j = mapping[j]
 
     A = []
     b = []
     for k in mo:
-        if (not state.partial_order(j, k)) or k == j:
+        # the operators of the input nodes do not stabilize an arbitrary input state
+        if (not state.partial_order(j, k)) or k == j or k in inputs:
             A.append(stabilizers[k].matrix[0, : len(mo)])
             b.append(np.zeros(1, dtype=int))
 
-- 
2.43.0


From 460cd4dc475f408fdf1769981ad7866861b6ef01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:01 +0000
Subject: [PATCH 43/60] fix: local-Clifford equivalence of disconnected graphs

---
 mentpy/utils/lc_equivalence.py | 41 ++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/mentpy/utils/lc_equivalence.py b/mentpy/utils/lc_equivalence.py
index 260bd48..2c5bd7b 100644
--- a/mentpy/utils/lc_equivalence.py
+++ b/mentpy/utils/lc_equivalence.py
@@ -163,6 +163,39 @@ def search_nullspace(basis):
     return solution_vector
 
 
+def find_local_clifford(G, H):
+    """Find a local Clifford taking the graph state of G to that of H.
+    The search of the nullspace is only exhaustive for connected graphs, and a local
+    Clifford keeps the connected components, so they are solved one by one.
+    Args:
+        G, H (numpy.array): n x n adjacency matrices.
+    Returns:
+        NoneType or numpy.array: None if there is none, or the solution vector as
+            returned by search_nullspace.
+    """
+    n = np.shape(G)[0]
+    components = [
+        {frozenset(c) for c in nx.connected_components(nx.from_numpy_array(M))}
+        for M in (G, H)
+    ]
+    if components[0] != components[1]:
+        return None
+    solution_vector = np.zeros(4 * n, dtype=int)
+    for component in components[0]:
+        inds = np.array(sorted(component))
+        # construct system of constraints for two adjacency matrices G and H
+        system = lc_constraint_system(G[np.ix_(inds, inds)], H[np.ix_(inds, inds)])
+        # construct nullspace basis of system of constraints
+        nullspace = nullspace_basis(system)
+        # search nullspace for solution vector
+        sol = search_nullspace(nullspace)
+        if sol is None:
+            return None
+        for k in range(4):
+            solution_vector[k * n + inds] = sol[k * len(inds) : (k + 1) * len(inds)]
+    return solution_vector
+
+
 def clifford_vec_to_tensors(vec):
     """Convert a local Clifford gate on n qubits to a list of n single-qubit
     Cliffords.
@@ -257,13 +290,7 @@ def are_lc_equivalent(graph1, graph2, clifford_form="tensor"):
         raise ValueError("Input matrices must be square.")
 
     # perform algorithm to search for solution
-    #
-    # construct system of constraints for two adjacency matrices G and H
-    system = lc_constraint_system(G, H)
-    # construct nullspace basis of system of constraints
-    nullspace = nullspace_basis(system)
-    # search nullspace for solution vector
-    solution_vector = search_nullspace(nullspace)
+    solution_vector = find_local_clifford(G, H)
 
     # if graphs are not equivalent set clifford_output to None
     if solution_vector is None:
-- 
2.43.0


From 33fe16c83b981c553af9e3a3d2491a01d715cea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:43 +0000
Subject: [PATCH 44/60] fix: RCD steps do not overwrite the point they start
 from (nor the ones given to callbacks)

---
 mentpy/optimizers/rcd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mentpy/optimizers/rcd.py b/mentpy/optimizers/rcd.py
index efdc218..91b693b 100644
--- a/mentpy/optimizers/rcd.py
+++ b/mentpy/optimizers/rcd.py
@@ -40,6 +40,7 @@ class RCDOptimizer(BaseOptimizer):
 
     def step(self, f, x, i, **kwargs):
         """Take a step using the random coordinate descent optimizer."""
+        x = np.array(x, dtype=float)
         coord_idx = random.randint(0, len(x) - 1)
         delta = np.zeros_like(x)
         delta[coord_idx] = 1e-5
@@ -78,6 +79,7 @@ class RCDOptimizer(BaseOptimizer):
 
         for i in range(num_iters):
             # Random coordinate descent optimizer
+            x = x.copy()
             coord_idx = random.randint(0, len(x) - 1)
             coord_iters[coord_idx] += 1
             delta = np.zeros_like(x)
-- 
2.43.0


From 0073def4c96754ca35489527e58a99a28ffa2802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:24 +0000
Subject: [PATCH 45/60] fix: sampled fidelities stay in the unit interval

---
 mentpy/utils/expressivity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mentpy/utils/expressivity.py b/mentpy/utils/expressivity.py
index 5cd688f..d2d34be 100644
--- a/mentpy/utils/expressivity.py
+++ b/mentpy/utils/expressivity.py
@@ -108,7 +108,8 @@ def sample_probability_density_of_fidelities(
             pattern_simulator.reset(input_state=random_st)
             final_state = pattern_simulator.run(random_pattern)
             fid = qml.math.fidelity(pure2density(random_st), final_state)
-            fidelities.append(fid)
+            # rounding can leave the unit interval, which the histogram would drop
+            fidelities.append(np.clip(fid, 0, 1))
 
     # elif backend == "cirq":
     #     for random_st in random_input_states:
-- 
2.43.0


From 1360aaf22e16fafdecd84adf70eda9c2decf3a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:24 +0000
Subject: [PATCH 46/60] fix: refuse unknown noise types instead of returning
 inputs without targets

---
 mentpy/utils/generate_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mentpy/utils/generate_data.py b/mentpy/utils/generate_data.py
index 0425ff6..6c094f1 100644
--- a/mentpy/utils/generate_data.py
+++ b/mentpy/utils/generate_data.py
@@ -99,6 +99,8 @@ def generate_random_dataset_noisy(
     """
     if noise_level > 1 or noise_level < 0:
         raise ValueError("noise_level must be between 0 and 1")
+    if noise_type not in ["brownian", "bitflip"]:
+        raise ValueError("noise_type must be either 'brownian' or 'bitflip'")
 
     n_qubits = int(np.log2(unitary.shape[0]))
     random_inputs = [_generate_haar_random_state(n_qubits) for _ in range(n_samples)]
-- 
2.43.0


From bdc202e04476b7824d665a8508ce87982183ef80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:07 +0000
Subject: [PATCH 47/60] fix: draw outputs to the right of inputs when there is
 no flow

---
 mentpy/mbqc/view.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/view.py b/mentpy/mbqc/view.py
index 4a44784..360193e 100644
--- a/mentpy/mbqc/view.py
+++ b/mentpy/mbqc/view.py
@@ -134,7 +134,8 @@ def draw(state: Union[MBQCircuit, GraphState], fix_wires=None, **kwargs):
         for indx, p in enumerate(state.input_nodes):
             position_xy[p] = (0, -1 * indx)
 
-        separation = len(state.outputc) // len(state.output_nodes)
+        # keep the outputs to the right of the inputs
+        separation = max(2, len(state.outputc) // max(1, len(state.output_nodes)))
         if fix_wires is not None:
             for wire in fix_wires:
                 if len(wire) + 2 > separation:
-- 
2.43.0


From 081f9c9e7759b1c0b991c1524dd9964c69c8b28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:33 +0000
Subject: [PATCH 48/60] fix: a window size of 1 still selects the window
 automatically, in one-node circuits too

---
 mentpy/simulators/np_simulator_dm.py | 4 +++-
 mentpy/simulators/np_simulator_sv.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index 59d16f5..c4ccb1d 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -36,6 +36,8 @@ class NumpySimulatorDM(BaseSimulator):
         super().__init__(mbqcircuit, input_state)
 
         window_size = kwargs.pop("window_size", None)
+        if window_size == 1:
+            window_size = None  # a window of one node selects the size automatically
         self.window_size = 1 if window_size is None else window_size
         self.schedule = kwargs.pop("schedule", None)
         self.force0 = kwargs.pop("force0", True)
@@ -58,7 +60,7 @@ class NumpySimulatorDM(BaseSimulator):
                 if i not in mbqcircuit.quantum_output_nodes
             ]
             self.schedule = mbqcircuit.measurement_order
-            if window_size is None and mbqcircuit.flow is not None:
+            if self.window_size == 1 and mbqcircuit.flow is not None:
                 self.window_size = len(mbqcircuit.input_nodes) + 1
         else:
             raise ValueError(
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index 7f86a01..b0ebf8b 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -41,6 +41,8 @@ class NumpySimulatorSV(BaseSimulator):
         super().__init__(mbqcircuit, input_state)
 
         window_size = kwargs.pop("window_size", None)
+        if window_size == 1:
+            window_size = None  # a window of one node selects the size automatically
         self.window_size = 1 if window_size is None else window_size
         self.schedule = kwargs.pop("schedule", None)
         self.force0 = kwargs.pop("force0", True)
@@ -72,7 +74,7 @@ class NumpySimulatorSV(BaseSimulator):
                 if i not in mbqcircuit.quantum_output_nodes
             ]
             self.schedule = mbqcircuit.measurement_order
-            if window_size is None and mbqcircuit.flow is not None:
+            if self.window_size == 1 and mbqcircuit.flow is not None:
                 self.window_size = len(mbqcircuit.input_nodes) + 1
         else:
             raise ValueError(
-- 
2.43.0


From c035c9d1a272e4ac4502b48d76d4e1856b7b99af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:10 +0000
Subject: [PATCH 49/60] fix: record the outcome of every measured node, also
 when measuring step by step

---
 mentpy/simulators/np_simulator_dm.py | 1 +
 mentpy/simulators/np_simulator_sv.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index c4ccb1d..fe6b5a0 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -188,6 +188,7 @@ class NumpySimulatorDM(BaseSimulator):
         self.qstate, outcome = self.measure_ment(
             current_ment, angle, indx, force0=self.force0, mode=mode
         )
+        self.outcomes[node] = outcome
         # check if qstate has nan
         if np.isnan(self.qstate).any():
             raise ValueError(
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index b0ebf8b..0032031 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -201,6 +201,7 @@ class NumpySimulatorSV(BaseSimulator):
         self.qstate, outcome = self.measure_ment(
             current_ment, angle, indx, force0=self.force0
         )
+        self.outcomes[node] = outcome
 
         self.current_measurement += 1
         self.qstate = calc.partial_trace(self.qstate, [indx])
-- 
2.43.0


From 5c9605736e38ad9eb4ec3f5d5f22d274a2a56877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 50/60] fix: a run leaves the simulated nodes in the order of
 the state

---
 mentpy/simulators/np_simulator_dm.py | 3 +++
 mentpy/simulators/np_simulator_sv.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index fe6b5a0..dfc9cb6 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -285,6 +285,9 @@ class NumpySimulatorDM(BaseSimulator):
             self.qstate = self.reorder_qubits(
                 self.qstate, current_output_order, self.mbqcircuit.quantum_output_nodes
             )
+            self._current_simulated_nodes = list(
+                self.mbqcircuit.quantum_output_nodes
+            )
 
         # # check if output nodes have a measurement, if so, measure them
         # for i in self.mbqcircuit.output_nodes:
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index 0032031..104a00e 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -293,6 +293,9 @@ class NumpySimulatorSV(BaseSimulator):
             self.qstate = self.reorder_qubits(
                 self.qstate, current_output_order, self.mbqcircuit.quantum_output_nodes
             )
+            self._current_simulated_nodes = list(
+                self.mbqcircuit.quantum_output_nodes
+            )
 
         if output_form.lower() == "dm" or output_form.lower() == "densitymatrix":
             return np.outer(self.qstate, np.conj(self.qstate).T)
-- 
2.43.0


From 5e533fc007cbd76290393fee75601f2357588d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 51/60] fix: refuse trainable measurements outside the XY plane
 in the PennyLane simulator

---
 mentpy/simulators/pennylane_simulator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mentpy/simulators/pennylane_simulator.py b/mentpy/simulators/pennylane_simulator.py
index d69a8ea..c8ca098 100644
--- a/mentpy/simulators/pennylane_simulator.py
+++ b/mentpy/simulators/pennylane_simulator.py
@@ -67,6 +67,10 @@ class PennylaneSimulator(BaseSimulator):
 
         for i in self.mbqcircuit.outputc:
             if i in self.mbqcircuit.trainable_nodes:
+                if self.mbqcircuit.planes[i] != "XY":
+                    raise ValueError(
+                        f"Plane {self.mbqcircuit.planes[i]} is not supported for pennylane simulator."
+                    )
                 angle = angles[self.mbqcircuit.trainable_nodes.index(i)]
             else:
                 plane = self.mbqcircuit.planes[i]
-- 
2.43.0


From b3f48122599860bdcdb2c62303b8cb290a0d3352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 52/60] fix: refuse invalid measurement orders when a circuit
 is built

---
 mentpy/mbqc/mbqcircuit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 0bab4c5..a3c8ae5 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -171,7 +171,11 @@ class MBQCircuit:
         if measurement_order is None and flow is not None:
             measurement_order = self.calculate_order()
 
-        self._measurement_order = measurement_order
+        if measurement_order is None or flow is None:
+            self._measurement_order = measurement_order
+        else:
+            # refuses orders that do not respect the partial order
+            self.measurement_order = measurement_order
 
     def __repr__(self) -> str:
         """Return the representation of the current MBQC circuit state"""
-- 
2.43.0


From 61ee777dca31f7babd5138c6f0690be7d4234c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:44 +0000
Subject: [PATCH 53/60] fix: Lie algebra of circuits that keep their own node
 names

---
 mentpy/utils/lie_algebra.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/mentpy/utils/lie_algebra.py b/mentpy/utils/lie_algebra.py
index 7853eca..3652638 100644
--- a/mentpy/utils/lie_algebra.py
+++ b/mentpy/utils/lie_algebra.py
@@ -23,20 +23,17 @@ def _constrains(j: int, state: MBQCircuit, stabilizers: PauliOp):
 
     mo = state.measurement_order
     mapping = state.index_mapping()
-    mo = [mapping[i] for i in mo]
-    inputs = [mapping[i] for i in state.input_nodes]
-    j = mapping[j]
 
     A = []
     b = []
     for k in mo:
         # the operators of the input nodes do not stabilize an arbitrary input state
-        if (not state.partial_order(j, k)) or k == j or k in inputs:
-            A.append(stabilizers[k].matrix[0, : len(mo)])
+        if (not state.partial_order(j, k)) or k == j or k in state.input_nodes:
+            A.append(stabilizers[mapping[k]].matrix[0, : len(mo)])
             b.append(np.zeros(1, dtype=int))
 
-    for k in [mapping[i] for i in state.outputc]:
-        A.append(stabilizers[k].matrix[0, len(mo) :])
+    for k in state.outputc:
+        A.append(stabilizers[mapping[k]].matrix[0, len(mo) :])
         p = 0 if k != j else 1
         b.append(np.array([p]))
 
@@ -80,14 +77,11 @@ def calculate_complete_gens_lie_algebra(state: MBQCircuit):
 
 def calculate_gens_lie_algebra(state: MBQCircuit):
     """Calculates the generators of the Lie algebra of a given state"""
-    mapping = {
-        i: j
-        for i, j in zip(state.measurement_order, range(len(state.measurement_order)))
-    }
+    mapping = state.index_mapping()
 
     lieAlgebra = calculate_complete_gens_lie_algebra(state)
 
-    output_ops = lieAlgebra.get_subset(state.output_nodes)
+    output_ops = lieAlgebra.get_subset([mapping[i] for i in state.output_nodes])
     return remove_repeated_ops(output_ops)
 
 
-- 
2.43.0


From 3a64546f7490321afa21a861ab9a9f39c3e2301e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 54/60] fix: stack and merge circuits that keep their own node
 names

---
 mentpy/mbqc/mbqcircuit.py | 76 +++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 39 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index a3c8ae5..1eb2b7f 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -529,8 +529,10 @@ def merge(state1: MBQCircuit, state2: MBQCircuit, along=[]) -> MBQCircuit:
     graph = nx.disjoint_union(state1.graph, state2.graph)
     along1, along2 = zip(*along) if len(along) > 0 else ((), ())
 
-    input_nodes = state1.input_nodes + [
-        i + len(state1.graph) for i in state2.input_nodes if i not in along2
+    index1, index2 = _disjoint_union_indices(state1, state2)
+
+    input_nodes = [index1[i] for i in state1.input_nodes] + [
+        index2[i] for i in state2.input_nodes if i not in along2
     ]
     output_nodes = []
     added_ind = []
@@ -540,32 +542,38 @@ def merge(state1: MBQCircuit, state2: MBQCircuit, along=[]) -> MBQCircuit:
             inputnode = along2[output_ind]
             input_index = state2.input_nodes.index(inputnode)
             added_ind.append(input_index)
-            output_nodes.append(state2.output_nodes[input_index] + len(state1.graph))
+            output_nodes.append(index2[state2.output_nodes[input_index]])
         else:
-            output_nodes.append(j)
+            output_nodes.append(index1[j])
     output_nodes += [
-        i + len(state1.graph)
+        index2[i]
         for indx, i in enumerate(state2.output_nodes)
         if indx not in added_ind
     ]
 
-    measurements = dict(state1.measurements)
-    measurements.update(
-        {i + len(state1.graph): ment for i, ment in state2.measurements.items()}
-    )
+    measurements = {index1[i]: ment for i, ment in state1.measurements.items()}
+    measurements.update({index2[i]: ment for i, ment in state2.measurements.items()})
 
     for i, j in along:
-        graph.add_edge(i, j + len(state1.graph))
-        graph = nx.contracted_edge(graph, (j + len(state1.graph), i), self_loops=False)
-        del measurements[i]
+        graph.add_edge(index1[i], index2[j])
+        graph = nx.contracted_edge(graph, (index2[j], index1[i]), self_loops=False)
+        del measurements[index1[i]]
 
     # an output of state1 may also be one of its inputs
-    merged = {i: j + len(state1.graph) for i, j in along}
+    merged = {index1[i]: index2[j] for i, j in along}
     input_nodes = [merged.get(i, i) for i in input_nodes]
 
     return MBQCircuit(graph, input_nodes, output_nodes, measurements=measurements)
 
 
+def _disjoint_union_indices(state1: MBQCircuit, state2: MBQCircuit):
+    """Indices of the nodes of two states in the disjoint union of their graphs, which
+    may differ from their names."""
+    index1 = {v: i for i, v in enumerate(state1.graph.nodes)}
+    index2 = {v: i + len(index1) for i, v in enumerate(state2.graph.nodes)}
+    return index1, index2
+
+
 def vstack(states):
     """Vertically stack a list of graph states into a larger graph state. This is,
     the input of the new MBQC circuit is the input of the first state, and the output
@@ -608,17 +616,16 @@ def _vstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
     states
     """
     graph = nx.disjoint_union(state1.graph, state2.graph)
-    input_nodes = state1.input_nodes + [
-        i + len(state1.graph) for i in state2.input_nodes
+    index1, index2 = _disjoint_union_indices(state1, state2)
+    input_nodes = [index1[i] for i in state1.input_nodes] + [
+        index2[i] for i in state2.input_nodes
     ]
-    output_nodes = state1.output_nodes + [
-        i + len(state1.graph) for i in state2.output_nodes
+    output_nodes = [index1[i] for i in state1.output_nodes] + [
+        index2[i] for i in state2.output_nodes
     ]
 
-    measurements = dict(state1.measurements)
-    measurements.update(
-        {i + len(state1.graph): plane for i, plane in state2.measurements.items()}
-    )
+    measurements = {index1[i]: plane for i, plane in state1.measurements.items()}
+    measurements.update({index2[i]: plane for i, plane in state2.measurements.items()})
 
     # TODO: Compute flow and partial order
     return MBQCircuit(graph, input_nodes, output_nodes, measurements=measurements)
@@ -651,31 +658,22 @@ def _hstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
     # create new graph
     graph = nx.disjoint_union(state1.graph, state2.graph)
 
-    nodes1 = list(state1.graph.nodes())
-    nodes2 = list(state2.graph.nodes())
-
-    for i in range(len(state1.output_nodes)):
-        graph.add_edge(
-            nodes1.index(state1.output_nodes[i]),
-            nodes2.index(state2.input_nodes[i]) + len(nodes1),
-        )
+    index1, index2 = _disjoint_union_indices(state1, state2)
 
-    input_nodes = [nodes1.index(i) for i in state1.input_nodes]
-    output_nodes = [nodes2.index(j) + len(nodes1) for j in state2.output_nodes]
+    input_nodes = [index1[i] for i in state1.input_nodes]
+    output_nodes = [index2[j] for j in state2.output_nodes]
 
-    measurements = {nodes1.index(i): ment for i, ment in state1.measurements.items()}
-    measurements.update(
-        {nodes2.index(i) + len(nodes1): ment for i, ment in state2.measurements.items()}
-    )
+    measurements = {index1[i]: ment for i, ment in state1.measurements.items()}
+    measurements.update({index2[i]: ment for i, ment in state2.measurements.items()})
 
     for i, j in zip(state1.output_nodes, state2.input_nodes):
-        graph.add_edge(i, j + len(state1.graph))
-        graph = nx.contracted_edge(graph, (j + len(state1.graph), i), self_loops=False)
-        del measurements[i]
+        graph.add_edge(index1[i], index2[j])
+        graph = nx.contracted_edge(graph, (index2[j], index1[i]), self_loops=False)
+        del measurements[index1[i]]
 
     # an output of state1 may also be one of its inputs
     merged = {
-        i: j + len(state1.graph) for i, j in zip(state1.output_nodes, state2.input_nodes)
+        index1[i]: index2[j] for i, j in zip(state1.output_nodes, state2.input_nodes)
     }
     input_nodes = [merged.get(i, i) for i in input_nodes]
 
-- 
2.43.0


From 6aaecb1cea727f4a2e9e7f61f17d50592b9db17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:26 +0000
Subject: [PATCH 55/60] fix: cancel the edges common to both circuits when
 gluing them

---
 mentpy/mbqc/mbqcircuit.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 1eb2b7f..3e7baa0 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -554,6 +554,7 @@ def merge(state1: MBQCircuit, state2: MBQCircuit, along=[]) -> MBQCircuit:
     measurements = {index1[i]: ment for i, ment in state1.measurements.items()}
     measurements.update({index2[i]: ment for i, ment in state2.measurements.items()})
 
+    _cancel_common_edges(graph, [(index1[i], index2[j]) for i, j in along])
     for i, j in along:
         graph.add_edge(index1[i], index2[j])
         graph = nx.contracted_edge(graph, (index2[j], index1[i]), self_loops=False)
@@ -574,6 +575,16 @@ def _disjoint_union_indices(state1: MBQCircuit, state2: MBQCircuit):
     return index1, index2
 
 
+def _cancel_common_edges(graph, pairs):
+    """Remove the edges that both states have between nodes that are about to be
+    contracted, as two CZ gates cancel."""
+    for k, (i1, j1) in enumerate(pairs):
+        for i2, j2 in pairs[:k]:
+            if graph.has_edge(i1, i2) and graph.has_edge(j1, j2):
+                graph.remove_edge(i1, i2)
+                graph.remove_edge(j1, j2)
+
+
 def vstack(states):
     """Vertically stack a list of graph states into a larger graph state. This is,
     the input of the new MBQC circuit is the input of the first state, and the output
@@ -666,6 +677,10 @@ def _hstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
     measurements = {index1[i]: ment for i, ment in state1.measurements.items()}
     measurements.update({index2[i]: ment for i, ment in state2.measurements.items()})
 
+    _cancel_common_edges(
+        graph,
+        [(index1[i], index2[j]) for i, j in zip(state1.output_nodes, state2.input_nodes)],
+    )
     for i, j in zip(state1.output_nodes, state2.input_nodes):
         graph.add_edge(index1[i], index2[j])
         graph = nx.contracted_edge(graph, (index2[j], index1[i]), self_loops=False)
-- 
2.43.0


From f6a40fb21c597a9cd48359c6351936e55c8aef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:21 +0000
Subject: [PATCH 56/60] fix: find the flows that need paths of the cover to be
 rerouted

---
 mentpy/mbqc/flow.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index 24c2f5e..fe8dda0 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -533,6 +533,7 @@ def _augmented_search(
     """
     visited[v] = iter
     if v in output_nodes:
+        fam.add_node(v)
         return (fam, visited, 1)
     if (
         (v in fam.nodes())
@@ -549,11 +550,9 @@ def _augmented_search(
             next(fam.predecessors(v)),
         )
         if status:
-            try:
-                fam = fam.remove_edge(next(fam.predecessors(v)), v)
-                return (fam, visited, 1)
-            except:
-                return (fam, visited, 0)
+            # the path family now leaves v out, unless the caller adds it again
+            fam.remove_node(v)
+            return (fam, visited, 1)
 
     for w in graph.neighbors(v):
         try:
@@ -580,7 +579,7 @@ def _augmented_search(
                         next(fam.predecessors(w)),
                     )
                     if status:
-                        fam.remove_edge(next(fam.predecessors(w)), w)
+                        fam.remove_edges_from(list(fam.in_edges(w)))
                         fam.add_edge(v, w)
                         return (fam, visited, 1)
         except:
-- 
2.43.0


From ddf0f1d083ea5a491bab3555976bea491636f77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:21 +0000
Subject: [PATCH 57/60] fix: check the flow of graphs with other labels with
 their own labels

---
 mentpy/mbqc/flow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index fe8dda0..4b60aff 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -383,7 +383,9 @@ def find_flow(graph: GraphState, input_nodes, output_nodes, sanity_check=True):
 
             state_flow = (flow, partial_order)
             if sanity_check:
-                if not check_if_flow(graph, inp, outp, flow, partial_order):
+                if not check_if_flow(
+                    graph, input_nodes, output_nodes, flow, partial_order
+                ):
                     raise RuntimeError(
                         "Sanity check found that flow does not satisfy flow conditions."
                     )
-- 
2.43.0


From 689582d8b8342e0197969caa98bf32dd91749b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:21 +0000
Subject: [PATCH 58/60] fix: do not share the list of trainable nodes with the
 caller

---
 mentpy/mbqc/mbqcircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 3e7baa0..e3e29bf 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -295,7 +295,7 @@ class MBQCircuit:
             raise ValueError(
                 f"Trainable nodes {trainable_nodes} are not in the graph. Graph nodes are {self.graph.nodes}"
             )
-        self._trainable_nodes = trainable_nodes
+        self._trainable_nodes = list(trainable_nodes)
 
     @property
     def controlled_nodes(self) -> List[int]:
-- 
2.43.0


From 31b6bac7944b0e2c5d2b5f5c8c22620c34fa365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:42 +0000
Subject: [PATCH 59/60] fix: Ment.matrix returns its own array instead of the
 module's Pauli matrices

---
 mentpy/operators/ment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/operators/ment.py b/mentpy/operators/ment.py
index bbfa483..64260bc 100644
--- a/mentpy/operators/ment.py
+++ b/mentpy/operators/ment.py
@@ -234,7 +234,7 @@ class Ment:
                 matrix = np.cos(angle) * PauliX + np.sin(angle) * PauliY
             case "X" | "Y" | "Z":
                 matrices = {"X": PauliX, "Y": PauliY, "Z": PauliZ}
-                matrix = matrices[self._plane]
+                matrix = matrices[self._plane].copy()
             case "XZ":
                 matrix = np.cos(angle) * PauliX + np.sin(angle) * PauliZ
             case "YZ":
-- 
2.43.0


From 7fe6feb0424f9f4b5233a5a6a56849eb56a114dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:38 +0000
Subject: [PATCH 60/60] fix: the PennyLane simulator keeps its own copy of the
 input state

---
 mentpy/simulators/pennylane_simulator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mentpy/simulators/pennylane_simulator.py b/mentpy/simulators/pennylane_simulator.py
index c8ca098..e8dab05 100644
--- a/mentpy/simulators/pennylane_simulator.py
+++ b/mentpy/simulators/pennylane_simulator.py
@@ -45,7 +45,8 @@ class PennylaneSimulator(BaseSimulator):
             kwargs.pop("circuit_noise", None),
             p=kwargs.pop("p", 0),
         )
-        super().__init__(mbqcircuit, input_state)
+        # later changes of the caller's array are not changes of the input
+        super().__init__(mbqcircuit, np.array(input_state))
 
         if len(mbqcircuit.controlled_nodes) > 0:
             raise NotImplementedError(
@@ -92,7 +93,7 @@ class PennylaneSimulator(BaseSimulator):
     def reset(self, input_state=None):
         if input_state is None:
             input_state = self.input_state
-        self.input_state = input_state
+        self.input_state = np.array(input_state)
 
 
 def mbqcircuit_to_circuit(
-- 
2.43.0

