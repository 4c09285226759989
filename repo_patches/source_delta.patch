From d02f25a33f7c9cf90ecca314bbaef16d801a7c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 01/69] fix: non_supersets of {{}} by a family that contains
 the empty set

{} is a superset of {}, so it must not survive non_supersets(g) when g
contains {} together with other sets (only g == {{}} was handled).
---
 src/graphillion/zdd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 411e250..3e14eb9 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -229,7 +229,7 @@ zdd_t non_supersets(zdd_t f, zdd_t g) {
   else if (f == bot() || g == top() || f == g)
     return bot();
   else if (f == top())
-    return top();
+    return top() - g;  // the empty set is a superset of itself only
   else if (elem(f) > elem(g))
     return non_supersets(f, lo(g));
   pair<word_t, word_t> k = make_key(f, g);
-- 
2.43.0


From e9c889ba76b6aa8efc9a1fbeab493f6271c73d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 02/69] fix: hitting() of the empty family is every set

All sets of the universe intersect every member of an empty family.
---
 src/graphillion/zdd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 3e14eb9..172af55 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -139,7 +139,7 @@ zdd_t maximal(zdd_t f) {
 }
 
 zdd_t hitting(zdd_t f, elem_t num_elems_a) {
-  if (f == bot()) return top();
+  if (f == bot()) return complement(bot(), num_elems_a);  // every set hits it
   if (f == top()) return bot();
   vector<vector<zdd_t> > stacks(num_elems_a + 1);
   set<word_t> visited;
-- 
2.43.0


From e5da19aba21fc136741787562cd8a706f15b917c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 03/69] fix: set_size(0) and smaller(0) mishandled the empty
 set

PermitSym(-1) keeps the empty set, so set_size(0) always returned an empty
family and smaller(0) returned {{}} for families that contain {}.
---
 src/graphillion/setset.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graphillion/setset.cc b/src/graphillion/setset.cc
index b1f1eaf..2f44527 100644
--- a/src/graphillion/setset.cc
+++ b/src/graphillion/setset.cc
@@ -384,6 +384,7 @@ setset setset::hitting(elem_t num_elems_a) const {  // a.k.a cross elements
 }
 
 setset setset::smaller(size_t set_size) const {
+  if (set_size == 0) return setset();  // PermitSym(-1) would keep the empty set
   return setset(this->zdd_.PermitSym(set_size - 1));
 }
 
@@ -392,8 +393,7 @@ setset setset::larger(size_t set_size) const {
 }
 
 setset setset::set_size(size_t set_size) const {
-  zdd_t z = this->zdd_.PermitSym(set_size) - this->zdd_.PermitSym(set_size - 1);
-  return setset(z);
+  return setset(this->smaller(set_size + 1).zdd_ - this->smaller(set_size).zdd_);
 }
 
 setset setset::join(const setset& ss) const {
-- 
2.43.0


From d708fba9cc4366256238febdb6fb2f9bbaf2fcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:37 +0000
Subject: [PATCH 04/69] fix: steiner_cycles with one terminal returned the
 empty graph

The empty graph is not a cycle; restrict cycles() to the terminals, as
steiner_paths() does with paths().
---
 graphillion/graphset.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 12c3fc7..4a18a7e 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2607,11 +2607,8 @@ class GraphSet(object):
         Returns:
           A new GraphSet object.
         """
-        dc = {}
-        for v in Universe.vertices:
-            dc[v] = range(0, 3, 2)
-        return GraphSet.graphs(vertex_groups=[terminals], degree_constraints=dc,
-                               graphset=graphset)
+        gs = GraphSet.cycles(graphset=graphset)
+        return GraphSet.graphs(vertex_groups=[terminals], graphset=gs)
 
     @staticmethod
     def steiner_paths(terminals, graphset=None):
-- 
2.43.0


From 6e459a0ebd6527c8d4f25faf3927d7bab4ffd4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 05/69] fix: degree_distribution_graphs crashed on an empty
 distribution

Degree 0 was looked up in degRanges_ without a bounds check.
---
 src/graphillion/degree_distribution/DegreeDistributionSpec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graphillion/degree_distribution/DegreeDistributionSpec.h b/src/graphillion/degree_distribution/DegreeDistributionSpec.h
index 019725a..a0e5aa8 100644
--- a/src/graphillion/degree_distribution/DegreeDistributionSpec.h
+++ b/src/graphillion/degree_distribution/DegreeDistributionSpec.h
@@ -74,7 +74,8 @@ private:
   }
 
   bool checkFixedDegUpper(DSData* data, int d) const {
-    return (data[fixedDegStart_ + d] < degRanges_[d]->upperBound());
+    return d < static_cast<int>(degRanges_.size()) &&
+      data[fixedDegStart_ + d] < degRanges_[d]->upperBound();
   }
 
   bool checkFixedDeg(DSData* data) const {
-- 
2.43.0


From d5a8cb4e77bdc63a1112a33cf1a268863bc3db99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 06/69] fix: induced_graphs accepted disconnected subgraphs
 (component leaving the frontier missed)

---
 src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h b/src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h
index bf80b37..a47fb94 100644
--- a/src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h
+++ b/src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h
@@ -141,7 +141,7 @@ class ConnectedInducedSubgraphSpec
   std::vector<Vec2> neighborList;
 
   int takable(Mate const* mate, tdzdd::Graph::EdgeInfo const& e) const {
-    Mate const &w1 = mate[e.v1 - e.v0], w2 = mate[e.v2 - e.v0];
+    Mate const &w1 = mate[e.v1 - e.v0], &w2 = mate[e.v2 - e.v0];
 
     if (!w1.isComponent() && w1.isMarked()) {
       return 0;
-- 
2.43.0


From a6f535abc50db9edf21c9acad9f952c573f2dbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 07/69] fix: division and remainder by the empty family ended
 the process

---
 src/pygraphillion.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 63760ac..8c33424 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -76,6 +76,15 @@ using std::vector;
 #define CHECK_SETSET_OR_ERROR(obj)                              \
   CHECK_OR_ERROR(obj, PySetset_Check, "setset", NULL);
 
+// Division by the empty family is undefined (and fatal in SAPPOROBDD).
+#define CHECK_DIVISOR_OR_ERROR(obj)                                     \
+  do {                                                                  \
+    if (reinterpret_cast<PySetsetObject*>(obj)->ss->empty()) {          \
+      PyErr_SetString(PyExc_ZeroDivisionError, "empty divisor");        \
+      return NULL;                                                      \
+    }                                                                   \
+  } while (0);
+
 #define RETURN_NEW_OBJECT(py_type, expr)                         \
   do {                                                           \
     PySetsetObject* _ret = reinterpret_cast<PySetsetObject*>(    \
@@ -553,21 +562,25 @@ static PyObject* setset_symmetric_difference_update_multi(PySetsetObject* self,
 
 static PyObject* setset_quotient(PySetsetObject* self, PyObject* other) {
   CHECK_SETSET_OR_ERROR(other);
+  CHECK_DIVISOR_OR_ERROR(other);
   RETURN_NEW_OBJECT2(Py_TYPE(self), other, _other, (*self->ss) / (*_other->ss));
 }
 
 static PyObject* setset_quotient_update(PySetsetObject* self, PyObject* other) {
   CHECK_SETSET_OR_ERROR(other);
+  CHECK_DIVISOR_OR_ERROR(other);
   RETURN_SELF_SETSET(self, other, _other, (*self->ss) /= (*_other->ss));
 }
 
 static PyObject* setset_remainder(PySetsetObject* self, PyObject* other) {
   CHECK_SETSET_OR_ERROR(other);
+  CHECK_DIVISOR_OR_ERROR(other);
   RETURN_NEW_OBJECT2(Py_TYPE(self), other, _other, (*self->ss) % (*_other->ss));
 }
 
 static PyObject* setset_remainder_update(PySetsetObject* self, PyObject* other) {
   CHECK_SETSET_OR_ERROR(other);
+  CHECK_DIVISOR_OR_ERROR(other);
   RETURN_SELF_SETSET(self, other, _other, (*self->ss) %= (*_other->ss));
 }
 
-- 
2.43.0


From 68beffe138f65649b8a328f4aa87decfbd8284e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 08/69] fix: DiGraphSet enumeration methods of an object raised
 TypeError

---
 graphillion/digraphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 722fa9f..4180318 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -143,7 +143,7 @@ class DiGraphSet(object):
                    'rooted_trees', 'graphs']
         for method in methods:
             setattr(self, method, partial(
-                getattr(DiGraphSet, method), DiGraphSet=self))
+                getattr(DiGraphSet, method), graphset=self))
 
     def copy(self):
         """Returns a new DiGraphSet with a shallow copy of `self`.
-- 
2.43.0


From 9e299200030ba2c58fa5aef1a8b28fd9d41a9cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 09/69] fix: flip() of a reversed edge added a new element to
 the universe

---
 graphillion/digraphset.py | 2 +-
 graphillion/graphset.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 4180318..a49124e 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -983,7 +983,7 @@ class DiGraphSet(object):
         """
         type, obj = DiGraphSet._conv_arg(edge)
         if type == 'edge':
-            self._ss.flip(DiGraphSet._objtable, edge)
+            self._ss.flip(DiGraphSet._objtable, obj)
         else:
             raise TypeError(edge)
 
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 4a18a7e..1986e2b 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -994,7 +994,7 @@ class GraphSet(object):
         """
         type, obj = GraphSet._conv_arg(edge)
         if type == 'edge':
-            self._ss.flip(Universe.e_objtable, edge)
+            self._ss.flip(Universe.e_objtable, obj)
         else:
             raise TypeError(edge)
 
-- 
2.43.0


From 58266af18935769a13723cf5f2b98c236ed98657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 10/69] fix: steiner_paths passed the graphset as a terminal

---
 graphillion/graphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 1986e2b..f95192d 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2626,7 +2626,7 @@ class GraphSet(object):
         Returns:
           A new GraphSet object.
         """
-        gs = GraphSet.paths(graphset)
+        gs = GraphSet.paths(graphset=graphset)
         return GraphSet.graphs(vertex_groups=[terminals], graphset=gs)
 
     DegreeDistribution_Any = -1
-- 
2.43.0


From 72c907c0825af84cb3ff9059905f4eee3a4fbb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 11/69] fix: bicliques(a, b) with a != b was accepted

---
 graphillion/graphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index f95192d..e8749ed 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2069,7 +2069,7 @@ class GraphSet(object):
           graphs()
         """
         if a != b:
-            TypeError('a == b must hold.')
+            raise TypeError('a == b must hold.')
         gs = GraphSet.regular_bipartite_graphs(degree=a,
                                                 is_connected=True,
                                                 graphset=graphset)
-- 
2.43.0


From 418be24b8831432ba697c03abed1a332ee76fbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 12/69] fix: degree_distribution_graphs handed a GraphSet to
 C++ as a setset

---
 graphillion/graphset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index e8749ed..7214ed5 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2664,7 +2664,8 @@ class GraphSet(object):
             graph.append(
                 (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
 
-        ss = _graphillion._degree_distribution_graphs(graph, deg_dist, is_connected, graphset)
+        ss = None if graphset is None else graphset._ss
+        ss = _graphillion._degree_distribution_graphs(graph, deg_dist, is_connected, ss)
         return GraphSet(ss)
 
     @staticmethod
-- 
2.43.0


From 1ce9927ab4df303462672853b2969db7e6937c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:30 +0000
Subject: [PATCH 13/69] fix: bipartite_graphs added the empty graph to a
 graphset without it

---
 graphillion/graphset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 7214ed5..3a81f07 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2515,7 +2515,8 @@ class GraphSet(object):
 
         if is_connected:
             # The empty set is a bipartite graph.
-            return gs.graphs(vertex_groups=[[]]) | GraphSet([[]])
+            # It is selected only if it belongs to the given graphset.
+            return gs.graphs(vertex_groups=[[]]) | (gs & GraphSet([[]]))
         else:
             return gs
 
-- 
2.43.0


From 0d15aa0cc9cac49df1005c0723934a9845cc1e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 14/69] fix: spanning rooted_trees of a disconnected digraph
 left vertices out

---
 src/graphillion/digraphs/FrontierRootedTree.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/graphillion/digraphs/FrontierRootedTree.hpp b/src/graphillion/digraphs/FrontierRootedTree.hpp
index 6f7967e..459e91c 100644
--- a/src/graphillion/digraphs/FrontierRootedTree.hpp
+++ b/src/graphillion/digraphs/FrontierRootedTree.hpp
@@ -55,6 +55,9 @@ class FrontierRootedTreeSpec
 
   const FrontierManager fm_;
 
+  // level at which the last vertex enters the frontier
+  const int all_entered_level_;
+
   // This function gets deg of v.
   short getIndeg(DirectedFrontierData* data, short v) const {
     return data[fm_.vertexToPos(v)].indeg;
@@ -104,7 +107,8 @@ class FrontierRootedTreeSpec
         m_(graph_.edgeSize()),
         root_(root),
         isSpanning_(isSpanning),
-        fm_(graph_) {
+        fm_(graph_),
+        all_entered_level_(m_ - fm_.getAllVerticesEnteringLevel()) {
     if (graph_.vertexSize() >= (1 << 15)) {
       std::cerr << "The number of vertices must be smaller than 2^15."
                 << std::endl;
@@ -260,7 +264,8 @@ class FrontierRootedTreeSpec
           // Then, we return the 1-terminal
 
           if (isSpanning_) {
-            if (frontier_exists) {
+            // some vertices are left out of the tree
+            if (frontier_exists || level > all_entered_level_) {
               return 0;
             } else {
               return -1;  // return the 1-terminal
-- 
2.43.0


From 7a09bc9ba0ce8b64ec3754b070d5210e89f7df31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 15/69] fix: DiGraphSet.graphs dropped digraphs whose degree
 constraints exclude smaller degrees

---
 src/graphillion/digraphs/FrontierDegreeSpecified.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graphillion/digraphs/FrontierDegreeSpecified.hpp b/src/graphillion/digraphs/FrontierDegreeSpecified.hpp
index f6a84da..e462ce1 100644
--- a/src/graphillion/digraphs/FrontierDegreeSpecified.hpp
+++ b/src/graphillion/digraphs/FrontierDegreeSpecified.hpp
@@ -138,13 +138,13 @@ class FrontierDegreeSpecifiedSpec
       // increment deg of v1 and v2 (recall that edge = {v1, v2})
       auto outdeg1 = getOutdeg(data, edge.v1);
       assert(1 <= edge.v1 && edge.v1 < (int)out_constraints.size());
-      if (!out_constraints.at(edge.v1).contains(outdeg1 + 1)) {
+      if (outdeg1 + 1 > out_constraints.at(edge.v1).upperBound()) {
         return 0;
       }
 
       auto indeg2 = getIndeg(data, edge.v2);
       assert(1 <= edge.v2 && edge.v2 < (int)in_constraints.size());
-      if (!in_constraints.at(edge.v2).contains(indeg2 + 1)) {
+      if (indeg2 + 1 > in_constraints.at(edge.v2).upperBound()) {
         return 0;
       }
       setIndeg(data, edge.v2, indeg2 + 1);
-- 
2.43.0


From 6c39735a22997d2e6a961e34a6be3c1a832b0a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:52 +0000
Subject: [PATCH 16/69] fix: to_edgevertexsetset mixed up elements unless the
 traversal was as-is

---
 graphillion/universe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/universe.py b/graphillion/universe.py
index 395d473..05403de 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -241,7 +241,7 @@ class Universe:
         vertex_universe = [eval(v) for v in setset_base.get_vertices_from_top(Universe.e_objtable)]
         Universe.set_vertex_universe(vertex_universe, weights, tuple_vertex=True)
 
-        Universe._set_ev_universe(universe)
+        Universe._set_ev_universe(sorted_edges)
 
         if isolated is None:
             Universe.isolated_vertices = set()
-- 
2.43.0


From 8d3e4105198a8205d4454e2dd3f87a87924ccdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 17/69] fix: vertices without an evaluable repr broke
 set_universe

---
 graphillion/universe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphillion/universe.py b/graphillion/universe.py
index 05403de..24f43ee 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -238,7 +238,8 @@ class Universe:
             Universe.e_objtable.add_elem(e)
 
         from graphillion.setset_base import setset_base
-        vertex_universe = [eval(v) for v in setset_base.get_vertices_from_top(Universe.e_objtable)]
+        name2vertex = {repr(v): v for v in Universe.vertices}
+        vertex_universe = [name2vertex[v] for v in setset_base.get_vertices_from_top(Universe.e_objtable)]
         Universe.set_vertex_universe(vertex_universe, weights, tuple_vertex=True)
 
         Universe._set_ev_universe(sorted_edges)
-- 
2.43.0


From ff13644c37c2a005a5a7dee21037381396ff7582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:52 +0000
Subject: [PATCH 18/69] fix: a refused universe replaced parts of the current
 one

---
 graphillion/digraphset.py |  3 ++-
 graphillion/setset.py     |  3 ++-
 graphillion/universe.py   | 33 +++++++++++++++++++++++++++++++++
 3 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index a49124e..3d1807f 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -22,7 +22,7 @@
 
 from functools import partial
 import _graphillion
-from graphillion.universe import ObjectTable
+from graphillion.universe import ObjectTable, keep_on_error
 from graphillion.setset_base import setset_base
 import pickle
 import heapq
@@ -1732,6 +1732,7 @@ class DiGraphSet(object):
         return DiGraphSet(setset_base.loads(s))
 
     @staticmethod
+    @keep_on_error(lambda: DiGraphSet, '_vertices', '_weights', '_objtable')
     def set_universe(universe, traversal='greedy', source=None):
         """Registers the new universe.
 
diff --git a/graphillion/setset.py b/graphillion/setset.py
index 9e903df..db5f293 100644
--- a/graphillion/setset.py
+++ b/graphillion/setset.py
@@ -21,7 +21,7 @@
 """
 
 from graphillion.setset_base import setset_base
-from graphillion.universe import ObjectTable
+from graphillion.universe import ObjectTable, keep_on_error
 import _graphillion
 
 class setset(setset_base):
@@ -182,6 +182,7 @@ class setset(setset_base):
         return setset(_graphillion.loads(s))
 
     @staticmethod
+    @keep_on_error(lambda: setset, '_objtable')
     def set_universe(universe):
         if len(universe) != len(set(universe)):
             raise ValueError('duplicated elements found')
diff --git a/graphillion/universe.py b/graphillion/universe.py
index 24f43ee..1b390ad 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -18,6 +18,7 @@
 # WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 import _graphillion
+import functools
 import heapq
 
 """
@@ -78,6 +79,36 @@ class ObjectTable:
             return ret
         raise TypeError(obj)
 
+def keep_on_error(owner, *names):
+    """Decorates a function that replaces class attributes so that they
+    keep their values if the function raises an exception.
+
+    Args:
+      owner: A function that returns the class having the attributes.
+
+      names: Names of the attributes.
+    """
+    def decorator(func):
+        @functools.wraps(func)
+        def wrapper(*args, **kwargs):
+            cls = owner()
+            saved = {}
+            for name in names:
+                value = getattr(cls, name)
+                saved[name] = value.copy() if isinstance(value, dict) else value
+            try:
+                return func(*args, **kwargs)
+            except BaseException:
+                for name, value in saved.items():
+                    setattr(cls, name, value)
+                raise
+        return wrapper
+    return decorator
+
+_keep_universe = keep_on_error(
+    lambda: Universe, 'vertices', 'isolated_vertices', 'weights',
+    'edge_vertex_kind', 'e_objtable', 'v_objtable', 'ev_objtable')
+
 class Universe:
     """Manager class of universes.
 
@@ -169,6 +200,7 @@ class Universe:
         return Universe.ev_objtable.universe()
 
     @staticmethod
+    @_keep_universe
     def set_universe(universe, traversal='greedy', source=None, weights=None, isolated=None):
         """Registers the new universe.
 
@@ -250,6 +282,7 @@ class Universe:
             Universe.isolated_vertices = isolated.copy()
 
     @staticmethod
+    @_keep_universe
     def set_vertex_universe(universe, weights=None, tuple_vertex=False):
         """Registers the new vertex universe.
         Normally, there is no need to call this method because the universe
-- 
2.43.0


From 110350a49feb31361660a62e4cdb6ffc767df19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:09 +0000
Subject: [PATCH 19/69] fix: bfs and dfs traversal of DiGraphSet lost
 antiparallel edges

---
 graphillion/digraphset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 3d1807f..2cb8473 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -2091,7 +2091,7 @@ class DiGraphSet(object):
                         degree[u] -= 1
                         e = (u, v) if (u, v) in indexed_edges else (v, u)
                         sorted_edges.append(e)
-                        if (e[1], e[0]) in indexed_edges:
+                        if u != v and (e[1], e[0]) in indexed_edges:
                             sorted_edges.append((e[1], e[0]))
                         if degree[v]:
                             for w in sorted(neighbors[v]):
@@ -2118,6 +2118,8 @@ class DiGraphSet(object):
                     if v in visited_vertices:
                         e = (u, v) if (u, v) in indexed_edges else (v, u)
                         sorted_edges.append(e)
+                        if u != v and (e[1], e[0]) in indexed_edges:
+                            sorted_edges.append((e[1], e[0]))
                 new_vertices = neighbors[u] - \
                     visited_vertices - set(queue_or_stack)
                 queue_or_stack.extend(sorted(new_vertices))
-- 
2.43.0


From 46fd8b67acc5e0e8e49889e4862c18ab72f3718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 20/69] fix: add_some and remove_add_some answered from stale
 cache entries after the universe grew

---
 src/graphillion/reconf.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/graphillion/reconf.cc b/src/graphillion/reconf.cc
index 638ed63..e0a488e 100644
--- a/src/graphillion/reconf.cc
+++ b/src/graphillion/reconf.cc
@@ -34,6 +34,12 @@ typedef unsigned long long int ullint;
 #define BC_ADDE_CPP     30
 #define BC_SWAPE_CPP    31
 
+// Levels change when elements are added to the universe, and so the cache
+// is keyed by variables.
+static bddword cacheKey(int n, int lower) {
+  return (static_cast<bddword>(BDD_VarOfLev(n)) << 16) + BDD_VarOfLev(lower);
+}
+
 ZBDD removeSomeElement(const ZBDD& f)
 {
   if (f == ZBDD(0) || f == ZBDD(1)) {
@@ -89,7 +95,7 @@ ZBDD addSomeElement(const ZBDD& f, int n, int lower)
   }
 
   bddword fx = f.GetID();
-  ZBDD h = BDD_CacheZBDD(BC_ADDE_CPP, fx, static_cast<bddword>((n << 16) + lower));
+  ZBDD h = BDD_CacheZBDD(BC_ADDE_CPP, fx, cacheKey(n, lower));
   if(h != -1) {
     return h;
   }
@@ -111,7 +117,7 @@ ZBDD addSomeElement(const ZBDD& f, int n, int lower)
 
   BDD_RECUR_DEC;
   if(h != -1) {
-    BDD_CacheEnt(BC_ADDE_CPP, fx, static_cast<bddword>((n << 16) + lower), h.GetID());
+    BDD_CacheEnt(BC_ADDE_CPP, fx, cacheKey(n, lower), h.GetID());
   }
 
   return h;
@@ -129,7 +135,7 @@ ZBDD removeAddSomeElements(const ZBDD& f, int n, int lower)
   assert(flev <= n);
 
   bddword fx = f.GetID();
-  ZBDD h = BDD_CacheZBDD(BC_SWAPE_CPP, fx, static_cast<bddword>((n << 16) + lower));
+  ZBDD h = BDD_CacheZBDD(BC_SWAPE_CPP, fx, cacheKey(n, lower));
   if(h != -1) {
     return h;
   }
@@ -155,7 +161,7 @@ ZBDD removeAddSomeElements(const ZBDD& f, int n, int lower)
 
   BDD_RECUR_DEC;
   if(h != -1) {
-    BDD_CacheEnt(BC_SWAPE_CPP, fx, static_cast<bddword>((n << 16) + lower), h.GetID());
+    BDD_CacheEnt(BC_SWAPE_CPP, fx, cacheKey(n, lower), h.GetID());
   }
 
   return h;
-- 
2.43.0


From de317d7462e2bf33bbe5b7ac7fcb45b7a3691230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:44 +0000
Subject: [PATCH 21/69] fix: reliability refused edges given in the reverse
 direction

---
 graphillion/graphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 3a81f07..575886c 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2881,7 +2881,7 @@ class GraphSet(object):
         ps = [1.0] * (Universe.e_objtable.num_elems())
         if probabilities is not None:
           for e, p in probabilities.items():
-              i = Universe.e_objtable.obj2int[e]
+              i = Universe.e_objtable.obj2int[GraphSet._conv_edge(e)]
               ps[i - 1] = p
 
         reliability = _graphillion._reliability(
-- 
2.43.0


From 70a6748e38a1a3192be2f77744d781864c3ad7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 22/69] fix: chordal_bipartite_graphs left out disconnected
 graphs

---
 graphillion/graphclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphclass.py b/graphillion/graphclass.py
index fe1051d..1a4ea31 100644
--- a/graphillion/graphclass.py
+++ b/graphillion/graphclass.py
@@ -286,7 +286,7 @@ class GraphClass:
         cycles = GraphSet.cycles()
         cycles_length_at_least_6 = cycles.larger(5) # >= 6
         chordal = GraphSet.forbidden_induced_subgraphs(cycles_length_at_least_6)
-        return chordal & GraphSet.bipartite_graphs()
+        return chordal & GraphSet.bipartite_graphs(is_connected=False)
 
     @staticmethod
     def split_graphs():
-- 
2.43.0


From 350bd7f35a030d7611c5d818fcda9a65fd1030ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:50 +0000
Subject: [PATCH 23/69] fix: odd_hole_graphs failed on universes of fewer than
 five vertices

---
 graphillion/graphclass.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphillion/graphclass.py b/graphillion/graphclass.py
index 1a4ea31..98e8ba0 100644
--- a/graphillion/graphclass.py
+++ b/graphillion/graphclass.py
@@ -197,6 +197,8 @@ class GraphClass:
             vertices.add(e[0])
             vertices.add(e[1])
         n = len(vertices)
+        if n < 5:
+            return GraphSet()
 
         # cycle with odd length at least 5
         dc = {}
-- 
2.43.0


From a94f84cedf38070b3754cc95e5ef901453ebfa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:52 +0000
Subject: [PATCH 24/69] fix: update methods leaked a reference to the object
 per argument

---
 src/pygraphillion.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 8c33424..696942d 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -170,8 +170,10 @@ using std::vector;
         PyErr_SetString(PyExc_TypeError, "invalid tuple element");     \
         return NULL;                                                   \
       }                                                                \
-      if (expr(self, _other) == NULL)                                  \
+      PyObject* _updated = expr(self, _other);                         \
+      if (_updated == NULL)                                            \
         return NULL;                                                   \
+      Py_DECREF(_updated);                                             \
     }                                                                  \
     Py_RETURN_NONE;                                                    \
   } while (0);
-- 
2.43.0


From 27f075f4d689b2d9b1b5ee44259a35ba727427cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:52 +0000
Subject: [PATCH 25/69] fix: a failed operation freed its result twice

---
 src/pygraphillion.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 696942d..71a9f50 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -98,12 +98,10 @@ using std::vector;
       _ret->ss = new setset(expr);                               \
     } catch (const std::exception& e) {                          \
       Py_DECREF(_ret);                                           \
-      Py_TYPE(_ret)->tp_free(reinterpret_cast<PyObject*>(_ret)); \
       PyErr_SetString(PyExc_RuntimeError, e.what());             \
       return NULL;                                               \
     } catch (...) {                                              \
       Py_DECREF(_ret);                                           \
-      Py_TYPE(_ret)->tp_free(reinterpret_cast<PyObject*>(_ret)); \
       PyErr_SetString(PyExc_RuntimeError, "Unknown error "       \
         "occured while creating a new setset");                  \
       return NULL;                                               \
-- 
2.43.0


From 8430442e8908b15da4d8c4ff9a44e84a55a61c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:02 +0000
Subject: [PATCH 26/69] fix: uninitialized objects crashed and repeated
 initialization leaked

---
 src/pygraphillion.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 71a9f50..6dc8db6 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -326,7 +326,7 @@ static void setsetiter_dealloc(PySetsetIterObject* self) {
 }
 
 static PyObject* setsetiter_next(PySetsetIterObject* self) {
-  if (*(self->it) == setset::end()) {
+  if (self->it == NULL || *(self->it) == setset::end()) {
     PyErr_SetNone(PyExc_StopIteration);
     return NULL;
   }
@@ -403,6 +403,12 @@ static PyObject* setset_new(PyTypeObject* type, PyObject* /*args*/, PyObject* /*
     PyErr_SetString(PyExc_MemoryError, "Failed to allocate memory for PySetsetObject");
     return NULL;
   }
+  try {
+    self->ss = new setset();
+  } catch (...) {
+    Py_DECREF(self);
+    return PyErr_NoMemory();
+  }
   return reinterpret_cast<PyObject*>(self);
 }
 
@@ -414,10 +420,10 @@ static int setset_init(PySetsetObject* self, PyObject* args, PyObject* kwds) {
 
   try {
     if (obj == NULL || obj == Py_None) {
-      self->ss = new setset();
+      *self->ss = setset();
     } else if (PySetset_Check(obj)) {
       PySetsetObject* sso = reinterpret_cast<PySetsetObject*>(obj);
-      self->ss = new setset(*(sso->ss));
+      *self->ss = *(sso->ss);
     } else if (PyList_Check(obj)) {
       PyObject* i = PyObject_GetIter(obj);
       if (i == NULL) return -1;
@@ -446,11 +452,11 @@ static int setset_init(PySetsetObject* self, PyObject* args, PyObject* kwds) {
         return -1;
       }
 
-      self->ss = new setset(vs);
+      *self->ss = setset(vs);
     } else if (PyDict_Check(obj)) {
       map<string, vector<int> > m;
       if (setset_parse_map(obj, &m) == -1) return -1;
-      self->ss = new setset(m, num_elems_a);
+      *self->ss = setset(m, num_elems_a);
     } else {
       PyErr_SetString(PyExc_TypeError, "invalid argument");
       return -1;
@@ -458,6 +464,7 @@ static int setset_init(PySetsetObject* self, PyObject* args, PyObject* kwds) {
   } catch (...) {
     PyErr_SetString(PyExc_RuntimeError, "Unexpected error occurred "
     "during initialization");
+    return -1;
   }
   return 0;
 }
-- 
2.43.0


From 5aaf2df97f54babd08734d42343d0f3b8507063b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:18 +0000
Subject: [PATCH 27/69] fix: load and loads accepted incomplete or malformed
 dumps

---
 src/graphillion/zdd.cc | 130 +++++++++++++++++++++++------------------
 src/graphillion/zdd.h  |   1 +
 src/pygraphillion.cc   |  10 +++-
 3 files changed, 81 insertions(+), 60 deletions(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 172af55..92e065f 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -25,10 +25,14 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #include "graphillion/zdd.h"
 
 //#include <cassert>
+#include <cerrno>
 #include <climits>
+#include <cstdlib>
 
 #include <algorithm>
 #include <map>
+#include <sstream>
+#include <stdexcept>
 #include <string>
 
 namespace graphillion {
@@ -388,69 +392,81 @@ void dump(zdd_t f, FILE* fp) {
   fprintf(fp, ".\n");
 }
 
+// Returns the node referred to by a token of a dump line. Dumps list children
+// before their parents, so the node must be known.
+static zdd_t load_child(const string& token, const map<word_t, zdd_t>& n) {
+  if (token == "B") return bot();
+  if (token == "T") return top();
+  char* end = NULL;
+  errno = 0;
+  word_t k = strtoll(token.c_str(), &end, 10);
+  map<word_t, zdd_t>::const_iterator i = n.find(k);
+  if (errno != 0 || end == token.c_str() || *end != '\0' || i == n.end())
+    throw std::runtime_error("malformed dump: unknown node " + token);
+  return i->second;
+}
+
+// Throws std::runtime_error and sets badbit unless a complete dump is read.
 zdd_t load(istream& in) {
-  string line;
-  getline(in, line);
-  if      (line[0] == 'B' && (line.length() == 1 || is_space(line.substr(1)))) return bot();
-  else if (line[0] == 'T' && (line.length() == 1 || is_space(line.substr(1)))) return top();
   map<word_t, zdd_t> n;
-  n[id(bot())] = bot();
-  n[id(top())] = top();
   zdd_t root;
-  do {
-    if (line.empty() || is_space(line)) continue;  // skip preceding empty lines
-    if (line[0] == '.') break;
-    word_t k;
-    elem_t v;
-    char sl[256], sh[256];
-    int num = sscanf(line.c_str(), (WORD_FMT + " %d %s %s").c_str(),
-                     &k, &v, &sl, &sh);
-    if (num != 4) goto error;
-    word_t l = strcmp(sl, "B") == 0 ? id(bot())
-             : strcmp(sl, "T") == 0 ? id(top())
-             :                        strtoll(sl, NULL, 0);
-    word_t h = strcmp(sh, "B") == 0 ? id(bot())
-             : strcmp(sh, "T") == 0 ? id(top())
-             :                        strtoll(sh, NULL, 0);
-    if (l == LLONG_MAX || h == LLONG_MAX) goto error;
-    n[k] = root = n.at(l) + single(v) * n.at(h);
-  } while (getline(in, line));
-  return root;
-error:
-  in.setstate(in.badbit);
-  return null();
+  bool found = false, constant = false;
+  string line;
+  try {
+    while (getline(in, line)) {
+      if (line.empty() || is_space(line)) continue;  // skip empty lines
+      std::istringstream tokens(line);
+      vector<string> t;
+      string token;
+      while (tokens >> token) t.push_back(token);
+      if (t.size() == 1 && t[0] == "." && found) return root;
+      if (constant)
+        throw std::runtime_error("malformed dump: node after a constant");
+      if (t.size() == 1 && !found && (t[0] == "B" || t[0] == "T")) {
+        root = load_child(t[0], n);
+        found = constant = true;
+        continue;
+      }
+      char* kend = NULL;
+      char* vend = NULL;
+      errno = 0;
+      word_t k = t.size() == 4 ? strtoll(t[0].c_str(), &kend, 10) : 0;
+      long v = t.size() == 4 ? strtol(t[1].c_str(), &vend, 10) : 0;
+      if (t.size() != 4 || errno != 0 || *kend != '\0' || *vend != '\0' ||
+          v <= 0 || v > elem_limit() || n.find(k) != n.end())
+        throw std::runtime_error("malformed dump: invalid node");
+      zdd_t l = load_child(t[2], n);
+      zdd_t h = load_child(t[3], n);
+      if (h == bot() || (!is_term(l) && elem(l) <= v) ||
+          (!is_term(h) && elem(h) <= v))
+        throw std::runtime_error("malformed dump: invalid node");
+      n[k] = root = l + single(v) * h;
+      found = true;
+    }
+    throw std::runtime_error("malformed dump: no end mark");
+  } catch (const std::runtime_error&) {
+    in.setstate(std::ios_base::badbit);
+    throw;
+  }
+}
+
+// Reads the lines of a dump up to its end mark.
+string read_dump(FILE* fp) {
+  string text, line;
+  int c;
+  while ((c = getc(fp)) != EOF) {
+    line += static_cast<char>(c);
+    if (c != '\n') continue;
+    text += line;
+    if (line[0] == '.') return text;
+    line.clear();
+  }
+  return text + line;
 }
 
 zdd_t load(FILE* fp) {
-  char buf[256];
-  if (fgets(buf, sizeof(buf), fp) == NULL) return null();
-  string line = buf;
-  if      (line[0] == 'B' && (line.length() == 1 || is_space(line.substr(1)))) return bot();
-  else if (line[0] == 'T' && (line.length() == 1 || is_space(line.substr(1)))) return top();
-  map<word_t, zdd_t> n;
-  n[id(bot())] = bot();
-  n[id(top())] = top();
-  zdd_t root;
-  do {
-    line = string(buf);
-    if (line.empty() || is_space(line)) continue;  // skip preceding empty lines
-    if (line[0] == '.') break;
-    word_t k;
-    elem_t v;
-    char sl[256], sh[256];
-    int num = sscanf(line.c_str(), (WORD_FMT + " %d %s %s").c_str(),
-                     &k, &v, &sl, &sh);
-    if (num != 4) return null();
-    word_t l = strcmp(sl, "B") == 0 ? id(bot())
-             : strcmp(sl, "T") == 0 ? id(top())
-             :                        strtoll(sl, NULL, 0);
-    word_t h = strcmp(sh, "B") == 0 ? id(bot())
-             : strcmp(sh, "T") == 0 ? id(top())
-             :                        strtoll(sh, NULL, 0);
-    if (l == LLONG_MAX || h == LLONG_MAX) return null();
-    n[k] = root = n.at(l) + single(v) * n.at(h);
-  } while (fgets(buf, sizeof(buf), fp) != NULL);
-  return root;
+  std::istringstream in(read_dump(fp));
+  return load(in);
 }
 
 void _enum(zdd_t f, ostream& out,
diff --git a/src/graphillion/zdd.h b/src/graphillion/zdd.h
index ab711a0..e607400 100644
--- a/src/graphillion/zdd.h
+++ b/src/graphillion/zdd.h
@@ -81,6 +81,7 @@ void dump(zdd_t f, std::ostream& out);
 void dump(zdd_t f, FILE* fp = stdout);
 zdd_t load(std::istream& in);
 zdd_t load(FILE* fp = stdin);
+std::string read_dump(FILE* fp);
 void _enum(zdd_t f, std::ostream& out,
            const std::pair<const char*, const char*>& outer_braces,
            const std::pair<const char*, const char*>& inner_braces);
diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 6dc8db6..38972fb 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -42,6 +42,7 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #include <limits>
 
 #include "graphillion/graphset.h"
+#include "graphillion/zdd.h"
 #include "graphillion/reliability/reliability.h"
 #include "graphillion/regular/RegularGraphs.h"
 #include "graphillion/induced_graphs/InducedGraphs.h"
@@ -1141,11 +1142,13 @@ static PyObject* setset_load(PySetsetObject* self, PyObject* obj) {
     return NULL;
   }
   try {
-    setset* loaded_ss;
+    string text;
+    // Only the input runs without the GIL.
     Py_BEGIN_ALLOW_THREADS;
-    loaded_ss = new setset(setset::load(fp));
+    text = graphillion::read_dump(fp);
     Py_END_ALLOW_THREADS;
-    ret->ss = loaded_ss;
+    stringstream sstr(text);
+    ret->ss = new setset(setset::load(sstr));
   } catch (const std::exception& e) {
     Py_DECREF(ret);
     fclose(fp);
@@ -1159,6 +1162,7 @@ static PyObject* setset_load(PySetsetObject* self, PyObject* obj) {
   }
 
   if (fclose(fp) != 0) {
+    Py_DECREF(ret);
     PyErr_SetFromErrno(PyExc_OSError);
     return NULL;
   }
-- 
2.43.0


From 1e9caf6a2ae4f0effee2794a1944d127766dd0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:48 +0000
Subject: [PATCH 28/69] fix: dump and load used the diagram library without
 holding the GIL

---
 src/pygraphillion.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 38972fb..e3621e6 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -1107,10 +1107,16 @@ static PyObject* setset_dump(PySetsetObject* self, PyObject* obj) {
     PyErr_SetFromErrno(PyExc_OSError);
     return NULL;
   }
+  // Only the output runs without the GIL.
+  stringstream sstr;
+  self->ss->dump(sstr);
+  string text = sstr.str();
+  bool written;
   Py_BEGIN_ALLOW_THREADS;
-  self->ss->dump(fp);
+  written = fwrite(text.data(), 1, text.size(), fp) == text.size();
+  written = fclose(fp) == 0 && written;
   Py_END_ALLOW_THREADS;
-  if (fclose(fp) != 0) {
+  if (!written) {
     PyErr_SetFromErrno(PyExc_OSError);
     return NULL;
   }
@@ -1202,7 +1208,7 @@ static PyObject* setset_enum(PySetsetObject* self, PyObject* obj) {
   if (fd == -1) {
     return NULL;
   }
-  FILE* fp = fdopen(fd, "r");
+  FILE* fp = fdopen(dup(fd), "w");
   if (fp == NULL) {
     PyErr_SetFromErrno(PyExc_OSError);
     return NULL;
@@ -1212,9 +1218,7 @@ static PyObject* setset_enum(PySetsetObject* self, PyObject* obj) {
   auto outer_pair = std::make_pair(prefix.c_str(), "])");
   auto inner_pair = std::make_pair("set([", "])");
   try {
-    Py_BEGIN_ALLOW_THREADS;
     self->ss->_enum(fp, outer_pair, inner_pair);
-    Py_END_ALLOW_THREADS;
   } catch (const std::exception& e) {
     fclose(fp);
     PyErr_SetString(PyExc_RuntimeError, e.what());
-- 
2.43.0


From 917d1a2ca1f21e55a385bc363e2cc5cfffae5d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:48 +0000
Subject: [PATCH 29/69] fix: dump and load refused file descriptor 0

---
 src/pygraphillion.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index e3621e6..b4366c2 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -1097,7 +1097,6 @@ static PyObject* setset_probability(PySetsetObject* self,
 }
 
 static PyObject* setset_dump(PySetsetObject* self, PyObject* obj) {
-  CHECK_OR_ERROR(obj, PyObject_AsFileDescriptor, "file", NULL);
   int fd = PyObject_AsFileDescriptor(obj);
   if (fd == -1) {
     return NULL;
@@ -1130,7 +1129,6 @@ static PyObject* setset_dumps(PySetsetObject* self) {
 }
 
 static PyObject* setset_load(PySetsetObject* self, PyObject* obj) {
-  CHECK_OR_ERROR(obj, PyObject_AsFileDescriptor, "file", NULL);
   int fd = PyObject_AsFileDescriptor(obj);
   if (fd == -1) {
     return NULL;
@@ -1203,7 +1201,6 @@ static PyObject* setset_loads(PySetsetObject* self, PyObject* obj) {
 }
 
 static PyObject* setset_enum(PySetsetObject* self, PyObject* obj) {
-  CHECK_OR_ERROR(obj, PyObject_AsFileDescriptor, "file", NULL);
   int fd = PyObject_AsFileDescriptor(obj);
   if (fd == -1) {
     return NULL;
-- 
2.43.0


From 050683c05288a0e6d39d4daeed816eb327b7becf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:48 +0000
Subject: [PATCH 30/69] fix: min_iter and max_iter leaked on an integer weight
 out of range

---
 src/pygraphillion.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index b4366c2..26f84a3 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -717,6 +717,8 @@ static PyObject* setset_optimize(PySetsetObject* self, PyObject* weights,
     else if (PyLong_Check(eo)) {
       long value = PyLong_AsLong(eo);
       if (PyErr_Occurred()) {
+        Py_DECREF(eo);
+        Py_DECREF(i);
         return NULL;
       }
       w.push_back(static_cast<double>(value));
-- 
2.43.0


From 32280d69e8af84803eb8c3ac6b883afc2ac5a1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:24 +0000
Subject: [PATCH 31/69] fix: integers beyond the range of int were silently
 truncated

---
 src/pygraphillion.cc | 60 ++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 26f84a3..15d81cd 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -177,6 +177,16 @@ using std::vector;
     Py_RETURN_NONE;                                                    \
   } while (0);
 
+// Like PyLong_AsLong(), but refuses values that int cannot represent.
+static int int_from_long(PyObject* obj) {
+  long value = PyLong_AsLong(obj);
+  if (value < INT_MIN || value > INT_MAX) {
+    PyErr_SetString(PyExc_OverflowError, "integer out of range");
+    return -1;
+  }
+  return static_cast<int>(value);
+}
+
 static PyObject* setset_build_set(const set<int>& s) {
   PyObject* so = PySet_New(NULL);
   if (so == NULL) {
@@ -213,7 +223,7 @@ static int setset_parse_set(PyObject* so, set<int>* s) {
       PyErr_SetString(PyExc_TypeError, "not int set");
       return -1;
     }
-    long value = PyLong_AsLong(eo);
+    long value = int_from_long(eo);
     Py_DECREF(eo);
     // error occurs in PyLong_AsLong
     if (PyErr_Occurred()) {
@@ -278,7 +288,7 @@ static int setset_parse_map(PyObject* dict_obj, map<string, vector<int> >* m) {
         PyErr_SetString(PyExc_TypeError, "not int");
         return -1;
       }
-      long value = PyLong_AsLong(eo);
+      long value = int_from_long(eo);
       Py_DECREF(eo);
 
       // error occurs in PyLong_AsLong
@@ -485,7 +495,7 @@ static PyObject* setset_invert(PySetsetObject* self) {
 
 static PyObject* setset_complement(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int num_elems_a = PyLong_AsLong(io);
+  int num_elems_a = int_from_long(io);
   if (PyErr_Occurred()) {
     return NULL;
   }
@@ -641,7 +651,7 @@ static PyObject* setset_len2(PySetsetObject* self, PyObject* args) {
     }
     return result;
   } else if (PyLong_Check(obj)) {
-    int len = PyLong_AsLong(obj);
+    int len = int_from_long(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -781,7 +791,7 @@ static int setset_contains(PySetsetObject* self, PyObject* obj) {
     }
     return self->ss->find(s) != self->ss->end() ? 1 : 0;
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
+    int e = int_from_long(obj);
     if (PyErr_Occurred()) {
       return -1;
     }
@@ -801,7 +811,7 @@ static PyObject* setset_add(PySetsetObject* self, PyObject* obj) {
     }
     self->ss->insert(s);
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
+    int e = int_from_long(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -825,7 +835,7 @@ static PyObject* setset_remove(PySetsetObject* self, PyObject* obj) {
       return NULL;
     }
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
+    int e = int_from_long(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -850,7 +860,7 @@ static PyObject* setset_discard(PySetsetObject* self, PyObject* obj) {
     }
     self->ss->erase(s);
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
+    int e = int_from_long(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -899,7 +909,7 @@ static PyObject* setset_flip(PySetsetObject* self, PyObject* args) {
     PyErr_SetString(PyExc_TypeError, "need arg e");
     return NULL;
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
+    int e = int_from_long(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -918,7 +928,7 @@ static PyObject* setset_flip_all(PySetsetObject* self, PyObject* args) {
     PyErr_SetString(PyExc_TypeError, "need arg num_elems");
     return NULL;
   } else if (PyLong_Check(obj)) {
-    long num_elems = PyLong_AsLong(obj);
+    long num_elems = int_from_long(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -940,7 +950,7 @@ static PyObject* setset_maximal(PySetsetObject* self) {
 
 static PyObject* setset_hitting(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int num_elems_a = PyLong_AsLong(io);
+  int num_elems_a = int_from_long(io);
   if (PyErr_Occurred()) {
     return NULL;
   }
@@ -953,7 +963,7 @@ static PyObject* setset_hitting(PySetsetObject* self, PyObject* io) {
 
 static PyObject* setset_smaller(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int set_size = PyLong_AsLong(io);
+  int set_size = int_from_long(io);
   if (PyErr_Occurred()) {
     return NULL;
   }
@@ -966,7 +976,7 @@ static PyObject* setset_smaller(PySetsetObject* self, PyObject* io) {
 
 static PyObject* setset_larger(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int set_size = PyLong_AsLong(io);
+  int set_size = int_from_long(io);
   if (PyErr_Occurred()) {
     return NULL;
   }
@@ -979,7 +989,7 @@ static PyObject* setset_larger(PySetsetObject* self, PyObject* io) {
 
 static PyObject* setset_set_size(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int set_size = PyLong_AsLong(io);
+  int set_size = int_from_long(io);
   if (PyErr_Occurred()) {
     return NULL;
   }
@@ -1009,7 +1019,7 @@ static PyObject* setset_supersets(PySetsetObject* self, PyObject* obj) {
   if (PySetset_Check(obj)) {
     RETURN_NEW_OBJECT2(Py_TYPE(self), obj, _obj, self->ss->supersets(*_obj->ss));
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
+    int e = int_from_long(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -1029,7 +1039,7 @@ static PyObject* setset_non_supersets(PySetsetObject* self, PyObject* obj) {
   if (PySetset_Check(obj)) {
     RETURN_NEW_OBJECT2(Py_TYPE(self), obj, _obj, self->ss->non_supersets(*_obj->ss));
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
+    int e = int_from_long(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -1325,7 +1335,7 @@ static PyObject* setset_cost_le(PySetsetObject* self, PyObject* args, PyObject*
   PyObject* cost;
   while ((cost = PyIter_Next(cost_iter))) {
     if (PyLong_Check(cost)) {
-      long value = PyLong_AsLong(cost);
+      long value = int_from_long(cost);
       Py_DECREF(cost);
       if (PyErr_Occurred()) {
         Py_DECREF(cost_iter);
@@ -1848,7 +1858,7 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
           PyErr_SetString(PyExc_TypeError, "invalid degree in degree constraints");
           return NULL;
         }
-        long value = PyLong_AsLong(io);
+        long value = int_from_long(io);
         Py_DECREF(io);
         if (PyErr_Occurred()) {
           Py_DECREF(i);
@@ -1884,7 +1894,7 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
         PyErr_SetString(PyExc_TypeError, "invalid number of edges");
         return NULL;
       }
-      long value = PyLong_AsLong(io);
+      long value = int_from_long(io);
       Py_DECREF(io);
       if (PyErr_Occurred()) {
         Py_DECREF(i);
@@ -2060,7 +2070,7 @@ static PyObject* regular_graphs(PyObject*, PyObject* args, PyObject* kwds){
   }
 
   if (PyLong_Check(degree_obj)) {
-    int d = PyLong_AsLong(degree_obj);
+    int d = int_from_long(degree_obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -2074,7 +2084,7 @@ static PyObject* regular_graphs(PyObject*, PyObject* args, PyObject* kwds){
     }
     PyObject* lower_obj = PyTuple_GetItem(degree_obj, 0);
     if (PyLong_Check(lower_obj)) {
-      degree_lower = PyLong_AsLong(lower_obj);
+      degree_lower = int_from_long(lower_obj);
       if (PyErr_Occurred()) {
         return NULL;
       }
@@ -2084,7 +2094,7 @@ static PyObject* regular_graphs(PyObject*, PyObject* args, PyObject* kwds){
     }
     PyObject* upper_obj = PyTuple_GetItem(degree_obj, 1);
     if (PyLong_Check(upper_obj)) {
-      degree_upper = PyLong_AsLong(upper_obj);
+      degree_upper = int_from_long(upper_obj);
       if (PyErr_Occurred()) {
         return NULL;
       }
@@ -2173,7 +2183,7 @@ static PyObject* degree_distribution_graphs(PyObject*, PyObject* args, PyObject*
       PyErr_SetString(PyExc_TypeError, "Currently, value must be an integer.");
       return NULL;
     }
-    int k = PyLong_AsLong(key);
+    int k = int_from_long(key);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -2182,7 +2192,7 @@ static PyObject* degree_distribution_graphs(PyObject*, PyObject* args, PyObject*
         "must be non-negative");
       return NULL;
     }
-    int v = PyLong_AsLong(value);
+    int v = int_from_long(value);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -2675,7 +2685,7 @@ bool input_vertex_to_range_map(
         PyErr_SetString(PyExc_TypeError, "invalid degree in map object");
         return false;
       }
-      long value = PyLong_AsLong(io);
+      long value = int_from_long(io);
       if (PyErr_Occurred()) {
         Py_DECREF(i);
         return false;
-- 
2.43.0


From 33d5a3dd3275372d9133fee46eec01a082233b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 32/69] fix: a graphset argument of another type was
 reinterpreted as a setset

---
 src/pygraphillion.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 15d81cd..2d9182d 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -1915,8 +1915,10 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
   }
 
   setset* search_space = NULL;
-  if (search_space_obj != NULL && search_space_obj != Py_None)
+  if (search_space_obj != NULL && search_space_obj != Py_None) {
+    CHECK_SETSET_OR_ERROR(search_space_obj);
     search_space = reinterpret_cast<PySetsetObject*>(search_space_obj)->ss;
+  }
 
   vector<linear_constraint_t> linear_constraints_entity;
   vector<linear_constraint_t>* linear_constraints = NULL;
@@ -2115,6 +2117,7 @@ static PyObject* regular_graphs(PyObject*, PyObject* args, PyObject* kwds){
 
   setset* search_space = NULL;
   if (graphset_obj != NULL && graphset_obj != Py_None) {
+    CHECK_SETSET_OR_ERROR(graphset_obj);
     search_space = reinterpret_cast<PySetsetObject*>(graphset_obj)->ss;
   }
 
@@ -2209,6 +2212,7 @@ static PyObject* degree_distribution_graphs(PyObject*, PyObject* args, PyObject*
 
   setset* search_space = NULL;
   if (graphset_obj != NULL && graphset_obj != Py_None) {
+    CHECK_SETSET_OR_ERROR(graphset_obj);
     search_space = reinterpret_cast<PySetsetObject*>(graphset_obj)->ss;
   }
 
-- 
2.43.0


From 8dfbee333fe5e6ee50077b8e129dcc0151ede444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:29 +0000
Subject: [PATCH 33/69] fix: unknown vertices given to EdgeVertexSetSet
 enlarged the universe

---
 graphillion/edgevertex_setset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index 88f5b66..2cc300d 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -1556,7 +1556,8 @@ class EdgeVertexSetSet(object):
         elif isinstance(obj, (set, frozenset, list)):
             return 'edgesvertices', set([EdgeVertexSetSet._conv_edgevertex(e) for e in obj])
         elif isinstance(obj, tuple):
-            return 'edge', EdgeVertexSetSet._conv_edgevertex(obj)
+            obj = EdgeVertexSetSet._conv_edgevertex(obj)
+            return 'edge' if Universe.edge_vertex_kind[obj] else 'vertex', obj
         elif obj in Universe.edge_vertex_kind and not Universe.edge_vertex_kind[obj]: # obj is a vertex
             return 'vertex', obj
         else:
@@ -1564,8 +1565,10 @@ class EdgeVertexSetSet(object):
 
     @staticmethod
     def _conv_edgevertex(edge_or_vertex):
+        if edge_or_vertex in Universe.ev_objtable.obj2int:
+            return edge_or_vertex
         if not isinstance(edge_or_vertex, tuple) or len(edge_or_vertex) < 2:
-            return edge_or_vertex # interpret it as a vertex
+            raise KeyError(edge_or_vertex)
         if len(edge_or_vertex) > 2:
             edge_or_vertex = edge_or_vertex[:2]
         if edge_or_vertex in Universe.ev_objtable.obj2int:
-- 
2.43.0


From be58ff32f4682f8a4db31dd062020a2a11c48c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:00 +0000
Subject: [PATCH 34/69] fix: operation caches survived garbage collection and
 were never released

minimal, maximal, non_subsets, non_supersets and algo_c kept static caches
keyed by node IDs, which the garbage collector reuses for other nodes.
---
 src/graphillion/setset.cc |   4 +-
 src/graphillion/setset.h  |   1 +
 src/graphillion/zdd.cc    | 141 ++++++++++++++++++++++++--------------
 src/graphillion/zdd.h     |   6 +-
 4 files changed, 95 insertions(+), 57 deletions(-)

diff --git a/src/graphillion/setset.cc b/src/graphillion/setset.cc
index 2f44527..bc7a179 100644
--- a/src/graphillion/setset.cc
+++ b/src/graphillion/setset.cc
@@ -95,7 +95,7 @@ setset::random_iterator::random_iterator(const setset::random_iterator& i)
 }
 
 setset::random_iterator::random_iterator(const setset& ss) : iterator(ss, set<elem_t>()) {
-  this->size_ = algo_c(ss.zdd_);
+  this->size_ = algo_c(ss.zdd_, &this->counts_);
   this->next();
 }
 
@@ -105,7 +105,7 @@ void setset::random_iterator::next() {
     this->s_ = set<elem_t>();
   } else {
     vector<elem_t> stack;
-    zdd_t z = choose_random(this->zdd_, &stack);
+    zdd_t z = choose_random(this->zdd_, &stack, &this->counts_);
     // Since same sets are rarely selected from very large setset that has more
     // than 1e17 sets, we don't need to remove the selected sets
     if (this->size_ < 1e17) this->zdd_ -= z;
diff --git a/src/graphillion/setset.h b/src/graphillion/setset.h
index f865c4a..ff26db3 100644
--- a/src/graphillion/setset.h
+++ b/src/graphillion/setset.h
@@ -87,6 +87,7 @@ class setset {
     virtual void next();
 
     double size_;
+    std::map<word_t, std::pair<zdd_t, double> > counts_;  // for choose_random
   };
 
   class weighted_iterator : public iterator {
diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 92e065f..32e69a0 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -116,30 +116,58 @@ zdd_t complement(zdd_t f, elem_t num_elems_a) {
   return n[num_elems_a + 1] - f;
 }
 
-zdd_t minimal(zdd_t f) {
-  static map<word_t, zdd_t> cache;
+// Caches live no longer than a call or an iterator, and their entries hold the operands, because
+// the garbage collector gives the IDs of freed nodes to other nodes.
+struct binary_entry {
+  zdd_t f, g, r;
+};
+typedef map<pair<word_t, word_t>, binary_entry> binary_cache;
+
+static zdd_t cache_entry(zdd_t f, zdd_t g, zdd_t r, binary_cache* cache) {
+  binary_entry& e = (*cache)[make_key(f, g)];
+  e.f = f, e.g = g;
+  return e.r = r;
+}
+
+static zdd_t non_subsets(zdd_t f, zdd_t g, binary_cache* cache);
+static zdd_t non_supersets(zdd_t f, zdd_t g, binary_cache* cache);
+
+static zdd_t minimal(zdd_t f, map<word_t, zdd_t>* cache,
+                     binary_cache* non_supersets_cache) {
   if (is_term(f)) return f;
-  map<word_t, zdd_t>::iterator i = cache.find(id(f));
-  if (i != cache.end())
+  map<word_t, zdd_t>::iterator i = cache->find(id(f));
+  if (i != cache->end())
     return i->second;
-  zdd_t rl = minimal(lo(f));
-  zdd_t r = minimal(hi(f));
-  zdd_t rh = non_supersets(r, rl);
+  zdd_t rl = minimal(lo(f), cache, non_supersets_cache);
+  zdd_t r = minimal(hi(f), cache, non_supersets_cache);
+  zdd_t rh = non_supersets(r, rl, non_supersets_cache);
   r = zuniq(elem(f), rl, rh);
-  return cache[id(f)] = r;
+  return (*cache)[id(f)] = r;
 }
 
-zdd_t maximal(zdd_t f) {
-  static map<word_t, zdd_t> cache;
+zdd_t minimal(zdd_t f) {
+  map<word_t, zdd_t> cache;
+  binary_cache non_supersets_cache;
+  return minimal(f, &cache, &non_supersets_cache);
+}
+
+static zdd_t maximal(zdd_t f, map<word_t, zdd_t>* cache,
+                     binary_cache* non_subsets_cache) {
   if (is_term(f)) return f;
-  map<word_t, zdd_t>::iterator i = cache.find(id(f));
-  if (i != cache.end())
+  map<word_t, zdd_t>::iterator i = cache->find(id(f));
+  if (i != cache->end())
     return i->second;
-  zdd_t r = maximal(lo(f));
-  zdd_t rh = maximal(hi(f));
-  zdd_t rl = non_subsets(r, rh);
+  zdd_t r = maximal(lo(f), cache, non_subsets_cache);
+  zdd_t rh = maximal(hi(f), cache, non_subsets_cache);
+  zdd_t rl = non_subsets(r, rh, non_subsets_cache);
   r = zuniq(elem(f), rl, rh);
-  return cache[id(f)] = r;
+  return (*cache)[id(f)] = r;
+}
+
+zdd_t maximal(zdd_t f) {
+  map<word_t, zdd_t> cache;
+  binary_cache non_subsets_cache;
+  return maximal(f, &cache, &non_subsets_cache);
 }
 
 zdd_t hitting(zdd_t f, elem_t num_elems_a) {
@@ -194,40 +222,42 @@ zdd_t meet(zdd_t f, zdd_t g) {
   return ZBDD_Meet(f, g);
 }
 
-zdd_t non_subsets(zdd_t f, zdd_t g) {
-  static map<pair<word_t, word_t>, zdd_t> cache;
+static zdd_t non_subsets(zdd_t f, zdd_t g, binary_cache* cache) {
   if (g == bot())
     return f;
   else if (g == top())
     return f - top();
   else if (f == bot() || f == top() || f == g)
     return bot();
-  pair<word_t, word_t> k = make_key(f, g);
-  map<pair<word_t, word_t>, zdd_t>::iterator i = cache.find(k);
-  if (i != cache.end())
-    return i->second;
+  binary_cache::iterator i = cache->find(make_key(f, g));
+  if (i != cache->end())
+    return i->second.r;
   zdd_t r, r2, rl, rh;
   if (elem(f) < elem(g)) {
-    rl = non_subsets(lo(f), g);
+    rl = non_subsets(lo(f), g, cache);
     rh = hi(f);
     r = zuniq(elem(f), rl, rh);
   } else if (elem(f) == elem(g)) {
-//    r = non_subsets(lo(f), lo(g));
-//    r2 = non_subsets(lo(f), hi(g));
+//    r = non_subsets(lo(f), lo(g), cache);
+//    r2 = non_subsets(lo(f), hi(g), cache);
 //    rl = r & r2;
     r2 = lo(g) | hi(g);
-    rl = non_subsets(lo(f), r2);
-    rh = non_subsets(hi(f), hi(g));
+    rl = non_subsets(lo(f), r2, cache);
+    rh = non_subsets(hi(f), hi(g), cache);
     r = zuniq(elem(f), rl, rh);
   } else {
     r2 = lo(g) | hi(g);
-    r = non_subsets(f, r2);
+    r = non_subsets(f, r2, cache);
   }
-  return cache[k] = r;
+  return cache_entry(f, g, r, cache);
 }
 
-zdd_t non_supersets(zdd_t f, zdd_t g) {
-  static map<pair<word_t, word_t>, zdd_t> cache;
+zdd_t non_subsets(zdd_t f, zdd_t g) {
+  binary_cache cache;
+  return non_subsets(f, g, &cache);
+}
+
+static zdd_t non_supersets(zdd_t f, zdd_t g, binary_cache* cache) {
   if (g == bot())
     return f;
   else if (f == bot() || g == top() || f == g)
@@ -235,26 +265,30 @@ zdd_t non_supersets(zdd_t f, zdd_t g) {
   else if (f == top())
     return top() - g;  // the empty set is a superset of itself only
   else if (elem(f) > elem(g))
-    return non_supersets(f, lo(g));
-  pair<word_t, word_t> k = make_key(f, g);
-  map<pair<word_t, word_t>, zdd_t>::iterator i = cache.find(k);
-  if (i != cache.end())
-    return i->second;
+    return non_supersets(f, lo(g), cache);
+  binary_cache::iterator i = cache->find(make_key(f, g));
+  if (i != cache->end())
+    return i->second.r;
   elem_t v = elem(f);
   zdd_t r;
   zdd_t rl;
   zdd_t rh;
   if (elem(f) < elem(g)) {
-    rl = non_supersets(lo(f), g);
-    rh = non_supersets(hi(f), g);
+    rl = non_supersets(lo(f), g, cache);
+    rh = non_supersets(hi(f), g, cache);
   } else {
-    rl = non_supersets(hi(f), hi(g));
-    r = non_supersets(hi(f), lo(g));
+    rl = non_supersets(hi(f), hi(g), cache);
+    r = non_supersets(hi(f), lo(g), cache);
     rh = r & rl;
-    rl = non_supersets(lo(f), lo(g));
+    rl = non_supersets(lo(f), lo(g), cache);
   }
   r = zuniq(v, rl, rh);
-  return cache[k] = r;
+  return cache_entry(f, g, r, cache);
+}
+
+zdd_t non_supersets(zdd_t f, zdd_t g) {
+  binary_cache cache;
+  return non_supersets(f, g, &cache);
 }
 
 bool choose(zdd_t f, vector<elem_t>* stack) {
@@ -293,7 +327,7 @@ bool choose(zdd_t f, vector<elem_t>* stack) {
   return false;
 }
 
-zdd_t choose_random(zdd_t f, vector<elem_t>* stack) {
+zdd_t choose_random(zdd_t f, vector<elem_t>* stack, count_cache* counts) {
   assert(stack != NULL);
   if (is_term(f)) {
     if (f == top()) {
@@ -304,13 +338,13 @@ zdd_t choose_random(zdd_t f, vector<elem_t>* stack) {
     }
     assert(false);
   }
-  double ch = algo_c(hi(f));
-  double cl = algo_c(lo(f));
+  double ch = algo_c(hi(f), counts);
+  double cl = algo_c(lo(f), counts);
   if (rand_xor128() > cl / (ch + cl)) {
     stack->push_back(elem(f));
-    return choose_random(hi(f), stack);
+    return choose_random(hi(f), stack, counts);
   } else {
-    return choose_random(lo(f), stack);
+    return choose_random(lo(f), stack, counts);
   }
 }
 
@@ -578,14 +612,15 @@ void algo_b(zdd_t f, const vector<double>& w, vector<bool>* x) {
 }
 
 // Algorithm C modified for ZDD, from Knuth vol. 4 fascicle 1 sec. 7.1.4 (p.75).
-double algo_c(zdd_t f) {
-  static map<word_t, double> counts;
+double algo_c(zdd_t f, count_cache* counts) {
   if (is_term(f))
     return f == top() ? 1 : 0;
-  else if (counts.find(id(f)) != counts.end())
-    return counts.at(id(f));
-  else
-    return counts[id(f)] = algo_c(hi(f)) + algo_c(lo(f));
+  count_cache::iterator i = counts->find(id(f));
+  if (i != counts->end())
+    return i->second.second;
+  double c = algo_c(hi(f), counts) + algo_c(lo(f), counts);
+  (*counts)[id(f)] = std::make_pair(f, c);
+  return c;
 }
 
 static double skip_probability(elem_t e, zdd_t f,
diff --git a/src/graphillion/zdd.h b/src/graphillion/zdd.h
index e607400..01d93a3 100644
--- a/src/graphillion/zdd.h
+++ b/src/graphillion/zdd.h
@@ -74,7 +74,9 @@ zdd_t meet(zdd_t f, zdd_t g);
 zdd_t non_subsets(zdd_t f, zdd_t g);
 zdd_t non_supersets(zdd_t f, zdd_t g);
 bool choose(zdd_t f, std::vector<elem_t>* stack);
-zdd_t choose_random(zdd_t f, std::vector<elem_t>* stack);
+// The entries hold their nodes, because the IDs of freed nodes are reused.
+typedef std::map<word_t, std::pair<zdd_t, double> > count_cache;
+zdd_t choose_random(zdd_t f, std::vector<elem_t>* stack, count_cache* counts);
 zdd_t choose_best(zdd_t f, const std::vector<double>& weights,
                   std::set<elem_t>* s);
 void dump(zdd_t f, std::ostream& out);
@@ -93,7 +95,7 @@ void _enum(zdd_t f, std::ostream& out, std::vector<elem_t>* stack, bool* first,
 void _enum(zdd_t f, FILE* fp, std::vector<elem_t>* stack, bool* first,
            const std::pair<const char*, const char*>& inner_braces);
 void algo_b(zdd_t f, const std::vector<double>& w, std::vector<bool>* x);
-double algo_c(zdd_t f);
+double algo_c(zdd_t f, count_cache* counts);
 double probability(elem_t e, zdd_t f, const std::vector<double>& probabilities,
                    std::map<word_t, double>& cache, elem_t num_elems_a);
 zdd_t zuniq(elem_t v, zdd_t l, zdd_t h);
-- 
2.43.0


From afc8de7fa350cd256b81c9ef1376b7e62854305f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:45 +0000
Subject: [PATCH 35/69] fix: removing a vertex failed halfway unless all its
 edges were in use

remove(vertex) removed the edges one by one and raised KeyError at the first
edge that no graph contains, after other edges had been removed.
---
 graphillion/digraphset.py | 5 ++++-
 graphillion/graphset.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 2cb8473..ba96715 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -870,7 +870,10 @@ class DiGraphSet(object):
         if type == 'graph' or type == 'edge':
             self._ss.remove(DiGraphSet._objtable, obj)
         elif type == 'vertex':
-            for edge in obj:
+            edges = [e for e in obj if e in self]
+            if not edges:
+                raise KeyError('not found')
+            for edge in edges:
                 self.remove(edge)
         else:
             raise TypeError(obj)
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 575886c..abe6348 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -881,7 +881,10 @@ class GraphSet(object):
         if type == 'graph' or type == 'edge':
             self._ss.remove(Universe.e_objtable, obj)
         elif type == 'vertex':
-            for edge in obj:
+            edges = [e for e in obj if e in self]
+            if not edges:
+                raise KeyError('not found')
+            for edge in edges:
                 self.remove(edge)
         else:
             raise TypeError(obj)
-- 
2.43.0


From 08fd958a4a0bfaab68587dd25f4622e326a991df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:06 +0000
Subject: [PATCH 36/69] fix: an update with an invalid argument applied the
 arguments before it

---
 src/pygraphillion.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 2d9182d..2e10f9b 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -163,6 +163,8 @@ using std::vector;
 
 #define UPDATE_FOR_MULTI(self, others, expr)                           \
   do {                                                                 \
+    for (Py_ssize_t _i = 0; _i < PyTuple_GET_SIZE(others); ++_i)       \
+      CHECK_SETSET_OR_ERROR(PyTuple_GET_ITEM(others, _i));             \
     for (Py_ssize_t _i = 0; _i < PyTuple_GET_SIZE(others); ++_i) {     \
       PyObject* _other = PyTuple_GET_ITEM(others, _i);                 \
       if (_other == NULL) {                                            \
-- 
2.43.0


From 10c7b281481f37d1b0bc853b162516b2847b081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:53 +0000
Subject: [PATCH 37/69] fix: looking for or removing unknown elements added
 them to the setset universe

---
 graphillion/setset_base.py | 8 ++++++++
 graphillion/universe.py    | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/graphillion/setset_base.py b/graphillion/setset_base.py
index 7ffe419..b49eb60 100644
--- a/graphillion/setset_base.py
+++ b/graphillion/setset_base.py
@@ -84,7 +84,11 @@ class setset_base(_graphillion.setset):
     def _invert(self, objtable):
         return _graphillion.setset.complement(self, objtable.num_elems())
 
+    # An unknown element is in no set; looking for it must not add it to
+    # the universe.
     def _contains(self, objtable, set_or_elem):
+        if not objtable.has_arg(set_or_elem):
+            return False
         set_or_elem = objtable.conv_arg(set_or_elem)
         return _graphillion.setset.__contains__(self, set_or_elem)
 
@@ -93,10 +97,14 @@ class setset_base(_graphillion.setset):
         return _graphillion.setset.add(self, set_or_elem)
 
     def remove(self, objtable, set_or_elem):
+        if not objtable.has_arg(set_or_elem):
+            raise KeyError('not found')
         set_or_elem = objtable.conv_arg(set_or_elem)
         return _graphillion.setset.remove(self, set_or_elem)
 
     def discard(self, objtable, set_or_elem):
+        if not objtable.has_arg(set_or_elem):
+            return None
         set_or_elem = objtable.conv_arg(set_or_elem)
         return _graphillion.setset.discard(self, set_or_elem)
 
diff --git a/graphillion/universe.py b/graphillion/universe.py
index 1b390ad..a2ae011 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -71,6 +71,13 @@ class ObjectTable:
         else:  # an element
             return self.conv_elem(obj)
 
+    # Returns True if obj is an element of the universe or a set of them.
+    def has_arg(self, obj):
+        if isinstance(obj, (set, frozenset)):  # a set
+            return all(e in self.obj2int for e in obj)
+        else:  # an element
+            return obj in self.obj2int
+
     def conv_ret(self, obj):
         if isinstance(obj, (set, frozenset)):  # a set
             ret = set()
-- 
2.43.0


From a3c0358a954bd759552d5ea4d53f5c7105e8c497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:07 +0000
Subject: [PATCH 38/69] fix: every cost filter leaked its cache and pinned its
 diagrams

---
 src/SAPPOROBDD/BDDCT.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SAPPOROBDD/BDDCT.h b/src/SAPPOROBDD/BDDCT.h
index f1db9ab..a7dea8e 100644
--- a/src/SAPPOROBDD/BDDCT.h
+++ b/src/SAPPOROBDD/BDDCT.h
@@ -35,7 +35,7 @@ public:
     }
     ~CacheEntry(void)
     {
-      if(!_zmap) delete _zmap;
+      if(_zmap) delete _zmap;
     }
   };
 
-- 
2.43.0


From 98db27cf216341fd33765efed7aad5c1bbd6e2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:29 +0000
Subject: [PATCH 39/69] fix: sums of costs overflowed 32 bits in the cost
 filters

---
 graphillion/digraphset.py        | 4 ++--
 graphillion/edgevertex_setset.py | 4 ++--
 graphillion/graphset.py          | 4 ++--
 graphillion/vertex_setset.py     | 3 +--
 src/SAPPOROBDD/BDDCT.cc          | 4 ++--
 src/SAPPOROBDD/BDDCT.h           | 4 ++--
 src/graphillion/setset.cc        | 5 ++++-
 src/pygraphillion.cc             | 2 +-
 8 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index ba96715..39ee964 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -1561,8 +1561,8 @@ class DiGraphSet(object):
           TypeError: If at least one cost is not integer.
 
         """
-        inv_costs = {e: -cost for e, cost in costs.items()}
-        return DiGraphSet(self._ss.cost_le(objtable=DiGraphSet._objtable, costs=inv_costs, cost_bound=-cost_bound))
+        lt_ss = self._ss.cost_le(objtable=DiGraphSet._objtable, costs=costs, cost_bound=cost_bound - 1)
+        return DiGraphSet(self._ss.difference(lt_ss))
 
     def cost_eq(self, costs, cost_bound):
         """Returns a new DiGraphSet with subgraphs whose cost is equal to the cost bound.
diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index 2cc300d..516f62e 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -1411,8 +1411,8 @@ class EdgeVertexSetSet(object):
           TypeError: If at least one cost is not integer.
 
         """
-        inv_costs = {e: -cost for e, cost in costs.items()}
-        return EdgeVertexSetSet(self._ss.cost_le(objtable=Universe.ev_objtable, costs=inv_costs, cost_bound=-cost_bound))
+        lt_ss = self._ss.cost_le(objtable=Universe.ev_objtable, costs=costs, cost_bound=cost_bound - 1)
+        return EdgeVertexSetSet(self._ss.difference(lt_ss))
 
     def cost_eq(self, costs, cost_bound):
         """Returns a new EdgeVertexSetSet with subgraphs whose cost is equal to the cost bound.
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index abe6348..fed4ac6 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -1573,8 +1573,8 @@ class GraphSet(object):
           TypeError: If at least one cost is not integer.
 
         """
-        inv_costs = {e: -cost for e, cost in costs.items()}
-        return GraphSet(self._ss.cost_le(objtable=Universe.e_objtable, costs=inv_costs, cost_bound=-cost_bound))
+        lt_ss = self._ss.cost_le(objtable=Universe.e_objtable, costs=costs, cost_bound=cost_bound - 1)
+        return GraphSet(self._ss.difference(lt_ss))
 
     def cost_eq(self, costs, cost_bound):
         """Returns a new GraphSet with subgraphs whose cost is equal to the cost bound.
diff --git a/graphillion/vertex_setset.py b/graphillion/vertex_setset.py
index f7930f9..d7261ac 100644
--- a/graphillion/vertex_setset.py
+++ b/graphillion/vertex_setset.py
@@ -1625,8 +1625,7 @@ class VertexSetSet(object):
 
         """
         #assert costs.keys() == VertexSetSet._vertex2obj.keys()
-        inv_costs = {k: -v for k, v in costs.items()}
-        return self.cost_le(inv_costs, -cost_bound)
+        return self - self.cost_le(costs, cost_bound - 1)
 
     def cost_eq(self, costs, cost_bound):
         """Returns a new VertexSetSet with subsets whose cost is equal to the cost bound.
diff --git a/src/SAPPOROBDD/BDDCT.cc b/src/SAPPOROBDD/BDDCT.cc
index 2119e7d..326e3c3 100644
--- a/src/SAPPOROBDD/BDDCT.cc
+++ b/src/SAPPOROBDD/BDDCT.cc
@@ -466,8 +466,8 @@ ZBDD CLE0(const ZBDD& f, const bddcost spent)
   int top = f.Top();
   int tlev = BDD_LevOfVar(top);
   ZBDD h = CLE0(f.OffSet(top), spent);
-  int min0 = RetMin;
-  int max0 = RetMax;
+  bddcost min0 = RetMin;
+  bddcost max0 = RetMax;
   bddcost cost = CT->CostOfLev(tlev);
   h += CLE0(f.OnSet0(top), spent + cost).Change(top);
   if(min == bddcost_null)
diff --git a/src/SAPPOROBDD/BDDCT.h b/src/SAPPOROBDD/BDDCT.h
index a7dea8e..3dde2de 100644
--- a/src/SAPPOROBDD/BDDCT.h
+++ b/src/SAPPOROBDD/BDDCT.h
@@ -14,8 +14,8 @@ class BDDCT;
 #include <iostream>
 #include "ZBDD.h"
 
-typedef int bddcost;
-#define bddcost_null 0x7FFFFFFF
+typedef long long bddcost;  // holds any sum of 32 bit costs
+#define bddcost_null 0x7FFFFFFFFFFFFFFFLL
 #define CT_STRLEN 15
 
 #include <map>
diff --git a/src/graphillion/setset.cc b/src/graphillion/setset.cc
index bc7a179..f019b5a 100644
--- a/src/graphillion/setset.cc
+++ b/src/graphillion/setset.cc
@@ -443,7 +443,10 @@ setset setset::cost_le(const std::vector<bddcost>& costs, const bddcost cost_bou
     bddvar var = i + 1;
     bddct.SetCostOfLev(BDD_LevOfVar(var), costs[i]);
   }
-  zdd_t valid_cost_zdd = bddct.ZBDD_CostLE(this->zdd_, cost_bound);
+  // No sum of costs is outside of this range.
+  const bddcost limit = 1LL << 62;
+  bddcost bound = cost_bound > limit ? limit : cost_bound < -limit ? -limit : cost_bound;
+  zdd_t valid_cost_zdd = bddct.ZBDD_CostLE(this->zdd_, bound);
   return setset(valid_cost_zdd);
 }
 
diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 2e10f9b..c3651eb 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -1320,7 +1320,7 @@ static PyObject* setset_cost_le(PySetsetObject* self, PyObject* args, PyObject*
   static char* kwlist[3] = {s1, s2, NULL};
   PyObject* costs_obj = NULL;
   bddcost cost_bound = 0;
-  if (!PyArg_ParseTupleAndKeywords(args, kwds, "Oi", kwlist, &costs_obj, &cost_bound))
+  if (!PyArg_ParseTupleAndKeywords(args, kwds, "OL", kwlist, &costs_obj, &cost_bound))
     return NULL;
   if (costs_obj == NULL || costs_obj == Py_None) {
     PyErr_SetString(PyExc_ValueError, "no costs");
-- 
2.43.0


From 465528b9e6e1b89d2bc10438332e07a7caf2f91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:22 +0000
Subject: [PATCH 40/69] fix: elements without a cost silently got the cost -1
 in the cost filters

---
 graphillion/setset_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphillion/setset_base.py b/graphillion/setset_base.py
index b49eb60..802847c 100644
--- a/graphillion/setset_base.py
+++ b/graphillion/setset_base.py
@@ -182,10 +182,12 @@ class setset_base(_graphillion.setset):
         return _graphillion.setset.probability(self, objtable.num_elems(), ps)
 
     def cost_le(self, objtable, costs, cost_bound):
-        cs = [-1] * (objtable.num_elems() + 1)
+        cs = [None] * (objtable.num_elems() + 1)
         for e, c in costs.items():
             i = objtable.obj2int[e]
             cs[i] = c
+        # The cost of every element must be given.
+        assert None not in cs[1:]
         # Each cost must be in the range of 32 bit signed integer
         # due to the implementation of BDDCT class of SAPPOROBDD.
         assert len([c for c in cs[1:] if c < -(1 << 31) or (1 << 31) <= c]) == 0
-- 
2.43.0


From 2fcfb83a458c2040f3ecbd3e61c7d7e1c02bc0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:33 +0000
Subject: [PATCH 41/69] fix: weights and costs of reversed edges were ignored
 or refused

---
 graphillion/edgevertex_setset.py | 18 ++++++++++++++++++
 graphillion/graphset.py          | 18 ++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index 516f62e..8f75f1c 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -628,6 +628,7 @@ class EdgeVertexSetSet(object):
         """
         if weights is None:
             weights = Universe.weights
+        weights = EdgeVertexSetSet._conv_weights(weights)
         for g in self._ss.min_iter(Universe.ev_objtable, weights):
             try:
                 yield EdgeVertexSetSet._conv_ret(g)
@@ -669,6 +670,7 @@ class EdgeVertexSetSet(object):
         """
         if weights is None:
             weights = Universe.weights
+        weights = EdgeVertexSetSet._conv_weights(weights)
         for g in self._ss.max_iter(Universe.ev_objtable, weights):
             try:
                 yield EdgeVertexSetSet._conv_ret(g)
@@ -1375,6 +1377,7 @@ class EdgeVertexSetSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = {EdgeVertexSetSet._conv_edgevertex(e): cost for e, cost in costs.items()}
         return EdgeVertexSetSet(self._ss.cost_le(objtable=Universe.ev_objtable, costs=costs, cost_bound=cost_bound))
 
     def cost_ge(self, costs, cost_bound):
@@ -1411,6 +1414,7 @@ class EdgeVertexSetSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = {EdgeVertexSetSet._conv_edgevertex(e): cost for e, cost in costs.items()}
         lt_ss = self._ss.cost_le(objtable=Universe.ev_objtable, costs=costs, cost_bound=cost_bound - 1)
         return EdgeVertexSetSet(self._ss.difference(lt_ss))
 
@@ -1448,6 +1452,7 @@ class EdgeVertexSetSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = {EdgeVertexSetSet._conv_edgevertex(e): cost for e, cost in costs.items()}
         le_ss = self._ss.cost_le(objtable=Universe.ev_objtable, costs=costs, cost_bound=cost_bound)
         lt_ss = self._ss.cost_le(objtable=Universe.ev_objtable, costs=costs, cost_bound=cost_bound - 1)
         return EdgeVertexSetSet(le_ss.difference(lt_ss))
@@ -1577,6 +1582,19 @@ class EdgeVertexSetSet(object):
             return (edge_or_vertex[1], edge_or_vertex[0])
         raise KeyError(edge_or_vertex)
 
+    # orient the edges in `weights' as in the universe; unknown ones are left out
+    @staticmethod
+    def _conv_weights(weights):
+        if not weights:
+            return weights
+        ws = {}
+        for e, w in weights.items():
+            try:
+                ws[EdgeVertexSetSet._conv_edgevertex(e)] = w
+            except KeyError:
+                pass
+        return ws
+
     @staticmethod
     def _conv_ret(obj):
         if isinstance(obj, (set, frozenset)):  # a graph
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index fed4ac6..96f577a 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -725,6 +725,7 @@ class GraphSet(object):
         """
         if weights is None:
             weights = Universe.weights
+        weights = GraphSet._conv_weights(weights)
         for g in self._ss.min_iter(Universe.e_objtable, weights):
             try:
                 yield GraphSet._conv_ret(g)
@@ -765,6 +766,7 @@ class GraphSet(object):
         """
         if weights is None:
             weights = Universe.weights
+        weights = GraphSet._conv_weights(weights)
         for g in self._ss.max_iter(Universe.e_objtable, weights):
             try:
                 yield GraphSet._conv_ret(g)
@@ -1538,6 +1540,7 @@ class GraphSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = {GraphSet._conv_edge(e): cost for e, cost in costs.items()}
         return GraphSet(self._ss.cost_le(objtable=Universe.e_objtable, costs=costs, cost_bound=cost_bound))
 
     def cost_ge(self, costs, cost_bound):
@@ -1573,6 +1576,7 @@ class GraphSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = {GraphSet._conv_edge(e): cost for e, cost in costs.items()}
         lt_ss = self._ss.cost_le(objtable=Universe.e_objtable, costs=costs, cost_bound=cost_bound - 1)
         return GraphSet(self._ss.difference(lt_ss))
 
@@ -1609,6 +1613,7 @@ class GraphSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = {GraphSet._conv_edge(e): cost for e, cost in costs.items()}
         le_ss = self._ss.cost_le(objtable=Universe.e_objtable, costs=costs, cost_bound=cost_bound)
         lt_ss = self._ss.cost_le(objtable=Universe.e_objtable, costs=costs, cost_bound=cost_bound - 1)
         return GraphSet(le_ss.difference(lt_ss))
@@ -2976,6 +2981,19 @@ class GraphSet(object):
             return (edge[1], edge[0])
         raise KeyError(edge)
 
+    # orient the edges in `weights' as in the universe; unknown ones are left out
+    @staticmethod
+    def _conv_weights(weights):
+        if not weights:
+            return weights
+        ws = {}
+        for e, w in weights.items():
+            try:
+                ws[GraphSet._conv_edge(e)] = w
+            except KeyError:
+                pass
+        return ws
+
     @staticmethod
     def _conv_ret(obj):
         if isinstance(obj, (set, frozenset)):  # a graph
-- 
2.43.0


From de236f71f2fcc4cba13d3d561f5b78a5b57145b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:29 +0000
Subject: [PATCH 42/69] verification hooks: chosen garbage collection points
 and random numbers

---
 src/SAPPOROBDD/bddc.cc | 22 ++++++++++++++++++++++
 src/graphillion/zdd.cc |  9 +++++++++
 2 files changed, 31 insertions(+)

diff --git a/src/SAPPOROBDD/bddc.cc b/src/SAPPOROBDD/bddc.cc
index 4b3b2b5..eac9d12 100644
--- a/src/SAPPOROBDD/bddc.cc
+++ b/src/SAPPOROBDD/bddc.cc
@@ -252,6 +252,21 @@ static int andfalse B_ARG((bddp f, bddp g));
 
 static int mp_add B_ARG((struct B_MP *p, bddp ix));
 
+#ifdef GRAPHILLION_VERIF_HOOKS
+/* Garbage collections at chosen node requests: at request number `at', or at each one if every is set. */
+extern "C"
+{
+long long bddverif_requests = 0;
+long long bddverif_gc_at = 0;
+int bddverif_gc_every = 0;
+}
+static int bddverif_request()
+{
+  bddverif_requests++;
+  return bddverif_gc_every || bddverif_requests == bddverif_gc_at;
+}
+#endif
+
 /* ------------------ Body of program -------------------- */
 /* ----------------- External functions ------------------ */
 int bddinit(bddp initsize, bddp limitsize)
@@ -1644,6 +1659,13 @@ static bddp getnode(bddvar v, bddp f0, bddp f1)
     key = B_HASHKEY(f0, f1, varp->hashSpc); /* Enlarge success */
   }
 
+#ifdef GRAPHILLION_VERIF_HOOKS
+  if(bddverif_request())
+  {
+    bddgc();
+    key = B_HASHKEY(f0, f1, varp->hashSpc);
+  }
+#endif
   /* Check node-table overflow */
   if(NodeUsed >= NodeSpc-1U)
   {
diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 32e69a0..94f5391 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -652,9 +652,18 @@ zdd_t zuniq(elem_t v, zdd_t l, zdd_t h) {
   return l + single(v) * h;
 }
 
+#ifdef GRAPHILLION_VERIF_HOOKS
+extern "C" {
+double (*graphillion_verif_rand)() = NULL;  // replaces the random numbers if set
+}
+#endif
+
 // G. Marsaglia, "Xorshift RNGs," Journal of Statistical Software, vol.8,
 // issue.14, 2003.  http://www.jstatsoft.org/v08/i14/
 double rand_xor128() {
+#ifdef GRAPHILLION_VERIF_HOOKS
+    if (graphillion_verif_rand != NULL) return graphillion_verif_rand();
+#endif
     static unsigned long x = 123456789, y = 362436069, z = 521288629,
         w = 88675123;
     unsigned long t;
-- 
2.43.0


From df44cbeb8b98367aa08bbde43ec85e49179b7e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:16 +0000
Subject: [PATCH 43/69] fix: vertices named by tuples were refused where a
 vertex is accepted

---
 graphillion/digraphset.py | 8 +++++++-
 graphillion/graphset.py   | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 39ee964..5171ded 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -2147,7 +2147,8 @@ class DiGraphSet(object):
             return 'digraphset', obj
         elif isinstance(obj, (set, frozenset, list)):
             return 'graph', set([DiGraphSet._conv_edge(e) for e in obj])
-        elif isinstance(obj, tuple):
+        elif isinstance(obj, tuple) and (DiGraphSet._is_edge(obj) or
+                                         obj not in DiGraphSet._vertices):
             return 'edge', DiGraphSet._conv_edge(obj)
         elif obj in DiGraphSet._vertices:
             return 'vertex', [e for e in DiGraphSet._objtable.universe() if obj in e]
@@ -2161,6 +2162,11 @@ class DiGraphSet(object):
     def _conv_graph(obj):
         return DiGraphSet.converters['to_edges'](obj)
 
+    @staticmethod
+    def _is_edge(obj):
+        return obj[:2] in DiGraphSet._objtable.obj2int or \
+            obj[1::-1] in DiGraphSet._objtable.obj2int
+
     @staticmethod
     def _conv_edge(edge):
         if not isinstance(edge, tuple) or len(edge) < 2:
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 96f577a..a684ec0 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2955,7 +2955,8 @@ class GraphSet(object):
             return 'graphset', obj
         elif isinstance(obj, (set, frozenset, list)):
             return 'graph', set([GraphSet._conv_edge(e) for e in obj])
-        elif isinstance(obj, tuple):
+        elif isinstance(obj, tuple) and (GraphSet._is_edge(obj) or
+                                         obj not in Universe.vertices):
             return 'edge', GraphSet._conv_edge(obj)
         elif obj in Universe.vertices:
             return 'vertex', [e for e in Universe.e_objtable.universe() if obj in e]
@@ -2969,6 +2970,11 @@ class GraphSet(object):
     def _conv_graph(obj):
         return GraphSet.converters['to_edges'](obj)
 
+    @staticmethod
+    def _is_edge(obj):
+        return obj[:2] in Universe.e_objtable.obj2int or \
+            obj[1::-1] in Universe.e_objtable.obj2int
+
     @staticmethod
     def _conv_edge(edge):
         if not isinstance(edge, tuple) or len(edge) < 2:
-- 
2.43.0


From 69d7a18a0f657f1f2dea73b6db61e8b5c81614f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:03 +0000
Subject: [PATCH 44/69] fix: equal vertices of different type or structure
 counted as different vertices

---
 graphillion/digraphset.py  | 45 ++++++++++++++---------------
 graphillion/graphset.py    | 59 +++++++++++++++++++-------------------
 graphillion/setset_base.py | 17 ++++++++---
 graphillion/universe.py    | 21 ++++++++++++--
 4 files changed, 84 insertions(+), 58 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 5171ded..14605d0 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -22,9 +22,8 @@
 
 from functools import partial
 import _graphillion
-from graphillion.universe import ObjectTable, keep_on_error
+from graphillion.universe import ObjectTable, keep_on_error, vertex_names
 from graphillion.setset_base import setset_base
-import pickle
 import heapq
 
 
@@ -1829,10 +1828,10 @@ class DiGraphSet(object):
             A new DiGraphSet object.
         """
         graph = []
+        names = vertex_names(DiGraphSet._objtable.universe())
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
-            graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+            graph.append((names[e[0]], names[e[1]]))
 
         ss = None if graphset is None else graphset._ss
 
@@ -1855,10 +1854,10 @@ class DiGraphSet(object):
             A new DiGraphSet object.
         """
         graph = []
+        names = vertex_names(DiGraphSet._objtable.universe())
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
-            graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+            graph.append((names[e[0]], names[e[1]]))
 
         ss = None if graphset is None else graphset._ss
 
@@ -1892,17 +1891,17 @@ class DiGraphSet(object):
             A new DiGraphSet object.
         """
         graph = []
+        names = vertex_names(DiGraphSet._objtable.universe())
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
-            graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+            graph.append((names[e[0]], names[e[1]]))
 
         ss = None if graphset is None else graphset._ss
 
         assert(s in DiGraphSet._vertices and t in DiGraphSet._vertices)
 
         ss = _graphillion._directed_st_path(
-            graph=graph, s=pickle.dumps(s, protocol=0), t=pickle.dumps(t, protocol=0),
+            graph=graph, s=names[s], t=names[t],
             is_hamiltonian=is_hamiltonian, search_space=ss)
         return DiGraphSet(ss)
 
@@ -1928,16 +1927,16 @@ class DiGraphSet(object):
             A new DiGraphSet object.
         """
         graph = []
+        names = vertex_names(DiGraphSet._objtable.universe())
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
-            graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+            graph.append((names[e[0]], names[e[1]]))
 
         rs = []
         if roots is not None:
             for root in roots:
                 assert root in DiGraphSet._vertices
-                rs.append(pickle.dumps(root, protocol=0))
+                rs.append(names[root])
 
         ss = None if graphset is None else graphset._ss
 
@@ -1969,15 +1968,15 @@ class DiGraphSet(object):
             A new DiGraphSet object.
         """
         graph = []
+        names = vertex_names(DiGraphSet._objtable.universe())
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
-            graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+            graph.append((names[e[0]], names[e[1]]))
 
         ss = None if graphset is None else graphset._ss
 
         ss = _graphillion._rooted_trees(
-            graph=graph, root=pickle.dumps(root, protocol=0), is_spanning=is_spanning, search_space=ss)
+            graph=graph, root=names[root], is_spanning=is_spanning, search_space=ss)
         return DiGraphSet(ss)
 
     @staticmethod
@@ -2008,10 +2007,10 @@ class DiGraphSet(object):
             A new DiGraphSet object.
         """
         graph = []
+        names = vertex_names(DiGraphSet._objtable.universe())
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
-            graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+            graph.append((names[e[0]], names[e[1]]))
 
         in_dc = None
         if in_degree_constraints is not None:
@@ -2020,11 +2019,11 @@ class DiGraphSet(object):
                 if v not in DiGraphSet._vertices:
                     raise KeyError(v)
                 if isinstance(r, int):
-                    in_dc[pickle.dumps(v, protocol=0)] = (r, r + 1, 1)
+                    in_dc[names[v]] = (r, r + 1, 1)
                 elif len(r) == 1:
-                    in_dc[pickle.dumps(v, protocol=0)] = (r[0], r[0] + 1, 1)
+                    in_dc[names[v]] = (r[0], r[0] + 1, 1)
                 else:
-                    in_dc[pickle.dumps(v, protocol=0)] = (
+                    in_dc[names[v]] = (
                         r[0], r[-1] + 1, r[1] - r[0])
 
         out_dc = None
@@ -2034,11 +2033,11 @@ class DiGraphSet(object):
                 if v not in DiGraphSet._vertices:
                     raise KeyError(v)
                 if isinstance(r, int):
-                    out_dc[pickle.dumps(v, protocol=0)] = (r, r + 1, 1)
+                    out_dc[names[v]] = (r, r + 1, 1)
                 elif len(r) == 1:
-                    out_dc[pickle.dumps(v, protocol=0)] = (r[0], r[0] + 1, 1)
+                    out_dc[names[v]] = (r[0], r[0] + 1, 1)
                 else:
-                    out_dc[pickle.dumps(v, protocol=0)] = (
+                    out_dc[names[v]] = (
                         r[0], r[-1] + 1, r[1] - r[0])
 
         ss = None if graphset is None else graphset._ss
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index a684ec0..f1c9a70 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -23,9 +23,8 @@
 from functools import partial
 from builtins import range, int
 import _graphillion
-from graphillion.universe import Universe
+from graphillion.universe import Universe, vertex_names
 from graphillion.setset_base import setset_base
-import pickle
 
 class GraphSet(object):
     """Represents and manipulates a set of graphs.
@@ -1922,9 +1921,10 @@ class GraphSet(object):
 
         """
         graph = []
+        names = vertex_names(Universe.e_objtable.universe())
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
-            graph.append((pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+            graph.append((names[e[0]], names[e[1]]))
 
         vg = []
         nc = 0
@@ -1936,7 +1936,7 @@ class GraphSet(object):
                     for v in vs:
                         if v not in Universe.vertices:
                             raise KeyError(v)
-                    vg.append([pickle.dumps(v, protocol=0) for v in vs])
+                    vg.append([names[v] for v in vs])
         if not vg and nc == 0:
             nc = -1
 
@@ -1947,11 +1947,11 @@ class GraphSet(object):
                 if v not in Universe.vertices:
                     raise KeyError(v)
                 if isinstance(r, int):
-                    dc[pickle.dumps(v, protocol=0)] = (r, r + 1, 1)
+                    dc[names[v]] = (r, r + 1, 1)
                 elif len(r) == 1:
-                    dc[pickle.dumps(v, protocol=0)] = (r[0], r[0] + 1, 1)
+                    dc[names[v]] = (r[0], r[0] + 1, 1)
                 else:
-                    dc[pickle.dumps(v, protocol=0)] = (r[0], r[-1] + 1, r[1] - r[0])
+                    dc[names[v]] = (r[0], r[-1] + 1, r[1] - r[0])
 
         ne = None
         if num_edges is not None:
@@ -1971,8 +1971,8 @@ class GraphSet(object):
             for c in linear_constraints:
                 expr = []
                 for we in c[0]:
-                    u = pickle.dumps(we[0], protocol=0)
-                    v = pickle.dumps(we[1], protocol=0)
+                    u = names[we[0]]
+                    v = names[we[1]]
                     w = float(we[2]) if len(we) >= 3 else 1.0
                     expr.append((u, v, w))
                 min = float(c[1][0])
@@ -2477,9 +2477,10 @@ class GraphSet(object):
         """
 
         graph = []
+        names = vertex_names(Universe.e_objtable.universe())
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
-            graph.append((pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+            graph.append((names[e[0]], names[e[1]]))
 
         if degree == None:
             degree = (1, len(Universe.vertices))
@@ -2508,10 +2509,10 @@ class GraphSet(object):
           A new GraphSet object.
         """
         graph = []
+        names = vertex_names(Universe.e_objtable.universe())
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
-            graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+            graph.append((names[e[0]], names[e[1]]))
 
         odd_gs = GraphSet(_graphillion._odd_edges_subgraphs(graph))
         odd_cycle_gs = odd_gs.cycles()
@@ -2668,10 +2669,10 @@ class GraphSet(object):
             A new GraphSet object.
         """
         graph = []
+        names = vertex_names(Universe.e_objtable.universe())
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
-            graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+            graph.append((names[e[0]], names[e[1]]))
 
         ss = None if graphset is None else graphset._ss
         ss = _graphillion._degree_distribution_graphs(graph, deg_dist, is_connected, ss)
@@ -2712,10 +2713,10 @@ class GraphSet(object):
           A new GraphSet object.
         """
         graph = []
+        names = vertex_names(Universe.e_objtable.universe())
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
-            graph.append(
-              (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+            graph.append((names[e[0]], names[e[1]]))
 
         ss = _graphillion._partitions(
           graph=graph, num_comp_lb=num_comp_lb, num_comp_ub=num_comp_ub)
@@ -2748,10 +2749,10 @@ class GraphSet(object):
           A new GraphSet object.
         """
         graph = []
+        names = vertex_names(Universe.e_objtable.universe())
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
-            graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+            graph.append((names[e[0]], names[e[1]]))
 
         wl = None
         if weight_list is not None:
@@ -2759,7 +2760,7 @@ class GraphSet(object):
             for v, r in weight_list.items():
                 if v not in Universe.vertices:
                     raise KeyError(v)
-                wl[pickle.dumps(v, protocol=0)] = r
+                wl[names[v]] = r
 
         ss = _graphillion._balanced_partitions(
             graph=graph, weight_list=wl, ratio=ratio, lower=lower, upper=upper, num_comps=num_comps)
@@ -2778,10 +2779,10 @@ class GraphSet(object):
           A new GraphSet Object.
         """
         graph = []
+        names = vertex_names(Universe.e_objtable.universe())
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
-            graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+            graph.append((names[e[0]], names[e[1]]))
 
         ss = _graphillion._induced_graphs(graph=graph)
         return GraphSet(ss)
@@ -2808,10 +2809,10 @@ class GraphSet(object):
           A new GraphSet Object.
         """
         graph = []
+        names = vertex_names(Universe.e_objtable.universe())
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
-            graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+            graph.append((names[e[0]], names[e[1]]))
 
         wl = None
         if weight_list is not None:
@@ -2819,7 +2820,7 @@ class GraphSet(object):
             for v, r in weight_list.items():
                 if v not in Universe.vertices:
                     raise KeyError(v)
-                wl[pickle.dumps(v, protocol=0)] = r
+                wl[names[v]] = r
 
         ss = _graphillion._weighted_induced_graphs(graph=graph, weight_list=wl, lower=lower, upper=upper)
         return GraphSet(ss)
@@ -2835,10 +2836,10 @@ class GraphSet(object):
             A new GraphSet object.
         """
         graph = []
+        names = vertex_names(Universe.e_objtable.universe())
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
-            graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+            graph.append((names[e[0]], names[e[1]]))
 
         ss = None if forbidden_graphset is None else forbidden_graphset._ss
 
@@ -2873,17 +2874,17 @@ class GraphSet(object):
           KeyError: If a given edge is not found in the universe.
         """
         graph = []
+        names = vertex_names(Universe.e_objtable.universe())
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
-            graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+            graph.append((names[e[0]], names[e[1]]))
 
         terms = []
         if terminals is not None:
             for v in terminals:
                 if v not in Universe.vertices:
                     raise KeyError(v)
-                terms.append(pickle.dumps(v, protocol=0))
+                terms.append(names[v])
 
         #ps = [1.0] * (_graphillion._num_elems())
         ps = [1.0] * (Universe.e_objtable.num_elems())
diff --git a/graphillion/setset_base.py b/graphillion/setset_base.py
index 802847c..33e21d9 100644
--- a/graphillion/setset_base.py
+++ b/graphillion/setset_base.py
@@ -22,6 +22,7 @@
 
 from builtins import range
 import _graphillion
+from graphillion.universe import vertex_names
 
 
 class setset_base(_graphillion.setset):
@@ -200,17 +201,25 @@ class setset_base(_graphillion.setset):
         return _graphillion.setset.remove_add_some_elements(self, objtable.num_elems())
 
     def to_vertexsetset(self, objtable):
-        edges_from_top = [list(e) for e in objtable.int2obj[1:]]
+        edges_from_top = setset_base._edges_from_top(objtable)
         return _graphillion.setset.to_vertexsetset(self, edges_from_top)
 
     def to_edgevertexsetset(self, objtable):
-        edges_from_top = [list(e) for e in objtable.int2obj[1:]]
+        edges_from_top = setset_base._edges_from_top(objtable)
         return _graphillion.setset.to_edgevertexsetset(self, edges_from_top)
 
     @staticmethod
     def get_vertices_from_top(objtable):
-        edges_from_top = [list(e) for e in objtable.int2obj[1:]]
-        return _graphillion._get_vertices_from_top(edges_from_top)
+        vertices = {repr(name): v for v, name
+                    in vertex_names(objtable.universe()).items()}
+        edges_from_top = setset_base._edges_from_top(objtable)
+        return [vertices[name] for name
+                in _graphillion._get_vertices_from_top(edges_from_top)]
+
+    @staticmethod
+    def _edges_from_top(objtable):
+        names = vertex_names(objtable.universe())
+        return [[names[e[0]], names[e[1]]] for e in objtable.universe()]
 
     @staticmethod
     def load(fp):
diff --git a/graphillion/universe.py b/graphillion/universe.py
index a2ae011..be35508 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -86,6 +86,24 @@ class ObjectTable:
             return ret
         raise TypeError(obj)
 
+def vertex_names(edges):
+    """Returns names to pass the endpoints of `edges` to C++ functions by.
+
+    Equal vertices have the same name, whatever their types and internal
+    structures are.
+
+    Args:
+      edges: A list of edges.
+
+    Returns:
+      A dict from the vertices to their names.
+    """
+    names = {}
+    for e in edges:
+        for v in e[:2]:
+            names.setdefault(v, b'%d' % len(names))
+    return names
+
 def keep_on_error(owner, *names):
     """Decorates a function that replaces class attributes so that they
     keep their values if the function raises an exception.
@@ -277,8 +295,7 @@ class Universe:
             Universe.e_objtable.add_elem(e)
 
         from graphillion.setset_base import setset_base
-        name2vertex = {repr(v): v for v in Universe.vertices}
-        vertex_universe = [name2vertex[v] for v in setset_base.get_vertices_from_top(Universe.e_objtable)]
+        vertex_universe = setset_base.get_vertices_from_top(Universe.e_objtable)
         Universe.set_vertex_universe(vertex_universe, weights, tuple_vertex=True)
 
         Universe._set_ev_universe(sorted_edges)
-- 
2.43.0


From db6d8982ed198f06a4266aabfcde2d4d94008966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:17 +0000
Subject: [PATCH 45/69] fix: an unknown edge in a linear constraint ended the
 process

---
 graphillion/graphset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index f1c9a70..881c5aa 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -1971,8 +1971,8 @@ class GraphSet(object):
             for c in linear_constraints:
                 expr = []
                 for we in c[0]:
-                    u = names[we[0]]
-                    v = names[we[1]]
+                    e = GraphSet._conv_edge(tuple(we[:2]))
+                    u, v = names[e[0]], names[e[1]]
                     w = float(we[2]) if len(we) >= 3 else 1.0
                     expr.append((u, v, w))
                 min = float(c[1][0])
-- 
2.43.0


From fb718bf8d508c688b37ca92351e280797760a103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:15 +0000
Subject: [PATCH 46/69] fix: including, excluding, included and
 bipartite_graphs failed with graph converters

---
 graphillion/digraphset.py | 10 +++++-----
 graphillion/graphset.py   | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 14605d0..57532d6 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -1360,11 +1360,11 @@ class DiGraphSet(object):
         if type == 'digraphset':
             return DiGraphSet(self._ss.supersets(DiGraphSet._objtable, obj._ss))
         elif type == 'graph':
-            return self.including(DiGraphSet([obj]))
+            return self.including(DiGraphSet(setset_base(DiGraphSet._objtable, [obj])))
         elif type == 'edge':
             return DiGraphSet(self._ss.supersets(DiGraphSet._objtable, obj))
         else:
-            return self.including(DiGraphSet([set([e]) for e in obj]))
+            return self.including(DiGraphSet(setset_base(DiGraphSet._objtable, [set([e]) for e in obj])))
 
     def excluding(self, obj):
         """Returns a new DiGraphSet that doesn't include `obj`.
@@ -1404,11 +1404,11 @@ class DiGraphSet(object):
             #            return DiGraphSet(self._ss.non_supersets(obj._ss))  # correct but slow
             return self - self.including(obj)
         elif type == 'graph':
-            return self.excluding(DiGraphSet([obj]))
+            return self.excluding(DiGraphSet(setset_base(DiGraphSet._objtable, [obj])))
         elif type == 'edge':
             return DiGraphSet(self._ss.non_supersets(DiGraphSet._objtable, obj))
         else:
-            return self.excluding(DiGraphSet([set([e]) for e in obj]))
+            return self.excluding(DiGraphSet(setset_base(DiGraphSet._objtable, [set([e]) for e in obj])))
 
     def included(self, obj):
         """Returns a new DiGraphSet with subgraphs of a digraph in `obj`.
@@ -1438,7 +1438,7 @@ class DiGraphSet(object):
         if type == 'digraphset':
             return DiGraphSet(self._ss.subsets(obj._ss))
         elif type == 'graph':
-            return self.included(DiGraphSet([obj]))
+            return self.included(DiGraphSet(setset_base(DiGraphSet._objtable, [obj])))
         else:
             raise TypeError(obj)
 
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 881c5aa..390a6e8 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -1373,11 +1373,11 @@ class GraphSet(object):
         if type == 'graphset':
             return GraphSet(self._ss.supersets(Universe.e_objtable, obj._ss))
         elif type == 'graph':
-            return self.including(GraphSet([obj]))
+            return self.including(GraphSet(setset_base(Universe.e_objtable, [obj])))
         elif type == 'edge':
             return GraphSet(self._ss.supersets(Universe.e_objtable, obj))
         else:
-            return self.including(GraphSet([set([e]) for e in obj]))
+            return self.including(GraphSet(setset_base(Universe.e_objtable, [set([e]) for e in obj])))
 
     def excluding(self, obj):
         """Returns a new GraphSet that doesn't include `obj`.
@@ -1417,11 +1417,11 @@ class GraphSet(object):
 #            return GraphSet(self._ss.non_supersets(Universe.e_objtable, obj._ss))  # correct but slow
             return self - self.including(obj)
         elif type == 'graph':
-            return self.excluding(GraphSet([obj]))
+            return self.excluding(GraphSet(setset_base(Universe.e_objtable, [obj])))
         elif type == 'edge':
             return GraphSet(self._ss.non_supersets(Universe.e_objtable, obj))
         else:
-            return self.excluding(GraphSet([set([e]) for e in obj]))
+            return self.excluding(GraphSet(setset_base(Universe.e_objtable, [set([e]) for e in obj])))
 
     def included(self, obj):
         """Returns a new GraphSet with subgraphs of a graph in `obj`.
@@ -1451,7 +1451,7 @@ class GraphSet(object):
         if type == 'graphset':
             return GraphSet(self._ss.subsets(obj._ss))
         elif type == 'graph':
-            return self.included(GraphSet([obj]))
+            return self.included(GraphSet(setset_base(Universe.e_objtable, [obj])))
         else:
             raise TypeError(obj)
 
@@ -2525,7 +2525,7 @@ class GraphSet(object):
         if is_connected:
             # The empty set is a bipartite graph.
             # It is selected only if it belongs to the given graphset.
-            return gs.graphs(vertex_groups=[[]]) | (gs & GraphSet([[]]))
+            return gs.graphs(vertex_groups=[[]]) | gs.graph_size(0)
         else:
             return gs
 
-- 
2.43.0


From 0f2b0fa2c552259ce8849057c0ee7c64271a419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 47/69] fix: VertexSetSet.set_universe() without arguments
 ended the process

---
 graphillion/vertex_setset.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/graphillion/vertex_setset.py b/graphillion/vertex_setset.py
index d7261ac..a8e1e34 100644
--- a/graphillion/vertex_setset.py
+++ b/graphillion/vertex_setset.py
@@ -1788,10 +1788,9 @@ class VertexSetSet(object):
           universe()
         """
         if universe is None: # adopt the vertex set of GraphSet's underlying graph
-            print('In graphillion 2.0+, you should not call this method. '
+            raise TypeError('In graphillion 2.0+, you should not call this method. '
             'The vertex universe is automatically set when the universe '
-            'of edges is set using the set_universe method.', file = sys.stderr)
-            exit(1)
+            'of edges is set using the set_universe method.')
         Universe.set_vertex_universe(universe)
 
     @staticmethod
-- 
2.43.0


From b94c67a4b988abe6a2cd0effee73e27e85cfe857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 48/69] fix: refused setset constructors and additions left new
 elements in the universe

---
 graphillion/setset_base.py | 10 ++++++++++
 graphillion/universe.py    | 13 ++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/graphillion/setset_base.py b/graphillion/setset_base.py
index 33e21d9..620c579 100644
--- a/graphillion/setset_base.py
+++ b/graphillion/setset_base.py
@@ -33,6 +33,16 @@ class setset_base(_graphillion.setset):
     """
 
     def __init__(self, objtable, setset_or_constraints=None):
+        # A refused constructor must not leave new elements in the universe.
+        n = 0 if objtable is None else objtable.num_elems()
+        try:
+            self._init(objtable, setset_or_constraints)
+        except Exception:
+            if objtable is not None:
+                objtable.truncate(n)
+            raise
+
+    def _init(self, objtable, setset_or_constraints):
         obj = setset_or_constraints
         if obj is None:
             obj = []
diff --git a/graphillion/universe.py b/graphillion/universe.py
index be35508..e3d65cd 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -60,6 +60,12 @@ class ObjectTable:
         assert self.int2obj[i] == elem
         assert self.obj2int[elem] == i
 
+    # Forgets the elements added after the first n ones.
+    def truncate(self, n):
+        for elem in self.int2obj[n + 1:]:
+            del self.obj2int[elem]
+        del self.int2obj[n + 1:]
+
     def conv_elem(self, elem):
         if elem not in self.obj2int:
             self.add_elem(elem)
@@ -67,7 +73,12 @@ class ObjectTable:
 
     def conv_arg(self, obj):
         if isinstance(obj, (set, frozenset)):  # a set
-            return set([self.conv_elem(e) for e in obj])
+            n = self.num_elems()
+            try:
+                return set([self.conv_elem(e) for e in obj])
+            except Exception:
+                self.truncate(n)
+                raise
         else:  # an element
             return self.conv_elem(obj)
 
-- 
2.43.0


From 76401f371ccdd5a76ec7c626071b10b482bb049a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 49/69] fix: enumerations from a graphset of another class
 never ended

---
 graphillion/digraphset.py | 20 ++++++++++++++------
 graphillion/graphset.py   | 16 ++++++++++++----
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 57532d6..0ce41ad 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -144,6 +144,14 @@ class DiGraphSet(object):
             setattr(self, method, partial(
                 getattr(DiGraphSet, method), graphset=self))
 
+    @staticmethod
+    def _conv_graphset(graphset):
+        if graphset is None:
+            return None
+        if not isinstance(graphset, DiGraphSet):
+            raise TypeError('not DiGraphSet: {}'.format(type(graphset).__name__))
+        return graphset._ss
+
     def copy(self):
         """Returns a new DiGraphSet with a shallow copy of `self`.
 
@@ -1833,7 +1841,7 @@ class DiGraphSet(object):
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append((names[e[0]], names[e[1]]))
 
-        ss = None if graphset is None else graphset._ss
+        ss = DiGraphSet._conv_graphset(graphset)
 
         ss = _graphillion._directed_cycles(graph=graph, search_space=ss)
         return DiGraphSet(ss)
@@ -1859,7 +1867,7 @@ class DiGraphSet(object):
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append((names[e[0]], names[e[1]]))
 
-        ss = None if graphset is None else graphset._ss
+        ss = DiGraphSet._conv_graphset(graphset)
 
         ss = _graphillion._directed_hamiltonian_cycles(
             graph=graph, search_space=ss)
@@ -1896,7 +1904,7 @@ class DiGraphSet(object):
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append((names[e[0]], names[e[1]]))
 
-        ss = None if graphset is None else graphset._ss
+        ss = DiGraphSet._conv_graphset(graphset)
 
         assert(s in DiGraphSet._vertices and t in DiGraphSet._vertices)
 
@@ -1938,7 +1946,7 @@ class DiGraphSet(object):
                 assert root in DiGraphSet._vertices
                 rs.append(names[root])
 
-        ss = None if graphset is None else graphset._ss
+        ss = DiGraphSet._conv_graphset(graphset)
 
         ss = _graphillion._rooted_forests(
             graph=graph, roots=rs, is_spanning=is_spanning, search_space=ss)
@@ -1973,7 +1981,7 @@ class DiGraphSet(object):
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append((names[e[0]], names[e[1]]))
 
-        ss = None if graphset is None else graphset._ss
+        ss = DiGraphSet._conv_graphset(graphset)
 
         ss = _graphillion._rooted_trees(
             graph=graph, root=names[root], is_spanning=is_spanning, search_space=ss)
@@ -2040,7 +2048,7 @@ class DiGraphSet(object):
                     out_dc[names[v]] = (
                         r[0], r[-1] + 1, r[1] - r[0])
 
-        ss = None if graphset is None else graphset._ss
+        ss = DiGraphSet._conv_graphset(graphset)
 
         ss = _graphillion._directed_graphs(
             graph=graph, in_degree_constraints=in_dc, out_degree_constraints=out_dc, search_space=ss)
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 390a6e8..e720016 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -144,6 +144,14 @@ class GraphSet(object):
         for method in methods:
             setattr(self, method, partial(getattr(GraphSet, method), graphset=self))
 
+    @staticmethod
+    def _conv_graphset(graphset):
+        if graphset is None:
+            return None
+        if not isinstance(graphset, GraphSet):
+            raise TypeError('not GraphSet: {}'.format(type(graphset).__name__))
+        return graphset._ss
+
     def copy(self):
         """Returns a new GraphSet with a shallow copy of `self`.
 
@@ -1963,7 +1971,7 @@ class GraphSet(object):
                 ne = (num_edges[0], num_edges[-1] + 1,
                       num_edges[1] - num_edges[0])
 
-        ss = None if graphset is None else graphset._ss
+        ss = GraphSet._conv_graphset(graphset)
 
         lc = None
         if linear_constraints is not None:
@@ -2485,7 +2493,7 @@ class GraphSet(object):
         if degree == None:
             degree = (1, len(Universe.vertices))
 
-        ss = None if graphset is None else graphset._ss
+        ss = GraphSet._conv_graphset(graphset)
 
         ss = _graphillion._regular_graphs(graph=graph,
                                           degree=degree,
@@ -2674,7 +2682,7 @@ class GraphSet(object):
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append((names[e[0]], names[e[1]]))
 
-        ss = None if graphset is None else graphset._ss
+        ss = GraphSet._conv_graphset(graphset)
         ss = _graphillion._degree_distribution_graphs(graph, deg_dist, is_connected, ss)
         return GraphSet(ss)
 
@@ -2841,7 +2849,7 @@ class GraphSet(object):
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append((names[e[0]], names[e[1]]))
 
-        ss = None if forbidden_graphset is None else forbidden_graphset._ss
+        ss = GraphSet._conv_graphset(forbidden_graphset)
 
         ss = _graphillion._forbidden_induced_subgraphs(graph=graph, graphset=ss)
         return GraphSet(ss)
-- 
2.43.0


From 50d0c0f75dec0955243617ee1363b7538e093900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 50/69] fix: show_messages ignored the error of its argument

---
 src/pygraphillion.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index c3651eb..93badb9 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -2009,7 +2009,9 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
 }
 
 static PyObject* graphset_show_messages(PySetsetObject* self, PyObject* obj) {
-  int ret = graphillion::ShowMessages(PyObject_IsTrue(obj));
+  int flag = PyObject_IsTrue(obj);
+  if (flag == -1) return NULL;
+  int ret = graphillion::ShowMessages(flag);
   if (ret) Py_RETURN_TRUE;
   else Py_RETURN_FALSE;
 }
-- 
2.43.0


From 6c8e448291b28a28872f9d412150fcfc271181f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 51/69] fix: enumerations from a graphset with elements beyond
 the universe never ended

---
 src/subsetting/spec/SapporoZdd.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/subsetting/spec/SapporoZdd.hpp b/src/subsetting/spec/SapporoZdd.hpp
index 105bdb6..3e309a3 100644
--- a/src/subsetting/spec/SapporoZdd.hpp
+++ b/src/subsetting/spec/SapporoZdd.hpp
@@ -67,7 +67,7 @@ public:
         if (level >= 1) return level;
 
         while (BDD_LevOfVar(f.Top()) >= 1) {
-            f = f.OffSet(BDD_VarOfLev(f.Top()));
+            f = f.OffSet(f.Top());
         }
         return (f == 1) ? -1 : 0;
     }
@@ -81,7 +81,7 @@ public:
         if (nextLevel >= 1) return nextLevel;
 
         while (BDD_LevOfVar(f.Top()) >= 1) {
-            f = f.OffSet(BDD_VarOfLev(f.Top()));
+            f = f.OffSet(f.Top());
         }
         return (f == 1) ? -1 : 0;
     }
-- 
2.43.0


From 5070f79d8a040f66f2a7a2e24da5ce0b8b9438c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 52/69] fix: weighted iterators on a set with elements beyond
 the universe ended the process

---
 src/graphillion/zdd.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 94f5391..a2b1c25 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -575,7 +575,8 @@ void algo_b(zdd_t f, const vector<double>& w, vector<bool>* x) {
   set<word_t> visited;
   elem_t max_elem = 0;
   sort_zdd(f, &stacks, &visited, &max_elem);
-  assert(w.size() > static_cast<size_t>(max_elem));
+  if (w.size() <= static_cast<size_t>(max_elem))
+    throw std::out_of_range("an element has no weight");
   x->clear();
   x->resize(max_elem + 1, false);
   map<word_t, bool> t;
-- 
2.43.0


From 829628a1de3b019f3609f446a6fa58fe714d5b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 53/69] fix: probability read beyond the probabilities of a set
 with elements beyond the universe

---
 src/graphillion/setset.cc | 2 +-
 src/graphillion/zdd.cc    | 6 +++---
 src/pygraphillion.cc      | 9 ++++++++-
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/graphillion/setset.cc b/src/graphillion/setset.cc
index f019b5a..7917561 100644
--- a/src/graphillion/setset.cc
+++ b/src/graphillion/setset.cc
@@ -504,7 +504,7 @@ double setset::probability(const vector<double>& probabilities, elem_t num_elems
   } else if (this->zdd_ == top()) {
     double p = 1;
     for (int e = 1; e <= num_elems_a; ++e)
-      p *= 1 - probabilities[e];
+      p *= 1 - probabilities.at(e);
     return p;
   } else {
     map<word_t, double> cache;
diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index a2b1c25..2010e2d 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -629,7 +629,7 @@ static double skip_probability(elem_t e, zdd_t f,
                                elem_t num_elems_a) {
   double p = 1;
   for (int i = e; i < (is_term(f) ? num_elems_a + 1 : elem(f)); ++i)
-    p *= 1 - probabilities[i];
+    p *= 1 - probabilities.at(i);
   return p;
 }
 
@@ -641,9 +641,9 @@ double probability(elem_t e, zdd_t f, const vector<double>& probabilities,
     cache[id(l)] = probability(elem(l), l, probabilities, cache, num_elems_a);
   if (cache.find(id(h)) == cache.end())
     cache[id(h)] = probability(elem(h), h, probabilities, cache, num_elems_a);
-  double pl = (1 - probabilities[elem(f)]) *
+  double pl = (1 - probabilities.at(elem(f))) *
       skip_probability(elem(f) + 1, l, probabilities, num_elems_a) * cache.at(id(l));
-  double ph = probabilities[elem(f)] *
+  double ph = probabilities.at(elem(f)) *
       skip_probability(elem(f) + 1, h, probabilities, num_elems_a) * cache.at(id(h));
   return skip_probability(e, f, probabilities, num_elems_a) * (pl + ph);
 }
diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 93badb9..2bc8e3b 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -1107,7 +1107,14 @@ static PyObject* setset_probability(PySetsetObject* self,
     Py_DECREF(eo);
   }
   Py_DECREF(i);
-  return PyFloat_FromDouble(self->ss->probability(p, num_elems_a));
+  // error occurs in PyIter_Next
+  if (PyErr_Occurred()) return NULL;
+  try {
+    return PyFloat_FromDouble(self->ss->probability(p, num_elems_a));
+  } catch (const std::exception& e) {
+    PyErr_SetString(PyExc_RuntimeError, e.what());
+    return NULL;
+  }
 }
 
 static PyObject* setset_dump(PySetsetObject* self, PyObject* obj) {
-- 
2.43.0


From 1a1b2e1753845a9af40d8d0ca05e7b675e0405d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 54/69] fix: probability accepted NaN

---
 graphillion/setset_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/setset_base.py b/graphillion/setset_base.py
index 620c579..4428f71 100644
--- a/graphillion/setset_base.py
+++ b/graphillion/setset_base.py
@@ -189,7 +189,7 @@ class setset_base(_graphillion.setset):
         for e, p in probabilities.items():
             i = objtable.obj2int[e]
             ps[i] = p
-        assert len([p for p in ps[1:] if p < 0 or 1 < p]) == 0
+        assert len([p for p in ps[1:] if not 0 <= p <= 1]) == 0
         return _graphillion.setset.probability(self, objtable.num_elems(), ps)
 
     def cost_le(self, objtable, costs, cost_bound):
-- 
2.43.0


From ce1c181a6458d46d08f30c6939d52e88cc02ade3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:16 +0000
Subject: [PATCH 55/69] fix: b_matchings and f_factors ignored unknown vertices

---
 graphillion/graphset.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index e720016..2943765 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2369,6 +2369,10 @@ class GraphSet(object):
         See Also:
           graphs()
         """
+        for v in b:
+            if v not in Universe.vertices:
+                raise KeyError(v)
+
         dc = {}
         for v in Universe.vertices:
             if v in b:
@@ -2438,6 +2442,10 @@ class GraphSet(object):
         See Also:
           graphs()
         """
+        for v in f:
+            if v not in Universe.vertices:
+                raise KeyError(v)
+
         dc = {}
         for v in Universe.vertices:
             if v in f:
-- 
2.43.0


From 9d2e688f182e148de3cce0ee32caf5a2ff460f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 56/69] fix: a degree list of equal numbers crashed and
 decreasing ranges allowed nothing

---
 src/pygraphillion.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 2bc8e3b..dd76209 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -1884,6 +1884,10 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
         PyErr_SetString(PyExc_ValueError, "degree constraints must have at least 3 values");
         return NULL;
       }
+      if (r[2] <= 0) {
+        PyErr_SetString(PyExc_ValueError, "step of degree constraints must be positive");
+        return NULL;
+      }
       (*degree_constraints)[vertex] = Range(r[0], r[1], r[2]);
     }
   }
@@ -1920,6 +1924,10 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
       PyErr_SetString(PyExc_ValueError, "num_edges must have at least 3 values");
       return NULL;
     }
+    if (r[2] <= 0) {
+      PyErr_SetString(PyExc_ValueError, "step of num_edges must be positive");
+      return NULL;
+    }
     *num_edges = Range(r[0], r[1], r[2]);
   }
 
@@ -2715,6 +2723,10 @@ bool input_vertex_to_range_map(
       PyErr_SetString(PyExc_ValueError, "range must contain exactly 3 integers");
       return false;
     }
+    if (r[2] <= 0) {
+      PyErr_SetString(PyExc_ValueError, "step of range must be positive");
+      return false;
+    }
     mp[vertex] = Range(r[0], r[1], r[2]);
   }
   return true;
-- 
2.43.0


From 52693c926a6edb2d9f1a3521edea9c9f1610c225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:40 +0000
Subject: [PATCH 57/69] fix: linear and directed degree constraints leaked
 references

---
 src/pygraphillion.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index dd76209..fcada0d 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -1982,6 +1982,7 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
         PyObject* wo = PySequence_GetItem(eo, 2);
         if (wo == NULL || !PyFloat_Check(wo)) return NULL;
         double w = PyFloat_AsDouble(wo);*/
+        Py_DECREF(eo);
         expr.push_back(make_pair(make_pair(u, v), w));
       }
       Py_DECREF(j);
@@ -2709,6 +2710,7 @@ bool input_vertex_to_range_map(
         return false;
       }
       long value = int_from_long(io);
+      Py_DECREF(io);
       if (PyErr_Occurred()) {
         Py_DECREF(i);
         return false;
-- 
2.43.0


From c10db31af09c59a6258bca07490fbded0e77f5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:27 +0000
Subject: [PATCH 58/69] fix: dump and load left a descriptor open when the
 file's mode did not fit

---
 src/pygraphillion.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index fcada0d..8fefbb0 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -1122,9 +1122,11 @@ static PyObject* setset_dump(PySetsetObject* self, PyObject* obj) {
   if (fd == -1) {
     return NULL;
   }
-  FILE* fp = fdopen(dup(fd), "w");
+  int dup_fd = dup(fd);
+  FILE* fp = fdopen(dup_fd, "w");
   if (fp == NULL) {
     PyErr_SetFromErrno(PyExc_OSError);
+    if (dup_fd != -1) close(dup_fd);
     return NULL;
   }
   // Only the output runs without the GIL.
@@ -1154,9 +1156,11 @@ static PyObject* setset_load(PySetsetObject* self, PyObject* obj) {
   if (fd == -1) {
     return NULL;
   }
-  FILE* fp = fdopen(dup(fd), "r");
+  int dup_fd = dup(fd);
+  FILE* fp = fdopen(dup_fd, "r");
   if (fp == NULL) {
     PyErr_SetFromErrno(PyExc_OSError);
+    if (dup_fd != -1) close(dup_fd);
     return NULL;
   }
   PySetsetObject* ret = reinterpret_cast<PySetsetObject*>(
@@ -1226,9 +1230,11 @@ static PyObject* setset_enum(PySetsetObject* self, PyObject* obj) {
   if (fd == -1) {
     return NULL;
   }
-  FILE* fp = fdopen(dup(fd), "w");
+  int dup_fd = dup(fd);
+  FILE* fp = fdopen(dup_fd, "w");
   if (fp == NULL) {
     PyErr_SetFromErrno(PyExc_OSError);
+    if (dup_fd != -1) close(dup_fd);
     return NULL;
   }
   string name = Py_TYPE(self)->tp_name;
-- 
2.43.0


From c263d17e74b9d977cf594d7abedd2170b0e6bcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:27 +0000
Subject: [PATCH 59/69] fix: vertex universes kept the weights of former
 vertices

---
 graphillion/universe.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graphillion/universe.py b/graphillion/universe.py
index e3d65cd..01db70a 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -359,6 +359,11 @@ class Universe:
         if vertex_num != len(set(universe)):
             raise ValueError("duplicated elements found")
 
+        for vertex in Universe.v_objtable.universe():
+            if (vertex not in Universe.e_objtable.obj2int
+                and vertex not in Universe.ev_objtable.obj2int):
+                Universe.weights.pop(vertex, None)
+
         Universe.v_objtable = ObjectTable()
         if not Universe.weights:
             Universe.weights = {}
-- 
2.43.0


From f3357075ddb75c2fa67498e234562b792e63770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 60/69] fix: search spaces are projected onto the universe
 before enumerations

---
 .../DegreeDistributionGraphs.cc               |  3 ++-
 .../ForbiddenInducedSubgraphs.cc              |  3 ++-
 src/graphillion/graphset.cc                   | 22 +++++++++++++------
 src/graphillion/regular/RegularGraphs.cc      |  3 ++-
 src/graphillion/setset.cc                     |  4 ++--
 src/graphillion/zdd.cc                        | 11 ++++++++++
 src/graphillion/zdd.h                         |  2 ++
 src/subsetting/spec/SapporoZdd.hpp            |  4 ++--
 8 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/src/graphillion/degree_distribution/DegreeDistributionGraphs.cc b/src/graphillion/degree_distribution/DegreeDistributionGraphs.cc
index ffe2718..51e20b2 100644
--- a/src/graphillion/degree_distribution/DegreeDistributionGraphs.cc
+++ b/src/graphillion/degree_distribution/DegreeDistributionGraphs.cc
@@ -1,6 +1,7 @@
 #include "DegreeDistributionSpec.h"
 
 #include "graphillion/setset.h"
+#include "graphillion/zdd.h"
 #include "graphillion/graphset.h"
 #include "subsetting/util/IntSubset.hpp"
 #include "subsetting/eval/ToZBDD.hpp"
@@ -21,7 +22,7 @@ constructDegreeDistributionGraphs(const tdzdd::Graph &g,
 
   tdzdd::DdStructure<2> dd;
   if (search_space != NULL) {
-    tdzdd::SapporoZdd f(*search_space, offset);
+    tdzdd::SapporoZdd f(graphillion::within(*search_space, g.edgeSize()), offset);
     //dd = tdzdd::DdStructure<2>(f, use_mp);
     dd = tdzdd::DdStructure<2>(f, false); // not use multi processors because
                                           // SAPPOROBDDD is not thread safe
diff --git a/src/graphillion/forbidden_induced/ForbiddenInducedSubgraphs.cc b/src/graphillion/forbidden_induced/ForbiddenInducedSubgraphs.cc
index e5afe7c..f2fb56c 100644
--- a/src/graphillion/forbidden_induced/ForbiddenInducedSubgraphs.cc
+++ b/src/graphillion/forbidden_induced/ForbiddenInducedSubgraphs.cc
@@ -9,6 +9,7 @@
 #include "subsetting/spec/SapporoZdd.hpp"
 
 #include "graphillion/setset.h"
+#include "graphillion/zdd.h"
 
 ZBDD constructForbiddenInducedSubgraphs(const tdzdd::Graph &graph, const tdzdd::DdStructure<2>& dd) {
   const int m = graph.edgeSize();
@@ -54,7 +55,7 @@ setset SearchForbiddenInducedSubgraphs(const std::vector<edge_t> &edges, setset*
 
   int offset =
       graphillion::setset::max_elem() - g.edgeSize();
-  tdzdd::SapporoZdd szdd(ss->zdd_, offset);
+  tdzdd::SapporoZdd szdd(graphillion::within(ss->zdd_, g.edgeSize()), offset);
   auto new_dd = constructForbiddenInducedSubgraphs(g,
     tdzdd::DdStructure<2>(szdd));
   return setset(new_dd);
diff --git a/src/graphillion/graphset.cc b/src/graphillion/graphset.cc
index a561873..4865e5a 100644
--- a/src/graphillion/graphset.cc
+++ b/src/graphillion/graphset.cc
@@ -40,6 +40,7 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #include "subsetting/util/Graph.hpp"
 
 #include "graphillion/setset.h"
+#include "graphillion/zdd.h"
 #include "graphillion/digraphs/FrontierDegreeSpecified.hpp"
 #include "graphillion/digraphs/FrontierDirectedHamiltonianCycle.hpp"
 #include "graphillion/digraphs/FrontierDirectedSTPath.hpp"
@@ -104,7 +105,8 @@ setset SearchGraphs(
 
   DdStructure<2> dd;
   if (search_space != NULL) {
-    SapporoZdd f(search_space->zdd_, setset::max_elem() - g.edgeSize());
+    SapporoZdd f(within(search_space->zdd_, g.edgeSize()),
+                 setset::max_elem() - g.edgeSize());
     //dd = DdStructure<2>(f, use_mp);
     dd = DdStructure<2>(f, false); // not use multi processors because
                                    // SAPPOROBDDD is not thread safe
@@ -179,7 +181,8 @@ setset SearchDirectedCycles(const std::vector<edge_t>& digraph,
 
   DdStructure<2> dd;
   if (search_space != NULL) {
-    SapporoZdd f(search_space->zdd_, setset::max_elem() - g.edgeSize());
+    SapporoZdd f(within(search_space->zdd_, g.edgeSize()),
+                 setset::max_elem() - g.edgeSize());
     dd = DdStructure<2>(f);
   } else {
     dd = DdStructure<2>(g.edgeSize());
@@ -206,7 +209,8 @@ setset SearchDirectedHamiltonianCycles(const std::vector<edge_t>& digraph,
 
   DdStructure<2> dd;
   if (search_space != NULL) {
-    SapporoZdd f(search_space->zdd_, setset::max_elem() - g.edgeSize());
+    SapporoZdd f(within(search_space->zdd_, g.edgeSize()),
+                 setset::max_elem() - g.edgeSize());
     dd = DdStructure<2>(f);
   } else {
     dd = DdStructure<2>(g.edgeSize());
@@ -234,7 +238,8 @@ setset SearchDirectedSTPath(const std::vector<edge_t>& digraph,
 
   DdStructure<2> dd;
   if (search_space != NULL) {
-    SapporoZdd f(search_space->zdd_, setset::max_elem() - g.edgeSize());
+    SapporoZdd f(within(search_space->zdd_, g.edgeSize()),
+                 setset::max_elem() - g.edgeSize());
     dd = DdStructure<2>(f);
   } else {
     dd = DdStructure<2>(g.edgeSize());
@@ -268,7 +273,8 @@ setset SearchDirectedForests(const std::vector<edge_t>& digraph,
 
   DdStructure<2> dd;
   if (search_space != NULL) {
-    SapporoZdd f(search_space->zdd_, setset::max_elem() - g.edgeSize());
+    SapporoZdd f(within(search_space->zdd_, g.edgeSize()),
+                 setset::max_elem() - g.edgeSize());
     dd = DdStructure<2>(f);
   } else {
     dd = DdStructure<2>(g.edgeSize());
@@ -295,7 +301,8 @@ setset SearchRootedTrees(const std::vector<edge_t>& digraph, vertex_t root,
 
   DdStructure<2> dd;
   if (search_space != NULL) {
-    SapporoZdd f(search_space->zdd_, setset::max_elem() - g.edgeSize());
+    SapporoZdd f(within(search_space->zdd_, g.edgeSize()),
+                 setset::max_elem() - g.edgeSize());
     dd = DdStructure<2>(f);
   } else {
     dd = DdStructure<2>(g.edgeSize());
@@ -325,7 +332,8 @@ setset SearchDirectedGraphs(
 
   DdStructure<2> dd;
   if (search_space != NULL) {
-    SapporoZdd f(search_space->zdd_, setset::max_elem() - g.edgeSize());
+    SapporoZdd f(within(search_space->zdd_, g.edgeSize()),
+                 setset::max_elem() - g.edgeSize());
     dd = DdStructure<2>(f);
   } else {
     dd = DdStructure<2>(g.edgeSize());
diff --git a/src/graphillion/regular/RegularGraphs.cc b/src/graphillion/regular/RegularGraphs.cc
index 42eb906..434dfa8 100644
--- a/src/graphillion/regular/RegularGraphs.cc
+++ b/src/graphillion/regular/RegularGraphs.cc
@@ -1,6 +1,7 @@
 #include "RegularGraphs.h"
 
 #include "graphillion/setset.h"
+#include "graphillion/zdd.h"
 #include "graphillion/graphset.h"
 #include "graphillion/forbidden_induced/FrontierManager.h"
 #include "subsetting/DdSpec.hpp"
@@ -289,7 +290,7 @@ constructRegularGraphs(const tdzdd::Graph &g,
 
   tdzdd::DdStructure<2> dd;
   if (search_space != NULL) {
-    tdzdd::SapporoZdd f(*search_space, offset);
+    tdzdd::SapporoZdd f(graphillion::within(*search_space, g.edgeSize()), offset);
     //dd = tdzdd::DdStructure<2>(f, use_mp);
     dd = tdzdd::DdStructure<2>(f, false); // not use multi processors because
                                           // SAPPOROBDDD is not thread safe
diff --git a/src/graphillion/setset.cc b/src/graphillion/setset.cc
index 7917561..518ff79 100644
--- a/src/graphillion/setset.cc
+++ b/src/graphillion/setset.cc
@@ -473,7 +473,7 @@ setset setset::to_vertexsetset_setset(const std::vector<std::vector<std::string>
 
   //const int offset = max_elem() - std::max(graph.edgeSize(), graph.vertexSize());
   const int offset = max_elem() - graph.edgeSize();
-  tdzdd::SapporoZdd dd_e_spec(this->zdd_, offset);
+  tdzdd::SapporoZdd dd_e_spec(within(this->zdd_, graph.edgeSize()), offset);
   tdzdd::DdStructure<2> dd_e(dd_e_spec);
   dd_e.zddReduce();
   zdd_t dd_v = VariableConverter::eToVZdd(dd_e, graph, vlist, max_elem() - graph.vertexSize());
@@ -490,7 +490,7 @@ setset setset::to_edgevertexsetset_setset(const std::vector<std::vector<std::str
   VariableConverter::VariableList vlist = graph_and_vlist.second;
 
   const int offset = max_elem() - graph.edgeSize();
-  tdzdd::SapporoZdd dd_e_spec(this->zdd_, offset);
+  tdzdd::SapporoZdd dd_e_spec(within(this->zdd_, graph.edgeSize()), offset);
   tdzdd::DdStructure<2> dd_e(dd_e_spec);
   dd_e.zddReduce();
   zdd_t dd_v = VariableConverter::eToEvSZdd(dd_e, graph, vlist, max_elem() - graph.edgeSize() - graph.vertexSize());
diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 2010e2d..0690e90 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -106,6 +106,17 @@ zdd_t single(elem_t e) {
   return top().Change(e);
 }
 
+zdd_t within(zdd_t f, elem_t num_elems_a) {
+  zdd_t s = f.Support();
+  while (!is_term(s)) {
+    elem_t e = elem(s);
+    s = s.OffSet(e);
+    if (e > num_elems_a)
+      f = f.OffSet(e);
+  }
+  return f;
+}
+
 zdd_t complement(zdd_t f, elem_t num_elems_a) {
   vector<zdd_t> n(num_elems_a + 2);
   n[0] = bot(), n[1] = top();
diff --git a/src/graphillion/zdd.h b/src/graphillion/zdd.h
index 01d93a3..30a11d0 100644
--- a/src/graphillion/zdd.h
+++ b/src/graphillion/zdd.h
@@ -66,6 +66,8 @@ inline elem_t elem(zdd_t f) {
 zdd_t operator|(const zdd_t& f, const zdd_t& g);
 
 zdd_t complement(zdd_t f, elem_t num_elems_a);
+// The members without elements larger than num_elems_a.
+zdd_t within(zdd_t f, elem_t num_elems_a);
 zdd_t minimal(zdd_t f);
 zdd_t maximal(zdd_t f);
 zdd_t hitting(zdd_t f, elem_t num_elems_a);
diff --git a/src/subsetting/spec/SapporoZdd.hpp b/src/subsetting/spec/SapporoZdd.hpp
index 3e309a3..105bdb6 100644
--- a/src/subsetting/spec/SapporoZdd.hpp
+++ b/src/subsetting/spec/SapporoZdd.hpp
@@ -67,7 +67,7 @@ public:
         if (level >= 1) return level;
 
         while (BDD_LevOfVar(f.Top()) >= 1) {
-            f = f.OffSet(f.Top());
+            f = f.OffSet(BDD_VarOfLev(f.Top()));
         }
         return (f == 1) ? -1 : 0;
     }
@@ -81,7 +81,7 @@ public:
         if (nextLevel >= 1) return nextLevel;
 
         while (BDD_LevOfVar(f.Top()) >= 1) {
-            f = f.OffSet(f.Top());
+            f = f.OffSet(BDD_VarOfLev(f.Top()));
         }
         return (f == 1) ? -1 : 0;
     }
-- 
2.43.0


From 5b314f31b811cb838aea35e8735c7c07e90616a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:59 +0000
Subject: [PATCH 61/69] fix: degrees no vertex can have ended the process

---
 .../DegreeDistributionGraphs.cc                   | 15 ++++++++++++++-
 src/pygraphillion.cc                              |  9 +++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/graphillion/degree_distribution/DegreeDistributionGraphs.cc b/src/graphillion/degree_distribution/DegreeDistributionGraphs.cc
index 51e20b2..d4732a1 100644
--- a/src/graphillion/degree_distribution/DegreeDistributionGraphs.cc
+++ b/src/graphillion/degree_distribution/DegreeDistributionGraphs.cc
@@ -67,10 +67,23 @@ SearchDegreeDistributionGraphs(const std::vector<edge_t> &edges,
   }
   g.update();
 
+  // No vertex has a degree of the number of vertices or more, so that
+  // such a degree can only be absent.
+  std::vector<int> ranges(degRanges);
+  const size_t num_vertices = g.vertexSize();
+  for (size_t d = num_vertices; d < ranges.size(); ++d) {
+    if (ranges[d] > 0) {
+      return setset();
+    }
+  }
+  if (ranges.size() > num_vertices) {
+    ranges.resize(num_vertices);
+  }
+
   const zdd_t* search_space_z =
   ((search_space == NULL) ? NULL : &search_space->zdd_);
 
-  auto dd = constructDegreeDistributionGraphs(g, degRanges, is_connected,
+  auto dd = constructDegreeDistributionGraphs(g, ranges, is_connected,
     search_space_z, setset::max_elem() - g.edgeSize());
   dd.useMultiProcessors(false);
   zdd_t f = dd.evaluate(tdzdd::ToZBDD(setset::max_elem() - g.edgeSize()));
diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 8fefbb0..1d38c1a 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -2225,6 +2225,15 @@ static PyObject* degree_distribution_graphs(PyObject*, PyObject* args, PyObject*
     if (PyErr_Occurred()) {
       return NULL;
     }
+    // A degree beyond the number of edges occurs in no graph: allowing it
+    // says nothing, and requiring it leaves no graph whichever it is.
+    const int max_deg = static_cast<int>(graph.size());
+    if (k > max_deg) {
+      if (v <= 0) {
+        continue;
+      }
+      k = max_deg + 1;
+    }
     if (static_cast<int>(deg_ranges.size()) <= k) {
       deg_ranges.resize(k + 1);
     }
-- 
2.43.0


From 2b3e43a5ae05e076b24e68fe32514e18aaf9a31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:59 +0000
Subject: [PATCH 62/69] fix: degree distributions wrapped around at 256
 vertices of a degree

---
 .../degree_distribution/DegreeDistributionSpec.h      | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/graphillion/degree_distribution/DegreeDistributionSpec.h b/src/graphillion/degree_distribution/DegreeDistributionSpec.h
index a0e5aa8..dda7f14 100644
--- a/src/graphillion/degree_distribution/DegreeDistributionSpec.h
+++ b/src/graphillion/degree_distribution/DegreeDistributionSpec.h
@@ -8,10 +8,9 @@
 #include "graphillion/forbidden_induced/FrontierManager.h"
 #include "subsetting/util/IntSubset.hpp"
 
-typedef unsigned char uchar;
-typedef unsigned char DSData;
+typedef unsigned short DSData;
 
-const int DSData_MAX = UCHAR_MAX;
+const int DSData_MAX = USHRT_MAX;
 
 class DegreeDistributionSpec
   : public tdzdd::PodArrayDdSpec<DegreeDistributionSpec, DSData, 2> {
@@ -43,7 +42,7 @@ private:
   void setDeg(DSData* data, int v, int d) const {
     data[is_connected_ ?
       (fm_.vertexToPos(v) * 2) :
-      fm_.vertexToPos(v)] = static_cast<uchar>(d);
+      fm_.vertexToPos(v)] = static_cast<DSData>(d);
   }
 
   // This function gets comp of v.
@@ -56,13 +55,13 @@ private:
   void setComp(DSData* data, int v, int c) const {
     assert(is_connected_);
     data[fm_.vertexToPos(v) * 2 + 1] =
-      static_cast<uchar>(fm_.vertexToPos(c));
+      static_cast<DSData>(fm_.vertexToPos(c));
   }
 
   void clearComp(DSData* data, int v) const {
     assert(is_connected_);
     data[fm_.vertexToPos(v) * 2 + 1] =
-      static_cast<uchar>(-1);
+      static_cast<DSData>(-1);
   }
 
   void incrementFixedDeg(DSData* data, int d) const {
-- 
2.43.0


From 7d24333986e14454e8d7bda7863cc1189b26c329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:54 +0000
Subject: [PATCH 63/69] fix: regular graphs confused components in frontiers of
 over 256 vertices

---
 src/graphillion/regular/RegularGraphs.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/graphillion/regular/RegularGraphs.cc b/src/graphillion/regular/RegularGraphs.cc
index 434dfa8..3b49a9c 100644
--- a/src/graphillion/regular/RegularGraphs.cc
+++ b/src/graphillion/regular/RegularGraphs.cc
@@ -12,10 +12,9 @@
 #include <vector>
 #include <climits>
 
-typedef unsigned char uchar;
-typedef unsigned char RData;
+typedef unsigned short RData;
 
-const int RData_MAX = UCHAR_MAX;
+const int RData_MAX = USHRT_MAX;
 
 class RegularSpec
   : public tdzdd::PodArrayDdSpec<RegularSpec, RData, 2> {
@@ -47,7 +46,7 @@ private:
   void setDeg(RData* data, int v, int d) const {
     data[is_connected_ ?
       (fm_.vertexToPos(v) * 2) :
-      fm_.vertexToPos(v)] = static_cast<uchar>(d);
+      fm_.vertexToPos(v)] = static_cast<RData>(d);
   }
 
   // This function gets comp of v.
@@ -60,12 +59,12 @@ private:
   void setComp(RData* data, int v, int c) const {
     assert(is_connected_);
     data[fm_.vertexToPos(v) * 2 + 1] =
-      static_cast<uchar>(fm_.vertexToPos(c));
+      static_cast<RData>(fm_.vertexToPos(c));
   }
 
   void clearComp(RData* data, int v) const {
     assert(is_connected_);
-    data[fm_.vertexToPos(v) * 2 + 1] = static_cast<uchar>(-1);
+    data[fm_.vertexToPos(v) * 2 + 1] = static_cast<RData>(-1);
   }
 
   int getFixedDeg(RData* data) const {
-- 
2.43.0


From 170d0eb23f40f1a7bdc6d453d226e3c7497de560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:45 +0000
Subject: [PATCH 64/69] fix: large vertex weights overflowed in balanced and
 weighted induced searches

---
 graphillion/graphset.py                       | 14 +++++---
 .../ComponentWeightInducedSpec.h              | 10 +++---
 .../induced_graphs/WeightedInducedGraphs.cc   |  4 +--
 .../induced_graphs/WeightedInducedGraphs.h    |  4 +--
 .../partition/BalancedPartition.cc            | 34 +++++++++----------
 src/graphillion/partition/BalancedPartition.h |  8 ++---
 .../partition/ComponentRatioSpec.h            | 29 ++++++++--------
 .../partition/ComponentWeightSpec.h           | 17 +++++-----
 src/graphillion/setset.h                      | 12 +++----
 src/pygraphillion.cc                          | 18 +++++++---
 10 files changed, 83 insertions(+), 67 deletions(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 2943765..750f35c 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2739,7 +2739,7 @@ class GraphSet(object):
         return GraphSet(ss)
 
     @staticmethod
-    def balanced_partitions(weight_list=None, ratio=0.0, lower=0, upper=4294967295 // 4, num_comps=-1):
+    def balanced_partitions(weight_list=None, ratio=0.0, lower=0, upper=None, num_comps=-1):
         """Returns a GraphSet with balanced partitions of the graph.
 
         Examples: balanced partitions with disparity less than or equal to 2.0.
@@ -2778,8 +2778,11 @@ class GraphSet(object):
                     raise KeyError(v)
                 wl[names[v]] = r
 
+        bounds = {'lower': lower}
+        if upper is not None:
+            bounds['upper'] = upper
         ss = _graphillion._balanced_partitions(
-            graph=graph, weight_list=wl, ratio=ratio, lower=lower, upper=upper, num_comps=num_comps)
+            graph=graph, weight_list=wl, ratio=ratio, num_comps=num_comps, **bounds)
         return GraphSet(ss)
 
     @staticmethod
@@ -2804,7 +2807,7 @@ class GraphSet(object):
         return GraphSet(ss)
 
     @staticmethod
-    def weighted_induced_graphs(weight_list=None, lower=0, upper=4294967295//2):
+    def weighted_induced_graphs(weight_list=None, lower=0, upper=None):
         """Return a GraphSet with weighted connected induced graphs.
 
         Examples: weighted connected induced graphs
@@ -2838,7 +2841,10 @@ class GraphSet(object):
                     raise KeyError(v)
                 wl[names[v]] = r
 
-        ss = _graphillion._weighted_induced_graphs(graph=graph, weight_list=wl, lower=lower, upper=upper)
+        bounds = {'lower': lower}
+        if upper is not None:
+            bounds['upper'] = upper
+        ss = _graphillion._weighted_induced_graphs(graph=graph, weight_list=wl, **bounds)
         return GraphSet(ss)
 
     @staticmethod
diff --git a/src/graphillion/induced_graphs/ComponentWeightInducedSpec.h b/src/graphillion/induced_graphs/ComponentWeightInducedSpec.h
index 74a2eb0..8d4060f 100644
--- a/src/graphillion/induced_graphs/ComponentWeightInducedSpec.h
+++ b/src/graphillion/induced_graphs/ComponentWeightInducedSpec.h
@@ -6,7 +6,7 @@
 
 class ComponentWeightInducedSpecMate {
  public:
-  using offset = int32_t;
+  using offset = int64_t;  // wide enough for any sum of weights
 
   ComponentWeightInducedSpecMate(offset _offset_or_weight = 0)
       : offset_or_weight(_offset_or_weight),
@@ -53,7 +53,7 @@ class ComponentWeightInducedSpecMate {
     return *(this + (next_conn & next_mask));
   }
 
-  int get_weight() const {
+  int64_t get_weight() const {
     assert(head().offset_or_weight >= 0);
     return head().offset_or_weight;
   }
@@ -138,8 +138,8 @@ class ComponentWeightInducedSpec
   tdzdd::Graph const& graph;
   int const m;
   int const n;
-  int const lower;
-  int const upper;
+  int64_t const lower;
+  int64_t const upper;
   int const mateSize;
   std::vector<ComponentWeightInducedSpecMate> initialMate;
 
@@ -246,7 +246,7 @@ class ComponentWeightInducedSpec
   // m]
   ComponentWeightInducedSpec(tdzdd::Graph const& graph,
                              const std::vector<uint32_t>& weight_list,
-                             uint32_t lower, uint32_t upper)
+                             int64_t lower, int64_t upper)
       : graph(graph),
         m(graph.vertexSize()),
         n(graph.edgeSize()),
diff --git a/src/graphillion/induced_graphs/WeightedInducedGraphs.cc b/src/graphillion/induced_graphs/WeightedInducedGraphs.cc
index ae1ac26..346cf03 100644
--- a/src/graphillion/induced_graphs/WeightedInducedGraphs.cc
+++ b/src/graphillion/induced_graphs/WeightedInducedGraphs.cc
@@ -7,8 +7,8 @@
 namespace graphillion {
 setset SearchWeightedInducedGraphs(
     const std::vector<edge_t> &edges,
-    const std::map<std::string, uint32_t> &weight_list, uint32_t lower,
-    uint32_t upper) {
+    const std::map<std::string, uint32_t> &weight_list, int64_t lower,
+    int64_t upper) {
   tdzdd::Graph g;
   for (const auto &e : edges) {
     g.addEdge(e.first, e.second);
diff --git a/src/graphillion/induced_graphs/WeightedInducedGraphs.h b/src/graphillion/induced_graphs/WeightedInducedGraphs.h
index 66ccc57..6c989b2 100644
--- a/src/graphillion/induced_graphs/WeightedInducedGraphs.h
+++ b/src/graphillion/induced_graphs/WeightedInducedGraphs.h
@@ -4,6 +4,6 @@
 namespace graphillion {
 setset SearchWeightedInducedGraphs(
     const std::vector<edge_t> &edges,
-    const std::map<std::string, uint32_t> &weight_list, uint32_t lower,
-    uint32_t upper);
+    const std::map<std::string, uint32_t> &weight_list, int64_t lower,
+    int64_t upper);
 }  // namespace graphillion
diff --git a/src/graphillion/partition/BalancedPartition.cc b/src/graphillion/partition/BalancedPartition.cc
index c4cb5fb..1b3c3b0 100644
--- a/src/graphillion/partition/BalancedPartition.cc
+++ b/src/graphillion/partition/BalancedPartition.cc
@@ -1,5 +1,6 @@
 #include "BalancedPartition.h"
 
+#include <cmath>
 #include <numeric>
 #include <limits>
 
@@ -21,24 +22,23 @@
  */
 tdzdd::DdStructure<2> constructRatioDd(const tdzdd::Graph &g,
                                        const std::vector<weight_t> &weight_list,
-                                       double ratio, weight_t _lower,
-                                       weight_t _upper, int k = -1) {
+                                       double ratio, int64_t _lower,
+                                       int64_t _upper, int k = -1) {
   auto dd = (k == -1 ? constructPartitionDd(g) : constructPartitionDd(g, k, k));
 
   auto sum =
-      std::accumulate(weight_list.begin(), weight_list.end(), weight_t{0});
-  weight_t initial_lower = 0;
-  if (k != -1) {
+      std::accumulate(weight_list.begin(), weight_list.end(), int64_t{0});
+  int64_t initial_lower = 0;
+  int64_t initial_upper = sum;
+  // An infinite ratio bounds nothing.
+  if (k != -1 && std::isfinite(ratio * static_cast<double>(sum))) {
     initial_lower = std::max(
-        initial_lower, static_cast<weight_t>(floor(static_cast<double>(sum) /
-                                                   (ratio * (k - 1) + 1))));
-  }
-  weight_t initial_upper = sum;
-  if (k != -1) {
+        initial_lower, static_cast<int64_t>(floor(static_cast<double>(sum) /
+                                                  (ratio * (k - 1) + 1))));
     initial_upper =
         std::min(initial_upper,
-                 static_cast<weight_t>(ceil(ratio * static_cast<double>(sum) /
-                                            (ratio + (k - 1)))));
+                 static_cast<int64_t>(ceil(ratio * static_cast<double>(sum) /
+                                           (ratio + (k - 1)))));
   }
 
   ComponentWeightSpec cwspec(g, weight_list, initial_lower, initial_upper);
@@ -63,7 +63,7 @@ tdzdd::DdStructure<2> constructRatioDd(const tdzdd::Graph &g,
  */
 tdzdd::DdStructure<2> constructWeightDd(
     const tdzdd::Graph &g, const std::vector<weight_t> &weight_list,
-    weight_t lower = 0, weight_t upper = std::numeric_limits<weight_t>::max(),
+    int64_t lower = 0, int64_t upper = std::numeric_limits<int64_t>::max(),
     int k = -1) {
   auto dd = (k == -1 ? constructPartitionDd(g) : constructPartitionDd(g, k, k));
 
@@ -77,7 +77,7 @@ namespace graphillion {
 
 setset SearchRatioPartitions(const std::vector<edge_t> &edges,
                              const std::map<std::string, weight_t> &weight_list,
-                             double ratio, weight_t lower, weight_t upper,
+                             double ratio, int64_t lower, int64_t upper,
                              int k) {
   tdzdd::Graph g;
   for (const auto &e : edges) {
@@ -94,8 +94,8 @@ setset SearchRatioPartitions(const std::vector<edge_t> &edges,
 
 setset SearchWeightPartitions(
     const std::vector<edge_t> &edges,
-    const std::map<std::string, weight_t> &weight_list, weight_t lower,
-    weight_t upper, int k) {
+    const std::map<std::string, weight_t> &weight_list, int64_t lower,
+    int64_t upper, int k) {
   tdzdd::Graph g;
   for (const auto &e : edges) {
     g.addEdge(e.first, e.second);
@@ -111,7 +111,7 @@ setset SearchWeightPartitions(
 
 setset SearchBalancedPartitions(const std::vector<edge_t> &edges,
                            const std::map<std::string, weight_t> &weight_list,
-                           double ratio, weight_t lower, weight_t upper,
+                           double ratio, int64_t lower, int64_t upper,
                            int k) {
   if (ratio < 1.0) {
     return SearchWeightPartitions(edges, weight_list, lower, upper, k);
diff --git a/src/graphillion/partition/BalancedPartition.h b/src/graphillion/partition/BalancedPartition.h
index 87c8328..ce4c8b2 100644
--- a/src/graphillion/partition/BalancedPartition.h
+++ b/src/graphillion/partition/BalancedPartition.h
@@ -7,13 +7,13 @@ namespace graphillion {
 
 setset SearchRatioPartitions(const std::vector<edge_t> &edges,
                              const std::map<std::string, weight_t> &weight_list,
-                             double ratio, uint32_t lower, uint32_t upper,
+                             double ratio, int64_t lower, int64_t upper,
                              int k);
 
 setset SearchWeightPartitions(
     const std::vector<edge_t> &edges,
-    const std::map<std::string, weight_t> &weight_list, weight_t lower,
-    weight_t upper, int k);
+    const std::map<std::string, weight_t> &weight_list, int64_t lower,
+    int64_t upper, int k);
 
 /**
  * @brief enumerate graph partitions with constraints of lower bound/upper bound/disparity.
@@ -27,6 +27,6 @@ setset SearchWeightPartitions(
  */
 setset SearchBalancedPartitions(const std::vector<edge_t> &edges,
                            const std::map<std::string, weight_t> &weight_list,
-                           double ratio, weight_t lower, weight_t upper, int k);
+                           double ratio, int64_t lower, int64_t upper, int k);
 
 }  // namespace graphillion
diff --git a/src/graphillion/partition/ComponentRatioSpec.h b/src/graphillion/partition/ComponentRatioSpec.h
index 31c63fe..008a9fe 100644
--- a/src/graphillion/partition/ComponentRatioSpec.h
+++ b/src/graphillion/partition/ComponentRatioSpec.h
@@ -4,12 +4,12 @@
 #include "subsetting/util/Graph.hpp"
 
 struct ComponentRatioSpecCount {
-  int32_t lower;
-  int32_t upper;
+  int64_t lower;
+  int64_t upper;
 
-  ComponentRatioSpecCount() : lower(INT_MAX), upper(0) {}
+  ComponentRatioSpecCount() : lower(INT64_MAX), upper(0) {}
 
-  size_t hash() const { return lower + upper * 31415926535; }
+  size_t hash() const { return lower + static_cast<size_t>(upper) * 31415926535; }
 
   bool operator==(ComponentRatioSpecCount const& o) const {
     return lower == o.lower && upper == o.upper;
@@ -23,8 +23,8 @@ struct ComponentRatioSpecCount {
 
 class ComponentRatioSpecMate {
  public:
-  typedef int32_t Offset;
-  typedef uint32_t uOffset;
+  typedef int64_t Offset;  // wide enough for any sum of weights
+  typedef uint64_t uOffset;
 
  private:
   Offset hoc;  ///< offset to head or vertex-weight.
@@ -58,7 +58,7 @@ class ComponentRatioSpecMate {
 
   ComponentRatioSpecMate const& next() const { return *(this + nxt); }
 
-  int getWeight() const {
+  int64_t getWeight() const {
     assert(head().hoc >= 0);
     return head().hoc;
   }
@@ -69,7 +69,8 @@ class ComponentRatioSpecMate {
     ost << "(" << hoc << "," << nxt << ")";
   }
 
-  void print(FILE* fp) const { fprintf(fp, "(%d,%d)", hoc, nxt); }
+  void print(FILE* fp) const { fprintf(fp, "(%lld,%lld)", static_cast<long long>(hoc),
+            static_cast<long long>(nxt)); }
 
   void mergeLists(ComponentRatioSpecMate& o1, ComponentRatioSpecMate& o2,
                   ComponentRatioSpecMate* mate) {
@@ -149,14 +150,14 @@ class ComponentRatioSpec
   tdzdd::Graph const& graph;
   int const m;
   int const n;
-  int const lower;
-  int const upper;
+  int64_t const lower;
+  int64_t const upper;
   double const ratio;
   int const mateSize;
   std::vector<Mate> initialMate;
   bool const lookahead;
 
-  bool updateRatio(Count& count, int weight) const {
+  bool updateRatio(Count& count, int64_t weight) const {
     if (weight < lower) {
       return false;
     } else {
@@ -272,8 +273,8 @@ class ComponentRatioSpec
   // weight_list: [weight of vertex 1, weight of vertex 2,..., weight of vertex
   // m]
   ComponentRatioSpec(tdzdd::Graph const& graph,
-                     const std::vector<uint32_t>& weight_list, uint32_t lower,
-                     uint32_t upper, double ratio, bool /*noLoop*/ = false,
+                     const std::vector<uint32_t>& weight_list, int64_t lower,
+                     int64_t upper, double ratio, bool /*noLoop*/ = false,
                      bool lookahead = true)
       : graph(graph),
         m(graph.vertexSize()),
@@ -302,7 +303,7 @@ class ComponentRatioSpec
     for (int i = 0; i < mateSize; ++i) {
       mate[i] = initialMate[v0 + i];
     }
-    assert(count.lower == INT_MAX);
+    assert(count.lower == INT64_MAX);
     assert(count.upper == 0);
 
     return n;
diff --git a/src/graphillion/partition/ComponentWeightSpec.h b/src/graphillion/partition/ComponentWeightSpec.h
index e13f4a7..af40678 100644
--- a/src/graphillion/partition/ComponentWeightSpec.h
+++ b/src/graphillion/partition/ComponentWeightSpec.h
@@ -5,8 +5,8 @@
 
 class ComponentWeightSpecMate {
  public:
-  typedef int32_t Offset;
-  typedef uint32_t uOffset;
+  typedef int64_t Offset;  // wide enough for any sum of weights
+  typedef uint64_t uOffset;
 
  private:
   Offset hoc;  ///< offset to head or vertex-weight.
@@ -40,7 +40,7 @@ class ComponentWeightSpecMate {
 
   ComponentWeightSpecMate const& next() const { return *(this + nxt); }
 
-  int getWeight() const {
+  int64_t getWeight() const {
     assert(head().hoc >= 0);
     return head().hoc;
   }
@@ -51,7 +51,8 @@ class ComponentWeightSpecMate {
     ost << "(" << hoc << "," << nxt << ")";
   }
 
-  void print(FILE* fp) const { fprintf(fp, "(%d,%d)", hoc, nxt); }
+  void print(FILE* fp) const { fprintf(fp, "(%lld,%lld)", static_cast<long long>(hoc),
+            static_cast<long long>(nxt)); }
 
   void mergeLists(ComponentWeightSpecMate& o1, ComponentWeightSpecMate& o2,
                   ComponentWeightSpecMate* mate) {
@@ -130,8 +131,8 @@ class ComponentWeightSpec
   tdzdd::Graph const& graph;
   int const m;
   int const n;
-  int const lower;
-  int const upper;
+  int64_t const lower;
+  int64_t const upper;
   int const mateSize;
   std::vector<Mate> initialMate;
   bool const lookahead;
@@ -230,8 +231,8 @@ class ComponentWeightSpec
   // weight_list: [weight of vertex 1, weight of vertex 2,..., weight of vertex
   // m]
   ComponentWeightSpec(tdzdd::Graph const& graph,
-                      const std::vector<uint32_t>& weight_list, uint32_t lower,
-                      uint32_t upper, bool /*noLoop*/ = false,
+                      const std::vector<uint32_t>& weight_list, int64_t lower,
+                      int64_t upper, bool /*noLoop*/ = false,
                       bool lookahead = true)
       : graph(graph),
         m(graph.vertexSize()),
diff --git a/src/graphillion/setset.h b/src/graphillion/setset.h
index ff26db3..6c2f07b 100644
--- a/src/graphillion/setset.h
+++ b/src/graphillion/setset.h
@@ -236,20 +236,20 @@ class setset {
   friend setset SearchRatioPartitions(
       const std::vector<edge_t>& edges,
       const std::map<std::string, uint32_t>& weight_list, double ratio,
-      uint32_t lower, uint32_t upper, int k);
+      int64_t lower, int64_t upper, int k);
   friend setset SearchWeightPartitions(
       const std::vector<edge_t>& edges,
-      const std::map<std::string, uint32_t>& weight_list, uint32_t lower,
-      uint32_t upper, int k);
+      const std::map<std::string, uint32_t>& weight_list, int64_t lower,
+      int64_t upper, int k);
   friend setset SearchBalancedPartitions(
       const std::vector<edge_t>& edges,
       const std::map<std::string, uint32_t>& weight_list, double ratio,
-      uint32_t lower, uint32_t upper, int k);
+      int64_t lower, int64_t upper, int k);
   friend setset SearchInducedGraphs(const std::vector<edge_t>& edges);
   friend setset SearchWeightedInducedGraphs(
       const std::vector<edge_t> &edges,
-      const std::map<std::string, uint32_t> &weight_list, uint32_t lower,
-      uint32_t upper);
+      const std::map<std::string, uint32_t> &weight_list, int64_t lower,
+      int64_t upper);
   friend setset SearchChordals(const std::vector<edge_t> &edges, const uint32_t k);
   friend setset SearchForbiddenInducedSubgraphs(const std::vector<edge_t> &edges, setset* ss);
   friend setset SearchOddEdgeSubgraphs(const std::vector<edge_t>& edges);
diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 1d38c1a..998c7bc 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -2302,9 +2302,9 @@ static PyObject* balanced_partitions(PyObject*, PyObject* args, PyObject* kwds)
   PyObject* graph_obj = NULL;
   PyObject* weight_list_obj = NULL;
   double ratio = 0;
-  uint32_t lower = 0, upper = std::numeric_limits<weight_t>::max() / 4;
+  long long lower = 0, upper = std::numeric_limits<long long>::max();
   int num_comps = -1;
-  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OdIIi", kwlist, &graph_obj,
+  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OdLLi", kwlist, &graph_obj,
                                    &weight_list_obj, &ratio, &lower, &upper,
                                    &num_comps)) {
     return NULL;
@@ -2313,11 +2313,15 @@ static PyObject* balanced_partitions(PyObject*, PyObject* args, PyObject* kwds)
     PyErr_SetString(PyExc_ValueError, "not positive integer");
     return NULL;
   }
+  if (lower < 0) {
+    PyErr_SetString(PyExc_ValueError, "lower bound is negative");
+    return NULL;
+  }
   if (upper < lower) {
     PyErr_SetString(PyExc_ValueError, "lower bound is larger than upper bound");
     return NULL;
   }
-  if (ratio != 0 && ratio < 1.0) {
+  if (ratio != 0 && !(ratio >= 1.0)) {
     PyErr_SetString(PyExc_ValueError, "ratio is less than 1.0");
     return NULL;
   }
@@ -2403,11 +2407,15 @@ static PyObject* weighted_induced_graphs(PyObject*, PyObject* args,
 
   PyObject* graph_obj = NULL;
   PyObject* weight_list_obj = NULL;
-  uint32_t lower = 0, upper = std::numeric_limits<uint32_t>::max() / 2;
-  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OII", kwlist, &graph_obj,
+  long long lower = 0, upper = std::numeric_limits<long long>::max();
+  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OLL", kwlist, &graph_obj,
                                    &weight_list_obj, &lower, &upper)) {
     return NULL;
   }
+  if (lower < 0) {
+    PyErr_SetString(PyExc_ValueError, "lower bound is negative");
+    return NULL;
+  }
   if (upper < lower) {
     PyErr_SetString(PyExc_TypeError, "lower bound is larger than upper bound");
     return NULL;
-- 
2.43.0


From 06a522b2b88427c800330c66954c847407f01c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:11 +0000
Subject: [PATCH 65/69] fix: rooted forests of graphs with over 32767 vertices
 read out of bounds

---
 src/graphillion/digraphs/FrontierRootedForest.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/graphillion/digraphs/FrontierRootedForest.hpp b/src/graphillion/digraphs/FrontierRootedForest.hpp
index b1b1258..97992f3 100644
--- a/src/graphillion/digraphs/FrontierRootedForest.hpp
+++ b/src/graphillion/digraphs/FrontierRootedForest.hpp
@@ -54,30 +54,30 @@ class FrontierRootedForestSpec
   const FrontierManager fm_;
 
   // This function gets deg of v.
-  short getIndeg(DirectedFrontierData* data, short v) const {
+  short getIndeg(DirectedFrontierData* data, int v) const {
     return data[fm_.vertexToPos(v)].indeg;
   }
 
-  short getOutdeg(DirectedFrontierData* data, short v) const {
+  short getOutdeg(DirectedFrontierData* data, int v) const {
     return data[fm_.vertexToPos(v)].outdeg;
   }
 
   // This function sets deg of v to be d.
-  void setIndeg(DirectedFrontierData* data, short v, short d) const {
+  void setIndeg(DirectedFrontierData* data, int v, short d) const {
     data[fm_.vertexToPos(v)].indeg = d;
   }
 
-  void setOutdeg(DirectedFrontierData* data, short v, short d) const {
+  void setOutdeg(DirectedFrontierData* data, int v, short d) const {
     data[fm_.vertexToPos(v)].outdeg = d;
   }
 
   // This function gets comp of v.
-  ushort getComp(DirectedFrontierData* data, short v) const {
+  ushort getComp(DirectedFrontierData* data, int v) const {
     return data[fm_.vertexToPos(v)].comp;
   }
 
   // This function sets comp of v to be c.
-  void setComp(DirectedFrontierData* data, short v, ushort c) const {
+  void setComp(DirectedFrontierData* data, int v, ushort c) const {
     data[fm_.vertexToPos(v)].comp = c;
   }
 
-- 
2.43.0


From a023d0fc5a8681bc088980c245a7f7619f8581a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:11 +0000
Subject: [PATCH 66/69] fix: len() refused families of over 4300 digits

---
 src/pygraphillion.cc | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 998c7bc..a1637d7 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -634,6 +634,31 @@ static Py_ssize_t setset_len(PyObject* obj) {
   }
 }
 
+// Converts piece by piece, because Python limits the number of digits that it
+// converts at once.
+static PyObject* long_from_decimal(const string& digits) {
+  const size_t width = 18;
+  PyObject* result = PyLong_FromLong(0);
+  for (size_t i = 0; result != NULL && i < digits.size(); i += width) {
+    string piece = digits.substr(i, width);
+    PyObject* scale = PyLong_FromLongLong(
+        strtoll(("1" + string(piece.size(), '0')).c_str(), NULL, 10));
+    PyObject* value = PyLong_FromLongLong(strtoll(piece.c_str(), NULL, 10));
+    PyObject* scaled = NULL;
+    PyObject* sum = NULL;
+    if (scale != NULL && value != NULL)
+      scaled = PyNumber_Multiply(result, scale);
+    if (scaled != NULL)
+      sum = PyNumber_Add(scaled, value);
+    Py_XDECREF(scale);
+    Py_XDECREF(value);
+    Py_XDECREF(scaled);
+    Py_DECREF(result);
+    result = sum;
+  }
+  return result;
+}
+
 static PyObject* setset_len2(PySetsetObject* self, PyObject* args) {
   PyObject* obj = NULL;
   if (!PyArg_ParseTuple(args, "|O", &obj)) {
@@ -642,11 +667,7 @@ static PyObject* setset_len2(PySetsetObject* self, PyObject* args) {
   }
   if (obj == NULL || obj == Py_None) {
     string size = self->ss->size();
-    vector<char> buf;
-    for (string::const_iterator c = size.begin(); c != size.end(); ++c)
-      buf.push_back(*c);
-    buf.push_back('\0');
-    PyObject* result = PyLong_FromString(buf.data(), NULL, 0);
+    PyObject* result = long_from_decimal(size);
     if (result == NULL) {
       PyErr_SetString(PyExc_ValueError, "Failed to convert size to integer");
       return NULL;
-- 
2.43.0


From 731a1bd08cef83cb4ac947ad561872df48a05899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:11 +0000
Subject: [PATCH 67/69] fix: graphs with over 32767 vertices ended the process

---
 src/graphillion/chordal/FrontierSingleCycle.h | 29 ++++++--------
 .../DegreeDistributionSpec.h                  | 26 ++++---------
 src/graphillion/digraphs/FrontierData.hpp     |  6 +--
 .../digraphs/FrontierDegreeSpecified.hpp      | 15 +++-----
 .../FrontierDirectedHamiltonianCycle.hpp      | 29 ++++++--------
 .../digraphs/FrontierDirectedSTPath.hpp       | 37 ++++++++----------
 .../digraphs/FrontierDirectedSingleCycle.hpp  | 29 ++++++--------
 src/graphillion/digraphs/FrontierManager.hpp  |  2 +-
 .../digraphs/FrontierRootedForest.hpp         | 32 +++++++---------
 .../digraphs/FrontierRootedTree.hpp           | 38 ++++++++-----------
 src/graphillion/regular/RegularGraphs.cc      | 20 ++++------
 11 files changed, 104 insertions(+), 159 deletions(-)

diff --git a/src/graphillion/chordal/FrontierSingleCycle.h b/src/graphillion/chordal/FrontierSingleCycle.h
index 1da024e..4eba736 100644
--- a/src/graphillion/chordal/FrontierSingleCycle.h
+++ b/src/graphillion/chordal/FrontierSingleCycle.h
@@ -10,8 +10,8 @@
 // data associated with each vertex on the frontier
 class FrontierData {
  public:
-  short deg;
-  short comp;
+  int deg;
+  int comp;
 };
 
 class FrontierSingleCycleSpec
@@ -20,29 +20,29 @@ class FrontierSingleCycleSpec
   // input graph
   const tdzdd::Graph& graph_;
   // number of vertices
-  const short n_;
+  const int n_;
   // number of edges
   const int m_;
 
   const FrontierManager fm_;
 
   // This function gets deg of v.
-  short getDeg(FrontierData* data, short v) const {
+  int getDeg(FrontierData* data, int v) const {
     return data[fm_.vertexToPos(v)].deg;
   }
 
   // This function sets deg of v to be d.
-  void setDeg(FrontierData* data, short v, short d) const {
+  void setDeg(FrontierData* data, int v, int d) const {
     data[fm_.vertexToPos(v)].deg = d;
   }
 
   // This function gets comp of v.
-  short getComp(FrontierData* data, short v) const {
+  int getComp(FrontierData* data, int v) const {
     return data[fm_.vertexToPos(v)].comp;
   }
 
   // This function sets comp of v to be c.
-  void setComp(FrontierData* data, short v, short c) const {
+  void setComp(FrontierData* data, int v, int c) const {
     data[fm_.vertexToPos(v)].comp = c;
   }
 
@@ -56,14 +56,9 @@ class FrontierSingleCycleSpec
  public:
   FrontierSingleCycleSpec(const tdzdd::Graph& graph)
       : graph_(graph),
-        n_(static_cast<short>(graph_.vertexSize())),
+        n_(graph_.vertexSize()),
         m_(graph_.edgeSize()),
         fm_(graph_) {
-    if (graph_.vertexSize() > SHRT_MAX) {  // SHRT_MAX == 32767
-      std::cerr << "The number of vertices should be at most " << SHRT_MAX
-                << std::endl;
-      exit(1);
-    }
     setArraySize(fm_.getMaxFrontierSize());
   }
 
@@ -99,11 +94,11 @@ class FrontierSingleCycleSpec
       setDeg(data, edge.v1, getDeg(data, edge.v1) + 1);
       setDeg(data, edge.v2, getDeg(data, edge.v2) + 1);
 
-      short c1 = getComp(data, edge.v1);
-      short c2 = getComp(data, edge.v2);
+      int c1 = getComp(data, edge.v1);
+      int c2 = getComp(data, edge.v2);
       if (c1 != c2) {  // connected components c1 and c2 become connected
-        short cmin = std::min(c1, c2);
-        short cmax = std::max(c1, c2);
+        int cmin = std::min(c1, c2);
+        int cmax = std::max(c1, c2);
 
         // replace component number cmin with cmax
         for (size_t i = 0; i < frontier_vs.size(); ++i) {
diff --git a/src/graphillion/degree_distribution/DegreeDistributionSpec.h b/src/graphillion/degree_distribution/DegreeDistributionSpec.h
index dda7f14..17915bb 100644
--- a/src/graphillion/degree_distribution/DegreeDistributionSpec.h
+++ b/src/graphillion/degree_distribution/DegreeDistributionSpec.h
@@ -8,9 +8,9 @@
 #include "graphillion/forbidden_induced/FrontierManager.h"
 #include "subsetting/util/IntSubset.hpp"
 
-typedef unsigned short DSData;
+typedef int DSData;
 
-const int DSData_MAX = USHRT_MAX;
+const int DSData_MAX = INT_MAX;
 
 class DegreeDistributionSpec
   : public tdzdd::PodArrayDdSpec<DegreeDistributionSpec, DSData, 2> {
@@ -120,7 +120,7 @@ public:
                 const std::vector<tdzdd::IntSubset*>& degRanges,
                 const bool is_connected)
     : graph_(graph),
-      n_(static_cast<short>(graph_.vertexSize())),
+      n_(graph_.vertexSize()),
       m_(graph_.edgeSize()),
       is_connected_(is_connected),
       fm_(graph_),
@@ -129,18 +129,6 @@ public:
       degRanges_(degRanges),
       storingList_(getStoringList(degRanges))
   {
-    if (graph_.vertexSize() > SHRT_MAX) { // SHRT_MAX == 32767
-      std::cerr << "The number of vertices should be at most "
-            << SHRT_MAX << std::endl;
-      exit(1);
-    }
-
-    if (degRanges.size() > DSData_MAX + 1) {
-      std::cerr << "The size of array degRanges should be at most "
-            << (DSData_MAX + 1) << std::endl;
-      exit(1);
-    }
-
     setArraySize(fixedDegStart_ + degRanges_.size());
   }
 
@@ -192,11 +180,11 @@ public:
       setDeg(data, edge.v2, getDeg(data, edge.v2) + 1);
 
       if (is_connected_) {
-        short c1 = getComp(data, edge.v1, edge_index);
-        short c2 = getComp(data, edge.v2, edge_index);
+        int c1 = getComp(data, edge.v1, edge_index);
+        int c2 = getComp(data, edge.v2, edge_index);
         if (c1 != c2) { // connected components c1 and c2 become connected
-          short cmin = std::min(c1, c2);
-          short cmax = std::max(c1, c2);
+          int cmin = std::min(c1, c2);
+          int cmax = std::max(c1, c2);
 
           // replace component number cmin with cmax
           for (size_t i = 0; i < frontier_vs.size(); ++i) {
diff --git a/src/graphillion/digraphs/FrontierData.hpp b/src/graphillion/digraphs/FrontierData.hpp
index e5ac5b2..c50ae8c 100644
--- a/src/graphillion/digraphs/FrontierData.hpp
+++ b/src/graphillion/digraphs/FrontierData.hpp
@@ -26,9 +26,9 @@ SOFTWARE.
 // data associated with each vertex on the frontier
 class DirectedFrontierData {
  public:
-  short indeg;
-  short outdeg;
-  short comp;
+  int indeg;
+  int outdeg;
+  int comp;
 };
 
 #endif
diff --git a/src/graphillion/digraphs/FrontierDegreeSpecified.hpp b/src/graphillion/digraphs/FrontierDegreeSpecified.hpp
index e462ce1..02bc4aa 100644
--- a/src/graphillion/digraphs/FrontierDegreeSpecified.hpp
+++ b/src/graphillion/digraphs/FrontierDegreeSpecified.hpp
@@ -50,20 +50,20 @@ class FrontierDegreeSpecifiedSpec
   std::vector<graphillion::Range> out_constraints;
 
   // This function gets deg of v.
-  short getIndeg(DirectedFrontierData* data, short v) const {
+  int getIndeg(DirectedFrontierData* data, int v) const {
     return data[fm_.vertexToPos(v)].indeg;
   }
 
-  short getOutdeg(DirectedFrontierData* data, short v) const {
+  int getOutdeg(DirectedFrontierData* data, int v) const {
     return data[fm_.vertexToPos(v)].outdeg;
   }
 
   // This function sets deg of v to be d.
-  void setIndeg(DirectedFrontierData* data, short v, short d) const {
+  void setIndeg(DirectedFrontierData* data, int v, int d) const {
     data[fm_.vertexToPos(v)].indeg = d;
   }
 
-  void setOutdeg(DirectedFrontierData* data, short v, short d) const {
+  void setOutdeg(DirectedFrontierData* data, int v, int d) const {
     data[fm_.vertexToPos(v)].outdeg = d;
   }
 
@@ -78,14 +78,9 @@ class FrontierDegreeSpecifiedSpec
  public:
   FrontierDegreeSpecifiedSpec(const graphillion::Digraph& graph)
       : graph_(graph),
-        n_(static_cast<short>(graph_.vertexSize())),
+        n_(graph_.vertexSize()),
         m_(graph_.edgeSize()),
         fm_(graph_) {
-    if (graph_.vertexSize() > SHRT_MAX) {  // SHRT_MAX == 32767
-      std::cerr << "The number of vertices should be at most " << SHRT_MAX
-                << std::endl;
-      exit(1);
-    }
 
     // todo: check all the degrees is at most 256
 
diff --git a/src/graphillion/digraphs/FrontierDirectedHamiltonianCycle.hpp b/src/graphillion/digraphs/FrontierDirectedHamiltonianCycle.hpp
index a07265b..642c570 100644
--- a/src/graphillion/digraphs/FrontierDirectedHamiltonianCycle.hpp
+++ b/src/graphillion/digraphs/FrontierDirectedHamiltonianCycle.hpp
@@ -40,7 +40,7 @@ class FrontierDirectedSingleHamiltonianCycleSpec
   // input graph
   const graphillion::Digraph& graph_;
   // number of vertices
-  const short n_;
+  const int n_;
   // number of edges
   const int m_;
 
@@ -50,30 +50,30 @@ class FrontierDirectedSingleHamiltonianCycleSpec
   const int all_entered_level_;
 
   // This function gets deg of v.
-  short getIndeg(DirectedFrontierData* data, short v) const {
+  int getIndeg(DirectedFrontierData* data, int v) const {
     return data[fm_.vertexToPos(v)].indeg;
   }
 
-  short getOutdeg(DirectedFrontierData* data, short v) const {
+  int getOutdeg(DirectedFrontierData* data, int v) const {
     return data[fm_.vertexToPos(v)].outdeg;
   }
 
   // This function sets deg of v to be d.
-  void setIndeg(DirectedFrontierData* data, short v, short d) const {
+  void setIndeg(DirectedFrontierData* data, int v, int d) const {
     data[fm_.vertexToPos(v)].indeg = d;
   }
 
-  void setOutdeg(DirectedFrontierData* data, short v, short d) const {
+  void setOutdeg(DirectedFrontierData* data, int v, int d) const {
     data[fm_.vertexToPos(v)].outdeg = d;
   }
 
   // This function gets comp of v.
-  short getComp(DirectedFrontierData* data, short v) const {
+  int getComp(DirectedFrontierData* data, int v) const {
     return data[fm_.vertexToPos(v)].comp;
   }
 
   // This function sets comp of v to be c.
-  void setComp(DirectedFrontierData* data, short v, short c) const {
+  void setComp(DirectedFrontierData* data, int v, int c) const {
     data[fm_.vertexToPos(v)].comp = c;
   }
 
@@ -88,15 +88,10 @@ class FrontierDirectedSingleHamiltonianCycleSpec
  public:
   FrontierDirectedSingleHamiltonianCycleSpec(const graphillion::Digraph& graph)
       : graph_(graph),
-        n_(static_cast<short>(graph_.vertexSize())),
+        n_(graph_.vertexSize()),
         m_(graph_.edgeSize()),
         fm_(graph_),
         all_entered_level_(m_ - fm_.getAllVerticesEnteringLevel()) {
-    if (graph_.vertexSize() > SHRT_MAX) {  // SHRT_MAX == 32767
-      std::cerr << "The number of vertices should be at most " << SHRT_MAX
-                << std::endl;
-      exit(1);
-    }
     setArraySize(fm_.getMaxFrontierSize());
   }
 
@@ -136,11 +131,11 @@ class FrontierDirectedSingleHamiltonianCycleSpec
       setIndeg(data, edge.v2, indeg2 + 1);
       setOutdeg(data, edge.v1, outdeg1 + 1);
 
-      short c1 = getComp(data, edge.v1);
-      short c2 = getComp(data, edge.v2);
+      int c1 = getComp(data, edge.v1);
+      int c2 = getComp(data, edge.v2);
       if (c1 != c2) {  // connected components c1 and c2 become connected
-        short cmin = std::min(c1, c2);
-        short cmax = std::max(c1, c2);
+        int cmin = std::min(c1, c2);
+        int cmax = std::max(c1, c2);
 
         // replace component number cmin with cmax
         for (size_t i = 0; i < frontier_vs.size(); ++i) {
diff --git a/src/graphillion/digraphs/FrontierDirectedSTPath.hpp b/src/graphillion/digraphs/FrontierDirectedSTPath.hpp
index 8ce3e10..21b4a60 100644
--- a/src/graphillion/digraphs/FrontierDirectedSTPath.hpp
+++ b/src/graphillion/digraphs/FrontierDirectedSTPath.hpp
@@ -40,15 +40,15 @@ class FrontierDirectedSTPathSpec
   // input graph
   const graphillion::Digraph& graph_;
   // number of vertices
-  const short n_;
+  const int n_;
   // number of edges
   const int m_;
 
   const bool isHamiltonian_;
 
   // endpoints of a path
-  const short s_;
-  const short t_;
+  const int s_;
+  const int t_;
 
   const FrontierManager fm_;
 
@@ -57,30 +57,30 @@ class FrontierDirectedSTPathSpec
   const int min_entered_level_;
 
   // This function gets deg of v.
-  short getIndeg(DirectedFrontierData* data, short v) const {
+  int getIndeg(DirectedFrontierData* data, int v) const {
     return data[fm_.vertexToPos(v)].indeg;
   }
 
-  short getOutdeg(DirectedFrontierData* data, short v) const {
+  int getOutdeg(DirectedFrontierData* data, int v) const {
     return data[fm_.vertexToPos(v)].outdeg;
   }
 
   // This function sets deg of v to be d.
-  void setIndeg(DirectedFrontierData* data, short v, short d) const {
+  void setIndeg(DirectedFrontierData* data, int v, int d) const {
     data[fm_.vertexToPos(v)].indeg = d;
   }
 
-  void setOutdeg(DirectedFrontierData* data, short v, short d) const {
+  void setOutdeg(DirectedFrontierData* data, int v, int d) const {
     data[fm_.vertexToPos(v)].outdeg = d;
   }
 
   // This function gets comp of v.
-  short getComp(DirectedFrontierData* data, short v) const {
+  int getComp(DirectedFrontierData* data, int v) const {
     return data[fm_.vertexToPos(v)].comp;
   }
 
   // This function sets comp of v to be c.
-  void setComp(DirectedFrontierData* data, short v, short c) const {
+  void setComp(DirectedFrontierData* data, int v, int c) const {
     data[fm_.vertexToPos(v)].comp = c;
   }
 
@@ -92,15 +92,15 @@ class FrontierDirectedSTPathSpec
     }
   }
 
-  int computeEnteredLevel(short v) const {
+  int computeEnteredLevel(int v) const {
     return m_ - fm_.getVerticesEnteringLevel(v);
   }
 
  public:
   FrontierDirectedSTPathSpec(const graphillion::Digraph& graph, bool isHamiltonian,
-                             short s, short t)
+                             int s, int t)
       : graph_(graph),
-        n_(static_cast<short>(graph_.vertexSize())),
+        n_(graph_.vertexSize()),
         m_(graph_.edgeSize()),
         isHamiltonian_(isHamiltonian),
         s_(s),
@@ -109,11 +109,6 @@ class FrontierDirectedSTPathSpec
         s_entered_level_(computeEnteredLevel(s)),
         t_entered_level_(computeEnteredLevel(t)),
         min_entered_level_(m_ - fm_.getAllVerticesEnteringLevel()) {
-    if (graph_.vertexSize() > SHRT_MAX) {  // SHRT_MAX == 32767
-      std::cerr << "The number of vertices should be at most " << SHRT_MAX
-                << std::endl;
-      exit(1);
-    }
     setArraySize(fm_.getMaxFrontierSize());
   }
 
@@ -153,11 +148,11 @@ class FrontierDirectedSTPathSpec
       setIndeg(data, edge.v2, indeg2 + 1);
       setOutdeg(data, edge.v1, outdeg1 + 1);
 
-      short c1 = getComp(data, edge.v1);
-      short c2 = getComp(data, edge.v2);
+      int c1 = getComp(data, edge.v1);
+      int c2 = getComp(data, edge.v2);
       if (c1 != c2) {  // connected components c1 and c2 become connected
-        short cmin = std::min(c1, c2);
-        short cmax = std::max(c1, c2);
+        int cmin = std::min(c1, c2);
+        int cmax = std::max(c1, c2);
 
         // replace component number cmin with cmax
         for (size_t i = 0; i < frontier_vs.size(); ++i) {
diff --git a/src/graphillion/digraphs/FrontierDirectedSingleCycle.hpp b/src/graphillion/digraphs/FrontierDirectedSingleCycle.hpp
index 5e441c3..4e43b7a 100644
--- a/src/graphillion/digraphs/FrontierDirectedSingleCycle.hpp
+++ b/src/graphillion/digraphs/FrontierDirectedSingleCycle.hpp
@@ -40,37 +40,37 @@ class FrontierDirectedSingleCycleSpec
   // input graph
   const graphillion::Digraph& graph_;
   // number of vertices
-  const short n_;
+  const int n_;
   // number of edges
   const int m_;
 
   const FrontierManager fm_;
 
   // This function gets deg of v.
-  short getIndeg(DirectedFrontierData* data, short v) const {
+  int getIndeg(DirectedFrontierData* data, int v) const {
     return data[fm_.vertexToPos(v)].indeg;
   }
 
-  short getOutdeg(DirectedFrontierData* data, short v) const {
+  int getOutdeg(DirectedFrontierData* data, int v) const {
     return data[fm_.vertexToPos(v)].outdeg;
   }
 
   // This function sets deg of v to be d.
-  void setIndeg(DirectedFrontierData* data, short v, short d) const {
+  void setIndeg(DirectedFrontierData* data, int v, int d) const {
     data[fm_.vertexToPos(v)].indeg = d;
   }
 
-  void setOutdeg(DirectedFrontierData* data, short v, short d) const {
+  void setOutdeg(DirectedFrontierData* data, int v, int d) const {
     data[fm_.vertexToPos(v)].outdeg = d;
   }
 
   // This function gets comp of v.
-  short getComp(DirectedFrontierData* data, short v) const {
+  int getComp(DirectedFrontierData* data, int v) const {
     return data[fm_.vertexToPos(v)].comp;
   }
 
   // This function sets comp of v to be c.
-  void setComp(DirectedFrontierData* data, short v, short c) const {
+  void setComp(DirectedFrontierData* data, int v, int c) const {
     data[fm_.vertexToPos(v)].comp = c;
   }
 
@@ -85,14 +85,9 @@ class FrontierDirectedSingleCycleSpec
  public:
   FrontierDirectedSingleCycleSpec(const graphillion::Digraph& graph)
       : graph_(graph),
-        n_(static_cast<short>(graph_.vertexSize())),
+        n_(graph_.vertexSize()),
         m_(graph_.edgeSize()),
         fm_(graph_) {
-    if (graph_.vertexSize() > SHRT_MAX) {  // SHRT_MAX == 32767
-      std::cerr << "The number of vertices should be at most " << SHRT_MAX
-                << std::endl;
-      exit(1);
-    }
     setArraySize(fm_.getMaxFrontierSize());
   }
 
@@ -132,11 +127,11 @@ class FrontierDirectedSingleCycleSpec
       setIndeg(data, edge.v2, indeg2 + 1);
       setOutdeg(data, edge.v1, outdeg1 + 1);
 
-      short c1 = getComp(data, edge.v1);
-      short c2 = getComp(data, edge.v2);
+      int c1 = getComp(data, edge.v1);
+      int c2 = getComp(data, edge.v2);
       if (c1 != c2) {  // connected components c1 and c2 become connected
-        short cmin = std::min(c1, c2);
-        short cmax = std::max(c1, c2);
+        int cmin = std::min(c1, c2);
+        int cmax = std::max(c1, c2);
 
         // replace component number cmin with cmax
         for (size_t i = 0; i < frontier_vs.size(); ++i) {
diff --git a/src/graphillion/digraphs/FrontierManager.hpp b/src/graphillion/digraphs/FrontierManager.hpp
index e4cfd75..6e64ca1 100644
--- a/src/graphillion/digraphs/FrontierManager.hpp
+++ b/src/graphillion/digraphs/FrontierManager.hpp
@@ -207,7 +207,7 @@ class FrontierManager {
     return pos_to_vertex_[index][pos];
   }
 
-  int getVerticesEnteringLevel(short v) const {
+  int getVerticesEnteringLevel(int v) const {
     for (size_t i = 0; i < entering_vss_.size(); ++i) {
       for (size_t j = 0; j < entering_vss_[i].size(); ++j) {
         if (entering_vss_[i][j] == v) {
diff --git a/src/graphillion/digraphs/FrontierRootedForest.hpp b/src/graphillion/digraphs/FrontierRootedForest.hpp
index 97992f3..d2ab7b6 100644
--- a/src/graphillion/digraphs/FrontierRootedForest.hpp
+++ b/src/graphillion/digraphs/FrontierRootedForest.hpp
@@ -34,7 +34,6 @@ SOFTWARE.
 
 using namespace tdzdd;
 
-typedef unsigned short ushort;
 
 class FrontierRootedForestSpec
     : public tdzdd::PodArrayDdSpec<FrontierRootedForestSpec,
@@ -47,37 +46,37 @@ class FrontierRootedForestSpec
   // spanning forest or not
   bool is_spanning;
   // number of vertices
-  const short n_;
+  const int n_;
   // number of edges
   const int m_;
 
   const FrontierManager fm_;
 
   // This function gets deg of v.
-  short getIndeg(DirectedFrontierData* data, int v) const {
+  int getIndeg(DirectedFrontierData* data, int v) const {
     return data[fm_.vertexToPos(v)].indeg;
   }
 
-  short getOutdeg(DirectedFrontierData* data, int v) const {
+  int getOutdeg(DirectedFrontierData* data, int v) const {
     return data[fm_.vertexToPos(v)].outdeg;
   }
 
   // This function sets deg of v to be d.
-  void setIndeg(DirectedFrontierData* data, int v, short d) const {
+  void setIndeg(DirectedFrontierData* data, int v, int d) const {
     data[fm_.vertexToPos(v)].indeg = d;
   }
 
-  void setOutdeg(DirectedFrontierData* data, int v, short d) const {
+  void setOutdeg(DirectedFrontierData* data, int v, int d) const {
     data[fm_.vertexToPos(v)].outdeg = d;
   }
 
   // This function gets comp of v.
-  ushort getComp(DirectedFrontierData* data, int v) const {
+  int getComp(DirectedFrontierData* data, int v) const {
     return data[fm_.vertexToPos(v)].comp;
   }
 
   // This function sets comp of v to be c.
-  void setComp(DirectedFrontierData* data, int v, ushort c) const {
+  void setComp(DirectedFrontierData* data, int v, int c) const {
     data[fm_.vertexToPos(v)].comp = c;
   }
 
@@ -96,14 +95,9 @@ class FrontierRootedForestSpec
       : graph_(graph),
         roots(_roots),
         is_spanning(_is_spanning),
-        n_(static_cast<short>(graph_.vertexSize())),
+        n_(graph_.vertexSize()),
         m_(graph_.edgeSize()),
         fm_(graph_) {
-    if (graph_.vertexSize() >= (1 << 16)) {
-      std::cerr << "The number of vertices must be smaller than 2^15."
-                << std::endl;
-      exit(1);
-    }
     setArraySize(fm_.getMaxFrontierSize());
   }
 
@@ -129,7 +123,7 @@ class FrontierRootedForestSpec
       setIndeg(data, v, 0);
       setOutdeg(data, v, 0);
       // initially the value of comp is the vertex number itself
-      setComp(data, v, static_cast<ushort>(v));
+      setComp(data, v, v);
     }
 
     // vertices on the frontier
@@ -143,16 +137,16 @@ class FrontierRootedForestSpec
       setIndeg(data, edge.v2, indeg2 + 1);
       setOutdeg(data, edge.v1, outdeg1 + 1);
 
-      ushort c1 = getComp(data, edge.v1);
-      ushort c2 = getComp(data, edge.v2);
+      int c1 = getComp(data, edge.v1);
+      int c2 = getComp(data, edge.v2);
 
       if (c1 == c2) {  // Any cycle must not occur.
         return 0;
       }
 
       if (c1 != c2) {  // connected components c1 and c2 become connected
-        ushort cmin = std::min(c1, c2);
-        ushort cmax = std::max(c1, c2);
+        int cmin = std::min(c1, c2);
+        int cmax = std::max(c1, c2);
 
         // replace component number cmin with cmax
         for (size_t i = 0; i < frontier_vs.size(); ++i) {
diff --git a/src/graphillion/digraphs/FrontierRootedTree.hpp b/src/graphillion/digraphs/FrontierRootedTree.hpp
index 459e91c..5f5cb5d 100644
--- a/src/graphillion/digraphs/FrontierRootedTree.hpp
+++ b/src/graphillion/digraphs/FrontierRootedTree.hpp
@@ -33,9 +33,8 @@ SOFTWARE.
 
 using namespace tdzdd;
 
-typedef unsigned short ushort;
 
-typedef unsigned short FrontierTreeData;
+typedef int FrontierTreeData;
 
 class FrontierRootedTreeSpec
     : public tdzdd::PodArrayDdSpec<FrontierRootedTreeSpec, DirectedFrontierData,
@@ -44,12 +43,12 @@ class FrontierRootedTreeSpec
   // input graph
   const graphillion::Digraph& graph_;
   // number of vertices
-  const short n_;
+  const int n_;
   // number of edges
   const int m_;
 
   // root node
-  const ushort root_;
+  const int root_;
 
   const bool isSpanning_;
 
@@ -59,35 +58,35 @@ class FrontierRootedTreeSpec
   const int all_entered_level_;
 
   // This function gets deg of v.
-  short getIndeg(DirectedFrontierData* data, short v) const {
+  int getIndeg(DirectedFrontierData* data, int v) const {
     return data[fm_.vertexToPos(v)].indeg;
   }
 
-  short getOutdeg(DirectedFrontierData* data, short v) const {
+  int getOutdeg(DirectedFrontierData* data, int v) const {
     return data[fm_.vertexToPos(v)].outdeg;
   }
 
   // This function sets deg of v to be d.
-  void setIndeg(DirectedFrontierData* data, short v, short d) const {
+  void setIndeg(DirectedFrontierData* data, int v, int d) const {
     data[fm_.vertexToPos(v)].indeg = d;
   }
 
-  void setOutdeg(DirectedFrontierData* data, short v, short d) const {
+  void setOutdeg(DirectedFrontierData* data, int v, int d) const {
     data[fm_.vertexToPos(v)].outdeg = d;
   }
 
-  void resetDeg(DirectedFrontierData* data, short v) const {
+  void resetDeg(DirectedFrontierData* data, int v) const {
     setIndeg(data, v, 0);
     setOutdeg(data, v, 0);
   }
 
   // This function gets comp of v.
-  ushort getComp(DirectedFrontierData* data, short v) const {
+  int getComp(DirectedFrontierData* data, int v) const {
     return data[fm_.vertexToPos(v)].comp;
   }
 
   // This function sets comp of v to be c.
-  void setComp(DirectedFrontierData* data, short v, ushort c) const {
+  void setComp(DirectedFrontierData* data, int v, int c) const {
     data[fm_.vertexToPos(v)].comp = c;
   }
 
@@ -100,7 +99,7 @@ class FrontierRootedTreeSpec
   }
 
  public:
-  FrontierRootedTreeSpec(const graphillion::Digraph& graph, ushort root,
+  FrontierRootedTreeSpec(const graphillion::Digraph& graph, int root,
                          bool isSpanning)
       : graph_(graph),
         n_(graph_.vertexSize()),
@@ -109,11 +108,6 @@ class FrontierRootedTreeSpec
         isSpanning_(isSpanning),
         fm_(graph_),
         all_entered_level_(m_ - fm_.getAllVerticesEnteringLevel()) {
-    if (graph_.vertexSize() >= (1 << 15)) {
-      std::cerr << "The number of vertices must be smaller than 2^15."
-                << std::endl;
-      exit(1);
-    }
     setArraySize(fm_.getMaxFrontierSize());
   }
 
@@ -137,15 +131,15 @@ class FrontierRootedTreeSpec
       int v = entering_vs[i];
       // initially the value of comp is the vertex number itself
       resetDeg(data, v);
-      setComp(data, v, static_cast<ushort>(v));
+      setComp(data, v, v);
     }
 
     // vertices on the frontier
     const std::vector<int>& frontier_vs = fm_.getFrontierVs(edge_index);
 
     if (value == 1) {  // if we take the edge (go to 1-arc)
-      ushort c1 = getComp(data, edge.v1);
-      ushort c2 = getComp(data, edge.v2);
+      int c1 = getComp(data, edge.v1);
+      int c2 = getComp(data, edge.v2);
 
       if (c1 == c2) {  // Any cycle must not occur.
         return 0;
@@ -158,8 +152,8 @@ class FrontierRootedTreeSpec
       setOutdeg(data, edge.v1, outdeg1 + 1);
 
       if (c1 != c2) {  // connected components c1 and c2 become connected
-        ushort cmin = std::min(c1, c2);
-        ushort cmax = std::max(c1, c2);
+        int cmin = std::min(c1, c2);
+        int cmax = std::max(c1, c2);
 
         // replace component number cmin with cmax
         for (size_t i = 0; i < frontier_vs.size(); ++i) {
diff --git a/src/graphillion/regular/RegularGraphs.cc b/src/graphillion/regular/RegularGraphs.cc
index 3b49a9c..9938079 100644
--- a/src/graphillion/regular/RegularGraphs.cc
+++ b/src/graphillion/regular/RegularGraphs.cc
@@ -12,9 +12,9 @@
 #include <vector>
 #include <climits>
 
-typedef unsigned short RData;
+typedef int RData;
 
-const int RData_MAX = USHRT_MAX;
+const int RData_MAX = INT_MAX;
 
 class RegularSpec
   : public tdzdd::PodArrayDdSpec<RegularSpec, RData, 2> {
@@ -87,7 +87,7 @@ public:
               const int degree_upper,
               const bool is_connected)
     : graph_(graph),
-      n_(static_cast<short>(graph_.vertexSize())),
+      n_(graph_.vertexSize()),
       m_(graph_.edgeSize()),
       deg_lower_(degree_lower),
       deg_upper_(degree_upper),
@@ -96,12 +96,6 @@ public:
       fixedDegStart_(is_connected ? (fm_.getMaxFrontierSize() * 2) :
                       fm_.getMaxFrontierSize())
   {
-    if (graph_.vertexSize() > SHRT_MAX) { // SHRT_MAX == 32767
-      std::cerr << "The number of vertices should be at most "
-            << SHRT_MAX << std::endl;
-      exit(1);
-    }
-
     setArraySize(fixedDegStart_ + 1);
   }
 
@@ -157,11 +151,11 @@ public:
       setDeg(data, edge.v2, getDeg(data, edge.v2) + 1);
 
       if (is_connected_) {
-        short c1 = getComp(data, edge.v1, edge_index);
-        short c2 = getComp(data, edge.v2, edge_index);
+        int c1 = getComp(data, edge.v1, edge_index);
+        int c2 = getComp(data, edge.v2, edge_index);
         if (c1 != c2) { // connected components c1 and c2 become connected
-          short cmin = std::min(c1, c2);
-          short cmax = std::max(c1, c2);
+          int cmin = std::min(c1, c2);
+          int cmax = std::max(c1, c2);
 
           // replace component number cmin with cmax
           for (size_t i = 0; i < frontier_vs.size(); ++i) {
-- 
2.43.0


From fa4ccfe2958112f6156d2dfc7420446349e7f90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:16 +0000
Subject: [PATCH 68/69] fix: rand_iter was not uniform over families of more
 than 1e308 sets

---
 src/graphillion/setset.h | 4 ++--
 src/graphillion/zdd.cc   | 8 ++++----
 src/graphillion/zdd.h    | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/graphillion/setset.h b/src/graphillion/setset.h
index 6c2f07b..48fe425 100644
--- a/src/graphillion/setset.h
+++ b/src/graphillion/setset.h
@@ -86,8 +86,8 @@ class setset {
    protected:
     virtual void next();
 
-    double size_;
-    std::map<word_t, std::pair<zdd_t, double> > counts_;  // for choose_random
+    long double size_;
+    std::map<word_t, std::pair<zdd_t, long double> > counts_;  // for choose_random
   };
 
   class weighted_iterator : public iterator {
diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 0690e90..52737d1 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -349,8 +349,8 @@ zdd_t choose_random(zdd_t f, vector<elem_t>* stack, count_cache* counts) {
     }
     assert(false);
   }
-  double ch = algo_c(hi(f), counts);
-  double cl = algo_c(lo(f), counts);
+  long double ch = algo_c(hi(f), counts);
+  long double cl = algo_c(lo(f), counts);
   if (rand_xor128() > cl / (ch + cl)) {
     stack->push_back(elem(f));
     return choose_random(hi(f), stack, counts);
@@ -624,13 +624,13 @@ void algo_b(zdd_t f, const vector<double>& w, vector<bool>* x) {
 }
 
 // Algorithm C modified for ZDD, from Knuth vol. 4 fascicle 1 sec. 7.1.4 (p.75).
-double algo_c(zdd_t f, count_cache* counts) {
+long double algo_c(zdd_t f, count_cache* counts) {
   if (is_term(f))
     return f == top() ? 1 : 0;
   count_cache::iterator i = counts->find(id(f));
   if (i != counts->end())
     return i->second.second;
-  double c = algo_c(hi(f), counts) + algo_c(lo(f), counts);
+  long double c = algo_c(hi(f), counts) + algo_c(lo(f), counts);
   (*counts)[id(f)] = std::make_pair(f, c);
   return c;
 }
diff --git a/src/graphillion/zdd.h b/src/graphillion/zdd.h
index 30a11d0..a94c5cc 100644
--- a/src/graphillion/zdd.h
+++ b/src/graphillion/zdd.h
@@ -77,7 +77,7 @@ zdd_t non_subsets(zdd_t f, zdd_t g);
 zdd_t non_supersets(zdd_t f, zdd_t g);
 bool choose(zdd_t f, std::vector<elem_t>* stack);
 // The entries hold their nodes, because the IDs of freed nodes are reused.
-typedef std::map<word_t, std::pair<zdd_t, double> > count_cache;
+typedef std::map<word_t, std::pair<zdd_t, long double> > count_cache;
 zdd_t choose_random(zdd_t f, std::vector<elem_t>* stack, count_cache* counts);
 zdd_t choose_best(zdd_t f, const std::vector<double>& weights,
                   std::set<elem_t>* s);
@@ -97,7 +97,7 @@ void _enum(zdd_t f, std::ostream& out, std::vector<elem_t>* stack, bool* first,
 void _enum(zdd_t f, FILE* fp, std::vector<elem_t>* stack, bool* first,
            const std::pair<const char*, const char*>& inner_braces);
 void algo_b(zdd_t f, const std::vector<double>& w, std::vector<bool>* x);
-double algo_c(zdd_t f, count_cache* counts);
+long double algo_c(zdd_t f, count_cache* counts);
 double probability(elem_t e, zdd_t f, const std::vector<double>& probabilities,
                    std::map<word_t, double>& cache, elem_t num_elems_a);
 zdd_t zuniq(elem_t v, zdd_t l, zdd_t h);
-- 
2.43.0


From 6584527397d836d5118eca5fdbe9f1af109ca145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:58 +0000
Subject: [PATCH 69/69] fix: copy.copy() of a family shared its storage with
 the original

---
 graphillion/digraphset.py        | 2 ++
 graphillion/edgevertex_setset.py | 2 ++
 graphillion/graphset.py          | 2 ++
 graphillion/vertex_setset.py     | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 0ce41ad..0d994cc 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -169,6 +169,8 @@ class DiGraphSet(object):
         """
         return DiGraphSet(self)
 
+    __copy__ = copy  # copy.copy(), which would share the family
+
     def __bool__(self):
         return bool(self._ss)
 
diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index 8f75f1c..c2c6ee5 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -155,6 +155,8 @@ class EdgeVertexSetSet(object):
         """
         return EdgeVertexSetSet(self)
 
+    __copy__ = copy  # copy.copy(), which would share the family
+
     def __bool__(self):
         return bool(self._ss)
 
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 750f35c..8c04c5d 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -169,6 +169,8 @@ class GraphSet(object):
         """
         return GraphSet(self)
 
+    __copy__ = copy  # copy.copy(), which would share the family
+
     def __bool__(self):
         return bool(self._ss)
 
diff --git a/graphillion/vertex_setset.py b/graphillion/vertex_setset.py
index a8e1e34..3ac1e11 100644
--- a/graphillion/vertex_setset.py
+++ b/graphillion/vertex_setset.py
@@ -163,6 +163,8 @@ class VertexSetSet(object):
         """
         return VertexSetSet(self)
 
+    __copy__ = copy  # copy.copy(), which would share the family
+
     def __bool__(self):
         return bool(self._ss)
 
-- 
2.43.0

