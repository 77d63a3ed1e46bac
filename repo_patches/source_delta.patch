From bfa5652d0db4e165da3f33a54b2c787c24b76836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 01/43] fix: random start solution for one region is a label
 array like any other

The shortcut yielded a dict, which made every heuristic crash for
n_regions=1, and accepted a map with several connected components.
---
 region/util.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/region/util.py b/region/util.py
index ff3721c..927d58b 100755
--- a/region/util.py
+++ b/region/util.py
@@ -611,9 +611,6 @@ def generate_initial_sol(adj, n_regions):
             "less than or equal to the number of areas "
             "({}).".format(n_regions, n_areas)
         )
-    if n_regions == 1:
-        yield {area: 0 for area in range(n_areas)}
-        return
 
     n_comps, comp_labels = csg.connected_components(adj)
     if n_comps > n_regions:
-- 
2.43.0


From 235816af46be20b2606839b1fcbc4d7f9def534d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 02/43] fix: keep attributes aligned with the adjacency matrix
 of a networkx graph

The adjacency matrix lists the nodes in insertion order, the attributes
were sorted by node.
---
 region/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/region/util.py b/region/util.py
index 927d58b..a3ae3e6 100755
--- a/region/util.py
+++ b/region/util.py
@@ -245,7 +245,8 @@ def array_from_graph(graph, attr):
     True
     """
     dct = dict_from_graph_attr(graph, attr)
-    return array_from_dict_values(dct)
+    # same order as in the adjacency matrix of the graph
+    return array_from_dict_values(dct, sorted_keys=list(graph.nodes()))
 
 
 def array_from_graph_or_dict(graph, attr):
-- 
2.43.0


From 7b5336dd13d12921583b8540172a65556f6ef095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 03/43] fix: refuse dicts whose keys differ from the areas in
 AZP fits

Surplus keys shifted the attributes to other areas when the number of
values happened to be divisible by the number of keys, surplus start
labels were dropped.
---
 region/p_regions/azp.py | 14 ++++++++++++++
 region/util.py          |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 42027f4..42c22ea 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -266,6 +266,13 @@ class AZP:
             Refer to the corresponding argument in
             :meth:`fit_from_scipy_sparse_matrix`.
         """
+        if attr.keys() != neighbor_dict.keys():
+            raise ValueError("The attr argument has to have the same keys as "
+                             "neighbor_dict.")
+        if initial_labels is not None and \
+                initial_labels.keys() != neighbor_dict.keys():
+            raise ValueError("The initial_labels argument has to have the "
+                             "same keys as neighbor_dict.")
         sorted_areas = sorted(neighbor_dict)
 
         adj = scipy_sparse_matrix_from_dict(neighbor_dict)
@@ -526,6 +533,13 @@ class AZPSimulatedAnnealing:
             Refer to the corresponding argument in
             :meth:`fit_from_scipy_sparse_matrix`.
         """
+        if attr.keys() != neighbor_dict.keys():
+            raise ValueError("The attr argument has to have the same keys as "
+                             "neighbor_dict.")
+        if initial_labels is not None and \
+                initial_labels.keys() != neighbor_dict.keys():
+            raise ValueError("The initial_labels argument has to have the "
+                             "same keys as neighbor_dict.")
         sorted_areas = sorted(neighbor_dict)
         adj = scipy_sparse_matrix_from_dict(neighbor_dict)
         attr_arr = array_from_dict_values(attr, sorted_areas)
diff --git a/region/util.py b/region/util.py
index a3ae3e6..b98b36a 100755
--- a/region/util.py
+++ b/region/util.py
@@ -74,7 +74,7 @@ def array_from_dict_values(dct, sorted_keys=None, flat_output=False, dtype=np.fl
     flat_arr = np.fromiter(it, dtype=dtype)
     if flat_output:
         return flat_arr
-    return flat_arr.reshape((len(dct), -1))
+    return flat_arr.reshape((len(sorted_keys), -1))
 
 
 def scipy_sparse_matrix_from_dict(neighbors):
-- 
2.43.0


From aad7de7ee970abd57e0e3dcce2388193f6d3592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 04/43] fix: pass start labels of a networkx graph on as
 one-dimensional array

The column vector made every fit_from_networkx with initial_labels crash.
---
 region/p_regions/azp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 42c22ea..23c805d 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -189,7 +189,8 @@ class AZP:
         adj = nx.to_scipy_sparse_matrix(graph)
         attr = array_from_graph_or_dict(graph, attr)
         if initial_labels is not None:
-            initial_labels = array_from_graph_or_dict(graph, initial_labels)
+            initial_labels = array_from_graph_or_dict(
+                graph, initial_labels).flatten()
         self.fit_from_scipy_sparse_matrix(
             adj,
             attr,
@@ -587,7 +588,8 @@ class AZPSimulatedAnnealing:
         adj = nx.to_scipy_sparse_matrix(graph)
         attr = array_from_graph_or_dict(graph, attr)
         if initial_labels is not None:
-            initial_labels = array_from_graph_or_dict(graph, initial_labels)
+            initial_labels = array_from_graph_or_dict(
+                graph, initial_labels).flatten()
         self.fit_from_scipy_sparse_matrix(
             adj,
             attr,
-- 
2.43.0


From aa0dfd90344a8241c268f63f44ff2b36919b3774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 05/43] fix: exact p-regions compare areas by all of their
 attributes

The attributes were passed to the metric as a column, i.e. as several
observations with one attribute each.
---
 region/p_regions/exact.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 5f62ab0..1fb39e1 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -330,8 +330,8 @@ def _flow(adj, attr, n_regions, solver, metric):
     K = range(n_regions)  # index for regions
     d = {
         (i, j): metric(
-            attr[i].reshape(attr.shape[1], 1),  # reshaping to...
-            attr[j].reshape(attr.shape[1], 1))  # ...avoid warnings
+            attr[i].reshape(1, -1),  # reshaping to...
+            attr[j].reshape(1, -1))  # ...avoid warnings
         for i, j in II_upper_triangle
     }
 
@@ -442,8 +442,8 @@ def _order(adj, attr, n_regions, solver, metric):
     O = range(n_areas - n_regions)  # index for orders
     d = {
         (i, j): metric(
-            attr[i].reshape(attr.shape[1], 1),  # reshaping to...
-            attr[j].reshape(attr.shape[1], 1))  # ...avoid warnings
+            attr[i].reshape(1, -1),  # reshaping to...
+            attr[j].reshape(1, -1))  # ...avoid warnings
         for i, j in II_upper_triangle
     }
 
@@ -527,8 +527,8 @@ def _tree(adj, attr, n_regions, solver, metric):
     II_upper_triangle = [(i, j) for i, j in II if i < j]
     d = {
         (i, j): metric(
-            attr[i].reshape(attr.shape[1], 1),  # reshaping to...
-            attr[j].reshape(attr.shape[1], 1))  # ...avoid warnings
+            attr[i].reshape(1, -1),  # reshaping to...
+            attr[j].reshape(1, -1))  # ...avoid warnings
         for i, j in II
     }
     # Decision variables
-- 
2.43.0


From 186d8be583f8bfcd49fed8bf5b37249eb642777e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 06/43] fix: order formulation has an order for each area of
 the largest region

With as many regions as areas there was no order at all, with one region
less no region could have two areas.
---
 region/p_regions/exact.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 1fb39e1..e73d1e6 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -439,7 +439,7 @@ def _order(adj, attr, n_regions, solver, metric):
     II = [(i, j) for i in I for j in I]
     II_upper_triangle = [(i, j) for i, j in II if i < j]
     K = range(n_regions)  # index for regions
-    O = range(n_areas - n_regions)  # index for orders
+    O = range(n_areas - n_regions + 1)  # index for orders
     d = {
         (i, j): metric(
             attr[i].reshape(1, -1),  # reshaping to...
-- 
2.43.0


From 3e632906e1d824fb8637cd3de21c39184b3b9dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 07/43] fix: flow formulation allows regions of the largest
 possible size

A sink must be able to receive the flow of all n - p other areas of its
region; optimal solutions with a region of n - p + 1 areas were excluded.
---
 region/p_regions/exact.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index e73d1e6..4d76266 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -386,7 +386,7 @@ def _flow(adj, attr, n_regions, solver, metric):
     for i in I:
         for k in K:
             lhs = sum(f[i, j, k] - f[j, i, k] for j in neighbors(adj, i))
-            prob += lhs >= y[i, k] - (n_areas - n_regions) * w[i, k]
+            prob += lhs >= y[i, k] - (n_areas - n_regions + 1) * w[i, k]
     # (27) in Duque et al. (2011): "The p-Regions Problem"
     for i, j in II_upper_triangle:
         for k in K:
-- 
2.43.0


From 3b90dc3c36ff7361e0938f605aa5dfd117325cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 08/43] fix: tree formulation is feasible for n and n - 1
 regions

A tree can have up to n - p + 1 areas, so there have to be as many orders.
---
 region/p_regions/exact.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 4d76266..a1c57e4 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -565,12 +565,12 @@ def _tree(adj, attr, n_regions, solver, metric):
     # (9) in Duque et al. (2011): "The p-Regions Problem"
     for i in I:
         for j in neighbors(adj, i):
-            prob += u[i] - u[j] + (n_areas - n_regions) * x[i, j] \
-                    + (n_areas - n_regions - 2) * x[j, i] \
-                    <= n_areas - n_regions - 1
+            prob += u[i] - u[j] + (n_areas - n_regions + 1) * x[i, j] \
+                    + (n_areas - n_regions - 1) * x[j, i] \
+                    <= n_areas - n_regions
     # (10) in Duque et al. (2011): "The p-Regions Problem"
     for i in I:
-        prob += u[i] <= n_areas - n_regions
+        prob += u[i] <= n_areas - n_regions + 1
         prob += u[i] >= 1
     # (11) in Duque et al. (2011): "The p-Regions Problem"
     # already in LpVariable-definition
-- 
2.43.0


From 65828cc7b8715249471a4a723a6142fdf26d97f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 09/43] fix: tree method takes the regions from the trees

Areas of different trees can be joined by t at no cost, so regions were
merged or the extraction crashed for attributes with ties.
---
 region/p_regions/exact.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index a1c57e4..2a274e2 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -5,10 +5,11 @@ from geopandas import GeoDataFrame
 import numpy as np
 import networkx as nx
 from pulp import LpProblem, LpMinimize, LpVariable, LpInteger, lpSum
+from scipy.sparse.csgraph import connected_components
 
 from region.csgraph_utils import neighbors
 from region.util import array_from_df_col, array_from_dict_values,\
-    array_from_graph_or_dict, array_from_region_list, check_solver, copy_func,\
+    array_from_graph_or_dict, check_solver, copy_func,\
     get_metric_function, get_solver_instance, raise_distance_metric_not_set,\
     scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, w_from_gdf
 
@@ -581,18 +582,11 @@ def _tree(adj, attr, n_regions, solver, metric):
     solver = get_solver_instance(solver)
     prob.solve(solver)
 
-    # build a list of regions like [[0, 1, 2, 5], [3, 4, 6, 7, 8]]
-    idx_copy = set(I)
-    regions = [[] for _ in range(n_regions)]
-    for i in range(n_regions):
-        area = idx_copy.pop()
-        regions[i].append(area)
-
-        for other_area in idx_copy:
-            if t[area, other_area].varValue == 1:
-                regions[i].append(other_area)
-
-        idx_copy.difference_update(regions[i])
-
-    result = array_from_region_list(regions)
-    return result
+    # the regions are the trees; t is no substitute for x because it may also
+    # join areas of different trees if that comes at no cost
+    links = np.zeros((n_areas, n_areas))
+    for i in I:
+        for j in neighbors(adj, i):
+            links[i, j] = x[i, j].varValue > 0.5
+    result = connected_components(links, directed=False)[1]
+    return result.astype(float)
-- 
2.43.0


From d3d198d5d7a3557f7284c0abd477c8996611f26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 10/43] fix: exact p-regions raise an error if there is no
 solution

The status of the solver was ignored, so an infeasible request (e.g. less
regions than connected components) ended in arbitrary labels.
---
 region/p_regions/exact.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 2a274e2..7d18288 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -4,7 +4,8 @@ import numbers
 from geopandas import GeoDataFrame
 import numpy as np
 import networkx as nx
-from pulp import LpProblem, LpMinimize, LpVariable, LpInteger, lpSum
+from pulp import LpProblem, LpMinimize, LpStatusOptimal, LpVariable, \
+    LpInteger, lpSum
 from scipy.sparse.csgraph import connected_components
 
 from region.csgraph_utils import neighbors
@@ -403,7 +404,8 @@ def _flow(adj, attr, n_regions, solver, metric):
 
     # Solve the optimization problem
     solver = get_solver_instance(solver)
-    prob.solve(solver)
+    if prob.solve(solver) != LpStatusOptimal:
+        raise ValueError("The solver found no feasible solution.")
     result = np.zeros(n_areas)
     for i in I:
         for k in K:
@@ -489,7 +491,8 @@ def _order(adj, attr, n_regions, solver, metric):
 
     # Solve the optimization problem
     solver = get_solver_instance(solver)
-    prob.solve(solver)
+    if prob.solve(solver) != LpStatusOptimal:
+        raise ValueError("The solver found no feasible solution.")
     result = np.zeros(n_areas)
     for i in I:
         for k in K:
@@ -580,7 +583,8 @@ def _tree(adj, attr, n_regions, solver, metric):
 
     # Solve the optimization problem
     solver = get_solver_instance(solver)
-    prob.solve(solver)
+    if prob.solve(solver) != LpStatusOptimal:
+        raise ValueError("The solver found no feasible solution.")
 
     # the regions are the trees; t is no substitute for x because it may also
     # join areas of different trees if that comes at no cost
-- 
2.43.0


From bbb2643c2c21115d031e77739d0e1db4bd89162e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:45 +0000
Subject: [PATCH 11/43] fix: exact max-p raises an error if there is no
 solution

The status of the solver was ignored, so a threshold that no
regionalization can meet ended in arbitrary labels.
---
 region/max_p_regions/exact.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index 978d7bc..2417779 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -5,7 +5,8 @@ from math import floor, log10
 from geopandas import GeoDataFrame
 import numpy as np
 import networkx as nx
-from pulp import LpProblem, LpMinimize, LpVariable, LpInteger, lpSum
+from pulp import LpProblem, LpMinimize, LpStatusOptimal, LpVariable, \
+    LpInteger, lpSum
 
 from region.csgraph_utils import neighbors
 from region.util import array_from_df_col, array_from_dict_values,\
@@ -154,7 +155,8 @@ class MaxPRegionsExact:
 
         # Solve the optimization problem
         solver = get_solver_instance(solver)
-        prob.solve(solver=solver)
+        if prob.solve(solver=solver) != LpStatusOptimal:
+            raise ValueError("The solver found no feasible solution.")
         result = np.zeros(n_areas)
         for i in I:
             for k in K:
-- 
2.43.0


From d68d5bf9162fbd5623d3aa078b02517fa0eceab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:45 +0000
Subject: [PATCH 12/43] fix: exact max-p handles areas which all have the same
 attributes

log10 of the sum of distances is not defined if all distances are zero
(or if there is only one area).
---
 region/max_p_regions/exact.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index 2417779..f2b792a 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -90,7 +90,8 @@ class MaxPRegionsExact:
         d = {(i, j): self.metric(attr[i].reshape(1, -1), attr[j].reshape(
             1, -1))
              for i, j in II_upper_triangle}
-        h = 1 + floor(log10(sum(d[(i, j)] for i, j in II_upper_triangle)))
+        d_sum = sum(d[(i, j)] for i, j in II_upper_triangle)
+        h = 1 + floor(log10(d_sum)) if d_sum > 0 else 0
 
         # Decision variables
         t = LpVariable.dicts(
-- 
2.43.0


From 00dbeff0713d31c03d132dbcfcdb2827bf83e7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:45 +0000
Subject: [PATCH 13/43] fix: default local search of the max-p heuristic uses
 its random state

AZP() reseeded the random numbers from the operating system in the middle
of the first fit, so a given random_state did not determine the result.
---
 region/max_p_regions/heuristics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index d491871..229f946 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -32,6 +32,8 @@ class MaxPRegionsHeu:
         self.n_regions = None
         self.labels_ = None
         self.local_search = local_search
+        if self.local_search is None:
+            self.local_search = AZP(random_state=random_state)
         self.random_state = random_state
         random.seed(random_state)
         self.metric = raise_distance_metric_not_set
@@ -103,8 +105,6 @@ class MaxPRegionsHeu:
         for partition in feasible_partitions:
 
             # local search phase
-            if self.local_search is None:
-                self.local_search = AZP()
             self.local_search.allow_move_strategy = AllowMoveAZPMaxPRegions(
                 spatially_extensive_attr, threshold,
                 self.local_search.allow_move_strategy)
-- 
2.43.0


From c169c76f9ff0e368c5021b87ecfb5cfdab2985a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 14/43] fix: max-p heuristic leaves the move rule of the local
 search alone

The rule was wrapped again and again and never unwrapped, so thresholds and
attributes of earlier fits stayed in force (IndexError on another map) and
the caller's local search object was changed for good.
---
 region/max_p_regions/heuristics.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index 229f946..a684215 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -1,3 +1,4 @@
+import copy
 import random
 
 import networkx as nx
@@ -105,17 +106,18 @@ class MaxPRegionsHeu:
         for partition in feasible_partitions:
 
             # local search phase
-            self.local_search.allow_move_strategy = AllowMoveAZPMaxPRegions(
+            local_search = copy.copy(self.local_search)
+            local_search.allow_move_strategy = AllowMoveAZPMaxPRegions(
                 spatially_extensive_attr, threshold,
                 self.local_search.allow_move_strategy)
             for partition in feasible_partitions:
-                self.local_search.fit_from_scipy_sparse_matrix(
+                local_search.fit_from_scipy_sparse_matrix(
                     adj,
                     attr,
                     max_p,
                     initial_labels=array_from_region_list(partition),
                     objective_func=objective_func)
-                partition = self.local_search.labels_
+                partition = local_search.labels_
                 obj_value = objective_func(partition, attr)
                 if obj_value < best_obj_value:
                     best_obj_value = obj_value
-- 
2.43.0


From 485cde9e9ca88577c26995f92f5686f3e8c78b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 15/43] fix: max-p move rule reports the objective value of the
 rule it decorates

Its own objective value was never updated after the start, so AZP stopped
after one sweep even though it had found improvements.
---
 region/p_regions/azp_util.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/region/p_regions/azp_util.py b/region/p_regions/azp_util.py
index 683da60..af8e07a 100755
--- a/region/p_regions/azp_util.py
+++ b/region/p_regions/azp_util.py
@@ -177,8 +177,6 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
                             comp_idx):
         self.spatially_extensive_attr = self.spatially_extensive_attr_all[
             comp_idx]
-        super().start_new_component(initial_labels, attr, objective_func,
-                                    comp_idx)
         self._decorated_strategy.start_new_component(initial_labels, attr,
                                                      objective_func, comp_idx)
 
-- 
2.43.0


From 3b8f83099237c950db4531596453d5e424e9c90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 16/43] fix: max-p move rule checks the recipient for negative
 values

any() returns a boolean, which is never negative, so a move of an area with
a negative value could push the recipient below the threshold.
---
 region/p_regions/azp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/region/p_regions/azp_util.py b/region/p_regions/azp_util.py
index af8e07a..5b10263 100755
--- a/region/p_regions/azp_util.py
+++ b/region/p_regions/azp_util.py
@@ -183,7 +183,7 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
     def __call__(self, moving_area, new_region, labels):
         sp_ext = self.spatially_extensive_attr
 
-        if (sp_ext[moving_area]).any() > 0:
+        if (sp_ext[moving_area] > 0).any():
             donor_region = labels[moving_area]
             donor_idx = np.where(labels == donor_region)[0]
             donor_sum = sum(sp_ext[donor_idx]) - sp_ext[moving_area]
@@ -191,7 +191,7 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
             if not threshold_reached_donor:
                 return False
 
-        elif (sp_ext[moving_area]).any() < 0:
+        if (sp_ext[moving_area] < 0).any():
             recipient_idx = np.where(labels == new_region)[0]
             recipient_sum = sum(sp_ext[recipient_idx]) + sp_ext[moving_area]
             threshold_reached_recipient = (recipient_sum >=
-- 
2.43.0


From 94e7bf1b8ca955fa699e68dec4a5f1fd199d27a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 17/43] fix: simulated annealing keeps the max-p thresholds as
 local search

fit replaced the move rule set by MaxPRegionsHeu by a plain annealing rule,
so regions below the threshold were returned.
---
 region/p_regions/azp.py      |  8 +++++++-
 region/p_regions/azp_util.py | 11 +++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 23c805d..13c9ae6 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -10,6 +10,7 @@ from region.csgraph_utils import sub_adj_matrix, neighbors, is_connected
 from region.objective_function import ObjectiveFunctionPairwise
 from region.p_regions.azp_util import AllowMoveStrategy, \
                                             AllowMoveAZP,\
+                                            AllowMoveAZPMaxPRegions,\
                                             AllowMoveAZPSimulatedAnnealing
 from region.util import array_from_df_col, array_from_dict_values, \
     assert_feasible, boolean_assert_feasible, copy_func, count, generate_initial_sol, \
@@ -633,9 +634,14 @@ class AZPSimulatedAnnealing:
                              "than 0 and less than 1")
         if attr.ndim == 1:
             attr = attr.reshape(adj.shape[0], -1)
-        self.allow_move_strategy = AllowMoveAZPSimulatedAnnealing(
+        sa_strategy = AllowMoveAZPSimulatedAnnealing(
             init_temperature=self.init_temperature,
             sa_moves_term=self.sa_moves_term)
+        if isinstance(self.allow_move_strategy, AllowMoveAZPMaxPRegions):
+            # local search of MaxPRegionsHeu: the thresholds have to be kept
+            self.allow_move_strategy.decorate(sa_strategy)
+        else:
+            self.allow_move_strategy = sa_strategy
         self.allow_move_strategy.register_sa_moves_term(self.sa_moves_alert)
         self.allow_move_strategy.register_move_made(self.move_made_alert)
 
diff --git a/region/p_regions/azp_util.py b/region/p_regions/azp_util.py
index 5b10263..ec72138 100755
--- a/region/p_regions/azp_util.py
+++ b/region/p_regions/azp_util.py
@@ -201,6 +201,17 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
 
         return self._decorated_strategy(moving_area, new_region, labels)
 
+    def decorate(self, strategy):
+        """
+        Replace the decorated strategy.
+
+        Parameters
+        ----------
+        strategy : :class:`AllowMoveStrategy`
+            The :class:`AllowMoveStrategy` to decorate from now on.
+        """
+        self._decorated_strategy = strategy
+
     def __getattr__(self, name):
         """
         Forward calls to unimplemented methods to _decorated_strategy
-- 
2.43.0


From 0e36d34291801c692a90263e2e6c6666d9c75d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 18/43] fix: simulated annealing starts each fit without memory
 of earlier fits

Solutions visited by earlier fits counted as repetitions, and a move made in
the last round of an earlier fit prolonged the next one.
---
 region/p_regions/azp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 13c9ae6..c788031 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -648,6 +648,8 @@ class AZPSimulatedAnnealing:
         self.azp = AZP(
             allow_move_strategy=self.allow_move_strategy,
             random_state=self.random_state)
+        self.visited = []
+        self.move_made = False
         # step a
         t = self.init_temperature
         nonmoving_steps = 0
-- 
2.43.0


From 872e21cd0f3a48ad4b1aee69c9398424a7f2bfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 19/43] fix: max-p heuristic refuses to run without any
 construction

max_it < 1 silently left labels_ as it was.
---
 region/max_p_regions/heuristics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index a684215..9a460fe 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -77,6 +77,8 @@ class MaxPRegionsHeu:
             The objective function to use.
         """
 
+        if max_it < 1:
+            raise ValueError("The max_it argument must be positive.")
         w = weights.WSP(adj).to_W()
         areas_dict = w.neighbors
         self.metric = objective_func.metric
-- 
2.43.0


From f824a958aa1bfdf16c6e6af16b376ea636adf77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 20/43] fix: reactive tabu forgets the solutions of other
 components and fits

Solutions visited for one connected component (or by an earlier fit) were
returned as solution of the next one.
---
 region/p_regions/azp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index c788031..fcde513 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -952,6 +952,9 @@ class AZPReactiveTabu(AZPTabu):
             Refer to the return value in :meth:`AZP._azp_connected_component`.
         """
         self.reset_tabu(1)
+        self.visited = []
+        self.avg_it_until_rep = 1
+        self.rep_counter = 1
         # if there is only one region in the initial solution, just return it.
         distinct_regions = list(np.unique(initial_labels))
         if len(distinct_regions) == 1:
-- 
2.43.0


From 7e5d0f9c11d0f1ae1b8ecd99fe316bde028ceccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 21/43] fix: reactive tabu copes with solutions without
 possible moves

It crashed (AttributeError, ValueError) if no admissible move, or none
besides the best one, was left.
---
 region/p_regions/azp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index fcde513..45afe24 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -1000,6 +1000,8 @@ class AZPReactiveTabu(AZPTabu):
                 if obj_val_diff < best_objval_diff:
                     best_move_index, best_move = i, move
                     best_objval_diff = obj_val_diff
+            if best_move is None:
+                break  # there is no move left
             # step 5: Make the move if possible. Update the tabu status.
             if self.allow_move_strategy(best_move.area, best_move.new_region, labels):
                 self._make_move(best_move.area, best_move.new_region, labels, adj)
@@ -1037,7 +1039,7 @@ class AZPReactiveTabu(AZPTabu):
                         self.visited = []
                         p = math.floor(1 + self.avg_it_until_rep / 2)
                         possible_moves.pop(best_move_index)
-                        for _ in range(p):
+                        for _ in range(min(p, len(possible_moves))):
                             move = possible_moves.pop(random.randrange(len(possible_moves)))
                             if self.allow_move_strategy(move.area, move.new_region, labels):
                                 self._make_move(move.area, move.new_region, labels, adj)
-- 
2.43.0


From 4635a06709c37f1ace8030c56b0367e66b0eb9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 22/43] fix: reactive tabu keeps an integral tabu list length

1.1 * maxlen is a float, which deque refuses with a TypeError.
---
 region/p_regions/azp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 45afe24..dbf2b1f 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -1052,7 +1052,8 @@ class AZPReactiveTabu(AZPTabu):
                     self.avg_it_until_rep = 1 / self.rep_counter * \
                         ((self.rep_counter-1)*avg_it + it_until_repetition)
 
-                    self.tabu = deque(self.tabu, 1.1 * self.tabu.maxlen)
+                    self.tabu = deque(self.tabu,
+                                      math.ceil(1.1 * self.tabu.maxlen))
                     # step 9: If the number of iterations since R was last
                     # changed exceeds self.avg_it_until_rep, then decrease R to
                     # max(0.9*R, 1).
-- 
2.43.0


From a24479a0d6e6bb1676e380ec904d59e0c2c1909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 23/43] fix: reactive tabu returns the best solution it visited

The last but one solution was returned even if the search ended because of
max_iterations right after an improving move.
---
 region/p_regions/azp.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index dbf2b1f..d9cd063 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -972,6 +972,7 @@ class AZPReactiveTabu(AZPTabu):
             if not obj_val_end < obj_val_start:
                 break  # step 12
             obj_val_start = obj_val_end
+            best_labels = labels.copy()
 
             it_since_tabu_len_changed += 1
             # step 3: Define the list of all possible moves that are not tabu
@@ -1033,9 +1034,6 @@ class AZPReactiveTabu(AZPTabu):
                         # random moves, P = 1 + self.avg_it_until_rep/2, and
                         # update tabu to preclude a return to the previous
                         # state.
-                        # we save the labels such that we can access it if
-                        # this step yields a poor solution.
-                        last_step = (11, tuple(labels))
                         self.visited = []
                         p = math.floor(1 + self.avg_it_until_rep / 2)
                         possible_moves.pop(best_move_index)
@@ -1065,12 +1063,9 @@ class AZPReactiveTabu(AZPTabu):
 
             # step 10: Save the zoning system and go to step 12.
             self.visited.append(tuple(labels))
-            last_step = 10
-
-        if last_step == 10:
-            try:
-                return np.array(self.visited[-2])
-            except IndexError:
-                return np.array(self.visited[-1])
-        # if step 11 was the last one, the result is in last_step[1]
-        return np.array(last_step[1])
+
+        # the last move may have been an improvement if the loop ended because
+        # of the maximum number of iterations
+        if self.objective_func(labels, attr) < obj_val_start:
+            best_labels = labels
+        return best_labels
-- 
2.43.0


From 87f91e05cde080b75ad266fa95610d0de727f4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 24/43] fix: centre objective reports the exact change for
 every reduction

Reducing only donor and recipient is right for sums, but not e.g. for the
mean or maximum over all regions, and crashed if the donor region vanished.
---
 region/objective_function.py | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/region/objective_function.py b/region/objective_function.py
index 2cb51bb..aba92c0 100755
--- a/region/objective_function.py
+++ b/region/objective_function.py
@@ -144,22 +144,6 @@ class ObjectiveFunctionCenter(ObjectiveFunction):
             axis=0)
 
     def update(self, moving_area, recipient_region, labels, attr):
-        donor_region = labels[moving_area]
-
-        donor_before = self._intraregional_heterogeneity(
-            labels, donor_region, attr)
-        recipient_before = self._intraregional_heterogeneity(
-            labels, recipient_region, attr)
-
-        labels[moving_area] = recipient_region
-        donor_after = self._intraregional_heterogeneity(
-            labels, donor_region, attr)
-        recipient_after = self._intraregional_heterogeneity(
-            labels, recipient_region, attr)
-        labels[moving_area] = donor_region
-
-        overall_before = self.reduction((donor_before, recipient_before))
-        overall_after = self.reduction((donor_after, recipient_after))
-        diff = overall_after - overall_before
-
-        return diff
+        labels_after = labels.copy()
+        labels_after[moving_area] = recipient_region
+        return self(labels_after, attr) - self(labels, attr)
-- 
2.43.0


From f9ef18c2da07df1ea21a2ba436ae5d2e997eb4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 25/43] fix: skater accepts an affinity

Scores are computed with two arguments, so every fit with an affinity ended
in a TypeError.
---
 region/skater/skater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index 240edf9..cf79054 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -32,7 +32,7 @@ class Spanning_Forest(object):
         if affinity is not None:
             # invert the 0,1 affinity to 
             # to an unbounded positive dissimilarity
-            metric = lambda x: -np.log(affinity(x))
+            metric = lambda X, Y=None: -np.log(affinity(X, Y))
         else:
             metric = dissimilarity
         self.metric = metric
-- 
2.43.0


From ae945a1daee85abeacff5c82d3c2c6b6e8399681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 26/43] fix: skater keeps the links between areas with equal
 attributes

Links with dissimilarity zero were eliminated, so such areas were treated as
islands or separated.
---
 region/skater/skater.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index cf79054..169a319 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -79,7 +79,8 @@ class Spanning_Forest(object):
         super_verbose = verbose > 1
         start_W = time.time()
         dissim = W.multiply(attribute_kernel)
-        dissim.eliminate_zeros()
+        # neighbors with equal attributes are neighbors nonetheless
+        dissim.data[dissim.data == 0] = np.finfo(float).tiny
         end_W = time.time() - start_W
         
         if super_verbose:
-- 
2.43.0


From 49ee17e892c540457792d71a47bdf44059b6568b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 27/43] fix: skater scores labels which are not 0, ..., k-1

---
 region/skater/skater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index 169a319..21013eb 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -177,7 +177,7 @@ class Spanning_Forest(object):
                                                   Y=self.center(data[labels==l], 
                                                                 axis=0).reshape(1,-1)
                                                  )
-                                     ) for l in range(n_subtrees)]
+                                     ) for l in np.unique(labels)]
         return self.reduction(part_scores).item()
     
     def find_cut(self, MSF, data=None, quorum=-np.inf, 
-- 
2.43.0


From ed5fb1c9485820b3fa0e9f780788298b21b6f0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 28/43] fix: skater leaves the transformation of the caller's W
 as it was

---
 region/skater/skater.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index 21013eb..0c89dd5 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -72,8 +72,11 @@ class Spanning_Forest(object):
             data = np.ones((W.n,1))
         else:
             attribute_kernel = self.metric(data)
+        transform = W.transform
         W.transform = 'b'
-        W = W.sparse
+        adj = W.sparse
+        W.transform = transform # leave the W of the caller as it was
+        W = adj
         start = time.time()
 
         super_verbose = verbose > 1
-- 
2.43.0


From ff5442ba2333d0d9efaa7ba4fcfe615368071b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 29/43] fix: AZP does not take rounding errors for improvements

Moves between equivalent solutions could lower the accumulated objective
value by a rounding error in each sweep (e.g. cosine distances), so that AZP
never came to an end.
---
 region/p_regions/azp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index d9cd063..581fa44 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -399,7 +399,9 @@ class AZP:
                     else:
                         break
 
-            obj_val_end = float(self.allow_move_strategy.objective_val)
+            # the value accumulated by the strategy may decrease forever due to
+            # rounding
+            obj_val_end = float(self.objective_func(labels, attr))
         return labels
 
 
-- 
2.43.0


From 5b9da3df8beaffa191fcf3a6bec6c8fbf660879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:57 +0000
Subject: [PATCH 30/43] fix: basic tabu ends once a solution has been visited
 often enough

Moves between equivalent solutions were made for ever because the number of
visits was only looked at when no such move was left.
---
 region/p_regions/azp.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 581fa44..4dc9c73 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -821,12 +821,11 @@ class AZPBasicTabu(AZPTabu):
         labels = initial_clustering
 
         visited = []
-        stop = False
         while True:
             # added termination condition (not in Openshaw & Rao (1995))
             label_tup = tuple(labels)
             if visited.count(label_tup) >= self.reps_before_termination:
-                stop = True
+                break
 
             visited.append(label_tup)
 
@@ -873,17 +872,12 @@ class AZPBasicTabu(AZPTabu):
                     
                         self._make_move(aspiration_move.area, aspiration_move.new_region, labels, adj)
                         
-                if stop:
-                        break
-                else:
-                    # step 4: If there is no improving move and no aspirational
-                    # move, then make the best move even if it is nonimproving
-                    # (that is, results in a worse value of the objective
-                    # function).
-                    if stop:
-                        break
-                    if best_move is not None and self.allow_move_strategy(best_move.area, best_move.new_region, labels):
-                        self._make_move(best_move.area, best_move.new_region, labels, adj)
+                # step 4: If there is no improving move and no aspirational
+                # move, then make the best move even if it is nonimproving
+                # (that is, results in a worse value of the objective
+                # function).
+                if best_move is not None and self.allow_move_strategy(best_move.area, best_move.new_region, labels):
+                    self._make_move(best_move.area, best_move.new_region, labels, adj)
         return labels
 
 
-- 
2.43.0


From cd59a56f68e0b8e9c1888913b36ea9c90f10a6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:02 +0000
Subject: [PATCH 31/43] fix: basic tabu never empties a region

An aspiration move could take the last area of a region, and so could the
best move found before an aspiration move was made.
---
 region/p_regions/azp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 4dc9c73..219835f 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -862,6 +862,7 @@ class AZPBasicTabu(AZPTabu):
                 improving_tabus = [
                     move for move in self.tabu
                     if labels[move.area] == move.old_region
+                    and count(labels, move.old_region) > 1
                     and self.objective_func.update(move.area, move.new_region,
                                                    labels, attr) < 0
                 ]
@@ -876,7 +877,7 @@ class AZPBasicTabu(AZPTabu):
                 # move, then make the best move even if it is nonimproving
                 # (that is, results in a worse value of the objective
                 # function).
-                if best_move is not None and self.allow_move_strategy(best_move.area, best_move.new_region, labels):
+                elif best_move is not None and self.allow_move_strategy(best_move.area, best_move.new_region, labels):
                     self._make_move(best_move.area, best_move.new_region, labels, adj)
         return labels
 
-- 
2.43.0


From 4040ddc94b2a188bea00a79a0a94ee34dcedb61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 32/43] fix: simulated annealing refuses to run without any AZP
 run

---
 region/p_regions/azp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 219835f..723e8b5 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -454,6 +454,12 @@ class AZPSimulatedAnnealing:
         else:
             raise NotImplementedError("TODO")  # todo
 
+        # without any AZP run the start labels would not even be checked
+        if max_iterations < 1:
+            raise ValueError("The max_iterations argument must be positive.")
+        if nonmoving_steps_before_stop < 1:
+            raise ValueError("The nonmoving_steps_before_stop argument must "
+                             "be positive.")
         self.maxit = max_iterations
         self.sa_moves_term = sa_moves_term
 
-- 
2.43.0


From 492bbaf656e3d7ab7b2bf7568056fed71643fbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 33/43] fix: refuse attributes which some nodes of a networkx
 graph lack

---
 region/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/region/util.py b/region/util.py
index b98b36a..515beb2 100755
--- a/region/util.py
+++ b/region/util.py
@@ -196,7 +196,10 @@ def dict_from_graph_attr(graph, attr, array_values=False):
         attr = [attr]
     data_dict = {node: [] for node in graph.nodes()}
     for a in attr:
-        for node, value in nx.get_node_attributes(graph, a).items():
+        values = nx.get_node_attributes(graph, a)
+        if len(values) < len(data_dict):
+            raise ValueError("Not every node has the attribute {}.".format(a))
+        for node, value in values.items():
             data_dict[node].append(value)
     if array_values:
         for node in data_dict:
-- 
2.43.0


From 8e579674eba51e27c9dd26e9d7a02e116df89a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 34/43] fix: refuse dicts whose values have different lengths

---
 region/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/region/util.py b/region/util.py
index 515beb2..5be97e5 100755
--- a/region/util.py
+++ b/region/util.py
@@ -67,7 +67,11 @@ def array_from_dict_values(dct, sorted_keys=None, flat_output=False, dtype=np.fl
         sorted_keys = sorted(dct)
     iterable_values = isinstance(dct[sorted_keys[0]], collections.Iterable)
     if iterable_values:
-        it = itertools.chain.from_iterable(dct[key] for key in sorted_keys)
+        rows = [list(dct[key]) for key in sorted_keys]
+        # values of different lengths would get mixed up by reshaping below
+        if len(set(len(row) for row in rows)) > 1:
+            raise ValueError("All values must have the same length.")
+        it = itertools.chain.from_iterable(rows)
     else:
         it = (dct[key] for key in sorted_keys)
 
-- 
2.43.0


From e4886294cc653dba57c531e0d867ab7c4118b806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 35/43] fix: max-p heuristic accepts one-dimensional attributes
 for every objective

---
 region/max_p_regions/heuristics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index 9a460fe..18857b6 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -79,6 +79,8 @@ class MaxPRegionsHeu:
 
         if max_it < 1:
             raise ValueError("The max_it argument must be positive.")
+        if attr.ndim == 1:
+            attr = attr.reshape(adj.shape[0], -1)
         w = weights.WSP(adj).to_W()
         areas_dict = w.neighbors
         self.metric = objective_func.metric
-- 
2.43.0


From fa7921ce47800477a849d6712a5325d8e568b8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:23 +0000
Subject: [PATCH 36/43] fix: dicts of neighbours give the same matrix for any
 hash seed

---
 region/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/region/util.py b/region/util.py
index 5be97e5..eee0572 100755
--- a/region/util.py
+++ b/region/util.py
@@ -123,7 +123,9 @@ def scipy_sparse_matrix_from_dict(neighbors):
     for i in neighbors:
         for j in neighbors[i]:
             adj[name_to_int[i], name_to_int[j]] = 1
-    return adj.tocsr()
+    adj = adj.tocsr()
+    adj.sort_indices()  # do not depend on the order of a set's elements
+    return adj
 
 
 def scipy_sparse_matrix_from_w(w):
-- 
2.43.0


From 3cb7ea5feeb0f33d80934d60db16bb1a7f32b88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:47 +0000
Subject: [PATCH 37/43] fix: start labels may be any numbers

---
 region/p_regions/azp.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 723e8b5..f4f7902 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -91,13 +91,18 @@ class AZP:
         # step 1
         if initial_labels is not None:
             assert_feasible(initial_labels, adj, n_regions)
-            initial_labels_gen = separate_components(adj, initial_labels)
+            # any number may be a start label, so only the components come from
+            # this generator
+            initial_labels_gen = separate_components(
+                adj, np.zeros(adj.shape[0]))
         else:
             initial_labels_gen = generate_initial_sol(adj, n_regions)
         labels = -np.ones(adj.shape[0])
         for labels_comp in initial_labels_gen:
             comp_idx = np.where(labels_comp != -1)[0]
             adj_comp = sub_adj_matrix(adj, comp_idx)
+            if initial_labels is not None:
+                labels_comp = initial_labels
             labels_comp = labels_comp[comp_idx]
             attr_comp = attr[comp_idx]
             self.allow_move_strategy.start_new_component(
@@ -282,7 +287,7 @@ class AZP:
 
         if initial_labels is not None:
             initial_labels = array_from_dict_values(
-                initial_labels, sorted_areas, flat_output=True, dtype=np.int32)
+                initial_labels, sorted_areas, flat_output=True)
         self.fit_from_scipy_sparse_matrix(
             adj,
             attr_arr,
@@ -556,7 +561,7 @@ class AZPSimulatedAnnealing:
 
         if initial_labels is not None:
             initial_labels = array_from_dict_values(
-                initial_labels, sorted_areas, flat_output=True, dtype=np.int32)
+                initial_labels, sorted_areas, flat_output=True)
         self.fit_from_scipy_sparse_matrix(
             adj,
             attr_arr,
-- 
2.43.0


From 7921e0896408b332e52cfa8ef264d791f69e226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:00 +0000
Subject: [PATCH 38/43] fix: exact solutions do not depend on the unit of the
 attributes

---
 region/max_p_regions/exact.py |  4 +++-
 region/p_regions/exact.py     |  6 +++++-
 region/util.py                | 31 +++++++++++++++++++++++++++++++
 3 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index f2b792a..8480d83 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -12,7 +12,8 @@ from region.csgraph_utils import neighbors
 from region.util import array_from_df_col, array_from_dict_values,\
     array_from_graph_or_dict, check_solver, copy_func, get_metric_function,\
     get_solver_instance, raise_distance_metric_not_set,\
-    scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, w_from_gdf
+    scale_for_solver, scipy_sparse_matrix_from_dict,\
+    scipy_sparse_matrix_from_w, w_from_gdf
 
 
 class MaxPRegionsExact:
@@ -90,6 +91,7 @@ class MaxPRegionsExact:
         d = {(i, j): self.metric(attr[i].reshape(1, -1), attr[j].reshape(
             1, -1))
              for i, j in II_upper_triangle}
+        d = scale_for_solver(d)
         d_sum = sum(d[(i, j)] for i, j in II_upper_triangle)
         h = 1 + floor(log10(d_sum)) if d_sum > 0 else 0
 
diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 7d18288..a839831 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -12,7 +12,8 @@ from region.csgraph_utils import neighbors
 from region.util import array_from_df_col, array_from_dict_values,\
     array_from_graph_or_dict, check_solver, copy_func,\
     get_metric_function, get_solver_instance, raise_distance_metric_not_set,\
-    scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, w_from_gdf
+    scale_for_solver, scipy_sparse_matrix_from_dict,\
+    scipy_sparse_matrix_from_w, w_from_gdf
 
 
 class PRegionsExact:
@@ -336,6 +337,7 @@ def _flow(adj, attr, n_regions, solver, metric):
             attr[j].reshape(1, -1))  # ...avoid warnings
         for i, j in II_upper_triangle
     }
+    d = scale_for_solver(d)
 
     # Decision variables
     t = LpVariable.dicts(
@@ -449,6 +451,7 @@ def _order(adj, attr, n_regions, solver, metric):
             attr[j].reshape(1, -1))  # ...avoid warnings
         for i, j in II_upper_triangle
     }
+    d = scale_for_solver(d)
 
     # Decision variables
     t = LpVariable.dicts(
@@ -535,6 +538,7 @@ def _tree(adj, attr, n_regions, solver, metric):
             attr[j].reshape(1, -1))  # ...avoid warnings
         for i, j in II
     }
+    d = scale_for_solver(d)
     # Decision variables
     t = LpVariable.dicts(
         "t", ((i, j) for i, j in II), lowBound=0, upBound=1, cat=LpInteger)
diff --git a/region/util.py b/region/util.py
index eee0572..2e67865 100755
--- a/region/util.py
+++ b/region/util.py
@@ -1,6 +1,7 @@
 import collections
 import functools
 import itertools
+import math
 import random
 import types
 
@@ -514,6 +515,36 @@ def get_metric_function(metric=None):
         )
 
 
+def scale_for_solver(dissim):
+    """
+    The tolerances of MIP solvers are absolute. Thus, they must not be used
+    with dissimilarities of any magnitude.
+
+    Parameters
+    ----------
+    dissim : dict
+        The values are the dissimilarities (numbers >= 0).
+
+    Returns
+    -------
+    result : dict
+        The dissimilarities multiplied by a power of two (which does not cause
+        rounding errors) such that the largest one is about one million.
+
+    Examples
+    --------
+    >>> scale_for_solver({(0, 1): 0.25, (0, 2): 0.5})
+    {(0, 1): 524288.0, (0, 2): 1048576.0}
+    >>> scale_for_solver({(0, 1): 0})
+    {(0, 1): 0.0}
+    >>> scale_for_solver({})
+    {}
+    """
+    dissim = {pair: float(d) for pair, d in dissim.items()}
+    exponent = math.frexp(max(dissim.values(), default=0))[1]
+    return {pair: math.ldexp(d, 21 - exponent) for pair, d in dissim.items()}
+
+
 class MissingMetric(RuntimeError):
     """Raised when a distance metric is required but was not set."""
 
-- 
2.43.0


From 102390c2a755960df273dfb86cecc5935272462f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:04 +0000
Subject: [PATCH 39/43] fix: a zero stored in the adjacency matrix is no link,
 in connectivity either

---
 region/csgraph_utils.py            | 34 +++++++++++++++++++++++++++---
 region/max_p_regions/heuristics.py |  3 ++-
 region/util.py                     |  6 ++++--
 3 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/region/csgraph_utils.py b/region/csgraph_utils.py
index 364b079..7df242c 100755
--- a/region/csgraph_utils.py
+++ b/region/csgraph_utils.py
@@ -9,6 +9,34 @@ from scipy.sparse import csr_matrix
 import numpy as np
 
 
+def without_stored_zeros(adj):
+    """
+    Parameters
+    ----------
+    adj : :class:`scipy.sparse.csr_matrix`
+        Adjacency matrix.
+
+    Returns
+    -------
+    links : :class:`scipy.sparse.csr_matrix`
+        Adjacency matrix storing nothing but links. (`scipy.sparse.csgraph`
+        takes a zero which is stored explicitly for a link.) The argument is
+        not changed.
+
+    Examples
+    --------
+    >>> from scipy.sparse import csr_matrix
+    >>> adj = csr_matrix(([1, 1, 0, 0], ([0, 1, 1, 2], [1, 0, 2, 1])))
+    >>> without_stored_zeros(adj).nnz
+    2
+    >>> adj.nnz
+    4
+    """
+    links = csr_matrix(adj, copy=True)
+    links.eliminate_zeros()
+    return links
+
+
 def is_connected(adj):
     """
     Parameters
@@ -35,8 +63,8 @@ def is_connected(adj):
     >>> is_connected(disconnected)
     False
     """
-    n_connected_components = csg.connected_components(adj, directed=False,
-                                                      return_labels=False)
+    n_connected_components = csg.connected_components(
+        without_stored_zeros(adj), directed=False, return_labels=False)
     return True if n_connected_components == 1 else False
 
 
@@ -123,5 +151,5 @@ def sub_adj_matrix(adj, nodes, wo_nodes=None):
         mask = np.in1d(nodes, wo_nodes, invert=True)
         nodes = nodes[mask]
     nodes = nodes[:, None]
-    return csr_matrix(adj[nodes, nodes.T])
+    return without_stored_zeros(adj[nodes, nodes.T])
 
diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index 18857b6..b02dc2a 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -4,6 +4,7 @@ import random
 import networkx as nx
 from libpysal import weights
 
+from region.csgraph_utils import without_stored_zeros
 from region.objective_function import ObjectiveFunctionPairwise
 from region.p_regions.azp import AZP
 from region.p_regions.azp_util import AllowMoveAZPMaxPRegions
@@ -81,7 +82,7 @@ class MaxPRegionsHeu:
             raise ValueError("The max_it argument must be positive.")
         if attr.ndim == 1:
             attr = attr.reshape(adj.shape[0], -1)
-        w = weights.WSP(adj).to_W()
+        w = weights.WSP(without_stored_zeros(adj)).to_W()
         areas_dict = w.neighbors
         self.metric = objective_func.metric
 
diff --git a/region/util.py b/region/util.py
index 2e67865..e5a6968 100755
--- a/region/util.py
+++ b/region/util.py
@@ -13,7 +13,8 @@ import networkx as nx
 from libpysal import weights
 import pulp
 
-from region.csgraph_utils import sub_adj_matrix, is_connected
+from region.csgraph_utils import (
+    sub_adj_matrix, is_connected, without_stored_zeros)
 
 Move = collections.namedtuple("move", "area old_region new_region")
 "A named tuple representing a move from `old_region` to `new_region`."  # sphinx
@@ -653,6 +654,7 @@ def generate_initial_sol(adj, n_regions):
             "({}).".format(n_regions, n_areas)
         )
 
+    adj = without_stored_zeros(adj)
     n_comps, comp_labels = csg.connected_components(adj)
     if n_comps > n_regions:
         raise ValueError(
@@ -878,7 +880,7 @@ def separate_components(adj, labels):
     >>> (yielded[1] == np.array([-1, -1, -1, -1, -1, -1, 3, 3, 3, 3])).all()
     True
     """
-    n_comps, comp_labels = csg.connected_components(adj)
+    n_comps, comp_labels = csg.connected_components(without_stored_zeros(adj))
     for comp in set(comp_labels):
         region_labels = -np.ones(len(comp_labels), dtype=np.int32)
         in_comp = comp_labels == comp
-- 
2.43.0


From bf932d9297fc018fc9bd6cb94a8b9f788a274ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:24 +0000
Subject: [PATCH 40/43] fix: an area stored as its own neighbour no longer
 breaks the max-p construction

---
 region/max_p_regions/heuristics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index b02dc2a..1d42f0c 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -397,11 +397,11 @@ class MaxPRegionsHeu:
                                                     attr)
                         region.add(neigh)
                         unassigned_neighs.remove(neigh)
+                        assigned_areas.append(neigh)
                         unassigned_neighs.update(set(adj[neigh].nonzero()[1]))
                         unassigned_neighs.difference_update(assigned_areas)
                         spat_ext_attr += spatially_extensive_attr[neigh]
                         unassigned_areas.remove(neigh)
-                        assigned_areas.append(neigh)
                     else:
                         enclave_areas.extend(region)
                         feasible = False
-- 
2.43.0


From 84e7b037c7372dcd477afa8fc6848ce6a156c902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:48 +0000
Subject: [PATCH 41/43] fix: exact max-p solutions missed the threshold for
 spatially extensive attributes of small magnitude or with outliers

---
 region/max_p_regions/exact.py |  4 +++-
 region/util.py                | 38 +++++++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index 8480d83..8ff55e1 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -12,7 +12,7 @@ from region.csgraph_utils import neighbors
 from region.util import array_from_df_col, array_from_dict_values,\
     array_from_graph_or_dict, check_solver, copy_func, get_metric_function,\
     get_solver_instance, raise_distance_metric_not_set,\
-    scale_for_solver, scipy_sparse_matrix_from_dict,\
+    scale_for_solver, scale_threshold_for_solver, scipy_sparse_matrix_from_dict,\
     scipy_sparse_matrix_from_w, w_from_gdf
 
 
@@ -94,6 +94,8 @@ class MaxPRegionsExact:
         d = scale_for_solver(d)
         d_sum = sum(d[(i, j)] for i, j in II_upper_triangle)
         h = 1 + floor(log10(d_sum)) if d_sum > 0 else 0
+        spatially_extensive_attr, threshold = scale_threshold_for_solver(
+            spatially_extensive_attr, threshold)
 
         # Decision variables
         t = LpVariable.dicts(
diff --git a/region/util.py b/region/util.py
index e5a6968..6103cb9 100755
--- a/region/util.py
+++ b/region/util.py
@@ -546,6 +546,44 @@ def scale_for_solver(dissim):
     return {pair: math.ldexp(d, 21 - exponent) for pair, d in dissim.items()}
 
 
+def scale_threshold_for_solver(attr, threshold):
+    """
+    The tolerances of MIP solvers are absolute. Thus, they must not be used
+    with spatially extensive attributes of any magnitude.
+
+    Parameters
+    ----------
+    attr : :class:`numpy.ndarray`
+        The areas' spatially extensive attributes (number of areas x number of
+        attributes, or number of areas).
+    threshold : numbers.Real or :class:`numpy.ndarray`
+        The threshold (for each attribute).
+
+    Returns
+    -------
+    result : tuple
+        The attributes and the threshold multiplied by a power of two (which
+        does not cause rounding errors) such that the threshold is about one
+        million. Where an attribute is nonnegative, values above the threshold
+        are replaced by the threshold, because they reach it anyway.
+
+    Examples
+    --------
+    >>> attr, threshold = scale_threshold_for_solver(
+    ...     np.array([0.25, 1e30]), 0.5)
+    >>> attr.tolist(), float(threshold)
+    ([524288.0, 1048576.0], 1048576.0)
+    """
+    attr = np.array(attr, dtype=float)
+    threshold = np.array(threshold, dtype=float)
+    largest = np.abs(attr).max(axis=None if threshold.ndim == 0 else 0)
+    exponent = 21 - np.frexp(
+        np.where(threshold == 0, largest, np.abs(threshold)))[1]
+    attr = np.where((attr >= 0).all(axis=0),
+                    np.minimum(attr, np.maximum(threshold, 0)), attr)
+    return np.ldexp(attr, exponent), np.ldexp(threshold, exponent)
+
+
 class MissingMetric(RuntimeError):
     """Raised when a distance metric is required but was not set."""
 
-- 
2.43.0


From 23e7eef547ee630d265d2bd16698067568c9f9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:01 +0000
Subject: [PATCH 42/43] fix: exact max-p solutions missed the threshold, or
 were refused, where sums come close to it

---
 region/max_p_regions/exact.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index 8ff55e1..5e4a9a5 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -96,6 +96,11 @@ class MaxPRegionsExact:
         h = 1 + floor(log10(d_sum)) if d_sum > 0 else 0
         spatially_extensive_attr, threshold = scale_threshold_for_solver(
             spatially_extensive_attr, threshold)
+        # The solver's tolerances may be larger than what a region lacks to
+        # reach the threshold or has too much. Thus, it gets a slightly lower
+        # threshold and regions in between are excluded afterwards.
+        lower_bound = threshold - 1e-14 * np.abs(threshold)
+        threshold = threshold - 1e-5 * np.abs(threshold)
 
         # Decision variables
         t = LpVariable.dicts(
@@ -160,14 +165,25 @@ class MaxPRegionsExact:
 
         # Solve the optimization problem
         solver = get_solver_instance(solver)
-        if prob.solve(solver=solver) != LpStatusOptimal:
-            raise ValueError("The solver found no feasible solution.")
-        result = np.zeros(n_areas)
-        for i in I:
-            for k in K:
-                for o in O:
-                    if x[i, k, o].varValue == 1:
-                        result[i] = k
+        while True:
+            if prob.solve(solver=solver) != LpStatusOptimal:
+                raise ValueError("The solver found no feasible solution.")
+            result = np.zeros(n_areas)
+            for i in I:
+                for k in K:
+                    for o in O:
+                        if x[i, k, o].varValue > 0.5:
+                            result[i] = k
+            too_small = [
+                result == label for label in np.unique(result)
+                if (spatially_extensive_attr[result == label].sum(axis=0)
+                    < lower_bound).any()]
+            if not too_small:
+                break
+            for region in too_small:
+                for k in K:
+                    prob += lpSum(x[i, k, o] if region[i] else -x[i, k, o]
+                                  for i in I for o in O) <= region.sum() - 1
         self.labels_ = result
         self.solver = solver
 
-- 
2.43.0


From 8fe2092ded024b6da82c52ea82b4110401758c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:03 +0000
Subject: [PATCH 43/43] fix: exact max-p solutions were refused for outliers
 among negative values, or not optimal because of badly scaled constraints

---
 region/util.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/region/util.py b/region/util.py
index 6103cb9..a07b0be 100755
--- a/region/util.py
+++ b/region/util.py
@@ -564,23 +564,23 @@ def scale_threshold_for_solver(attr, threshold):
     result : tuple
         The attributes and the threshold multiplied by a power of two (which
         does not cause rounding errors) such that the threshold is about one
-        million. Where an attribute is nonnegative, values above the threshold
-        are replaced by the threshold, because they reach it anyway.
+        hundred. Values with which every region reaches the threshold are
+        replaced by the least such value.
 
     Examples
     --------
     >>> attr, threshold = scale_threshold_for_solver(
     ...     np.array([0.25, 1e30]), 0.5)
     >>> attr.tolist(), float(threshold)
-    ([524288.0, 1048576.0], 1048576.0)
+    ([32.0, 64.0], 64.0)
     """
     attr = np.array(attr, dtype=float)
     threshold = np.array(threshold, dtype=float)
     largest = np.abs(attr).max(axis=None if threshold.ndim == 0 else 0)
-    exponent = 21 - np.frexp(
+    exponent = 7 - np.frexp(
         np.where(threshold == 0, largest, np.abs(threshold)))[1]
-    attr = np.where((attr >= 0).all(axis=0),
-                    np.minimum(attr, np.maximum(threshold, 0)), attr)
+    enough = np.maximum(threshold, 0) - np.minimum(attr, 0).sum(axis=0)
+    attr = np.minimum(attr, enough)
     return np.ldexp(attr, exponent), np.ldexp(threshold, exponent)
 
 
-- 
2.43.0

