From e7c9c62f1c8ae6e412710fddc9b37185d4dd77e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 01/41] fix: iso_value no longer raises KeyError when is_iso
 was asked first

---
 graphblas_algorithms/classes/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/graph.py b/graphblas_algorithms/classes/graph.py
index f3e2239..3ac2a1a 100644
--- a/graphblas_algorithms/classes/graph.py
+++ b/graphblas_algorithms/classes/graph.py
@@ -236,7 +236,7 @@ def get_iso_value(G, mask=None):
                 # SuiteSparse:GraphBLAS
                 cache["iso_value"] = A.ss.iso_value
             else:
-                cache["iso_value"]
+                cache["iso_value"] = None
 
         # min_val, max_val = G.get_properties('min_element+ max_element+')
         # SuiteSparse:GraphBLAS
-- 
2.43.0


From 244bc4eb3d6cc1ba3a9e14ff1ec3607b812304ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 02/41] fix: has_negative_diagonal treated an unknown
 off-diagonal minimum as non-negative

---
 graphblas_algorithms/classes/graph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/classes/graph.py b/graphblas_algorithms/classes/graph.py
index 3ac2a1a..c2cbe3a 100644
--- a/graphblas_algorithms/classes/graph.py
+++ b/graphblas_algorithms/classes/graph.py
@@ -141,9 +141,11 @@ def has_negative_diagonal(G, mask=None):
             cache.get("has_negative_edges+") is True
             and cache.get("has_negative_edges-") is False
             or cache.get("has_negative_edges+") is True
-            and cache.get("min_element-", 0) >= 0
-            or cache.get("min_element+", 0) < 0
-            and cache.get("min_element+", 0) < cache.get("min_element-", 0)
+            and "min_element-" in cache
+            and cache["min_element-"].get(0) >= 0
+            or "min_element+" in cache
+            and "min_element-" in cache
+            and cache["min_element+"].get(0) < min(0, cache["min_element-"].get(0))
         ):
             cache["has_negative_diagonal"] = True
         else:
-- 
2.43.0


From 744def35abe60e09025be23b0904bc14b59d9085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 03/41] fix: total_degrees+ carries no information about
 self-edges of a directed graph

---
 graphblas_algorithms/classes/digraph.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/graphblas_algorithms/classes/digraph.py b/graphblas_algorithms/classes/digraph.py
index 1e9fe5f..b9e15a8 100644
--- a/graphblas_algorithms/classes/digraph.py
+++ b/graphblas_algorithms/classes/digraph.py
@@ -364,8 +364,6 @@ def has_self_edges(G, mask=None):
             cache["has_self_edges"] = cache["column_degrees-"].reduce().get(0) < A.nvals
         elif "total_degrees-" in cache:
             cache["has_self_edges"] = cache["total_degrees-"].reduce().get(0) < 2 * A.nvals
-        elif "total_degrees+" in cache:
-            cache["has_self_edges"] = cache["total_degrees+"].reduce().get(0) > 2 * A.nvals
         else:
             G.get_property("diag")
     return cache["has_self_edges"]
-- 
2.43.0


From 51d5b861c31bdc6af2ebf037623610f3f7a39c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 04/41] fix: off-diagonal scalar reductions from cached
 triangles used nonexistent Matrix.reduce

---
 graphblas_algorithms/classes/_caching.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/classes/_caching.py b/graphblas_algorithms/classes/_caching.py
index 3074bed..a8c7f3e 100644
--- a/graphblas_algorithms/classes/_caching.py
+++ b/graphblas_algorithms/classes/_caching.py
@@ -123,9 +123,9 @@ def get_reduce_to_scalar(key, opname):
                     and opclass in {"BinaryOp", "Monoid"}
                     and G.get_property("has_self_edges")
                 ):
-                    return op_(
-                        cache["L-"].reduce(op_)._as_vector() | cache["U-"].reduce(op_)._as_vector()
-                    )[0].new(name=key)
+                    cache[key] = op_(
+                        cache["L-"].reduce_scalar(op_).new() | cache["U-"].reduce_scalar(op_).new()
+                    ).new(name=key)
                 elif not G.get_property("has_self_edges"):
                     cache[key] = G.get_property(f"{keybase}+")
                 else:
-- 
2.43.0


From a1b190c2b5a598ff8a1fbed42d65e73d9e0d7f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 05/41] fix: graphs without edges are regular of degree zero

---
 graphblas_algorithms/algorithms/regular.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graphblas_algorithms/algorithms/regular.py b/graphblas_algorithms/algorithms/regular.py
index cf3a057..4e59b1a 100644
--- a/graphblas_algorithms/algorithms/regular.py
+++ b/graphblas_algorithms/algorithms/regular.py
@@ -6,11 +6,15 @@ __all__ = ["is_regular", "is_k_regular"]
 def is_regular(G):
     if not G.is_directed():
         degrees = G.get_property("degrees+")
+        if degrees.nvals == 0:
+            return True
         if degrees.nvals != degrees.size:
             return False
         d = degrees.get(0)
         return (degrees == d).reduce(monoid.land).get(True)
     row_degrees = G.get_property("row_degrees+")
+    if row_degrees.nvals == 0:
+        return True
     if row_degrees.nvals != row_degrees.size:
         return False
     column_degrees = G.get_property("column_degrees+")
@@ -25,6 +29,8 @@ def is_regular(G):
 
 def is_k_regular(G, k):
     degrees = G.get_property("degrees+")
+    if k == 0:
+        return degrees.nvals == 0
     if degrees.nvals != degrees.size:
         return False
     return (degrees == k).reduce(monoid.land).get(True)
-- 
2.43.0


From 42b7c86dc8e8214f665980032844a305fd04e0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 06/41] fix: s_metric of a directed graph counted every edge as
 one half

---
 graphblas_algorithms/algorithms/smetric.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/smetric.py b/graphblas_algorithms/algorithms/smetric.py
index e2e85bb..727b06f 100644
--- a/graphblas_algorithms/algorithms/smetric.py
+++ b/graphblas_algorithms/algorithms/smetric.py
@@ -8,7 +8,10 @@ def s_metric(G):
         degrees = G.get_property("total_degrees+")
     else:
         degrees = G.get_property("degrees+")
-    return (binary.first(degrees & G._A) @ degrees).reduce().get(0) / 2
+    total = (binary.first(degrees & G._A) @ degrees).reduce().get(0)
+    if G.is_directed():
+        return float(total)
+    return total / 2
     # Alternatives
     # return (degrees @ binary.second(G._A & degrees)).reduce().get(0) / 2
     # return degrees.outer(degrees).new(mask=G._A.S).reduce_scalar().get(0) / 2
-- 
2.43.0


From 21452f2a3bac07dc2a7f46f1950f83a0fc0928f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 07/41] fix: tournament_matrix of a boolean graph lost the sign

---
 graphblas_algorithms/algorithms/tournament.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/tournament.py b/graphblas_algorithms/algorithms/tournament.py
index 32624ff..12d1ecc 100644
--- a/graphblas_algorithms/algorithms/tournament.py
+++ b/graphblas_algorithms/algorithms/tournament.py
@@ -1,5 +1,5 @@
 import numpy as np
-from graphblas import select
+from graphblas import dtypes, select
 
 __all__ = ["is_tournament", "score_sequence", "tournament_matrix"]
 
@@ -24,4 +24,6 @@ def score_sequence(G):
 
 def tournament_matrix(G):
     A = G._A
+    if A.dtype == dtypes.BOOL:
+        A = A.dup(dtypes.INT64)  # `-` on BOOL is not subtraction
     return (A - A.T).new(name="tournament_matrix")
-- 
2.43.0


From 93bb0c8fcb9b87cb310e7cdc4ac52ed3458f4fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 08/41] fix: partition with chunksize 1 yields one-element
 chunks instead of bare items

---
 graphblas_algorithms/nxapi/_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/_utils.py b/graphblas_algorithms/nxapi/_utils.py
index 0bb9617..5bbdba2 100644
--- a/graphblas_algorithms/nxapi/_utils.py
+++ b/graphblas_algorithms/nxapi/_utils.py
@@ -97,7 +97,8 @@ def partition(chunksize, L, *, evenly=True):
         yield L
         return
     if chunksize == 1:
-        yield from L
+        for i in range(N):
+            yield L[i : i + 1]
         return
     if evenly:
         k = ceil(len(L) / chunksize)
-- 
2.43.0


From d5d5d84c5c497db4eb1de4bc9225d0b019ff20fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 09/41] fix: chunked square_clustering of a graph without edges

---
 graphblas_algorithms/nxapi/cluster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index 8e61f9b..cf05738 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -89,6 +89,8 @@ def _square_clustering_split(G, node_ids=None, *, chunksize):
             result = res
         else:
             result << monoid.any(result | res)
+    if result is None:  # nothing to split
+        result = algorithms.square_clustering(G, node_ids)
     return result
 
 
-- 
2.43.0


From e7397b135456c92880c43cf202cf75073c7de0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 10/41] fix: square_clustering of selected nodes includes the
 nodes whose coefficient is zero

---
 graphblas_algorithms/nxapi/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index cf05738..e4730c8 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -120,7 +120,7 @@ def square_clustering(G, nodes=None, *, chunksize="256 MiB"):
         result = algorithms.square_clustering(G, ids)
     else:
         result = _square_clustering_split(G, ids, chunksize=chunksize)
-    return G.vector_to_nodemap(result)
+    return G.vector_to_nodemap(result, mask=G.list_to_mask(nodes), fill_value=0)
 
 
 @not_implemented_for("directed")
-- 
2.43.0


From d6becc21937ef6983718eff1cb093881e57a6093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 11/41] fix: remembered average_clustering distinguishes
 weighted from unweighted

---
 graphblas_algorithms/nxapi/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index e4730c8..5ac5eb9 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -69,7 +69,7 @@ def average_clustering(G, nodes=None, weight=None, count_zeros=True):
         func = algorithms.average_clustering
     if mask is None:
         return G._cacheit(
-            f"average_clustering(count_zeros={count_zeros})",
+            f"average_clustering(count_zeros={count_zeros}, weighted={weighted})",
             func,
             G,
             weighted=weighted,
-- 
2.43.0


From cb465578447cdda54767c5b449fe21091a9b1b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 12/41] fix: square_clustering ignores edge weights

---
 graphblas_algorithms/algorithms/cluster.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cluster.py b/graphblas_algorithms/algorithms/cluster.py
index 0b9ab21..f185d90 100644
--- a/graphblas_algorithms/algorithms/cluster.py
+++ b/graphblas_algorithms/algorithms/cluster.py
@@ -1,6 +1,6 @@
 import numpy as np
 from graphblas import Matrix, Vector, binary, replace, unary
-from graphblas.semiring import plus_first, plus_pair, plus_times
+from graphblas.semiring import plus_first, plus_pair, plus_second, plus_times
 
 __all__ = [
     "single_triangle",
@@ -217,7 +217,7 @@ def single_square_clustering(G, idx):
     denom -= deg * (deg - 1)
     # (3) The main contribution to the denominator: degrees[u] + degrees[w] for each u-w combo.
     # This is the only positive term.
-    denom += plus_times(v @ degrees).value * (deg - 1)
+    denom += plus_second(v @ degrees).get(0) * (deg - 1)
     # (4) Subtract the number of squares
     denom -= squares
     # And we're done!
@@ -233,7 +233,7 @@ def square_clustering(G, node_ids=None):
     #   tri = first(P2 & A).reduce_rowwise()
     #   squares = (P2 * (P2 - 1)).reduce_rowwise() / 2
     #   uw_count = degrees * (degrees - 1)
-    #   uw_degrees = plus_times(A @ degrees) * (degrees - 1)
+    #   uw_degrees = plus_second(A @ degrees) * (degrees - 1)
     #   square_clustering = squares / (uw_degrees - uw_count - tri - squares)
     #
     A, degrees = G.get_properties("A degrees+")  # TODO" how to handle self-edges?
@@ -271,9 +271,9 @@ def square_clustering(G, node_ids=None):
     neg_denom(binary.plus) << degrees * denom
 
     # (3) The main contribution to the denominator: degrees[u] + degrees[w] for each u-w combo.
-    #   uw_degrees = plus_times(A @ degrees) * (degrees - 1)
-    # denom(binary.times) << plus_times(A @ degrees)
-    denom(binary.times, denom.S) << plus_times(Asubset @ degrees)
+    #   uw_degrees = plus_second(A @ degrees) * (degrees - 1)
+    # denom(binary.times) << plus_second(A @ degrees)
+    denom(binary.times, denom.S) << plus_second(Asubset @ degrees)
 
     # (4) Subtract the number of squares
     denom(binary.minus) << binary.plus(neg_denom & squares)
-- 
2.43.0


From 9cf390ed5b7e75dfde873ad271c005006a9f16dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 13/41] fix: weighted clustering of a graph without edges

---
 graphblas_algorithms/algorithms/cluster.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cluster.py b/graphblas_algorithms/algorithms/cluster.py
index f185d90..75f80cb 100644
--- a/graphblas_algorithms/algorithms/cluster.py
+++ b/graphblas_algorithms/algorithms/cluster.py
@@ -29,7 +29,7 @@ def single_triangle(G, node, *, weighted=False):
     if G.get_property("has_self_edges"):
         del r[index]  # Ignore self-edges
     if weighted:
-        maxval = G.get_property("max_element-")
+        maxval = G.get_property("max_element-").get(1)
         L = unary.cbrt(L / maxval)
         r = unary.cbrt(r / maxval)
         semiring = plus_times
@@ -46,7 +46,7 @@ def triangles(G, *, weighted=False, mask=None):
     # Can we apply the mask earlier in the computation?
     L, U = G.get_properties("L- U-")
     if weighted:
-        maxval = G.get_property("max_element-")
+        maxval = G.get_property("max_element-").get(1)
         L = unary.cbrt(L / maxval)
         U = unary.cbrt(U / maxval)
         semiring = plus_times
@@ -102,7 +102,7 @@ def clustering_directed(G, *, weighted=False, mask=None):
     # Can we apply the mask earlier in the computation?
     A, AT = G.get_properties("offdiag AT")
     if weighted:
-        maxval = G.get_property("max_element-")
+        maxval = G.get_property("max_element-").get(1)
         A = unary.cbrt(A / maxval)
         AT = unary.cbrt(AT / maxval)
         semiring = plus_times
@@ -151,7 +151,7 @@ def single_clustering_directed(G, node, *, weighted=False):
     A = G.get_property("offdiag")
     index = G._key_to_id[node]
     if weighted:
-        maxval = G.get_property("max_element-")
+        maxval = G.get_property("max_element-").get(1)
         A = unary.cbrt(A / maxval)
         semiring = plus_times
     else:
-- 
2.43.0


From 34fa5a4d92fb88806909606eb04707e7dee751fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 14/41] fix: clustering of directed graphs ignores self-edges

---
 graphblas_algorithms/algorithms/cluster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/algorithms/cluster.py b/graphblas_algorithms/algorithms/cluster.py
index 75f80cb..c9f55b3 100644
--- a/graphblas_algorithms/algorithms/cluster.py
+++ b/graphblas_algorithms/algorithms/cluster.py
@@ -101,6 +101,8 @@ def clustering(G, *, weighted=False, mask=None):
 def clustering_directed(G, *, weighted=False, mask=None):
     # Can we apply the mask earlier in the computation?
     A, AT = G.get_properties("offdiag AT")
+    if G.get_property("has_self_edges"):
+        AT = A.T.new(name="AT")  # Ignore self-edges
     if weighted:
         maxval = G.get_property("max_element-").get(1)
         A = unary.cbrt(A / maxval)
-- 
2.43.0


From 16848d58b0641592553222f0ee1721fd5f1424ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:55 +0000
Subject: [PATCH 15/41] fix: cut measures of weighted and directed graphs

normalized_cut_size, conductance, edge_expansion and mixing_expansion
ignored weight; volume(weighted) of a directed graph summed in-edges;
directed cut_size without T crashed; mixing_expansion of directed graphs
was off by a factor of two.
---
 graphblas_algorithms/algorithms/cuts.py | 33 ++++++++++++++-----------
 graphblas_algorithms/nxapi/cuts.py      | 20 ++++++++++++---
 2 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index 918dc56..77926e5 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -1,5 +1,5 @@
 from graphblas import monoid
-from graphblas.semiring import any_pair, plus_first
+from graphblas.semiring import any_pair, plus_second
 
 from .boundary import edge_boundary, node_boundary
 
@@ -16,6 +16,8 @@ __all__ = [
 
 
 def cut_size(G, S, T=None, *, is_weighted=False):
+    if T is None:
+        T = (~S.S).new()
     edges = edge_boundary(G, S, T, is_weighted=is_weighted)
     if is_weighted:
         rv = edges.reduce_scalar(monoid.plus).get(0)
@@ -32,28 +34,28 @@ def cut_size(G, S, T=None, *, is_weighted=False):
 
 def volume(G, S, *, weighted=False):
     if weighted:
-        degrees = plus_first(G._A @ S)
+        degrees = plus_second(S @ G._A)
     else:
         degrees = G.get_property("row_degrees+", mask=S.S)
     return degrees.reduce(monoid.plus).get(0)
 
 
-def normalized_cut_size(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
-    volume_S = volume(G, S)
-    volume_T = volume(G, T)
+def normalized_cut_size(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
+    volume_S = volume(G, S, weighted=is_weighted)
+    volume_T = volume(G, T, weighted=is_weighted)
     return num_cut_edges * ((1 / volume_S) + (1 / volume_T))
 
 
-def conductance(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
-    volume_S = volume(G, S)
-    volume_T = volume(G, T)
+def conductance(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
+    volume_S = volume(G, S, weighted=is_weighted)
+    volume_T = volume(G, T, weighted=is_weighted)
     return num_cut_edges / min(volume_S, volume_T)
 
 
-def edge_expansion(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
+def edge_expansion(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
     if T is None:
         Tnvals = S.size - S.nvals
     else:
@@ -61,9 +63,10 @@ def edge_expansion(G, S, T=None):
     return num_cut_edges / min(S.nvals, Tnvals)
 
 
-def mixing_expansion(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
-    return num_cut_edges / G._A.nvals  # Why no factor of 2 in denominator?
+def mixing_expansion(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
+    # Twice the number of edges; undirected edges are already stored twice
+    return num_cut_edges / (2 * G._A.nvals if G.is_directed() else G._A.nvals)
 
 
 def node_expansion(G, S):
diff --git a/graphblas_algorithms/nxapi/cuts.py b/graphblas_algorithms/nxapi/cuts.py
index 8343109..d599e19 100644
--- a/graphblas_algorithms/nxapi/cuts.py
+++ b/graphblas_algorithms/nxapi/cuts.py
@@ -29,37 +29,49 @@ def volume(G, S, weight=None):
 
 
 def normalized_cut_size(G, S, T=None, weight=None):
+    is_multigraph = G.is_multigraph()
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     if T is None:
         T = (~S.S).new()
     else:
         T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.normalized_cut_size(G, S, T)
+    return algorithms.normalized_cut_size(
+        G, S, T, is_weighted=is_multigraph or weight is not None
+    )
 
 
 def conductance(G, S, T=None, weight=None):
+    is_multigraph = G.is_multigraph()
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     if T is None:
         T = (~S.S).new()
     else:
         T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.conductance(G, S, T)
+    return algorithms.conductance(
+        G, S, T, is_weighted=is_multigraph or weight is not None
+    )
 
 
 def edge_expansion(G, S, T=None, weight=None):
+    is_multigraph = G.is_multigraph()
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.edge_expansion(G, S, T)
+    return algorithms.edge_expansion(
+        G, S, T, is_weighted=is_multigraph or weight is not None
+    )
 
 
 def mixing_expansion(G, S, T=None, weight=None):
+    is_multigraph = G.is_multigraph()
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.mixing_expansion(G, S, T)
+    return algorithms.mixing_expansion(
+        G, S, T, is_weighted=is_multigraph or weight is not None
+    )
 
 
 def node_expansion(G, S):
-- 
2.43.0


From fec28c4a578aadf0ef1a99ed2152bf8d02a7542c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 16/41] fix: edge boundary of directed graphs with sinks and of
 overlapping sets

The default second set was taken from row degrees, which lose nodes
without out-edges; undirected edges inside both sets were reported twice.
---
 graphblas_algorithms/algorithms/boundary.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/algorithms/boundary.py b/graphblas_algorithms/algorithms/boundary.py
index 96bd275..cec6ce5 100644
--- a/graphblas_algorithms/algorithms/boundary.py
+++ b/graphblas_algorithms/algorithms/boundary.py
@@ -1,4 +1,4 @@
-from graphblas import binary
+from graphblas import binary, select
 from graphblas.semiring import any_pair
 
 __all__ = ["edge_boundary", "node_boundary"]
@@ -11,12 +11,16 @@ def edge_boundary(G, nbunch1, nbunch2=None, *, is_weighted=False):
         B = binary.pair(nbunch1 & G._A).new(name="boundary")
     if nbunch2 is None:
         # Default nbunch2 is the complement of nbunch1.
-        # We get the row_degrees to better handle hypersparse data.
-        nbunch2 = G.get_property("row_degrees+", mask=~nbunch1.S)
+        # We get the column_degrees to better handle hypersparse data.
+        nbunch2 = G.get_property("column_degrees+", mask=~nbunch1.S)
     if is_weighted:
         B << binary.first(B & nbunch2)
     else:
         B << binary.pair(B & nbunch2)
+    if not G.is_directed():
+        # Edges with both endpoints in both sets appear twice; keep one of each
+        upper = select.triu(B, 1).new()
+        B(~upper.T.new().S, replace=True) << B
     return B
 
 
-- 
2.43.0


From 19f5c3cd5760dac4da5ab43b81fc0cc45afba9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 17/41] fix: count each undirected edge once in intra/inter
 community edges

---
 graphblas_algorithms/algorithms/community/quality.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/community/quality.py b/graphblas_algorithms/algorithms/community/quality.py
index d2b1d95..5dd652d 100644
--- a/graphblas_algorithms/algorithms/community/quality.py
+++ b/graphblas_algorithms/algorithms/community/quality.py
@@ -9,7 +9,7 @@ def intra_community_edges(G, partition):
     for block in partition:
         # is A or A.T faster?
         count += plus_pair(A @ block).new(mask=block.S).reduce().get(0)
-    return count
+    return count if G.is_directed() else count // 2
 
 
 def inter_community_edges(G, partition):
@@ -18,6 +18,6 @@ def inter_community_edges(G, partition):
     for block in partition:
         # is A or A.T faster?
         count += plus_pair(A @ block).new(mask=~block.S).reduce().get(0)
-    return count
+    return count if G.is_directed() else count // 2
     # Alternative implementation if partition is complete set:
     # return G._A.nvals - intra_community_edges_core(G, partition)
-- 
2.43.0


From 39c8f9e0714a9674cbccba51ad85f1c66bb0e2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 18/41] fix: byte chunk sizes with zero-sized items (empty
 graphs)

---
 graphblas_algorithms/nxapi/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/nxapi/_utils.py b/graphblas_algorithms/nxapi/_utils.py
index 5bbdba2..21d6a3d 100644
--- a/graphblas_algorithms/nxapi/_utils.py
+++ b/graphblas_algorithms/nxapi/_utils.py
@@ -79,6 +79,8 @@ def normalize_chunksize(chunksize, itemsize=1, N=None):
                 f"Bad chunksize: {chunksize!r}. Could not interpret {suffix!r} as a bytes unit."
             )
         number *= scale
+        if itemsize == 0:
+            return None
         if chunkstring[-1] == "b":
             number = max(1, number / itemsize)
         rv = int(round(number))
-- 
2.43.0


From 8d48418ea7fb068cd825346e8ddc65ed28104926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 19/41] fix: expand_output of all-pairs path lengths when nodes
 permute the whole graph

---
 graphblas_algorithms/algorithms/shortest_paths/unweighted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/unweighted.py b/graphblas_algorithms/algorithms/shortest_paths/unweighted.py
index ec87b65..e0e7de7 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/unweighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/unweighted.py
@@ -21,7 +21,7 @@ def single_target_shortest_path_length(G, target, cutoff=None):
 
 def all_pairs_shortest_path_length(G, cutoff=None, *, nodes=None, expand_output=False):
     D = _bfs_levels(G, nodes, cutoff=cutoff)
-    if nodes is not None and expand_output and D.ncols != D.nrows:
+    if nodes is not None and expand_output:
         ids = G.list_to_ids(nodes)
         rv = Matrix(D.dtype, D.ncols, D.ncols, name=D.name)
         rv[ids, :] = D
-- 
2.43.0


From 3dd069e6b81d15a28c436e4b2cc5c7c5c8d7dee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 20/41] fix: expand_output of Bellman-Ford path lengths when
 nodes permute the whole graph

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index a83a060..98c7c1c 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -132,7 +132,7 @@ def bellman_ford_path_lengths(G, nodes=None, *, expand_output=False):
             D = _bfs_levels(G, nodes, dtype=iso_value.dtype)
             if iso_value != 1:
                 D *= iso_value
-            if nodes is not None and expand_output and D.ncols != D.nrows:
+            if nodes is not None and expand_output:
                 ids = G.list_to_ids(nodes)
                 rv = Matrix(D.dtype, D.ncols, D.ncols, name=D.name)
                 rv[ids, :] = D
@@ -190,7 +190,7 @@ def bellman_ford_path_lengths(G, nodes=None, *, expand_output=False):
         cur = select.valuelt(diag, 0)
         if any_pair(D @ cur).nvals > 0:
             raise Unbounded("Negative cycle detected.")
-    if nodes is not None and expand_output and D.ncols != D.nrows:
+    if nodes is not None and expand_output:
         rv = Matrix(D.dtype, n, n, name=D.name)
         rv[ids, :] = D
         return rv
-- 
2.43.0


From 7f8d7d1c560e878e3945966b7761e54cca9a24b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 21/41] fix: source-target Bellman-Ford with negative cycles,
 negative iso values and missing paths

A negative cycle was only looked for at the target and after pruning;
any self-loop on the path counted as negative; all-equal negative weights
were always unbounded; nxapi leaked this library's exceptions and returned
an empty path when there is none.
---
 .../algorithms/shortest_paths/weighted.py     | 41 +++++++++----------
 .../nxapi/shortest_paths/weighted.py          | 10 ++++-
 2 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 98c7c1c..30d10b5 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -2,7 +2,7 @@ import numpy as np
 from graphblas import Matrix, Vector, binary, indexunary, monoid, replace, select, unary
 from graphblas.semiring import any_pair, min_plus
 
-from .._bfs import _bfs_level, _bfs_levels, _bfs_parent, _bfs_plain
+from .._bfs import _bfs_level, _bfs_levels, _bfs_parent
 from ..exceptions import NoPath, Unbounded
 
 __all__ = [
@@ -81,7 +81,7 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
             break
         # Update `d` with values that improved
         d(cur.S) << cur
-        if dst_id is not None and not is_negative:
+        if dst_id is not None and not is_negative and not has_negative_diagonal:
             # Limit exploration if we have a target
             cutoff = cur.get(dst_id, cutoff)
     else:
@@ -90,7 +90,7 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
         if cutoff is not None:
             cur << select.valuele(cur, cutoff)
         mask << binary.lt(cur & d)
-        if dst_id is None and mask.reduce(monoid.lor) or dst_id is not None and mask.get(dst_id):
+        if mask.reduce(monoid.lor):
             raise Unbounded("Negative cycle detected.")
     if has_negative_diagonal:
         # We removed diagonal entries above, so check if we visited one with a negative weight
@@ -201,7 +201,8 @@ def _reconstruct_path_from_parents(G, parents, src, dst):
     indices, values = parents.to_coo(sort=False)
     d = dict(zip(indices.tolist(), values.tolist(), strict=True))
     if dst not in d:
-        return []
+        src, dst = G.list_to_keys([src, dst])
+        raise NoPath(f"node {dst} not reachable from {src}")
     cur = dst
     path = [cur]
     while cur != src:
@@ -219,7 +220,12 @@ def bellman_ford_path(G, source, target):
         if not is_negative:
             p = _bfs_parent(G, source, target)
             return _reconstruct_path_from_parents(G, p, src_id, dst_id)
-        raise Unbounded("Negative cycle detected.")
+        # It's difficult to detect negative cycles with BFS
+        if G._A[src_id, src_id].get() is not None:
+            raise Unbounded("Negative cycle detected.")
+        if not G.is_directed() and G._A[src_id, :].nvals > 0:
+            # For undirected graphs, any negative edge is a cycle
+            raise Unbounded("Negative cycle detected.")
     A, is_negative, has_negative_diagonal = G.get_properties(
         "offdiag has_negative_edges- has_negative_diagonal"
     )
@@ -261,7 +267,7 @@ def bellman_ford_path(G, source, target):
             break
         # Update `d` with values that improved
         d(cur.S) << cur
-        if not is_negative:
+        if not is_negative and not has_negative_diagonal:
             # Limit exploration if we have a target
             cutoff = cur.get(dst_id, cutoff)
 
@@ -288,24 +294,15 @@ def bellman_ford_path(G, source, target):
         if cutoff is not None:
             cur << select.valuele(cur, cutoff)
         mask << binary.lt(cur & d)
-        if mask.get(dst_id):
+        if mask.reduce(monoid.lor):
             raise Unbounded("Negative cycle detected.")
-    path = _reconstruct_path_from_parents(G, p, src_id, dst_id)
-    if has_negative_diagonal and path:
-        mask.clear()
-        mask[G.list_to_ids(path)] = True
-        diag = G.get_property("diag", mask=mask.S)
-        if diag.nvals > 0:
+    if has_negative_diagonal:
+        # We removed diagonal entries above, so check if we visited one with a negative weight
+        diag = G.get_property("diag")
+        cur << select.valuelt(diag, 0)
+        if any_pair(d @ cur):
             raise Unbounded("Negative cycle detected.")
-        mask << binary.first(mask & cur)  # mask(cur.S, replace) << mask
-        if mask.nvals > 0:
-            # Is there a path from any visited node with negative self-loop to target?
-            # We could actually stop as soon as any from `path` is visited
-            indices, _ = mask.to_coo(values=False)[0]
-            q = _bfs_plain(G, target=target, index=indices, cutoff=_i)
-            if dst_id in q:
-                raise Unbounded("Negative cycle detected.")
-    return path
+    return _reconstruct_path_from_parents(G, p, src_id, dst_id)
 
 
 def negative_edge_cycle(G):
diff --git a/graphblas_algorithms/nxapi/shortest_paths/weighted.py b/graphblas_algorithms/nxapi/shortest_paths/weighted.py
index b08dd85..cf942bb 100644
--- a/graphblas_algorithms/nxapi/shortest_paths/weighted.py
+++ b/graphblas_algorithms/nxapi/shortest_paths/weighted.py
@@ -1,4 +1,4 @@
-from graphblas_algorithms import algorithms, exceptions
+from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_graph
 
 from .._utils import normalize_chunksize, partition
@@ -64,6 +64,10 @@ def bellman_ford_path(G, source, target, weight="weight"):
         return algorithms.bellman_ford_path(G, source, target)
     except KeyError as e:
         raise NodeNotFound(*e.args) from e
+    except algorithms.exceptions.NoPath as e:
+        raise NetworkXNoPath(*e.args) from e
+    except algorithms.exceptions.Unbounded as e:
+        raise NetworkXUnbounded(*e.args) from e
 
 
 def bellman_ford_path_length(G, source, target, weight="weight"):
@@ -72,8 +76,10 @@ def bellman_ford_path_length(G, source, target, weight="weight"):
         return algorithms.bellman_ford_path_length(G, source, target)
     except KeyError as e:
         raise NodeNotFound(*e.args) from e
-    except exceptions.NoPath as e:
+    except algorithms.exceptions.NoPath as e:
         raise NetworkXNoPath(*e.args) from e
+    except algorithms.exceptions.Unbounded as e:
+        raise NetworkXUnbounded(*e.args) from e
 
 
 def negative_edge_cycle(G, weight="weight", heuristic=True):
-- 
2.43.0


From 87985dc11d4d43d18b0d3f98652a779c83547c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:48 +0000
Subject: [PATCH 22/41] fix: distance cutoffs of zero-weight, infinite and
 fractional-on-integer kind

Also return a plain number, not an unevaluated expression, for the
source-target distance of iso-valued graphs.
---
 .../algorithms/shortest_paths/weighted.py             | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 30d10b5..bbf60b2 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -1,3 +1,5 @@
+from math import floor, inf
+
 import numpy as np
 from graphblas import Matrix, Vector, binary, indexunary, monoid, replace, select, unary
 from graphblas.semiring import any_pair, min_plus
@@ -21,18 +23,23 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
         dst_id = G._key_to_id[target]
     else:
         dst_id = None
+    if cutoff == inf:
+        cutoff = None
 
     if G.get_property("is_iso"):
         # If the edges are iso-valued (and positive), then we can simply do level BFS
         is_negative, iso_value = G.get_properties("has_negative_edges+ iso_value")
         if not is_negative:
             if cutoff is not None:
-                cutoff = int(cutoff // iso_value.get())
+                iso = iso_value.get()
+                # Every reachable node has distance 0 if the edges have weight 0
+                cutoff = int(min(cutoff / iso, len(G))) if iso else None
             d = _bfs_level(G, source, target, cutoff=cutoff, dtype=iso_value.dtype)
             if dst_id is not None:
                 d = d.get(dst_id)
                 if d is None:
                     raise NoPath(f"node {target} not reachable from {source}")
+                return d * iso_value.get()
             if iso_value != 1:
                 d *= iso_value
             return d
@@ -57,6 +64,8 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
         dtype = int
     else:
         dtype = A.dtype
+    if cutoff is not None and (dtype is int or np.issubdtype(dtype.np_type, np.integer)):
+        cutoff = floor(cutoff)  # Don't compare integer distances to a float
     n = A.nrows
     d = Vector(dtype, n, name="single_source_bellman_ford_path_length")
     d[src_id] = 0
-- 
2.43.0


From 82beb01bad125b5c6fa5a198833310c0dd682bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:48 +0000
Subject: [PATCH 23/41] fix: Floyd-Warshall predecessors and permuted node
 lists of undirected graphs

---
 .../algorithms/shortest_paths/dense.py            | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/dense.py b/graphblas_algorithms/algorithms/shortest_paths/dense.py
index 394d1b4..718b938 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/dense.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/dense.py
@@ -21,6 +21,11 @@ def floyd_warshall_predecessor_and_distance(
     if is_directed := G.is_directed():
         A, row_degrees, column_degrees = G.get_properties("offdiag row_degrees- column_degrees-")
         nonempty_nodes = binary.pair(row_degrees & column_degrees).new(name="nonempty_nodes")
+    elif compute_predecessors or permutation is not None:
+        # Predecessors are not symmetric and permuting doesn't keep the upper triangle,
+        # so use the full matrix
+        A, nonempty_nodes = G.get_properties("offdiag degrees-")
+        is_directed = True
     else:
         A, nonempty_nodes = G.get_properties("U- degrees-")
     if permutation is not None:
@@ -76,10 +81,7 @@ def floyd_warshall_predecessor_and_distance(
                 D(binary.min) << select.triu(Outer, 1)
         else:
             # Update Outer to only include off-diagonal values that will update D and P.
-            if is_directed:
-                Mask << indexunary.offdiag(Outer)
-            else:
-                Mask << indexunary.triu(Outer, 1)
+            Mask << indexunary.offdiag(Outer)
             Mask(binary.second) << binary.lt(Outer & D)
             Outer(Mask.V, replace) << Outer
 
@@ -88,9 +90,6 @@ def floyd_warshall_predecessor_and_distance(
 
             # Broadcast predecessors in P_row to updated values
             P_row << P[[i], :]
-            if not is_directed:
-                P_row(binary.any) << P.T[[i], :]
-                Col = P_row.T
             P(Outer.S) << any_second(Col @ P_row)
     del Outer, Mask, Col, Row, P_row
 
@@ -98,8 +97,6 @@ def floyd_warshall_predecessor_and_distance(
         # Symmetrize the results.
         # It may be nice to be able to return these as upper-triangular.
         D(binary.any) << D.T
-        if compute_predecessors:
-            P(binary.any) << P.T
 
     # Set diagonal values to 0 (this way seems fast).
     # The missing values are implied to be infinity, so we set diagonals explicitly to 0.
-- 
2.43.0


From da5120d5b9666afe86607233b3bcb9d12d56cb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:34 +0000
Subject: [PATCH 24/41] fix: compose of graphs with different node sets

Edges between common and new nodes were dropped, edges of the first graph
between common nodes were deleted, and new nodes got wrong positions.
---
 .../algorithms/operators/binary.py            | 25 +++++++------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/graphblas_algorithms/algorithms/operators/binary.py b/graphblas_algorithms/algorithms/operators/binary.py
index 4c14a11..9ce867e 100644
--- a/graphblas_algorithms/algorithms/operators/binary.py
+++ b/graphblas_algorithms/algorithms/operators/binary.py
@@ -1,3 +1,4 @@
+import numpy as np
 from graphblas import Matrix, binary, dtypes, unary
 
 from ..exceptions import GraphBlasAlgorithmException
@@ -125,25 +126,17 @@ def compose(G, H, *, name="compose"):
         C = binary.second(A | B).new(name=name)
         key_to_id = G._key_to_id
     else:
-        keys = sorted(G._key_to_id.keys() & H._key_to_id.keys(), key=G._key_to_id.__getitem__)
-        B = H._A
-        C = Matrix(
-            dtypes.unify(A.dtype, B.dtype),
-            A.nrows + B.nrows - len(keys),
-            A.ncols + B.ncols - len(keys),
-            name=name,
-        )
-        C[: A.nrows, : A.ncols] = A
-        ids1 = G.list_to_ids(keys)
-        ids2 = H.list_to_ids(keys)
-        C[ids1, ids1] = B[ids2, ids2]
         newkeys = sorted(H._key_to_id.keys() - G._key_to_id.keys(), key=H._key_to_id.__getitem__)
-        ids = H.list_to_ids(newkeys)
-        C[A.nrows :, A.ncols :] = B[ids, ids]
+        n = A.nrows + len(newkeys)
+        C = Matrix(dtypes.unify(A.dtype, B.dtype), n, n, name=name)
+        C[: A.nrows, : A.ncols] = A
         # Now make new `key_to_id`
-        ids += A.nrows
-        key_to_id = dict(zip(newkeys, ids.tolist(), strict=True))
+        key_to_id = dict(zip(newkeys, range(A.nrows, n), strict=True))
         key_to_id.update(G._key_to_id)
+        # Add the edges of H at the positions their nodes have in the result
+        keys = sorted(H._key_to_id, key=H._key_to_id.__getitem__)
+        ids = np.fromiter((key_to_id[key] for key in keys), np.uint64)
+        C(binary.second)[ids, ids] << B
     return type(G)(C, key_to_id=key_to_id)
 
 
-- 
2.43.0


From 459518b44e1f51990fabffedc4f16484c23b95a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:34 +0000
Subject: [PATCH 25/41] fix: DiGraph.reverse(copy=False)

---
 graphblas_algorithms/classes/digraph.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/classes/digraph.py b/graphblas_algorithms/classes/digraph.py
index b9e15a8..f449844 100644
--- a/graphblas_algorithms/classes/digraph.py
+++ b/graphblas_algorithms/classes/digraph.py
@@ -611,9 +611,8 @@ class DiGraph(Graph):
 
     def reverse(self, copy=True):
         # We could even reuse many of the cached values
-        A = self._A.T  # This probably mostly works, but does not yet support assignment
-        if copy:
-            A = A.new()
+        # Views are not supported, because the adjacency matrix must be a Matrix
+        A = self._A.T.new()
         rv = type(self)(A, key_to_id=self._key_to_id)
         rv.graph.update(deepcopy(self.graph))
         return rv
-- 
2.43.0


From cfbd01d9433d4d1cb2dcd3922026415af80feffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 26/41] fix: to_undirected keeps one weight per undirected edge

---
 graphblas_algorithms/classes/digraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphblas_algorithms/classes/digraph.py b/graphblas_algorithms/classes/digraph.py
index f449844..e920c95 100644
--- a/graphblas_algorithms/classes/digraph.py
+++ b/graphblas_algorithms/classes/digraph.py
@@ -607,6 +607,9 @@ class DiGraph(Graph):
             B = binary.any(A & A.T).new(name=name)
         else:
             B = binary.any(A | A.T).new(name=name)
+        # Use the same weight in both directions
+        B << select.triu(B)
+        B(binary.any) << B.T
         return Graph(B, key_to_id=self._key_to_id)
 
     def reverse(self, copy=True):
-- 
2.43.0


From 6ef360cd660646190ba2a65add76315991f77233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:48 +0000
Subject: [PATCH 27/41] fix: unweighted Laplacian and modularity matrices of
 directed and boolean graphs

---
 graphblas_algorithms/linalg/laplacianmatrix.py  | 10 ++++++----
 graphblas_algorithms/linalg/modularitymatrix.py | 11 +++++++----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/graphblas_algorithms/linalg/laplacianmatrix.py b/graphblas_algorithms/linalg/laplacianmatrix.py
index 18ed65a..18ed18e 100644
--- a/graphblas_algorithms/linalg/laplacianmatrix.py
+++ b/graphblas_algorithms/linalg/laplacianmatrix.py
@@ -1,4 +1,4 @@
-from graphblas import monoid, unary
+from graphblas import agg, monoid, unary
 
 __all__ = [
     "laplacian_matrix",
@@ -13,13 +13,15 @@ def _laplacian_helper(G, nodelist=None, is_weighted=False):
     if nodelist is not None:
         ids = G.list_to_ids(nodelist)
         A = A[ids, ids].new()
-        if not is_weighted:
+        if is_weighted:
+            d = A.reduce_rowwise(monoid.plus).new()
+        else:
             A << unary.one(A)
-        d = A.reduce_rowwise(monoid.plus).new()
+            d = A.reduce_rowwise(agg.count).new()
     elif is_weighted:
         d = G.get_property("plus_rowwise+")
     else:
-        d = G.get_property("degrees+")
+        d = G.get_property("row_degrees+" if G.is_directed() else "degrees+")
         A = unary.one(A).new()
     return d, A
 
diff --git a/graphblas_algorithms/linalg/modularitymatrix.py b/graphblas_algorithms/linalg/modularitymatrix.py
index 1efff65..deef0b6 100644
--- a/graphblas_algorithms/linalg/modularitymatrix.py
+++ b/graphblas_algorithms/linalg/modularitymatrix.py
@@ -1,4 +1,4 @@
-from graphblas import monoid, unary
+from graphblas import agg, monoid, unary
 
 from .laplacianmatrix import _laplacian_helper
 
@@ -21,10 +21,13 @@ def directed_modularity_matrix(
     if nodelist is not None:
         ids = G.list_to_ids(nodelist)
         A = A[ids, ids].new()
-        if not is_weighted:
+        if is_weighted:
+            op = monoid.plus
+        else:
             A << unary.one(A)
-        k_out = A.reduce_rowwise(monoid.plus).new()
-        k_in = A.reduce_columnwise(monoid.plus).new()
+            op = agg.count
+        k_out = A.reduce_rowwise(op).new()
+        k_in = A.reduce_columnwise(op).new()
     elif is_weighted:
         k_out, k_in = G.get_properties("plus_rowwise+ plus_columnwise+")
     else:
-- 
2.43.0


From fd18e912319433ad96b6bf7cd430173bb45e6134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:48 +0000
Subject: [PATCH 28/41] fix: google_matrix dangling rows with a node list

---
 graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py | 2 +-
 graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py      | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
index 7391dbe..4144811 100644
--- a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
@@ -130,7 +130,7 @@ def google_matrix(
             raise ZeroDivisionError("personalization sums to 0")
         p = (personalization / denom).new(mask=personalization.V, name="p")
 
-    if ids is None or len(ids) == len(G):
+    if ids is None:
         nonempty_rows = G.get_property("any_rowwise+")  # XXX: What about self-edges?
     else:
         nonempty_rows = A.reduce_rowwise(monoid.any).new(name="nonempty_rows")
diff --git a/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py b/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py
index 22e977e..dc10a31 100644
--- a/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py
@@ -50,7 +50,9 @@ def google_matrix(
 ):
     G = to_graph(G, weight=weight, dtype=float)
     p = G.dict_to_vector(personalization, dtype=float, name="personalization")
-    if dangling is not None and G.get_property("row_degrees+").nvals < len(G):
+    if dangling is not None and (
+        nodelist is not None or G.get_property("row_degrees+").nvals < len(G)
+    ):
         dangling_weights = G.dict_to_vector(dangling, dtype=float, name="dangling")
     else:
         dangling_weights = None
-- 
2.43.0


From 09fb1fc1e46c131c3a9b60bba99664e66baf5c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 29/41] fix: katz_centrality of nodes without in-edges

---
 graphblas_algorithms/algorithms/centrality/katz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/centrality/katz.py b/graphblas_algorithms/algorithms/centrality/katz.py
index 8087e85..a91d9bc 100644
--- a/graphblas_algorithms/algorithms/centrality/katz.py
+++ b/graphblas_algorithms/algorithms/centrality/katz.py
@@ -1,4 +1,4 @@
-from graphblas import Scalar, Vector
+from graphblas import Scalar, Vector, binary
 from graphblas.core.utils import output_type
 from graphblas.semiring import plus_first, plus_times
 
@@ -46,7 +46,7 @@ def katz_centrality(
         # x << alpha * semiring(xprev @ A) + beta
         x << semiring(xprev @ A)
         x *= alpha
-        x += b
+        x(binary.plus) << b  # beta is added to every node, also those without in-edges
         if is_converged(xprev, x, tol):  # sum(abs(xprev - x)) < N * tol
             x.name = name
             if normalized:
-- 
2.43.0


From b094505159c93c1617fd0dd5dec25e9125dde4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 30/41] fix: pagerank of graphs without edges and with sparse
 vectors

---
 .../algorithms/link_analysis/pagerank_alg.py                | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
index 4144811..da12071 100644
--- a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
@@ -22,7 +22,7 @@ def pagerank(
 ) -> Vector:
     A = G._A
     N = A.nrows
-    if A.nvals == 0:
+    if N == 0:
         return Vector(float, N, name=name)
 
     # Initial vector
@@ -88,10 +88,10 @@ def pagerank(
         if is_dangling:
             if dangling is None and personalization is None:
                 # Fast case: add a scalar; x is still iso-valued (b/c p is also scalar)
-                x += xprev @ dangling_mask
+                x += (xprev @ dangling_mask).get(0.0)
             else:
                 # Add a vector
-                x += plus_first(xprev @ dangling_mask) * dangling_weights
+                x += plus_first(xprev @ dangling_mask).get(0.0) * dangling_weights
         w << xprev * S
         x += semiring(w @ A)  # plus_first if A.ss.is_iso else plus_times
 
-- 
2.43.0


From d31355f2bf82e2c15b456e9827c01b043bb0a551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:54 +0000
Subject: [PATCH 31/41] fix: fast_could_be_isomorphic of directed graphs
 depended on the node numbering

---
 graphblas_algorithms/algorithms/isomorphism/isomorph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/isomorphism/isomorph.py b/graphblas_algorithms/algorithms/isomorphism/isomorph.py
index 12e5af4..9b34fe5 100644
--- a/graphblas_algorithms/algorithms/isomorphism/isomorph.py
+++ b/graphblas_algorithms/algorithms/isomorphism/isomorph.py
@@ -16,8 +16,9 @@ def fast_could_be_isomorphic(G1, G2):
     d2 = G2.get_property("total_degrees+" if G2.is_directed() else "degrees+")
     if d1.nvals != d2.nvals:
         return False
-    t1 = triangles(G1)
-    t2 = triangles(G2)
+    # Triangle counts are defined on undirected graphs
+    t1 = triangles(G1.to_undirected() if G1.is_directed() else G1)
+    t2 = triangles(G2.to_undirected() if G2.is_directed() else G2)
     if t1.nvals != t2.nvals:
         return False
     # Make ds and ts the same shape as numpy arrays so we can sort them lexicographically.
-- 
2.43.0


From f59bf717651f13ef3fa7b8a6343630f51afd7518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 32/41] fix: membership, lookup and discard of labels that are
 absent from a result

---
 graphblas_algorithms/classes/nodemap.py | 39 +++++++++++++++----------
 graphblas_algorithms/classes/nodeset.py |  8 ++---
 2 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 2a32502..2089fdf 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -70,8 +70,8 @@ class NodeMap(MutableMapping):
 
     # Override other MutableMapping methods
     def __contains__(self, key):
-        idx = self._key_to_id[key]
-        return self._fill_value is not None or idx in self.vector
+        idx = self._key_to_id.get(key)
+        return idx is not None and (self._fill_value is not None or idx in self.vector)
 
     def __eq__(self, other):
         if isinstance(other, NodeMap):
@@ -88,7 +88,9 @@ class NodeMap(MutableMapping):
         self._fill_value = None
 
     def get(self, key, default=None):
-        idx = self._key_to_id[key]
+        idx = self._key_to_id.get(key)
+        if idx is None:
+            return default
         rv = self.vector.get(idx)
         if rv is None:
             if self._fill_value is not None:
@@ -138,6 +140,8 @@ class VectorMap(MutableMapping):
         del self.vector[key]
 
     def __getitem__(self, key):
+        if key not in self:
+            raise KeyError(key)
         return self.vector.get(key)
 
     def __iter__(self):
@@ -152,7 +156,10 @@ class VectorMap(MutableMapping):
 
     # Override other MutableMapping methods
     def __contains__(self, key):
-        return key in self.vector
+        try:
+            return 0 <= key < self.vector.size and key in self.vector
+        except TypeError:  # not an index
+            return False
 
     def __eq__(self, other):
         if isinstance(other, VectorMap):
@@ -169,7 +176,7 @@ class VectorMap(MutableMapping):
         self.vector.clear()
 
     def get(self, key, default=None):
-        return self.vector.get(key, default)
+        return self.vector.get(key, default) if key in self else default
 
     # items
     # keys
@@ -185,8 +192,8 @@ class VectorMap(MutableMapping):
         return idx, value
 
     def setdefault(self, key, default=None):
-        if (value := self.vector.get(key)) is not None:
-            return value
+        if key in self:
+            return self.vector.get(key)
         self.vector[key] = default
         return default
 
@@ -270,8 +277,8 @@ class VectorNodeMap(MutableMapping):
 
     # Override other MutableMapping methods
     def __contains__(self, key):
-        idx = self._key_to_id[key]
-        return idx in self._get_rows()
+        idx = self._key_to_id.get(key)
+        return idx is not None and idx in self._get_rows()
 
     def __eq__(self, other):
         if isinstance(other, VectorNodeMap):
@@ -283,9 +290,9 @@ class VectorNodeMap(MutableMapping):
         self._rows = None
 
     def get(self, key, default=None):
-        idx = self._key_to_id[key]
-        if self._get_rows().get(idx) is None:
+        if key not in self:
             return default
+        idx = self._key_to_id[key]
         return VectorMap(self.matrix[idx, :].new())
 
     # items
@@ -395,8 +402,8 @@ class NodeNodeMap(MutableMapping):
 
     # Override other MutableMapping methods
     def __contains__(self, key):
-        idx = self._key_to_id[key]
-        return self._fill_value is not None or idx in self._get_rows()
+        idx = self._key_to_id.get(key)
+        return idx is not None and (self._fill_value is not None or idx in self._get_rows())
 
     def __eq__(self, other):
         if isinstance(other, NodeNodeMap):
@@ -414,10 +421,10 @@ class NodeNodeMap(MutableMapping):
         self._fill_value = None
 
     def get(self, key, default=None):
-        idx = self._key_to_id[key]
-        if self._fill_value is None and self._get_rows().get(idx) is None:
+        if key not in self:
             return default
-        self.vector_to_nodemap(
+        idx = self._key_to_id[key]
+        return self.vector_to_nodemap(
             self.matrix[idx, :].new(),
             fill_value=self._fill_value,
             values_are_keys=self._values_are_keys,
diff --git a/graphblas_algorithms/classes/nodeset.py b/graphblas_algorithms/classes/nodeset.py
index b79895e..9fcaba0 100644
--- a/graphblas_algorithms/classes/nodeset.py
+++ b/graphblas_algorithms/classes/nodeset.py
@@ -34,8 +34,8 @@ class NodeSet(MutableSet):
 
     # Requirements for MutableSet
     def __contains__(self, x):
-        idx = self._key_to_id[x]
-        return idx in self.vector
+        idx = self._key_to_id.get(x)
+        return idx is not None and idx in self.vector
 
     def __iter__(self):
         # Slow if we iterate over one; fast if we iterate over all
@@ -51,8 +51,8 @@ class NodeSet(MutableSet):
         self.vector[idx] = True
 
     def discard(self, value):
-        idx = self._key_to_id[value]
-        del self.vector[idx]
+        if value in self:
+            del self.vector[self._key_to_id[value]]
 
     # Override other MutableSet methods
     def __eq__(self, other):
-- 
2.43.0


From e1d501a0bdd8f168255d53c0c87122a6033cd36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 33/41] fix: writing label dictionaries through
 NodeMap.setdefault and NodeNodeMap

---
 graphblas_algorithms/classes/nodemap.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 2089fdf..96d99e0 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -124,7 +124,7 @@ class NodeMap(MutableMapping):
         if self._fill_value is not None:
             return self._fill_value
         if default is not None:
-            self.vector[idx] = default
+            self[key] = default
         return default
 
     # update
@@ -205,7 +205,7 @@ class VectorNodeMap(MutableMapping):
     def __init__(self, A, *, key_to_id=None):
         self.matrix = A
         if key_to_id is None:
-            self._key_to_id = {i: i for i in range(A.size)}
+            self._key_to_id = {i: i for i in range(A.nrows)}
         else:
             self._key_to_id = key_to_id
         self._id_to_key = None
@@ -319,7 +319,7 @@ class NodeNodeMap(MutableMapping):
     def __init__(self, A, *, fill_value=None, values_are_keys=False, key_to_id=None):
         self.matrix = A
         if key_to_id is None:
-            self._key_to_id = {i: i for i in range(A.size)}
+            self._key_to_id = {i: i for i in range(A.nrows)}
         else:
             self._key_to_id = key_to_id
         self._id_to_key = None
@@ -384,11 +384,11 @@ class NodeNodeMap(MutableMapping):
 
     def __setitem__(self, key, val):
         idx = self._key_to_id[key]
-        if isinstance(val, NodeMap):
-            # TODO: check val._key_to_id?
-            val = val.vector
-        elif isinstance(val, dict):
-            val = Vector.from_dict(val, self.matrix.dtype, size=self.matrix.ncols)
+        if isinstance(val, (NodeMap, dict)):
+            row = Vector(self.matrix.dtype, self.matrix.ncols)
+            for k, v in val.items():
+                row[self._key_to_id[k]] = self._key_to_id[v] if self._values_are_keys else v
+            val = row
         else:
             raise TypeError
         if val.nvals == 0:
-- 
2.43.0


From fddedcbbcf7662b0173fc974f146f5a4b82f8ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 34/41] fix: equality of node maps and sets that store the same
 items differently

---
 graphblas_algorithms/classes/nodemap.py | 50 ++++++++++++++-----------
 graphblas_algorithms/classes/nodeset.py |  3 +-
 2 files changed, 29 insertions(+), 24 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 96d99e0..a1245e4 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -74,13 +74,15 @@ class NodeMap(MutableMapping):
         return idx is not None and (self._fill_value is not None or idx in self.vector)
 
     def __eq__(self, other):
-        if isinstance(other, NodeMap):
-            return (
-                self._values_are_keys == other._values_are_keys
-                and self._fill_value == other._fill_value
-                and self.vector.isequal(other.vector)
-                and self._key_to_id == other._key_to_id
-            )
+        if (
+            isinstance(other, NodeMap)
+            and self._values_are_keys == other._values_are_keys
+            and self._fill_value == other._fill_value
+            and self.vector.isequal(other.vector)
+            and self._key_to_id == other._key_to_id
+        ):
+            return True
+        # The same items may be stored differently
         return super().__eq__(other)
 
     def clear(self):
@@ -162,14 +164,11 @@ class VectorMap(MutableMapping):
             return False
 
     def __eq__(self, other):
-        if isinstance(other, VectorMap):
-            return self.vector.isequal(other.vector)
+        if isinstance(other, VectorMap) and self.vector.isequal(other.vector):
+            return True
         if isinstance(other, Vector):
             return self.vector.isequal(other)
-        if isinstance(other, NodeMap):
-            return self.vector.isequal(other.vector) and other._key_to_id == {
-                i: i for i in range(self.vector.size)
-            }
+        # The same items may be stored differently
         return super().__eq__(other)
 
     def clear(self):
@@ -281,8 +280,13 @@ class VectorNodeMap(MutableMapping):
         return idx is not None and idx in self._get_rows()
 
     def __eq__(self, other):
-        if isinstance(other, VectorNodeMap):
-            return self.matrix.isequal(other.matrix) and self._key_to_id == other._key_to_id
+        if (
+            isinstance(other, VectorNodeMap)
+            and self.matrix.isequal(other.matrix)
+            and self._key_to_id == other._key_to_id
+        ):
+            return True
+        # The same items may be stored differently
         return super().__eq__(other)
 
     def clear(self):
@@ -406,13 +410,15 @@ class NodeNodeMap(MutableMapping):
         return idx is not None and (self._fill_value is not None or idx in self._get_rows())
 
     def __eq__(self, other):
-        if isinstance(other, NodeNodeMap):
-            return (
-                self._fill_value == other._fill_value
-                and self._values_are_keys == other._values_are_keys
-                and self.matrix.isequal(other.matrix)
-                and self._key_to_id == other._key_to_id
-            )
+        if (
+            isinstance(other, NodeNodeMap)
+            and self._fill_value == other._fill_value
+            and self._values_are_keys == other._values_are_keys
+            and self.matrix.isequal(other.matrix)
+            and self._key_to_id == other._key_to_id
+        ):
+            return True
+        # The same items may be stored differently
         return super().__eq__(other)
 
     def clear(self):
diff --git a/graphblas_algorithms/classes/nodeset.py b/graphblas_algorithms/classes/nodeset.py
index 9fcaba0..ede2152 100644
--- a/graphblas_algorithms/classes/nodeset.py
+++ b/graphblas_algorithms/classes/nodeset.py
@@ -56,14 +56,13 @@ class NodeSet(MutableSet):
 
     # Override other MutableSet methods
     def __eq__(self, other):
-        if isinstance(other, NodeSet):
+        if isinstance(other, NodeSet) and self._key_to_id == other._key_to_id:
             a = self.vector
             b = other.vector
             return (
                 a.size == b.size
                 and (nvals := a.nvals) == b.nvals
                 and plus_pair(a @ b).get(0) == nvals
-                and self._key_to_id == other._key_to_id
             )
         return super().__eq__(other)
 
-- 
2.43.0


From 9b26855e5e640cebba5307f898abcd9779f328b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 35/41] fix: deleting entries of node maps with a fill value

---
 graphblas_algorithms/classes/nodemap.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index a1245e4..4c2fcee 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -34,8 +34,17 @@ class NodeMap(MutableMapping):
     vector_to_set = _utils.vector_to_set
     # _cacheit = _utils._cacheit
 
+    def _store_fill_value(self):
+        """Store the fill value explicitly so that entries can be removed"""
+        if self._fill_value is not None:
+            self.vector(~self.vector.S) << self._fill_value
+            self._fill_value = None
+
     # Requirements for MutableMapping
     def __delitem__(self, key):
+        if key not in self:
+            raise KeyError(key)
+        self._store_fill_value()
         idx = self._key_to_id[key]
         del self.vector[idx]
 
@@ -107,6 +116,7 @@ class NodeMap(MutableMapping):
     # pop
 
     def popitem(self):
+        self._store_fill_value()
         v = self.vector
         try:
             idx, value = next(v.ss.iteritems())
@@ -139,6 +149,8 @@ class VectorMap(MutableMapping):
 
     # Requirements for MutableMapping
     def __delitem__(self, key):
+        if key not in self:
+            raise KeyError(key)
         del self.vector[key]
 
     def __getitem__(self, key):
@@ -236,6 +248,8 @@ class VectorNodeMap(MutableMapping):
 
     # Requirements for MutableMapping
     def __delitem__(self, key):
+        if key not in self:
+            raise KeyError(key)
         idx = self._key_to_id[key]
         del self.matrix[idx, :]
         if self._rows is not None:
@@ -355,8 +369,18 @@ class NodeNodeMap(MutableMapping):
     vector_to_set = _utils.vector_to_set
     # _cacheit = _utils._cacheit
 
+    def _store_fill_value(self):
+        """Store the fill value explicitly so that entries can be removed"""
+        if self._fill_value is not None:
+            self.matrix(~self.matrix.S) << self._fill_value
+            self._fill_value = None
+            self._rows = None
+
     # Requirements for MutableMapping
     def __delitem__(self, key):
+        if key not in self:
+            raise KeyError(key)
+        self._store_fill_value()
         idx = self._key_to_id[key]
         del self.matrix[idx, :]
         if self._rows is not None:
@@ -441,6 +465,7 @@ class NodeNodeMap(MutableMapping):
     # pop
 
     def popitem(self):
+        self._store_fill_value()
         rows = self._get_rows()
         try:
             idx = next(rows.ss.iterkeys())
-- 
2.43.0


From c39fe26a1064c883a61ad0fa2a1d48aa65861377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 36/41] fix: dict_to_vector of an empty dictionary

---
 graphblas_algorithms/classes/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/classes/_utils.py b/graphblas_algorithms/classes/_utils.py
index ecf66d9..7be5a64 100644
--- a/graphblas_algorithms/classes/_utils.py
+++ b/graphblas_algorithms/classes/_utils.py
@@ -60,6 +60,8 @@ def dict_to_vector(self, d, *, size=None, dtype=None, name=None):
         return None
     if size is None:
         size = len(self)
+    if not d:
+        return Vector(float if dtype is None else dtype, size, name=name)
     key_to_id = self._key_to_id
     indices, values = zip(*((key_to_id[key], val) for key, val in d.items()), strict=True)
     return Vector.from_coo(indices, values, size=size, dtype=dtype, name=name)
-- 
2.43.0


From 2a140b74c89bccf8b4f68d917df5bc567d8461ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 37/41] fix: matrix_to_dicts of a matrix without entries

---
 graphblas_algorithms/classes/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/_utils.py b/graphblas_algorithms/classes/_utils.py
index 7be5a64..f8f5d4c 100644
--- a/graphblas_algorithms/classes/_utils.py
+++ b/graphblas_algorithms/classes/_utils.py
@@ -200,7 +200,7 @@ def matrix_to_dicts(self, A, *, use_row_index=False, use_column_index=False, val
     id_to_key = self.id_to_key
     if values_are_keys:
         values = [id_to_key[val] for val in values]
-    it = zip(rows, np.lib.stride_tricks.sliding_window_view(indptr, 2).tolist(), strict=True)
+    it = zip(rows, zip(indptr[:-1].tolist(), indptr[1:].tolist(), strict=True), strict=True)
     if use_row_index and use_column_index:
         return {
             row: dict(zip(col_indices[start:stop], values[start:stop], strict=True))
-- 
2.43.0


From 25a27c580e42de2a58912985322270a2fc84d7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 38/41] fix: matrix_to_dicts of a transposed matrix exchanged
 its label options

---
 graphblas_algorithms/classes/_utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/graphblas_algorithms/classes/_utils.py b/graphblas_algorithms/classes/_utils.py
index f8f5d4c..8f7ab17 100644
--- a/graphblas_algorithms/classes/_utils.py
+++ b/graphblas_algorithms/classes/_utils.py
@@ -190,7 +190,6 @@ def matrix_to_dicts(self, A, *, use_row_index=False, use_column_index=False, val
         d = A.T.ss.export("hypercsc")
         rows = d["cols"].tolist()
         col_indices = d["row_indices"].tolist()
-        use_row_index, use_column_index = use_column_index, use_row_index
     else:
         d = A.ss.export("hypercsr")
         rows = d["rows"].tolist()
-- 
2.43.0


From 84dd810a904de318037ecbd82c84c06eb158ba57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:10 +0000
Subject: [PATCH 39/41] fix: matrix_to_dicts of an iso-valued matrix

---
 graphblas_algorithms/classes/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/classes/_utils.py b/graphblas_algorithms/classes/_utils.py
index 8f7ab17..679f0ff 100644
--- a/graphblas_algorithms/classes/_utils.py
+++ b/graphblas_algorithms/classes/_utils.py
@@ -196,6 +196,8 @@ def matrix_to_dicts(self, A, *, use_row_index=False, use_column_index=False, val
         col_indices = d["col_indices"].tolist()
     indptr = d["indptr"]
     values = d["values"].tolist()
+    if d.get("is_iso"):
+        values *= len(col_indices)
     id_to_key = self.id_to_key
     if values_are_keys:
         values = [id_to_key[val] for val in values]
-- 
2.43.0


From 6eda238393d42c5e0b38654ae2aaa8ee2ff572aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:08 +0000
Subject: [PATCH 40/41] fix: generalized_degree of one node is keyed by numbers
 of triangles

---
 graphblas_algorithms/nxapi/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index 5ac5eb9..dd035ff 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -3,6 +3,7 @@ from graphblas import monoid
 from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_graph
 from graphblas_algorithms.classes.graph import to_undirected_graph
+from graphblas_algorithms.classes.nodemap import VectorMap
 from graphblas_algorithms.utils import not_implemented_for
 
 from ._utils import normalize_chunksize, partition
@@ -130,7 +131,7 @@ def generalized_degree(G, nodes=None):
         return {}
     if nodes in G:
         result = algorithms.single_generalized_degree(G, nodes)
-        return G.vector_to_nodemap(result)
+        return VectorMap(result)  # Keys are numbers of triangles, not nodes
     mask = G.list_to_mask(nodes)
     result = algorithms.generalized_degree(G, mask=mask)
     return G.matrix_to_vectornodemap(result)
-- 
2.43.0


From 4b301a8cd5edb85fd72f11b92c20f6e6eb5e836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:35 +0000
Subject: [PATCH 41/41] fix: edgeless graphs have no iso-value (SuiteSparse may
 flag an empty matrix as iso-valued)

---
 graphblas_algorithms/classes/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/graph.py b/graphblas_algorithms/classes/graph.py
index c2cbe3a..2323406 100644
--- a/graphblas_algorithms/classes/graph.py
+++ b/graphblas_algorithms/classes/graph.py
@@ -225,7 +225,8 @@ def is_iso(G, mask=None):
         else:
             # SuiteSparse:GraphBLAS. `A` may still be iso-valued even if `A.ss.is_iso` is False.
             # Should we check this or rely on `A.ss.is_iso` b/c it's fast and should usually work?
-            cache["is_iso"] = A.ss.is_iso
+            # Edgeless graphs have no iso-value, but SuiteSparse may say that `A.ss.is_iso` is True.
+            cache["is_iso"] = A.nvals > 0 and A.ss.is_iso
     return cache["is_iso"]
 
 
@@ -242,7 +243,7 @@ def get_iso_value(G, mask=None):
 
         # min_val, max_val = G.get_properties('min_element+ max_element+')
         # SuiteSparse:GraphBLAS
-        elif A.ss.is_iso:
+        elif A.nvals > 0 and A.ss.is_iso:
             cache["iso_value"] = A.ss.iso_value
             cache["is_iso"] = True
         else:
-- 
2.43.0

