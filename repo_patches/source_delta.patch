From 4b2c45fe7497ae03dc018a86f86925ef97bdca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 01/68] fix: edge_boundary of a directed graph must keep edges
 to nodes without out-edges

The default second node set is the complement of the first one, and it is
matched against edge heads, so it must come from in-degrees.
---
 graphblas_algorithms/algorithms/boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/boundary.py b/graphblas_algorithms/algorithms/boundary.py
index 96bd275..b3f964d 100644
--- a/graphblas_algorithms/algorithms/boundary.py
+++ b/graphblas_algorithms/algorithms/boundary.py
@@ -11,8 +11,8 @@ def edge_boundary(G, nbunch1, nbunch2=None, *, is_weighted=False):
         B = binary.pair(nbunch1 & G._A).new(name="boundary")
     if nbunch2 is None:
         # Default nbunch2 is the complement of nbunch1.
-        # We get the row_degrees to better handle hypersparse data.
-        nbunch2 = G.get_property("row_degrees+", mask=~nbunch1.S)
+        # We get the column_degrees to better handle hypersparse data.
+        nbunch2 = G.get_property("column_degrees+", mask=~nbunch1.S)
     if is_weighted:
         B << binary.first(B & nbunch2)
     else:
-- 
2.43.0


From 0ab5561b94a772f535018bb729ed548d8533207a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 02/68] fix: edge_boundary(data=<attr>) must yield the
 attribute value, not a dict

---
 graphblas_algorithms/nxapi/boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/boundary.py b/graphblas_algorithms/nxapi/boundary.py
index 662cfe4..a49d120 100644
--- a/graphblas_algorithms/nxapi/boundary.py
+++ b/graphblas_algorithms/nxapi/boundary.py
@@ -28,7 +28,7 @@ def edge_boundary(G, nbunch1, nbunch2=None, data=False, keys=False, default=None
             (id_to_key[row] for row in rows),
             (id_to_key[col] for col in cols),
             # Unsure about this; data argument may mean *all* edge attributes
-            ({weight: val} for val in vals),
+            ({weight: val} for val in vals) if data is True else vals,
             strict=True,
         )
     else:
-- 
2.43.0


From d64da3d222dd02dfc4fe96fe06fcbbb9a1c79d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 03/68] fix: weighted volume of a directed graph must sum
 out-edge weights

It summed the weights of edges into S, whereas the unweighted volume (and
networkx) uses out-degrees.
---
 graphblas_algorithms/algorithms/cuts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index 918dc56..d9abe76 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -1,5 +1,5 @@
 from graphblas import monoid
-from graphblas.semiring import any_pair, plus_first
+from graphblas.semiring import any_pair, plus_second
 
 from .boundary import edge_boundary, node_boundary
 
@@ -32,7 +32,8 @@ def cut_size(G, S, T=None, *, is_weighted=False):
 
 def volume(G, S, *, weighted=False):
     if weighted:
-        degrees = plus_first(G._A @ S)
+        # Sum the weights of the edges out of S
+        degrees = plus_second(S @ G._A)
     else:
         degrees = G.get_property("row_degrees+", mask=S.S)
     return degrees.reduce(monoid.plus).get(0)
-- 
2.43.0


From 9875420097e3ae713901c653163744584a1d6c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 04/68] fix: use the weight argument of conductance,
 normalized_cut_size and the expansions

---
 graphblas_algorithms/algorithms/cuts.py | 24 ++++++++++++------------
 graphblas_algorithms/nxapi/cuts.py      | 12 ++++++++----
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index d9abe76..81dc745 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -39,22 +39,22 @@ def volume(G, S, *, weighted=False):
     return degrees.reduce(monoid.plus).get(0)
 
 
-def normalized_cut_size(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
-    volume_S = volume(G, S)
-    volume_T = volume(G, T)
+def normalized_cut_size(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
+    volume_S = volume(G, S, weighted=is_weighted)
+    volume_T = volume(G, T, weighted=is_weighted)
     return num_cut_edges * ((1 / volume_S) + (1 / volume_T))
 
 
-def conductance(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
-    volume_S = volume(G, S)
-    volume_T = volume(G, T)
+def conductance(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
+    volume_S = volume(G, S, weighted=is_weighted)
+    volume_T = volume(G, T, weighted=is_weighted)
     return num_cut_edges / min(volume_S, volume_T)
 
 
-def edge_expansion(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
+def edge_expansion(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
     if T is None:
         Tnvals = S.size - S.nvals
     else:
@@ -62,8 +62,8 @@ def edge_expansion(G, S, T=None):
     return num_cut_edges / min(S.nvals, Tnvals)
 
 
-def mixing_expansion(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
+def mixing_expansion(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
     return num_cut_edges / G._A.nvals  # Why no factor of 2 in denominator?
 
 
diff --git a/graphblas_algorithms/nxapi/cuts.py b/graphblas_algorithms/nxapi/cuts.py
index 8343109..c10c4f5 100644
--- a/graphblas_algorithms/nxapi/cuts.py
+++ b/graphblas_algorithms/nxapi/cuts.py
@@ -29,37 +29,41 @@ def volume(G, S, weight=None):
 
 
 def normalized_cut_size(G, S, T=None, weight=None):
+    is_weighted = G.is_multigraph() or weight is not None
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     if T is None:
         T = (~S.S).new()
     else:
         T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.normalized_cut_size(G, S, T)
+    return algorithms.normalized_cut_size(G, S, T, is_weighted=is_weighted)
 
 
 def conductance(G, S, T=None, weight=None):
+    is_weighted = G.is_multigraph() or weight is not None
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     if T is None:
         T = (~S.S).new()
     else:
         T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.conductance(G, S, T)
+    return algorithms.conductance(G, S, T, is_weighted=is_weighted)
 
 
 def edge_expansion(G, S, T=None, weight=None):
+    is_weighted = G.is_multigraph() or weight is not None
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.edge_expansion(G, S, T)
+    return algorithms.edge_expansion(G, S, T, is_weighted=is_weighted)
 
 
 def mixing_expansion(G, S, T=None, weight=None):
+    is_weighted = G.is_multigraph() or weight is not None
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.mixing_expansion(G, S, T)
+    return algorithms.mixing_expansion(G, S, T, is_weighted=is_weighted)
 
 
 def node_expansion(G, S):
-- 
2.43.0


From 881785e9fd4204ecf4e762e05ab75f7923665f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 05/68] fix: mixing_expansion of a directed graph must divide
 by twice the number of edges

---
 graphblas_algorithms/algorithms/cuts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index 81dc745..b6e7fee 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -64,7 +64,9 @@ def edge_expansion(G, S, T=None, *, is_weighted=False):
 
 def mixing_expansion(G, S, T=None, *, is_weighted=False):
     num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
-    return num_cut_edges / G._A.nvals  # Why no factor of 2 in denominator?
+    # This is twice the number of edges; undirected edges are stored in both directions
+    num_total = 2 * G._A.nvals if G.is_directed() else G._A.nvals
+    return num_cut_edges / num_total
 
 
 def node_expansion(G, S):
-- 
2.43.0


From a0f0977239b625cb86c265d68e74354b2a01914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 06/68] fix: edge_expansion of a directed graph must accept the
 default T

---
 graphblas_algorithms/nxapi/cuts.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/cuts.py b/graphblas_algorithms/nxapi/cuts.py
index c10c4f5..b41b851 100644
--- a/graphblas_algorithms/nxapi/cuts.py
+++ b/graphblas_algorithms/nxapi/cuts.py
@@ -54,7 +54,10 @@ def edge_expansion(G, S, T=None, weight=None):
     is_weighted = G.is_multigraph() or weight is not None
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
-    T = G.set_to_vector(T, ignore_extra=True)
+    if T is None:
+        T = (~S.S).new()
+    else:
+        T = G.set_to_vector(T, ignore_extra=True)
     return algorithms.edge_expansion(G, S, T, is_weighted=is_weighted)
 
 
-- 
2.43.0


From c7974e607df1a43cfa8c7850c82c7936aece318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 07/68] fix: count each edge of an undirected graph once in
 intra/inter community edges

---
 graphblas_algorithms/algorithms/community/quality.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/community/quality.py b/graphblas_algorithms/algorithms/community/quality.py
index d2b1d95..998f8c6 100644
--- a/graphblas_algorithms/algorithms/community/quality.py
+++ b/graphblas_algorithms/algorithms/community/quality.py
@@ -4,7 +4,8 @@ __all__ = ["intra_community_edges", "inter_community_edges"]
 
 
 def intra_community_edges(G, partition):
-    A = G._A
+    # Undirected edges are stored in both directions, but should only be counted once
+    A = G._A if G.is_directed() else G.get_property("U+")
     count = 0
     for block in partition:
         # is A or A.T faster?
@@ -13,7 +14,8 @@ def intra_community_edges(G, partition):
 
 
 def inter_community_edges(G, partition):
-    A = G._A
+    # Undirected edges are stored in both directions, but should only be counted once
+    A = G._A if G.is_directed() else G.get_property("U+")
     count = 0
     for block in partition:
         # is A or A.T faster?
-- 
2.43.0


From 2c374c76bbbaad01d50addd4c2394c5da6692e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 08/68] fix: s_metric of a directed graph must not be halved

---
 graphblas_algorithms/algorithms/smetric.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/smetric.py b/graphblas_algorithms/algorithms/smetric.py
index e2e85bb..3ed92f4 100644
--- a/graphblas_algorithms/algorithms/smetric.py
+++ b/graphblas_algorithms/algorithms/smetric.py
@@ -6,9 +6,11 @@ __all__ = ["s_metric"]
 def s_metric(G):
     if G.is_directed():
         degrees = G.get_property("total_degrees+")
+        scale = 1
     else:
         degrees = G.get_property("degrees+")
-    return (binary.first(degrees & G._A) @ degrees).reduce().get(0) / 2
+        scale = 2  # Undirected edges are stored in both directions
+    return (binary.first(degrees & G._A) @ degrees).reduce().get(0) / scale
     # Alternatives
     # return (degrees @ binary.second(G._A & degrees)).reduce().get(0) / 2
     # return degrees.outer(degrees).new(mask=G._A.S).reduce_scalar().get(0) / 2
-- 
2.43.0


From 5dd274dee636c9ed3447accf5a5debafa86a9bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 09/68] fix: graphs with nodes and no edges are regular
 (0-regular)

---
 graphblas_algorithms/algorithms/regular.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/algorithms/regular.py b/graphblas_algorithms/algorithms/regular.py
index cf3a057..7af5d83 100644
--- a/graphblas_algorithms/algorithms/regular.py
+++ b/graphblas_algorithms/algorithms/regular.py
@@ -7,12 +7,13 @@ def is_regular(G):
     if not G.is_directed():
         degrees = G.get_property("degrees+")
         if degrees.nvals != degrees.size:
-            return False
+            # Nodes with degree 0 are not stored
+            return degrees.nvals == 0
         d = degrees.get(0)
         return (degrees == d).reduce(monoid.land).get(True)
     row_degrees = G.get_property("row_degrees+")
     if row_degrees.nvals != row_degrees.size:
-        return False
+        return row_degrees.nvals == 0
     column_degrees = G.get_property("column_degrees+")
     if column_degrees.nvals != column_degrees.size:
         return False
@@ -26,5 +27,5 @@ def is_regular(G):
 def is_k_regular(G, k):
     degrees = G.get_property("degrees+")
     if degrees.nvals != degrees.size:
-        return False
+        return k == 0 and degrees.nvals == 0
     return (degrees == k).reduce(monoid.land).get(True)
-- 
2.43.0


From 7f9b83bbcc268e379da30399e8306a70b72930e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 10/68] fix: k_truss must keep edge values instead of replacing
 them with triangle counts

---
 graphblas_algorithms/algorithms/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/algorithms/core.py b/graphblas_algorithms/algorithms/core.py
index a6ff26d..f05f68e 100644
--- a/graphblas_algorithms/algorithms/core.py
+++ b/graphblas_algorithms/algorithms/core.py
@@ -27,6 +27,8 @@ def k_truss(G: Graph, k) -> Graph:
                 break
             nvals_last = C.nvals
             S = C
+        # Keep the original edge values, not the number of triangles
+        C = G._A.dup(mask=C.S)
 
     # Remove isolate nodes
     indices, _ = C.reduce_rowwise(monoid.any).to_coo(values=False)
-- 
2.43.0


From fb8ffd3e6416dcbee2df7fda083d8de83bd2b8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 11/68] fix: weighted clustering must handle and normalize by
 self-edges like networkx

Raised AttributeError or EmptyObject for undirected graphs with self-edges; the
weights are normalized by the largest weight of the graph, self-edges included.
---
 graphblas_algorithms/algorithms/cluster.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cluster.py b/graphblas_algorithms/algorithms/cluster.py
index 0b9ab21..94343d2 100644
--- a/graphblas_algorithms/algorithms/cluster.py
+++ b/graphblas_algorithms/algorithms/cluster.py
@@ -29,7 +29,7 @@ def single_triangle(G, node, *, weighted=False):
     if G.get_property("has_self_edges"):
         del r[index]  # Ignore self-edges
     if weighted:
-        maxval = G.get_property("max_element-")
+        maxval = G.get_property("max_element+").get(1)
         L = unary.cbrt(L / maxval)
         r = unary.cbrt(r / maxval)
         semiring = plus_times
@@ -46,7 +46,7 @@ def triangles(G, *, weighted=False, mask=None):
     # Can we apply the mask earlier in the computation?
     L, U = G.get_properties("L- U-")
     if weighted:
-        maxval = G.get_property("max_element-")
+        maxval = G.get_property("max_element+").get(1)
         L = unary.cbrt(L / maxval)
         U = unary.cbrt(U / maxval)
         semiring = plus_times
@@ -102,7 +102,7 @@ def clustering_directed(G, *, weighted=False, mask=None):
     # Can we apply the mask earlier in the computation?
     A, AT = G.get_properties("offdiag AT")
     if weighted:
-        maxval = G.get_property("max_element-")
+        maxval = G.get_property("max_element+").get(1)
         A = unary.cbrt(A / maxval)
         AT = unary.cbrt(AT / maxval)
         semiring = plus_times
@@ -151,7 +151,7 @@ def single_clustering_directed(G, node, *, weighted=False):
     A = G.get_property("offdiag")
     index = G._key_to_id[node]
     if weighted:
-        maxval = G.get_property("max_element-")
+        maxval = G.get_property("max_element+").get(1)
         A = unary.cbrt(A / maxval)
         semiring = plus_times
     else:
-- 
2.43.0


From aee4e5e980b29ca50e5e2ff3041a4eb029df11c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 12/68] fix: "<op>_element-" property when "L-" and "U-" are
 cached and there are self-edges

A Matrix has no reduce method, so this raised AttributeError.
---
 graphblas_algorithms/classes/_caching.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/_caching.py b/graphblas_algorithms/classes/_caching.py
index 3074bed..6828d8a 100644
--- a/graphblas_algorithms/classes/_caching.py
+++ b/graphblas_algorithms/classes/_caching.py
@@ -123,8 +123,9 @@ def get_reduce_to_scalar(key, opname):
                     and opclass in {"BinaryOp", "Monoid"}
                     and G.get_property("has_self_edges")
                 ):
-                    return op_(
-                        cache["L-"].reduce(op_)._as_vector() | cache["U-"].reduce(op_)._as_vector()
+                    cache[key] = op_(
+                        cache["L-"].reduce_scalar(op_).new()._as_vector()
+                        | cache["U-"].reduce_scalar(op_).new()._as_vector()
                     )[0].new(name=key)
                 elif not G.get_property("has_self_edges"):
                     cache[key] = G.get_property(f"{keybase}+")
-- 
2.43.0


From 554692280fe669ec57a837b5441490709ae0abdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 13/68] fix: clustering of a directed graph must ignore
 self-edges

---
 graphblas_algorithms/algorithms/cluster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/algorithms/cluster.py b/graphblas_algorithms/algorithms/cluster.py
index 94343d2..228cef6 100644
--- a/graphblas_algorithms/algorithms/cluster.py
+++ b/graphblas_algorithms/algorithms/cluster.py
@@ -101,6 +101,8 @@ def clustering(G, *, weighted=False, mask=None):
 def clustering_directed(G, *, weighted=False, mask=None):
     # Can we apply the mask earlier in the computation?
     A, AT = G.get_properties("offdiag AT")
+    if G.get_property("has_self_edges"):
+        AT = A.T.new()  # Ignore self-edges
     if weighted:
         maxval = G.get_property("max_element+").get(1)
         A = unary.cbrt(A / maxval)
-- 
2.43.0


From b33ab518d6210723656fa2f8a2217de44a8e517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 14/68] fix: average_clustering must not return the cached
 unweighted value for weight=, or vice versa

---
 graphblas_algorithms/nxapi/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index 8e61f9b..61ae7a0 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -69,7 +69,7 @@ def average_clustering(G, nodes=None, weight=None, count_zeros=True):
         func = algorithms.average_clustering
     if mask is None:
         return G._cacheit(
-            f"average_clustering(count_zeros={count_zeros})",
+            f"average_clustering(count_zeros={count_zeros}, weighted={weighted})",
             func,
             G,
             weighted=weighted,
-- 
2.43.0


From b0641e75c758778985248cb6a39817af84fe778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 15/68] fix: generalized_degree of a single node must be keyed
 by number of triangles

It was keyed by the nodes whose index happens to be the number of triangles.
---
 graphblas_algorithms/nxapi/cluster.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index 61ae7a0..abaa740 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -3,6 +3,7 @@ from graphblas import monoid
 from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_graph
 from graphblas_algorithms.classes.graph import to_undirected_graph
+from graphblas_algorithms.classes.nodemap import VectorMap
 from graphblas_algorithms.utils import not_implemented_for
 
 from ._utils import normalize_chunksize, partition
@@ -127,8 +128,8 @@ def generalized_degree(G, nodes=None):
     if len(G) == 0:
         return {}
     if nodes in G:
-        result = algorithms.single_generalized_degree(G, nodes)
-        return G.vector_to_nodemap(result)
+        # The indices of the result are numbers of triangles, not nodes
+        return VectorMap(algorithms.single_generalized_degree(G, nodes))
     mask = G.list_to_mask(nodes)
     result = algorithms.generalized_degree(G, mask=mask)
     return G.matrix_to_vectornodemap(result)
-- 
2.43.0


From da58d44c9f6521875e4009c67e38d8167439f98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 16/68] fix: square_clustering(nodes=[...]) must include nodes
 whose value is 0

---
 graphblas_algorithms/nxapi/cluster.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index abaa740..366d419 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -1,4 +1,4 @@
-from graphblas import monoid
+from graphblas import Vector, monoid
 
 from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_graph
@@ -119,7 +119,8 @@ def square_clustering(G, nodes=None, *, chunksize="256 MiB"):
         result = algorithms.square_clustering(G, ids)
     else:
         result = _square_clustering_split(G, ids, chunksize=chunksize)
-    return G.vector_to_nodemap(result)
+    mask = Vector.from_coo(ids, True, size=len(G)).S
+    return G.vector_to_nodemap(result, mask=mask, fill_value=0)
 
 
 @not_implemented_for("directed")
-- 
2.43.0


From 57fc7906362f3dc0866ff172297563221b9b2f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 17/68] fix: chunked square_clustering must handle graphs with
 no edges

---
 graphblas_algorithms/nxapi/cluster.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index 366d419..77484ae 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -90,6 +90,9 @@ def _square_clustering_split(G, node_ids=None, *, chunksize):
             result = res
         else:
             result << monoid.any(result | res)
+    if result is None:
+        # There are no edges (or no nodes were given)
+        result = Vector(float, len(G))
     return result
 
 
-- 
2.43.0


From 35c3848859eb5fc6f82adb34381cd0662d8f846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 18/68] fix: floyd_warshall must report infinite distance to
 unreachable nodes

---
 graphblas_algorithms/nxapi/shortest_paths/dense.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/shortest_paths/dense.py b/graphblas_algorithms/nxapi/shortest_paths/dense.py
index 82c2eed..81dc304 100644
--- a/graphblas_algorithms/nxapi/shortest_paths/dense.py
+++ b/graphblas_algorithms/nxapi/shortest_paths/dense.py
@@ -9,7 +9,7 @@ __all__ = ["floyd_warshall", "floyd_warshall_numpy", "floyd_warshall_predecessor
 def floyd_warshall(G, weight="weight"):
     G = to_graph(G, weight=weight)
     D = algorithms.floyd_warshall(G, is_weighted=weight is not None)
-    return G.matrix_to_nodenodemap(D)
+    return G.matrix_to_nodenodemap(D, fill_value=float("inf"))
 
 
 def floyd_warshall_predecessor_and_distance(G, weight="weight"):
-- 
2.43.0


From 0605827e3e7f8a52de7f445f7dfbcfea754d3b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 19/68] fix: converting floyd_warshall_numpy to NumPy must use
 infinity for unreachable nodes

---
 graphblas_algorithms/interface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/interface.py b/graphblas_algorithms/interface.py
index c718371..6f5cf99 100644
--- a/graphblas_algorithms/interface.py
+++ b/graphblas_algorithms/interface.py
@@ -256,11 +256,12 @@ class Dispatcher:
                 obj = io.to_scipy_sparse(obj)
             elif name in {
                 "directed_modularity_matrix",
-                "floyd_warshall_numpy",
                 "google_matrix",
                 "modularity_matrix",
             }:
                 obj = obj.to_dense(fill_value=False)
+            elif name == "floyd_warshall_numpy":
+                obj = obj.to_dense(fill_value=float("inf"), dtype=float)
             else:  # pragma: no cover
                 raise RuntimeError(f"Should {name} return a numpy or scipy.sparse array?")
         return obj
-- 
2.43.0


From 8a0ce969b6ea9e8bd8336580df5b7ea8746c6263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 20/68] fix: floyd_warshall predecessors of undirected graphs

Distances are symmetric, but predecessors are not, so they can't be computed
from only the upper triangle and symmetrized.
---
 graphblas_algorithms/algorithms/shortest_paths/dense.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/dense.py b/graphblas_algorithms/algorithms/shortest_paths/dense.py
index 394d1b4..6bb537e 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/dense.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/dense.py
@@ -23,6 +23,10 @@ def floyd_warshall_predecessor_and_distance(
         nonempty_nodes = binary.pair(row_degrees & column_degrees).new(name="nonempty_nodes")
     else:
         A, nonempty_nodes = G.get_properties("U- degrees-")
+        if compute_predecessors:
+            # Predecessors aren't symmetric, so handle each edge as two directed edges
+            is_directed = True
+            A = G.get_property("offdiag")
     if permutation is not None:
         if len(permutation) != nonempty_nodes.size:
             raise GraphBlasAlgorithmException(
-- 
2.43.0


From b86f84eb219f2ca9a3358d6cc449e5a103d1a5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 21/68] fix: floyd_warshall_numpy of an undirected graph with
 nodelist

---
 graphblas_algorithms/algorithms/shortest_paths/dense.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/dense.py b/graphblas_algorithms/algorithms/shortest_paths/dense.py
index 6bb537e..bb2e96a 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/dense.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/dense.py
@@ -33,6 +33,8 @@ def floyd_warshall_predecessor_and_distance(
                 "permutation must contain every node in G with no repeats."
             )
         A = A[permutation, permutation].new()
+        if not is_directed:
+            A << select.triu(binary.any(A | A.T))  # Make upper-triangular again
         nonempty_nodes = nonempty_nodes[permutation].new(name="nonempty_nodes")
 
     if A.dtype == bool or not is_weighted:
-- 
2.43.0


From d9f3839ab3f035c56fd1eb31068752da7ca480f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 22/68] fix: all-pairs path lengths of a graph with no nodes
 raised ZeroDivisionError

---
 graphblas_algorithms/nxapi/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/_utils.py b/graphblas_algorithms/nxapi/_utils.py
index 0bb9617..aeec1db 100644
--- a/graphblas_algorithms/nxapi/_utils.py
+++ b/graphblas_algorithms/nxapi/_utils.py
@@ -80,7 +80,7 @@ def normalize_chunksize(chunksize, itemsize=1, N=None):
             )
         number *= scale
         if chunkstring[-1] == "b":
-            number = max(1, number / itemsize)
+            number = max(1, number / max(1, itemsize))
         rv = int(round(number))
     if rv <= 0 or N is not None and rv >= N:
         return None
-- 
2.43.0


From d6b188c539a6075e1c6fd18cf7c460f975d2135b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 23/68] fix: bellman_ford_path[_length] must detect every
 reachable negative cycle

Only cycles that still improved the target in the last iteration were detected,
and negative self-edges could be missed by limiting exploration to the target.
---
 .../algorithms/shortest_paths/weighted.py                 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index a83a060..76d53ee 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -81,7 +81,7 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
             break
         # Update `d` with values that improved
         d(cur.S) << cur
-        if dst_id is not None and not is_negative:
+        if dst_id is not None and not is_negative and not has_negative_diagonal:
             # Limit exploration if we have a target
             cutoff = cur.get(dst_id, cutoff)
     else:
@@ -90,7 +90,7 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
         if cutoff is not None:
             cur << select.valuele(cur, cutoff)
         mask << binary.lt(cur & d)
-        if dst_id is None and mask.reduce(monoid.lor) or dst_id is not None and mask.get(dst_id):
+        if mask.reduce(monoid.lor):
             raise Unbounded("Negative cycle detected.")
     if has_negative_diagonal:
         # We removed diagonal entries above, so check if we visited one with a negative weight
@@ -261,7 +261,7 @@ def bellman_ford_path(G, source, target):
             break
         # Update `d` with values that improved
         d(cur.S) << cur
-        if not is_negative:
+        if not is_negative and not has_negative_diagonal:
             # Limit exploration if we have a target
             cutoff = cur.get(dst_id, cutoff)
 
@@ -288,7 +288,7 @@ def bellman_ford_path(G, source, target):
         if cutoff is not None:
             cur << select.valuele(cur, cutoff)
         mask << binary.lt(cur & d)
-        if mask.get(dst_id):
+        if mask.reduce(monoid.lor):
             raise Unbounded("Negative cycle detected.")
     path = _reconstruct_path_from_parents(G, p, src_id, dst_id)
     if has_negative_diagonal and path:
-- 
2.43.0


From 0b2e42351ad1dcc011a847b73d98c8b14c4e74cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 24/68] fix: bellman_ford_path of graphs with negative
 self-edges

Positive self-edges were mistaken for negative cycles, and finding the nodes that
were visited failed.  Check for negative self-edges as bellman_ford_path_length does.
---
 .../algorithms/shortest_paths/weighted.py     | 23 ++++++-------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 76d53ee..01d11c5 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -2,7 +2,7 @@ import numpy as np
 from graphblas import Matrix, Vector, binary, indexunary, monoid, replace, select, unary
 from graphblas.semiring import any_pair, min_plus
 
-from .._bfs import _bfs_level, _bfs_levels, _bfs_parent, _bfs_plain
+from .._bfs import _bfs_level, _bfs_levels, _bfs_parent
 from ..exceptions import NoPath, Unbounded
 
 __all__ = [
@@ -290,22 +290,13 @@ def bellman_ford_path(G, source, target):
         mask << binary.lt(cur & d)
         if mask.reduce(monoid.lor):
             raise Unbounded("Negative cycle detected.")
-    path = _reconstruct_path_from_parents(G, p, src_id, dst_id)
-    if has_negative_diagonal and path:
-        mask.clear()
-        mask[G.list_to_ids(path)] = True
-        diag = G.get_property("diag", mask=mask.S)
-        if diag.nvals > 0:
+    if has_negative_diagonal:
+        # We removed diagonal entries above, so check if we visited one with a negative weight
+        diag = G.get_property("diag")
+        cur << select.valuelt(diag, 0)
+        if any_pair(d @ cur):
             raise Unbounded("Negative cycle detected.")
-        mask << binary.first(mask & cur)  # mask(cur.S, replace) << mask
-        if mask.nvals > 0:
-            # Is there a path from any visited node with negative self-loop to target?
-            # We could actually stop as soon as any from `path` is visited
-            indices, _ = mask.to_coo(values=False)[0]
-            q = _bfs_plain(G, target=target, index=indices, cutoff=_i)
-            if dst_id in q:
-                raise Unbounded("Negative cycle detected.")
-    return path
+    return _reconstruct_path_from_parents(G, p, src_id, dst_id)
 
 
 def negative_edge_cycle(G):
-- 
2.43.0


From de5ad14cf99b2cfc15f6197e55b71a9bf8f6f806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 25/68] fix: bellman_ford_path of a directed graph whose
 weights are all the same negative value

Negative edges only make a negative cycle if there is a cycle.
---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 01d11c5..89e733c 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -219,7 +219,6 @@ def bellman_ford_path(G, source, target):
         if not is_negative:
             p = _bfs_parent(G, source, target)
             return _reconstruct_path_from_parents(G, p, src_id, dst_id)
-        raise Unbounded("Negative cycle detected.")
     A, is_negative, has_negative_diagonal = G.get_properties(
         "offdiag has_negative_edges- has_negative_diagonal"
     )
-- 
2.43.0


From b0361c70f262718d873527a02bc3ef878650e972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 26/68] fix: bellman_ford_path must raise NetworkXNoPath if
 there is no path

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 3 ++-
 graphblas_algorithms/nxapi/shortest_paths/weighted.py      | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 89e733c..bf996cc 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -201,7 +201,8 @@ def _reconstruct_path_from_parents(G, parents, src, dst):
     indices, values = parents.to_coo(sort=False)
     d = dict(zip(indices.tolist(), values.tolist(), strict=True))
     if dst not in d:
-        return []
+        source, target = G.list_to_keys([src, dst])
+        raise NoPath(f"node {target} not reachable from {source}")
     cur = dst
     path = [cur]
     while cur != src:
diff --git a/graphblas_algorithms/nxapi/shortest_paths/weighted.py b/graphblas_algorithms/nxapi/shortest_paths/weighted.py
index b08dd85..2d55aad 100644
--- a/graphblas_algorithms/nxapi/shortest_paths/weighted.py
+++ b/graphblas_algorithms/nxapi/shortest_paths/weighted.py
@@ -64,6 +64,8 @@ def bellman_ford_path(G, source, target, weight="weight"):
         return algorithms.bellman_ford_path(G, source, target)
     except KeyError as e:
         raise NodeNotFound(*e.args) from e
+    except exceptions.NoPath as e:
+        raise NetworkXNoPath(*e.args) from e
 
 
 def bellman_ford_path_length(G, source, target, weight="weight"):
-- 
2.43.0


From 8567847d7524cde968c475a0970ecba1675bbd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 27/68] fix: bellman_ford_path[_length] must raise
 NetworkXUnbounded for negative cycles

---
 graphblas_algorithms/nxapi/shortest_paths/weighted.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graphblas_algorithms/nxapi/shortest_paths/weighted.py b/graphblas_algorithms/nxapi/shortest_paths/weighted.py
index 2d55aad..f1f4754 100644
--- a/graphblas_algorithms/nxapi/shortest_paths/weighted.py
+++ b/graphblas_algorithms/nxapi/shortest_paths/weighted.py
@@ -66,6 +66,8 @@ def bellman_ford_path(G, source, target, weight="weight"):
         raise NodeNotFound(*e.args) from e
     except exceptions.NoPath as e:
         raise NetworkXNoPath(*e.args) from e
+    except exceptions.Unbounded as e:
+        raise NetworkXUnbounded(*e.args) from e
 
 
 def bellman_ford_path_length(G, source, target, weight="weight"):
@@ -76,6 +78,8 @@ def bellman_ford_path_length(G, source, target, weight="weight"):
         raise NodeNotFound(*e.args) from e
     except exceptions.NoPath as e:
         raise NetworkXNoPath(*e.args) from e
+    except exceptions.Unbounded as e:
+        raise NetworkXUnbounded(*e.args) from e
 
 
 def negative_edge_cycle(G, weight="weight", heuristic=True):
-- 
2.43.0


From d603447e6123c7af9e50168c76e4bff522e4bae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 28/68] fix: NodeNodeMap.get must return the value

---
 graphblas_algorithms/classes/nodemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 2a32502..26a0edc 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -417,7 +417,7 @@ class NodeNodeMap(MutableMapping):
         idx = self._key_to_id[key]
         if self._fill_value is None and self._get_rows().get(idx) is None:
             return default
-        self.vector_to_nodemap(
+        return self.vector_to_nodemap(
             self.matrix[idx, :].new(),
             fill_value=self._fill_value,
             values_are_keys=self._values_are_keys,
-- 
2.43.0


From b35798d42a11bb1d5f41c9c7a3c7766c260cc6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 29/68] fix: iso_value property when the graph is known not to
 be iso-valued

---
 graphblas_algorithms/classes/graph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/graph.py b/graphblas_algorithms/classes/graph.py
index f3e2239..dd5de54 100644
--- a/graphblas_algorithms/classes/graph.py
+++ b/graphblas_algorithms/classes/graph.py
@@ -236,8 +236,7 @@ def get_iso_value(G, mask=None):
                 # SuiteSparse:GraphBLAS
                 cache["iso_value"] = A.ss.iso_value
             else:
-                cache["iso_value"]
-
+                cache["iso_value"] = None
         # min_val, max_val = G.get_properties('min_element+ max_element+')
         # SuiteSparse:GraphBLAS
         elif A.ss.is_iso:
-- 
2.43.0


From 4a64b969170606f83b4da56693cbaa5eeeb65a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 30/68] fix: reverse(copy=False) raised TypeError

---
 graphblas_algorithms/classes/digraph.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/classes/digraph.py b/graphblas_algorithms/classes/digraph.py
index 1e9fe5f..49ac8b7 100644
--- a/graphblas_algorithms/classes/digraph.py
+++ b/graphblas_algorithms/classes/digraph.py
@@ -613,9 +613,8 @@ class DiGraph(Graph):
 
     def reverse(self, copy=True):
         # We could even reuse many of the cached values
-        A = self._A.T  # This probably mostly works, but does not yet support assignment
-        if copy:
-            A = A.new()
+        # A view of the transpose isn't a Matrix, so create a new one even if `copy=False`
+        A = self._A.T.new()
         rv = type(self)(A, key_to_id=self._key_to_id)
         rv.graph.update(deepcopy(self.graph))
         return rv
-- 
2.43.0


From 7562a866d865481c0e60627e2202ddede928e98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 31/68] fix: to_undirected must be symmetric when opposite
 edges have different values

---
 graphblas_algorithms/classes/digraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphblas_algorithms/classes/digraph.py b/graphblas_algorithms/classes/digraph.py
index 49ac8b7..da16e39 100644
--- a/graphblas_algorithms/classes/digraph.py
+++ b/graphblas_algorithms/classes/digraph.py
@@ -609,6 +609,9 @@ class DiGraph(Graph):
             B = binary.any(A & A.T).new(name=name)
         else:
             B = binary.any(A | A.T).new(name=name)
+        # Ensure the result is symmetric if edges (u, v) and (v, u) have different values
+        U = select.triu(B).new()
+        B << binary.any(U | U.T)
         return Graph(B, key_to_id=self._key_to_id)
 
     def reverse(self, copy=True):
-- 
2.43.0


From 7f99f5c02c28748bccd8bc93de09c788636832d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 32/68] fix: compose of graphs that share only some of their
 nodes

Edges of G between shared nodes were dropped, edges of H between shared and new
nodes were ignored, and new nodes got the wrong ids.
---
 .../algorithms/operators/binary.py                 | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/graphblas_algorithms/algorithms/operators/binary.py b/graphblas_algorithms/algorithms/operators/binary.py
index 4c14a11..1b7bdf4 100644
--- a/graphblas_algorithms/algorithms/operators/binary.py
+++ b/graphblas_algorithms/algorithms/operators/binary.py
@@ -134,16 +134,14 @@ def compose(G, H, *, name="compose"):
             name=name,
         )
         C[: A.nrows, : A.ncols] = A
-        ids1 = G.list_to_ids(keys)
-        ids2 = H.list_to_ids(keys)
-        C[ids1, ids1] = B[ids2, ids2]
-        newkeys = sorted(H._key_to_id.keys() - G._key_to_id.keys(), key=H._key_to_id.__getitem__)
-        ids = H.list_to_ids(newkeys)
-        C[A.nrows :, A.ncols :] = B[ids, ids]
         # Now make new `key_to_id`
-        ids += A.nrows
-        key_to_id = dict(zip(newkeys, ids.tolist(), strict=True))
+        newkeys = sorted(H._key_to_id.keys() - G._key_to_id.keys(), key=H._key_to_id.__getitem__)
+        key_to_id = dict(zip(newkeys, range(A.nrows, C.nrows), strict=True))
         key_to_id.update(G._key_to_id)
+        # Add all edges of H, including those between shared nodes and new nodes
+        keys = sorted(H._key_to_id, key=H._key_to_id.__getitem__)
+        ids = [key_to_id[key] for key in keys]
+        C(binary.second)[ids, ids] << B
     return type(G)(C, key_to_id=key_to_id)
 
 
-- 
2.43.0


From 638edeaa70d84487dbf4a4fae66d3fe9cc673d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 33/68] fix: has_self_edges must not be inferred from
 total_degrees+

The sum of total_degrees+ is always twice the number of edges, so a directed graph
was taken to have no self-edges if total_degrees+ was computed first.
---
 graphblas_algorithms/classes/digraph.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/graphblas_algorithms/classes/digraph.py b/graphblas_algorithms/classes/digraph.py
index da16e39..c76f60a 100644
--- a/graphblas_algorithms/classes/digraph.py
+++ b/graphblas_algorithms/classes/digraph.py
@@ -364,8 +364,6 @@ def has_self_edges(G, mask=None):
             cache["has_self_edges"] = cache["column_degrees-"].reduce().get(0) < A.nvals
         elif "total_degrees-" in cache:
             cache["has_self_edges"] = cache["total_degrees-"].reduce().get(0) < 2 * A.nvals
-        elif "total_degrees+" in cache:
-            cache["has_self_edges"] = cache["total_degrees+"].reduce().get(0) > 2 * A.nvals
         else:
             G.get_property("diag")
     return cache["has_self_edges"]
-- 
2.43.0


From 7d7755ec53251287ea32627a73a8b77adfae5dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 34/68] fix: has_negative_diagonal when min_element- is not
 cached

A missing min_element- was taken to be 0, so any graph known to have a negative edge
was taken to have a negative self-edge.
---
 graphblas_algorithms/classes/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/graph.py b/graphblas_algorithms/classes/graph.py
index dd5de54..fe0ce7e 100644
--- a/graphblas_algorithms/classes/graph.py
+++ b/graphblas_algorithms/classes/graph.py
@@ -141,9 +141,11 @@ def has_negative_diagonal(G, mask=None):
             cache.get("has_negative_edges+") is True
             and cache.get("has_negative_edges-") is False
             or cache.get("has_negative_edges+") is True
-            and cache.get("min_element-", 0) >= 0
+            and "min_element-" in cache
+            and cache["min_element-"].get(0) >= 0
             or cache.get("min_element+", 0) < 0
-            and cache.get("min_element+", 0) < cache.get("min_element-", 0)
+            and "min_element-" in cache
+            and cache["min_element+"].get(0) < cache["min_element-"].get(0)
         ):
             cache["has_negative_diagonal"] = True
         else:
-- 
2.43.0


From c9728b7d482824b84f73a4f75c17f5cf8a7a3934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 35/68] fix: NodeMap.setdefault must convert the default to an
 id if values are keys

---
 graphblas_algorithms/classes/nodemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 26a0edc..05daa80 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -122,7 +122,7 @@ class NodeMap(MutableMapping):
         if self._fill_value is not None:
             return self._fill_value
         if default is not None:
-            self.vector[idx] = default
+            self[key] = default
         return default
 
     # update
-- 
2.43.0


From 580d7a972434068a9a644f99eddd4c195166dde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 36/68] fix: VectorMap[key] must raise KeyError for a missing
 key instead of returning None

---
 graphblas_algorithms/classes/nodemap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 05daa80..f1067fa 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -138,7 +138,9 @@ class VectorMap(MutableMapping):
         del self.vector[key]
 
     def __getitem__(self, key):
-        return self.vector.get(key)
+        if (rv := self.vector.get(key)) is None:
+            raise KeyError(key)
+        return rv
 
     def __iter__(self):
         # Slow if we iterate over one; fast if we iterate over all
-- 
2.43.0


From 44c54cf505d1e56efc0208a79c1eeae48eee1c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 37/68] fix: deleting a missing key of a node map must raise
 KeyError

---
 graphblas_algorithms/classes/nodemap.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index f1067fa..6935b24 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -37,6 +37,8 @@ class NodeMap(MutableMapping):
     # Requirements for MutableMapping
     def __delitem__(self, key):
         idx = self._key_to_id[key]
+        if self._fill_value is None and idx not in self.vector:
+            raise KeyError(key)
         del self.vector[idx]
 
     def __getitem__(self, key):
@@ -135,6 +137,8 @@ class VectorMap(MutableMapping):
 
     # Requirements for MutableMapping
     def __delitem__(self, key):
+        if key not in self.vector:
+            raise KeyError(key)
         del self.vector[key]
 
     def __getitem__(self, key):
@@ -233,6 +237,8 @@ class VectorNodeMap(MutableMapping):
     # Requirements for MutableMapping
     def __delitem__(self, key):
         idx = self._key_to_id[key]
+        if idx not in self._get_rows():
+            raise KeyError(key)
         del self.matrix[idx, :]
         if self._rows is not None:
             del self._rows[idx]
@@ -349,6 +355,8 @@ class NodeNodeMap(MutableMapping):
     # Requirements for MutableMapping
     def __delitem__(self, key):
         idx = self._key_to_id[key]
+        if self._fill_value is None and idx not in self._get_rows():
+            raise KeyError(key)
         del self.matrix[idx, :]
         if self._rows is not None:
             del self._rows[idx]
-- 
2.43.0


From 18f0ef2c6c7546aa3aa842259c1bf35cbcbb7152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 38/68] fix: NodeNodeMap[key] = dict must convert the keys of
 the dict to ids

The keys of the inner mapping are nodes, as they are when it is read.
---
 graphblas_algorithms/classes/nodemap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 6935b24..7e53d65 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -391,7 +391,9 @@ class NodeNodeMap(MutableMapping):
             # TODO: check val._key_to_id?
             val = val.vector
         elif isinstance(val, dict):
-            val = Vector.from_dict(val, self.matrix.dtype, size=self.matrix.ncols)
+            if self._values_are_keys:
+                val = {k: self._key_to_id[v] for k, v in val.items()}
+            val = self.dict_to_vector(val, size=self.matrix.ncols, dtype=self.matrix.dtype)
         else:
             raise TypeError
         if val.nvals == 0:
-- 
2.43.0


From 06e55eda9c31692eb6eb27f7ff3ad11f73d2ce10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 39/68] fix: NodeNodeMap and VectorNodeMap without key_to_id
 raised AttributeError

---
 graphblas_algorithms/classes/nodemap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 7e53d65..8bf1832 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -204,7 +204,7 @@ class VectorNodeMap(MutableMapping):
     def __init__(self, A, *, key_to_id=None):
         self.matrix = A
         if key_to_id is None:
-            self._key_to_id = {i: i for i in range(A.size)}
+            self._key_to_id = {i: i for i in range(A.nrows)}
         else:
             self._key_to_id = key_to_id
         self._id_to_key = None
@@ -320,7 +320,7 @@ class NodeNodeMap(MutableMapping):
     def __init__(self, A, *, fill_value=None, values_are_keys=False, key_to_id=None):
         self.matrix = A
         if key_to_id is None:
-            self._key_to_id = {i: i for i in range(A.size)}
+            self._key_to_id = {i: i for i in range(A.nrows)}
         else:
             self._key_to_id = key_to_id
         self._id_to_key = None
-- 
2.43.0


From 278d64f850939fe846699cf8e35f531d4f1cba27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 40/68] fix: dict_to_vector of an empty dict raised ValueError

---
 graphblas_algorithms/classes/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/_utils.py b/graphblas_algorithms/classes/_utils.py
index ecf66d9..e4c9672 100644
--- a/graphblas_algorithms/classes/_utils.py
+++ b/graphblas_algorithms/classes/_utils.py
@@ -61,8 +61,8 @@ def dict_to_vector(self, d, *, size=None, dtype=None, name=None):
     if size is None:
         size = len(self)
     key_to_id = self._key_to_id
-    indices, values = zip(*((key_to_id[key], val) for key, val in d.items()), strict=True)
-    return Vector.from_coo(indices, values, size=size, dtype=dtype, name=name)
+    indices = [key_to_id[key] for key in d]
+    return Vector.from_coo(indices, list(d.values()), size=size, dtype=dtype, name=name)
 
 
 def list_to_vector(self, nodes, dtype=None, *, values=True, size=None, name=None):
-- 
2.43.0


From 82fff471a08536895bfc700664b3b77134bd42c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 41/68] fix: `in`, get, and discard of node maps and sets for
 keys that aren't nodes

They raised KeyError, so e.g. `5 in nx.descendants(G, 0)` failed if 5 isn't a node.
---
 graphblas_algorithms/classes/nodemap.py | 18 ++++++++++++------
 graphblas_algorithms/classes/nodeset.py |  9 +++++----
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 8bf1832..ac08498 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -72,7 +72,8 @@ class NodeMap(MutableMapping):
 
     # Override other MutableMapping methods
     def __contains__(self, key):
-        idx = self._key_to_id[key]
+        if (idx := self._key_to_id.get(key)) is None:
+            return False
         return self._fill_value is not None or idx in self.vector
 
     def __eq__(self, other):
@@ -90,7 +91,8 @@ class NodeMap(MutableMapping):
         self._fill_value = None
 
     def get(self, key, default=None):
-        idx = self._key_to_id[key]
+        if (idx := self._key_to_id.get(key)) is None:
+            return default
         rv = self.vector.get(idx)
         if rv is None:
             if self._fill_value is not None:
@@ -278,7 +280,8 @@ class VectorNodeMap(MutableMapping):
 
     # Override other MutableMapping methods
     def __contains__(self, key):
-        idx = self._key_to_id[key]
+        if (idx := self._key_to_id.get(key)) is None:
+            return False
         return idx in self._get_rows()
 
     def __eq__(self, other):
@@ -291,7 +294,8 @@ class VectorNodeMap(MutableMapping):
         self._rows = None
 
     def get(self, key, default=None):
-        idx = self._key_to_id[key]
+        if (idx := self._key_to_id.get(key)) is None:
+            return default
         if self._get_rows().get(idx) is None:
             return default
         return VectorMap(self.matrix[idx, :].new())
@@ -407,7 +411,8 @@ class NodeNodeMap(MutableMapping):
 
     # Override other MutableMapping methods
     def __contains__(self, key):
-        idx = self._key_to_id[key]
+        if (idx := self._key_to_id.get(key)) is None:
+            return False
         return self._fill_value is not None or idx in self._get_rows()
 
     def __eq__(self, other):
@@ -426,7 +431,8 @@ class NodeNodeMap(MutableMapping):
         self._fill_value = None
 
     def get(self, key, default=None):
-        idx = self._key_to_id[key]
+        if (idx := self._key_to_id.get(key)) is None:
+            return default
         if self._fill_value is None and self._get_rows().get(idx) is None:
             return default
         return self.vector_to_nodemap(
diff --git a/graphblas_algorithms/classes/nodeset.py b/graphblas_algorithms/classes/nodeset.py
index b79895e..caec6fd 100644
--- a/graphblas_algorithms/classes/nodeset.py
+++ b/graphblas_algorithms/classes/nodeset.py
@@ -34,8 +34,8 @@ class NodeSet(MutableSet):
 
     # Requirements for MutableSet
     def __contains__(self, x):
-        idx = self._key_to_id[x]
-        return idx in self.vector
+        idx = self._key_to_id.get(x)
+        return idx is not None and idx in self.vector
 
     def __iter__(self):
         # Slow if we iterate over one; fast if we iterate over all
@@ -51,8 +51,9 @@ class NodeSet(MutableSet):
         self.vector[idx] = True
 
     def discard(self, value):
-        idx = self._key_to_id[value]
-        del self.vector[idx]
+        if value in self._key_to_id:
+            idx = self._key_to_id[value]
+            del self.vector[idx]
 
     # Override other MutableSet methods
     def __eq__(self, other):
-- 
2.43.0


From b735d99f3b929dad46bb7cd09fda0d01d5b9556e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 42/68] fix: dict_to_vector of an object that isn't a mapping
 must raise AttributeError again

---
 graphblas_algorithms/classes/_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/_utils.py b/graphblas_algorithms/classes/_utils.py
index e4c9672..9c54b19 100644
--- a/graphblas_algorithms/classes/_utils.py
+++ b/graphblas_algorithms/classes/_utils.py
@@ -61,8 +61,10 @@ def dict_to_vector(self, d, *, size=None, dtype=None, name=None):
     if size is None:
         size = len(self)
     key_to_id = self._key_to_id
-    indices = [key_to_id[key] for key in d]
-    return Vector.from_coo(indices, list(d.values()), size=size, dtype=dtype, name=name)
+    items = d.items()
+    indices = [key_to_id[key] for key, _ in items]
+    values = [val for _, val in items]
+    return Vector.from_coo(indices, values, size=size, dtype=dtype, name=name)
 
 
 def list_to_vector(self, nodes, dtype=None, *, values=True, size=None, name=None):
-- 
2.43.0


From c3a3de329b655b39687a3f29094ccb8412c3fb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 43/68] fix: square_clustering must ignore the values of the
 edges

---
 graphblas_algorithms/algorithms/cluster.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cluster.py b/graphblas_algorithms/algorithms/cluster.py
index 228cef6..ea84881 100644
--- a/graphblas_algorithms/algorithms/cluster.py
+++ b/graphblas_algorithms/algorithms/cluster.py
@@ -1,6 +1,6 @@
 import numpy as np
 from graphblas import Matrix, Vector, binary, replace, unary
-from graphblas.semiring import plus_first, plus_pair, plus_times
+from graphblas.semiring import plus_first, plus_pair, plus_second, plus_times
 
 __all__ = [
     "single_triangle",
@@ -219,7 +219,7 @@ def single_square_clustering(G, idx):
     denom -= deg * (deg - 1)
     # (3) The main contribution to the denominator: degrees[u] + degrees[w] for each u-w combo.
     # This is the only positive term.
-    denom += plus_times(v @ degrees).value * (deg - 1)
+    denom += plus_second(v @ degrees).value * (deg - 1)
     # (4) Subtract the number of squares
     denom -= squares
     # And we're done!
@@ -235,7 +235,7 @@ def square_clustering(G, node_ids=None):
     #   tri = first(P2 & A).reduce_rowwise()
     #   squares = (P2 * (P2 - 1)).reduce_rowwise() / 2
     #   uw_count = degrees * (degrees - 1)
-    #   uw_degrees = plus_times(A @ degrees) * (degrees - 1)
+    #   uw_degrees = plus_second(A @ degrees) * (degrees - 1)
     #   square_clustering = squares / (uw_degrees - uw_count - tri - squares)
     #
     A, degrees = G.get_properties("A degrees+")  # TODO" how to handle self-edges?
@@ -273,9 +273,9 @@ def square_clustering(G, node_ids=None):
     neg_denom(binary.plus) << degrees * denom
 
     # (3) The main contribution to the denominator: degrees[u] + degrees[w] for each u-w combo.
-    #   uw_degrees = plus_times(A @ degrees) * (degrees - 1)
-    # denom(binary.times) << plus_times(A @ degrees)
-    denom(binary.times, denom.S) << plus_times(Asubset @ degrees)
+    #   uw_degrees = plus_second(A @ degrees) * (degrees - 1)
+    # denom(binary.times) << plus_second(A @ degrees)
+    denom(binary.times, denom.S) << plus_second(Asubset @ degrees)
 
     # (4) Subtract the number of squares
     denom(binary.minus) << binary.plus(neg_denom & squares)
-- 
2.43.0


From 426f35e270b38195bbbf883b0990965e3acdc1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 44/68] fix: normalized_laplacian_matrix when the weights of a
 row sum to 0

---
 graphblas_algorithms/linalg/laplacianmatrix.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/linalg/laplacianmatrix.py b/graphblas_algorithms/linalg/laplacianmatrix.py
index 18ed65a..09c12ac 100644
--- a/graphblas_algorithms/linalg/laplacianmatrix.py
+++ b/graphblas_algorithms/linalg/laplacianmatrix.py
@@ -1,4 +1,4 @@
-from graphblas import monoid, unary
+from graphblas import monoid, select, unary
 
 __all__ = [
     "laplacian_matrix",
@@ -37,8 +37,7 @@ def normalized_laplacian_matrix(
     d_invsqrt = unary.sqrt(d).new(name="d_invsqrt")
     d_invsqrt << unary.minv(d_invsqrt)
 
-    # XXX: what if `d` is 0 and `d_invsqrt` is infinity? (not tested)
-    # d_invsqrt(unary.isinf(d_invsqrt)) << 0
+    d_invsqrt << select.valuene(d_invsqrt, float("inf"))  # Rows and columns that sum to 0 are 0
 
     # Calculate: A_weighted = D_invsqrt @ A @ D_invsqrt
     A_weighted = d_invsqrt.outer(d_invsqrt).new(mask=A.S, name=name)
-- 
2.43.0


From 7f3daff104d6abb133b932b923ecb0e7b29c2a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 45/68] fix: ego_graph with distance when every edge has
 distance 0

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index bf996cc..376be2f 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -27,7 +27,7 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
         is_negative, iso_value = G.get_properties("has_negative_edges+ iso_value")
         if not is_negative:
             if cutoff is not None:
-                cutoff = int(cutoff // iso_value.get())
+                cutoff = int(cutoff // iso_value.get()) if iso_value.get() != 0 else None
             d = _bfs_level(G, source, target, cutoff=cutoff, dtype=iso_value.dtype)
             if dst_id is not None:
                 d = d.get(dst_id)
-- 
2.43.0


From af65203a8c3c2482516051b5a6a6a5db09e4dd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 46/68] fix: katz_centrality of nodes without in-edges is beta
 instead of missing

---
 graphblas_algorithms/algorithms/centrality/katz.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/algorithms/centrality/katz.py b/graphblas_algorithms/algorithms/centrality/katz.py
index 8087e85..df831dc 100644
--- a/graphblas_algorithms/algorithms/centrality/katz.py
+++ b/graphblas_algorithms/algorithms/centrality/katz.py
@@ -41,12 +41,14 @@ def katz_centrality(
 
     # Power iteration: make up to max_iter iterations
     xprev = Vector(float, N, name="x_prev")
+    w = Vector(float, N, name="w")
     for _i in range(max_iter):
         xprev, x = x, xprev
         # x << alpha * semiring(xprev @ A) + beta
-        x << semiring(xprev @ A)
-        x *= alpha
-        x += b
+        w << semiring(xprev @ A)
+        w *= alpha
+        x << b
+        x += w
         if is_converged(xprev, x, tol):  # sum(abs(xprev - x)) < N * tol
             x.name = name
             if normalized:
-- 
2.43.0


From 46a9c0496dad3290f1688adff1c315c6ccfc8a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 47/68] fix: pagerank of a graph with no edges is the
 personalization vector, not 0

---
 graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
index 7391dbe..05cf993 100644
--- a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
@@ -22,7 +22,7 @@ def pagerank(
 ) -> Vector:
     A = G._A
     N = A.nrows
-    if A.nvals == 0:
+    if N == 0:
         return Vector(float, N, name=name)
 
     # Initial vector
-- 
2.43.0


From ad92ad04b64fd99d6538e278f54bf5d0b2d0a101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 48/68] fix: pagerank when nstart or personalization do not
 have a value for every node

---
 graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
index 05cf993..63970d4 100644
--- a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
@@ -34,6 +34,7 @@ def pagerank(
         if denom == 0:
             raise ZeroDivisionError("nstart sums to 0")
         x << nstart / denom
+        x(~x.S) << 0.0
 
     # Personalization vector or scalar
     if personalization is None:
@@ -43,6 +44,7 @@ def pagerank(
         if denom == 0:
             raise ZeroDivisionError("personalization sums to 0")
         p = (personalization / denom).new(name="p")
+        p(~p.S) << 0.0
 
     # Inverse of row_degrees
     # Fold alpha constant into S
-- 
2.43.0


From 15f4f15ace5a3329bc0486b4b627ff750abfe775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 49/68] fix: pagerank of nodes whose out-edges have total
 weight 0

---
 .../algorithms/link_analysis/pagerank_alg.py                 | 3 ++-
 graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py     | 5 +----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
index 63970d4..24b44ae 100644
--- a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
@@ -1,4 +1,4 @@
-from graphblas import Matrix, Vector, binary, monoid
+from graphblas import Matrix, Vector, binary, monoid, select
 from graphblas.semiring import plus_first, plus_times
 
 from graphblas_algorithms import Graph
@@ -50,6 +50,7 @@ def pagerank(
     # Fold alpha constant into S
     if row_degrees is None:
         row_degrees = G.get_property("plus_rowwise+")  # XXX: What about self-edges?
+    row_degrees = select.valuene(row_degrees, 0).new()  # Nodes whose weights sum to 0 are dangling
     S = (alpha / row_degrees).new(name="S")
 
     if (iso_value := G.get_property("iso_value")) is not None:
diff --git a/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py b/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py
index 22e977e..2febe63 100644
--- a/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py
@@ -24,10 +24,7 @@ def pagerank(
     x = G.dict_to_vector(nstart, dtype=float, name="nstart")
     p = G.dict_to_vector(personalization, dtype=float, name="personalization")
     row_degrees = G.get_property("plus_rowwise+")  # XXX: What about self-edges?
-    if dangling is not None and row_degrees.nvals < N:
-        dangling_weights = G.dict_to_vector(dangling, dtype=float, name="dangling")
-    else:
-        dangling_weights = None
+    dangling_weights = G.dict_to_vector(dangling, dtype=float, name="dangling")
     try:
         result = algorithms.pagerank(
             G,
-- 
2.43.0


From 52485053bc2a6e9a39fe751548645a97243b8637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 50/68] fix: google_matrix of nodes whose out-edges have total
 weight 0

---
 .../algorithms/link_analysis/pagerank_alg.py                | 6 ++----
 graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py    | 5 +----
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
index 24b44ae..d99aa61 100644
--- a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
@@ -133,10 +133,8 @@ def google_matrix(
             raise ZeroDivisionError("personalization sums to 0")
         p = (personalization / denom).new(mask=personalization.V, name="p")
 
-    if ids is None or len(ids) == len(G):
-        nonempty_rows = G.get_property("any_rowwise+")  # XXX: What about self-edges?
-    else:
-        nonempty_rows = A.reduce_rowwise(monoid.any).new(name="nonempty_rows")
+    # Nodes whose weights sum to 0 are dangling
+    nonempty_rows = select.valuene(A.reduce_rowwise(monoid.plus), 0).new(name="nonempty_rows")
 
     is_dangling = nonempty_rows.nvals < N
     if is_dangling:
diff --git a/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py b/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py
index 2febe63..78e5c69 100644
--- a/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py
@@ -47,10 +47,7 @@ def google_matrix(
 ):
     G = to_graph(G, weight=weight, dtype=float)
     p = G.dict_to_vector(personalization, dtype=float, name="personalization")
-    if dangling is not None and G.get_property("row_degrees+").nvals < len(G):
-        dangling_weights = G.dict_to_vector(dangling, dtype=float, name="dangling")
-    else:
-        dangling_weights = None
+    dangling_weights = G.dict_to_vector(dangling, dtype=float, name="dangling")
     return algorithms.google_matrix(
         G,
         alpha=alpha,
-- 
2.43.0


From 7c31d9d7d9511077a66a01cf56830768ef003b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 51/68] fix: compose with a graph that has no nodes

---
 graphblas_algorithms/algorithms/operators/binary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/operators/binary.py b/graphblas_algorithms/algorithms/operators/binary.py
index 1b7bdf4..5c2deb0 100644
--- a/graphblas_algorithms/algorithms/operators/binary.py
+++ b/graphblas_algorithms/algorithms/operators/binary.py
@@ -141,7 +141,8 @@ def compose(G, H, *, name="compose"):
         # Add all edges of H, including those between shared nodes and new nodes
         keys = sorted(H._key_to_id, key=H._key_to_id.__getitem__)
         ids = [key_to_id[key] for key in keys]
-        C(binary.second)[ids, ids] << B
+        if ids:
+            C(binary.second)[ids, ids] << B
     return type(G)(C, key_to_id=key_to_id)
 
 
-- 
2.43.0


From cdf7d3c7436610e6f7e720f7ebd9103a966b2e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 52/68] fix: union, disjoint_union, intersection, and compose
 of a directed and an undirected graph must raise

---
 graphblas_algorithms/algorithms/operators/binary.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/graphblas_algorithms/algorithms/operators/binary.py b/graphblas_algorithms/algorithms/operators/binary.py
index 5c2deb0..cfe03c3 100644
--- a/graphblas_algorithms/algorithms/operators/binary.py
+++ b/graphblas_algorithms/algorithms/operators/binary.py
@@ -14,6 +14,8 @@ __all__ = [
 
 
 def union(G, H, rename=(), *, name="union"):
+    if G.is_directed() != H.is_directed():
+        raise GraphBlasAlgorithmException("All graphs must be directed or undirected.")
     if G.is_multigraph() != H.is_multigraph():
         raise GraphBlasAlgorithmException("All graphs must be graphs or multigraphs.")
     if G.is_multigraph():
@@ -44,6 +46,8 @@ def union(G, H, rename=(), *, name="union"):
 
 
 def disjoint_union(G, H, *, name="disjoint_union"):
+    if G.is_directed() != H.is_directed():
+        raise GraphBlasAlgorithmException("All graphs must be directed or undirected.")
     if G.is_multigraph() != H.is_multigraph():
         raise GraphBlasAlgorithmException("All graphs must be graphs or multigraphs.")
     if G.is_multigraph():
@@ -57,6 +61,8 @@ def disjoint_union(G, H, *, name="disjoint_union"):
 
 
 def intersection(G, H, *, name="intersection"):
+    if G.is_directed() != H.is_directed():
+        raise GraphBlasAlgorithmException("All graphs must be directed or undirected.")
     if G.is_multigraph() != H.is_multigraph():
         raise GraphBlasAlgorithmException("All graphs must be graphs or multigraphs.")
     if G.is_multigraph():
@@ -110,6 +116,8 @@ def symmetric_difference(G, H, *, name="symmetric_difference"):
 
 
 def compose(G, H, *, name="compose"):
+    if G.is_directed() != H.is_directed():
+        raise GraphBlasAlgorithmException("All graphs must be directed or undirected.")
     if G.is_multigraph() != H.is_multigraph():
         raise GraphBlasAlgorithmException("All graphs must be graphs or multigraphs.")
     if G.is_multigraph():
-- 
2.43.0


From 66ac27fc3c7e60f4e21b7e07243f2557a6bc2eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:30 +0000
Subject: [PATCH 53/68] fix: use_row_index and use_column_index of
 matrix_to_dicts were swapped for transposed matrices

---
 graphblas_algorithms/classes/_utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/graphblas_algorithms/classes/_utils.py b/graphblas_algorithms/classes/_utils.py
index 9c54b19..e0ba6cd 100644
--- a/graphblas_algorithms/classes/_utils.py
+++ b/graphblas_algorithms/classes/_utils.py
@@ -190,7 +190,6 @@ def matrix_to_dicts(self, A, *, use_row_index=False, use_column_index=False, val
         d = A.T.ss.export("hypercsc")
         rows = d["cols"].tolist()
         col_indices = d["row_indices"].tolist()
-        use_row_index, use_column_index = use_column_index, use_row_index
     else:
         d = A.ss.export("hypercsr")
         rows = d["rows"].tolist()
-- 
2.43.0


From 158b5d39bd3cbb3a107030ff4c1c4d7d5b23a70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:30 +0000
Subject: [PATCH 54/68] fix: matrix_to_dicts of empty and iso-valued matrices

---
 graphblas_algorithms/classes/_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/_utils.py b/graphblas_algorithms/classes/_utils.py
index e0ba6cd..794b3fa 100644
--- a/graphblas_algorithms/classes/_utils.py
+++ b/graphblas_algorithms/classes/_utils.py
@@ -196,10 +196,12 @@ def matrix_to_dicts(self, A, *, use_row_index=False, use_column_index=False, val
         col_indices = d["col_indices"].tolist()
     indptr = d["indptr"]
     values = d["values"].tolist()
+    if d["is_iso"]:
+        values *= len(col_indices)
     id_to_key = self.id_to_key
     if values_are_keys:
         values = [id_to_key[val] for val in values]
-    it = zip(rows, np.lib.stride_tricks.sliding_window_view(indptr, 2).tolist(), strict=True)
+    it = zip(rows, zip(indptr[:-1].tolist(), indptr[1:].tolist(), strict=True), strict=True)
     if use_row_index and use_column_index:
         return {
             row: dict(zip(col_indices[start:stop], values[start:stop], strict=True))
-- 
2.43.0


From f89bd78aa55c1d623219250aeeed16782f433875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:07 +0000
Subject: [PATCH 55/68] fix: a graph without edges in iso-valued storage has no
 iso value

---
 graphblas_algorithms/classes/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/graph.py b/graphblas_algorithms/classes/graph.py
index fe0ce7e..6e5d441 100644
--- a/graphblas_algorithms/classes/graph.py
+++ b/graphblas_algorithms/classes/graph.py
@@ -225,7 +225,7 @@ def is_iso(G, mask=None):
         else:
             # SuiteSparse:GraphBLAS. `A` may still be iso-valued even if `A.ss.is_iso` is False.
             # Should we check this or rely on `A.ss.is_iso` b/c it's fast and should usually work?
-            cache["is_iso"] = A.ss.is_iso
+            cache["is_iso"] = A.nvals > 0 and A.ss.is_iso
     return cache["is_iso"]
 
 
@@ -241,7 +241,7 @@ def get_iso_value(G, mask=None):
                 cache["iso_value"] = None
         # min_val, max_val = G.get_properties('min_element+ max_element+')
         # SuiteSparse:GraphBLAS
-        elif A.ss.is_iso:
+        elif A.nvals > 0 and A.ss.is_iso:
             cache["iso_value"] = A.ss.iso_value
             cache["is_iso"] = True
         else:
-- 
2.43.0


From 101969cdaa8ea16868727ed36e9d155330312a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:24 +0000
Subject: [PATCH 56/68] fix: the sums of Boolean edge values are integers, not
 logical

---
 graphblas_algorithms/classes/_caching.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/graphblas_algorithms/classes/_caching.py b/graphblas_algorithms/classes/_caching.py
index 6828d8a..f5b713c 100644
--- a/graphblas_algorithms/classes/_caching.py
+++ b/graphblas_algorithms/classes/_caching.py
@@ -4,13 +4,20 @@ from graphblas.core import operator
 NONNEGATIVE_DTYPES = {dtypes.BOOL, dtypes.UINT8, dtypes.UINT16, dtypes.UINT32, dtypes.UINT64}
 
 
+def _op_for(op_, G):
+    # The sum of Boolean values is an integer
+    if op_.name == "plus" and G._A.dtype == dtypes.BOOL:
+        return op_[dtypes.INT64]
+    return op_
+
+
 def get_reduce_to_vector(key, opname, methodname):
-    op_ = op.from_string(opname)
-    op_, opclass = operator.find_opclass(op_)
+    untyped_op, opclass = operator.find_opclass(op.from_string(opname))
     keybase = key[:-1]
     if key[-1] == "-":
 
         def get_reduction(G, mask=None):
+            op_ = _op_for(untyped_op, G)
             cache = G._cache
             if mask is not None:
                 if key in cache:
@@ -65,6 +72,7 @@ def get_reduce_to_vector(key, opname, methodname):
     else:
 
         def get_reduction(G, mask=None):
+            op_ = _op_for(untyped_op, G)
             A = G._A
             cache = G._cache
             if mask is not None:
@@ -97,12 +105,12 @@ def get_reduce_to_vector(key, opname, methodname):
 
 
 def get_reduce_to_scalar(key, opname):
-    op_ = op.from_string(opname)
-    op_, opclass = operator.find_opclass(op_)
+    untyped_op, opclass = operator.find_opclass(op.from_string(opname))
     keybase = key[:-1]
     if key[-1] == "-":
 
         def get_reduction(G, mask=None):
+            op_ = _op_for(untyped_op, G)
             cache = G._cache
             if key not in cache:
                 if cache.get("has_self_edges") is False and f"{keybase}+" in cache:
@@ -144,6 +152,7 @@ def get_reduce_to_scalar(key, opname):
     elif key[-1] == "+":
 
         def get_reduction(G, mask=None):
+            op_ = _op_for(untyped_op, G)
             A = G._A
             cache = G._cache
             if key not in cache:
@@ -172,6 +181,7 @@ def get_reduce_to_scalar(key, opname):
     elif key.endswith("_diagonal"):
 
         def get_reduction(G, mask=None):
+            op_ = _op_for(untyped_op, G)
             A = G._A
             cache = G._cache
             if key not in cache:
-- 
2.43.0


From 2e220cbecf4728bdd757fcff1f567f8630d4b3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:24 +0000
Subject: [PATCH 57/68] fix: matrices of graphs with Boolean edge values

---
 graphblas_algorithms/linalg/bethehessianmatrix.py | 4 +++-
 graphblas_algorithms/linalg/laplacianmatrix.py    | 4 +++-
 graphblas_algorithms/linalg/modularitymatrix.py   | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/linalg/bethehessianmatrix.py b/graphblas_algorithms/linalg/bethehessianmatrix.py
index edd000f..324e5dc 100644
--- a/graphblas_algorithms/linalg/bethehessianmatrix.py
+++ b/graphblas_algorithms/linalg/bethehessianmatrix.py
@@ -1,10 +1,12 @@
-from graphblas import Vector, binary
+from graphblas import Vector, binary, dtypes
 
 __all__ = ["bethe_hessian_matrix"]
 
 
 def bethe_hessian_matrix(G, r=None, nodelist=None, *, name="bethe_hessian_matrix"):
     A = G._A
+    if A.dtype == dtypes.BOOL:
+        A = A.dup(dtypes.INT64)
     if nodelist is not None:
         ids = G.list_to_ids(nodelist)
         A = A[ids, ids].new()
diff --git a/graphblas_algorithms/linalg/laplacianmatrix.py b/graphblas_algorithms/linalg/laplacianmatrix.py
index 09c12ac..086fd0a 100644
--- a/graphblas_algorithms/linalg/laplacianmatrix.py
+++ b/graphblas_algorithms/linalg/laplacianmatrix.py
@@ -1,4 +1,4 @@
-from graphblas import monoid, select, unary
+from graphblas import dtypes, monoid, select, unary
 
 __all__ = [
     "laplacian_matrix",
@@ -10,6 +10,8 @@ def _laplacian_helper(G, nodelist=None, is_weighted=False):
     if G.is_multigraph():
         is_weighted = True  # XXX
     A = G._A
+    if A.dtype == dtypes.BOOL:
+        A = A.dup(dtypes.INT64)
     if nodelist is not None:
         ids = G.list_to_ids(nodelist)
         A = A[ids, ids].new()
diff --git a/graphblas_algorithms/linalg/modularitymatrix.py b/graphblas_algorithms/linalg/modularitymatrix.py
index 1efff65..5d35c5b 100644
--- a/graphblas_algorithms/linalg/modularitymatrix.py
+++ b/graphblas_algorithms/linalg/modularitymatrix.py
@@ -1,4 +1,4 @@
-from graphblas import monoid, unary
+from graphblas import dtypes, monoid, unary
 
 from .laplacianmatrix import _laplacian_helper
 
@@ -18,6 +18,8 @@ def directed_modularity_matrix(
     G, nodelist=None, is_weighted=False, *, name="directed_modularity_matrix"
 ):
     A = G._A
+    if A.dtype == dtypes.BOOL:
+        A = A.dup(dtypes.INT64)
     if nodelist is not None:
         ids = G.list_to_ids(nodelist)
         A = A[ids, ids].new()
-- 
2.43.0


From 01a54cbccb6ba6d4744253b4e5d020c0d03412cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:36 +0000
Subject: [PATCH 58/68] fix: cut sizes and volumes of graphs with Boolean edge
 values

---
 graphblas_algorithms/algorithms/cuts.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index b6e7fee..f8e2129 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -1,4 +1,4 @@
-from graphblas import monoid
+from graphblas import dtypes, monoid
 from graphblas.semiring import any_pair, plus_second
 
 from .boundary import edge_boundary, node_boundary
@@ -15,16 +15,22 @@ __all__ = [
 ]
 
 
+def _sum(A):
+    if A.dtype == dtypes.BOOL:
+        return A.reduce_scalar(monoid.plus[dtypes.INT64]).get(0)
+    return A.reduce_scalar(monoid.plus).get(0)
+
+
 def cut_size(G, S, T=None, *, is_weighted=False):
     edges = edge_boundary(G, S, T, is_weighted=is_weighted)
     if is_weighted:
-        rv = edges.reduce_scalar(monoid.plus).get(0)
+        rv = _sum(edges)
     else:
         rv = edges.nvals
     if G.is_directed():
         edges = edge_boundary(G, T, S, is_weighted=is_weighted)
         if is_weighted:
-            rv += edges.reduce_scalar(monoid.plus).get(0)
+            rv += _sum(edges)
         else:
             rv += edges.nvals
     return rv
@@ -33,7 +39,10 @@ def cut_size(G, S, T=None, *, is_weighted=False):
 def volume(G, S, *, weighted=False):
     if weighted:
         # Sum the weights of the edges out of S
-        degrees = plus_second(S @ G._A)
+        A = G._A
+        if A.dtype == dtypes.BOOL:
+            A = A.dup(dtypes.INT64)
+        degrees = plus_second(S @ A)
     else:
         degrees = G.get_property("row_degrees+", mask=S.S)
     return degrees.reduce(monoid.plus).get(0)
-- 
2.43.0


From 55e4cbaadf9676f82045e7a1c056504be2d204d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:36 +0000
Subject: [PATCH 59/68] fix: average_clustering(count_zeros=False) must not
 count nodes whose weighted clustering is zero

---
 graphblas_algorithms/algorithms/cluster.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cluster.py b/graphblas_algorithms/algorithms/cluster.py
index ea84881..18d422c 100644
--- a/graphblas_algorithms/algorithms/cluster.py
+++ b/graphblas_algorithms/algorithms/cluster.py
@@ -1,5 +1,5 @@
 import numpy as np
-from graphblas import Matrix, Vector, binary, replace, unary
+from graphblas import Matrix, Vector, binary, replace, select, unary
 from graphblas.semiring import plus_first, plus_pair, plus_second, plus_times
 
 __all__ = [
@@ -179,7 +179,7 @@ def average_clustering(G, *, count_zeros=True, weighted=False, mask=None):
     c = clustering(G, weighted=weighted, mask=mask)
     val = c.reduce().get(0)
     if not count_zeros:
-        return val / c.nvals
+        return val / select.valuene(c, 0).new().nvals
     if mask is not None:
         return val / mask.parent.nvals
     return val / c.size
@@ -189,7 +189,7 @@ def average_clustering_directed(G, *, count_zeros=True, weighted=False, mask=Non
     c = clustering_directed(G, weighted=weighted, mask=mask)
     val = c.reduce().get(0)
     if not count_zeros:
-        return val / c.nvals
+        return val / select.valuene(c, 0).new().nvals
     if mask is not None:
         return val / mask.parent.nvals
     return val / c.size
-- 
2.43.0


From ffe8ab2497b8fc8016719c889ac1ae463fbd7fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:55 +0000
Subject: [PATCH 60/68] fix: laplacian matrices of directed graphs must raise
 NetworkXNotImplemented

---
 graphblas_algorithms/nxapi/linalg/laplacianmatrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphblas_algorithms/nxapi/linalg/laplacianmatrix.py b/graphblas_algorithms/nxapi/linalg/laplacianmatrix.py
index 752ca1e..478bd95 100644
--- a/graphblas_algorithms/nxapi/linalg/laplacianmatrix.py
+++ b/graphblas_algorithms/nxapi/linalg/laplacianmatrix.py
@@ -1,14 +1,17 @@
 from graphblas_algorithms import linalg
 from graphblas_algorithms.classes.digraph import to_graph
+from graphblas_algorithms.utils import not_implemented_for
 
 __all__ = ["laplacian_matrix", "normalized_laplacian_matrix"]
 
 
+@not_implemented_for("directed")
 def laplacian_matrix(G, nodelist=None, weight="weight"):
     G = to_graph(G, weight=weight)
     return linalg.laplacian_matrix(G, nodelist, is_weighted=weight is not None)
 
 
+@not_implemented_for("directed")
 def normalized_laplacian_matrix(G, nodelist=None, weight="weight"):
     G = to_graph(G, weight=weight)
     return linalg.normalized_laplacian_matrix(G, nodelist, is_weighted=weight is not None)
-- 
2.43.0


From e9ac4ead1e5c09fc74b162508b504f2039e10034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:55 +0000
Subject: [PATCH 61/68] fix: triangle and clustering functions must refuse
 multigraphs

---
 graphblas_algorithms/nxapi/cluster.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index 77484ae..47dd056 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -19,6 +19,7 @@ __all__ = [
 
 
 @not_implemented_for("directed")
+@not_implemented_for("multigraph")
 def triangles(G, nodes=None):
     G = to_undirected_graph(G, dtype=bool)
     if len(G) == 0:
@@ -30,6 +31,7 @@ def triangles(G, nodes=None):
     return G.vector_to_nodemap(result, mask=mask, fill_value=0)
 
 
+@not_implemented_for("multigraph")
 def transitivity(G):
     G = to_graph(G, dtype=bool)  # directed or undirected
     if len(G) == 0:
@@ -41,6 +43,7 @@ def transitivity(G):
     return G._cacheit("transitivity", func, G)
 
 
+@not_implemented_for("multigraph")
 def clustering(G, nodes=None, weight=None):
     G = to_graph(G, weight=weight)  # to directed or undirected
     if len(G) == 0:
@@ -58,6 +61,7 @@ def clustering(G, nodes=None, weight=None):
     return G.vector_to_nodemap(result, mask=mask, fill_value=0.0)
 
 
+@not_implemented_for("multigraph")
 def average_clustering(G, nodes=None, weight=None, count_zeros=True):
     G = to_graph(G, weight=weight)  # to directed or undirected
     if len(G) == 0:
@@ -127,6 +131,7 @@ def square_clustering(G, nodes=None, *, chunksize="256 MiB"):
 
 
 @not_implemented_for("directed")
+@not_implemented_for("multigraph")
 def generalized_degree(G, nodes=None):
     G = to_undirected_graph(G)
     if len(G) == 0:
-- 
2.43.0


From c5ce3595881d24a891f87147e40a2dde9a69f106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:25 +0000
Subject: [PATCH 62/68] fix: tournament_matrix of graphs with Boolean edge
 values

---
 graphblas_algorithms/algorithms/tournament.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/tournament.py b/graphblas_algorithms/algorithms/tournament.py
index 32624ff..290df18 100644
--- a/graphblas_algorithms/algorithms/tournament.py
+++ b/graphblas_algorithms/algorithms/tournament.py
@@ -1,5 +1,5 @@
 import numpy as np
-from graphblas import select
+from graphblas import dtypes, select
 
 __all__ = ["is_tournament", "score_sequence", "tournament_matrix"]
 
@@ -24,4 +24,6 @@ def score_sequence(G):
 
 def tournament_matrix(G):
     A = G._A
+    if A.dtype == dtypes.BOOL:
+        A = A.dup(dtypes.INT64)
     return (A - A.T).new(name="tournament_matrix")
-- 
2.43.0


From 2d04b55be972256d7a445ded6a1afd2ae3be5776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:29 +0000
Subject: [PATCH 63/68] fix: the sum of the Boolean diagonal of a graph without
 self-edges

---
 graphblas_algorithms/classes/_caching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/_caching.py b/graphblas_algorithms/classes/_caching.py
index f5b713c..f26dbfc 100644
--- a/graphblas_algorithms/classes/_caching.py
+++ b/graphblas_algorithms/classes/_caching.py
@@ -186,7 +186,8 @@ def get_reduce_to_scalar(key, opname):
             cache = G._cache
             if key not in cache:
                 if not G.get_property("has_self_edges"):
-                    cache[key] = Scalar(op_[A.dtype].return_type, name=key)
+                    typed_op = op_[A.dtype] if op_ is untyped_op else op_
+                    cache[key] = Scalar(typed_op.return_type, name=key)
                 else:
                     cache[key] = G.get_property("diag").reduce(op_).new(name=key)
             return cache[key]
-- 
2.43.0


From efbc6831b183b9d0662887a535594cd0a96d3bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:34 +0000
Subject: [PATCH 64/68] fix: to_graph must convert networkx multigraphs to
 multigraphs

---
 graphblas_algorithms/classes/digraph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/digraph.py b/graphblas_algorithms/classes/digraph.py
index c76f60a..5947227 100644
--- a/graphblas_algorithms/classes/digraph.py
+++ b/graphblas_algorithms/classes/digraph.py
@@ -401,9 +401,11 @@ def to_graph(G, weight=None, dtype=None):
         import networkx as nx
 
         if isinstance(G, nx.DiGraph):
-            return DiGraph.from_networkx(G, weight=weight, dtype=dtype)
+            cls = MultiDiGraph if G.is_multigraph() else DiGraph
+            return cls.from_networkx(G, weight=weight, dtype=dtype)
         if isinstance(G, nx.Graph):
-            return ga.Graph.from_networkx(G, weight=weight, dtype=dtype)
+            cls = ga.MultiGraph if G.is_multigraph() else ga.Graph
+            return cls.from_networkx(G, weight=weight, dtype=dtype)
     except ImportError:
         pass
     raise TypeError
-- 
2.43.0


From f999e9d758adcb29da0a807ceafd3ff06d68d6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:34 +0000
Subject: [PATCH 65/68] fix: triangles counts adjacent nodes of multigraphs as
 networkx does

---
 graphblas_algorithms/nxapi/cluster.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index 47dd056..e6abffc 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -19,7 +19,6 @@ __all__ = [
 
 
 @not_implemented_for("directed")
-@not_implemented_for("multigraph")
 def triangles(G, nodes=None):
     G = to_undirected_graph(G, dtype=bool)
     if len(G) == 0:
-- 
2.43.0


From 78b5a2ad2a75e7f7833acfdb6edaacbde9fd2ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:54 +0000
Subject: [PATCH 66/68] fix: expanded output of all nodes is in the order of
 the graph, not of the listed nodes

---
 graphblas_algorithms/algorithms/shortest_paths/unweighted.py | 2 +-
 graphblas_algorithms/algorithms/shortest_paths/weighted.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/unweighted.py b/graphblas_algorithms/algorithms/shortest_paths/unweighted.py
index ec87b65..e0e7de7 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/unweighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/unweighted.py
@@ -21,7 +21,7 @@ def single_target_shortest_path_length(G, target, cutoff=None):
 
 def all_pairs_shortest_path_length(G, cutoff=None, *, nodes=None, expand_output=False):
     D = _bfs_levels(G, nodes, cutoff=cutoff)
-    if nodes is not None and expand_output and D.ncols != D.nrows:
+    if nodes is not None and expand_output:
         ids = G.list_to_ids(nodes)
         rv = Matrix(D.dtype, D.ncols, D.ncols, name=D.name)
         rv[ids, :] = D
diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 376be2f..e46b3da 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -132,7 +132,7 @@ def bellman_ford_path_lengths(G, nodes=None, *, expand_output=False):
             D = _bfs_levels(G, nodes, dtype=iso_value.dtype)
             if iso_value != 1:
                 D *= iso_value
-            if nodes is not None and expand_output and D.ncols != D.nrows:
+            if nodes is not None and expand_output:
                 ids = G.list_to_ids(nodes)
                 rv = Matrix(D.dtype, D.ncols, D.ncols, name=D.name)
                 rv[ids, :] = D
@@ -190,7 +190,7 @@ def bellman_ford_path_lengths(G, nodes=None, *, expand_output=False):
         cur = select.valuelt(diag, 0)
         if any_pair(D @ cur).nvals > 0:
             raise Unbounded("Negative cycle detected.")
-    if nodes is not None and expand_output and D.ncols != D.nrows:
+    if nodes is not None and expand_output:
         rv = Matrix(D.dtype, n, n, name=D.name)
         rv[ids, :] = D
         return rv
-- 
2.43.0


From c626eda28e35a98c803569856c88a080de0b2c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:54 +0000
Subject: [PATCH 67/68] fix: generalized_degree with a complemented mask used
 the nodes that are masked out

---
 graphblas_algorithms/algorithms/cluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cluster.py b/graphblas_algorithms/algorithms/cluster.py
index 18d422c..eb3a3c9 100644
--- a/graphblas_algorithms/algorithms/cluster.py
+++ b/graphblas_algorithms/algorithms/cluster.py
@@ -289,10 +289,10 @@ def generalized_degree(G, *, mask=None):
     A = G.get_property("offdiag")
     Tri = Matrix(int, A.nrows, A.ncols, name="Tri")
     if mask is not None:
-        if mask.structure and not mask.value:
+        if mask.structure and not mask.complement:
             v_mask = mask.parent
         else:
-            v_mask = mask.new()  # Not covered
+            v_mask = mask.new()
         Tri << binary.pair(v_mask & A)  # Mask out rows
         Tri(Tri.S) << 0
     else:
-- 
2.43.0


From 68f852dfc4ffe488a5e7ffd643ffd093ee5160f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:54 +0000
Subject: [PATCH 68/68] fix: fractional and infinite cutoffs of Bellman-Ford
 path lengths

---
 .../algorithms/shortest_paths/weighted.py                | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index e46b3da..ec6b36b 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -1,5 +1,7 @@
+from math import floor, inf
+
 import numpy as np
-from graphblas import Matrix, Vector, binary, indexunary, monoid, replace, select, unary
+from graphblas import Matrix, Vector, binary, dtypes, indexunary, monoid, replace, select, unary
 from graphblas.semiring import any_pair, min_plus
 
 from .._bfs import _bfs_level, _bfs_levels, _bfs_parent
@@ -21,6 +23,8 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
         dst_id = G._key_to_id[target]
     else:
         dst_id = None
+    if cutoff == inf:
+        cutoff = None
 
     if G.get_property("is_iso"):
         # If the edges are iso-valued (and positive), then we can simply do level BFS
@@ -58,6 +62,9 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
     else:
         dtype = A.dtype
     n = A.nrows
+    if cutoff is not None and np.issubdtype(dtypes.lookup_dtype(dtype).np_type, np.integer):
+        # Integers can't be compared to a fractional cutoff
+        cutoff = floor(cutoff)
     d = Vector(dtype, n, name="single_source_bellman_ford_path_length")
     d[src_id] = 0
     cur = d.dup(name="cur")
-- 
2.43.0

