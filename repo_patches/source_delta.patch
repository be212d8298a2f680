From f6faac5ca72e364470c9f99bc45b9ed44bf724c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:57 +0000
Subject: [PATCH 01/69] fix: sum the weights of repeated links in dense graphs

---
 src/graph_ensembles/graphs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 227a1e1..b46a243 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -182,7 +182,8 @@ class Graph:
             self.adj = np.zeros(
                 (self.num_vertices, self.num_vertices), dtype=val_array.dtype
             )
-            self.adj[src_array, dst_array] = val_array
+            # Sum the weights of links that are given multiple times
+            np.add.at(self.adj, (src_array, dst_array), val_array)
 
         else:
             self.weighted = False
@@ -847,7 +848,8 @@ class MultiGraph(Graph):
                 (self.num_labels, self.num_vertices, self.num_vertices),
                 dtype=val_array.dtype,
             )
-            self.adj[lbl_array, src_array, dst_array] = val_array
+            # Sum the weights of links that are given multiple times
+            np.add.at(self.adj, (lbl_array, src_array, dst_array), val_array)
         else:
             self.adj = np.zeros(
                 (self.num_labels, self.num_vertices, self.num_vertices), dtype=bool
-- 
2.43.0


From b37a118ec84df143e2e65762f740e4497dfbcd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:57 +0000
Subject: [PATCH 02/69] fix: count self loops once in the undirected weighted
 projection of dense multigraphs

---
 src/graph_ensembles/graphs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index b46a243..8ec92e0 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -864,10 +864,11 @@ class MultiGraph(Graph):
         # Ensure matrix is symmetric as this is undirected
         if weighted:
             # Symmetrize
+            diag = np.diag(adj)
             adj = adj + adj.T
 
             # Remove double count diagonal
-            adj.ravel()[:: adj.shape[1] + 1] = np.diag(adj)
+            adj.ravel()[:: adj.shape[1] + 1] = diag
 
         else:
             adj = adj != 0
@@ -1131,10 +1132,11 @@ class MultiDiGraph(MultiGraph, DiGraph):
 
         elif not directed and weighted:
             # Symmetrize
+            diag = np.diag(adj)
             adj = adj + adj.T
 
             # Remove double count diagonal
-            adj.ravel()[:: adj.shape[1] + 1] = np.diag(adj)
+            adj.ravel()[:: adj.shape[1] + 1] = diag
 
         elif not directed and not weighted:
             adj = adj != 0
-- 
2.43.0


From bebe283e8ebd4dc25ded76e9ff6234cdd77146b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:57 +0000
Subject: [PATCH 03/69] fix: strengths of unweighted dense multigraphs equal
 the degrees

---
 src/graph_ensembles/graphs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 8ec92e0..68178d1 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -859,7 +859,7 @@ class MultiGraph(Graph):
     def adjacency_matrix(self, directed=False, weighted=False):
         """Return the adjacency matrix of the graph."""
         # Project tensor to two dimensions
-        adj = self.adj.sum(axis=0)
+        adj = self.adj.sum(axis=0, dtype=self.adj.dtype)
 
         # Ensure matrix is symmetric as this is undirected
         if weighted:
@@ -1125,7 +1125,7 @@ class MultiDiGraph(MultiGraph, DiGraph):
     def adjacency_matrix(self, directed=True, weighted=False):
         """Return the adjacency matrix of the graph."""
         # Project tensor to two dimensions
-        adj = self.adj.sum(axis=0)
+        adj = self.adj.sum(axis=0, dtype=self.adj.dtype)
 
         if directed and not weighted:
             adj = adj != 0
-- 
2.43.0


From a95ac6d54fa7e579e308fd67ea3914fe47a2ae3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:57 +0000
Subject: [PATCH 04/69] fix: keep self loops in the undirected weighted
 adjacency of unweighted sparse graphs

---
 src/graph_ensembles/sparse/graphs.py | 31 +++++++++++++++-------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index e4a826b..44bb3ac 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -215,11 +215,7 @@ class Graph:
         # Ensure matrix is symmetric as this is undirected
         if weighted:
             # Symmetrize
-            adj = (
-                self.adj
-                + self.adj.T
-                - sp.spdiags(self.adj.diagonal(), 0, m=self.adj.shape)
-            )
+            adj = self.symmetrize(self.adj)
         else:
             adj = self.adj != 0
             adj = adj + adj.T
@@ -362,6 +358,17 @@ class Graph:
 
         return G
 
+    @staticmethod
+    def symmetrize(adj):
+        """Return the symmetric matrix, counting the diagonal only once."""
+        sym = adj + adj.T
+
+        # Boolean sums are not double counted and cannot be subtracted
+        if adj.dtype != bool:
+            sym = sym - sp.spdiags(adj.diagonal(), 0, m=adj.shape)
+
+        return sym
+
     @staticmethod
     def get_num_bytes(num_items):
         """Determine the number of bytes needed for storing ids for num_items."""
@@ -539,11 +546,7 @@ class DiGraph(Graph):
 
         elif not directed and weighted:
             # Symmetrize
-            adj = (
-                self.adj
-                + self.adj.T
-                - sp.spdiags(self.adj.diagonal(), 0, m=self.adj.shape)
-            )
+            adj = self.symmetrize(self.adj)
 
         else:
             adj = self.adj != 0
@@ -951,7 +954,7 @@ class MultiGraph(Graph):
         # Ensure matrix is symmetric as this is undirected
         if weighted:
             # Symmetrize
-            adj = adj + adj.T - sp.spdiags(adj.diagonal(), 0, m=adj.shape)
+            adj = self.symmetrize(adj)
 
         else:
             adj = adj != 0
@@ -967,7 +970,7 @@ class MultiGraph(Graph):
             sym = []
             for lbl in range(self.num_labels):
                 adj = self.adj[lbl]
-                sym.append(adj + adj.T - sp.spdiags(adj.diagonal(), 0, m=adj.shape))
+                sym.append(self.symmetrize(adj))
 
         else:
             sym = []
@@ -1225,7 +1228,7 @@ class MultiDiGraph(MultiGraph, DiGraph):
 
         elif not directed and weighted:
             # Symmetrize
-            adj = adj + adj.T - sp.spdiags(adj.diagonal(), 0, m=adj.shape)
+            adj = self.symmetrize(adj)
 
         elif not directed and not weighted:
             adj = adj != 0
@@ -1248,7 +1251,7 @@ class MultiDiGraph(MultiGraph, DiGraph):
             adj = []
             for lbl in range(self.num_labels):
                 tmp = self.adj[lbl]
-                adj.append(tmp + tmp.T - sp.spdiags(tmp.diagonal(), 0, m=tmp.shape))
+                adj.append(self.symmetrize(tmp))
 
         else:
             adj = []
-- 
2.43.0


From 06ea4fb2e8fd0251c56c996b75519d79f16c422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:16 +0000
Subject: [PATCH 05/69] fix: do not truncate strengths by group to integers in
 dense graphs

---
 src/graph_ensembles/graphs.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 68178d1..cfd7a47 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -253,7 +253,9 @@ class Graph:
         """Compute the undirected degree sequence to and from each group."""
         if not hasattr(self, "_degree_by_group") or recompute:
             adj = self.adjacency_matrix(directed=False, weighted=False)
-            self._degree_by_group = self.sum_by_group(adj, self.groups)
+            self._degree_by_group = self.sum_by_group(
+                adj, self.groups, dtype=np.int64
+            )
 
         return self._degree_by_group
 
@@ -368,13 +370,13 @@ class Graph:
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
-    def sum_by_group(mat, g_arr):
+    def sum_by_group(mat, g_arr, dtype=np.float64):
         """Sums the values of the matrix along the second axis using the
         provided grouping.
         """
         # Initialize empty result
         M = g_arr.max() + 1
-        res = np.zeros((mat.shape[0], M), dtype=np.int64)
+        res = np.zeros((mat.shape[0], M), dtype=dtype)
 
         # Count group occurrences
         for i in range(M):
@@ -552,8 +554,12 @@ class DiGraph(Graph):
         """Compute the out degree sequence to each group."""
         if not hasattr(self, "_out_degree_by_group") or recompute:
             adj = self.adjacency_matrix(directed=True, weighted=False)
-            self._out_degree_by_group = self.sum_by_group(adj, self.groups)
-            self._in_degree_by_group = self.sum_by_group(adj.T, self.groups)
+            self._out_degree_by_group = self.sum_by_group(
+                adj, self.groups, dtype=np.int64
+            )
+            self._in_degree_by_group = self.sum_by_group(
+                adj.T, self.groups, dtype=np.int64
+            )
 
         return self._out_degree_by_group
 
@@ -561,8 +567,12 @@ class DiGraph(Graph):
         """Compute the in degree sequence from each group."""
         if not hasattr(self, "_in_degree_by_group") or recompute:
             adj = self.adjacency_matrix(directed=True, weighted=False)
-            self._out_degree_by_group = self.sum_by_group(adj, self.groups)
-            self._in_degree_by_group = self.sum_by_group(adj.T, self.groups)
+            self._out_degree_by_group = self.sum_by_group(
+                adj, self.groups, dtype=np.int64
+            )
+            self._in_degree_by_group = self.sum_by_group(
+                adj.T, self.groups, dtype=np.int64
+            )
 
         return self._in_degree_by_group
 
-- 
2.43.0


From f0cf78eb60657272c9cc649f5be049e547c21d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:16 +0000
Subject: [PATCH 06/69] fix: average multidimensional neighbour properties of
 graphs along the vertex axis

---
 src/graph_ensembles/graphs.py        | 4 ++--
 src/graph_ensembles/sparse/graphs.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index cfd7a47..b25920c 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -305,7 +305,7 @@ class Graph:
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         return av_nn
 
@@ -649,7 +649,7 @@ class DiGraph(Graph):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         return av_nn
 
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index 44bb3ac..5844d4b 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -316,7 +316,7 @@ class Graph:
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         return av_nn
 
@@ -714,7 +714,7 @@ class DiGraph(Graph):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         return av_nn
 
-- 
2.43.0


From 6991fd37f8d943b2ad12c33ec367f9b2af4d9d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:17 +0000
Subject: [PATCH 07/69] fix: ignore self loops in the in-neighbourhood averages
 of dense graphs

---
 src/graph_ensembles/graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index b25920c..110f85a 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -389,7 +389,7 @@ class Graph:
         """Computes the sum of the nearest neighbours' properties."""
         # If no self loops remove diagonal
         if not selfloops:
-            adj.ravel()[:: adj.shape[1] + 1] = 0
+            np.fill_diagonal(adj, 0)
 
         # Compute sum
         res = adj.dot(prop)
-- 
2.43.0


From e1b1d130fbaa0ee5818f39a4f8f628eb5097905b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:17 +0000
Subject: [PATCH 08/69] fix: do not count ignored self loops when averaging
 over the neighbours of a graph

---
 src/graph_ensembles/graphs.py        | 13 ++++++++++---
 src/graph_ensembles/sparse/graphs.py | 10 +++++++++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 110f85a..ef3414a 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -294,10 +294,13 @@ class Graph:
         # Compute correct degree
         deg = self.degree(recompute=deg_recompute)
 
+        # Self loops are not neighbours if they are to be ignored
+        adj = self.adjacency_matrix(directed=False, weighted=False)
+        if not selfloops:
+            deg = deg - adj.diagonal()
+
         # It is necessary to select the elements or pickling will fail
-        av_nn = self.av_nn_prop(
-            self.adjacency_matrix(directed=False, weighted=False), prop, selfloops
-        )
+        av_nn = self.av_nn_prop(adj, prop, selfloops)
 
         # Test that mask is the same
         ind = deg != 0
@@ -640,6 +643,10 @@ class DiGraph(Graph):
         else:
             raise ValueError("Neighbourhood direction not recognised.")
 
+        # Self loops are not neighbours if they are to be ignored
+        if not selfloops:
+            deg = deg - adj.diagonal()
+
         # It is necessary to select the elements or pickling will fail
         av_nn = self.av_nn_prop(adj, prop, selfloops)
 
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index 5844d4b..9e72c4a 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -306,8 +306,12 @@ class Graph:
         if sp.issparse(prop):
             prop = prop.todense()
 
-        # It is necessary to select the elements or pickling will fail
+        # Self loops are not neighbours if they are to be ignored
         adj = self.adjacency_matrix(directed=False, weighted=False)
+        if not selfloops:
+            deg = deg - adj.diagonal()
+
+        # It is necessary to select the elements or pickling will fail
         av_nn = self.av_nn_prop(adj.indptr, adj.indices, prop, selfloops)
 
         # Test that mask is the same
@@ -705,6 +709,10 @@ class DiGraph(Graph):
         if sp.issparse(prop):
             prop = prop.todense()
 
+        # Self loops are not neighbours if they are to be ignored
+        if not selfloops:
+            deg = deg - adj.diagonal()
+
         # It is necessary to select the elements or pickling will fail
         av_nn = self.av_nn_prop(adj.indptr, adj.indices, prop, selfloops)
 
-- 
2.43.0


From 9cf36fb6b2e81e0f66bbe5533b56ad1574c22ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:10 +0000
Subject: [PATCH 09/69] fix: do not answer average_nn_degree of a graph with
 the result for another self-loops option

---
 src/graph_ensembles/graphs.py        | 10 ++++++++--
 src/graph_ensembles/sparse/graphs.py | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index ef3414a..ad8abdf 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -316,7 +316,9 @@ class Graph:
         """Computes the average nearest neighbour degree of each node."""
         # Compute property name
         name = "av_nn_degree"
-        if not hasattr(self, name) or recompute or deg_recompute:
+        # The stored result is only valid for the same self-loops option
+        stale = getattr(self, name + "_selfloops", selfloops) != selfloops
+        if not hasattr(self, name) or recompute or deg_recompute or stale:
             if selfloops is None:
                 selfloops = self.selfloops
 
@@ -327,6 +329,7 @@ class Graph:
                 deg, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, name + "_selfloops", selfloops)
 
         return getattr(self, name)
 
@@ -675,7 +678,9 @@ class DiGraph(Graph):
         """
         # Compute property name
         name = "av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
-        if not hasattr(self, name) or recompute or deg_recompute:
+        # The stored result is only valid for the same self-loops option
+        stale = getattr(self, name + "_selfloops", selfloops) != selfloops
+        if not hasattr(self, name) or recompute or deg_recompute or stale:
             if selfloops is None:
                 selfloops = self.selfloops
 
@@ -694,6 +699,7 @@ class DiGraph(Graph):
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, name + "_selfloops", selfloops)
 
         return getattr(self, name)
 
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index 9e72c4a..3d46765 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -328,7 +328,9 @@ class Graph:
         """Computes the average nearest neighbour degree of each node."""
         # Compute property name
         name = "av_nn_degree"
-        if not hasattr(self, name) or recompute or deg_recompute:
+        # The stored result is only valid for the same self-loops option
+        stale = getattr(self, name + "_selfloops", selfloops) != selfloops
+        if not hasattr(self, name) or recompute or deg_recompute or stale:
             if selfloops is None:
                 selfloops = self.selfloops
 
@@ -339,6 +341,7 @@ class Graph:
                 deg, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, name + "_selfloops", selfloops)
 
         return getattr(self, name)
 
@@ -741,7 +744,9 @@ class DiGraph(Graph):
         """
         # Compute property name
         name = "av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
-        if not hasattr(self, name) or recompute or deg_recompute:
+        # The stored result is only valid for the same self-loops option
+        stale = getattr(self, name + "_selfloops", selfloops) != selfloops
+        if not hasattr(self, name) or recompute or deg_recompute or stale:
             if selfloops is None:
                 selfloops = self.selfloops
 
@@ -760,6 +765,7 @@ class DiGraph(Graph):
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, name + "_selfloops", selfloops)
 
         return getattr(self, name)
 
-- 
2.43.0


From 300863a22b57854427bc211278c7a5591feeeb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:49 +0000
Subject: [PATCH 10/69] fix: export the whole weight of links given in both
 directions by undirected multigraphs

---
 src/graph_ensembles/graphs.py        | 6 ++++--
 src/graph_ensembles/sparse/graphs.py | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index ad8abdf..aaed072 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -978,8 +978,10 @@ class MultiGraph(Graph):
         for lbl_id, i in self.label_dict.items():
             lbl_list[i] = lbl_id
 
-        # Add edges per layer
+        # Add edges per layer, the weight of a link is independent of the order
+        # in which its vertices are given
         lbl, row, col = np.nonzero(self.adj)
+        vals = self.adjacency_tensor(directed=False, weighted=True)[lbl, row, col]
         G.add_edges_from(
             zip(
                 row,
@@ -987,7 +989,7 @@ class MultiGraph(Graph):
                 lbl,
                 [
                     dict(weight=i, label=lbl_list[j])
-                    for i, j in zip(self.adj[self.adj != 0].ravel(), lbl)
+                    for i, j in zip(vals, lbl)
                 ],
             )
         )
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index 3d46765..296b47f 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -1065,9 +1065,12 @@ class MultiGraph(Graph):
         for lbl_id, i in self.label_dict.items():
             lbl_list[i] = lbl_id
 
-        # Add edges per layer
+        # Add edges per layer, the weight of a link is independent of the order
+        # in which its vertices are given
+        sym = self.adjacency_tensor(directed=False, weighted=True)
         for k in range(self.num_labels):
             adj = self.adj[k].tocoo()
+            vals = np.asarray(sym[k].tocsr()[adj.row, adj.col]).ravel()
             lbl = np.empty(adj.nnz)
             lbl[:] = k
             G.add_edges_from(
@@ -1075,7 +1078,7 @@ class MultiGraph(Graph):
                     adj.row,
                     adj.col,
                     lbl,
-                    [dict(weight=i, label=lbl_list[k]) for i in adj.data],
+                    [dict(weight=i, label=lbl_list[k]) for i in vals],
                 )
             )
 
-- 
2.43.0


From ae847092275e3219cfd1f045a5a728f697a2f876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:30 +0000
Subject: [PATCH 11/69] fix: give one expected number of edges per label in
 dense multigraph ensembles

---
 src/graph_ensembles/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index df3b200..366ee09 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1734,7 +1734,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         """Compute the expected number of edges with one parameter controlling
         for the density for each label.
         """
-        num_labels = len(prop_out)
+        num_labels = prop_out.shape[1]
         exp_edges = np.zeros(num_labels, dtype=np.float64)
 
         for k in range(num_labels):
-- 
2.43.0


From b02ee14ee8293e580442fa80b7015f4f8c9a46a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:04 +0000
Subject: [PATCH 12/69] fix: do not count reciprocal pairs twice in the
 expected degrees by label of sparse ensembles

---
 src/graph_ensembles/sparse/models/ensembles.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 424ee6e..5d89338 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -1015,20 +1015,23 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                         if key in exp_d:
                             exp_d[key] += p
                             exp_d_out[key] += pij
-                            exp_d_in[key] += pji
                         else:
                             exp_d[key] = p
                             exp_d_out[key] = pij
-                            exp_d_in[key] = pji
+                            exp_d_in[key] = 0.0
+
+                        # If the loops also visit the pair (j, i) then the
+                        # contribution to the degree of j is added there
+                        if np.any(loc_i) and np.any(loc_j):
+                            p = 0.0
 
                         key = (np.int64(j), np.int64(lbl))
                         if key in exp_d:
                             exp_d[key] += p
-                            exp_d_out[key] += pji
                             exp_d_in[key] += pij
                         else:
                             exp_d[key] = p
-                            exp_d_out[key] = pji
+                            exp_d_out[key] = 0.0
                             exp_d_in[key] = pij
 
                     elif selfloops:
-- 
2.43.0


From fb4b4a8d0558caf1f8a6ac3412780a5f69e3a8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:05 +0000
Subject: [PATCH 13/69] fix: average multidimensional neighbour properties of
 ensembles along the vertex axis

---
 src/graph_ensembles/models.py                  | 10 +++++-----
 src/graph_ensembles/spark/models.py            |  6 +++---
 src/graph_ensembles/sparse/models/ensembles.py |  2 +-
 src/graph_ensembles/sparse/models/random.py    |  8 ++++----
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 366ee09..7bfb0bc 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -218,7 +218,7 @@ class DiGraphEnsemble(GraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
@@ -791,13 +791,13 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError("Neighbourhood direction not recognised.")
 
         # Compute expected property
-        av_nn = np.empty(self.num_vertices, dtype=np.float64)
+        av_nn = np.empty(prop.shape, dtype=np.float64)
         if (ndir == "out") or (ndir == "in"):
-            av_nn[:] = np.sum(self.param[0] * prop)
+            av_nn[:] = np.sum(self.param[0] * prop, axis=0)
             if not self.selfloops:
                 av_nn += -self.param[0] * prop
         elif ndir == "out-in":
-            av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop)
+            av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop, axis=0)
             if not self.selfloops:
                 av_nn += -(2 * self.param[0] - self.param[0] ** 2) * prop
         else:
@@ -809,7 +809,7 @@ class RandomDiGraph(DiGraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index ece4f12..94cf8ee 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -247,7 +247,7 @@ class DiGraphEnsemble(GraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
@@ -1172,7 +1172,7 @@ class RandomDiGraph(DiGraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
@@ -2193,7 +2193,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 5d89338..26bbaf1 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -212,7 +212,7 @@ class DiGraphEnsemble(GraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 8dcebfe..d8fda35 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -251,13 +251,13 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError("Neighbourhood direction not recognised.")
 
         # Compute av_nn_prop
-        av_nn = np.empty(self.num_vertices, dtype=np.float64)
+        av_nn = np.empty(prop.shape, dtype=np.float64)
         if (ndir == "out") or (ndir == "in"):
-            av_nn[:] = np.sum(self.param[0] * prop)
+            av_nn[:] = np.sum(self.param[0] * prop, axis=0)
             if not self.selfloops:
                 av_nn += -self.param[0] * prop
         elif ndir == "out-in":
-            av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop)
+            av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop, axis=0)
             if not self.selfloops:
                 av_nn += -(2 * self.param[0] - self.param[0] ** 2) * prop
         else:
@@ -269,7 +269,7 @@ class RandomDiGraph(DiGraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
-- 
2.43.0


From 5f3e2495ff1d2e0f988c72aa926ffbfb995484ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:05 +0000
Subject: [PATCH 14/69] fix: self loops of random ensembles enter undirected
 neighbour averages with probability p

---
 src/graph_ensembles/models.py               | 5 +++--
 src/graph_ensembles/spark/models.py         | 5 +++--
 src/graph_ensembles/sparse/models/random.py | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 7bfb0bc..641abaf 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -798,8 +798,9 @@ class RandomDiGraph(DiGraphEnsemble):
                 av_nn += -self.param[0] * prop
         elif ndir == "out-in":
             av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop, axis=0)
-            if not self.selfloops:
-                av_nn += -(2 * self.param[0] - self.param[0] ** 2) * prop
+            av_nn -= (2 * self.param[0] - self.param[0] ** 2) * prop
+            if self.selfloops:
+                av_nn += self.param[0] * prop
         else:
             raise ValueError("Direction of neighbourhood not right.")
 
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 94cf8ee..fc35961 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1161,8 +1161,9 @@ class RandomDiGraph(DiGraphEnsemble):
                 av_nn -= self.param[0] * prop
         elif ndir == "out-in":
             av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop, axis=0)
-            if not self.selfloops:
-                av_nn -= (2 * self.param[0] - self.param[0] ** 2) * prop
+            av_nn -= (2 * self.param[0] - self.param[0] ** 2) * prop
+            if self.selfloops:
+                av_nn += self.param[0] * prop
         else:
             raise ValueError("Direction of neighbourhood not right.")
 
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index d8fda35..81e46b5 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -258,8 +258,9 @@ class RandomDiGraph(DiGraphEnsemble):
                 av_nn += -self.param[0] * prop
         elif ndir == "out-in":
             av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop, axis=0)
-            if not self.selfloops:
-                av_nn += -(2 * self.param[0] - self.param[0] ** 2) * prop
+            av_nn -= (2 * self.param[0] - self.param[0] ** 2) * prop
+            if self.selfloops:
+                av_nn += self.param[0] * prop
         else:
             raise ValueError("Direction of neighbourhood not right.")
 
-- 
2.43.0


From 69f61e7510dde57f53e7aa95d36de21b3c90488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:05 +0000
Subject: [PATCH 15/69] fix: do not answer expected_av_nn_degree with the
 result for another self-loops option

---
 src/graph_ensembles/models.py                 | 12 ++++++----
 src/graph_ensembles/spark/models.py           | 24 ++++++++++++-------
 .../sparse/models/ensembles.py                | 12 ++++++----
 3 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 641abaf..be11384 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -249,12 +249,15 @@ class DiGraphEnsemble(GraphEnsemble):
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
-        if not hasattr(self, name) or recompute or deg_recompute:
+        # The stored result is only valid for the same self-loops option
+        if selfloops is None:
+            selfloops = self.selfloops
+        stale = getattr(self, name + "_selfloops", selfloops) != selfloops
+
+        if not hasattr(self, name) or recompute or deg_recompute or stale:
             # Set selfloops option
             tmp_self = self.selfloops
-            if selfloops is None:
-                selfloops = self.selfloops
-            elif selfloops != self.selfloops:
+            if selfloops != self.selfloops:
                 deg_recompute = True
                 self.selfloops = selfloops
 
@@ -273,6 +276,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, name + "_selfloops", selfloops)
 
             # Restore model self-loops properties if they have been modified
             if tmp_self != self.selfloops:
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index fc35961..6dfc653 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -278,12 +278,15 @@ class DiGraphEnsemble(GraphEnsemble):
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
-        if not hasattr(self, name) or recompute or deg_recompute:
+        # The stored result is only valid for the same self-loops option
+        if selfloops is None:
+            selfloops = self.selfloops
+        stale = getattr(self, name + "_selfloops", selfloops) != selfloops
+
+        if not hasattr(self, name) or recompute or deg_recompute or stale:
             # Set selfloops option
             tmp_self = self.selfloops
-            if selfloops is None:
-                selfloops = self.selfloops
-            elif selfloops != self.selfloops:
+            if selfloops != self.selfloops:
                 deg_recompute = True
                 self.selfloops = selfloops
 
@@ -302,6 +305,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, name + "_selfloops", selfloops)
 
             # Restore model self-loops properties if they have been modified
             if tmp_self != self.selfloops:
@@ -2225,12 +2229,15 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
-        if not hasattr(self, name) or recompute or deg_recompute:
+        # The stored result is only valid for the same self-loops option
+        if selfloops is None:
+            selfloops = self.selfloops
+        stale = getattr(self, name + "_selfloops", selfloops) != selfloops
+
+        if not hasattr(self, name) or recompute or deg_recompute or stale:
             # Set selfloops option
             tmp_self = self.selfloops
-            if selfloops is None:
-                selfloops = self.selfloops
-            elif selfloops != self.selfloops:
+            if selfloops != self.selfloops:
                 deg_recompute = True
                 self.selfloops = selfloops
 
@@ -2249,6 +2256,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, name + "_selfloops", selfloops)
 
             # Restore model self-loops properties if they have been modified
             if tmp_self != self.selfloops:
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 26bbaf1..3de2a0e 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -243,12 +243,15 @@ class DiGraphEnsemble(GraphEnsemble):
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
-        if not hasattr(self, name) or recompute or deg_recompute:
+        # The stored result is only valid for the same self-loops option
+        if selfloops is None:
+            selfloops = self.selfloops
+        stale = getattr(self, name + "_selfloops", selfloops) != selfloops
+
+        if not hasattr(self, name) or recompute or deg_recompute or stale:
             # Set selfloops option
             tmp_self = self.selfloops
-            if selfloops is None:
-                selfloops = self.selfloops
-            elif selfloops != self.selfloops:
+            if selfloops != self.selfloops:
                 deg_recompute = True
                 self.selfloops = selfloops
 
@@ -267,6 +270,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, name + "_selfloops", selfloops)
 
             # Restore model self-loops properties if they have been modified
             if tmp_self != self.selfloops:
-- 
2.43.0


From c17dc46203b2b19079200a7f518861112c13093d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:05 +0000
Subject: [PATCH 16/69] fix: a rejected neighbourhood direction must not leave
 the self-loops option of an ensemble changed

---
 src/graph_ensembles/models.py                 | 14 +++++++++++
 src/graph_ensembles/spark/models.py           | 24 +++++++++++++++++++
 .../sparse/models/ensembles.py                | 10 ++++++++
 src/graph_ensembles/sparse/models/random.py   |  4 ++++
 4 files changed, 52 insertions(+)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index be11384..a421efb 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -182,6 +182,10 @@ class DiGraphEnsemble(GraphEnsemble):
             )
             raise ValueError(msg)
 
+        # Check direction before changing the state of the model
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
@@ -246,6 +250,12 @@ class DiGraphEnsemble(GraphEnsemble):
         if not hasattr(self, "param"):
             raise Exception("Model must be fitted beforehand.")
 
+        # Check directions before changing the state of the model
+        if ddir not in ("out", "in", "out-in"):
+            raise ValueError("Degree type not recognised.")
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
@@ -776,6 +786,10 @@ class RandomDiGraph(DiGraphEnsemble):
             )
             raise ValueError(msg)
 
+        # Check direction before changing the state of the model
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 6dfc653..ac68b2d 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -211,6 +211,10 @@ class DiGraphEnsemble(GraphEnsemble):
             )
             raise ValueError(msg)
 
+        # Check direction before changing the state of the model
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
@@ -275,6 +279,12 @@ class DiGraphEnsemble(GraphEnsemble):
         if not hasattr(self, "param"):
             raise Exception("Ensemble has to be fitted before.")
 
+        # Check directions before changing the state of the model
+        if ddir not in ("out", "in", "out-in"):
+            raise ValueError("Degree type not recognised.")
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
@@ -1139,6 +1149,10 @@ class RandomDiGraph(DiGraphEnsemble):
             )
             raise ValueError(msg)
 
+        # Check direction before changing the state of the model
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
@@ -2148,6 +2162,10 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             )
             raise ValueError(msg)
 
+        # Check direction before changing the state of the model
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
@@ -2226,6 +2244,12 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         if not hasattr(self, "param"):
             raise Exception("Ensemble has to be fitted before.")
 
+        # Check directions before changing the state of the model
+        if ddir not in ("out", "in", "out-in"):
+            raise ValueError("Degree type not recognised.")
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 3de2a0e..046cc11 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -176,6 +176,10 @@ class DiGraphEnsemble(GraphEnsemble):
             )
             raise ValueError(msg)
 
+        # Check direction before changing the state of the model
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
@@ -240,6 +244,12 @@ class DiGraphEnsemble(GraphEnsemble):
         if not hasattr(self, "param"):
             raise Exception("Model must be fitted beforehand.")
 
+        # Check directions before changing the state of the model
+        if ddir not in ("out", "in", "out-in"):
+            raise ValueError("Degree type not recognised.")
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 81e46b5..f447c48 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -232,6 +232,10 @@ class RandomDiGraph(DiGraphEnsemble):
             )
             raise ValueError(msg)
 
+        # Check direction before changing the state of the model
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
-- 
2.43.0


From 928394798cea78d3ccd4450df79c5e95eae0bc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:01 +0000
Subject: [PATCH 17/69] fix: log likelihood of random ensembles with link
 probability zero or one

---
 src/graph_ensembles/models.py               | 25 +++++++++++----------
 src/graph_ensembles/spark/models.py         | 23 ++++++++++---------
 src/graph_ensembles/sparse/models/random.py | 23 ++++++++++---------
 3 files changed, 39 insertions(+), 32 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index a421efb..e7c1841 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -867,24 +867,25 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError(msg)
 
         # Compute log likelihood of graph
-        if (self.param[0] == 0) and (np.count_nonzero(adj) > 0):
-            return -np.infty
-        if (self.param[0] == 1) and (np.count_nonzero(adj) != 0):
-            return -np.infty
-
-        like = np.count_nonzero(adj) * log(self.param[0])
+        num_links = np.count_nonzero(adj)
         if selfloops:
-            like += (self.num_vertices**2 - np.count_nonzero(adj)) * log1p(
-                -self.param[0]
-            )
+            num_pairs = self.num_vertices**2
         else:
-            like += (
-                self.num_vertices * (self.num_vertices - 1) - np.count_nonzero(adj)
-            ) * log1p(-self.param[0])
+            num_pairs = self.num_vertices * (self.num_vertices - 1)
             # Ensure that the matrix has no elements on the diagonal
             if np.count_nonzero(adj.ravel()[:: adj.shape[1] + 1]) > 0:
                 return -np.infty
 
+        if (self.param[0] == 0) and (num_links > 0):
+            return -np.infty
+        if (self.param[0] == 1) and (num_links < num_pairs):
+            return -np.infty
+        if (self.param[0] == 0) or (self.param[0] == 1):
+            return 0.0
+
+        like = num_links * log(self.param[0])
+        like += (num_pairs - num_links) * log1p(-self.param[0])
+
         return like
 
     def sample(
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index ac68b2d..21a7145 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1230,22 +1230,25 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError(msg)
 
         # Compute log likelihood of graph
-        if (self.param[0] == 0) and (adj.nnz > 0):
-            return -np.infty
-        if (self.param[0] == 1) and (adj.nnz != 0):
-            return -np.infty
-
-        like = adj.nnz * log(self.param[0])
+        num_links = adj.nnz
         if selfloops:
-            like += (self.num_vertices**2 - adj.nnz) * log1p(-self.param[0])
+            num_pairs = self.num_vertices**2
         else:
-            like += (self.num_vertices * (self.num_vertices - 1) - adj.nnz) * log1p(
-                -self.param[0]
-            )
+            num_pairs = self.num_vertices * (self.num_vertices - 1)
             # Ensure that the matrix has no elements on the diagonal
             if adj.diagonal().sum() > 0:
                 return -np.infty
 
+        if (self.param[0] == 0) and (num_links > 0):
+            return -np.infty
+        if (self.param[0] == 1) and (num_links < num_pairs):
+            return -np.infty
+        if (self.param[0] == 0) or (self.param[0] == 1):
+            return 0.0
+
+        like = num_links * log(self.param[0])
+        like += (num_pairs - num_links) * log1p(-self.param[0])
+
         return like
 
     def sample(
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index f447c48..d8107dc 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -313,22 +313,25 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError(msg)
 
         # Compute log likelihood of graph
-        if (self.param[0] == 0) and (adj.nnz > 0):
-            return -np.infty
-        if (self.param[0] == 1) and (adj.nnz != 0):
-            return -np.infty
-
-        like = adj.nnz * log(self.param[0])
+        num_links = adj.nnz
         if selfloops:
-            like += (self.num_vertices**2 - adj.nnz) * log1p(-self.param[0])
+            num_pairs = self.num_vertices**2
         else:
-            like += (self.num_vertices * (self.num_vertices - 1) - adj.nnz) * log1p(
-                -self.param[0]
-            )
+            num_pairs = self.num_vertices * (self.num_vertices - 1)
             # Ensure that the matrix has no elements on the diagonal
             if adj.diagonal().sum() > 0:
                 return -np.infty
 
+        if (self.param[0] == 0) and (num_links > 0):
+            return -np.infty
+        if (self.param[0] == 1) and (num_links < num_pairs):
+            return -np.infty
+        if (self.param[0] == 0) or (self.param[0] == 1):
+            return 0.0
+
+        like = num_links * log(self.param[0])
+        like += (num_pairs - num_links) * log1p(-self.param[0])
+
         return like
 
     def sample(
-- 
2.43.0


From 6aa2b7aab572b9ab27ea42fc03667e31e558ebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:41 +0000
Subject: [PATCH 18/69] fix: do not count zeros stored in a sparse adjacency
 matrix as links in log likelihoods

---
 src/graph_ensembles/spark/models.py              | 12 ++++++------
 src/graph_ensembles/sparse/models/conditional.py |  2 +-
 src/graph_ensembles/sparse/models/ensembles.py   |  6 +++---
 src/graph_ensembles/sparse/models/random.py      |  2 +-
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 21a7145..d1b189c 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -343,7 +343,7 @@ class DiGraphEnsemble(GraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr") != 0
         elif isinstance(g, np.ndarray):
             adj = sp.csr_matrix(g)
         else:
@@ -412,7 +412,7 @@ class DiGraphEnsemble(GraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr") != 0
         elif isinstance(g, np.ndarray):
             adj = sp.csr_matrix(g)
         else:
@@ -1213,7 +1213,7 @@ class RandomDiGraph(DiGraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr") != 0
         elif isinstance(g, np.ndarray):
             adj = sp.csr_matrix(g)
         else:
@@ -2316,7 +2316,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             adj = g.adjacency_matrix(directed=True, weighted=False)
             tensor = False
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr") != 0
             tensor = False
         elif isinstance(g, np.ndarray):
             if g.ndim == 3:
@@ -2328,7 +2328,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             else:
                 raise ValueError("Adjacency array is neither 2 nor 3 dimensional.")
         elif isinstance(g, list):
-            adj = [sp.csr_matrix(x) for x in g]
+            adj = [sp.csr_matrix(x) != 0 for x in g]
             tensor = True
         else:
             raise ValueError("g input not a graph or adjacency matrix.")
@@ -2453,7 +2453,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr") != 0
         elif isinstance(g, np.ndarray):
             adj = sp.csr_matrix(g)
         else:
diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 5fd068c..10b78db 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -278,7 +278,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr") != 0
         elif isinstance(g, np.ndarray):
             adj = sp.csr_array(g)
         else:
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 046cc11..2cc3ed3 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -308,7 +308,7 @@ class DiGraphEnsemble(GraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr") != 0
         elif isinstance(g, np.ndarray):
             adj = sp.csr_array(g)
         else:
@@ -729,7 +729,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             adj = g.adjacency_matrix(directed=True, weighted=False)
             tensor = False
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr") != 0
             tensor = False
         elif isinstance(g, np.ndarray):
             if g.ndim == 3:
@@ -741,7 +741,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             else:
                 raise ValueError("Adjacency array is neither 2 nor 3 dimensional.")
         elif isinstance(g, list):
-            adj = [sp.csr_array(x) for x in g]
+            adj = [sp.csr_array(x) != 0 for x in g]
             tensor = True
         else:
             raise ValueError("g input not a graph or adjacency matrix.")
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index d8107dc..8debf29 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -296,7 +296,7 @@ class RandomDiGraph(DiGraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr") != 0
         elif isinstance(g, np.ndarray):
             adj = sp.csr_array(g)
         else:
-- 
2.43.0


From a095516f4074888ed21131932401041b1d4bf87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:41 +0000
Subject: [PATCH 19/69] fix: accept lists of sparse layers and sparse matrices
 in dense ensembles

---
 src/graph_ensembles/models.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index e7c1841..cc51a96 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -314,7 +314,7 @@ class DiGraphEnsemble(GraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.todense() != 0
+            adj = g.toarray() != 0
         elif isinstance(g, np.ndarray):
             adj = g != 0
         else:
@@ -850,7 +850,7 @@ class RandomDiGraph(DiGraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.todense()
+            adj = g.toarray()
         elif isinstance(g, np.ndarray):
             adj = g != 0
         else:
@@ -1567,7 +1567,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             adj = g.adjacency_matrix(directed=True, weighted=False)
             tensor = False
         elif sp.issparse(g):
-            adj = g.todense()
+            adj = g.toarray()
             tensor = False
         elif isinstance(g, np.ndarray):
             if g.ndim == 3:
@@ -1579,7 +1579,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             else:
                 raise ValueError("Adjacency array is neither 2 nor 3 dimensional.")
         elif isinstance(g, list) and sp.issparse(g[0]):
-            adj = [x.todense() for x in g]
+            adj = np.array([x.toarray() for x in g])
             tensor = True
         else:
             raise ValueError("g input not a graph or adjacency matrix.")
@@ -1683,7 +1683,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         else:
             # Check dimensions
             if sp.issparse(out_strength_label):
-                out_strength_label = out_strength_label.todense()
+                out_strength_label = out_strength_label.toarray()
 
             if isinstance(out_strength_label, np.ndarray):
                 msg = (
@@ -1702,7 +1702,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             s_in_l = self.prop_in
         else:
             if sp.issparse(in_strength_label):
-                in_strength_label = in_strength_label.todense()
+                in_strength_label = in_strength_label.toarray()
 
             if isinstance(in_strength_label, np.ndarray):
                 msg = (
@@ -2020,9 +2020,9 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
 
         # Convert to dense arrays
         if sp.issparse(self.prop_out):
-            self.prop_out = self.prop_out.todense()
+            self.prop_out = self.prop_out.toarray()
         if sp.issparse(self.prop_in):
-            self.prop_in = self.prop_in.todense()
+            self.prop_in = self.prop_in.toarray()
 
         # Ensure that all fitness are positive
         if np.any(self.prop_out < 0):
-- 
2.43.0


From 571a1f32b2a2c95fc75c28625c80586c1bdd8204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:41 +0000
Subject: [PATCH 20/69] fix: use the self-loops option given to log_likelihood

---
 src/graph_ensembles/models.py                  | 2 +-
 src/graph_ensembles/sparse/models/ensembles.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index cc51a96..73afb7b 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -339,7 +339,7 @@ class DiGraphEnsemble(GraphEnsemble):
             self.prop_in,
             self.prop_dyad,
             adj,
-            self.selfloops,
+            selfloops,
         )
 
         return like
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 2cc3ed3..a5685e3 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -334,7 +334,7 @@ class DiGraphEnsemble(GraphEnsemble):
             self.prop_dyad,
             adj.indptr,
             adj.indices,
-            self.selfloops,
+            selfloops,
         )
 
         return like
-- 
2.43.0


From fcac627f3eeea6cbf00237292dc302d983d0295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:49 +0000
Subject: [PATCH 21/69] fix: use the self-loops option given to sample

---
 src/graph_ensembles/models.py                  | 16 ++++++++--------
 src/graph_ensembles/spark/models.py            |  8 ++++----
 src/graph_ensembles/sparse/models/ensembles.py |  8 ++++----
 src/graph_ensembles/sparse/models/random.py    |  8 ++++----
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 73afb7b..a9696c4 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -393,7 +393,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 self.prop_out,
                 self.prop_in,
                 self.prop_dyad,
-                self.selfloops,
+                selfloops,
             )
             g.adj = np.zeros((g.num_vertices, g.num_vertices), dtype=bool)
             g.adj[rows, cols] = True
@@ -410,7 +410,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 self.prop_dyad,
                 out_strength,
                 in_strength,
-                self.selfloops,
+                selfloops,
             )
             g.adj = np.zeros((g.num_vertices, g.num_vertices))
             g.adj[rows, cols] = vals
@@ -932,7 +932,7 @@ class RandomDiGraph(DiGraphEnsemble):
         # Sample edges
         if weights is None:
             rows, cols = self._binary_sample(
-                self.param, self.num_vertices, self.selfloops
+                self.param, self.num_vertices, selfloops
             )
             g.adj = np.zeros((g.num_vertices, g.num_vertices), dtype=bool)
             g.adj[rows, cols] = True
@@ -940,11 +940,11 @@ class RandomDiGraph(DiGraphEnsemble):
             g.adj = np.zeros((g.num_vertices, g.num_vertices))
             if self.discrete_weights:
                 rows, cols, vals = self._discrete_weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
             else:
                 rows, cols, vals = self._weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
             g.adj[rows, cols] = vals
         elif weights == "cremb":
@@ -954,7 +954,7 @@ class RandomDiGraph(DiGraphEnsemble):
             if in_strength is None:
                 in_strength = self.prop_in
             rows, cols, vals = self._cremb_sample(
-                self.param, self.num_vertices, out_strength, in_strength, self.selfloops
+                self.param, self.num_vertices, out_strength, in_strength, selfloops
             )
             g.adj[rows, cols] = vals
         else:
@@ -1725,7 +1725,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                 self.prop_out,
                 self.prop_in,
                 self.prop_dyad,
-                self.selfloops,
+                selfloops,
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "cremb":
@@ -1737,7 +1737,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                 self.prop_dyad,
                 s_out_l,
                 s_in_l,
-                self.selfloops,
+                selfloops,
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index d1b189c..7fa8ac4 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1295,17 +1295,17 @@ class RandomDiGraph(DiGraphEnsemble):
         # Sample edges
         if weights is None:
             rows, cols = self._binary_sample(
-                self.param, self.num_vertices, self.selfloops
+                self.param, self.num_vertices, selfloops
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "random":
             if self.discrete_weights:
                 rows, cols, vals = self._discrete_weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
             else:
                 rows, cols, vals = self._weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
         elif weights == "cremb":
             if out_strength is None:
@@ -1313,7 +1313,7 @@ class RandomDiGraph(DiGraphEnsemble):
             if in_strength is None:
                 in_strength = self.prop_in
             rows, cols, vals = self._cremb_sample(
-                self.param, self.num_vertices, out_strength, in_strength, self.selfloops
+                self.param, self.num_vertices, out_strength, in_strength, selfloops
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index a5685e3..d59ed63 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -388,7 +388,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 self.prop_out,
                 self.prop_in,
                 self.prop_dyad,
-                self.selfloops,
+                selfloops,
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "cremb":
@@ -404,7 +404,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 self.prop_dyad,
                 out_strength,
                 in_strength,
-                self.selfloops,
+                selfloops,
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
@@ -938,7 +938,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     prop_out[i],
                     prop_in[i],
                     self.prop_dyad,
-                    self.selfloops,
+                    selfloops,
                 )
                 vals = np.ones(len(rows), dtype=bool)
             elif weights == "cremb":
@@ -950,7 +950,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     self.prop_dyad,
                     s_out_l[i],
                     s_in_l[i],
-                    self.selfloops,
+                    selfloops,
                 )
             else:
                 raise ValueError("Weights method not recognised or implemented.")
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 8debf29..579b85b 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -378,17 +378,17 @@ class RandomDiGraph(DiGraphEnsemble):
         # Sample edges
         if weights is None:
             rows, cols = self._binary_sample(
-                self.param, self.num_vertices, self.selfloops
+                self.param, self.num_vertices, selfloops
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "random":
             if self.discrete_weights:
                 rows, cols, vals = self._discrete_weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
             else:
                 rows, cols, vals = self._weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
         elif weights == "cremb":
             if out_strength is None:
@@ -396,7 +396,7 @@ class RandomDiGraph(DiGraphEnsemble):
             if in_strength is None:
                 in_strength = self.prop_in
             rows, cols, vals = self._cremb_sample(
-                self.param, self.num_vertices, out_strength, in_strength, self.selfloops
+                self.param, self.num_vertices, out_strength, in_strength, selfloops
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
-- 
2.43.0


From 0ef07c7dfd3271e562a253309d06fb2058f2958e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:29 +0000
Subject: [PATCH 22/69] fix: log probability of a missing link must stay finite
 for large fitness products

---
 src/graph_ensembles/models.py                | 4 ++--
 src/graph_ensembles/spark/models.py          | 4 ++--
 src/graph_ensembles/sparse/models/fitness.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index a9696c4..6658e78 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1361,7 +1361,7 @@ class FitnessModel(DiGraphEnsemble):
         if isinf(tmp):
             return -np.infty
         else:
-            return log1p(-tmp / (1 + tmp))
+            return -log1p(tmp)
 
 
 class ScaleInvariantModel(FitnessModel):
@@ -2445,7 +2445,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         if isinf(tmp):
             return -np.infty
         else:
-            return log1p(-tmp / (1 + tmp))
+            return -log1p(tmp)
 
 
 class MultiInvariantModel(MultiFitnessModel):
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 7fa8ac4..0b536de 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1806,7 +1806,7 @@ class FitnessModel(DiGraphEnsemble):
         if isinf(tmp):
             return -np.infty
         else:
-            return log1p(-tmp / (1 + tmp))
+            return -log1p(tmp)
 
 
 class ScaleInvariantModel(FitnessModel):
@@ -3883,7 +3883,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         if isinf(tmp):
             return -np.infty
         else:
-            return log1p(-tmp / (1 + tmp))
+            return -log1p(tmp)
 
 
 class MultiInvariantModel(MultiFitnessModel):
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index 6a02a46..0bd4c3b 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -325,7 +325,7 @@ class FitnessModel(DiGraphEnsemble):
         if isinf(tmp):
             return -np.infty
         else:
-            return log1p(-tmp / (1 + tmp))
+            return -log1p(tmp)
 
 
 class MultiFitnessModel(MultiDiGraphEnsemble):
@@ -1003,4 +1003,4 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         if isinf(tmp):
             return -np.infty
         else:
-            return log1p(-tmp / (1 + tmp))
+            return -log1p(tmp)
-- 
2.43.0


From 88f7138a3bda0666dfe2a6c99ad591c6078c8474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:30 +0000
Subject: [PATCH 23/69] fix: sort the labels of sparse fitness arrays of
 multigraph ensembles

---
 src/graph_ensembles/spark/models.py          | 8 +++++---
 src/graph_ensembles/sparse/models/fitness.py | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 0b536de..7a9f093 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3294,9 +3294,11 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         assert isinstance(self.prop_in, np.ndarray) or sp.issparse(self.prop_in), msg
         assert self.prop_in.shape == (self.num_vertices, self.num_labels), msg
 
-        # Convert to csr matrices
-        self.prop_out = sp.csr_matrix(self.prop_out)
-        self.prop_in = sp.csr_matrix(self.prop_in)
+        # Convert to csr matrices with sorted labels
+        self.prop_out = sp.csr_matrix(self.prop_out, copy=True)
+        self.prop_out.sum_duplicates()
+        self.prop_in = sp.csr_matrix(self.prop_in, copy=True)
+        self.prop_in.sum_duplicates()
 
         # Ensure that all fitness are positive
         if np.any(self.prop_out.data < 0):
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index 0bd4c3b..b0b357f 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -466,9 +466,11 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         assert isinstance(self.prop_in, np.ndarray) or sp.issparse(self.prop_in), msg
         assert self.prop_in.shape == (self.num_vertices, self.num_labels), msg
 
-        # Convert to csr matrices
-        self.prop_out = sp.csr_array(self.prop_out)
-        self.prop_in = sp.csr_array(self.prop_in)
+        # Convert to csr matrices with sorted labels
+        self.prop_out = sp.csr_array(self.prop_out, copy=True)
+        self.prop_out.sum_duplicates()
+        self.prop_in = sp.csr_array(self.prop_in, copy=True)
+        self.prop_in.sum_duplicates()
 
         # Ensure that all fitness are positive
         if np.any(self.prop_out.data < 0):
-- 
2.43.0


From 9e9e5914fb908ee7f914e364f398a382ee9d70e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:19 +0000
Subject: [PATCH 24/69] fix: return the weights sampled from random ensembles

---
 src/graph_ensembles/models.py               | 6 ++++--
 src/graph_ensembles/spark/models.py         | 6 ++++--
 src/graph_ensembles/sparse/models/random.py | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 6658e78..dc22936 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -994,7 +994,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(1 / param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -1012,7 +1012,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.geometric(1 - param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -1033,6 +1033,8 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(s_out[i] * s_in[j] / (s_tot * p)))
 
+        return rows, cols, vals
+
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
     def p_ij(param, x_i, y_j, z_ij):
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 7a9f093..bc7e684 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1357,7 +1357,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(1 / param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -1375,7 +1375,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.geometric(1 - param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -1396,6 +1396,8 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(s_out[i] * s_in[j] / (s_tot * p)))
 
+        return rows, cols, vals
+
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
     def p_ij(param, x_i, y_j, z_ij):
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 579b85b..2b094a7 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -440,7 +440,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(1 / param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -458,7 +458,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.geometric(1 - param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -482,6 +482,8 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(s_out[i] * s_in[j] / (s_tot * p)))
 
+        return rows, cols, vals
+
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
     def p_ij(param, x_i, y_j, z_ij):
-- 
2.43.0


From a241f965eb27195435568a1971a317254049c029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:19 +0000
Subject: [PATCH 25/69] fix: expected total weight of random ensembles

---
 src/graph_ensembles/models.py               | 4 ++--
 src/graph_ensembles/spark/models.py         | 4 ++--
 src/graph_ensembles/sparse/models/random.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index dc22936..4926a72 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -734,9 +734,9 @@ class RandomDiGraph(DiGraphEnsemble):
             raise Exception("Ensemble has to be fitted before.")
 
         if self.discrete_weights:
-            self.exp_tot_weight = self.num_edges / (1 - self.q)
+            self.exp_tot_weight = self.expected_num_edges() / (1 - self.param[1])
         else:
-            self.exp_tot_weight = self.num_edges / self.q
+            self.exp_tot_weight = self.expected_num_edges() / self.param[1]
 
         return self.exp_tot_weight
 
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index bc7e684..e996846 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1094,9 +1094,9 @@ class RandomDiGraph(DiGraphEnsemble):
             raise Exception("Ensemble has to be fitted before.")
 
         if self.discrete_weights:
-            self.exp_tot_weight = self.num_edges / (1 - self.q)
+            self.exp_tot_weight = self.expected_num_edges() / (1 - self.param[1])
         else:
-            self.exp_tot_weight = self.num_edges / self.q
+            self.exp_tot_weight = self.expected_num_edges() / self.param[1]
 
         return self.exp_tot_weight
 
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 2b094a7..2d1cfda 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -180,9 +180,9 @@ class RandomDiGraph(DiGraphEnsemble):
             raise Exception("Ensemble has to be fitted before.")
 
         if self.discrete_weights:
-            self.exp_tot_weight = self.num_edges / (1 - self.q)
+            self.exp_tot_weight = self.expected_num_edges() / (1 - self.param[1])
         else:
-            self.exp_tot_weight = self.num_edges / self.q
+            self.exp_tot_weight = self.expected_num_edges() / self.param[1]
 
         return self.exp_tot_weight
 
-- 
2.43.0


From 8a08a61c462489e979e0c89fcc3683da659ee949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:35 +0000
Subject: [PATCH 26/69] fix: sample weights of dense multigraph ensembles layer
 by layer

---
 src/graph_ensembles/models.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 4926a72..357527a 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1853,20 +1853,20 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
-    def _cremb_sample_layer(
+    def _cremb_sample_tensor(
         p_ijk, param, prop_out, prop_in, prop_dyad, s_out, s_in, selfloops
     ):
         """Sample from the ensemble with weights from the CremB model."""
-        s_tot = np.sum(s_out[1])
-        msg = "Sum of in/out strengths not the same."
-        assert np.abs(1 - np.sum(s_in[1]) / s_tot) < 1e-6, msg
-
         lbls = List()
         rows = List()
         cols = List()
         vals = List()
 
         for k in range(prop_out.shape[1]):
+            s_tot = np.sum(s_out[:, k])
+            msg = "Sum of in/out strengths not the same."
+            assert np.abs(s_tot - np.sum(s_in[:, k])) <= 1e-6 * s_tot, msg
+
             for i, p_out_i in enumerate(prop_out[:, k]):
                 for j, p_in_j in enumerate(prop_in[:, k]):
                     if (i != j) | selfloops:
-- 
2.43.0


From 38c3139a1546196c8bf8894c6eed948cfe81e257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:35 +0000
Subject: [PATCH 27/69] fix: sample layers of multigraph ensembles with
 vertices without strength

---
 src/graph_ensembles/spark/models.py            | 4 ++--
 src/graph_ensembles/sparse/models/ensembles.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index e996846..40e22d8 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3109,7 +3109,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         """Sample from the ensemble."""
         s_tot = np.sum(s_out_val)
         msg = "Sum of in/out strengths not the same."
-        assert np.abs(1 - np.sum(s_in_val) / s_tot) < 1e-6, msg
+        assert np.abs(s_tot - np.sum(s_in_val)) <= 1e-6 * s_tot, msg
 
         rows = List()
         cols = List()
@@ -3123,7 +3123,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                         cols.append(j)
                         ind_out = s_out_ind == i
                         ind_in = s_in_ind == j
-                        if np.any(ind_out) or np.any(ind_in):
+                        if np.any(ind_out) and np.any(ind_in):
                             vals.append(
                                 rng.exponential(
                                     s_out_val[ind_out][0]
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index d59ed63..9e33106 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -1141,7 +1141,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         """Sample from the ensemble with weights from the CremB model."""
         s_tot = np.sum(s_out[1])
         msg = "Sum of in/out strengths not the same."
-        assert np.abs(1 - np.sum(s_in[1]) / s_tot) < 1e-6, msg
+        assert np.abs(s_tot - np.sum(s_in[1])) <= 1e-6 * s_tot, msg
 
         rows = List()
         cols = List()
@@ -1156,7 +1156,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                         cols.append(j)
                         ind_out = s_out[0] == i
                         ind_in = s_in[0] == j
-                        if np.any(ind_out) or np.any(ind_in):
+                        if np.any(ind_out) and np.any(ind_in):
                             vals.append(
                                 rng.exponential(
                                     s_out[1][ind_out][0]
-- 
2.43.0


From 87085a2cb7ba1347ae29ed068cf5aa693aa836c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:35 +0000
Subject: [PATCH 28/69] fix: use the self-loops option given to sample of spark
 multigraph ensembles

---
 src/graph_ensembles/spark/models.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 40e22d8..4251c30 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -2599,7 +2599,6 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
         if weights is None:
             e_fun = self._binary_sample_layer
-            selfloops = self.selfloops
             p_ijk = self.p_ijk
             pdyad = self.prop_dyad
             delta = self.param
@@ -2627,7 +2626,6 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
         elif weights == "cremb":
             e_fun = self._cremb_sample_layer
-            selfloops = self.selfloops
             p_ijk = self.p_ijk
             pdyad = self.prop_dyad
             delta = self.param
-- 
2.43.0


From cfa98a952a1ebdca2347aaf4dff6621fef87857e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:12 +0000
Subject: [PATCH 29/69] fix: record in sampled graphs whether they are weighted

---
 src/graph_ensembles/models.py                    | 3 +++
 src/graph_ensembles/spark/models.py              | 3 +++
 src/graph_ensembles/sparse/models/conditional.py | 1 +
 src/graph_ensembles/sparse/models/ensembles.py   | 2 ++
 src/graph_ensembles/sparse/models/random.py      | 1 +
 5 files changed, 10 insertions(+)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 357527a..4267eed 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -368,6 +368,7 @@ class DiGraphEnsemble(GraphEnsemble):
 
         # Initialise common object attributes
         g.num_vertices = self.num_vertices
+        g.weighted = weights is not None
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
 
@@ -912,6 +913,7 @@ class RandomDiGraph(DiGraphEnsemble):
 
         # Initialise common object attributes
         g.num_vertices = self.num_vertices
+        g.weighted = weights is not None
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
 
@@ -1655,6 +1657,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
         # Initialise common object attributes
         g.num_vertices = self.num_vertices
+        g.weighted = weights is not None
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
         g.num_labels = self.num_labels
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 4251c30..3c1a97b 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -483,6 +483,7 @@ class DiGraphEnsemble(GraphEnsemble):
 
         # Initialise common object attributes
         g.num_vertices = self.num_vertices
+        g.weighted = weights is not None
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
 
@@ -1275,6 +1276,7 @@ class RandomDiGraph(DiGraphEnsemble):
 
         # Initialise common object attributes
         g.num_vertices = self.num_vertices
+        g.weighted = weights is not None
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
 
@@ -2530,6 +2532,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
         # Initialise common object attributes
         g.num_vertices = self.num_vertices
+        g.weighted = weights is not None
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
         g.num_labels = self.num_labels
diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 10b78db..c4c73bb 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -354,6 +354,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
         # Initialise common object attributes
         g.num_vertices = self.num_vertices
+        g.weighted = weights is not None
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
 
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 9e33106..be09b7b 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -363,6 +363,7 @@ class DiGraphEnsemble(GraphEnsemble):
 
         # Initialise common object attributes
         g.num_vertices = self.num_vertices
+        g.weighted = weights is not None
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
 
@@ -848,6 +849,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
         # Initialise common object attributes
         g.num_vertices = self.num_vertices
+        g.weighted = weights is not None
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
         g.num_labels = self.num_labels
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 2d1cfda..d30b5ec 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -358,6 +358,7 @@ class RandomDiGraph(DiGraphEnsemble):
 
         # Initialise common object attributes
         g.num_vertices = self.num_vertices
+        g.weighted = weights is not None
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
 
-- 
2.43.0


From 22a741740ac177d9fc371802352e235ee678b829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:35 +0000
Subject: [PATCH 30/69] fix: binary samples of dense multigraph ensembles are
 unweighted graphs

---
 src/graph_ensembles/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 4267eed..b7a425e 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1748,7 +1748,8 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             raise ValueError("Weights method not recognised or implemented.")
 
         # Convert to adjacency matrix
-        g.adj = np.zeros((g.num_labels, g.num_vertices, g.num_vertices))
+        dtype = bool if weights is None else np.float64
+        g.adj = np.zeros((g.num_labels, g.num_vertices, g.num_vertices), dtype=dtype)
         g.adj[lbls, rows, cols] = vals
 
         return g
-- 
2.43.0


From 32c6d5c7656c1bf0f9ad30ddb52890d67e4826fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:23 +0000
Subject: [PATCH 31/69] fix: compile the strength weighted sampler of sparse
 random ensembles

---
 src/graph_ensembles/sparse/models/random.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index d30b5ec..62768a5 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -471,9 +471,6 @@ class RandomDiGraph(DiGraphEnsemble):
         rows = []
         cols = []
         vals = []
-        rows = []
-        cols = []
-        vals = []
         p = param[0]
         for i in range(num_v):
             for j in range(num_v):
-- 
2.43.0


From ef3b892dd90a403a104d3639b25205e75049ed60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:16 +0000
Subject: [PATCH 32/69] fix: sampled weights must not overflow for large
 integer strengths

---
 src/graph_ensembles/models.py                  | 6 +++---
 src/graph_ensembles/spark/models.py            | 6 +++---
 src/graph_ensembles/sparse/models/ensembles.py | 4 ++--
 src/graph_ensembles/sparse/models/random.py    | 2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index b7a425e..92b317e 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -559,7 +559,7 @@ class DiGraphEnsemble(GraphEnsemble):
                     if rng.random() < p:
                         rows.append(i)
                         cols.append(j)
-                        vals.append(rng.exponential(s_out[i] * s_in[j] / (s_tot * p)))
+                        vals.append(rng.exponential(s_out[i] / (s_tot * p) * s_in[j]))
 
         return rows, cols, vals
 
@@ -1033,7 +1033,7 @@ class RandomDiGraph(DiGraphEnsemble):
                     if rng.random() < p:
                         rows.append(i)
                         cols.append(j)
-                        vals.append(rng.exponential(s_out[i] * s_in[j] / (s_tot * p)))
+                        vals.append(rng.exponential(s_out[i] / (s_tot * p) * s_in[j]))
 
         return rows, cols, vals
 
@@ -1880,7 +1880,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                             rows.append(i)
                             cols.append(j)
                             vals.append(
-                                rng.exponential(s_out[i, k] * s_in[j, k] / (s_tot * p))
+                                rng.exponential(s_out[i, k] / (s_tot * p) * s_in[j, k])
                             )
 
         return lbls, rows, cols, vals
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 3c1a97b..fe6e4b2 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -843,7 +843,7 @@ class DiGraphEnsemble(GraphEnsemble):
                         rows.append(ind_i)
                         cols.append(ind_j)
                         vals.append(
-                            rng.exponential(s_out[ind_i] * s_in[ind_j] / (s_tot * p))
+                            rng.exponential(s_out[ind_i] / (s_tot * p) * s_in[ind_j])
                         )
 
         return rows, cols, vals
@@ -1396,7 +1396,7 @@ class RandomDiGraph(DiGraphEnsemble):
                     if rng.random() < p:
                         rows.append(i)
                         cols.append(j)
-                        vals.append(rng.exponential(s_out[i] * s_in[j] / (s_tot * p)))
+                        vals.append(rng.exponential(s_out[i] / (s_tot * p) * s_in[j]))
 
         return rows, cols, vals
 
@@ -3128,8 +3128,8 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                             vals.append(
                                 rng.exponential(
                                     s_out_val[ind_out][0]
-                                    * s_in_val[ind_in][0]
                                     / (s_tot * p)
+                                    * s_in_val[ind_in][0]
                                 )
                             )
                         else:
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index be09b7b..98a9220 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -561,7 +561,7 @@ class DiGraphEnsemble(GraphEnsemble):
                     if rng.random() < p:
                         rows.append(i)
                         cols.append(j)
-                        vals.append(rng.exponential(s_out[i] * s_in[j] / (s_tot * p)))
+                        vals.append(rng.exponential(s_out[i] / (s_tot * p) * s_in[j]))
 
         return rows, cols, vals
 
@@ -1162,8 +1162,8 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                             vals.append(
                                 rng.exponential(
                                     s_out[1][ind_out][0]
-                                    * s_in[1][ind_in][0]
                                     / (s_tot * p)
+                                    * s_in[1][ind_in][0]
                                 )
                             )
                         else:
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 62768a5..d113cea 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -478,7 +478,7 @@ class RandomDiGraph(DiGraphEnsemble):
                     if rng.random() < p:
                         rows.append(i)
                         cols.append(j)
-                        vals.append(rng.exponential(s_out[i] * s_in[j] / (s_tot * p)))
+                        vals.append(rng.exponential(s_out[i] / (s_tot * p) * s_in[j]))
 
         return rows, cols, vals
 
-- 
2.43.0


From ac46076a21d80c7971a30a3e6f4a278d56a37049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:08 +0000
Subject: [PATCH 33/69] fix: do not divide by the absolute tolerance where the
 function is flat

---
 src/graph_ensembles/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_ensembles/solver.py b/src/graph_ensembles/solver.py
index 052aff5..40909fb 100644
--- a/src/graph_ensembles/solver.py
+++ b/src/graph_ensembles/solver.py
@@ -182,7 +182,8 @@ def monotonic_newton_solver(
         if f_p != 0:
             dx = -f / f_p
         else:
-            dx = -f / atol
+            # Flat function: take a step large enough to leave any bracket
+            dx = -f * 1e24
 
         # Check that new x exists within the bound (x_u, x_l)
         # otherwise use secant method
-- 
2.43.0


From bbfc89ed835c5deae114313d203c2be95172b78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:54 +0000
Subject: [PATCH 34/69] fix: products of large integer fitnesses must not
 overflow

---
 src/graph_ensembles/models.py                    | 8 ++++++++
 src/graph_ensembles/spark/models.py              | 8 ++++++++
 src/graph_ensembles/sparse/models/conditional.py | 4 ++++
 src/graph_ensembles/sparse/models/fitness.py     | 8 ++++++++
 4 files changed, 28 insertions(+)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 92b317e..2378197 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1170,6 +1170,10 @@ class FitnessModel(DiGraphEnsemble):
         msg = "Node in properties must contain positive values only."
         assert np.all(self.prop_in >= 0), msg
 
+        # Ensure that products of fitnesses do not overflow
+        self.prop_out = self.prop_out.astype(np.float64)
+        self.prop_in = self.prop_in.astype(np.float64)
+
         # Ensure that number of edges is a positive number
         if hasattr(self, "num_edges"):
             try:
@@ -2037,6 +2041,10 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         if np.any(self.prop_in < 0):
             raise ValueError("Node in properties must contain positive values only.")
 
+        # Ensure that products of fitnesses do not overflow
+        self.prop_out = self.prop_out.astype(np.float64)
+        self.prop_in = self.prop_in.astype(np.float64)
+
         # If num_edges is an array check if it has a single value or
         # one for each label.
         if hasattr(self, "num_edges"):
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index fe6e4b2..5cefcde 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1544,6 +1544,10 @@ class FitnessModel(DiGraphEnsemble):
         msg = "Node in properties must contain positive values only."
         assert np.all(self.prop_in >= 0), msg
 
+        # Ensure that products of fitnesses do not overflow
+        self.prop_out = self.prop_out.astype(np.float64)
+        self.prop_in = self.prop_in.astype(np.float64)
+
         # Ensure that number of edges is a positive number
         if hasattr(self, "num_edges"):
             try:
@@ -3310,6 +3314,10 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         if np.any(self.prop_in.data < 0):
             raise ValueError("Node in properties must contain positive values only.")
 
+        # Ensure that products of fitnesses do not overflow
+        self.prop_out = self.prop_out.astype(np.float64)
+        self.prop_in = self.prop_in.astype(np.float64)
+
         # If num_edges is an array check if it has a single value or
         # one for each label.
         if hasattr(self, "num_edges"):
diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index c4c73bb..f796a9b 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -153,6 +153,10 @@ class ConditionalInvariantModel(ScaleInvariantModel):
         msg = "Node in properties must contain positive values only."
         assert np.all(self.prop_in >= 0), msg
 
+        # Ensure that products of fitnesses do not overflow
+        self.prop_out = self.prop_out.astype(np.float64)
+        self.prop_in = self.prop_in.astype(np.float64)
+
         # Ensure that number of edges is a positive number
         if hasattr(self, "num_edges"):
             try:
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index b0b357f..a4005c2 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -125,6 +125,10 @@ class FitnessModel(DiGraphEnsemble):
         msg = "Node in properties must contain positive values only."
         assert np.all(self.prop_in >= 0), msg
 
+        # Ensure that products of fitnesses do not overflow
+        self.prop_out = self.prop_out.astype(np.float64)
+        self.prop_in = self.prop_in.astype(np.float64)
+
         # Ensure that number of edges is a positive number
         if hasattr(self, "num_edges"):
             try:
@@ -479,6 +483,10 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         if np.any(self.prop_in.data < 0):
             raise ValueError("Node in properties must contain positive values only.")
 
+        # Ensure that products of fitnesses do not overflow
+        self.prop_out = self.prop_out.astype(np.float64)
+        self.prop_in = self.prop_in.astype(np.float64)
+
         # Convert to list of tuples
         self.prop_out = self.csx_to_tuple_list(
             self.prop_out.indptr, self.prop_out.indices, self.prop_out.data
-- 
2.43.0


From ef95d2add78afa1e85963308b7a10e0bec14271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:15 +0000
Subject: [PATCH 35/69] fix: accept an exact starting point with zero absolute
 tolerance

---
 src/graph_ensembles/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/solver.py b/src/graph_ensembles/solver.py
index 40909fb..addbe1d 100644
--- a/src/graph_ensembles/solver.py
+++ b/src/graph_ensembles/solver.py
@@ -134,7 +134,7 @@ def monotonic_newton_solver(
         diff_seq = diff
 
     # Initialize bounds on x
-    if norm < atol:
+    if norm <= atol:
         if full_return:
             return Solution(
                 x,
-- 
2.43.0


From f5542cf1640da908aebc736631e792024aff2d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:30 +0000
Subject: [PATCH 36/69] fix: do not truncate parameters fitted from integer
 initial conditions

---
 src/graph_ensembles/models.py                | 2 +-
 src/graph_ensembles/spark/models.py          | 4 ++--
 src/graph_ensembles/sparse/models/fitness.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 2378197..e64fa00 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -2191,7 +2191,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     )
 
                 self.solver_output = [None] * self.num_labels
-                self.param = x0.copy()
+                self.param = x0.astype(np.float64)
 
                 # Transform properties to csc format to select labels quickly
                 for i in range(self.num_labels):
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 5cefcde..16a0ad1 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3536,7 +3536,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     )
 
                 self.solver_output = [None] * self.num_labels
-                self.param = x0.copy()
+                self.param = x0.astype(np.float64)
 
                 # Initialize each layer with solver function
                 d_fit = self.density_fit_layer
@@ -3568,7 +3568,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                 )
 
                 # Collect solution to array
-                self.param = x0.copy()
+                self.param = x0.astype(np.float64)
                 self.solver_output = [None] * self.num_labels
                 tmp = sol_rdd.collect()
                 for i, sol in tmp:
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index a4005c2..941d188 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -641,7 +641,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     )
 
                 self.solver_output = [None] * self.num_labels
-                self.param = x0.copy()
+                self.param = x0.astype(np.float64)
 
                 # Transform properties to csc format to select labels quickly
                 prop_out = sp.csr_array(
-- 
2.43.0


From cd1fe7eb0fb3603e8d422a01895391c50a7ff13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 37/69] fix: accept the observed graph of conditional ensembles
 in any sparse format

---
 src/graph_ensembles/sparse/models/conditional.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index f796a9b..f1c490b 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -201,9 +201,10 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 " and the partitioning groups of the graph must be set."
             )
 
-        # If adj is sparse set to dense
-        if not sp.issparse(self.adj):
-            self.adj = sp.csr_array(self.adj)
+        # Ensure adj is in csr format and stores only existing links
+        self.adj = sp.csr_array(self.adj, copy=True)
+        self.adj.sum_duplicates()
+        self.adj.eliminate_zeros()
 
         # Check that the two are consistent
         self.num_groups = self.adj.shape[0]
-- 
2.43.0


From 7fdbacbfcacde83d1a52e7e7fa03785fc330e95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 38/69] fix: use the self-loops option given to sample of
 conditional ensembles

---
 src/graph_ensembles/sparse/models/conditional.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index f1c490b..2d10eee 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -387,7 +387,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 self.groups,
                 self.adj.indptr,
                 self.adj.indices,
-                self.selfloops,
+                selfloops,
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "cremb":
@@ -405,7 +405,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 self.adj.indices,
                 out_strength,
                 in_strength,
-                self.selfloops,
+                selfloops,
             )
         elif weights == "wagg":
             if out_strength is None:
@@ -423,7 +423,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 self.adj.data,
                 out_strength,
                 in_strength,
-                self.selfloops,
+                selfloops,
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
-- 
2.43.0


From e9f7d1108a1f9f163908a8297ebfbbfa4822023d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 39/69] fix: expected degrees of conditional ensembles with
 asymmetric observed graphs

---
 .../sparse/models/conditional.py              | 33 +++++++------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 2d10eee..797391c 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -605,11 +605,18 @@ class ConditionalInvariantModel(ScaleInvariantModel):
             gr_list = adj_j[n:m]
             for j in range(i + 1):
                 b = groups[j]
-                if b in gr_list:
+                ab_linked = b in gr_list
+                ba_linked = a in adj_j[adj_i[b] : adj_i[b + 1]]
+                if ab_linked or ba_linked:
                     p_out_j = prop_out[j]
                     p_in_j = prop_in[j]
                     if i != j:
+                        pij = 0.0
+                        pji = 0.0
+                        z = 1.0
                         if not selfloops and (a == b):
+                            z = 1 - agg_diag[a] / (agg_p_out[a] * agg_p_in[b])
+                        if ab_linked:
                             pij = p_ij(
                                 param,
                                 p_out_i,
@@ -617,8 +624,9 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                                 1.0,
                                 agg_p_out[a],
                                 agg_p_in[b],
-                                1 - agg_diag[a] / (agg_p_out[a] * agg_p_in[b]),
+                                z,
                             )
+                        if ba_linked:
                             pji = p_ij(
                                 param,
                                 p_out_j,
@@ -626,26 +634,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                                 1.0,
                                 agg_p_out[b],
                                 agg_p_in[a],
-                                1 - agg_diag[a] / (agg_p_out[b] * agg_p_in[a]),
-                            )
-                        else:
-                            pij = p_ij(
-                                param,
-                                p_out_i,
-                                p_in_j,
-                                1.0,
-                                agg_p_out[a],
-                                agg_p_in[b],
-                                1.0,
-                            )
-                            pji = p_ij(
-                                param,
-                                p_out_j,
-                                p_in_i,
-                                1.0,
-                                agg_p_out[b],
-                                agg_p_in[a],
-                                1.0,
+                                z,
                             )
                         p = pij + pji - pij * pji
                         exp_d[i] += p
-- 
2.43.0


From 30bb747fa3154e3a0d4d3d0a201e8ce64317103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:47 +0000
Subject: [PATCH 40/69] fix: likelihood of conditional ensembles with groups
 without fitness

---
 .../sparse/models/conditional.py                | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 797391c..733d2e5 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -1053,21 +1053,14 @@ class ConditionalInvariantModel(ScaleInvariantModel):
             j_list = adj_j[n:m]
             for j, p_in_j in enumerate(agg_p_in):
                 if not selfloops and (i == j):
+                    z = 1.0
+                    if agg_p_out[i] * agg_p_in[j] != 0:
+                        z = 1 - agg_diag[i] / (agg_p_out[i] * agg_p_in[j])
                     # Check if link exists
                     if j in j_list:
-                        tmp = logp(
-                            param,
-                            p_out_i,
-                            p_in_j,
-                            1 - agg_diag[i] / (agg_p_out[i] * agg_p_in[j]),
-                        )
+                        tmp = logp(param, p_out_i, p_in_j, z)
                     else:
-                        tmp = log1mp(
-                            param,
-                            p_out_i,
-                            p_in_j,
-                            1 - agg_diag[i] / (agg_p_out[i] * agg_p_in[j]),
-                        )
+                        tmp = log1mp(param, p_out_i, p_in_j, z)
                 else:
                     # Check if link exists
                     if j in j_list:
-- 
2.43.0


From 40a15f4f7faa76becf610019e029595fc15c03f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:47 +0000
Subject: [PATCH 41/69] fix: expected degrees within a group of conditional
 ensembles

---
 src/graph_ensembles/sparse/models/conditional.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 733d2e5..97781a3 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -636,7 +636,14 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                                 agg_p_in[a],
                                 z,
                             )
-                        p = pij + pji - pij * pji
+                        # Links within a group are conditioned together: given
+                        # one of them the other is no longer conditioned
+                        pji_ij = pji
+                        if a == b:
+                            pji_ij = p_ij(
+                                param, p_out_j, p_in_i, 1.0, np.inf, np.inf, 1.0
+                            )
+                        p = pij + pji - pij * pji_ij
                         exp_d[i] += p
                         exp_d[j] += p
                         exp_d_out[i] += pij
-- 
2.43.0


From b05bc8d6b17684ea85c110bda7ce059b998bba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:47 +0000
Subject: [PATCH 42/69] fix: sample conditional ensembles with zero or small
 parameters

---
 .../sparse/models/conditional.py              | 90 ++++++++++---------
 1 file changed, 49 insertions(+), 41 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 97781a3..268c6fc 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -381,6 +381,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
         if weights is None:
             rows, cols = self._binary_sample(
                 self.p_ij,
+                self.cond_p_ij,
                 self.param,
                 self.prop_out,
                 self.prop_in,
@@ -397,6 +398,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 in_strength = self.prop_in
             rows, cols, vals = self._cremb_sample(
                 self.p_ij,
+                self.cond_p_ij,
                 self.param,
                 self.prop_out,
                 self.prop_in,
@@ -414,6 +416,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 in_strength = self.prop_in
             rows, cols, vals = self._wagg_sample(
                 self.p_ij,
+                self.cond_p_ij,
                 self.param,
                 self.prop_out,
                 self.prop_in,
@@ -668,7 +671,9 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
-    def _binary_sample(p_ij, param, prop_out, prop_in, groups, adj_i, adj_j, selfloops):
+    def _binary_sample(
+        p_ij, cond_p_ij, param, prop_out, prop_in, groups, adj_i, adj_j, selfloops
+    ):
         """Sample from the ensemble."""
         rows = []
         cols = []
@@ -701,32 +706,32 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
                 # Iterate in order over pij that compose A_ab
                 atleastone = False
-                pnorm = p_ij(param, agg_p_out[a], agg_p_in[b], 1)
+                z = agg_p_out[a] * agg_p_in[b]
                 if not selfloops and (a == b):
-                    pnorm = p_ij(
-                        param,
-                        agg_p_out[a],
-                        agg_p_in[b],
-                        1 - agg_diag[a] / (agg_p_out[a] * agg_p_in[b]),
-                    )
+                    z -= agg_diag[a]
 
                 for i in i_in_a:
                     p_out_i = prop_out[i]
                     for j in j_in_b:
                         if (i != j) | selfloops:
-                            p = p_ij(param, p_out_i, prop_in[j], 1)
+                            xy = p_out_i * prop_in[j]
 
-                            if atleastone:
-                                p_sample = p
+                            # Condition on the pairs left while there is no link
+                            if atleastone or (xy == 0):
+                                p_sample = p_ij(param, p_out_i, prop_in[j], 1)
+                            elif xy >= z:
+                                p_sample = 1.0
                             else:
-                                p_sample = p / pnorm
+                                p_sample = cond_p_ij(
+                                    param, p_out_i, prop_in[j], 1.0, 1.0, 1.0, z
+                                )
 
                             if rng.random() < p_sample:
                                 rows.append(i)
                                 cols.append(j)
                                 atleastone = True
                             else:
-                                pnorm = 1 - ((1 - pnorm) / (1 - p))
+                                z -= xy
 
         return rows, cols
 
@@ -734,6 +739,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
     @jit(nopython=True)  # pragma: no cover
     def _cremb_sample(
         p_ij,
+        cond_p_ij,
         param,
         prop_out,
         prop_in,
@@ -782,39 +788,40 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
                 # Iterate in order over pij that compose A_ab
                 atleastone = False
-                p_ab = p_ij(param, agg_p_out[a], agg_p_in[b], 1)
+                z_ab = agg_p_out[a] * agg_p_in[b]
                 if not selfloops and (a == b):
-                    p_ab = p_ij(
-                        param,
-                        agg_p_out[a],
-                        agg_p_in[b],
-                        1 - agg_diag[a] / (agg_p_out[a] * agg_p_in[b]),
-                    )
-                pnorm = p_ab
+                    z_ab -= agg_diag[a]
+                z = z_ab
 
                 for i in i_in_a:
                     p_out_i = prop_out[i]
                     for j in j_in_b:
                         if (i != j) | selfloops:
-                            p = p_ij(param, p_out_i, prop_in[j], 1)
+                            xy = p_out_i * prop_in[j]
 
-                            if atleastone:
-                                p_sample = p
+                            # Condition on the pairs left while there is no link
+                            if atleastone or (xy == 0):
+                                p_sample = p_ij(param, p_out_i, prop_in[j], 1)
+                            elif xy >= z:
+                                p_sample = 1.0
                             else:
-                                p_sample = p / pnorm
+                                p_sample = cond_p_ij(
+                                    param, p_out_i, prop_in[j], 1.0, 1.0, 1.0, z
+                                )
 
                             if rng.random() < p_sample:
                                 rows.append(i)
                                 cols.append(j)
+                                p = cond_p_ij(
+                                    param, p_out_i, prop_in[j], 1.0, 1.0, 1.0, z_ab
+                                )
                                 vals.append(
-                                    rng.exponential(
-                                        s_out[i] * s_in[j] / (s_tot * (p / p_ab))
-                                    )
+                                    rng.exponential(s_out[i] * s_in[j] / (s_tot * p))
                                 )
 
                                 atleastone = True
                             else:
-                                pnorm = 1 - ((1 - pnorm) / (1 - p))
+                                z -= xy
 
         return rows, cols, vals
 
@@ -822,6 +829,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
     @jit(nopython=True)  # pragma: no cover
     def _wagg_sample(
         p_ij,
+        cond_p_ij,
         param,
         prop_out,
         prop_in,
@@ -869,14 +877,9 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
                 # Iterate in order over pij that compose A_ab
                 atleastone = False
-                pnorm = p_ij(param, agg_p_out[a], agg_p_in[b], 1)
+                z = agg_p_out[a] * agg_p_in[b]
                 if not selfloops and (a == b):
-                    pnorm = p_ij(
-                        param,
-                        agg_p_out[a],
-                        agg_p_in[b],
-                        1 - agg_diag[a] / (agg_p_out[a] * agg_p_in[b]),
-                    )
+                    z -= agg_diag[a]
 
                 # Keep track of new samples to sample the weights
                 s_start = len(rows)
@@ -885,12 +888,17 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                     p_out_i = prop_out[i]
                     for j in j_in_b:
                         if (i != j) | selfloops:
-                            p = p_ij(param, p_out_i, prop_in[j], 1)
+                            xy = p_out_i * prop_in[j]
 
-                            if atleastone:
-                                p_sample = p
+                            # Condition on the pairs left while there is no link
+                            if atleastone or (xy == 0):
+                                p_sample = p_ij(param, p_out_i, prop_in[j], 1)
+                            elif xy >= z:
+                                p_sample = 1.0
                             else:
-                                p_sample = p / pnorm
+                                p_sample = cond_p_ij(
+                                    param, p_out_i, prop_in[j], 1.0, 1.0, 1.0, z
+                                )
 
                             if rng.random() < p_sample:
                                 rows.append(i)
@@ -899,7 +907,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                                 vals.append(s_out[i] * s_in[j])
                                 atleastone = True
                             else:
-                                pnorm = 1 - ((1 - pnorm) / (1 - p))
+                                z -= xy
 
                 # Iterate over the samples of macro link ab
                 for n in range(s_start, len(rows)):
-- 
2.43.0


From fb9c8948f0778aa670eeaff331c2b7d2c8c9c14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:47 +0000
Subject: [PATCH 43/69] fix: do not truncate the weights sampled by conditional
 ensembles from integer strengths

---
 src/graph_ensembles/sparse/models/conditional.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 268c6fc..499edfb 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -883,7 +883,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
                 # Keep track of new samples to sample the weights
                 s_start = len(rows)
-                snorm = 0
+                snorm = 0.0
                 for i in i_in_a:
                     p_out_i = prop_out[i]
                     for j in j_in_b:
@@ -903,8 +903,9 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                             if rng.random() < p_sample:
                                 rows.append(i)
                                 cols.append(j)
-                                snorm += s_out[i] * s_in[j]
-                                vals.append(s_out[i] * s_in[j])
+                                w = float(s_out[i]) * s_in[j]
+                                snorm += w
+                                vals.append(w)
                                 atleastone = True
                             else:
                                 z -= xy
-- 
2.43.0


From 0a0a06b0868ba5402de0afacf3d39493c29421de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:00 +0000
Subject: [PATCH 44/69] fix: normalise integer and boolean weights as real
 numbers in pagerank

---
 src/graph_ensembles/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/lib.py b/src/graph_ensembles/lib.py
index cb10f89..6a72d32 100644
--- a/src/graph_ensembles/lib.py
+++ b/src/graph_ensembles/lib.py
@@ -7,7 +7,7 @@ from numba import jit
 
 @jit(nopython=True)  # pragma: no cover
 def normalise_rows(rows, clms, weights):
-    new_w = np.zeros(len(weights), dtype=weights.dtype)
+    new_w = np.zeros(len(weights), dtype=np.float64)
     for i in range(len(rows) - 1):
         n = rows[i]
         m = rows[i + 1]
-- 
2.43.0


From 16cfba726f17a2c0e192965b32628939ed50591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:00 +0000
Subject: [PATCH 45/69] fix: sum the rows of sparse arrays in trophic_depth

---
 src/graph_ensembles/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/lib.py b/src/graph_ensembles/lib.py
index 6a72d32..0a40dd5 100644
--- a/src/graph_ensembles/lib.py
+++ b/src/graph_ensembles/lib.py
@@ -101,7 +101,7 @@ def trophic_depth(g, final, max_iter=100, tol=1e-3):
     w = adj.data
 
     # Initialise result
-    strength = adj.sum(axis=1).A1 + final
+    strength = np.asarray(adj.sum(axis=1)).ravel() + final
     idx = strength != 0
     depth = final
 
-- 
2.43.0


From 0c4af1e8761575e86992061af448c09d1a67a666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:00 +0000
Subject: [PATCH 46/69] fix: accept dense graphs in pagerank and trophic_depth

---
 src/graph_ensembles/lib.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/graph_ensembles/lib.py b/src/graph_ensembles/lib.py
index 0a40dd5..cdbbd92 100644
--- a/src/graph_ensembles/lib.py
+++ b/src/graph_ensembles/lib.py
@@ -2,6 +2,7 @@
     GraphEnsemble classes or on its attributes.
 """
 import numpy as np
+import scipy.sparse as sp
 from numba import jit
 
 
@@ -57,6 +58,9 @@ def pagerank(g, alpha=0.85, max_iter=100, tol=1e-6, weighted=True):
     else:
         adj = g.adjacency_matrix(directed=True, weighted=False)
 
+    # Dense graphs return a numpy array
+    adj = sp.csr_array(adj)
+
     # Extract data from csr matrix
     i = adj.indptr
     j = adj.indices
@@ -93,7 +97,7 @@ def trophic_depth(g, final, max_iter=100, tol=1e-3):
     the size of the connection to the final node (which has depth zero).
     """
     # Get adj in csc for fast propagation
-    adj = g.adjacency_matrix(directed=True, weighted=True).tocsc()
+    adj = sp.csc_array(g.adjacency_matrix(directed=True, weighted=True))
 
     # Extract data from csc matrix
     i = adj.indices
-- 
2.43.0


From 496bcbc9cc7df0a487156aa6ec1ab48e2fd16160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:37 +0000
Subject: [PATCH 47/69] fix: accept a number as starting point of the solver

---
 src/graph_ensembles/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/solver.py b/src/graph_ensembles/solver.py
index addbe1d..8378095 100644
--- a/src/graph_ensembles/solver.py
+++ b/src/graph_ensembles/solver.py
@@ -113,7 +113,7 @@ def monotonic_newton_solver(
         Returns a Solution object.
     """
     n_iter = 0
-    x = x0
+    x = np.atleast_1d(np.asarray(x0, dtype=np.float64))
     f, f_p = fun(x)
     f += -target
     norm = np.abs(f)
-- 
2.43.0


From bc6480af4d0811c74218c0be8f5ce572581d2d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:38 +0000
Subject: [PATCH 48/69] fix: do not count reciprocal pairs twice in the
 expected degrees by label of spark ensembles

---
 src/graph_ensembles/spark/models.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 16a0ad1..3568ce8 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -2795,28 +2795,29 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                         f_out_j = prop_out[np.where(ind_out == ind_j)][0]
                         pji = p_ijk(param, f_out_j, f_in_i, pdyad(ind_i, ind_j))
                         p = pij + pji - pij * pji
+                        p_j = 0.0
                     else:
-                        pji = 0.0
                         p = pij
+                        p_j = pij
 
                     key = (np.int64(ind_i), np.int64(lbl))
                     if key in d:
                         d[key] += p
                         d_out[key] += pij
-                        d_in[key] += pji
                     else:
                         d[key] = p
                         d_out[key] = pij
-                        d_in[key] = pji
+                        d_in[key] = 0.0
 
+                    # If the loops also visit the pair (j, i) then the
+                    # contribution to the degree of j is added there
                     key = (np.int64(ind_j), np.int64(lbl))
                     if key in d:
-                        d[key] += p
-                        d_out[key] += pji
+                        d[key] += p_j
                         d_in[key] += pij
                     else:
-                        d[key] = p
-                        d_out[key] = pji
+                        d[key] = p_j
+                        d_out[key] = 0.0
                         d_in[key] = pij
 
                 elif selfloops:
-- 
2.43.0


From d991ea65287a4896a568a234c6925813485c0741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:38 +0000
Subject: [PATCH 49/69] fix: expected degrees by label of spark ensembles
 without possible links

---
 src/graph_ensembles/spark/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 3568ce8..443af48 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -2123,9 +2123,9 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
             # Initialize results
             res = tmp.fold(([], [], []), lambda x, y: app_fun(x, y))
-            d = np.array(res[0])
-            d_out = np.array(res[1])
-            d_in = np.array(res[2])
+            d = np.array(res[0]).reshape(-1, 3)
+            d_out = np.array(res[1]).reshape(-1, 3)
+            d_in = np.array(res[2]).reshape(-1, 3)
             self._exp_degree_label = sp.coo_array(
                 (d[:, 2], (d[:, 0], d[:, 1])),
                 shape=(self.num_vertices, self.num_labels),
-- 
2.43.0


From 194e9945e7838514f2326847e55b36b079243f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:38 +0000
Subject: [PATCH 50/69] fix: expected number of edges of spark multigraph
 ensembles after that by label

---
 src/graph_ensembles/spark/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 443af48..ae9ba54 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1969,7 +1969,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         if not hasattr(self, "param"):
             raise Exception("Model must be fitted beforehand.")
 
-        if not hasattr(self, "_exp_num_edges_label") or recompute:
+        if not hasattr(self, "_exp_num_edges") or recompute:
             # It is necessary to select the elements or pickling will fail
             delta = self.param
             slflp = self.selfloops
-- 
2.43.0


From 16164226fb7e5c901aacf33a27ffba52da47e885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:38 +0000
Subject: [PATCH 51/69] fix: recompute the out and in degrees by label of spark
 ensembles on request

---
 src/graph_ensembles/spark/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index ae9ba54..c12cf1d 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -2144,14 +2144,14 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
     def expected_out_degree_by_label(self, recompute=False):
         """Compute the expected out degree."""
         if not hasattr(self, "_exp_out_degree_label") or recompute:
-            _ = self.expected_degree_by_label()
+            _ = self.expected_degree_by_label(recompute=recompute)
 
         return self._exp_out_degree_label
 
     def expected_in_degree_by_label(self, recompute=False):
         """Compute the expected in degree."""
         if not hasattr(self, "_exp_in_degree_label") or recompute:
-            _ = self.expected_degree_by_label()
+            _ = self.expected_degree_by_label(recompute=recompute)
 
         return self._exp_in_degree_label
 
-- 
2.43.0


From 2634380c7303a593a72798d4090fc6c588f3a948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:07 +0000
Subject: [PATCH 52/69] fix: measures of graphs sampled from spark ensembles

---
 src/graph_ensembles/spark/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index c12cf1d..988c8c7 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -542,7 +542,7 @@ class DiGraphEnsemble(GraphEnsemble):
             raise ValueError("Weights method not recognised or implemented.")
 
         # Convert to adjacency matrix
-        g.adj = sp.csr_matrix(
+        g.adj = sp.csr_array(
             (vals, (rows, cols)), shape=(g.num_vertices, g.num_vertices)
         )
 
@@ -1321,7 +1321,7 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError("Weights method not recognised or implemented.")
 
         # Convert to adjacency matrix
-        g.adj = sp.csr_matrix(
+        g.adj = sp.csr_array(
             (vals, (rows, cols)), shape=(g.num_vertices, g.num_vertices)
         )
 
@@ -2626,7 +2626,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             )
             for i, (rows, cols) in tmp.collect():
                 # Convert to adjacency matrix
-                g.adj[i] = sp.csr_matrix(
+                g.adj[i] = sp.csr_array(
                     (np.ones(len(rows), dtype=bool), (rows, cols)),
                     shape=(g.num_vertices, g.num_vertices),
                 )
@@ -2657,7 +2657,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             )
             for i, (rows, cols, vals) in tmp.collect():
                 # Convert to adjacency matrix
-                g.adj[i] = sp.csr_matrix(
+                g.adj[i] = sp.csr_array(
                     (vals, (rows, cols)), shape=(g.num_vertices, g.num_vertices)
                 )
 
-- 
2.43.0


From 9736792520839f99d3c422763fcffe667ba04d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:20 +0000
Subject: [PATCH 53/69] fix: accept sparse arrays of strengths in sample of
 spark multigraph ensembles

---
 src/graph_ensembles/spark/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 988c8c7..7101e64 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -2646,10 +2646,10 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                         x[2].indices,
                         x[1].data,
                         x[2].data,
-                        s_out_l[:, x[0]].indices,
-                        s_out_l[:, x[0]].data,
-                        s_in_l[:, x[0]].indices,
-                        s_in_l[:, x[0]].data,
+                        s_out_l[:, [x[0]]].indices,
+                        s_out_l[:, [x[0]]].data,
+                        s_in_l[:, [x[0]]].indices,
+                        s_in_l[:, [x[0]]].data,
                         pdyad,
                         selfloops,
                     ),
-- 
2.43.0


From ca72ec1c0b0f1411e63306c37068cf48bc19642d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:33 +0000
Subject: [PATCH 54/69] fix: space the automatic thresholds of confusion_matrix
 between the extreme probabilities

---
 src/graph_ensembles/spark/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 7101e64..6029ab9 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -398,12 +398,12 @@ class DiGraphEnsemble(GraphEnsemble):
         if thresholds is None:
             p_max = self.p_ij(self.param, self.prop_out.max(), self.prop_in.max(), None)
             p_min = self.p_ij(self.param, self.prop_out.min(), self.prop_in.min(), None)
-            thresholds = np.logspace(log(p_min), log(p_max), 20)
+            thresholds = np.geomspace(p_min, p_max, 20)
 
         elif isinstance(thresholds, int):
             p_max = self.p_ij(self.param, self.prop_out.max(), self.prop_in.max(), None)
             p_min = self.p_ij(self.param, self.prop_out.min(), self.prop_in.min(), None)
-            thresholds = np.logspace(log(p_min), log(p_max), thresholds)
+            thresholds = np.geomspace(p_min, p_max, thresholds)
 
         elif not isinstance(thresholds, np.ndarray):
             raise ValueError("Thresholds must be an array or an integer.")
@@ -2443,7 +2443,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                 * self.prop_out[self.prop_out != 0].min()
                 * self.prop_in[self.prop_in != 0].min()
             )
-            thresholds = np.logspace(log(p_min), log(p_max), 20)
+            thresholds = np.geomspace(p_min, p_max, 20)
 
         elif isinstance(thresholds, int):
             p_max = -expm1(-self.param[0] * self.prop_out.max() * self.prop_in.max())
@@ -2452,7 +2452,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                 * self.prop_out[self.prop_out != 0].min()
                 * self.prop_in[self.prop_in != 0].min()
             )
-            thresholds = np.logspace(log(p_min), log(p_max), thresholds)
+            thresholds = np.geomspace(p_min, p_max, thresholds)
 
         elif not isinstance(thresholds, np.ndarray):
             raise ValueError("Thresholds must be an array or an integer.")
-- 
2.43.0


From 5a10d2458398ee224e95b3f96ad807e63c54ce7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:33 +0000
Subject: [PATCH 55/69] fix: automatic thresholds of confusion_matrix with
 vertices without fitness

---
 src/graph_ensembles/spark/models.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 6029ab9..bb6b458 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -397,12 +397,12 @@ class DiGraphEnsemble(GraphEnsemble):
         # If thresholds are not given or is an int compute automatically
         if thresholds is None:
             p_max = self.p_ij(self.param, self.prop_out.max(), self.prop_in.max(), None)
-            p_min = self.p_ij(self.param, self.prop_out.min(), self.prop_in.min(), None)
+            p_min = self.p_ij(self.param, self.min_prop("out"), self.min_prop("in"), None)
             thresholds = np.geomspace(p_min, p_max, 20)
 
         elif isinstance(thresholds, int):
             p_max = self.p_ij(self.param, self.prop_out.max(), self.prop_in.max(), None)
-            p_min = self.p_ij(self.param, self.prop_out.min(), self.prop_in.min(), None)
+            p_min = self.p_ij(self.param, self.min_prop("out"), self.min_prop("in"), None)
             thresholds = np.geomspace(p_min, p_max, thresholds)
 
         elif not isinstance(thresholds, np.ndarray):
@@ -459,6 +459,13 @@ class DiGraphEnsemble(GraphEnsemble):
 
         return res[0], res[1], res[2], res[3]
 
+    def min_prop(self, direction):
+        """Return the smallest non-zero node property."""
+        prop = self.prop_out if direction == "out" else self.prop_in
+        if isinstance(prop, np.ndarray):
+            prop = prop[prop != 0]
+        return prop.min()
+
     def sample(
         self,
         ref_g=None,
-- 
2.43.0


From f165a6c5d331033f71b8d7efbfe55dce15e84eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:12 +0000
Subject: [PATCH 56/69] fix: refuse fitnesses which are not numbers in
 multi-layer models

---
 src/graph_ensembles/models.py                | 4 ++--
 src/graph_ensembles/spark/models.py          | 4 ++--
 src/graph_ensembles/sparse/models/fitness.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index e64fa00..877333b 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -2035,10 +2035,10 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             self.prop_in = self.prop_in.toarray()
 
         # Ensure that all fitness are positive
-        if np.any(self.prop_out < 0):
+        if not np.all(self.prop_out >= 0):
             raise ValueError("Node out properties must contain positive values only.")
 
-        if np.any(self.prop_in < 0):
+        if not np.all(self.prop_in >= 0):
             raise ValueError("Node in properties must contain positive values only.")
 
         # Ensure that products of fitnesses do not overflow
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index bb6b458..eb57c95 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3316,10 +3316,10 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         self.prop_in.sum_duplicates()
 
         # Ensure that all fitness are positive
-        if np.any(self.prop_out.data < 0):
+        if not np.all(self.prop_out.data >= 0):
             raise ValueError("Node out properties must contain positive values only.")
 
-        if np.any(self.prop_in.data < 0):
+        if not np.all(self.prop_in.data >= 0):
             raise ValueError("Node in properties must contain positive values only.")
 
         # Ensure that products of fitnesses do not overflow
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index 941d188..65e4edb 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -477,10 +477,10 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         self.prop_in.sum_duplicates()
 
         # Ensure that all fitness are positive
-        if np.any(self.prop_out.data < 0):
+        if not np.all(self.prop_out.data >= 0):
             raise ValueError("Node out properties must contain positive values only.")
 
-        if np.any(self.prop_in.data < 0):
+        if not np.all(self.prop_in.data >= 0):
             raise ValueError("Node in properties must contain positive values only.")
 
         # Ensure that products of fitnesses do not overflow
-- 
2.43.0


From 5b374fdf057764ffa18f07107a47d7ff5445b2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:28 +0000
Subject: [PATCH 57/69] fix: refuse a groups array of the wrong length in the
 conditional model

---
 src/graph_ensembles/sparse/models/conditional.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 499edfb..020b275 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -210,6 +210,9 @@ class ConditionalInvariantModel(ScaleInvariantModel):
         self.num_groups = self.adj.shape[0]
         assert self.adj.ndim == 2, "Adjacency matrix must be 2 dimensional."
         assert self.adj.shape[1] == self.num_groups, "Adjacency matrix must be square."
+        assert (
+            len(self.groups) == self.num_vertices
+        ), "groups array must have one element for each vertex."
         assert isinstance(
             self.groups[0], (int, np.integer)
         ), "groups array must be of integers."
-- 
2.43.0


From fd4c9542cf2087091954c55cb6a1fce1a65a2536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:48 +0000
Subject: [PATCH 58/69] fix: sums of weights of narrow integer types do not
 overflow

---
 src/graph_ensembles/graphs.py        | 6 ++++++
 src/graph_ensembles/sparse/graphs.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index aaed072..36ef8cb 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -175,6 +175,9 @@ class Graph:
         if weight is not None:
             self.weighted = True
             val_array = e[weight].values
+            if val_array.dtype.kind in "biu" and val_array.dtype.itemsize < 8:
+                # Ensure that sums of weights do not overflow
+                val_array = val_array.astype(np.int64)
 
             # Ensure all weights are positive
             msg = "Zero or negative edge weights are not supported."
@@ -867,6 +870,9 @@ class MultiGraph(Graph):
         # Construct adjacency tensor with dimensions (label, src, dst)
         if weight is not None:
             val_array = e[weight].values
+            if val_array.dtype.kind in "biu" and val_array.dtype.itemsize < 8:
+                # Ensure that sums of weights do not overflow
+                val_array = val_array.astype(np.int64)
             self.adj = np.zeros(
                 (self.num_labels, self.num_vertices, self.num_vertices),
                 dtype=val_array.dtype,
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index 296b47f..f005c86 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -175,6 +175,9 @@ class Graph:
         if weight is not None:
             self.weighted = True
             val_array = e[weight].values
+            if val_array.dtype.kind in "biu" and val_array.dtype.itemsize < 8:
+                # Ensure that sums of weights do not overflow
+                val_array = val_array.astype(np.int64)
 
             # Ensure all weights are positive
             msg = "Zero or negative edge weights are not supported."
@@ -931,6 +934,9 @@ class MultiGraph(Graph):
         # Construct adjacency tensor with dimensions (label, src, dst)
         if weight is not None:
             val_array = e[weight].values
+            if val_array.dtype.kind in "biu" and val_array.dtype.itemsize < 8:
+                # Ensure that sums of weights do not overflow
+                val_array = val_array.astype(np.int64)
 
             # Define adjacency tensor as list of sparse matrices
             self.adj = []
-- 
2.43.0


From 5a2ae44e3164c28634a3c005bba904fcd3eadbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:48 +0000
Subject: [PATCH 59/69] fix: accept an edge table without links whose columns
 are not numeric

---
 src/graph_ensembles/graphs.py        | 2 +-
 src/graph_ensembles/sparse/graphs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 36ef8cb..077d3d4 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -165,7 +165,7 @@ class Graph:
         e["_dst"] = e["_dst"].map(lambda x: self.id_dict.get(x))
 
         # Check for nans
-        assert not (np.any(np.isnan(e["_src"])) or np.any(np.isnan(e["_dst"]))), msg
+        assert not (np.any(pd.isna(e["_src"])) or np.any(pd.isna(e["_dst"]))), msg
 
         # Extract values
         src_array = e["_src"].values.astype(self.id_dtype)
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index f005c86..aa098b6 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -165,7 +165,7 @@ class Graph:
         e["_dst"] = e["_dst"].map(lambda x: self.id_dict.get(x))
 
         # Check for nans
-        assert not (np.any(np.isnan(e["_src"])) or np.any(np.isnan(e["_dst"]))), msg
+        assert not (np.any(pd.isna(e["_src"])) or np.any(pd.isna(e["_dst"]))), msg
 
         # Extract values
         src_array = e["_src"].values.astype(self.id_dtype)
-- 
2.43.0


From 87c59eab278a1c3d4d062e5c0d18e5e6abf67350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:48 +0000
Subject: [PATCH 60/69] fix: adjacency matrix of a sparse layered graph without
 links

---
 src/graph_ensembles/sparse/graphs.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index aa098b6..f9f7c67 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -967,9 +967,9 @@ class MultiGraph(Graph):
     def adjacency_matrix(self, directed=False, weighted=False):
         """Return the adjacency matrix of the graph."""
         # Project tensor to two dimensions
-        adj = self.adj[0]
-        for lbl in range(1, self.num_labels):
-            adj += self.adj[lbl]
+        adj = sp.csr_array((self.num_vertices, self.num_vertices), dtype=bool)
+        for lbl in range(self.num_labels):
+            adj = adj + self.adj[lbl]
 
         # Ensure matrix is symmetric as this is undirected
         if weighted:
@@ -1242,9 +1242,9 @@ class MultiDiGraph(MultiGraph, DiGraph):
     def adjacency_matrix(self, directed=True, weighted=False):
         """Return the adjacency matrix of the graph."""
         # Project tensor to two dimensions
-        adj = self.adj[0]
-        for lbl in range(1, self.num_labels):
-            adj += self.adj[lbl]
+        adj = sp.csr_array((self.num_vertices, self.num_vertices), dtype=bool)
+        for lbl in range(self.num_labels):
+            adj = adj + self.adj[lbl]
 
         if directed and not weighted:
             adj = adj != 0
-- 
2.43.0


From b8711ea69a7e711b45f595af4cb5124c9bd844f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:48 +0000
Subject: [PATCH 61/69] fix: accept a one element list as weight column of
 layered graphs

---
 src/graph_ensembles/graphs.py        | 2 ++
 src/graph_ensembles/sparse/graphs.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 077d3d4..c579107 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -849,6 +849,8 @@ class MultiGraph(Graph):
         # If column names are passed as lists with one elements extract str
         if isinstance(edge_label, list) and len(edge_label) == 1:
             edge_label = edge_label[0]
+        if isinstance(weight, list) and len(weight) == 1:
+            weight = weight[0]
 
         # Get dictionary of label to numeric internal label
         if isinstance(edge_label, list):
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index f9f7c67..b6a615b 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -913,6 +913,8 @@ class MultiGraph(Graph):
         # If column names are passed as lists with one elements extract str
         if isinstance(edge_label, list) and len(edge_label) == 1:
             edge_label = edge_label[0]
+        if isinstance(weight, list) and len(weight) == 1:
+            weight = weight[0]
 
         # Get dictionary of label to numeric internal label
         if isinstance(edge_label, list):
-- 
2.43.0


From c40ce4b1fc99b1f8becde0e43be60c8138fe2916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:48 +0000
Subject: [PATCH 62/69] fix: keep the precision of small probabilities in
 multi-layer fitness models

---
 src/graph_ensembles/models.py                | 26 ++++++++--------
 src/graph_ensembles/spark/models.py          | 29 ++++++++----------
 src/graph_ensembles/sparse/models/fitness.py | 31 ++++++++++----------
 3 files changed, 41 insertions(+), 45 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 877333b..a6ebe36 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -2313,7 +2313,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         properties must be a tuple (indices, values) from a sparse matrix.
         """
         # Initialize result
-        val = np.float64(1.0)
+        val = np.float64(0.0)
         jac = np.float64(0.0)
 
         # Loop over all possibilities
@@ -2329,10 +2329,10 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     if isinf(tmp1):
                         return 1.0, 0.0
                     else:
-                        val /= 1 + tmp1
+                        val += log1p(tmp1)
                         jac += tmp / (1 + tmp1)
 
-        return 1 - val, val * jac
+        return -expm1(-val), exp(-val) * jac
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -2362,7 +2362,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         properties must be a tuple (indices, values) from a sparse matrix.
         """
         # Initialize result
-        val = np.float64(1.0)
+        val = np.float64(0.0)
 
         # Loop over all possibilities
         for i, (x_i, y_i) in enumerate(zip(prop_out, prop_in)):
@@ -2371,16 +2371,16 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                 if isinf(tmp):
                     return 1.0
                 else:
-                    val /= 1 + tmp
+                    val += log1p(tmp)
 
-        return 1 - val
+        return -expm1(-val)
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
     def logp(d, prop_out, prop_in, prop_dyad):
         """Compute the log probability of connection between node i and j."""
         # Initialize result
-        val = np.float64(1.0)
+        val = np.float64(0.0)
 
         # Loop over all possibilities
         for i, (x_i, y_i) in enumerate(zip(prop_out, prop_in)):
@@ -2389,12 +2389,12 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                 if isinf(tmp):
                     return 0.0
                 else:
-                    val /= 1 + tmp
+                    val += log1p(tmp)
 
-        if val == 1.0:
+        if val == 0.0:
             return -np.infty
         else:
-            return log1p(-val)
+            return log(-expm1(-val))
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -2403,7 +2403,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         node i and j.
         """
         # Initialize result
-        val = np.float64(1.0)
+        val = np.float64(0.0)
 
         # Loop over all possibilities
         for i, (x_i, y_i) in enumerate(zip(prop_out, prop_in)):
@@ -2412,9 +2412,9 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                 if isinf(tmp):
                     return -np.infty
                 else:
-                    val /= 1 + tmp
+                    val += log1p(tmp)
 
-        return log(val)
+        return -val
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index eb57c95..6b7c026 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3721,7 +3721,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         # Initialize result
         i = 0
         j = 0
-        val = np.float64(1.0)
+        val = np.float64(0.0)
         jac = np.float64(0.0)
 
         # Loop over all possibilities
@@ -3738,7 +3738,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                         if isinf(tmp1):
                             return 1.0, 0.0
                         else:
-                            val /= 1 + tmp1
+                            val += log1p(tmp1)
                             jac += tmp / (1 + tmp1)
                 i += 1
                 j += 1
@@ -3747,7 +3747,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             else:
                 j += 1
 
-        return 1 - val, val * jac
+        return -expm1(-val), exp(-val) * jac
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -3779,7 +3779,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         # Initialize result
         i = 0
         j = 0
-        val = 1.0
+        val = 0.0
 
         # Loop over all possibilities
         while i < len(x_lbl) and j < len(y_lbl):
@@ -3789,7 +3789,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     if isinf(tmp):
                         return 1.0
                     else:
-                        val /= 1 + tmp
+                        val += log1p(tmp)
                 i += 1
                 j += 1
             elif x_lbl[i] < y_lbl[j]:
@@ -3797,7 +3797,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             else:
                 j += 1
 
-        return 1 - val
+        return -expm1(-val)
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -3806,7 +3806,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         # Initialize result
         i = 0
         j = 0
-        val = 1.0
+        val = 0.0
 
         # Loop over all possibilities
         while i < len(x_lbl) and j < len(y_lbl):
@@ -3816,7 +3816,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     if isinf(tmp):
                         return 0.0
                     else:
-                        val /= 1 + tmp
+                        val += log1p(tmp)
                 i += 1
                 j += 1
             elif x_lbl[i] < y_lbl[j]:
@@ -3824,10 +3824,10 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             else:
                 j += 1
 
-        if val == 1.0:
+        if val == 0.0:
             return -np.infty
         else:
-            return log1p(-val)
+            return log(-expm1(-val))
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -3838,7 +3838,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         # Initialize result
         i = 0
         j = 0
-        val = 1.0
+        val = 0.0
 
         # Loop over all possibilities
         while i < len(x_lbl) and j < len(y_lbl):
@@ -3848,7 +3848,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     if isinf(tmp):
                         return -np.infty
                     else:
-                        val /= 1 + tmp
+                        val += log1p(tmp)
                 i += 1
                 j += 1
             elif x_lbl[i] < y_lbl[j]:
@@ -3856,10 +3856,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             else:
                 j += 1
 
-        if val == 1.0:
-            return 0.0
-        else:
-            return log(val)
+        return -val
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index 65e4edb..2ee4de7 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -7,6 +7,8 @@ import scipy.sparse as sp
 from . import graphs
 import numpy as np
 from numba import jit
+from math import exp
+from math import expm1
 from math import isinf
 from numba.typed import List
 from math import log
@@ -780,7 +782,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         # Initialize result
         i = 0
         j = 0
-        val = np.float64(1.0)
+        val = np.float64(0.0)
         jac = np.float64(0.0)
 
         # Loop over all possibilities
@@ -801,7 +803,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                         if isinf(tmp1):
                             return 1.0, 0.0
                         else:
-                            val /= 1 + tmp1
+                            val += log1p(tmp1)
                             jac += tmp / (1 + tmp1)
                 i += 1
                 j += 1
@@ -810,7 +812,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             else:
                 j += 1
 
-        return 1 - val, val * jac
+        return -expm1(-val), exp(-val) * jac
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -876,7 +878,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         # Initialize result
         i = 0
         j = 0
-        val = 1.0
+        val = 0.0
 
         # Loop over all possibilities
         x_lbl = prop_out[0]
@@ -890,7 +892,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     if isinf(tmp):
                         return 1.0
                     else:
-                        val /= 1 + tmp
+                        val += log1p(tmp)
                 i += 1
                 j += 1
             elif x_lbl[i] < y_lbl[j]:
@@ -898,7 +900,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             else:
                 j += 1
 
-        return 1 - val
+        return -expm1(-val)
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -907,7 +909,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         # Initialize result
         i = 0
         j = 0
-        val = 1.0
+        val = 0.0
 
         # Loop over all possibilities
         x_lbl = prop_out[0]
@@ -921,7 +923,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     if isinf(tmp):
                         return 0.0
                     else:
-                        val /= 1 + tmp
+                        val += log1p(tmp)
                 i += 1
                 j += 1
             elif x_lbl[i] < y_lbl[j]:
@@ -929,10 +931,10 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             else:
                 j += 1
 
-        if val == 1.0:
+        if val == 0.0:
             return -np.infty
         else:
-            return log1p(-val)
+            return log(-expm1(-val))
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -943,7 +945,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         # Initialize result
         i = 0
         j = 0
-        val = 1.0
+        val = 0.0
 
         # Loop over all possibilities
         x_lbl = prop_out[0]
@@ -957,7 +959,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     if isinf(tmp):
                         return -np.infty
                     else:
-                        val /= 1 + tmp
+                        val += log1p(tmp)
                 i += 1
                 j += 1
             elif x_lbl[i] < y_lbl[j]:
@@ -965,10 +967,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             else:
                 j += 1
 
-        if val == 1.0:
-            return 0.0
-        else:
-            return log(val)
+        return -val
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
-- 
2.43.0


From 86413eaae1cb8fa87e1db05a55bd4ab6951b82a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:48 +0000
Subject: [PATCH 63/69] fix: keep the precision of small probabilities in
 expected neighbour averages

---
 src/graph_ensembles/models.py                  | 2 +-
 src/graph_ensembles/sparse/models/ensembles.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index a6ebe36..0d59f6f 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -484,7 +484,7 @@ class DiGraphEnsemble(GraphEnsemble):
                     av_nn[i] += pji * prop[j]
                     av_nn[j] += pij * prop[i]
                 elif ndir == "out-in":
-                    p = 1 - (1 - pij) * (1 - pji)
+                    p = pij + pji - pij * pji
                     av_nn[i] += p * prop[j]
                     av_nn[j] += p * prop[i]
                 else:
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 98a9220..11db9e8 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -481,7 +481,7 @@ class DiGraphEnsemble(GraphEnsemble):
                     av_nn[i] += pji * prop[j]
                     av_nn[j] += pij * prop[i]
                 elif ndir == "out-in":
-                    p = 1 - (1 - pij) * (1 - pji)
+                    p = pij + pji - pij * pji
                     av_nn[i] += p * prop[j]
                     av_nn[j] += p * prop[i]
                 else:
-- 
2.43.0


From 1c6f65a9416c1b6cbec17679fd6c83cc29896b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:15 +0000
Subject: [PATCH 64/69] fix: neighbour averages of boolean, narrow integer and
 higher dimensional properties

---
 src/graph_ensembles/graphs.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index c579107..511abe6 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -401,9 +401,7 @@ class Graph:
             np.fill_diagonal(adj, 0)
 
         # Compute sum
-        res = adj.dot(prop)
-
-        return res.astype(np.float64)
+        return np.tensordot(adj.astype(np.float64), prop, axes=1)
 
 
 class DiGraph(Graph):
-- 
2.43.0


From d80db37feb32d06e0f971ec4e0c27e31c2b3dc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:31 +0000
Subject: [PATCH 65/69] fix: keep secant steps of the solver inside the bracket

---
 src/graph_ensembles/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph_ensembles/solver.py b/src/graph_ensembles/solver.py
index 8378095..1dec55c 100644
--- a/src/graph_ensembles/solver.py
+++ b/src/graph_ensembles/solver.py
@@ -201,6 +201,8 @@ def monotonic_newton_solver(
                 x = x_u - 2 * np.abs(x_u)
             else:
                 x = x_u - (f_u * (x_u - x_l)) / (f_u - f_l)
+                # Rounding must not take the point out of the bracket
+                x = np.clip(x, x_l, x_u)
         else:
             x = x + dx
 
-- 
2.43.0


From f06e7a936e712014d1278efd5c7390bbc9380c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:33 +0000
Subject: [PATCH 66/69] fix: subtract unsigned targets in the solver without
 wrapping around

---
 src/graph_ensembles/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/solver.py b/src/graph_ensembles/solver.py
index 1dec55c..23b7956 100644
--- a/src/graph_ensembles/solver.py
+++ b/src/graph_ensembles/solver.py
@@ -115,7 +115,7 @@ def monotonic_newton_solver(
     n_iter = 0
     x = np.atleast_1d(np.asarray(x0, dtype=np.float64))
     f, f_p = fun(x)
-    f += -target
+    f = f - target
     norm = np.abs(f)
     diff = np.array([1])
 
-- 
2.43.0


From d4bafc90ed2f29fca98c56266e998c9ba1fb3fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:16 +0000
Subject: [PATCH 67/69] fix: bisect where the secant of the solver is not
 defined

---
 src/graph_ensembles/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_ensembles/solver.py b/src/graph_ensembles/solver.py
index 23b7956..75fef00 100644
--- a/src/graph_ensembles/solver.py
+++ b/src/graph_ensembles/solver.py
@@ -199,6 +199,9 @@ def monotonic_newton_solver(
                     x = x_l + 2 * np.abs(x_l)
             elif np.isinf(x_l):
                 x = x_u - 2 * np.abs(x_u)
+            elif f_u == f_l:
+                # No secant: the bracket is a point or the function is flat
+                x = (x_u + x_l) / 2
             else:
                 x = x_u - (f_u * (x_u - x_l)) / (f_u - f_l)
                 # Rounding must not take the point out of the bracket
-- 
2.43.0


From 296c1de8a3d57062fbcdc1216d29ec75e7aee46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:45 +0000
Subject: [PATCH 68/69] fix: leave an infinite end of the solver's bracket
 instead of stepping to nan

---
 src/graph_ensembles/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/solver.py b/src/graph_ensembles/solver.py
index 75fef00..6571dd3 100644
--- a/src/graph_ensembles/solver.py
+++ b/src/graph_ensembles/solver.py
@@ -187,7 +187,7 @@ def monotonic_newton_solver(
 
         # Check that new x exists within the bound (x_u, x_l)
         # otherwise use secant method
-        if (x + dx >= x_u) or (x + dx <= x_l):
+        if not ((x + dx < x_u) and (x + dx > x_l)):
             if f_u is None:
                 x = x_u
             elif f_l is None:
-- 
2.43.0


From d5e2e0e84987014c0a37faaffab98ac1a024b9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:58 +0000
Subject: [PATCH 69/69] fix: pairs without fitness have no link when the
 parameter of a multi-label invariant fit is infinite

---
 src/graph_ensembles/models.py                  | 8 ++++----
 src/graph_ensembles/spark/models.py            | 8 ++++----
 src/graph_ensembles/sparse/models/invariant.py | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 0d59f6f..dc9a72c 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -2509,10 +2509,6 @@ class MultiInvariantModel(MultiFitnessModel):
         param is expected to be an array with num_labels elements. All
         properties must be a tuple (indices, values) from a sparse matrix.
         """
-        # Check that parameter is not inf
-        if isinf(d[0]):
-            return 1.0, 0.0
-
         # Initialize result
         val = np.float64(0.0)
 
@@ -2525,6 +2521,10 @@ class MultiInvariantModel(MultiFitnessModel):
                 else:
                     val += tmp
 
+        # Without fitness there is no link, even if the parameter is inf
+        if val == 0.0:
+            return 0.0, 0.0
+
         val1 = d[0] * val
         if val1 == 0.0:
             return 0.0, val
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 6b7c026..d70ec6c 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3951,10 +3951,6 @@ class MultiInvariantModel(MultiFitnessModel):
         param is expected to be an array with num_labels elements. All
         properties must be a tuple (indices, values) from a sparse matrix.
         """
-        # Check that parameter is not inf
-        if isinf(d[0]):
-            return 1.0, 0.0
-
         # Initialize result
         i = 0
         j = 0
@@ -3976,6 +3972,10 @@ class MultiInvariantModel(MultiFitnessModel):
             else:
                 j += 1
 
+        # Without fitness there is no link, even if the parameter is inf
+        if val == 0.0:
+            return 0.0, 0.0
+
         val1 = d[0] * val
         if val1 == 0.0:
             return 0.0, val
diff --git a/src/graph_ensembles/sparse/models/invariant.py b/src/graph_ensembles/sparse/models/invariant.py
index 9e0fc10..19755c1 100644
--- a/src/graph_ensembles/sparse/models/invariant.py
+++ b/src/graph_ensembles/sparse/models/invariant.py
@@ -152,10 +152,6 @@ class MultiInvariantModel(MultiFitnessModel):
         param is expected to be an array with num_labels elements. All
         properties must be a tuple (indices, values) from a sparse matrix.
         """
-        # Check that parameter is not inf
-        if isinf(d[0]):
-            return 1.0, 0.0
-
         # Initialize result
         i = 0
         j = 0
@@ -181,6 +177,10 @@ class MultiInvariantModel(MultiFitnessModel):
             else:
                 j += 1
 
+        # Without fitness there is no link, even if the parameter is inf
+        if val == 0.0:
+            return 0.0, 0.0
+
         val1 = d[0] * val
         if val1 == 0.0:
             return 0.0, val
-- 
2.43.0

