From d8c87a0f31778b1d17ed11c79d3caaa8ad791ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 01/34] fix: rule 1 subtracted edges between deleted vertices
 twice

When two adjacent vertices become isolated at the same time, the edge
between them was subtracted once for each of them from the neighborhood
edge counts, so counts were too low and reduction rule 2 was missed.
---
 medil/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/medil/graph.py b/medil/graph.py
index 42a31e4..e69ecfe 100644
--- a/medil/graph.py
+++ b/medil/graph.py
@@ -217,8 +217,9 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
                 # my own addition:
                 # self.nbrhood[:, vert] = 0
 
-            # remove isolated_verts from common neighborhoods
-            self.common_neighbors[:, isolated_verts] = 0
+                # remove vert from common neighborhoods, before the
+                # next vert, so edges between them aren't counted twice
+                self.common_neighbors[:, vert] = 0
 
         # max_num_edges = self.n_choose_2(self.unreduced.max_num_verts)
         # mask = lambda edge_idx: np.array(self.common_neighbors[edge_idx], dtype=bool)
-- 
2.43.0


From 8b995fd1105a8e957020b89f2f90f27035630855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 02/34] fix: branch over cliques of the graph, not of its
 uncovered part

The neighborhood to branch on was taken from the matrix of uncovered
edges, so cliques using an already covered edge were never tried and the
cover found could be larger than necessary.
---
 medil/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/medil/graph.py b/medil/graph.py
index e69ecfe..37a956c 100644
--- a/medil/graph.py
+++ b/medil/graph.py
@@ -322,7 +322,8 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
 
         mask = common_neighbors[chosen_edge_idx].astype(bool)
 
-        chosen_nbrhood = self.adj_matrix.copy()
+        # covered edges still belong to cliques
+        chosen_nbrhood = self.unreduced.adj_matrix.copy()
         chosen_nbrhood[~mask, :] = 0
         chosen_nbrhood[:, ~mask] = 0
         if chosen_nbrhood.sum() <= mask.sum():
-- 
2.43.0


From 29b5c72169c98c4111f084bd189e54f5513221b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 03/34] fix: reduction rule 3 lost edges and added vertices to
 non-cliques

Covers found during reduction were returned without putting the vertices
reduced away by rule 3 back in, so their edges stayed uncovered. Where
they were put back, it was in the order of vertices instead of in reverse
order of deletion, also into cliques chosen before the deletion, and from
records shared with other branches of the search. Prisoners and exits
were determined from uncovered edges only, so that the vertex could be
added to cliques outside its neighborhood.
---
 medil/ecc_algorithms.py |  2 +-
 medil/graph.py          | 57 +++++++++++++++++++++++++++--------------
 2 files changed, 39 insertions(+), 20 deletions(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index 22af0c0..eef16f1 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -116,7 +116,7 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
         return None
 
     if branch_graph.num_edges == 0:  # equiv to len(branch_graph.extant_edges_idx)==0
-        return (
+        return branch_graph.reconstruct_cover(
             branch_graph.the_cover
         )  # not in paper, but speeds it up slightly; or rather return None?
 
diff --git a/medil/graph.py b/medil/graph.py
index 37a956c..edc51ec 100644
--- a/medil/graph.py
+++ b/medil/graph.py
@@ -162,7 +162,8 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
         self.get_edge = udg.get_edge
 
         if hasattr(udg, "reduced_away"):  # then rule_3 wasn't applied
-            self.reduced_away = udg.reduced_away
+            self.reduced_away = udg.reduced_away.copy()
+            self.reduced_order = udg.reduced_order.copy()
 
     def reset(self):
         self.__init__(self.unreduced)
@@ -274,22 +275,38 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
         # a solution for the unreduced instance, add v to every clique
         # containing a prisoner of v.
 
-        for vert, nbrhood in enumerate(self.adj_matrix):
-            if nbrhood[vert] == 0:  # then nbrhood is empty
+        # prisoners and exits are determined by all edges, also covered
+        # ones, between vertices that aren't deleted yet
+        extant_verts = self.adj_matrix.diagonal().astype(bool)
+        adj_matrix = self.unreduced.adj_matrix.astype(bool)
+        adj_matrix &= np.outer(extant_verts, extant_verts)
+
+        # edges that still need to be covered
+        uncovered = self.adj_matrix.astype(bool)
+        np.fill_diagonal(uncovered, False)
+
+        for vert, nbrhood in enumerate(adj_matrix):
+            if not uncovered[vert].any():  # then rule_1 applies instead
                 continue
             exits = np.zeros(self.unreduced.max_num_verts, bool)
             nbrs = np.flatnonzero(nbrhood)
             for nbr in nbrs:
-                if (nbrhood.astype(int) - self.adj_matrix[nbr].astype(int) == -1).any():
+                if np.logical_and(adj_matrix[nbr], ~nbrhood).any():
                     exits[nbr] = True
             # exits[j] == True iff j is an exit for vert
             # prisoners[j] == True iff j is a prisoner of vert
-            prisoners = np.logical_and(~exits, self.adj_matrix[vert])
+            prisoners = np.logical_and(~exits, nbrhood)
             prisoners[vert] = False  # a vert isn't its own prisoner
 
-            # check if each exit is adjacent to at least one prisoner
-            prisoners_dominate_exits = self.adj_matrix[prisoners][:, exits].sum(0)
-            if prisoners_dominate_exits.all():  # apply the rule
+            # check if each exit is adjacent to at least one prisoner and
+            # each prisoner to at least one vertex other than vert, via
+            # an uncovered edge; only then will adding vert to the
+            # cliques containing its prisoners cover all of its edges
+            to_prisoners = uncovered[prisoners]
+            to_prisoners[:, vert] = False
+            dominated = to_prisoners.any(0)
+            dominated[prisoners] = to_prisoners.any(1)
+            if dominated[uncovered[vert]].all():  # apply the rule
                 self.reducing = True
                 if self.verbose:
                     print("\t\t\tapplying Rule 3...")
@@ -308,7 +325,10 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
                 # keep track of deleted nodes and their prisoners for reconstructing solution
                 if not hasattr(self, "reduced_away"):
                     self.reduced_away = np.zeros_like(self.adj_matrix, bool)
+                    self.reduced_order = []
                 self.reduced_away[vert] = prisoners
+                num_cliques = 0 if self.the_cover is None else len(self.the_cover)
+                self.reduced_order.append((vert, num_cliques))
                 break
 
     def choose_nbrhood(self):
@@ -383,17 +403,16 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
         if not hasattr(self, "reduced_away"):  # then rule_3 wasn't applied
             return the_cover
 
-        # add the reduced away vert to all covering cliques containing at least one of its prisoners
-        to_expand = np.flatnonzero(self.reduced_away.sum(1))
-        for vert in to_expand:
-            prisoners = self.reduced_away[vert]
-            tiled_prisoners = np.tile(
-                prisoners, (len(the_cover), 1)
-            )  # instead of another loop
-            cliques_to_update_mask = (
-                np.logical_and(tiled_prisoners, the_cover).sum(1).astype(bool)
-            )
-            the_cover[cliques_to_update_mask, vert] = 1
+        # starting from the last one, add each reduced away vert to all
+        # cliques found after it was reduced away (earlier ones needn't be
+        # in its neighborhood) and containing at least one of its prisoners
+        the_cover = the_cover.copy()
+        for vert, num_cliques in reversed(self.reduced_order):
+            later_cliques = the_cover[num_cliques:]
+            cliques_to_update_mask = np.logical_and(
+                self.reduced_away[vert], later_cliques
+            ).any(1)
+            later_cliques[cliques_to_update_mask, vert] = 1
 
         return the_cover
 
-- 
2.43.0


From 22cde8b36a9ec5d2e2f1960f8b5bcec9886623a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 04/34] fix: reset() kept the vertices reduced away before it

---
 medil/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/medil/graph.py b/medil/graph.py
index edc51ec..a52e015 100644
--- a/medil/graph.py
+++ b/medil/graph.py
@@ -166,7 +166,9 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
             self.reduced_order = udg.reduced_order.copy()
 
     def reset(self):
-        self.__init__(self.unreduced)
+        unreduced = self.unreduced
+        vars(self).clear()  # also forget vertices reduced away
+        self.__init__(unreduced)
 
     def reduzieren(self, k_num_cliques):
         # reduce by first applying rule 1 and then repeatedly applying
-- 
2.43.0


From d530c49f518bc19244733e5d5ed60424a563ada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 05/34] fix: exact search returned incomplete covers when cut
 off

Search branches deeper than 3 returned the partial cover found so far as
the answer, leaving edges uncovered, e.g. for most dense graphs with 20
vertices and already for some with 7. Count the branchings of the whole
search instead of its depth, so that small graphs are searched
exhaustively, and complete the cover greedily when the search is cut off.
---
 medil/ecc_algorithms.py | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index eef16f1..6b5049e 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -1,6 +1,7 @@
 """Implementations of edge clique clover finding algorithms."""
 import subprocess, os, shutil
 from collections import deque
+from itertools import count
 
 import numpy as np
 
@@ -32,7 +33,9 @@ def find_clique_min_cover(graph, verbose=False):
     Notes
     -----
     This is an implementation of the algorithm described in
-    :cite:`Gramm_2009`.
+    :cite:`Gramm_2009`. For large dense graphs, the search is cut off
+    after a fixed number of iterations, in which case the cover is
+    complete but needn't be clique-minimum.
 
     """
     graph = UndirectedDependenceGraph(graph, verbose)
@@ -44,6 +47,7 @@ def find_clique_min_cover(graph, verbose=False):
 
     num_cliques = 1
     the_cover = None
+    iteration = count(1)
     if True:  # verbose:
         # find bound for cliques in solution
         max_intersect_num = graph.num_vertices**2 // 4
@@ -59,7 +63,9 @@ def find_clique_min_cover(graph, verbose=False):
                     num_cliques, max_intersect_num
                 )
             )
-        the_cover = branch(graph, num_cliques, the_cover, iteration=0, iteration_max=3)
+        the_cover = branch(
+            graph, num_cliques, the_cover, iteration, iteration_max=5000
+        )
         num_cliques += 1
 
     return add_isolated_verts(the_cover)
@@ -82,9 +88,11 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
     the_cover : np.array
                 Biadjacency matrix representing (possibly partial) edge clique cover.
 
-    iteration: current iteration
+    iteration : iterator of int
+                Counts the iterations (branchings) of the whole search.
 
-    iteration_max: maximum number of iteration_max
+    iteration_max : int
+                    Number of iterations after which the search is cut off and the partial cover is completed greedily.
 
     Returns
     -------
@@ -93,7 +101,6 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
 
     """
 
-    iteration = iteration + 1
     branch_graph = graph.reducible_copy()
     # if the_cover is not None:
     #     print(the_cover)
@@ -133,9 +140,8 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
             else np.vstack((branch_graph.the_cover, clique))
         )
 
-        # print(iteration)
-        if iteration > iteration_max:
-            return branch_graph.the_cover
+        if next(iteration) > iteration_max:
+            return complete_cover(branch_graph)
 
         the_cover_prime = branch(
             branch_graph,
@@ -149,6 +155,24 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
     return None
 
 
+def complete_cover(branch_graph):
+    """Greedily complete the partial cover of a `ReducibleUndDepGraph`."""
+    while True:
+        # num_edges is more cliques than the reductions can add
+        branch_graph.reduzieren(branch_graph.num_edges)
+        if branch_graph.num_edges == 0:
+            return branch_graph.reconstruct_cover(branch_graph.the_cover)
+
+        clique = np.zeros(branch_graph.unreduced.num_vertices, dtype=int)
+        clique[max(max_cliques(branch_graph.choose_nbrhood()), key=len)] = 1
+        branch_graph.the_cover = (
+            clique.reshape(1, -1)
+            if branch_graph.the_cover is None
+            else np.vstack((branch_graph.the_cover, clique))
+        )
+        branch_graph.cover_edges()
+
+
 def max_cliques(nbrhood):
     """Adaptation of NetworkX code for finding all maximal cliques.
 
-- 
2.43.0


From 66dbb8570d4f25b575d89f50bfb767d7cbccebd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 06/34] fix: exact search failed on graphs with an empty
 diagonal

Dependence graphs estimated by estimate_UDG() or a model have an empty
diagonal, for which the search raised an error or returned a wrong cover.
---
 medil/ecc_algorithms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index 6b5049e..9cef4a6 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -38,6 +38,8 @@ def find_clique_min_cover(graph, verbose=False):
     complete but needn't be clique-minimum.
 
     """
+    graph = graph.copy()
+    np.fill_diagonal(graph, 1)  # as required by UndirectedDependenceGraph
     graph = UndirectedDependenceGraph(graph, verbose)
     try:
         graph.make_aux()
-- 
2.43.0


From ed223176068e85c219734e15e2cc8bfa74ff4ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 07/34] fix: heuristic search failed whenever edges were left
 to cover

Edges left uncovered by the neighborhoods of the maximum independent set
were collected as (unhashable) arrays in a set, raising a TypeError, e.g.
for the 5-cycle.
---
 medil/ecc_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index 9cef4a6..6a6fda0 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -272,7 +272,7 @@ def find_heuristic_1pc(graph):
 
     uncovered_edges = deque(
         {
-            edge
+            (edge[0], edge[1])
             for edge in np.argwhere(np.triu(graph, 1))
             if not np.logical_and(the_cover[:, edge[0]], the_cover[:, edge[1]]).any()
         }
-- 
2.43.0


From bb0bd3d75d31fe2e7e73b0288a948544d65725e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 08/34] fix: Gaussian dependence graph depended on units of
 measurement

The BIC difference of adding an edge is n*log(1-r^2)+log(n) for
correlation r, but the covariance times the correlation was used in place
of r^2, so that rescaling the data added or removed edges.
---
 medil/models.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index 1fdb927..fb43f93 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -118,9 +118,8 @@ class GaussianMCM(MedilCausalModel):
     def _estimate_udg(self):
         """Constraint-based structure learning."""
         samp_size = len(self.dataset)
-        cov = np.cov(self.dataset, rowvar=False)
         corr = np.corrcoef(self.dataset, rowvar=False)
-        inner_numerator = 1 - cov * corr  # should never be <= 0?
+        inner_numerator = 1 - corr**2  # may be <= 0 due to numerical error
         inner_numerator = inner_numerator.clip(min=0.00001)
         inner_numerator[np.tril_indices_from(inner_numerator)] = 1
         udg_triu = np.log(inner_numerator) < (-np.log(samp_size) / samp_size)
-- 
2.43.0


From cc71bc76f02939047789cebeac1e5d8a1b7f8982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 09/34] fix: refitting a Gaussian model kept the structure of
 the first dataset

The structure learned by the first call of fit() was taken for a given
one by later calls, unlike in the scikit-learn API.
---
 medil/models.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/medil/models.py b/medil/models.py
index fb43f93..cb05e45 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -72,11 +72,20 @@ class GaussianMCM(MedilCausalModel):
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
         self.parameters = Parameters("Gaussian")
+        self._learned_biadj = None
+        self._learned_udg = None
 
     def fit(self, dataset: npt.NDArray) -> "GaussianMCM":
         """Fit a Gaussian MCM to a dataset with constraint-based
         structure learning and least squares parameter estimation."""
         self.dataset = dataset
+
+        # forget structure learned from earlier datasets, but not if given
+        if self.biadj is self._learned_biadj:
+            self.biadj = np.array([])
+        if self.udg is self._learned_udg:
+            self.udg = np.array([])
+
         if self.biadj.size == 0:
             self._compute_biadj()
 
@@ -114,6 +123,7 @@ class GaussianMCM(MedilCausalModel):
         if self.udg.size == 0:
             self._estimate_udg()
         self.biadj = find_heuristic_1pc(self.udg)
+        self._learned_biadj = self.biadj
 
     def _estimate_udg(self):
         """Constraint-based structure learning."""
@@ -125,6 +135,7 @@ class GaussianMCM(MedilCausalModel):
         udg_triu = np.log(inner_numerator) < (-np.log(samp_size) / samp_size)
         udg = udg_triu + udg_triu.T
         self.udg = udg
+        self._learned_udg = udg
 
     def sample(self, sample_size: int) -> npt.NDArray:
         """Sample a dataset from a GaussianMCM, after structure and
-- 
2.43.0


From 47549c79fa8df660fa752a47235baef42a7376c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 10/34] fix: dcov() wasn't the sample distance covariance

Only one triangle of the doubly centered distance matrices was summed and
the diagonal left out, so that values were less than half of the sample
distance covariance and the test based on them missed dependences.
---
 medil/independence_testing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/medil/independence_testing.py b/medil/independence_testing.py
index dd9f1ac..2a8e675 100644
--- a/medil/independence_testing.py
+++ b/medil/independence_testing.py
@@ -27,6 +27,7 @@ def dcov(samples):
     num_samps, num_feats = samples.shape
     num_pairs = num_samps * (num_samps - 1) // 2
     dists = np.zeros((num_feats, num_pairs))
+    diags = np.zeros((num_feats, num_samps))
     d_bars = np.zeros(num_feats)
     # compute doubly centered distance matrix for every feature:
     for feat_idx in range(num_feats):
@@ -37,10 +38,12 @@ def dcov(samples):
         # doubly centered:
         d_bar = d.mean()
         d -= t(d.mean(0), (n, 1)) + t(d.mean(1), (n, 1)).T - t(d_bar, (n, n))
+        diags[feat_idx] = d.diagonal()
         d = squareform(d, checks=False)  # ignore assymmetry due to numerical error
         dists[feat_idx] = d
         d_bars[feat_idx] = d_bar
-    return dists @ dists.T / num_samps**2, d_bars
+    # each pair occurs twice in the (doubly centered) distance matrix
+    return (2 * dists @ dists.T + diags @ diags.T) / num_samps**2, d_bars
 
 
 def estimate_UDG(sample, method="dcov_fast", significance_level=0.05):
-- 
2.43.0


From b1caa136b8470cab8d6284e084256fa1364fcd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 11/34] fix: xi correlation was wrong for samples with ties

The coefficient counts the values not above (not below) each value, i.e.
maximum ranks (as does the original R implementation), but average ranks
were used. Independent binary samples got a coefficient of 1/3 and p-value
0, and a constant sample a coefficient of 1.
---
 medil/independence_testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/independence_testing.py b/medil/independence_testing.py
index 2a8e675..975a182 100644
--- a/medil/independence_testing.py
+++ b/medil/independence_testing.py
@@ -108,8 +108,8 @@ def _xicorr(x: npt.NDArray[np.float64], y: npt.NDArray[np.float64]) -> _XiCorr:
     # https://github.com/cran/XICOR/blob/master/R/calculateXI.R
     n = x.size
     PI = rankdata(x, method="average")
-    fr = rankdata(y, method="average") / n
-    gr = rankdata(-y, method="average") / n
+    fr = rankdata(y, method="max") / n
+    gr = rankdata(-y, method="max") / n
     cu = np.mean(gr * (1 - gr))
     A1 = np.abs(np.diff(fr[np.argsort(PI, kind="quicksort")])).sum() / (2 * n)
     xi = 1.0 - A1 / cu
-- 
2.43.0


From 4ecaaf1453c851ba0ed9bef621df5dc90c7c8313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 12/34] fix: NCFA training ignored its seed

Weights are initialised and latents sampled by torch, but only NumPy was
seeded, so that fits with equal seeds differed.
---
 medil/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/medil/models.py b/medil/models.py
index cb05e45..06959f3 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -213,6 +213,7 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
         valid_loader = self._data_loader(valid_split)
 
         np.random.seed(self.seed)
+        torch.manual_seed(self.seed)
 
         model_recon, loss_recon, error_recon = self._train_vae(
             train_loader, valid_loader
-- 
2.43.0


From 733d4c1b034bb5c6be265297717d1e0d61c25e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 13/34] fix: NCFA trained in evaluation mode after the first
 epoch

Validation switches the model to evaluation mode, in which latents aren't
sampled, and it was never switched back.
---
 medil/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index 06959f3..a67ee16 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -284,12 +284,12 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
         self.log(f"Number of parameters: {num_params}")
 
         # training loop
-        model.train()
         train_elbo, train_error = [], []
         valid_elbo, valid_error = [], []
 
         for idx in range(self.hyperparams["num_epochs"]):
             self.log(f"Training on epoch {idx}...")
+            model.train()  # because validation sets evaluation mode
             train_lb, train_er, nbatch = 0.0, 0.0, 0
 
             for x_batch, _ in train_loader:
-- 
2.43.0


From 1d32cf5445981ebb133bf4a9401bf33934d99604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 14/34] fix: training log was written outside paths without
 trailing slash

---
 medil/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index a67ee16..6026b9b 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -190,7 +190,7 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
 
     def log(self, entry: str) -> None:
         time_stamped_entry = f"{datetime.now().strftime('%Y-%m-%d %H:%M:%S')} {entry}"
-        with open(f"{self.path}training.log", "a") as log_file:
+        with open(os.path.join(self.path, "training.log"), "a") as log_file:
             log_file.write(time_stamped_entry + "\n")
         if self.verbose:
             print(time_stamped_entry)
-- 
2.43.0


From 1f4966257520afaf0f95f37da2b1b151aca7e950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 15/34] fix: data wasn't standardized when split indices were
 given

---
 medil/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index 6026b9b..fafb497 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -206,8 +206,8 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
                 standardized, train_size=0.7, random_state=self.seed
             )
         else:
-            train_split = dataset[split_idcs[0]]
-            valid_split = dataset[split_idcs[1]]
+            train_split = standardized[split_idcs[0]]
+            valid_split = standardized[split_idcs[1]]
 
         train_loader = self._data_loader(train_split)
         valid_loader = self._data_loader(valid_split)
-- 
2.43.0


From 354538032e5dc0406de626ed38b768f184575c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 16/34] fix: ELBO used the determinant in place of the log
 determinant

The Gaussian log-density has -log(det(cov))/2, not -det(cov)/2.
---
 medil/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index fafb497..8a1e129 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -407,7 +407,7 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
 
         diff = x - x_recon
         recon_loss = torch.sum(
-            torch.det(cov)
+            torch.logdet(cov)
             + torch.diagonal(
                 torch.mm(
                     torch.mm(diff, torch.inverse(cov)), torch.transpose(diff, 0, 1)
@@ -451,7 +451,7 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
         diff = x - x_recon
         if weighted:
             error = torch.sum(
-                torch.det(cov)
+                torch.logdet(cov)
                 + torch.diagonal(
                     torch.mm(
                         torch.mm(diff, torch.inverse(cov)), torch.transpose(diff, 0, 1)
-- 
2.43.0


From f7d13d7ac5d0828eb40164c7e772530dede088b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 17/34] fix: hidden layers of the decoder were never trained

They were kept in a plain dict and so not registered: their weights were
not among the parameters given to the optimiser, counted in the log, or
saved in the state dict.
---
 medil/vae.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/medil/vae.py b/medil/vae.py
index ba9677d..96a6836 100644
--- a/medil/vae.py
+++ b/medil/vae.py
@@ -94,22 +94,26 @@ class Decoder(Block):
         hidden_blocks = [hidden_block for _ in range(num_meas)]
         hidden_mask = torch.block_diag(*hidden_blocks)
 
-        self.mean_linear_hidden = {
-            layer_idx: SparseLinear(
-                in_features=self.hidden_dim,
-                out_features=self.hidden_dim,
-                mask=hidden_mask,
-            )
-            for layer_idx in range(num_hidden_layers)
-        }
-        self.cov_linear_hidden = {
-            layer_idx: SparseLinear(
-                in_features=self.hidden_dim,
-                out_features=self.hidden_dim,
-                mask=hidden_mask,
-            )
-            for layer_idx in range(num_hidden_layers)
-        }
+        self.mean_linear_hidden = nn.ModuleDict(
+            {
+                str(layer_idx): SparseLinear(
+                    in_features=self.hidden_dim,
+                    out_features=self.hidden_dim,
+                    mask=hidden_mask,
+                )
+                for layer_idx in range(num_hidden_layers)
+            }
+        )
+        self.cov_linear_hidden = nn.ModuleDict(
+            {
+                str(layer_idx): SparseLinear(
+                    in_features=self.hidden_dim,
+                    out_features=self.hidden_dim,
+                    mask=hidden_mask,
+                )
+                for layer_idx in range(num_hidden_layers)
+            }
+        )
 
         output_block = torch.ones(1, width_per_meas)
         output_blocks = [output_block for _ in range(num_meas)]
-- 
2.43.0


From b20522db7a65da4f3f95c9b053ac7aca73555b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 18/34] fix: random models ignored the generator given

Structure and samples were drawn from hidden shared generators, so that
models drawn with equally seeded generators differed.
---
 medil/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/sample.py b/medil/sample.py
index f3f41f3..6f75964 100644
--- a/medil/sample.py
+++ b/medil/sample.py
@@ -14,9 +14,9 @@ def mcm(
     **kwargs,
 ) -> GaussianMCM:
     if biadj.size == 0:
-        biadj = _biadj(**kwargs)
+        biadj = _biadj(rng=rng, **kwargs)
     if parameterization == "Gaussian":
-        mcm = GaussianMCM(biadj=biadj)
+        mcm = GaussianMCM(biadj=biadj, rng=rng)
         params = mcm.parameters
 
         num_edges = biadj.sum()
-- 
2.43.0


From 464b7b6662443fc34be8effe7946170602f122c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 19/34] fix: DevMedil couldn't be sampled from after fitting

---
 medil/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/medil/models.py b/medil/models.py
index 8a1e129..96bd4e9 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -530,6 +530,7 @@ class DevMedil(MedilCausalModel):
         self.result = result
         self.W_hat = result.x[: num_latent * num_meas].reshape(num_latent, num_meas)
         self.D_hat = np.diag(result.x[num_latent * num_meas :])
+        self.W_hat_mle, self.D_hat_mle = self.W_hat, self.D_hat
         self.convergence_success_mle = result.success
         self.convergence_message_mle = result.message
 
@@ -584,6 +585,7 @@ class DevMedil(MedilCausalModel):
         self.result = result
         self.W_hat = result.x[: num_latent * num_meas].reshape(num_latent, num_meas)
         self.D_hat = np.diag(np.abs(result.x[num_latent * num_meas :]))
+        self.W_hat_lse, self.D_hat_lse = self.W_hat, self.D_hat
         self.convergence_success_lse = result.success
         self.convergence_message_lse = result.message
 
-- 
2.43.0


From e33bd10c5e64568ee7eab083df226ffb5729d4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 20/34] fix: show_pairwise_plot() used pandas without importing
 it

---
 medil/visualize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/medil/visualize.py b/medil/visualize.py
index a59f5ce..e8f3ad5 100644
--- a/medil/visualize.py
+++ b/medil/visualize.py
@@ -1,5 +1,6 @@
 """ Create and display various graphs, plots, and visualizations."""
 import numpy as np
+import pandas as pd
 import matplotlib.pyplot as plt
 import seaborn as sns
 import networkx as nx
-- 
2.43.0


From faca1f5b06c9c5a612a1176109d174abe2a7fa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 21/34] fix: show_obs_adj_mat() called a function that doesn't
 exist

---
 medil/visualize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/medil/visualize.py b/medil/visualize.py
index e8f3ad5..09cb79f 100644
--- a/medil/visualize.py
+++ b/medil/visualize.py
@@ -5,12 +5,14 @@ import matplotlib.pyplot as plt
 import seaborn as sns
 import networkx as nx
 
+from .evaluate import recover_ug
+
 
 def show_obs_adj_mat(incidence_mat):
 
     fig, ax = plt.subplots()
 
-    adj_mat = get_adj_from_incidence(incidence_mat)
+    adj_mat = recover_ug(incidence_mat.astype(bool))
     plt.imshow(adj_mat)
 
     dim = adj_mat.shape[0]
-- 
2.43.0


From 9654e1307cd6e8bbb6c7ff7b1959f924504b50b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 22/34] fix: permutation distances truncated true weights for
 integer predictions

The true weights were copied into an array of the predictions' data type.
---
 medil/evaluate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/evaluate.py b/medil/evaluate.py
index 7784dcb..1e08083 100644
--- a/medil/evaluate.py
+++ b/medil/evaluate.py
@@ -53,7 +53,7 @@ def recover_ug(biadj_mat):
 
 
 def min_perm_squared_l2_dist(predicted_W: npt.NDArray, true_W: npt.NDArray):
-    zeros = np.zeros_like(predicted_W)
+    zeros = np.zeros_like(predicted_W, dtype=float)
     num_latents = len(true_W)
     zeros[:num_latents] = true_W
     true_W = zeros
@@ -75,7 +75,7 @@ def min_perm_squared_l2_dist(predicted_W: npt.NDArray, true_W: npt.NDArray):
 
 
 def min_perm_squared_l2_dist_abs(predicted_W: npt.NDArray, true_W: npt.NDArray):
-    zeros = np.zeros_like(predicted_W)
+    zeros = np.zeros_like(predicted_W, dtype=float)
     num_latents = len(true_W)
     zeros[:num_latents] = true_W
     true_W = zeros
-- 
2.43.0


From 43200cefeefc0ed1d1de89144a04806dd6d0c520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 23/34] fix: fitted error variances could be negative

The least squares objective was minimised over unconstrained error
variances, e.g. -0.157 for correlations 0.9, 0.9, 0.7 and one latent, so
that samples drawn from the fitted model had a different covariance.
Constrain the error variances if the unconstrained optimum is invalid.
---
 medil/models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index 96bd4e9..1329115 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -107,7 +107,11 @@ class GaussianMCM(MedilCausalModel):
                 (cov - biadj_weights.T @ biadj_weights - np.diagflat(err_vars)) ** 2
             ).sum()
 
-        result = minimize(_objective, np.ones(num_weights + num_err_vars))
+        init = np.ones(num_weights + num_err_vars)
+        result = minimize(_objective, init)
+        if (result.x[num_weights:] < 0).any():  # then variances are invalid
+            bounds = [(None, None)] * num_weights + [(0, None)] * num_err_vars
+            result = minimize(_objective, init, bounds=bounds)
         if not result.success:
             warnings.warn(f"Optimization failed: {result.message}")
 
-- 
2.43.0


From 759602f821e97d50e2ce4252aedd80b6fbf732b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 24/34] fix: fitting could stop at a saddle point for negative
 covariances

Starting from equal weights, the optimiser keeps measurements with equal
variances equal, so a negative covariance (e.g. of standardized data)
can't be reached. Start from weights of matching signs instead.
---
 medil/models.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/medil/models.py b/medil/models.py
index 1329115..fa9f4ed 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -108,6 +108,11 @@ class GaussianMCM(MedilCausalModel):
             ).sum()
 
         init = np.ones(num_weights + num_err_vars)
+        # signs relative to each latent's first child; with equal signs
+        # throughout, negative covariances can lead to a saddle point
+        first_children = self.biadj.argmax(1)
+        signs = np.where(np.atleast_2d(cov)[first_children] < 0, -1, 1)
+        init[:num_weights] = signs[self.biadj]
         result = minimize(_objective, init)
         if (result.x[num_weights:] < 0).any():  # then variances are invalid
             bounds = [(None, None)] * num_weights + [(0, None)] * num_err_vars
-- 
2.43.0


From 8c9ab8740b804280e207e7a0d22ae4cd0f167f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:17 +0000
Subject: [PATCH 25/34] fix: penalised LSE reported other error variances than
 it optimised

---
 medil/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index fa9f4ed..8dd52a9 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -576,7 +576,7 @@ class DevMedil(MedilCausalModel):
 
         def penalized_lse_loss(W_and_D):
             W = W_and_D[: num_latent * num_meas].reshape(num_latent, num_meas)
-            D = np.diag(W_and_D[num_latent * num_meas :])
+            D = np.diag(np.abs(W_and_D[num_latent * num_meas :]))
 
             loss = norm(Sigma_hat - W.T @ W - D, "fro") ** 2
             # nuclear norm for the first penalty term
-- 
2.43.0


From 062a52f82df33682aad689fbd30dd3d19b47b855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:17 +0000
Subject: [PATCH 26/34] fix: penalised MLE could return negative error
 variances

---
 medil/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index 8dd52a9..b57526b 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -513,7 +513,7 @@ class DevMedil(MedilCausalModel):
 
         def penalized_mle_loss(W_and_D):
             W = W_and_D[: num_latent * num_meas].reshape(num_latent, num_meas)
-            D = np.diag(W_and_D[num_latent * num_meas :])
+            D = np.diag(np.abs(W_and_D[num_latent * num_meas :]))
 
             Sigma = self.compute_sigma(W, D)
             Sigma_inv = np.linalg.inv(Sigma)
@@ -538,7 +538,7 @@ class DevMedil(MedilCausalModel):
         result = minimize(penalized_mle_loss, initial_W_and_D, method="BFGS")
         self.result = result
         self.W_hat = result.x[: num_latent * num_meas].reshape(num_latent, num_meas)
-        self.D_hat = np.diag(result.x[num_latent * num_meas :])
+        self.D_hat = np.diag(np.abs(result.x[num_latent * num_meas :]))
         self.W_hat_mle, self.D_hat_mle = self.W_hat, self.D_hat
         self.convergence_success_mle = result.success
         self.convergence_message_mle = result.message
-- 
2.43.0


From 0961f1f1891c7e664a7c368733c58298e563392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 27/34] fix: distance correlation tests of integer data
 overflowed

---
 medil/independence_testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/independence_testing.py b/medil/independence_testing.py
index 975a182..f9645cf 100644
--- a/medil/independence_testing.py
+++ b/medil/independence_testing.py
@@ -79,7 +79,7 @@ def estimate_UDG(sample, method="dcov_fast", significance_level=0.05):
 
 
 def dcor_test(x_y):
-    x, y = x_y
+    x, y = np.asarray(x_y, float)  # small integers would overflow
     return distance_correlation_t_test(x, y).pvalue
 
 
-- 
2.43.0


From 29cf77c98eb8e1dbd7e503b76c522e7cc86d8b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 28/34] fix: xicorr failed for boolean and was wrong for
 unsigned y, and lost precision for single precision y

---
 medil/independence_testing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/medil/independence_testing.py b/medil/independence_testing.py
index f9645cf..a3c5db3 100644
--- a/medil/independence_testing.py
+++ b/medil/independence_testing.py
@@ -108,8 +108,10 @@ def _xicorr(x: npt.NDArray[np.float64], y: npt.NDArray[np.float64]) -> _XiCorr:
     # https://github.com/cran/XICOR/blob/master/R/calculateXI.R
     n = x.size
     PI = rankdata(x, method="average")
-    fr = rankdata(y, method="max") / n
-    gr = rankdata(-y, method="max") / n
+    # ranks of single precision y are in single precision
+    fr = rankdata(y, method="max").astype(float) / n
+    # not of -y, which isn't possible for every dtype
+    gr = (n + 1 - rankdata(y, method="min").astype(float)) / n
     cu = np.mean(gr * (1 - gr))
     A1 = np.abs(np.diff(fr[np.argsort(PI, kind="quicksort")])).sum() / (2 * n)
     xi = 1.0 - A1 / cu
-- 
2.43.0


From 9c3405bc377dd6b74fef2d36e33678f4722b3825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 29/34] fix: exact search failed on some graphs given as floats

---
 medil/ecc_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index 6a6fda0..37cc264 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -38,7 +38,7 @@ def find_clique_min_cover(graph, verbose=False):
     complete but needn't be clique-minimum.
 
     """
-    graph = graph.copy()
+    graph = graph.astype(int)
     np.fill_diagonal(graph, 1)  # as required by UndirectedDependenceGraph
     graph = UndirectedDependenceGraph(graph, verbose)
     try:
-- 
2.43.0


From e804095b9a4eaee281f745413e9233de02037926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 30/34] fix: sfd of 8-bit structures overflowed

---
 medil/evaluate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/medil/evaluate.py b/medil/evaluate.py
index 1e08083..7d9337a 100644
--- a/medil/evaluate.py
+++ b/medil/evaluate.py
@@ -17,15 +17,15 @@ def sfd(predicted_biadj, true_biadj):
     ushd: structural hamming distance (undirected graph)
     """
 
+    true_biadj = true_biadj.astype(int)
+    predicted_biadj = predicted_biadj.astype(int)
+
     # ushd = shd_func(recover_ug(biadj_mat), recover_ug(biadj_mat_recon))
     ug = recover_ug(true_biadj)
     ug_recon = recover_ug(predicted_biadj)
 
     ushd = np.triu(np.logical_xor(ug, ug_recon), 1).sum()
 
-    true_biadj = true_biadj.astype(int)
-    predicted_biadj = predicted_biadj.astype(int)
-
     wtd_ug = true_biadj.T @ true_biadj
     wtd_ug_recon = predicted_biadj.T @ predicted_biadj
 
-- 
2.43.0


From b2b9b86e535f2b79a866d9c5d147bd4bacc4aa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 31/34] fix: Gaussian models with structures given as integers
 failed to fit

---
 medil/models.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index b57526b..1d81c36 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -101,7 +101,7 @@ class GaussianMCM(MedilCausalModel):
             err_vars = weights_and_err_vars[num_weights:]
 
             biadj_weights = np.zeros_like(self.biadj, float)
-            biadj_weights[self.biadj] = weights
+            biadj_weights[self.biadj.astype(bool)] = weights
 
             return (
                 (cov - biadj_weights.T @ biadj_weights - np.diagflat(err_vars)) ** 2
@@ -112,7 +112,7 @@ class GaussianMCM(MedilCausalModel):
         # throughout, negative covariances can lead to a saddle point
         first_children = self.biadj.argmax(1)
         signs = np.where(np.atleast_2d(cov)[first_children] < 0, -1, 1)
-        init[:num_weights] = signs[self.biadj]
+        init[:num_weights] = signs[self.biadj.astype(bool)]
         result = minimize(_objective, init)
         if (result.x[num_weights:] < 0).any():  # then variances are invalid
             bounds = [(None, None)] * num_weights + [(0, None)] * num_err_vars
@@ -123,7 +123,9 @@ class GaussianMCM(MedilCausalModel):
         self.parameters.error_variances = result.x[num_weights:]
 
         self.parameters.biadj_weights = np.zeros_like(self.biadj, float)
-        self.parameters.biadj_weights[self.biadj] = result.x[:num_weights]
+        self.parameters.biadj_weights[self.biadj.astype(bool)] = result.x[
+            :num_weights
+        ]
 
         return self
 
-- 
2.43.0


From 32aa824da438287944ad41299611b15f67194103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 32/34] fix: random models of structures given as integers
 failed or left the structure

---
 medil/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/sample.py b/medil/sample.py
index 6f75964..674b879 100644
--- a/medil/sample.py
+++ b/medil/sample.py
@@ -23,7 +23,7 @@ def mcm(
         weights = (rng.random(num_edges) * 1.5) + 0.5
         weights[rng.choice((True, False), num_edges)] *= -1
         params.biadj_weights = np.zeros_like(biadj, float)
-        params.biadj_weights[biadj] = weights
+        params.biadj_weights[biadj.astype(bool)] = weights
 
         num_meas = biadj.shape[1]
         params.error_means = rng.random(num_meas) * 2
-- 
2.43.0


From edb25b256130a734b4660eba57230fa61b9edb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:50 +0000
Subject: [PATCH 33/34] fix: announced bound on the number of cliques was too
 small for some graphs

---
 medil/ecc_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index 37cc264..bf8707a 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -55,7 +55,7 @@ def find_clique_min_cover(graph, verbose=False):
         max_intersect_num = graph.num_vertices**2 // 4
         if max_intersect_num < graph.num_edges:
             p = graph.n_choose_2(graph.num_vertices) - graph.num_edges
-            t = int(np.sqrt(p))
+            t = (1 + int(np.sqrt(1 + 4 * p))) // 2  # largest with t**2 - t <= p
             max_intersect_num = p + t if p > 0 else 1
         print("solution has at most {} cliques.".format(max_intersect_num))
     while the_cover is None:
-- 
2.43.0


From 5e5885822d12e1a61c253bc3ccb7e4b53c5c07df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:40 +0000
Subject: [PATCH 34/34] fix: structure learning failed for datasets with a
 single variable

---
 medil/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index 1d81c36..215b0d0 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -139,7 +139,7 @@ class GaussianMCM(MedilCausalModel):
     def _estimate_udg(self):
         """Constraint-based structure learning."""
         samp_size = len(self.dataset)
-        corr = np.corrcoef(self.dataset, rowvar=False)
+        corr = np.atleast_2d(np.corrcoef(self.dataset, rowvar=False))
         inner_numerator = 1 - corr**2  # may be <= 0 due to numerical error
         inner_numerator = inner_numerator.clip(min=0.00001)
         inner_numerator[np.tril_indices_from(inner_numerator)] = 1
-- 
2.43.0

