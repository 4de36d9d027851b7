From 6702ebfe8e6207821796409a0073d87201ab3335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:52 +0000
Subject: [PATCH 1/8] fix: cSIL incremental cross-cluster dissimilarities

The mean dissimilarity of the updated cluster to another centroid expands to
CP + n*|v|^2 - 2*G.v. The new-cluster branch lacked the factor 2, and the
existing-cluster branch used the already updated G although the new sample is
accounted for separately, so incremental and batch cSIL disagreed.
---
 src/cvi/modules/cSIL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cvi/modules/cSIL.py b/src/cvi/modules/cSIL.py
index 93c0911..21d1dd3 100644
--- a/src/cvi/modules/cSIL.py
+++ b/src/cvi/modules/cSIL.py
@@ -85,7 +85,7 @@ class cSIL(_base.CVI):
                     C = (
                         CP_new
                         + np.inner(self._v[cl, :], self._v[cl, :])
-                        - np.inner(G_new, self._v[cl, :])
+                        - 2 * np.inner(G_new, self._v[cl, :])
                     )
                     S_col_new[cl] = C
                     C = (
@@ -140,7 +140,7 @@ class cSIL(_base.CVI):
                     self._CP[i_label]
                     + np.inner(diff_x_v, diff_x_v)
                     + self._n[i_label] * np.inner(self._v[cl, :], self._v[cl, :])
-                    - 2 * np.inner(G_new, self._v[cl, :])
+                    - 2 * np.inner(self._G[i_label, :], self._v[cl, :])
                 )
                 S_col_new[cl] = C / n_new
                 # Row "bmu_temp" - E
-- 
2.43.0


From 35fe1edf5d772b095341104db1207fee668cd31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:05 +0000
Subject: [PATCH 2/8] fix: take a private floating-point copy of the samples

CH and WB kept a reference to the first sample as their running mean, so a
caller that refilled one sample buffer got wrong criterion values. Narrow
types were accumulated as they came: cSIL overflowed on integer samples, batch
rCIP overflowed to NaN, and batch means were rounded to float16.
---
 src/cvi/modules/_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index e931411..27f458a 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -134,6 +134,10 @@ class CVI():
             The CVI's criterion value.
         """
 
+        # Work on a private floating-point copy: the caller may reuse its buffer,
+        # and narrow data types would overflow or lose precision
+        data = np.array(data, dtype=float)
+
         # If we got 1D data, do a quick update
         if (data.ndim == 1):
             self._param_inc(data, label)
-- 
2.43.0


From 5599d51371d0b04f8d74e41a5aa979e3a2335cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:06 +0000
Subject: [PATCH 3/8] fix: batch mode with labels that are not exactly 0..k-1

The batch updates compared labels with the position of the cluster rather than
with the label at that position, so integer labels such as {1, 2} or {-1, 0, 4}
produced an empty cluster and a NaN criterion value, while incremental mode
accepts them.
---
 src/cvi/modules/CH.py   | 2 +-
 src/cvi/modules/DB.py   | 2 +-
 src/cvi/modules/GD43.py | 2 +-
 src/cvi/modules/GD53.py | 2 +-
 src/cvi/modules/PS.py   | 2 +-
 src/cvi/modules/WB.py   | 2 +-
 src/cvi/modules/XB.py   | 2 +-
 src/cvi/modules/cSIL.py | 4 ++--
 src/cvi/modules/rCIP.py | 2 +-
 9 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/cvi/modules/CH.py b/src/cvi/modules/CH.py
index 8a26113..47ee935 100644
--- a/src/cvi/modules/CH.py
+++ b/src/cvi/modules/CH.py
@@ -148,7 +148,7 @@ class CH(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/DB.py b/src/cvi/modules/DB.py
index 56275cd..a350aba 100644
--- a/src/cvi/modules/DB.py
+++ b/src/cvi/modules/DB.py
@@ -175,7 +175,7 @@ class DB(_base.CVI):
         for ix in range(self._n_clusters):
             # subset_indices = lambda x: labels[x] == ix
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/GD43.py b/src/cvi/modules/GD43.py
index 388780a..0ef6fba 100644
--- a/src/cvi/modules/GD43.py
+++ b/src/cvi/modules/GD43.py
@@ -169,7 +169,7 @@ class GD43(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/GD53.py b/src/cvi/modules/GD53.py
index 4134a40..640cece 100644
--- a/src/cvi/modules/GD53.py
+++ b/src/cvi/modules/GD53.py
@@ -170,7 +170,7 @@ class GD53(_base.CVI):
         for ix in range(self._n_clusters):
             # subset_indices = lambda x: labels[x] == ix
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/PS.py b/src/cvi/modules/PS.py
index 83b9101..4bd53b3 100644
--- a/src/cvi/modules/PS.py
+++ b/src/cvi/modules/PS.py
@@ -139,7 +139,7 @@ class PS(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/WB.py b/src/cvi/modules/WB.py
index d1694eb..32998cc 100644
--- a/src/cvi/modules/WB.py
+++ b/src/cvi/modules/WB.py
@@ -150,7 +150,7 @@ class WB(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/XB.py b/src/cvi/modules/XB.py
index 53dea02..d5b1e1c 100644
--- a/src/cvi/modules/XB.py
+++ b/src/cvi/modules/XB.py
@@ -166,7 +166,7 @@ class XB(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/cSIL.py b/src/cvi/modules/cSIL.py
index 21d1dd3..7bb9512 100644
--- a/src/cvi/modules/cSIL.py
+++ b/src/cvi/modules/cSIL.py
@@ -195,7 +195,7 @@ class cSIL(_base.CVI):
         D = np.zeros((self._n_samples, self._n_samples))
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
@@ -211,7 +211,7 @@ class cSIL(_base.CVI):
 
         for ix in range(self._n_clusters):
             for jx in range(self._n_clusters):
-                subset_ind = [x for x in range(len(labels)) if labels[x] == jx]
+                subset_ind = [x for x in range(len(labels)) if labels[x] == u[jx]]
                 self._S[jx, ix] = sum(D[ix, subset_ind]) / self._n[jx]
 
     @_base._add_docs(_base._evaluate_doc)
diff --git a/src/cvi/modules/rCIP.py b/src/cvi/modules/rCIP.py
index e9bf5a4..5b3b419 100644
--- a/src/cvi/modules/rCIP.py
+++ b/src/cvi/modules/rCIP.py
@@ -175,7 +175,7 @@ class rCIP(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
-- 
2.43.0


From a28c1ee9901a762b0cac648a64f272681650c3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:27 +0000
Subject: [PATCH 4/8] fix: refuse an incremental update after a batch update

Switching from batch to incremental is documented as unsupported and refused
for 2D data, but a single sample after a batch was accepted: depending on the
index it raised from half way through the update or was merged into whichever
cluster came first, returning a meaningless criterion value.
---
 src/cvi/modules/_base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index 27f458a..1e1b6b8 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -68,6 +68,7 @@ class CVI():
         self._n_clusters = 0
         self.criterion_value = 0.0
         self._is_setup = False
+        self._is_batch = False
 
     def _setup(self, sample: np.ndarray):
         """
@@ -102,6 +103,7 @@ class CVI():
         # Infer the data dimension and number of samples
         self._n_samples, self._dim = data.shape
         self._is_setup = True
+        self._is_batch = True
 
     @abstractmethod
     def _param_inc(self, sample: np.ndarray, label: int):
@@ -140,6 +142,13 @@ class CVI():
 
         # If we got 1D data, do a quick update
         if (data.ndim == 1):
+
+            # Error until batch to incremental is supported
+            if self._is_batch:
+                raise ValueError(
+                    "Switching from batch to incremental not supported"
+                )
+
             self._param_inc(data, label)
 
         # Otherwise, we got 2D data and do the correct update
-- 
2.43.0


From 3d5391b4ceb47f73c1d5be8e8581050de58be9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:27 +0000
Subject: [PATCH 5/8] fix: refuse samples of the wrong dimension and batches
 with missing labels

A sample of another length either broadcast silently into the statistics or
failed after the label had been registered, after which the object could not
be used any more. A label vector shorter than the batch silently dropped
samples from their clusters but not from the totals.
---
 src/cvi/modules/_base.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index 1e1b6b8..c2f5ae2 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -149,6 +149,12 @@ class CVI():
                     "Switching from batch to incremental not supported"
                 )
 
+            # Check that the sample has the dimension of the previous ones
+            if self._is_setup and len(data) != self._dim:
+                raise ValueError(
+                    f"Expected a sample of {self._dim} features, recieved {len(data)}"
+                )
+
             self._param_inc(data, label)
 
         # Otherwise, we got 2D data and do the correct update
@@ -163,6 +169,12 @@ class CVI():
                         "Batch CVI mode requires at least two unique labels"
                     )
 
+                # Check that there is one label per sample
+                if len(label) != len(data):
+                    raise ValueError(
+                        f"Recieved {len(label)} labels for {len(data)} samples"
+                    )
+
                 # Do a batch update
                 self._param_batch(data, label)
 
-- 
2.43.0


From 57f6d026d7fc2209b9a83f1b9ee10182b4c498ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:47 +0000
Subject: [PATCH 6/8] fix: make an update all or nothing

get_cvi changed the object in place step by step, so an exception part way (an
interrupt, a failed allocation, a sample that numpy refuses) left labels
registered without statistics or means without counts, and every later value
was wrong or raised; a batch that failed half way could not be repeated.
The update now works on a copy that replaces the state in one step. The copy
is of the order of the state that every evaluation already reads.
---
 src/cvi/modules/_base.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index c2f5ae2..c66bd46 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -6,6 +6,7 @@ Utilities that are common across all CVI objects.
 """
 
 # Standard library imports
+import copy
 from typing import (
     Callable,
     Union
@@ -140,6 +141,27 @@ class CVI():
         # and narrow data types would overflow or lose precision
         data = np.array(data, dtype=float)
 
+        # Update a copy and then switch to it in one step, so that an update that
+        # fails or is interrupted part way leaves this object as it was
+        updated = copy.deepcopy(self)
+        updated._update(data, label)
+        self.__dict__ = updated.__dict__
+
+        # Return the criterion value
+        return self.criterion_value
+
+    def _update(self, data: np.ndarray, label: Union[int, np.ndarray]):
+        """
+        Updates the CVI parameters and then the criterion value.
+
+        Parameters
+        ----------
+        data : np.ndarray
+            The sample(s) of features used for clustering.
+        label : Union[int, np.ndarray]
+            The label(s) prescribed to the sample(s) by the clustering algorithm.
+        """
+
         # If we got 1D data, do a quick update
         if (data.ndim == 1):
 
@@ -198,12 +220,8 @@ class CVI():
                 f"Please provide 1D or 2D numpy array, recieved ndim={data.ndim}"
             )
 
-        # Regardless of path, evaluate and extract the criterion value
+        # Regardless of path, evaluate the criterion value
         self._evaluate()
-        criterion_value = self.criterion_value
-
-        # Return the criterion value
-        return criterion_value
 
 
 # --------------------------------------------------------------------------- #
-- 
2.43.0


From dc8c9c91663b6a3ceac9ab8337f1dbc41a8d57f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:23 +0000
Subject: [PATCH 7/8] fix: batch cSIL no longer allocates a square matrix of
 the sample count

Only one row per cluster is used; batches of tens of thousands of samples,
which stream without trouble, failed with MemoryError.
---
 src/cvi/modules/cSIL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvi/modules/cSIL.py b/src/cvi/modules/cSIL.py
index 7bb9512..4d56a87 100644
--- a/src/cvi/modules/cSIL.py
+++ b/src/cvi/modules/cSIL.py
@@ -192,7 +192,7 @@ class cSIL(_base.CVI):
         self._v = np.zeros((self._n_clusters, self._dim))
         self._CP = np.zeros(self._n_clusters)
         self._S = np.zeros((self._n_clusters, self._n_clusters))
-        D = np.zeros((self._n_samples, self._n_samples))
+        D = np.zeros((self._n_clusters, self._n_samples))
         for ix in range(self._n_clusters):
             subset_indices = (
                 [x for x in range(len(labels)) if labels[x] == u[ix]]
-- 
2.43.0


From f23e22edf1460ba38307a357f0cbabb7b173148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:50 +0000
Subject: [PATCH 8/8] fix: rCIP overflows on streams and batches of 387 or more
 features

The normalising constant raised 2*pi to the number of features before taking
the inverse square root, which is out of range from 387 features on, so every
call raised OverflowError.
---
 src/cvi/modules/rCIP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cvi/modules/rCIP.py b/src/cvi/modules/rCIP.py
index 5b3b419..83fcac7 100644
--- a/src/cvi/modules/rCIP.py
+++ b/src/cvi/modules/rCIP.py
@@ -74,7 +74,7 @@ class rCIP(_base.CVI):
         if self._n_samples == 0:
             self._setup(sample)
 
-        self._constant = 1 / np.sqrt((2 * np.pi) ** self._dim)
+        self._constant = np.power(2 * np.pi, -self._dim / 2)
 
         # IF NEW CLUSTER LABEL
         # Correct for python 0-indexing
@@ -163,7 +163,7 @@ class rCIP(_base.CVI):
         epsilon = 12.0
         delta = 10.0 ** (-epsilon / self._dim)
         self._delta_term = np.eye(self._dim) * delta
-        self._constant = 1 / np.sqrt((2 * np.pi) ** self._dim)
+        self._constant = np.power(2 * np.pi, -self._dim / 2)
 
         # Take the average across all samples, but cast to 1-D vector
         u = np.unique(labels)
-- 
2.43.0

