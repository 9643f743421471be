From 808b1a2755548141466af19ef62e50c5944d7c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 01/88] fix: sketch bins count values equal to a split in the
 bin that contains them

Bins are left-closed [a, b) everywhere (table labels, transform), but
BSketch.bins counted a value equal to a split point in the bin on its left,
so for tied data the solved table disagreed with transform by a whole bin.
---
 optbinning/binning/distributed/bsketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index d75a10f..74e8788 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -58,7 +58,7 @@ def _indices_count(sketch_type, sketch, splits):
             values[i] = centroid.mean
             count[i] = centroid.count
 
-    indices = np.searchsorted(splits, values, side='left')
+    indices = np.searchsorted(splits, values, side='right')
     return indices, count
 
 
-- 
2.43.0


From b6dbc0f6745079dff39654d6bbf2aa2fc454ad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 02/88] fix: BSketch.merge keeps missing/special counts and
 does not alias the other sketch

When one side held no clean records, merge either returned early (dropping
the other's missing and special counts), or replaced its own state by
references to the other's internal sketches (dropping its own missing and
special counts and sharing later additions). GK.merge and TDigest.__add__
already deal with empty sketches.
---
 optbinning/binning/distributed/bsketch.py | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index 74e8788..0597394 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -184,13 +184,6 @@ class BSketch:
         if not self._mergeable(bsketch):
             raise Exception("bsketch does not share signature.")
 
-        if bsketch._sketch_e.n == 0 and bsketch._sketch_ne.n == 0:
-            return
-
-        if self._sketch_e.n == 0 and self._sketch_ne.n == 0:
-            self._copy(bsketch)
-            return
-
         # Merge sketches
         if self.sketch == "gk":
             self._sketch_e.merge(bsketch._sketch_e)
@@ -217,16 +210,6 @@ class BSketch:
 
         return new_sketch
 
-    def _copy(self, bsketch):
-        self._sketch_e = bsketch._sketch_e
-        self._sketch_ne = bsketch._sketch_ne
-
-        # Merge missing and special counts
-        self._count_missing_e = bsketch._count_missing_e
-        self._count_missing_ne = bsketch._count_missing_ne
-        self._count_special_e = bsketch._count_special_e
-        self._count_special_ne = bsketch._count_special_ne
-
     def _mergeable(self, other):
         special_eq = True
         if self.special_codes is not None and other.special_codes is not None:
-- 
2.43.0


From 8ef6d0da6cde3b3ca8e88a76a71d5154e71c52ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 03/88] fix: BCatSketch.merge copies category counts instead of
 sharing them

Categories new to the receiving sketch were stored by reference, so later
additions to either sketch changed the counts of the other one.
---
 optbinning/binning/distributed/bsketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index 0597394..53b3ab1 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -384,7 +384,7 @@ class BCatSketch:
                 self._d_categories[k][0] += v[0]
                 self._d_categories[k][1] += v[1]
             else:
-                self._d_categories[k] = v
+                self._d_categories[k] = list(v)
 
         # Merge missing and special counts
         self._count_missing_e += bcatsketch._count_missing_e
-- 
2.43.0


From c02a07f8bb65db132cbe803e97cb6d935f9d0019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 04/88] fix: GK.merge preserves the number of merged values

Non-positive rank increments were dropped, so the merged summary counted
more values than had been added and the solved binning table did not add up
to the number of records.
---
 optbinning/binning/distributed/gk.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/distributed/gk.py b/optbinning/binning/distributed/gk.py
index 42fe854..09efe3d 100644
--- a/optbinning/binning/distributed/gk.py
+++ b/optbinning/binning/distributed/gk.py
@@ -101,19 +101,23 @@ class GK:
         # upper bound elements(gk.v0, gk.v1) - spread
         g = gk.entries[0].g + gk.entries[0].delta - 1 - spread
 
+        # Carry non-positive increments over to the next entry, so that the
+        # increments add up to the number of values in gk.
         if g > 0:
             entries.append(Entry(gk._min, g, 0))
+            g = 0
 
         n_gk = len(gk)
         for i in range(n_gk - 1):
             tp1 = gk.entries[i + 1]
             t = gk.entries[i]
-            g = tp1.g + (tp1.delta - t.delta)
+            g += tp1.g + (tp1.delta - t.delta)
             if g > 0:
                 entries.append(Entry(t.value, g, 0))
+                g = 0
 
         last_t = gk.entries[n_gk - 1]
-        g = spread + 1 - last_t.delta
+        g += spread + 1 - last_t.delta
         if g > 0:
             entries.append(Entry(last_t.value, g, 0))
 
-- 
2.43.0


From 29ed88e9be5aa4afc6dace7afa7756307b0d25b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 05/88] fix: OptimalBinningSketch.information works when the
 solver was not run

_optimizer was only set by the solver, so information() raised
AttributeError after a solve with at most one prebin.
---
 optbinning/binning/distributed/binning_sketch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 06243d5..a547779 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -437,6 +437,7 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         self._binning_table = None
         self._n_refinements = 0
         self._n_prebins = None
+        self._optimizer = None
 
         # streaming stats
         self._n_add = 0
-- 
2.43.0


From 908e417f1fee9888951c8a30af8301fcf2fbf4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 06/88] fix: OptimalBinningSketch.merge supports sketches
 without data

Merging from or into an instance that had not received data raised
AttributeError, and an instance that had only been merged into could not be
solved because the merged additions were not counted.
---
 .../binning/distributed/binning_sketch.py     | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index a547779..3af19f5 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -473,12 +473,7 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         check_input : bool (default=False)
             Whether to check input arrays.
         """
-        if self._bsketch is None:
-            if self.dtype == "numerical":
-                self._bsketch = BSketch(self.sketch, self.eps, self.K,
-                                        self.special_codes)
-            else:
-                self._bsketch = BCatSketch(self.cat_cutoff, self.special_codes)
+        self._init_bsketch()
 
         # Add new data stream
         time_add = time.perf_counter()
@@ -542,7 +537,12 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         if not self.mergeable(optbsketch):
             raise Exception("optbsketch does not share signature.")
 
+        if optbsketch._bsketch is None:
+            return
+
+        self._init_bsketch()
         self._bsketch.merge(optbsketch._bsketch)
+        self._n_add += optbsketch._n_add
 
         if self.verbose:
             logger.info("Sketch: current sketch was merged.")
@@ -700,6 +700,14 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
                                        metric, metric_special, metric_missing,
                                        None, show_digits, check_input)
 
+    def _init_bsketch(self):
+        if self._bsketch is None:
+            if self.dtype == "numerical":
+                self._bsketch = BSketch(self.sketch, self.eps, self.K,
+                                        self.special_codes)
+            else:
+                self._bsketch = BCatSketch(self.cat_cutoff, self.special_codes)
+
     def _prebinning_data(self):
         self._n_nonevent_missing = self._bsketch._count_missing_ne
         self._n_nonevent_special = self._bsketch._count_special_ne
-- 
2.43.0


From 1ae94382589082915ee73aa49be22871e35f8fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 07/88] fix: sketch solve with a single prebin counts each
 record once

With no split points, solve overwrote the prebin counts with the totals of
the sketch, which include missing and special records, so these were counted
twice in the binning table; a single pure prebin raised IndexError.
---
 optbinning/binning/distributed/binning_sketch.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 3af19f5..c6d01d5 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -612,9 +612,9 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
 
         time_postprocessing = time.perf_counter()
 
-        if not len(splits):
-            n_nonevent = np.array([self._t_n_nonevent])
-            n_event = np.array([self._t_n_event])
+        if not len(n_nonevent):
+            n_nonevent = np.array([0])
+            n_event = np.array([0])
 
         self._n_nonevent, self._n_event = bin_info(
             self._solution, n_nonevent, n_event, self._n_nonevent_missing,
@@ -753,6 +753,9 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         self._n_refinements = 0
 
         n_event, n_nonevent = self._bsketch.bins(splits)
+        if not len(splits):
+            return splits, n_nonevent, n_event
+
         mask_remove = (n_nonevent == 0) | (n_event == 0)
 
         if np.any(mask_remove):
@@ -771,6 +774,9 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
 
     def _compute_cat_prebins(self, splits, categories, n_nonevent, n_event):
         self._n_refinements = 0
+        if not len(splits):
+            return splits, categories, n_nonevent, n_event
+
         mask_remove = (n_nonevent == 0) | (n_event == 0)
 
         if self.cat_heuristic and len(categories) > self.max_n_prebins:
-- 
2.43.0


From 491660a157eac7b9559e5a66061afcf3eb33fceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 08/88] fix: transform options of one variable do not leak to
 the next ones in binning processes

---
 optbinning/binning/binning_process.py         | 28 +++++++++----------
 .../distributed/binning_process_sketch.py     |  9 +++---
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 4c53022..8c89ce3 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1426,15 +1426,15 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             if self.binning_transform_params is not None:
                 params = self.binning_transform_params.get(name, {})
 
-            metric = params.get("metric", metric)
-            metric_missing = params.get("metric_missing", metric_missing)
-            metric_special = params.get("metric_special", metric_special)
+            var_metric = params.get("metric", metric)
 
             tparams = {
                 "x": x,
-                "metric": metric,
-                "metric_special": metric_special,
-                "metric_missing": metric_missing,
+                "metric": var_metric,
+                "metric_special": params.get(
+                    "metric_special", metric_special),
+                "metric_missing": params.get(
+                    "metric_missing", metric_missing),
                 "check_input": check_input,
                 "show_digits": show_digits
                 }
@@ -1442,7 +1442,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             if isinstance(optb, _OPTBPW_TYPES):
                 tparams.pop("show_digits")
 
-            if metric is None:
+            if var_metric is None:
                 tparams.pop("metric")
 
             X_transform[:, i] = optb.transform(**tparams)
@@ -1524,22 +1524,22 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 if self.binning_transform_params is not None:
                     params = self.binning_transform_params.get(name, {})
 
-                metric = params.get("metric", metric)
-                metric_missing = params.get("metric_missing", metric_missing)
-                metric_special = params.get("metric_special", metric_special)
+                var_metric = params.get("metric", metric)
 
                 tparams = {
                     "x": chunk[name],
-                    "metric": metric,
-                    "metric_special": metric_special,
-                    "metric_missing": metric_missing,
+                    "metric": var_metric,
+                    "metric_special": params.get(
+                        "metric_special", metric_special),
+                    "metric_missing": params.get(
+                        "metric_missing", metric_missing),
                     "show_digits": show_digits
                     }
 
                 if isinstance(optb, _OPTBPW_TYPES):
                     tparams.pop("show_digits")
 
-                if metric is None:
+                if var_metric is None:
                     tparams.pop("metric")
 
                 X_transform[:, i] = optb.transform(**tparams)
diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index c06e2c8..50910ae 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -563,14 +563,13 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
             if self.binning_transform_params is not None:
                 params = self.binning_transform_params.get(name, {})
 
-            metric_missing = params.get("metric_missing", metric_missing)
-            metric_special = params.get("metric_special", metric_special)
-
             tparams = {
                 "x": x,
                 "metric": metric,
-                "metric_special": metric_special,
-                "metric_missing": metric_missing,
+                "metric_special": params.get(
+                    "metric_special", metric_special),
+                "metric_missing": params.get(
+                    "metric_missing", metric_missing),
                 "check_input": check_input,
                 "show_digits": show_digits
                 }
-- 
2.43.0


From 58b67c1b26d298a25aa92d35e5d38b946066cf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 09/88] fix: transform_disk replaces a previous output file
 instead of appending to it

---
 optbinning/binning/binning_process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 8c89ce3..173a61b 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1545,6 +1545,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 X_transform[:, i] = optb.transform(**tparams)
 
             df = pd.DataFrame(X_transform, columns=selected_variables)
-            df.to_csv(output_path, mode='a', index=False, header=(k == 0))
+            df.to_csv(output_path, mode='w' if k == 0 else 'a', index=False,
+                      header=(k == 0))
 
         return self
-- 
2.43.0


From 64045b915ba754405603f5bef3e1bb4ff67cdebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 10/88] fix: binning process reads the extension of paths that
 contain other dots

---
 optbinning/binning/binning_process.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 173a61b..71e4b0e 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -6,6 +6,7 @@ Binning process.
 # Copyright (C) 2020
 
 import numbers
+import os
 import pickle
 import time
 
@@ -1195,7 +1196,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         _check_parameters(**self.get_params())
 
         # Input file extension
-        extension = input_path.split(".")[1]
+        extension = os.path.splitext(input_path)[1][1:]
 
         # Check extension
         if extension not in ("csv", "parquet"):
@@ -1457,8 +1458,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         metric_special, metric_missing, show_digits, **kwargs):
 
         # check input_path and output_path extensions
-        input_extension = input_path.split(".")[1]
-        output_extension = output_path.split(".")[1]
+        input_extension = os.path.splitext(input_path)[1][1:]
+        output_extension = os.path.splitext(output_path)[1][1:]
 
         if input_extension != "csv" or output_extension != "csv":
             raise ValueError("input_path and output_path must be csv files.")
-- 
2.43.0


From cd50659d307d752f93c118aca0bf34d385f2ea1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 11/88] fix: numeric metrics mixed with indices are not
 truncated in BinningProcess.transform

---
 optbinning/binning/binning_process.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 71e4b0e..aa53c65 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1402,6 +1402,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 if "bins" in metrics:
                     raise ValueError(
                         "metric 'bins' cannot be mixed with numeric metrics.")
+                base_metric = None
             else:
                 base_metric = metrics.pop()
 
@@ -1500,6 +1501,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 if "bins" in metrics:
                     raise ValueError(
                         "metric 'bins' cannot be mixed with numeric metrics.")
+                base_metric = None
             else:
                 base_metric = metrics.pop()
 
-- 
2.43.0


From e7e77e79d9e36e8b5cdd9ddf7878a70bdfffcc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 12/88] fix: BinningProcessSketch supports selection_criteria

---
 optbinning/binning/distributed/binning_process_sketch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index 50910ae..1c7882b 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -260,6 +260,9 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
 
         self._support = None
 
+        # fixed variables are not supported
+        self.fixed_variables = None
+
         # streaming stats
         self._n_add = 0
         self._n_solve = 0
-- 
2.43.0


From c81df9c697a091479d242b7494f86c1b217d8554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 13/88] fix: BinningProcessSketch.merge counts merged samples
 and supports instances without data

---
 .../distributed/binning_process_sketch.py     | 108 ++++++++++--------
 1 file changed, 60 insertions(+), 48 deletions(-)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index 1c7882b..3e7d90b 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -296,54 +296,7 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
         self : BinningProcessSketch
             Binning process with new data.
         """
-        if not self._is_started:
-            self._n_samples = 0
-            self._n_variables = len(self.variable_names)
-
-            if self.categorical_variables is not None:
-                self._n_categorical = len(self.categorical_variables)
-            else:
-                self._n_categorical = 0
-
-            self._n_numerical = self._n_variables - self._n_categorical
-
-            # Check selection criteria
-            if self.selection_criteria is not None:
-                _check_selection_criteria(self.selection_criteria,
-                                          self._target_dtype)
-
-            # Initialize bsketch for each variable. To avoid mixed dtypes
-            # the user must provide a dtype for all variables. This differs
-            # from the BinningProcess, where dtypes are inferred.
-            for name in self.variable_names:
-                if (self.categorical_variables is not None and
-                        name in self.categorical_variables):
-                    dtype = "categorical"
-                else:
-                    dtype = "numerical"
-
-                optb = OptimalBinningSketch(
-                        name=name, dtype=dtype,
-                        max_n_prebins=self.max_n_prebins,
-                        min_n_bins=self.min_n_bins,
-                        max_n_bins=self.max_n_bins,
-                        min_bin_size=self.min_bin_size,
-                        max_pvalue=self.max_pvalue,
-                        max_pvalue_policy=self.max_pvalue_policy,
-                        special_codes=self.special_codes,
-                        split_digits=self.split_digits)
-
-                if self.binning_fit_params is not None:
-                    params = self.binning_fit_params.get(name, {})
-                else:
-                    params = {}
-
-                optb.set_params(**params)
-
-                self._variable_dtypes[name] = dtype
-                self._binned_variables[name] = optb
-
-            self._is_started = True
+        self._start()
 
         # Add new data stream
         time_add = time.perf_counter()
@@ -426,10 +379,17 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
         if not self.mergeable(bpsketch):
             raise Exception("bpsketch does not share signature.")
 
+        if not bpsketch._is_started:
+            return
+
+        self._start()
         for name in self.variable_names:
             self._binned_variables[name].merge(
                 bpsketch._binned_variables[name])
 
+        self._n_samples += bpsketch._n_samples
+        self._n_add += bpsketch._n_add
+
         if self.verbose:
             logger.info("Sketch: current sketch was merged.")
 
@@ -642,3 +602,55 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
             return np.asarray(self.variable_names)[mask]
         else:
             return mask
+
+    def _start(self):
+        if self._is_started:
+            return
+
+        self._n_samples = 0
+        self._n_variables = len(self.variable_names)
+
+        if self.categorical_variables is not None:
+            self._n_categorical = len(self.categorical_variables)
+        else:
+            self._n_categorical = 0
+
+        self._n_numerical = self._n_variables - self._n_categorical
+
+        # Check selection criteria
+        if self.selection_criteria is not None:
+            _check_selection_criteria(self.selection_criteria,
+                                      self._target_dtype)
+
+        # Initialize bsketch for each variable. To avoid mixed dtypes
+        # the user must provide a dtype for all variables. This differs
+        # from the BinningProcess, where dtypes are inferred.
+        for name in self.variable_names:
+            if (self.categorical_variables is not None and
+                    name in self.categorical_variables):
+                dtype = "categorical"
+            else:
+                dtype = "numerical"
+
+            optb = OptimalBinningSketch(
+                    name=name, dtype=dtype,
+                    max_n_prebins=self.max_n_prebins,
+                    min_n_bins=self.min_n_bins,
+                    max_n_bins=self.max_n_bins,
+                    min_bin_size=self.min_bin_size,
+                    max_pvalue=self.max_pvalue,
+                    max_pvalue_policy=self.max_pvalue_policy,
+                    special_codes=self.special_codes,
+                    split_digits=self.split_digits)
+
+            if self.binning_fit_params is not None:
+                params = self.binning_fit_params.get(name, {})
+            else:
+                params = {}
+
+            optb.set_params(**params)
+
+            self._variable_dtypes[name] = dtype
+            self._binned_variables[name] = optb
+
+        self._is_started = True
-- 
2.43.0


From e05f83757d19e15fb38a8f6cb7d7ec71851617fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 14/88] fix: binning processes apply max_bin_size to their
 variables

---
 optbinning/binning/binning_process.py         | 32 ++++++++++++-------
 .../distributed/binning_process_sketch.py     |  1 +
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index aa53c65..71b00f9 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -77,7 +77,7 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
                   binning_fit_params, max_n_prebins, min_prebin_size,
                   min_n_bins, max_n_bins, min_bin_size, max_pvalue,
                   max_pvalue_policy, special_codes, split_digits,
-                  sample_weight=None):
+                  sample_weight=None, max_bin_size=None):
     params = {}
     dtype = _check_variable_dtype(x)
 
@@ -93,7 +93,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
             name=name, dtype=dtype, max_n_prebins=max_n_prebins,
             min_prebin_size=min_prebin_size,
             min_n_bins=min_n_bins, max_n_bins=max_n_bins,
-            min_bin_size=min_bin_size, max_pvalue=max_pvalue,
+            min_bin_size=min_bin_size, max_bin_size=max_bin_size,
+            max_pvalue=max_pvalue,
             max_pvalue_policy=max_pvalue_policy,
             special_codes=special_codes,
             split_digits=split_digits)
@@ -102,7 +103,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
             name=name, dtype=dtype, max_n_prebins=max_n_prebins,
             min_prebin_size=min_prebin_size,
             min_n_bins=min_n_bins, max_n_bins=max_n_bins,
-            min_bin_size=min_bin_size, max_pvalue=max_pvalue,
+            min_bin_size=min_bin_size, max_bin_size=max_bin_size,
+            max_pvalue=max_pvalue,
             max_pvalue_policy=max_pvalue_policy,
             special_codes=special_codes,
             split_digits=split_digits)
@@ -114,7 +116,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
             name=name, max_n_prebins=max_n_prebins,
             min_prebin_size=min_prebin_size,
             min_n_bins=min_n_bins, max_n_bins=max_n_bins,
-            min_bin_size=min_bin_size, max_pvalue=max_pvalue,
+            min_bin_size=min_bin_size, max_bin_size=max_bin_size,
+            max_pvalue=max_pvalue,
             max_pvalue_policy=max_pvalue_policy,
             special_codes=special_codes,
             split_digits=split_digits)
@@ -133,7 +136,7 @@ def _fit_block(X, y, names, target_dtype, categorical_variables,
                binning_fit_params, max_n_prebins, min_prebin_size,
                min_n_bins, max_n_bins, min_bin_size, max_pvalue,
                max_pvalue_policy, special_codes, split_digits,
-               sample_weight=None):
+               sample_weight=None, max_bin_size=None):
 
     variable_dtypes = {}
     binned_variables = {}
@@ -144,13 +147,13 @@ def _fit_block(X, y, names, target_dtype, categorical_variables,
                 X[:, i], y, name, target_dtype, categorical_variables,
                 binning_fit_params, max_n_prebins, min_prebin_size, min_n_bins,
                 max_n_bins, min_bin_size, max_pvalue, max_pvalue_policy,
-                special_codes, split_digits, sample_weight)
+                special_codes, split_digits, sample_weight, max_bin_size)
         else:
             dtype, optb = _fit_variable(
                 X[name], y, name, target_dtype, categorical_variables,
                 binning_fit_params, max_n_prebins, min_prebin_size, min_n_bins,
                 max_n_bins, min_bin_size, max_pvalue, max_pvalue_policy,
-                special_codes, split_digits, sample_weight)
+                special_codes, split_digits, sample_weight, max_bin_size)
 
         variable_dtypes[name] = dtype
         binned_variables[name] = optb
@@ -1123,7 +1126,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self.max_n_prebins, self.min_prebin_size,
                         self.min_n_bins, self.max_n_bins, self.min_bin_size,
                         self.max_pvalue, self.max_pvalue_policy,
-                        self.special_codes, self.split_digits, sample_weight)
+                        self.special_codes, self.split_digits, sample_weight,
+                        self.max_bin_size)
                 else:
                     dtype, optb = _fit_variable(
                         X[name], y, name, self._target_dtype,
@@ -1131,7 +1135,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self.max_n_prebins, self.min_prebin_size,
                         self.min_n_bins, self.max_n_bins, self.min_bin_size,
                         self.max_pvalue, self.max_pvalue_policy,
-                        self.special_codes, self.split_digits, sample_weight)
+                        self.special_codes, self.split_digits, sample_weight,
+                        self.max_bin_size)
 
                 self._variable_dtypes[name] = dtype
                 self._binned_variables[name] = optb
@@ -1149,7 +1154,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self.min_prebin_size, self.min_n_bins,
                         self.max_n_bins, self.min_bin_size,
                         self.max_pvalue, self.max_pvalue_policy,
-                        self.special_codes, self.split_digits, sample_weight)
+                        self.special_codes, self.split_digits, sample_weight,
+                        self.max_bin_size)
                     for id_block in id_blocks)
 
             else:
@@ -1161,7 +1167,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self.min_prebin_size, self.min_n_bins,
                         self.max_n_bins, self.min_bin_size,
                         self.max_pvalue, self.max_pvalue_policy,
-                        self.special_codes, self.split_digits, sample_weight)
+                        self.special_codes, self.split_digits, sample_weight,
+                        self.max_bin_size)
                     for id_block in id_blocks)
 
             for b in blocks:
@@ -1243,7 +1250,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 self.binning_fit_params, self.max_n_prebins,
                 self.min_prebin_size, self.min_n_bins, self.max_n_bins,
                 self.min_bin_size, self.max_pvalue, self.max_pvalue_policy,
-                self.special_codes, self.split_digits)
+                self.special_codes, self.split_digits,
+                max_bin_size=self.max_bin_size)
 
             self._variable_dtypes[name] = dtype
             self._binned_variables[name] = optb
diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index 3e7d90b..78c054e 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -638,6 +638,7 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
                     min_n_bins=self.min_n_bins,
                     max_n_bins=self.max_n_bins,
                     min_bin_size=self.min_bin_size,
+                    max_bin_size=self.max_bin_size,
                     max_pvalue=self.max_pvalue,
                     max_pvalue_policy=self.max_pvalue_policy,
                     special_codes=self.special_codes,
-- 
2.43.0


From 8e66b51a2720a4367844bee29daa847a9ae9fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 15/88] fix: mergeable supports parameters given as numpy
 arrays

---
 optbinning/binning/distributed/base.py              | 13 +++++++++++++
 .../binning/distributed/binning_process_sketch.py   |  4 ++--
 optbinning/binning/distributed/binning_sketch.py    |  4 ++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/distributed/base.py b/optbinning/binning/distributed/base.py
index 6adbc77..dce4769 100644
--- a/optbinning/binning/distributed/base.py
+++ b/optbinning/binning/distributed/base.py
@@ -5,9 +5,22 @@ Base optimal binning sketch algorithm class.
 # Guillermo Navas-Palencia <g.navas.palencia@gmail.com>
 # Copyright (C) 2021
 
+import numpy as np
+
 from ...exceptions import NotSolvedError
 
 
+def _equal_params(a, b):
+    if isinstance(a, dict) and isinstance(b, dict):
+        return (a.keys() == b.keys() and
+                all(_equal_params(a[k], b[k]) for k in a))
+
+    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
+        return np.array_equal(a, b)
+
+    return a == b
+
+
 class BaseSketch:
     def _check_is_solved(self):
         if not self._is_solved:
diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index 78c054e..62d4b1d 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -20,7 +20,7 @@ from ...binning.binning_process import _METRICS
 from ...binning.binning_process import BaseBinningProcess
 from ...exceptions import NotDataAddedError
 from ...logging import Logger
-from .base import BaseSketch
+from .base import _equal_params, BaseSketch
 from .binning_process_sketch_information import (
     print_binning_process_sketch_information)
 from .binning_sketch import OptimalBinningSketch
@@ -405,7 +405,7 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
         -------
         mergeable : bool
         """
-        return self.get_params() == bpsketch.get_params()
+        return _equal_params(self.get_params(), bpsketch.get_params())
 
     def solve(self):
         """Solve optimal binning for all variables using added data.
diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index c6d01d5..7883fb3 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -24,7 +24,7 @@ from ...binning.mip import BinningMIP
 from ...binning.transformations import transform_binary_target
 from ...information import solver_statistics
 from ...logging import Logger
-from .base import BaseSketch
+from .base import _equal_params, BaseSketch
 from .bsketch import BSketch, BCatSketch
 from .bsketch_information import print_binning_information
 from .plots import plot_progress_divergence
@@ -559,7 +559,7 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         -------
         mergeable : bool
         """
-        return self.get_params() == optbsketch.get_params()
+        return _equal_params(self.get_params(), optbsketch.get_params())
 
     def plot_progress(self):
         """Plot divergence measure progress."""
-- 
2.43.0


From 84172fe59b1e6a967104cc19161fa91b75a85117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 16/88] fix: sketches with different special codes are not
 merged

---
 optbinning/binning/distributed/bsketch.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index 53b3ab1..b98f24a 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -211,9 +211,10 @@ class BSketch:
         return new_sketch
 
     def _mergeable(self, other):
-        special_eq = True
         if self.special_codes is not None and other.special_codes is not None:
             special_eq = set(self.special_codes) == set(other.special_codes)
+        else:
+            special_eq = self.special_codes is other.special_codes
 
         return (self.sketch == other.sketch and self.eps == other.eps and
                 self.K == other.K and special_eq)
@@ -377,6 +378,8 @@ class BCatSketch:
         bcatsketch : object
             BCatSketch instance.
         """
+        if not self._mergeable(bcatsketch):
+            raise Exception("bcatsketch does not share signature.")
 
         # Merge categories
         for k, v in bcatsketch._d_categories.items():
@@ -400,9 +403,10 @@ class BCatSketch:
         self._count_special_ne = bcatsketch._count_special_ne
 
     def _mergeable(self, other):
-        special_eq = True
         if self.special_codes is not None and other.special_codes is not None:
             special_eq = set(self.special_codes) == set(other.special_codes)
+        else:
+            special_eq = self.special_codes is other.special_codes
 
         return special_eq
 
-- 
2.43.0


From 3d330199e220829e3f8ac6970476a72e5f84ce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 17/88] fix: binary binning table can be built when no bin has
 both classes

---
 optbinning/binning/binning_statistics.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 5867b6b..bd691c0 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -543,16 +543,21 @@ class BinningTable:
         p_ev = p_event[mask]
         p_nev = p_nonevent[mask]
 
-        iv[mask] = jeffrey(p_ev, p_nev, return_sum=False)
-        js[mask] = jensen_shannon(p_ev, p_nev, return_sum=False)
+        self._hellinger = 0.0
+        self._triangular = 0.0
+
+        if mask.any():
+            iv[mask] = jeffrey(p_ev, p_nev, return_sum=False)
+            js[mask] = jensen_shannon(p_ev, p_nev, return_sum=False)
+            self._hellinger = hellinger(p_ev, p_nev, return_sum=True)
+            self._triangular = triangular(p_ev, p_nev, return_sum=True)
+
         t_iv = iv.sum()
         t_js = js.sum()
 
         self._iv_values = iv
         self._iv = t_iv
         self._js = t_js
-        self._hellinger = hellinger(p_ev, p_nev, return_sum=True)
-        self._triangular = triangular(p_ev, p_nev, return_sum=True)
 
         # Compute KS
         self._ks = np.abs(p_event.cumsum() - p_nonevent.cumsum()).max()
-- 
2.43.0


From 7960269d15acf09f51d645a620550dbb09a0b22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 18/88] fix: sketch solve with hellinger and triangular
 divergences ignores empty prebins

---
 .../binning/distributed/binning_sketch.py     | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 7883fb3..e14bc50 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -731,6 +731,9 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
                 splits = np.array([sketch_all.percentile(p)
                                    for p in percentiles[1:-1]])
 
+            # Equal quantiles define empty prebins
+            splits = np.unique(splits)
+
             splits, n_nonevent, n_event = self._compute_prebins(splits)
         else:
             [splits, categories, n_nonevent, n_event, cat_others,
@@ -758,17 +761,20 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
 
         mask_remove = (n_nonevent == 0) | (n_event == 0)
 
-        if np.any(mask_remove):
-            if self.divergence in ("hellinger", "triangular"):
+        if self.divergence in ("hellinger", "triangular"):
+            if np.any(mask_remove):
                 self._flag_min_n_event_nonevent = True
-            else:
-                self._n_refinements += 1
 
-                mask_splits = np.concatenate(
-                    [mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
+            mask_remove = (n_nonevent + n_event) == 0
+
+        if np.any(mask_remove):
+            self._n_refinements += 1
+
+            mask_splits = np.concatenate(
+                [mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
-                splits = splits[~mask_splits]
-                splits, n_nonevent, n_event = self._compute_prebins(splits)
+            splits = splits[~mask_splits]
+            splits, n_nonevent, n_event = self._compute_prebins(splits)
 
         return splits, n_nonevent, n_event
 
-- 
2.43.0


From 69492ded9ed00f0b6263a5a6066a813eaf2504af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 19/88] fix: sketch solve does not keep a pure prebins flag
 from a previous solve

---
 optbinning/binning/distributed/binning_sketch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index e14bc50..71de8ec 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -709,6 +709,8 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
                 self._bsketch = BCatSketch(self.cat_cutoff, self.special_codes)
 
     def _prebinning_data(self):
+        self._flag_min_n_event_nonevent = False
+
         self._n_nonevent_missing = self._bsketch._count_missing_ne
         self._n_nonevent_special = self._bsketch._count_special_ne
         self._n_event_missing = self._bsketch._count_missing_e
-- 
2.43.0


From 9ebad316ab398943756a8e0760c7c8873f7cde54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 20/88] fix: refinement of categorical prebins in sketches
 counts each category once

---
 .../binning/distributed/binning_sketch.py     | 31 +++++++++----------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 71de8ec..0bab3fd 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -786,19 +786,23 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
             return splits, categories, n_nonevent, n_event
 
         mask_remove = (n_nonevent == 0) | (n_event == 0)
+        mask_size = np.zeros(len(n_nonevent), dtype=bool)
 
-        if self.cat_heuristic and len(categories) > self.max_n_prebins:
+        if self.cat_heuristic and len(n_nonevent) > self.max_n_prebins:
             n_records = n_nonevent + n_event
             mask_size = n_records < self._bsketch.n / self.max_n_prebins
-            mask_remove |= mask_size
 
-        if np.any(mask_remove):
-            if self.divergence in ("hellinger", "triangular"):
-                self._flag_min_n_event_nonevent = True
+        if (self.divergence in ("hellinger", "triangular") and
+                np.any(mask_remove)):
+            self._flag_min_n_event_nonevent = True
 
-                if self.cat_heuristic:
-                    mask_remove = mask_size
-            else:
+            if self.cat_heuristic:
+                mask_remove[:] = False
+
+        mask_remove |= mask_size
+
+        if np.any(mask_remove):
+            if self.divergence not in ("hellinger", "triangular"):
                 self._n_refinements += 1
 
             mask_splits = np.concatenate(
@@ -806,25 +810,20 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
 
             splits = splits[~mask_splits]
 
-            splits_int = np.ceil(splits).astype(int)
-            indices = np.digitize(np.arange(len(categories)), splits_int,
-                                  right=False)
+            # Bin of each prebin after removing splits
+            indices = np.concatenate([[0], np.cumsum(~mask_splits)])
             n_bins = len(splits) + 1
 
             new_nonevent = np.empty(n_bins, dtype=np.int64)
             new_event = np.empty(n_bins, dtype=np.int64)
-            new_categories = []
             for i in range(n_bins):
                 mask = (indices == i)
-                new_categories.append(categories[mask])
                 new_nonevent[i] = n_nonevent[mask].sum()
                 new_event[i] = n_event[mask].sum()
 
-            new_categories = np.array(new_categories, dtype=object)
-
             [splits, categories, n_nonevent,
              n_event] = self._compute_cat_prebins(
-                splits, new_categories, new_nonevent, new_event)
+                splits, categories, new_nonevent, new_event)
 
         return splits, categories, n_nonevent, n_event
 
-- 
2.43.0


From 57af05b366a795fa9c328a3a33a2219ff22ec328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 21/88] fix: an aborted fit does not leave the object fitted
 with a mixture of solutions

---
 optbinning/binning/binning.py                         |  3 +++
 optbinning/binning/binning_process.py                 |  9 +++++++++
 optbinning/binning/continuous_binning.py              |  3 +++
 optbinning/binning/multiclass_binning.py              |  3 +++
 optbinning/binning/multidimensional/binning_2d.py     |  3 +++
 .../binning/multidimensional/continuous_binning_2d.py |  3 +++
 optbinning/binning/piecewise/binning.py               |  3 +++
 optbinning/binning/piecewise/continuous_binning.py    |  3 +++
 optbinning/binning/uncertainty/binning_scenarios.py   |  3 +++
 optbinning/scorecard/counterfactual/counterfactual.py |  7 +++++++
 optbinning/scorecard/monitoring.py                    |  3 +++
 optbinning/scorecard/scorecard.py                     | 11 +++++++----
 12 files changed, 50 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index e2c1899..bf8b67f 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -706,6 +706,9 @@ class OptimalBinning(BaseOptimalBinning):
 
         _check_parameters(**self.get_params())
 
+        # The previous solution, if any, is discarded
+        self._is_fitted = False
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 71b00f9..0baa049 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1063,6 +1063,9 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
 
         _check_parameters(**self.get_params())
 
+        # The previous solution, if any, is discarded
+        self._is_fitted = False
+
         # check X dtype
         if not isinstance(X, (pd.DataFrame, np.ndarray)):
             raise TypeError("X must be a pandas.DataFrame or numpy.ndarray.")
@@ -1202,6 +1205,9 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
 
         _check_parameters(**self.get_params())
 
+        # The previous solution, if any, is discarded
+        self._is_fitted = False
+
         # Input file extension
         extension = os.path.splitext(input_path)[1][1:]
 
@@ -1282,6 +1288,9 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
 
         _check_parameters(**self.get_params())
 
+        # The previous solution, if any, is discarded
+        self._is_fitted = False
+
         if not isinstance(dict_optb, dict):
             raise TypeError("dict_optb must be a dict.")
 
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 0b6d3f3..3d89f74 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -554,6 +554,9 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         _check_parameters(**self.get_params())
 
+        # The previous solution, if any, is discarded
+        self._is_fitted = False
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index cc80add..adec15e 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -499,6 +499,9 @@ class MulticlassOptimalBinning(OptimalBinning):
 
         _check_parameters(**self.get_params())
 
+        # The previous solution, if any, is discarded
+        self._is_fitted = False
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index ac66cb1..f75080e 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -564,6 +564,9 @@ class OptimalBinning2D(OptimalBinning):
 
         _check_parameters(**self.get_params())
 
+        # The previous solution, if any, is discarded
+        self._is_fitted = False
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index f24102e..9fe9c5f 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -489,6 +489,9 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
 
         _check_parameters(**self.get_params())
 
+        # The previous solution, if any, is discarded
+        self._is_fitted = False
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
diff --git a/optbinning/binning/piecewise/binning.py b/optbinning/binning/piecewise/binning.py
index 73eb33b..ff6d7de 100644
--- a/optbinning/binning/piecewise/binning.py
+++ b/optbinning/binning/piecewise/binning.py
@@ -313,6 +313,9 @@ class OptimalPWBinning(BasePWBinning):
         _check_parameters(**self.get_params(deep=False),
                           problem_type=self._problem_type)
 
+        # The previous solution, if any, is discarded
+        self._is_fitted = False
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
diff --git a/optbinning/binning/piecewise/continuous_binning.py b/optbinning/binning/piecewise/continuous_binning.py
index b80500a..5353e9c 100644
--- a/optbinning/binning/piecewise/continuous_binning.py
+++ b/optbinning/binning/piecewise/continuous_binning.py
@@ -296,6 +296,9 @@ class ContinuousOptimalPWBinning(BasePWBinning):
         _check_parameters(**self.get_params(deep=False), estimator=None,
                           problem_type=self._problem_type)
 
+        # The previous solution, if any, is discarded
+        self._is_fitted = False
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index 8b5c8d3..7790c5a 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -473,6 +473,9 @@ class SBOptimalBinning(OptimalBinning):
         _check_parameters(**self.get_params())
         _check_X_Y_weights(X, Y, weights)
 
+        # The previous solution, if any, is discarded
+        self._is_fitted = False
+
         self._n_scenarios = len(X)
 
         if self.verbose:
diff --git a/optbinning/scorecard/counterfactual/counterfactual.py b/optbinning/scorecard/counterfactual/counterfactual.py
index 485f7b7..3feeae8 100644
--- a/optbinning/scorecard/counterfactual/counterfactual.py
+++ b/optbinning/scorecard/counterfactual/counterfactual.py
@@ -262,6 +262,10 @@ class Counterfactual(BaseCounterfactual):
 
         _check_parameters(**self.get_params(deep=False))
 
+        # The previous solution, if any, is discarded
+        self._is_fitted = False
+        self._is_generated = False
+
         if not isinstance(X, pd.DataFrame):
             raise TypeError("X must be a pandas.DataFrame.")
 
@@ -417,6 +421,9 @@ class Counterfactual(BaseCounterfactual):
             raise ValueError("time_limit must be a positive value in seconds; "
                              "got {}.".format(time_limit))
 
+        # The previous counterfactuals, if any, are discarded
+        self._is_generated = False
+
         # Transform query using scorecard binning process
         x, query = self._transform_query(query)
 
diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 0226dad..67c5a2f 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -253,6 +253,9 @@ class ScorecardMonitoring(BaseEstimator):
         # Check parameters
         _check_parameters(**self.get_params(deep=False))
 
+        # The previous solution, if any, is discarded
+        self._is_fitted = False
+
         # Check if scorecard is fitted
         self.scorecard._check_is_fitted()
 
diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index 1a44993..92c5919 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -489,10 +489,6 @@ class Scorecard(Base, BaseEstimator):
     def _fit(self, X, y, sample_weight, metric_special, metric_missing,
              show_digits, check_input):
 
-        # Store the metrics for missing and special bins for predictions
-        self._metric_special = metric_special
-        self._metric_missing = metric_missing
-
         time_init = time.perf_counter()
 
         if self.verbose:
@@ -501,6 +497,13 @@ class Scorecard(Base, BaseEstimator):
 
         _check_parameters(**self.get_params(deep=False))
 
+        # The previous solution, if any, is discarded
+        self._is_fitted = False
+
+        # Store the metrics for missing and special bins for predictions
+        self._metric_special = metric_special
+        self._metric_missing = metric_missing
+
         # Check X dtype
         if not isinstance(X, pd.DataFrame):
             raise TypeError("X must be a pandas.DataFrame.")
-- 
2.43.0


From d81e9924ea3c23a7bc514ca8ca1ee6c408bdae88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 22/88] fix: multiclass binning supports bin size constraints
 and heuristic trends

---
 optbinning/binning/multiclass_cp.py  | 6 +++---
 optbinning/binning/multiclass_mip.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/optbinning/binning/multiclass_cp.py b/optbinning/binning/multiclass_cp.py
index cfb43a6..86cdc8d 100644
--- a/optbinning/binning/multiclass_cp.py
+++ b/optbinning/binning/multiclass_cp.py
@@ -47,7 +47,7 @@ class MulticlassBinningCP(BinningCP):
             self.min_event_rate_diff, M)
 
         n = len(n_nonevent)
-        n_records = n_nonevent + n_event
+        n_records = n_nonevent[:, 0] + n_event[:, 0]
         n_classes = len(self.monotonic_trend)
 
         # Initialize model
@@ -96,11 +96,11 @@ class MulticlassBinningCP(BinningCP):
                     self.add_constraint_monotonic_valley(
                         model, n, D[c], x, c, y, M)
 
-            elif self.monotonic_trend == "peak_heuristic":
+            elif self.monotonic_trend[c] == "peak_heuristic":
                 self.add_constraint_monotonic_peak_heuristic(
                     model, n, D[c], x, trend_changes[c], M)
 
-            elif self.monotonic_trend == "valley_heuristic":
+            elif self.monotonic_trend[c] == "valley_heuristic":
                 self.add_constraint_monotonic_valley_heuristic(
                     model, n, D[c], x, trend_changes[c], M)
 
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index 6f35539..3c1dade 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -45,7 +45,7 @@ class MulticlassBinningMIP(BinningMIP):
             self.min_event_rate_diff)
 
         n = len(n_nonevent)
-        n_records = n_nonevent + n_event
+        n_records = n_nonevent[:, 0] + n_event[:, 0]
         n_classes = len(self.monotonic_trend)
 
         # Initialize solver
@@ -99,11 +99,11 @@ class MulticlassBinningMIP(BinningMIP):
                     self.add_constraint_monotonic_valley(
                         solver, n, D[c], x, c, y)
 
-            elif self.monotonic_trend == "peak_heuristic":
+            elif self.monotonic_trend[c] == "peak_heuristic":
                 self.add_constraint_monotonic_peak_heuristic(
                     solver, n, D[c], x, trend_changes[c])
 
-            elif self.monotonic_trend == "valley_heuristic":
+            elif self.monotonic_trend[c] == "valley_heuristic":
                 self.add_constraint_monotonic_valley_heuristic(
                     solver, n, D[c], x, trend_changes[c])
 
-- 
2.43.0


From 99734fddac8da1241ecda30576f72f883810f266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 23/88] fix: transform_disk reads categorical variables with
 the type of their categories

---
 optbinning/binning/binning_process.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 0baa049..9056c38 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -312,6 +312,14 @@ def _check_parameters(variable_names, max_n_prebins, min_prebin_size,
         raise TypeError("verbose must be a boolean; got {}.".format(verbose))
 
 
+def _is_string_categorical(optb):
+    if getattr(optb, "dtype", "numerical") != "categorical":
+        return False
+
+    return all(isinstance(c, str) for categories in optb.splits
+               for c in categories)
+
+
 def _check_variable_dtype(x):
     return "categorical" if x.dtype == object else "numerical"
 
@@ -1522,6 +1530,13 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             else:
                 base_metric = metrics.pop()
 
+        # Categories are read as they were fitted: the type inferred from a
+        # single chunk might not be the type of the column.
+        if kwargs.get("dtype") is None:
+            kwargs["dtype"] = {
+                name: str for name in selected_variables
+                if _is_string_categorical(self._binned_variables[name])}
+
         chunks = pd.read_csv(input_path, engine='c', chunksize=chunksize,
                              usecols=selected_variables, **kwargs)
 
-- 
2.43.0


From 448e8dbe25a0e4a59a8d981af47f9e0ccee6d663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 24/88] fix: an integer cat_unknown does not truncate the
 transformed values

---
 optbinning/binning/transformations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/transformations.py b/optbinning/binning/transformations.py
index 5c35d7d..1998558 100644
--- a/optbinning/binning/transformations.py
+++ b/optbinning/binning/transformations.py
@@ -183,7 +183,7 @@ def _apply_transform(x, dtype, special_codes, metric, metric_special,
             x_clean_transform = np.full(x_clean.shape, cat_unknown,
                                         dtype=object)
         else:
-            x_clean_transform = np.full(x_clean.shape, cat_unknown)
+            x_clean_transform = np.empty(x_clean.shape, dtype=x_transform.dtype)
 
         for i in range(n_bins):
             mask = (indices == i)
@@ -302,7 +302,7 @@ def transform_binary_target(splits, dtype, x, n_nonevent, n_event,
         else:
             metric_value = event_rate
 
-        x_transform = np.full(x.shape, cat_unknown)
+        x_transform = np.full(x.shape, cat_unknown, dtype=float)
     else:
         # Assign corresponding indices or bin intervals
         metric_value, x_transform = _transform_metric_indices_bins(
@@ -438,7 +438,7 @@ def transform_continuous_target(splits, dtype, x, n_records, sums,
         if cat_unknown is None:
             cat_unknown = sums.sum() / n_records.sum()
 
-        x_transform = np.full(x.shape, cat_unknown)
+        x_transform = np.full(x.shape, cat_unknown, dtype=float)
     else:
         # Assign corresponding indices or bin intervals
         metric_value, x_transform = _transform_metric_indices_bins(
-- 
2.43.0


From 6de4b7571dbe55e4f067363ca99d550c84b725ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 25/88] fix: unknown categories are transformed to the mean of
 all records

---
 optbinning/binning/transformations.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/transformations.py b/optbinning/binning/transformations.py
index 1998558..4a14f47 100644
--- a/optbinning/binning/transformations.py
+++ b/optbinning/binning/transformations.py
@@ -183,7 +183,8 @@ def _apply_transform(x, dtype, special_codes, metric, metric_special,
             x_clean_transform = np.full(x_clean.shape, cat_unknown,
                                         dtype=object)
         else:
-            x_clean_transform = np.empty(x_clean.shape, dtype=x_transform.dtype)
+            x_clean_transform = np.empty(
+                x_clean.shape, dtype=x_transform.dtype)
 
         for i in range(n_bins):
             mask = (indices == i)
@@ -272,6 +273,7 @@ def transform_binary_target(splits, dtype, x, n_nonevent, n_event,
         n_records = n_event + n_nonevent
         t_n_nonevent = n_nonevent.sum()
         t_n_event = n_event.sum()
+        mean_event_rate = t_n_event / n_records.sum()
 
         if "empirical" not in (metric_special, metric_missing):
             n_event = n_event[:n_bins]
@@ -289,7 +291,6 @@ def transform_binary_target(splits, dtype, x, n_nonevent, n_event,
 
         # Assign unknown category value
         if cat_unknown is None:
-            mean_event_rate = t_n_event / n_records.sum()
             if metric == "woe":
                 cat_unknown = transform_event_rate_to_woe(
                     mean_event_rate, t_n_nonevent, t_n_event)
@@ -424,6 +425,8 @@ def transform_continuous_target(splits, dtype, x, n_records, sums,
         bins_str = [str(b) for b in bins]
         n_bins = len(bins)
 
+    mean_target = sums.sum() / n_records.sum()
+
     if "empirical" not in (metric_special, metric_missing):
         n_records = n_records[:n_bins]
         sums = sums[:n_bins]
@@ -436,7 +439,7 @@ def transform_continuous_target(splits, dtype, x, n_records, sums,
 
         # Assign unknown category value
         if cat_unknown is None:
-            cat_unknown = sums.sum() / n_records.sum()
+            cat_unknown = mean_target
 
         x_transform = np.full(x.shape, cat_unknown, dtype=float)
     else:
-- 
2.43.0


From 8892f4a2c5c98eadee402816bce7b9853bc48dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 26/88] fix: building a binning table never exposes partial
 divergences

---
 optbinning/binning/binning_statistics.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index bd691c0..ea3db49 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -543,14 +543,14 @@ class BinningTable:
         p_ev = p_event[mask]
         p_nev = p_nonevent[mask]
 
-        self._hellinger = 0.0
-        self._triangular = 0.0
+        t_hellinger = 0.0
+        t_triangular = 0.0
 
         if mask.any():
             iv[mask] = jeffrey(p_ev, p_nev, return_sum=False)
             js[mask] = jensen_shannon(p_ev, p_nev, return_sum=False)
-            self._hellinger = hellinger(p_ev, p_nev, return_sum=True)
-            self._triangular = triangular(p_ev, p_nev, return_sum=True)
+            t_hellinger = hellinger(p_ev, p_nev, return_sum=True)
+            t_triangular = triangular(p_ev, p_nev, return_sum=True)
 
         t_iv = iv.sum()
         t_js = js.sum()
@@ -558,6 +558,8 @@ class BinningTable:
         self._iv_values = iv
         self._iv = t_iv
         self._js = t_js
+        self._hellinger = t_hellinger
+        self._triangular = t_triangular
 
         # Compute KS
         self._ks = np.abs(p_event.cumsum() - p_nonevent.cumsum()).max()
-- 
2.43.0


From 6f59b0f502d9703e72d9f81ff3d1baabb6fb4150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 27/88] fix: 2D binary binning table can be built when no bin
 has both classes

---
 .../multidimensional/binning_statistics_2d.py     | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/multidimensional/binning_statistics_2d.py b/optbinning/binning/multidimensional/binning_statistics_2d.py
index 5225575..4d35930 100644
--- a/optbinning/binning/multidimensional/binning_statistics_2d.py
+++ b/optbinning/binning/multidimensional/binning_statistics_2d.py
@@ -258,15 +258,22 @@ class BinningTable2D(BinningTable):
         p_ev = p_event[mask]
         p_nev = p_nonevent[mask]
 
-        iv[mask] = jeffrey(p_ev, p_nev, return_sum=False)
-        js[mask] = jensen_shannon(p_ev, p_nev, return_sum=False)
+        t_hellinger = 0.0
+        t_triangular = 0.0
+
+        if mask.any():
+            iv[mask] = jeffrey(p_ev, p_nev, return_sum=False)
+            js[mask] = jensen_shannon(p_ev, p_nev, return_sum=False)
+            t_hellinger = hellinger(p_ev, p_nev, return_sum=True)
+            t_triangular = triangular(p_ev, p_nev, return_sum=True)
+
         t_iv = iv.sum()
         t_js = js.sum()
 
         self._iv = t_iv
         self._js = t_js
-        self._hellinger = hellinger(p_ev, p_nev, return_sum=True)
-        self._triangular = triangular(p_ev, p_nev, return_sum=True)
+        self._hellinger = t_hellinger
+        self._triangular = t_triangular
 
         # Keep data for plotting
         self._n_records = n_records
-- 
2.43.0


From 7c194a3e08958e881566c3448d28dcab588e5b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 28/88] fix: fit does not modify user_splits parameters nor
 depend on previous fits

---
 optbinning/binning/binning.py                 | 25 +++++++++++++------
 optbinning/binning/continuous_binning.py      | 23 ++++++++++++-----
 optbinning/binning/multiclass_binning.py      | 21 ++++++++++------
 .../binning/uncertainty/binning_scenarios.py  |  9 +++++--
 4 files changed, 55 insertions(+), 23 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index bf8b67f..da5cbab 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -499,6 +499,8 @@ class OptimalBinning(BaseOptimalBinning):
 
         # auxiliary
         self._flag_min_n_event_nonevent = False
+        self._user_splits = None
+        self._user_splits_fixed = None
         self._categories = None
         self._cat_others = None
         self._n_event = None
@@ -708,6 +710,11 @@ class OptimalBinning(BaseOptimalBinning):
 
         # The previous solution, if any, is discarded
         self._is_fitted = False
+        self._optimizer = None
+        self._n_refinements = 0
+        self._flag_min_n_event_nonevent = False
+        self._user_splits = self.user_splits
+        self._user_splits_fixed = self.user_splits_fixed
 
         # Pre-processing
         if self.verbose:
@@ -801,7 +808,9 @@ class OptimalBinning(BaseOptimalBinning):
                         self.user_splits, x_clean, y_clean, sw_clean)
 
                 if self.user_splits_fixed is not None:
-                    self.user_splits_fixed = np.asarray(
+                    self._user_splits = np.asarray(
+                        self.user_splits, dtype=object)[sorted_idx]
+                    self._user_splits_fixed = np.asarray(
                         self.user_splits_fixed)[sorted_idx]
 
                 splits, n_nonevent, n_event = self._prebinning_refinement(
@@ -998,7 +1007,7 @@ class OptimalBinning(BaseOptimalBinning):
                                   min_bin_n_nonevent, self.max_bin_n_nonevent,
                                   self.min_event_rate_diff, self.max_pvalue,
                                   self.max_pvalue_policy, self.gamma,
-                                  self.user_splits_fixed, self.time_limit)
+                                  self._user_splits_fixed, self.time_limit)
         elif self.solver == "mip":
             optimizer = BinningMIP(monotonic, self.min_n_bins, self.max_n_bins,
                                    min_bin_size, max_bin_size,
@@ -1006,7 +1015,7 @@ class OptimalBinning(BaseOptimalBinning):
                                    min_bin_n_nonevent, self.max_bin_n_nonevent,
                                    self.min_event_rate_diff, self.max_pvalue,
                                    self.max_pvalue_policy, self.gamma,
-                                   self.user_splits_fixed, self.mip_solver,
+                                   self._user_splits_fixed, self.mip_solver,
                                    self.time_limit)
         elif self.solver == "ls":
             optimizer = BinningLS(monotonic, self.min_n_bins, self.max_n_bins,
@@ -1015,7 +1024,7 @@ class OptimalBinning(BaseOptimalBinning):
                                   min_bin_n_nonevent, self.max_bin_n_nonevent,
                                   self.min_event_rate_diff, self.max_pvalue,
                                   self.max_pvalue_policy,
-                                  self.user_splits_fixed, self.time_limit)
+                                  self._user_splits_fixed, self.time_limit)
 
         if self.verbose:
             logger.info("Optimizer: build model...")
@@ -1112,8 +1121,8 @@ class OptimalBinning(BaseOptimalBinning):
                         mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
                 if self.user_splits_fixed is not None:
-                    user_splits_fixed = np.asarray(self.user_splits_fixed)
-                    user_splits = np.asarray(self.user_splits)
+                    user_splits_fixed = np.asarray(self._user_splits_fixed)
+                    user_splits = np.asarray(self._user_splits)
                     fixed_remove = user_splits_fixed & mask_splits
 
                     if any(fixed_remove):
@@ -1124,8 +1133,8 @@ class OptimalBinning(BaseOptimalBinning):
                             .format(user_splits[fixed_remove]))
 
                     # Update boolean array of fixed user splits.
-                    self.user_splits_fixed = user_splits_fixed[~mask_splits]
-                    self.user_splits = user_splits[~mask_splits]
+                    self._user_splits_fixed = user_splits_fixed[~mask_splits]
+                    self._user_splits = user_splits[~mask_splits]
 
                 splits = splits_prebinning[~mask_splits]
 
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 3d89f74..51d3880 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -367,6 +367,8 @@ class ContinuousOptimalBinning(OptimalBinning):
         self.prebinning_kwargs = prebinning_kwargs
 
         # auxiliary
+        self._user_splits = None
+        self._user_splits_fixed = None
         self._categories = None
         self._cat_others = None
         self._n_records = None
@@ -556,6 +558,13 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         # The previous solution, if any, is discarded
         self._is_fitted = False
+        self._optimizer = None
+        self._n_refinements = 0
+        self._std_missing = None
+        self._min_target_missing = None
+        self._max_target_missing = None
+        self._user_splits = self.user_splits
+        self._user_splits_fixed = self.user_splits_fixed
 
         # Pre-processing
         if self.verbose:
@@ -650,7 +659,9 @@ class ContinuousOptimalBinning(OptimalBinning):
                         self.user_splits, x_clean, y_clean, sw_clean)
 
                 if self.user_splits_fixed is not None:
-                    self.user_splits_fixed = np.asarray(
+                    self._user_splits = np.asarray(
+                        self.user_splits, dtype=object)[sorted_idx]
+                    self._user_splits_fixed = np.asarray(
                         self.user_splits_fixed)[sorted_idx]
 
                 [splits, n_records, sums, ssums, stds, min_t, max_t,
@@ -818,7 +829,7 @@ class ContinuousOptimalBinning(OptimalBinning):
                                         max_bin_size, self.min_mean_diff,
                                         self.max_pvalue,
                                         self.max_pvalue_policy, self.gamma,
-                                        self.user_splits_fixed,
+                                        self._user_splits_fixed,
                                         self.time_limit)
 
         if self.verbose:
@@ -943,8 +954,8 @@ class ContinuousOptimalBinning(OptimalBinning):
                     mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
             if self.user_splits_fixed is not None:
-                user_splits_fixed = np.asarray(self.user_splits_fixed)
-                user_splits = np.asarray(self.user_splits)
+                user_splits_fixed = np.asarray(self._user_splits_fixed)
+                user_splits = np.asarray(self._user_splits)
                 fixed_remove = user_splits_fixed & mask_splits
 
                 if any(fixed_remove):
@@ -955,8 +966,8 @@ class ContinuousOptimalBinning(OptimalBinning):
                         .format(user_splits[fixed_remove]))
 
                 # Update boolean array of fixed user splits.
-                self.user_splits_fixed = user_splits_fixed[~mask_splits]
-                self.user_splits = user_splits[~mask_splits]
+                self._user_splits_fixed = user_splits_fixed[~mask_splits]
+                self._user_splits = user_splits[~mask_splits]
 
             splits = splits_prebinning[~mask_splits]
             if self.verbose:
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index adec15e..136855a 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -348,6 +348,8 @@ class MulticlassOptimalBinning(OptimalBinning):
         self.prebinning_kwargs = prebinning_kwargs
 
         # auxiliary
+        self._user_splits = None
+        self._user_splits_fixed = None
         self._n_event = None
         self._n_event_missing = None
         self._n_event_special = None
@@ -501,6 +503,10 @@ class MulticlassOptimalBinning(OptimalBinning):
 
         # The previous solution, if any, is discarded
         self._is_fitted = False
+        self._optimizer = None
+        self._n_refinements = 0
+        self._user_splits = self.user_splits
+        self._user_splits_fixed = self.user_splits_fixed
 
         # Pre-processing
         if self.verbose:
@@ -572,7 +578,8 @@ class MulticlassOptimalBinning(OptimalBinning):
             user_splits = user_splits[sorted_idx]
 
             if self.user_splits_fixed is not None:
-                self.user_splits_fixed = np.asarray(
+                self._user_splits = user_splits
+                self._user_splits_fixed = np.asarray(
                     self.user_splits_fixed)[sorted_idx]
 
             splits, n_nonevent, n_event = self._prebinning_refinement(
@@ -750,7 +757,7 @@ class MulticlassOptimalBinning(OptimalBinning):
                                             self.min_event_rate_diff,
                                             self.max_pvalue,
                                             self.max_pvalue_policy,
-                                            self.user_splits_fixed,
+                                            self._user_splits_fixed,
                                             self.time_limit)
         else:
             optimizer = MulticlassBinningMIP(monotonic, self.min_n_bins,
@@ -760,7 +767,7 @@ class MulticlassOptimalBinning(OptimalBinning):
                                              self.max_pvalue,
                                              self.max_pvalue_policy,
                                              self.mip_solver,
-                                             self.user_splits_fixed,
+                                             self._user_splits_fixed,
                                              self.time_limit)
         if self.verbose:
             logger.info("Optimizer: build model...")
@@ -816,8 +823,8 @@ class MulticlassOptimalBinning(OptimalBinning):
                 [mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
             if self.user_splits_fixed is not None:
-                user_splits_fixed = np.asarray(self.user_splits_fixed)
-                user_splits = np.asarray(self.user_splits)
+                user_splits_fixed = np.asarray(self._user_splits_fixed)
+                user_splits = np.asarray(self._user_splits)
                 fixed_remove = user_splits_fixed & mask_splits
 
                 if any(fixed_remove):
@@ -827,8 +834,8 @@ class MulticlassOptimalBinning(OptimalBinning):
                                      .format(user_splits[fixed_remove]))
 
                 # Update boolean array of fixed user splits.
-                self.user_splits_fixed = user_splits_fixed[~mask_splits]
-                self.user_splits = user_splits[~mask_splits]
+                self._user_splits_fixed = user_splits_fixed[~mask_splits]
+                self._user_splits = user_splits[~mask_splits]
 
             splits = splits_prebinning[~mask_splits]
 
diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index 7790c5a..ec79680 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -475,6 +475,10 @@ class SBOptimalBinning(OptimalBinning):
 
         # The previous solution, if any, is discarded
         self._is_fitted = False
+        self._optimizer = None
+        self._n_refinements = 0
+        self._user_splits = self.user_splits
+        self._user_splits_fixed = self.user_splits_fixed
 
         self._n_scenarios = len(X)
 
@@ -538,7 +542,8 @@ class SBOptimalBinning(OptimalBinning):
             user_splits = user_splits[sorted_idx]
 
             if self.user_splits_fixed is not None:
-                self.user_splits_fixed = np.asarray(
+                self._user_splits = user_splits
+                self._user_splits_fixed = np.asarray(
                     self.user_splits_fixed)[sorted_idx]
 
             splits, n_nonevent, n_event = self._prebinning_refinement(
@@ -763,7 +768,7 @@ class SBOptimalBinning(OptimalBinning):
                               self.max_n_bins, min_bin_size, max_bin_size,
                               None, None, None, None, self.min_event_rate_diff,
                               self.max_pvalue, self.max_pvalue_policy, None,
-                              self.user_splits_fixed, self.time_limit)
+                              self._user_splits_fixed, self.time_limit)
         if weights is None:
             weights = np.ones(self._n_scenarios, int)
 
-- 
2.43.0


From bbc4108bddc3d0bcde6c3b25507e66312ab04abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 29/88] fix: transform supports special codes given as numpy
 arrays

---
 optbinning/binning/multidimensional/transformations_2d.py | 2 +-
 optbinning/binning/piecewise/transformations.py           | 2 +-
 optbinning/binning/transformations.py                     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/multidimensional/transformations_2d.py b/optbinning/binning/multidimensional/transformations_2d.py
index c3ff7c4..3d3db4d 100644
--- a/optbinning/binning/multidimensional/transformations_2d.py
+++ b/optbinning/binning/multidimensional/transformations_2d.py
@@ -87,7 +87,7 @@ def _apply_transform(dtype_x, dtype_y, splits_x, splits_y, special_codes_x,
 
     z_transform[clean_mask] = z_clean_transform
 
-    if special_codes_x or special_codes_y:
+    if special_codes_x is not None or special_codes_y is not None:
         if (metric_special == "empirical" or
             (metric == "indices" and not isinstance(metric_special, int)) or
                 metric == "bins"):
diff --git a/optbinning/binning/piecewise/transformations.py b/optbinning/binning/piecewise/transformations.py
index 9ead4b1..6188f33 100644
--- a/optbinning/binning/piecewise/transformations.py
+++ b/optbinning/binning/piecewise/transformations.py
@@ -34,7 +34,7 @@ def _apply_transform(x, c, lb, ub, special_codes, metric_special,
 
     x_transform[clean_mask] = x_clean_transform
 
-    if special_codes:
+    if special_codes is not None and len(special_codes):
         if isinstance(special_codes, dict):
             xt = pd.Series(x)
             for i, (k, s) in enumerate(special_codes.items()):
diff --git a/optbinning/binning/transformations.py b/optbinning/binning/transformations.py
index 4a14f47..93ad7a3 100644
--- a/optbinning/binning/transformations.py
+++ b/optbinning/binning/transformations.py
@@ -197,7 +197,7 @@ def _apply_transform(x, dtype, special_codes, metric, metric_special,
             mask = x_p.isin(bins[i])
             x_transform[mask] = metric_value[i]
 
-    if special_codes:
+    if special_codes is not None and len(special_codes):
         if isinstance(special_codes, dict):
             xt = pd.Series(x)
             for i, (k, s) in enumerate(special_codes.items()):
-- 
2.43.0


From 4243a60893832e98aba246d8cac07d29fa0d7b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 30/88] fix: continuous target statistics of dict special codes
 without special values

---
 optbinning/binning/binning_statistics.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index ea3db49..c55353b 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -170,15 +170,9 @@ def target_info_special_continuous(special_codes, x, y, sw):
         n_records_special = []
         sum_special = []
         n_zeros_special = []
-
-        if len(y):
-            std_special = []
-            min_target_special = []
-            max_target_special = []
-        else:
-            std_special = None
-            min_target_special = None
-            max_target_special = None
+        std_special = []
+        min_target_special = []
+        max_target_special = []
 
         xt = pd.Series(x)
         for s in special_codes.values():
-- 
2.43.0


From c91ee9eafe40a00253bc9cde4e07dc786f5be425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:59 +0000
Subject: [PATCH 31/88] fix: multiclass binning computes the trend change of
 heuristic trends per class

---
 optbinning/binning/multiclass_binning.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index 136855a..4a97ea5 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -743,6 +743,12 @@ class MulticlassOptimalBinning(OptimalBinning):
                         logger.info("Optimizer: classifier predicts {} "
                                     "monotonic trend.".format(trend))
                 else:
+                    if m_trend in ("peak_heuristic", "valley_heuristic"):
+                        event_rate = n_event[:, i] / (n_nonevent[:, i] +
+                                                      n_event[:, i])
+                        trend_changes[i] = peak_valley_trend_change_heuristic(
+                            event_rate, m_trend)
+
                     monotonic.append(m_trend)
         elif self.monotonic_trend is None:
             monotonic = [None] * self._n_classes
-- 
2.43.0


From e97f11d8438ca14086e2e290866b35c729c683a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:59 +0000
Subject: [PATCH 32/88] fix: leftover print in continuous binning

---
 optbinning/binning/continuous_binning.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 51d3880..13e4430 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -882,7 +882,6 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         if len(y_others):
             if len(sw_others):
-                print(y_others.dtype, sw_others.dtype)
                 y_others = y_others * sw_others
 
             self._n_records_cat_others = np.sum(sw_others)
-- 
2.43.0


From 8a9e4329a63bcf3910d660eae1c94607ca72c9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 33/88] fix: continuous 2D binning with cart strategy supports
 gamma

---
 optbinning/binning/multidimensional/model_data_cart_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/multidimensional/model_data_cart_2d.py b/optbinning/binning/multidimensional/model_data_cart_2d.py
index 4e9b471..6b925af 100644
--- a/optbinning/binning/multidimensional/model_data_cart_2d.py
+++ b/optbinning/binning/multidimensional/model_data_cart_2d.py
@@ -313,7 +313,7 @@ def continuous_model_data_cart(tree, R, S, SS, monotonicity_x, monotonicity_y,
 
                         paths.add(path)
 
-    n_records = np.array(n_fr)
+    n_records = np.array(n_fr, dtype=int)
     sums = np.array(n_fs)
     ssums = np.array(n_fss)
 
-- 
2.43.0


From b3a6c1891eef8824bf5ca8e63846123945235429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 34/88] fix: counterfactuals support variables without
 alternative bins

---
 optbinning/scorecard/counterfactual/counterfactual.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/scorecard/counterfactual/counterfactual.py b/optbinning/scorecard/counterfactual/counterfactual.py
index 3feeae8..9f51776 100644
--- a/optbinning/scorecard/counterfactual/counterfactual.py
+++ b/optbinning/scorecard/counterfactual/counterfactual.py
@@ -602,7 +602,8 @@ class Counterfactual(BaseCounterfactual):
         new_indices = {}
         score = 0
         for i, v in enumerate(self._variable_names):
-            new_index = np.array(indices[i])[solution[i]]
+            new_index = np.array(indices[i], dtype=int)[
+                np.asarray(solution[i], dtype=bool)]
             if len(new_index):
                 new_indices[v] = new_index
 
-- 
2.43.0


From 1939753ca739c258e6c74901ccae25842c020efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 35/88] fix: table analysis does not shuffle with the global
 random state

---
 optbinning/binning/metrics.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/optbinning/binning/metrics.py b/optbinning/binning/metrics.py
index e0220ce..4a8dbda 100644
--- a/optbinning/binning/metrics.py
+++ b/optbinning/binning/metrics.py
@@ -297,7 +297,6 @@ def bayesian_probability(obs, n_samples):
     aA, aB, bA, bB = obs.ravel()
 
     r = np.arange(1, n_samples + 1)
-    np.random.shuffle(r)
     v = (r - 0.5) / n_samples
 
     p = special.betainc(aA, bA, stats.beta(aB, bB).ppf(v)).mean()
-- 
2.43.0


From 3dc2fb9b5bafeac3fbc433842a0c1b455374cd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 36/88] fix: piecewise empirical WoE of special and missing
 bins without event or non-event records

---
 .../binning/piecewise/transformations.py      | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/piecewise/transformations.py b/optbinning/binning/piecewise/transformations.py
index 6188f33..c973358 100644
--- a/optbinning/binning/piecewise/transformations.py
+++ b/optbinning/binning/piecewise/transformations.py
@@ -108,8 +108,15 @@ def transform_binary_target(splits, x, c, lb, ub, n_nonevent, n_event,
             event_rate_special = n_event_special / n_records_special
 
         if metric == "woe":
-            event_rate_special = transform_event_rate_to_woe(
-                event_rate_special, n_nonevent, n_event)
+            # WoE is only defined for bins with event and non-event records
+            if n_special > 1:
+                woe_special = np.zeros(n_special)
+                woe_special[mask] = transform_event_rate_to_woe(
+                    event_rate_special[mask], n_nonevent, n_event)
+                event_rate_special = woe_special
+            elif mask:
+                event_rate_special = transform_event_rate_to_woe(
+                    event_rate_special, n_nonevent, n_event)
 
     if metric_missing == "empirical":
         n_records_missing = n_event_missing + n_nonevent_missing
@@ -120,8 +127,12 @@ def transform_binary_target(splits, x, c, lb, ub, n_nonevent, n_event,
             event_rate_missing = 0
 
         if metric == "woe":
-            event_rate_missing = transform_event_rate_to_woe(
-                event_rate_missing, n_nonevent, n_event)
+            # WoE is only defined for bins with event and non-event records
+            if n_event_missing > 0 and n_nonevent_missing > 0:
+                event_rate_missing = transform_event_rate_to_woe(
+                    event_rate_missing, n_nonevent, n_event)
+            else:
+                event_rate_missing = 0
 
     x_transform = _apply_transform(
         x, c, lb, ub, special_codes, metric_special, metric_missing,
-- 
2.43.0


From 0c0c16eaabfea7a33b5b653757d08026acc2860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 37/88] fix: empty user_splits and user splits that are all
 removed give a single bin

---
 optbinning/binning/binning.py            |  7 ++++---
 optbinning/binning/continuous_binning.py | 13 ++++++++-----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index da5cbab..25452ae 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -787,9 +787,10 @@ class OptimalBinning(BaseOptimalBinning):
                             .format(n_splits))
 
             if not n_splits:
-                splits = self.user_splits
-                n_nonevent = np.array([])
-                n_event = np.array([])
+                splits, n_nonevent, n_event = self._prebinning_refinement(
+                    np.array([]), x_clean, y_clean, y_missing, x_special,
+                    y_special, y_others, sw_clean, sw_missing, sw_special,
+                    sw_others)
             else:
                 if self.dtype == "numerical":
                     user_splits = check_array(
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 13e4430..582045b 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -637,10 +637,11 @@ class ContinuousOptimalBinning(OptimalBinning):
                             .format(n_splits))
 
             if not n_splits:
-                splits = self.user_splits
-                n_records = np.array([])
-                sums = np.array([])
-                stds = np.array([])
+                [splits, n_records, sums, ssums, stds, min_t, max_t,
+                 n_zeros] = self._prebinning_refinement(
+                    np.array([]), x_clean, y_clean, y_missing, x_special,
+                    y_special, y_others, sw_clean, sw_missing, sw_special,
+                    sw_others)
             else:
                 if self.dtype == "numerical":
                     user_splits = check_array(
@@ -910,7 +911,9 @@ class ContinuousOptimalBinning(OptimalBinning):
     def _compute_prebins(self, splits_prebinning, x, y, sw):
         n_splits = len(splits_prebinning)
         if not n_splits:
-            return splits_prebinning, np.array([]), np.array([])
+            return (splits_prebinning, np.array([]), np.array([]),
+                    np.array([]), np.array([]), np.array([]), np.array([]),
+                    np.array([]))
 
         if self.dtype == "categorical" and self.user_splits is not None:
             indices = np.digitize(x, splits_prebinning, right=True)
-- 
2.43.0


From b1c82e6e53d9e822df64c86bf1ec29a41950dd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 38/88] fix: pure last categorical user split is merged instead
 of dropped

---
 optbinning/binning/binning.py            | 7 +++++--
 optbinning/binning/binning_statistics.py | 2 +-
 optbinning/binning/continuous_binning.py | 7 +++++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index 25452ae..6f9fc2f 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -917,7 +917,7 @@ class OptimalBinning(BaseOptimalBinning):
         if len(n_nonevent) <= 1:
             self._status = "OPTIMAL"
             self._splits_optimal = splits
-            self._solution = np.zeros(len(splits), dtype=bool)
+            self._solution = np.ones(len(splits), dtype=bool)
 
             if self.verbose:
                 logger.warning("Optimizer: {} bins after pre-binning."
@@ -1116,7 +1116,10 @@ class OptimalBinning(BaseOptimalBinning):
 
                 if (self.dtype == "categorical" and
                         self.user_splits is not None):
-                    mask_splits = mask_remove
+                    mask_splits = mask_remove.copy()
+                    if n_bins > 1 and mask_remove[-1]:
+                        # The last prebin is merged with the previous prebin
+                        mask_splits[-2:] = [True, False]
                 else:
                     mask_splits = np.concatenate([
                         mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index c55353b..78db3a8 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -81,7 +81,7 @@ def bin_categorical(splits_categorical, categories, cat_others, user_splits):
     splits = np.ceil(splits_categorical).astype(int)
     n_categories = len(categories)
 
-    if user_splits is not None:
+    if user_splits is not None and len(splits):
         indices = np.digitize(np.arange(n_categories), splits, right=True)
         n_bins = len(splits)
     else:
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 582045b..212deb4 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -762,7 +762,7 @@ class ContinuousOptimalBinning(OptimalBinning):
         if len(n_records) <= 1:
             self._status = "OPTIMAL"
             self._splits_optimal = splits
-            self._solution = np.zeros(len(splits)).astype(bool)
+            self._solution = np.ones(len(splits)).astype(bool)
 
             if self.verbose:
                 logger.warning("Optimizer: {} bins after pre-binning."
@@ -950,7 +950,10 @@ class ContinuousOptimalBinning(OptimalBinning):
 
             if (self.dtype == "categorical" and
                     self.user_splits is not None):
-                mask_splits = mask_remove
+                mask_splits = mask_remove.copy()
+                if n_bins > 1 and mask_remove[-1]:
+                    # The last prebin is merged with the previous prebin
+                    mask_splits[-2:] = [True, False]
             else:
                 mask_splits = np.concatenate([
                     mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
-- 
2.43.0


From 86bef2c10a6048ed16041bf9f3109f55c4f292bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 39/88] fix: JSON files of binning objects support all data
 types and restore the transformation

---
 optbinning/binning/base.py               | 42 ++++++++++++++++++++++++
 optbinning/binning/binning.py            | 28 +++++++++-------
 optbinning/binning/continuous_binning.py | 28 +++++++++-------
 optbinning/binning/multiclass_binning.py | 22 +++++++------
 4 files changed, 88 insertions(+), 32 deletions(-)

diff --git a/optbinning/binning/base.py b/optbinning/binning/base.py
index c658c23..2c26ff5 100644
--- a/optbinning/binning/base.py
+++ b/optbinning/binning/base.py
@@ -5,13 +5,55 @@ Base optimal binning algorithm class.
 # Guillermo Navas-Palencia <g.navas.palencia@gmail.com>
 # Copyright (C) 2020
 
+import json
+
 from abc import ABCMeta
 from abc import abstractmethod
 
+import numpy as np
+
 from sklearn.base import BaseEstimator
 from sklearn.exceptions import NotFittedError
 
 
+def _json_default(value):
+    if isinstance(value, (np.ndarray, np.generic)):
+        return value.tolist()
+
+    raise TypeError("Object of type {} is not JSON serializable."
+                    .format(type(value).__name__))
+
+
+def _write_json(path, attributes):
+    # Serialize first, so that an error does not destroy an existing file
+    text = json.dumps(attributes, default=_json_default)
+
+    with open(path, "w") as write_file:
+        write_file.write(text)
+
+
+def _read_json(path):
+    with open(path, "r") as read_file:
+        attributes = json.load(read_file)
+
+    object_keys = ["categories", "cat_others"]
+    if attributes.get("dtype") == "categorical":
+        object_keys.append("user_splits")
+
+    for key, value in attributes.items():
+        if isinstance(value, list):
+            if key in object_keys:
+                # Categories are of any type and user splits of any length
+                array = np.empty(len(value), dtype=object)
+                for i, v in enumerate(value):
+                    array[i] = v
+                attributes[key] = array
+            elif key != "special_codes":
+                attributes[key] = np.array(value)
+
+    return attributes
+
+
 class Base:
     def _check_is_fitted(self):
         if not self._is_fitted:
diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index 6f9fc2f..40a9049 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -12,12 +12,13 @@ import numpy as np
 
 from sklearn.utils import check_array
 
-import json
 
 from ..information import solver_statistics
 from ..logging import Logger
 from .auto_monotonic import auto_monotonic
 from .auto_monotonic import peak_valley_trend_change_heuristic
+from .base import _read_json
+from .base import _write_json
 from .base import BaseOptimalBinning
 from .binning_information import print_binning_information
 from .binning_statistics import bin_categorical
@@ -1215,7 +1216,7 @@ class OptimalBinning(BaseOptimalBinning):
         if table.dtype == 'numerical':
             opt_bin_dict['splits'] = table.splits.tolist()
         elif table.dtype == 'categorical':
-            opt_bin_dict['splits'] = [split.tolist() for split in table.splits]
+            opt_bin_dict['splits'] = table.splits
 
         opt_bin_dict['n_nonevent'] = table.n_nonevent.tolist()
         opt_bin_dict['n_event'] = table.n_event.tolist()
@@ -1226,8 +1227,7 @@ class OptimalBinning(BaseOptimalBinning):
         opt_bin_dict['cat_others'] = table.cat_others
         opt_bin_dict['user_splits'] = table.user_splits
 
-        with open(path, "w") as write_file:
-            json.dump(opt_bin_dict, write_file)
+        _write_json(path, opt_bin_dict)
 
     def read_json(self, path):
         """
@@ -1238,13 +1238,19 @@ class OptimalBinning(BaseOptimalBinning):
         ----------
         path: The path of the json file.
         """
-        self._is_fitted = True
+        bin_table_attr = _read_json(path)
+        table = BinningTable(**bin_table_attr)
 
-        with open(path, "r") as read_file:
-            bin_table_attr = json.load(read_file)
+        self.name = table.name
+        self.dtype = table.dtype
+        self.special_codes = table.special_codes
+        self.user_splits = table.user_splits
 
-        for key in bin_table_attr.keys():
-            if isinstance(bin_table_attr[key], list):
-                bin_table_attr[key] = np.array(bin_table_attr[key])
+        self._splits_optimal = table.splits
+        self._n_nonevent = table.n_nonevent
+        self._n_event = table.n_event
+        self._categories = table.categories
+        self._cat_others = table.cat_others
 
-        self._binning_table = BinningTable(**bin_table_attr)
+        self._binning_table = table
+        self._is_fitted = True
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 212deb4..e4ec0c9 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -7,7 +7,6 @@ Optimal binning algorithm for continuous target.
 
 import numbers
 import time
-import json
 
 from sklearn.utils import check_array
 
@@ -17,6 +16,8 @@ from ..information import solver_statistics
 from ..logging import Logger
 from .auto_monotonic import auto_monotonic_continuous
 from .auto_monotonic import peak_valley_trend_change_heuristic
+from .base import _read_json
+from .base import _write_json
 from .binning import OptimalBinning
 from .binning_statistics import continuous_bin_info
 from .binning_statistics import ContinuousBinningTable
@@ -1020,7 +1021,7 @@ class ContinuousOptimalBinning(OptimalBinning):
         if table.dtype == 'numerical':
             opt_bin_dict['splits'] = table.splits.tolist()
         elif table.dtype == 'categorical':
-            opt_bin_dict['splits'] = [split.tolist() for split in table.splits]
+            opt_bin_dict['splits'] = table.splits
 
         opt_bin_dict['n_records'] = table.n_records.tolist()
         opt_bin_dict['sums'] = table.sums.tolist()
@@ -1035,8 +1036,7 @@ class ContinuousOptimalBinning(OptimalBinning):
         opt_bin_dict['cat_others'] = table.cat_others
         opt_bin_dict['user_splits'] = table.user_splits
 
-        with open(path, "w") as write_file:
-            json.dump(opt_bin_dict, write_file)
+        _write_json(path, opt_bin_dict)
 
     def read_json(self, path):
         """
@@ -1050,13 +1050,19 @@ class ContinuousOptimalBinning(OptimalBinning):
         if path is None:
             raise ValueError('Specify the path for the json file.')
 
-        self._is_fitted = True
+        cont_table_attr = _read_json(path)
+        table = ContinuousBinningTable(**cont_table_attr)
 
-        with open(path, "r") as read_file:
-            cont_table_attr = json.load(read_file)
+        self.name = table.name
+        self.dtype = table.dtype
+        self.special_codes = table.special_codes
+        self.user_splits = table.user_splits
 
-        for key in cont_table_attr.keys():
-            if isinstance(cont_table_attr[key], list):
-                cont_table_attr[key] = np.array(cont_table_attr[key])
+        self._splits_optimal = table.splits
+        self._n_records = table.n_records
+        self._sums = table.sums
+        self._categories = table.categories
+        self._cat_others = table.cat_others
 
-        self._binning_table = ContinuousBinningTable(**cont_table_attr)
+        self._binning_table = table
+        self._is_fitted = True
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index 4a97ea5..ca3f982 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -7,7 +7,6 @@ Optimal binning algorithm for multiclass target.
 
 import numbers
 import time
-import json
 
 import numpy as np
 
@@ -17,6 +16,8 @@ from ..information import solver_statistics
 from ..logging import Logger
 from .auto_monotonic import auto_monotonic
 from .auto_monotonic import peak_valley_trend_change_heuristic
+from .base import _read_json
+from .base import _write_json
 from .binning import OptimalBinning
 from .binning_statistics import multiclass_bin_info
 from .binning_statistics import MulticlassBinningTable
@@ -913,8 +914,7 @@ class MulticlassOptimalBinning(OptimalBinning):
         opt_bin_dict['n_event'] = table.n_event.tolist()
         opt_bin_dict['classes'] = table.classes.tolist()
 
-        with open(path, "w") as write_file:
-            json.dump(opt_bin_dict, write_file)
+        _write_json(path, opt_bin_dict)
 
     def read_json(self, path):
         """
@@ -928,13 +928,15 @@ class MulticlassOptimalBinning(OptimalBinning):
         if path is None:
             raise ValueError('Specify the path for the json file.')
 
-        self._is_fitted = True
+        multi_table_attr = _read_json(path)
+        table = MulticlassBinningTable(**multi_table_attr)
 
-        with open(path, "r") as read_file:
-            multi_table_attr = json.load(read_file)
+        self.name = table.name
+        self.special_codes = table.special_codes
 
-        for key in multi_table_attr.keys():
-            if isinstance(multi_table_attr[key], list):
-                multi_table_attr[key] = np.array(multi_table_attr[key])
+        self._splits_optimal = table.splits
+        self._n_event = table.n_event
+        self._classes = table.classes
 
-        self._binning_table = MulticlassBinningTable(**multi_table_attr)
+        self._binning_table = table
+        self._is_fitted = True
-- 
2.43.0


From 6750e640ad08360fc7a9352455b68635b811da99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:38 +0000
Subject: [PATCH 40/88] fix: 2D binning with cart strategy is reproducible

---
 optbinning/binning/multidimensional/binning_2d.py            | 3 ++-
 optbinning/binning/multidimensional/continuous_binning_2d.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index f75080e..071d10c 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -662,7 +662,8 @@ class OptimalBinning2D(OptimalBinning):
                                   self.min_prebin_size_y) * 0.25
 
             clf = DecisionTreeClassifier(min_samples_leaf=min_prebin_size,
-                                         max_leaf_nodes=clf_nodes)
+                                         max_leaf_nodes=clf_nodes,
+                                         random_state=0)
             clf.fit(xyt, z_clean)
 
             self._clf = clf
diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index 9fe9c5f..0c43c82 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -587,7 +587,8 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
                                   self.min_prebin_size_y) * 0.25
 
             clf = DecisionTreeRegressor(min_samples_leaf=min_prebin_size,
-                                        max_leaf_nodes=clf_nodes)
+                                        max_leaf_nodes=clf_nodes,
+                                        random_state=0)
             clf.fit(xyt, z_clean)
 
             self._clf = clf
-- 
2.43.0


From 71087a94bfe2f92705b8db3b4602ac58d125ee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 41/88] fix: piecewise binning does not replace or fit the
 estimator given by the user

---
 optbinning/binning/piecewise/binning.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/piecewise/binning.py b/optbinning/binning/piecewise/binning.py
index ff6d7de..59ee412 100644
--- a/optbinning/binning/piecewise/binning.py
+++ b/optbinning/binning/piecewise/binning.py
@@ -9,6 +9,7 @@ import time
 
 import numpy as np
 
+from sklearn.base import clone
 from sklearn.linear_model import LogisticRegression
 
 from ...binning.binning_statistics import target_info
@@ -361,17 +362,19 @@ class OptimalPWBinning(BasePWBinning):
         time_estimator = time.perf_counter()
 
         if self.estimator is None:
-            self.estimator = LogisticRegression()
+            estimator = LogisticRegression()
 
             if self.verbose:
                 logger.info("Pre-binning: set logistic regression as an "
                             "estimator.")
+        else:
+            estimator = clone(self.estimator, safe=False)
 
         if self.verbose:
             logger.info("Pre-binning: estimator fitting started.")
 
-        self.estimator.fit(x_clean.reshape(-1, 1), y_clean)
-        event_rate = self.estimator.predict_proba(x_clean.reshape(-1, 1))[:, 1]
+        estimator.fit(x_clean.reshape(-1, 1), y_clean)
+        event_rate = estimator.predict_proba(x_clean.reshape(-1, 1))[:, 1]
 
         self._time_estimator = time.perf_counter() - time_estimator
 
-- 
2.43.0


From cfe25d70c9ca2f1599af40cda26ec38892471c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:54 +0000
Subject: [PATCH 42/88] fix: class_weight does not modify the sample_weight
 array

---
 optbinning/binning/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/preprocessing.py b/optbinning/binning/preprocessing.py
index fc299dc..aa41c8e 100644
--- a/optbinning/binning/preprocessing.py
+++ b/optbinning/binning/preprocessing.py
@@ -183,7 +183,7 @@ def split_data(dtype, x, y, special_codes=None, cat_cutoff=None,
         le = LabelEncoder()
         class_weight_ = compute_class_weight(
             class_weight=class_weight, classes=classes, y=y)
-        sample_weight *= class_weight_[le.fit_transform(y)]
+        sample_weight = sample_weight * class_weight_[le.fit_transform(y)]
 
     if np.issubdtype(x.dtype, np.number) and np.issubdtype(y.dtype, np.number):
         missing_mask = np.isnan(x) | np.isnan(y)
-- 
2.43.0


From 7fd3b9d677ec16ce7851cda08fdfb01c0cee7f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:09 +0000
Subject: [PATCH 43/88] fix: scorecard monitoring does not depend on the
 container of the targets

---
 optbinning/scorecard/monitoring.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 67c5a2f..c8234e9 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -259,6 +259,9 @@ class ScorecardMonitoring(BaseEstimator):
         # Check if scorecard is fitted
         self.scorecard._check_is_fitted()
 
+        y_actual = np.asarray(y_actual)
+        y_expected = np.asarray(y_expected)
+
         target_dtype = type_of_target(y_actual)
         target_dtype_e = type_of_target(y_expected)
 
-- 
2.43.0


From 447abf350278ada3b7f4e369aa059364fd960bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:31 +0000
Subject: [PATCH 44/88] fix: continuous 2D binning with gamma and grid strategy

---
 optbinning/binning/multidimensional/model_data_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/multidimensional/model_data_2d.py b/optbinning/binning/multidimensional/model_data_2d.py
index 90f1e90..987bfd1 100644
--- a/optbinning/binning/multidimensional/model_data_2d.py
+++ b/optbinning/binning/multidimensional/model_data_2d.py
@@ -237,7 +237,7 @@ def continuous_model_data(R, S, SS, monotonicity_x, monotonicity_y, scale,
 
                     n_rectangles += 1
 
-    n_records = np.array(n_fr)
+    n_records = np.array(n_fr, dtype=int)
     sums = np.array(n_fs)
     ssums = np.array(n_fss)
 
-- 
2.43.0


From ccea3645e8e2394857a89a63c98b9888454ee8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 45/88] fix: MIP solution values are rounded to the nearest
 integer

---
 optbinning/binning/mip.py                        | 2 +-
 optbinning/binning/multidimensional/mip_2d.py    | 2 +-
 optbinning/scorecard/counterfactual/mip.py       | 6 +++---
 optbinning/scorecard/counterfactual/multi_mip.py | 4 ++--
 optbinning/scorecard/rounding.py                 | 3 ++-
 5 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index 3826cbd..6d7c8c6 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -187,7 +187,7 @@ class BinningMIP:
             else:
                 status_name = "FEASIBLE"
 
-            solution = np.array([self._x[i, i].solution_value()
+            solution = np.rint([self._x[i, i].solution_value()
                                 for i in range(self._n)]).astype(bool)
         else:
             if status == pywraplp.Solver.ABNORMAL:
diff --git a/optbinning/binning/multidimensional/mip_2d.py b/optbinning/binning/multidimensional/mip_2d.py
index 2c94c7a..8d5e2aa 100644
--- a/optbinning/binning/multidimensional/mip_2d.py
+++ b/optbinning/binning/multidimensional/mip_2d.py
@@ -98,7 +98,7 @@ class Binning2DMIP:
             solution = np.array([self._x[i].solution_value()
                                  for i in range(self._n_rectangles)])
 
-            solution = solution.astype(bool)
+            solution = np.rint(solution).astype(bool)
         else:
             if status == pywraplp.Solver.ABNORMAL:
                 status_name = "ABNORMAL"
diff --git a/optbinning/scorecard/counterfactual/mip.py b/optbinning/scorecard/counterfactual/mip.py
index f9f84e3..7bc11a6 100644
--- a/optbinning/scorecard/counterfactual/mip.py
+++ b/optbinning/scorecard/counterfactual/mip.py
@@ -198,9 +198,9 @@ class CFMIP:
             else:
                 status_name = "FEASIBLE"
 
-            solution = np.array([np.array([self._z[i, j].solution_value()
-                                           for j in range(self._nbins[i])]
-                                          ).astype(bool)
+            solution = np.array([np.rint([self._z[i, j].solution_value()
+                                          for j in range(self._nbins[i])]
+                                         ).astype(bool)
                                  for i in range(self._p)], dtype=object)
         else:
             if status == pywraplp.Solver.ABNORMAL:
diff --git a/optbinning/scorecard/counterfactual/multi_mip.py b/optbinning/scorecard/counterfactual/multi_mip.py
index d42d8e5..764b0fa 100644
--- a/optbinning/scorecard/counterfactual/multi_mip.py
+++ b/optbinning/scorecard/counterfactual/multi_mip.py
@@ -239,8 +239,8 @@ class MCFMIP(CFMIP):
 
             solution = np.array(
                 [np.array(
-                    [np.array([self._z[k, i, j].solution_value()
-                               for j in range(self._nbins[i])]).astype(bool)
+                    [np.rint([self._z[k, i, j].solution_value()
+                              for j in range(self._nbins[i])]).astype(bool)
                      for i in range(self._p)], dtype=object)
                  for k in range(self.K)], dtype=object)
         else:
diff --git a/optbinning/scorecard/rounding.py b/optbinning/scorecard/rounding.py
index e74dd52..6d61417 100644
--- a/optbinning/scorecard/rounding.py
+++ b/optbinning/scorecard/rounding.py
@@ -94,7 +94,8 @@ class RoundingMIP:
             solution = []
             for i in range(self._nb):
                 for j in range(self._nn[i]):
-                    solution.append(self._p[i, j].solution_value())
+                    solution.append(
+                        np.rint(self._p[i, j].solution_value()))
         else:
             if status == pywraplp.Solver.ABNORMAL:
                 status_name = "ABNORMAL"
-- 
2.43.0


From 397036fa028efe4b801ca63d61840b4ecda60b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 46/88] fix: empty prebins are removed with hellinger and
 triangular divergences

---
 optbinning/binning/binning.py | 66 ++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index 40a9049..e9dc51e 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -1109,46 +1109,48 @@ class OptimalBinning(BaseOptimalBinning):
 
         mask_remove = (n_nonevent == 0) | (n_event == 0)
 
-        if np.any(mask_remove):
-            if self.divergence in ("hellinger", "triangular"):
+        if self.divergence in ("hellinger", "triangular"):
+            if np.any(mask_remove):
                 self._flag_min_n_event_nonevent = True
+
+            mask_remove = (n_nonevent == 0) & (n_event == 0)
+
+        if np.any(mask_remove):
+            self._n_refinements += 1
+
+            if self.dtype == "categorical" and self.user_splits is not None:
+                mask_splits = mask_remove.copy()
+                if n_bins > 1 and mask_remove[-1]:
+                    # The last prebin is merged with the previous prebin
+                    mask_splits[-2:] = [True, False]
             else:
-                self._n_refinements += 1
-
-                if (self.dtype == "categorical" and
-                        self.user_splits is not None):
-                    mask_splits = mask_remove.copy()
-                    if n_bins > 1 and mask_remove[-1]:
-                        # The last prebin is merged with the previous prebin
-                        mask_splits[-2:] = [True, False]
-                else:
-                    mask_splits = np.concatenate([
-                        mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
+                mask_splits = np.concatenate([
+                    mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
-                if self.user_splits_fixed is not None:
-                    user_splits_fixed = np.asarray(self._user_splits_fixed)
-                    user_splits = np.asarray(self._user_splits)
-                    fixed_remove = user_splits_fixed & mask_splits
+            if self.user_splits_fixed is not None:
+                user_splits_fixed = np.asarray(self._user_splits_fixed)
+                user_splits = np.asarray(self._user_splits)
+                fixed_remove = user_splits_fixed & mask_splits
 
-                    if any(fixed_remove):
-                        raise ValueError(
-                            "Fixed user_splits {} are removed "
-                            "because produce pure prebins. Provide "
-                            "different splits to be fixed."
-                            .format(user_splits[fixed_remove]))
+                if any(fixed_remove):
+                    raise ValueError(
+                        "Fixed user_splits {} are removed "
+                        "because produce pure prebins. Provide "
+                        "different splits to be fixed."
+                        .format(user_splits[fixed_remove]))
 
-                    # Update boolean array of fixed user splits.
-                    self._user_splits_fixed = user_splits_fixed[~mask_splits]
-                    self._user_splits = user_splits[~mask_splits]
+                # Update boolean array of fixed user splits.
+                self._user_splits_fixed = user_splits_fixed[~mask_splits]
+                self._user_splits = user_splits[~mask_splits]
 
-                splits = splits_prebinning[~mask_splits]
+            splits = splits_prebinning[~mask_splits]
 
-                if self.verbose:
-                    logger.info("Pre-binning: number prebins removed: {}"
-                                .format(np.count_nonzero(mask_remove)))
+            if self.verbose:
+                logger.info("Pre-binning: number prebins removed: {}"
+                            .format(np.count_nonzero(mask_remove)))
 
-                [splits_prebinning, n_nonevent,
-                 n_event] = self._compute_prebins(splits, x, y0, y1, sw)
+            [splits_prebinning, n_nonevent,
+             n_event] = self._compute_prebins(splits, x, y0, y1, sw)
 
         return splits_prebinning, n_nonevent, n_event
 
-- 
2.43.0


From cae1a02ec11bde7bedd3a209eb8535d9b1fc8ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 47/88] fix: scenario-based binning without prebins

---
 optbinning/binning/uncertainty/binning_scenarios.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index ec79680..0d0219d 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -592,8 +592,14 @@ class SBOptimalBinning(OptimalBinning):
             if max_xs > max_x:
                 max_x = max_xs
 
+            if len(n_nonevent):
+                s_prebins = n_nonevent[:, s], n_event[:, s]
+            else:
+                # No splits, all clean records are in a single bin
+                s_prebins = [[n] for n in target_info(y_clean[s])]
+
             s_n_nonevent, s_n_event = bin_info(
-                self._solution, n_nonevent[:, s], n_event[:, s],
+                self._solution, *s_prebins,
                 self._n_nonevent_missing[s], self._n_event_missing[s],
                 self._n_nonevent_special[s], self._n_event_special[s], None,
                 None, [])
-- 
2.43.0


From 82f9abe2d699b64c5bfcface3c8c6c12e6fbb2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:01 +0000
Subject: [PATCH 48/88] fix: 2D records with missing and special values are
 counted once

---
 optbinning/binning/multidimensional/preprocessing_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/multidimensional/preprocessing_2d.py b/optbinning/binning/multidimensional/preprocessing_2d.py
index 11d4b74..82d9bfd 100644
--- a/optbinning/binning/multidimensional/preprocessing_2d.py
+++ b/optbinning/binning/multidimensional/preprocessing_2d.py
@@ -88,7 +88,7 @@ def split_data_2d(dtype_x, dtype_y, x, y, z, special_codes_x=None,
         special_mask_y = np.zeros(len(y), dtype=bool)
 
     missing_mask = missing_mask_x | missing_mask_y
-    special_mask = special_mask_x | special_mask_y
+    special_mask = (special_mask_x | special_mask_y) & ~missing_mask
 
     clean_mask = ~missing_mask & ~special_mask
 
-- 
2.43.0


From c49f73c5fa2ab59a48e241369bda85a9cf5fbc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 49/88] fix: piecewise event rate and WoE of special and
 missing bins not inverted

---
 optbinning/binning/piecewise/transformations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/piecewise/transformations.py b/optbinning/binning/piecewise/transformations.py
index c973358..be10c62 100644
--- a/optbinning/binning/piecewise/transformations.py
+++ b/optbinning/binning/piecewise/transformations.py
@@ -59,8 +59,8 @@ def _apply_transform(x, c, lb, ub, special_codes, metric_special,
 
 
 def transform_binary_target(splits, x, c, lb, ub, n_nonevent, n_event,
-                            n_event_special, n_nonevent_special,
-                            n_event_missing, n_nonevent_missing,
+                            n_nonevent_special, n_event_special,
+                            n_nonevent_missing, n_event_missing,
                             special_codes, metric, metric_special,
                             metric_missing, check_input=False):
 
-- 
2.43.0


From 0594300c62e8a4b9c1884628fc936d5bddad1e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 50/88] fix: ContinuousOptimalPWBinning.fit_transform does not
 take check_input as lower bound

---
 optbinning/binning/piecewise/continuous_binning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/piecewise/continuous_binning.py b/optbinning/binning/piecewise/continuous_binning.py
index 5353e9c..057f23c 100644
--- a/optbinning/binning/piecewise/continuous_binning.py
+++ b/optbinning/binning/piecewise/continuous_binning.py
@@ -242,7 +242,7 @@ class ContinuousOptimalPWBinning(BasePWBinning):
         x_new : numpy array, shape = (n_samples,)
             Transformed array.
         """
-        return self.fit(x, y, check_input).transform(
+        return self.fit(x, y, lb, ub, check_input).transform(
             x, metric_special, metric_missing, lb, ub, check_input)
 
     def transform(self, x, metric_special=0, metric_missing=0,
-- 
2.43.0


From b4c1c6edd2795943d856077b8d5017171be4e7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 51/88] fix: scorecard points and scores follow per-variable
 transform parameters

---
 optbinning/scorecard/scorecard.py | 54 +++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index 92c5919..3bfcb36 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -10,6 +10,8 @@ import numbers
 import pickle
 import time
 
+from copy import copy
+
 import numpy as np
 import pandas as pd
 
@@ -406,17 +408,25 @@ class Scorecard(Base, BaseEstimator):
         score: array of shape (n_samples)
             The score of the input samples.
         """
-        X_t = self._transform(
-            X=X, metric="indices", metric_special="empirical",
-            metric_missing="empirical")
+        self._check_is_fitted()
 
-        score_ = np.zeros(X_t.shape[0])
+        score_ = np.zeros(X.shape[0])
         selected_variables = self.binning_process_.get_support(names=True)
 
         for variable in selected_variables:
             mask = self._df_scorecard.Variable == variable
             points = self._df_scorecard[mask].Points.values
-            score_ += points[X_t[variable]]
+
+            # The transform parameters of the binning process and the value
+            # assigned to unknown categories do not apply to the bin indices.
+            optb = copy(self.binning_process_.get_binned_variable(variable))
+            if hasattr(optb, "cat_unknown"):
+                optb.cat_unknown = None
+            indices = optb.transform(
+                X[variable], metric="indices", metric_special="empirical",
+                metric_missing="empirical")
+
+            score_ += points[indices]
 
         return score_ + self.intercept_
 
@@ -527,10 +537,10 @@ class Scorecard(Base, BaseEstimator):
 
         if self._target_dtype == "binary":
             metric = "woe"
-            bt_metric = "WoE"
         elif self._target_dtype == "continuous":
             metric = "mean"
-            bt_metric = "Mean"
+
+        bt_metrics = {"woe": "WoE", "event_rate": "Event rate", "mean": "Mean"}
 
         if self.verbose:
             logger.info("Dataset: {} target.".format(self._target_dtype))
@@ -574,6 +584,7 @@ class Scorecard(Base, BaseEstimator):
 
         # Get coefs
         intercept = 0
+        self.intercept_ = 0
         if hasattr(self.estimator_, 'coef_'):
             coefs = self.estimator_.coef_.flatten()
             if hasattr(self.estimator_, 'intercept_'):
@@ -589,27 +600,44 @@ class Scorecard(Base, BaseEstimator):
             logger.info("Scorecard table building started.")
 
         selected_variables = self.binning_process_.get_support(names=True)
+        transform_params = self.binning_process_.binning_transform_params or {}
         binning_tables = []
         for i, variable in enumerate(selected_variables):
+            params = transform_params.get(variable, {})
+            var_metric = params.get("metric", metric)
+            var_metric_special = params.get("metric_special", metric_special)
+            var_metric_missing = params.get("metric_missing", metric_missing)
+
             optb = self.binning_process_.get_binned_variable(variable)
             binning_table = optb.binning_table.build(
                 show_digits=show_digits, add_totals=False)
             c = coefs[i]
             binning_table.loc[:, "Variable"] = variable
             binning_table.loc[:, "Coefficient"] = c
-            binning_table.loc[:, "Points"] = binning_table[bt_metric] * c
-
             nt = len(binning_table)
-            if metric_special != 'empirical':
+
+            if var_metric == "indices":
+                values = np.arange(nt)
+
+                # Indices only admit integer values for special and missing
+                if not isinstance(var_metric_special, int):
+                    var_metric_special = "empirical"
+                if not isinstance(var_metric_missing, int):
+                    var_metric_missing = "empirical"
+            else:
+                values = binning_table[bt_metrics[var_metric]]
+            binning_table.loc[:, "Points"] = values * c
+
+            if var_metric_special != 'empirical':
                 if isinstance(optb.special_codes, dict):
                     n_specials = len(optb.special_codes)
                 else:
                     n_specials = 1
 
                 binning_table.loc[
-                    nt-1-n_specials:nt-2, "Points"] = metric_special * c
-            if metric_missing != 'empirical':
-                binning_table.loc[nt-1, "Points"] = metric_missing * c
+                    nt-1-n_specials:nt-2, "Points"] = var_metric_special * c
+            if var_metric_missing != 'empirical':
+                binning_table.loc[nt-1, "Points"] = var_metric_missing * c
 
             binning_table.index.names = ['Bin id']
             binning_table.reset_index(level=0, inplace=True)
-- 
2.43.0


From 7d269fb826b64215e7fe92cadf1aee7a126a0b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 52/88] fix: concave and convex trends do not exclude
 admissible binnings

---
 optbinning/binning/cp.py  | 4 ++--
 optbinning/binning/mip.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/cp.py b/optbinning/binning/cp.py
index 74e369d..362e662 100644
--- a/optbinning/binning/cp.py
+++ b/optbinning/binning/cp.py
@@ -441,7 +441,7 @@ class BinningCP:
                                   for z in range(j)]) + D[j][j] * x[j, j]) -
                         (sum([(D[k][z] - D[k][z+1]) * x[k, z]
                               for z in range(k)]) + D[k][k] * x[k, k]) >=
-                        M * (x[i, i] + x[j, j] + x[k, k] - 3))
+                        2 * M * (x[i, i] + x[j, j] + x[k, k] - 3))
 
     def add_constraint_monotonic_convex(self, model, n, D, x, M):
         for i in range(2, n):
@@ -454,7 +454,7 @@ class BinningCP:
                                   for z in range(j)]) + D[j][j] * x[j, j]) +
                         (sum([(D[k][z] - D[k][z+1]) * x[k, z]
                               for z in range(k)]) + D[k][k] * x[k, k]) >=
-                        M * (x[i, i] + x[j, j] + x[k, k] - 3))
+                        2 * M * (x[i, i] + x[j, j] + x[k, k] - 3))
 
     def add_constraint_monotonic_peak(self, model, n, D, x, y, M):
         for i in range(1, n):
diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index 6d7c8c6..13b0210 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -328,7 +328,7 @@ class BinningMIP:
                              + D[j][j] * x[j, j]) -
                         (solver.Sum([(D[k][z] - D[k][z+1]) * x[k, z]
                                      for z in range(k)]) +
-                         D[k][k] * x[k, k]) >= (
+                         D[k][k] * x[k, k]) >= 2 * (
                          x[i, i] + x[j, j] + x[k, k] - 3))
 
     def add_constraint_monotonic_convex(self, solver, n, D, x):
@@ -343,7 +343,7 @@ class BinningMIP:
                              D[j][j] * x[j, j]) +
                         (solver.Sum([(D[k][z] - D[k][z+1]) * x[k, z]
                                      for z in range(k)]) +
-                         D[k][k] * x[k, k]) >= (
+                         D[k][k] * x[k, k]) >= 2 * (
                          x[i, i] + x[j, j] + x[k, k] - 3))
 
     def add_constraint_monotonic_peak(self, solver, n, D, x, y):
-- 
2.43.0


From d37916c57c7c85ad7b97b80e9b236ef55fe4da1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 53/88] fix: continuous peak and valley trends do not exclude
 admissible binnings

---
 optbinning/binning/continuous_cp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/continuous_cp.py b/optbinning/binning/continuous_cp.py
index 71f6098..b271dde 100644
--- a/optbinning/binning/continuous_cp.py
+++ b/optbinning/binning/continuous_cp.py
@@ -176,7 +176,7 @@ class ContinuousBinningCP(BinningCP):
                         ).OnlyEnforceIf([x[k, k], x[j, j], x[i, i]])
 
     def add_constraint_monotonic_peak(self, model, n, U, x, y):
-        M = max([abs(U[i][j]) for i in range(n) for j in range(i + 1)])
+        M = 2 * max([abs(U[i][j]) for i in range(n) for j in range(i + 1)])
         for i in range(1, n):
             for z in range(i):
                 model.Add(
@@ -196,7 +196,7 @@ class ContinuousBinningCP(BinningCP):
                     U[z][z] * x[z, z] >= 0).OnlyEnforceIf([x[z, z], x[i, i]])
 
     def add_constraint_monotonic_valley(self, model, n, U, x, y):
-        M = max([abs(U[i][j]) for i in range(n) for j in range(i + 1)])
+        M = 2 * max([abs(U[i][j]) for i in range(n) for j in range(i + 1)])
         for i in range(1, n):
             for z in range(i):
                 model.Add(
-- 
2.43.0


From 50ef05181bc2786fec0278309715a4bc5b983641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 54/88] fix: gamma reduces dominating bins in continuous
 binning

---
 optbinning/binning/continuous_cp.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/optbinning/binning/continuous_cp.py b/optbinning/binning/continuous_cp.py
index b271dde..a2f9577 100644
--- a/optbinning/binning/continuous_cp.py
+++ b/optbinning/binning/continuous_cp.py
@@ -114,6 +114,15 @@ class ContinuousBinningCP(BinningCP):
             self.add_constraint_monotonic_valley_heuristic(
                 model, n, U, x, trend_change, M)
 
+        # Constraint: reduction of dominating bins
+        if self.gamma:
+            for i in range(n):
+                bin_size = sum([n_records[j] * x[i, j] for j in range(i + 1)])
+
+                model.Add(pmin <= total_records * (1 - x[i, i]) + bin_size)
+                model.Add(pmax >= bin_size)
+            model.Add(pmin <= pmax)
+
         # Constraint: max-pvalue
         self.add_constraint_violation(model, x, pvalue_violation_indices)
 
-- 
2.43.0


From 3792fe0784b2454ce8ced3823c975a5a6a819791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 55/88] fix: scenario weights are not truncated to integers

---
 optbinning/binning/cp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/cp.py b/optbinning/binning/cp.py
index 362e662..353daf5 100644
--- a/optbinning/binning/cp.py
+++ b/optbinning/binning/cp.py
@@ -186,9 +186,9 @@ class BinningCP:
         n_records = n_nonevent + n_event
         n_scenarios = len(w)
 
-        if w is not None:
-            sw = 10 ** np.abs(np.log10(np.min(w)))
-            w = [np.int64(w[s] * sw) for s in range(n_scenarios)]
+        # Integer weights, relative to the largest one
+        w_max = np.max(w)
+        w = [int(np.rint(w[s] / w_max * M)) for s in range(n_scenarios)]
 
         # Initialize model
         model = cp_model.CpModel()
-- 
2.43.0


From 6be02554a2c402df98ceba76410179cba9425e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:04 +0000
Subject: [PATCH 56/88] fix: preprocessing of monotonic trends does not exclude
 optimal binnings

---
 optbinning/binning/cp.py             | 25 +++++++++++++++++++------
 optbinning/binning/mip.py            | 24 ++++++++++++++++++------
 optbinning/binning/multiclass_cp.py  |  4 ++++
 optbinning/binning/multiclass_mip.py |  4 ++++
 4 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/optbinning/binning/cp.py b/optbinning/binning/cp.py
index 353daf5..494f80d 100644
--- a/optbinning/binning/cp.py
+++ b/optbinning/binning/cp.py
@@ -392,6 +392,19 @@ class BinningCP:
                     if self.max_bin_size is not None:
                         model.Add(bin_size <= self.max_bin_size[s] * x[i, i])
 
+    def _is_preprocessing_valid(self):
+        # Splits against the trend are not optimal in the absence of
+        # constraints other than the trend and the maximum number of bins.
+        return (not self._is_scenario_binning and
+                self.min_event_rate_diff == 0 and
+                self.min_n_bins is None and
+                self.min_bin_size is None and self.max_bin_size is None and
+                self.min_bin_n_event is None and
+                self.max_bin_n_event is None and
+                self.min_bin_n_nonevent is None and
+                self.max_bin_n_nonevent is None and
+                self.max_pvalue is None and not self.gamma)
+
     def add_constraint_monotonic_ascending(self, model, n, D, x, M):
         for i in range(1, n):
             for z in range(i):
@@ -403,7 +416,7 @@ class BinningCP:
                          for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._is_preprocessing_valid():
             for i in range(n - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     model.Add(x[i, i] == 0)
@@ -422,7 +435,7 @@ class BinningCP:
                          for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._is_preprocessing_valid():
             for i in range(n - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     model.Add(x[i, i] == 0)
@@ -505,7 +518,7 @@ class BinningCP:
                          for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._is_preprocessing_valid():
             for i in range(tc - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     model.Add(x[i, i] == 0)
@@ -523,7 +536,7 @@ class BinningCP:
                          for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._is_preprocessing_valid():
             for i in range(tc, n - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     model.Add(x[i, i] == 0)
@@ -542,7 +555,7 @@ class BinningCP:
                          for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._is_preprocessing_valid():
             for i in range(tc - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     model.Add(x[i, i] == 0)
@@ -560,7 +573,7 @@ class BinningCP:
                          for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._is_preprocessing_valid():
             for i in range(tc, n - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     model.Add(x[i, i] == 0)
diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index 13b0210..d19601e 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -278,6 +278,18 @@ class BinningMIP:
                 elif self.max_bin_size is not None:
                     solver.Add(bin_size <= self.max_bin_size * x[i, i])
 
+    def _is_preprocessing_valid(self):
+        # Splits against the trend are not optimal in the absence of
+        # constraints other than the trend and the maximum number of bins.
+        return (self.min_event_rate_diff == 0 and
+                self.min_n_bins is None and
+                self.min_bin_size is None and self.max_bin_size is None and
+                self.min_bin_n_event is None and
+                self.max_bin_n_event is None and
+                self.min_bin_n_nonevent is None and
+                self.max_bin_n_nonevent is None and
+                self.max_pvalue is None and not self.gamma)
+
     def add_constraint_monotonic_ascending(self, solver, n, D, x):
         for i in range(1, n):
             for z in range(i):
@@ -289,7 +301,7 @@ class BinningMIP:
                                 for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._is_preprocessing_valid():
             for i in range(n - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     solver.Add(x[i, i] == 0)
@@ -308,7 +320,7 @@ class BinningMIP:
                                 for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._is_preprocessing_valid():
             for i in range(n - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     solver.Add(x[i, i] == 0)
@@ -395,7 +407,7 @@ class BinningMIP:
                                 for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._is_preprocessing_valid():
             for i in range(tc - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     solver.Add(x[i, i] == 0)
@@ -413,7 +425,7 @@ class BinningMIP:
                                 for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._is_preprocessing_valid():
             for i in range(tc, n - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     solver.Add(x[i, i] == 0)
@@ -432,7 +444,7 @@ class BinningMIP:
                                 for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._is_preprocessing_valid():
             for i in range(tc - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     solver.Add(x[i, i] == 0)
@@ -450,7 +462,7 @@ class BinningMIP:
                                 for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._is_preprocessing_valid():
             for i in range(tc, n - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     solver.Add(x[i, i] == 0)
diff --git a/optbinning/binning/multiclass_cp.py b/optbinning/binning/multiclass_cp.py
index 86cdc8d..d9a94ad 100644
--- a/optbinning/binning/multiclass_cp.py
+++ b/optbinning/binning/multiclass_cp.py
@@ -161,6 +161,10 @@ class MulticlassBinningCP(BinningCP):
 
         return x, y, t, d, u, bin_size_diff
 
+    def _is_preprocessing_valid(self):
+        # Splits against the trend of one class might be optimal for others.
+        return False
+
     def add_constraint_monotonic_peak(self, model, n, D, x, c, y, M):
         for i in range(1, n):
             for z in range(i):
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index 3c1dade..7195c0f 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -164,6 +164,10 @@ class MulticlassBinningMIP(BinningMIP):
 
         return x, y, t, d, u, bin_size_diff
 
+    def _is_preprocessing_valid(self):
+        # Splits against the trend of one class might be optimal for others.
+        return False
+
     def add_constraint_monotonic_peak(self, solver, n, D, x, c, y):
         for i in range(1, n):
             for z in range(i):
-- 
2.43.0


From 0e5b0c88de7c4ff8bd3a6d7958e4bce59122f81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 57/88] fix: concave and convex trends of multiclass binning
 are not ignored

---
 optbinning/binning/multiclass_cp.py  | 6 ++++++
 optbinning/binning/multiclass_mip.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/optbinning/binning/multiclass_cp.py b/optbinning/binning/multiclass_cp.py
index d9a94ad..8b389e4 100644
--- a/optbinning/binning/multiclass_cp.py
+++ b/optbinning/binning/multiclass_cp.py
@@ -84,6 +84,12 @@ class MulticlassBinningCP(BinningCP):
             if self.monotonic_trend[c] == "descending":
                 self.add_constraint_monotonic_descending(model, n, D[c], x, M)
 
+            elif self.monotonic_trend[c] == "concave":
+                self.add_constraint_monotonic_concave(model, n, D[c], x, M)
+
+            elif self.monotonic_trend[c] == "convex":
+                self.add_constraint_monotonic_convex(model, n, D[c], x, M)
+
             elif self.monotonic_trend[c] in ("peak", "valley"):
                 for i in range(n):
                     model.Add(t[c] >= i - n * (1 - y[c, i]))
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index 7195c0f..f0b8c7b 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -87,6 +87,12 @@ class MulticlassBinningMIP(BinningMIP):
             elif self.monotonic_trend[c] == "descending":
                 self.add_constraint_monotonic_descending(solver, n, D[c], x)
 
+            elif self.monotonic_trend[c] == "concave":
+                self.add_constraint_monotonic_concave(solver, n, D[c], x)
+
+            elif self.monotonic_trend[c] == "convex":
+                self.add_constraint_monotonic_convex(solver, n, D[c], x)
+
             elif self.monotonic_trend[c] in ("peak", "valley"):
                 for i in range(n):
                     solver.Add(t[c] >= i - n * (1 - y[c, i]))
-- 
2.43.0


From 7c5cd58808f8a08d6251d66ed17e661c6b0852af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 58/88] fix: solutions violating the constraints returned by
 the MIP solver are discarded

---
 optbinning/binning/mip.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index d19601e..5ec71a4 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -181,6 +181,11 @@ class BinningMIP:
         self.solver_.SetTimeLimit(self.time_limit * 1000)
         status = self.solver_.Solve()
 
+        if status in (pywraplp.Solver.OPTIMAL, pywraplp.Solver.FEASIBLE):
+            # The solver might return a solution violating the constraints
+            if not self.solver_.VerifySolution(1e-4, False):
+                status = pywraplp.Solver.ABNORMAL
+
         if status in (pywraplp.Solver.OPTIMAL, pywraplp.Solver.FEASIBLE):
             if status == pywraplp.Solver.OPTIMAL:
                 status_name = "OPTIMAL"
-- 
2.43.0


From 640c59a127da969778932872eed2c8639e659509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:12 +0000
Subject: [PATCH 59/88] fix: 2D binning with bins of equal number of cells

---
 optbinning/binning/multidimensional/binning_2d.py            | 5 ++++-
 optbinning/binning/multidimensional/continuous_binning_2d.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index 071d10c..f79f437 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -701,7 +701,10 @@ class OptimalBinning2D(OptimalBinning):
         D = np.empty(m * n, dtype=float)
         P = np.empty(m * n, dtype=int)
 
-        selected_rows = np.array(rows, dtype=object)[self._solution]
+        n_bins = np.count_nonzero(self._solution)
+        selected_rows = np.empty(n_bins, dtype=object)
+        for i, k in enumerate(np.flatnonzero(self._solution)):
+            selected_rows[i] = rows[k]
 
         self._selected_rows = selected_rows
         self._m, self._n = m, n
diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index 0c43c82..d803da0 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -626,7 +626,10 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
         D = np.empty(m * n, dtype=float)
         P = np.empty(m * n, dtype=int)
 
-        selected_rows = np.array(rows, dtype=object)[self._solution]
+        n_bins = np.count_nonzero(self._solution)
+        selected_rows = np.empty(n_bins, dtype=object)
+        for i, k in enumerate(np.flatnonzero(self._solution)):
+            selected_rows[i] = rows[k]
 
         self._selected_rows = selected_rows
         self._m, self._n = m, n
-- 
2.43.0


From 5f4c1c9800ca04c7f08c37fc09b9441f029c94e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:26 +0000
Subject: [PATCH 60/88] fix: 2D binning without solution keeps the records in a
 single bin

---
 optbinning/binning/multidimensional/binning_2d.py         | 7 +++++++
 .../binning/multidimensional/continuous_binning_2d.py     | 8 ++++++++
 optbinning/binning/multidimensional/model_data_2d.py      | 4 +++-
 optbinning/binning/multidimensional/model_data_cart_2d.py | 4 +++-
 4 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index f79f437..63369af 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -701,6 +701,13 @@ class OptimalBinning2D(OptimalBinning):
         D = np.empty(m * n, dtype=float)
         P = np.empty(m * n, dtype=int)
 
+        if not np.any(self._solution):
+            # No solution found: all records in a single bin
+            rows = [list(range(m * n))]
+            n_nonevent = np.array([NE.sum()])
+            n_event = np.array([E.sum()])
+            self._solution = np.ones(1, dtype=bool)
+
         n_bins = np.count_nonzero(self._solution)
         selected_rows = np.empty(n_bins, dtype=object)
         for i, k in enumerate(np.flatnonzero(self._solution)):
diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index d803da0..321909b 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -626,6 +626,14 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
         D = np.empty(m * n, dtype=float)
         P = np.empty(m * n, dtype=int)
 
+        if not np.any(self._solution):
+            # No solution found: all records in a single bin
+            rows = [list(range(m * n))]
+            n_records = np.array([R.sum()], dtype=int)
+            sums = np.array([S.sum()])
+            stds = np.sqrt(SS.sum() / n_records - (sums / n_records) ** 2)
+            self._solution = np.ones(1, dtype=bool)
+
         n_bins = np.count_nonzero(self._solution)
         selected_rows = np.empty(n_bins, dtype=object)
         for i, k in enumerate(np.flatnonzero(self._solution)):
diff --git a/optbinning/binning/multidimensional/model_data_2d.py b/optbinning/binning/multidimensional/model_data_2d.py
index 987bfd1..0997c1c 100644
--- a/optbinning/binning/multidimensional/model_data_2d.py
+++ b/optbinning/binning/multidimensional/model_data_2d.py
@@ -148,7 +148,9 @@ def model_data(divergence, NE, E, monotonicity_x, monotonicity_y, scale,
     p = n_event / E.sum()
     q = n_nonevent / NE.sum()
 
-    if divergence == "iv":
+    if not n_rectangles:
+        iv = np.zeros(0)
+    elif divergence == "iv":
         iv = jeffrey(p, q)
     elif divergence == "js":
         iv = jensen_shannon(p, q)
diff --git a/optbinning/binning/multidimensional/model_data_cart_2d.py b/optbinning/binning/multidimensional/model_data_cart_2d.py
index 6b925af..a4d81c4 100644
--- a/optbinning/binning/multidimensional/model_data_cart_2d.py
+++ b/optbinning/binning/multidimensional/model_data_cart_2d.py
@@ -214,7 +214,9 @@ def model_data_cart(tree, divergence, NE, E, monotonicity_x, monotonicity_y,
     p = n_event / E.sum()
     q = n_nonevent / NE.sum()
 
-    if divergence == "iv":
+    if not n_rectangles:
+        iv = np.zeros(0)
+    elif divergence == "iv":
         iv = jeffrey(p, q)
     elif divergence == "js":
         iv = jensen_shannon(p, q)
-- 
2.43.0


From 92f72296116a9a3fbaa87689004dc75719f1c69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:51 +0000
Subject: [PATCH 61/88] fix: 2D cart strategy enforces the monotonic trend of x
 on all adjacent bins

---
 .../binning/multidimensional/model_data_cart_2d.py     | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/multidimensional/model_data_cart_2d.py b/optbinning/binning/multidimensional/model_data_cart_2d.py
index a4d81c4..5f2beb1 100644
--- a/optbinning/binning/multidimensional/model_data_cart_2d.py
+++ b/optbinning/binning/multidimensional/model_data_cart_2d.py
@@ -174,12 +174,13 @@ def model_data_cart(tree, divergence, NE, E, monotonicity_x, monotonicity_y,
                                 for r in row:
                                     cols[r].append(n_rectangles)
 
+                                out = G[np.ix_(M.any(axis=1),
+                                               M.any(axis=0))]
+
                                 if monotonicity_x is not None:
-                                    out = np.array([G[M]])
                                     outer_x.append(list(out[:, -1]))
 
                                 if monotonicity_y is not None:
-                                    out = np.array([G[M]])
                                     outer_y.append(list(out[-1, :]))
 
                                 rows.append(row)
@@ -294,12 +295,13 @@ def continuous_model_data_cart(tree, R, S, SS, monotonicity_x, monotonicity_y,
                                 for r in row:
                                     cols[r].append(n_rectangles)
 
+                                out = G[np.ix_(M.any(axis=1),
+                                               M.any(axis=0))]
+
                                 if monotonicity_x is not None:
-                                    out = np.array([G[M]])
                                     outer_x.append(list(out[:, -1]))
 
                                 if monotonicity_y is not None:
-                                    out = np.array([G[M]])
                                     outer_y.append(list(out[-1, :]))
 
                                 rows.append(row)
-- 
2.43.0


From b03b2c6cbca72a5f66a93ca97f6133436e89eee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:51 +0000
Subject: [PATCH 62/88] fix: 2D binning with gamma and no admissible bins

---
 optbinning/binning/multidimensional/cp_2d.py  | 2 +-
 optbinning/binning/multidimensional/mip_2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multidimensional/cp_2d.py b/optbinning/binning/multidimensional/cp_2d.py
index 8918288..70a7207 100644
--- a/optbinning/binning/multidimensional/cp_2d.py
+++ b/optbinning/binning/multidimensional/cp_2d.py
@@ -48,7 +48,7 @@ class Binning2DCP:
 
         # Objective function
         if self.gamma:
-            total_records = int(n_records.sum())
+            total_records = max(int(n_records.sum()), 1)
             regularization = int(np.ceil(scale * self.gamma / total_records))
             pmax = model.NewIntVar(0, total_records, "pmax")
             pmin = model.NewIntVar(0, total_records, "pmin")
diff --git a/optbinning/binning/multidimensional/mip_2d.py b/optbinning/binning/multidimensional/mip_2d.py
index 8d5e2aa..6f9b898 100644
--- a/optbinning/binning/multidimensional/mip_2d.py
+++ b/optbinning/binning/multidimensional/mip_2d.py
@@ -46,7 +46,7 @@ class Binning2DMIP:
 
         # Objective function
         if self.gamma:
-            total_records = int(n_records.sum())
+            total_records = max(int(n_records.sum()), 1)
             regularization = self.gamma / total_records
             pmax = solver.NumVar(0, total_records, "pmax")
             pmin = solver.NumVar(0, total_records, "pmin")
-- 
2.43.0


From 673c7a72d80d8ea8742ae3f7ed74b3e9b7b8cde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:09 +0000
Subject: [PATCH 63/88] fix: 2D solutions violating the constraints returned by
 the MIP solver are discarded

---
 optbinning/binning/multidimensional/mip_2d.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/optbinning/binning/multidimensional/mip_2d.py b/optbinning/binning/multidimensional/mip_2d.py
index 6f9b898..d510ee8 100644
--- a/optbinning/binning/multidimensional/mip_2d.py
+++ b/optbinning/binning/multidimensional/mip_2d.py
@@ -89,6 +89,11 @@ class Binning2DMIP:
         self.solver_.SetNumThreads(self.n_jobs)
         status = self.solver_.Solve()
 
+        if status in (pywraplp.Solver.OPTIMAL, pywraplp.Solver.FEASIBLE):
+            # The solver might return a solution violating the constraints
+            if not self.solver_.VerifySolution(1e-4, False):
+                status = pywraplp.Solver.ABNORMAL
+
         if status in (pywraplp.Solver.OPTIMAL, pywraplp.Solver.FEASIBLE):
             if status == pywraplp.Solver.OPTIMAL:
                 status_name = "OPTIMAL"
-- 
2.43.0


From 517337c4eb3df2b257a01094a4f1923d17957a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:56 +0000
Subject: [PATCH 64/88] fix: auto monotonic trend no longer swallows
 interruptions and memory errors

---
 optbinning/binning/auto_monotonic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/auto_monotonic.py b/optbinning/binning/auto_monotonic.py
index 70102a5..444b732 100644
--- a/optbinning/binning/auto_monotonic.py
+++ b/optbinning/binning/auto_monotonic.py
@@ -8,6 +8,7 @@ Automatic monotonic trend algorithm.
 import numpy as np
 
 from scipy.spatial import ConvexHull
+from scipy.spatial import QhullError
 
 
 def n_peaks_valleys(x):
@@ -128,7 +129,7 @@ def auto_monotonic_data(n_nonevent, n_event):
         try:
             hull = ConvexHull(points)
             p_convex_hull = hull.volume / rectangular_area
-        except:
+        except (QhullError, ValueError):
             p_convex_hull = 0
     else:
         p_convex_hull = 0
@@ -201,7 +202,7 @@ def auto_monotonic_data_continuous(n_records, sums):
         try:
             hull = ConvexHull(points)
             p_convex_hull = hull.volume / rectangular_area
-        except:
+        except (QhullError, ValueError):
             p_convex_hull = 0
     else:
         p_convex_hull = 0
-- 
2.43.0


From 32671ad2ef09e76e0e33e49525c638bf37400bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:56 +0000
Subject: [PATCH 65/88] fix: CART prebinning keeps a split point equal to -2

---
 optbinning/binning/prebinning.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/prebinning.py b/optbinning/binning/prebinning.py
index 9b02baf..a41fbfd 100644
--- a/optbinning/binning/prebinning.py
+++ b/optbinning/binning/prebinning.py
@@ -115,8 +115,9 @@ class PreBinning:
                 est = DecisionTreeRegressor(**cart_kwargs)
 
             est.fit(x.reshape(-1, 1), y, sample_weight=sample_weight)
-            splits = np.unique(est.tree_.threshold)
-            self._splits = splits[splits != _tree.TREE_UNDEFINED]
+            tree = est.tree_
+            internal = (tree.feature != _tree.TREE_UNDEFINED)
+            self._splits = np.unique(tree.threshold[internal])
 
         elif self.method == "mdlp":
             mdlp_kwargs = {"min_samples_leaf": self.min_bin_size}
-- 
2.43.0


From 1b00c1b8cd4688779bd4fdec9cbd7d623e016f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:56 +0000
Subject: [PATCH 66/88] fix: KS counts all non-events and handles ties

---
 optbinning/metrics/classification.py | 5 ++++-
 optbinning/scorecard/plots.py        | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/optbinning/metrics/classification.py b/optbinning/metrics/classification.py
index ab8cd80..1e36dae 100644
--- a/optbinning/metrics/classification.py
+++ b/optbinning/metrics/classification.py
@@ -52,15 +52,18 @@ def ks(y_true, y_pred_proba):
 
     idx = np.argsort(y_pred_proba)
     yy = y_true[idx]
+    pp = y_pred_proba[idx]
 
     cum_event = np.cumsum(yy)
-    cum_population = np.arange(0, n_samples)
+    cum_population = np.arange(1, n_samples + 1)
     cum_nonevent = cum_population - cum_event
 
     p_event = cum_event / n_event
     p_nonevent = cum_nonevent / n_nonevent
 
     p_diff = p_nonevent - p_event
+    # Samples with the same probability are on the same side of a threshold
+    p_diff[:-1][pp[1:] == pp[:-1]] = -np.inf
     ks_max_idx = np.argmax(p_diff)
     ks_score = p_diff[ks_max_idx]
 
diff --git a/optbinning/scorecard/plots.py b/optbinning/scorecard/plots.py
index 1873ac5..b1a9068 100644
--- a/optbinning/scorecard/plots.py
+++ b/optbinning/scorecard/plots.py
@@ -221,13 +221,15 @@ def plot_ks(y, y_pred, title=None, xlabel=None, ylabel=None,
     pp = y_pred[idx]
 
     cum_event = np.cumsum(yy)
-    cum_population = np.arange(0, n_samples)
+    cum_population = np.arange(1, n_samples + 1)
     cum_nonevent = cum_population - cum_event
 
     p_event = cum_event / n_event
     p_nonevent = cum_nonevent / n_nonevent
 
     p_diff = p_nonevent - p_event
+    # Samples with the same probability are on the same side of a threshold
+    p_diff[:-1][pp[1:] == pp[:-1]] = -np.inf
     ks_score = np.max(p_diff)
     ks_max_idx = np.argmax(p_diff)
 
-- 
2.43.0


From e0a178fb572e64309cdebf5922dff79aa6297109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:56 +0000
Subject: [PATCH 67/88] fix: confusion matrix metrics with a single class

---
 optbinning/metrics/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/metrics/classification.py b/optbinning/metrics/classification.py
index 1e36dae..86f8708 100644
--- a/optbinning/metrics/classification.py
+++ b/optbinning/metrics/classification.py
@@ -86,7 +86,7 @@ def imbalanced_classification_metrics(y_true, y_pred):
     metrics : dict
         Dictionary of metrics.
     """
-    tn, fp, fn, tp = confusion_matrix(y_true, y_pred).ravel()
+    tn, fp, fn, tp = confusion_matrix(y_true, y_pred, labels=[0, 1]).ravel()
 
     # Sensitivity - True positive rate (TPR)
     tpr = tp / (tp + fn)
-- 
2.43.0


From 4679e1927f05e416b93e2e0f1d55930f4cc657b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:00 +0000
Subject: [PATCH 68/88] fix: monitoring counts missing and special records in
 their bins

---
 optbinning/scorecard/monitoring.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index c8234e9..6aea270 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -70,6 +70,16 @@ def _check_parameters(scorecard, psi_method, psi_n_bins,
         raise TypeError("verbose must be a boolean; got {}.".format(verbose))
 
 
+def _psi(p_records_a, p_records_e):
+    # Bins without records in both populations do not contribute
+    psi = np.zeros(len(p_records_a))
+    mask = (p_records_a > 0) | (p_records_e > 0)
+    psi[mask] = jeffrey(p_records_a[mask], p_records_e[mask],
+                        return_sum=False)
+
+    return psi
+
+
 def print_psi_report(df_psi):
     t_psi = df_psi.PSI.values[-1]
     psi = df_psi.PSI.values[:-1]
@@ -591,7 +601,7 @@ class ScorecardMonitoring(BaseEstimator):
         p_records_a = n_records_a / t_n_records_a
         p_records_e = n_records_e / t_n_records_e
 
-        psi = jeffrey(p_records_a, p_records_e, return_sum=False)
+        psi = _psi(p_records_a, p_records_e)
 
         df_psi = pd.DataFrame({
             "Bin": bin_str,
@@ -787,10 +797,15 @@ class ScorecardMonitoring(BaseEstimator):
 
         for name in variables:
             optb = self.scorecard.binning_process_.get_binned_variable(name)
-            ta = optb.transform(X_actual[name], metric="indices")
-            te = optb.transform(X_expected[name], metric="indices")
+            ta = optb.transform(X_actual[name], metric="indices",
+                                metric_special="empirical",
+                                metric_missing="empirical")
+            te = optb.transform(X_expected[name], metric="indices",
+                                metric_special="empirical",
+                                metric_missing="empirical")
 
-            n_bins = te.max() + 1
+            bins = sc_table[sc_table.Variable == name]["Bin"].values
+            n_bins = len(bins)
 
             n_records_a = np.empty(n_bins, dtype=np.int64)
             n_records_e = np.empty(n_bins, dtype=np.int64)
@@ -804,8 +819,7 @@ class ScorecardMonitoring(BaseEstimator):
             p_records_a = n_records_a / t_n_records_a
             p_records_e = n_records_e / t_n_records_e
 
-            psi = jeffrey(p_records_a, p_records_e, return_sum=False)
-            bins = sc_table[sc_table.Variable == name]["Bin"].values[:n_bins]
+            psi = _psi(p_records_a, p_records_e)
 
             df_psi = pd.DataFrame({
                 "Variable": [name] * n_bins,
-- 
2.43.0


From 81d3ec40f85a41e6c47b94f11e72d9ca286d7958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:00 +0000
Subject: [PATCH 69/88] fix: monitoring puts a score equal to a split in the
 bin of its label

---
 optbinning/scorecard/monitoring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 6aea270..e4dac1e 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -515,8 +515,8 @@ class ScorecardMonitoring(BaseEstimator):
         n_bins = len(splits) + 1
 
         # Compute basic metrics
-        indices_a = np.digitize(score_actual, splits, right=True)
-        indices_e = np.digitize(score_expected, splits, right=True)
+        indices_a = np.digitize(score_actual, splits, right=False)
+        indices_e = np.digitize(score_expected, splits, right=False)
 
         if self._target_dtype == "binary":
             n_nonevent_a = np.empty(n_bins, dtype=np.int64)
-- 
2.43.0


From 0ac5f058e1359b93df96c307248ff4f9cd6ea087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:00 +0000
Subject: [PATCH 70/88] fix: PSI plot with a single bin

---
 optbinning/scorecard/monitoring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index e4dac1e..4383b04 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -448,7 +448,7 @@ class ScorecardMonitoring(BaseEstimator):
 
         n_bins = len(self._n_records_a)
         indices = np.arange(n_bins)
-        width = np.min(np.diff(indices))/3
+        width = 1 / 3
 
         p_records_a = self._n_records_a / self._n_records_a.sum() * 100.0
         p_records_e = self._n_records_e / self._n_records_e.sum() * 100.0
-- 
2.43.0


From 5b3f0a3309771762a9264f06fe48dec02a5ace78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:00 +0000
Subject: [PATCH 71/88] fix: monitoring bins where the significance test is not
 defined

---
 optbinning/scorecard/monitoring.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 4383b04..17d4aa5 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -114,6 +114,7 @@ def print_psi_report(df_psi):
 
 def print_tests_report(df_tests):
     pvalues = df_tests["p-value"].values
+    pvalues = pvalues[~np.isnan(pvalues)]
 
     splits = [0.05, 0.1, 0.5]
     n_bins = len(splits) + 1
@@ -124,7 +125,7 @@ def print_tests_report(df_tests):
         mask = (indices == i)
         pvalue_bins[i] = len(pvalues[mask])
 
-    p_pvalue_bins = pvalue_bins / pvalue_bins.sum()
+    p_pvalue_bins = pvalue_bins / max(pvalue_bins.sum(), 1)
 
     df_tests_string = dataframe_to_string(pd.DataFrame({
         "p-value bin":  ["[0.00, 0.05)", "[0.05, 0.10)", "[0.10, 0.50)",
@@ -635,7 +636,11 @@ class ScorecardMonitoring(BaseEstimator):
                 [n_nonevent_a[i], n_nonevent_e[i]],
                 [n_event_a[i], n_event_e[i]]])
 
-            t, p, _, _ = stats.chi2_contingency(obs, correction=False)
+            if obs.sum(axis=0).all() and obs.sum(axis=1).all():
+                t, p, _, _ = stats.chi2_contingency(obs, correction=False)
+            else:
+                # The test is not defined for this bin
+                t, p = np.nan, np.nan
 
             t_statistics.append(t)
             p_values.append(p)
-- 
2.43.0


From 88e0233169f41618a2cd4b62469be5b4db33fd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:57 +0000
Subject: [PATCH 72/88] fix: analysis of the monotonic trend leaves out every
 special bin

---
 optbinning/binning/binning_statistics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 78db3a8..3ff46ab 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -973,7 +973,7 @@ class BinningTable:
                                                     self._hhi_norm)
 
         # Monotonic trend
-        type_mono = type_of_monotonic_trend(self._event_rate[:-2])
+        type_mono = type_of_monotonic_trend(self._event_rate[:n_metric])
 
         report = (
             "---------------------------------------------\n"
@@ -1458,7 +1458,8 @@ class MulticlassBinningTable:
         monotonic_string = ""
 
         for i in range(len(self.classes)):
-            type_mono = type_of_monotonic_trend(self._event_rate[:-2, i])
+            type_mono = type_of_monotonic_trend(
+                self._event_rate[:n_metric, i])
             monotonic_string += mono_string.format(i, type_mono)
 
         report = (
@@ -2022,7 +2023,7 @@ class ContinuousBinningTable:
             rwoe, p_values, self._hhi_norm)
 
         # Monotonic trend
-        type_mono = type_of_monotonic_trend(self._mean[:-2])
+        type_mono = type_of_monotonic_trend(self._mean[:n_metric])
 
         report = (
             "-------------------------------------------------\n"
-- 
2.43.0


From 8045a36d384974b6571989a42bb11847774ac52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:57 +0000
Subject: [PATCH 73/88] fix: piecewise analysis leaves out every special bin

---
 optbinning/binning/piecewise/binning_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/piecewise/binning_statistics.py b/optbinning/binning/piecewise/binning_statistics.py
index 3092256..9e5f564 100644
--- a/optbinning/binning/piecewise/binning_statistics.py
+++ b/optbinning/binning/piecewise/binning_statistics.py
@@ -316,7 +316,7 @@ class PWBinningTable(BinningTable):
 
         # Significance tests
         n_bins = len(self._n_records)
-        n_metric = n_bins - 2
+        n_metric = n_bins - 1 - self._n_specials
 
         n_nev = self.n_nonevent[:n_metric]
         n_ev = self.n_event[:n_metric]
@@ -628,7 +628,7 @@ class PWContinuousBinningTable:
 
         # Significance tests
         n_bins = len(self.n_records)
-        n_metric = n_bins - 2
+        n_metric = n_bins - 1 - self._n_specials
 
         n_records = self.n_records[:n_metric]
         mean = self._mean[:n_metric]
-- 
2.43.0


From e6fad044ffbdbad7c1df987157209c43c83c5244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:57 +0000
Subject: [PATCH 74/88] fix: trends with plateaus are ascending or descending,
 not peaks or valleys

---
 optbinning/binning/auto_monotonic.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/optbinning/binning/auto_monotonic.py b/optbinning/binning/auto_monotonic.py
index 444b732..e94b1c6 100644
--- a/optbinning/binning/auto_monotonic.py
+++ b/optbinning/binning/auto_monotonic.py
@@ -419,7 +419,13 @@ def type_of_monotonic_trend(x):
     if len(x) == 1:
         return "undefined"
 
-    if n_peaks_valleys(x) >= 1:
+    x_diff = np.diff(x)
+
+    if np.all(x_diff >= 0):
+        return "ascending"
+    elif np.all(x_diff <= 0):
+        return "descending"
+    else:
         if _is_peak(x):
             if _is_concave(x):
                 return "peak (concave)"
@@ -432,8 +438,3 @@ def type_of_monotonic_trend(x):
                 return "valley"
         else:
             return "no monotonic"
-    else:
-        if np.all((x[1:] - x[:-1]) >= 0):
-            return "ascending"
-        else:
-            return "descending"
-- 
2.43.0


From c5016c5360d924ff9031986f89e2173d043176b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:57 +0000
Subject: [PATCH 75/88] fix: plot without special bin shows the metric of the
 missing bin

---
 optbinning/binning/binning_statistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 3ff46ab..950d750 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -779,7 +779,7 @@ class BinningTable:
                 handle_missing = mpatches.Patch(hatch="\\", alpha=0.1)
                 label_missing = "Bin missing"
 
-                ax2.plot(pos_missing, metric_values[pos_missing], marker="o",
+                ax2.plot(pos_missing, metric_values[-1], marker="o",
                          color="black")
 
             if add_special and add_missing:
@@ -1349,7 +1349,7 @@ class MulticlassBinningTable:
             label_missing = "Bin missing"
 
             for i, cl in enumerate(self.classes):
-                ax2.plot(pos_missing, metric_values[pos_missing, i],
+                ax2.plot(pos_missing, metric_values[-1, i],
                          marker="o", color=colors[i])
 
         if add_special and add_missing:
@@ -1860,7 +1860,7 @@ class ContinuousBinningTable:
                 handle_missing = mpatches.Patch(hatch="\\", alpha=0.1)
                 label_missing = "Bin missing"
 
-                ax2.plot(pos_missing, metric_values[pos_missing], marker="o",
+                ax2.plot(pos_missing, metric_values[-1], marker="o",
                          color="black")
 
             if add_special and add_missing:
-- 
2.43.0


From 69ac359fd630d7aebd87b0c8da60a0703bf5f9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:57 +0000
Subject: [PATCH 76/88] fix: bin labels of a plot without special bins with
 dictionary special codes

---
 optbinning/binning/binning_statistics.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 950d750..740213a 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -802,7 +802,8 @@ class BinningTable:
                     bin_str = self._bin_str
 
                 if not add_special:
-                    bin_str = bin_str[:-2] + [bin_str[-1]]
+                    bin_str = (bin_str[:-1 - self._n_specials] +
+                               [bin_str[-1]])
 
                 if not add_missing:
                     bin_str = bin_str[:-1]
@@ -1368,7 +1369,8 @@ class MulticlassBinningTable:
         if show_bin_labels:
             bin_str = self._bin_str
             if not add_special:
-                bin_str = bin_str[:-2] + [bin_str[-1]]
+                bin_str = (bin_str[:-1 - self._n_specials] +
+                           [bin_str[-1]])
 
             if not add_missing:
                 bin_str = bin_str[:-1]
@@ -1883,7 +1885,8 @@ class ContinuousBinningTable:
                     bin_str = self._bin_str
 
                 if not add_special:
-                    bin_str = bin_str[:-2] + [bin_str[-1]]
+                    bin_str = (bin_str[:-1 - self._n_specials] +
+                               [bin_str[-1]])
 
                 if not add_missing:
                     bin_str = bin_str[:-1]
-- 
2.43.0


From 4a0aa6d9f4c138199a2b1addb284f6ca4463d5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:05 +0000
Subject: [PATCH 77/88] fix: 2D analysis requires the table to be built

---
 optbinning/binning/multidimensional/binning_statistics_2d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optbinning/binning/multidimensional/binning_statistics_2d.py b/optbinning/binning/multidimensional/binning_statistics_2d.py
index 4d35930..11da86f 100644
--- a/optbinning/binning/multidimensional/binning_statistics_2d.py
+++ b/optbinning/binning/multidimensional/binning_statistics_2d.py
@@ -489,6 +489,8 @@ class BinningTable2D(BinningTable):
         `scipy.stats.fisher_exact <https://docs.scipy.org/doc/scipy/reference/
         generated/scipy.stats.fisher_exact.html>`_.
         """
+        _check_is_built(self)
+
         # Pairs
         pairs = get_pairs(self._paths_x, self._paths_y)
 
@@ -858,6 +860,8 @@ class ContinuousBinningTable2D(ContinuousBinningTable):
         the total target mean, :math:`r_i` is the number of records for each
         bin, and :math:`r_T` is the total number of records.
         """
+        _check_is_built(self)
+
         # Pairs
         pairs = get_pairs(self._paths_x, self._paths_y)
 
-- 
2.43.0


From 1efd41d81111f951f57bf3519dd92109aa7ababe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:40 +0000
Subject: [PATCH 78/88] fix: counterfactuals reach the outcome without the
 proximity objective

---
 optbinning/scorecard/counterfactual/mip.py    | 23 ++++++++++++------
 .../scorecard/counterfactual/multi_mip.py     | 24 +++++++++++++------
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/mip.py b/optbinning/scorecard/counterfactual/mip.py
index 7bc11a6..d217821 100644
--- a/optbinning/scorecard/counterfactual/mip.py
+++ b/optbinning/scorecard/counterfactual/mip.py
@@ -71,10 +71,14 @@ class CFMIP:
         solver.Minimize(solver.Sum([weights[name] * objs[name]
                                     for name in names]))
 
+        # Constraint: new values
+        self.add_constraint_new_values(
+            solver, p, x, nbins, metric, x_p, z)
+
         # Constraint: proximity
         if "proximity" in self.objectives:
             self.add_constraint_proximity(
-                solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+                solver, p, x, x_p, t_p, t_m)
 
         # Constraint: closeness
         if "closeness" in self.objectives:
@@ -146,10 +150,14 @@ class CFMIP:
                     solver.Add(d_p[i] - d_m[i] == objs[pobj_name] - pobj_val)
                     solver.Add(d_p[i] + d_m[i] <= self.priority_tol * absval)
 
+            # Constraint: new values
+            self.add_constraint_new_values(
+                solver, p, x, nbins, metric, x_p, z)
+
             # Constraint: proximity
             if "proximity" in self.objectives:
                 self.add_constraint_proximity(
-                    solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+                    solver, p, x, x_p, t_p, t_m)
 
             # Constraint: closeness
             if "closeness" in self.objectives:
@@ -259,16 +267,17 @@ class CFMIP:
 
         return x_p, t_p, t_m, m_p, m_m, a, z, q_p, q_m, h, s, f
 
-    def add_constraint_proximity(self, solver, p, x, nbins, metric, x_p, t_p,
-                                 t_m, z):
+    def add_constraint_new_values(self, solver, p, x, nbins, metric, x_p, z):
         for i in range(p):
-            # Absolute value
-            solver.Add(t_p[i] - t_m[i] == x[i] - x_p[i])
-
             # Compute x'
             solver.Add(x_p[i] == x[i] + solver.Sum([
                 (metric[i][j] - x[i]) * z[i, j] for j in range(nbins[i])]))
 
+    def add_constraint_proximity(self, solver, p, x, x_p, t_p, t_m):
+        for i in range(p):
+            # Absolute value
+            solver.Add(t_p[i] - t_m[i] == x[i] - x_p[i])
+
     def add_constraint_closeness(self, solver, p, F, mu, x_p, m_p, m_m):
         # Mahalanobis distance l1-norm
         for i in range(p):
diff --git a/optbinning/scorecard/counterfactual/multi_mip.py b/optbinning/scorecard/counterfactual/multi_mip.py
index 764b0fa..9155889 100644
--- a/optbinning/scorecard/counterfactual/multi_mip.py
+++ b/optbinning/scorecard/counterfactual/multi_mip.py
@@ -54,10 +54,14 @@ class MCFMIP(CFMIP):
 
         # Constraints
         for k in range(self.K):
+            # Constraint: new values
+            self.add_constraint_new_values(
+                solver, p, x, nbins, metric, x_p, z)
+
             # Constraint: proximity
             if "proximity" in self.objectives:
                 self.add_constraint_proximity(
-                    solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+                    solver, p, x, x_p, t_p, t_m)
 
             # Constraint: closeness
             if "closeness" in self.objectives:
@@ -157,10 +161,14 @@ class MCFMIP(CFMIP):
 
             # Constraints
             for k in range(self.K):
+                # Constraint: new values
+                self.add_constraint_new_values(
+                    solver, p, x, nbins, metric, x_p, z)
+
                 # Constraint: proximity
                 if "proximity" in self.objectives:
                     self.add_constraint_proximity(
-                        solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+                        solver, p, x, x_p, t_p, t_m)
 
                 # Constraint: closeness
                 if "closeness" in self.objectives:
@@ -316,18 +324,20 @@ class MCFMIP(CFMIP):
 
         return x_p, t_p, t_m, m_p, m_m, a, z, q_p, q_m, h, s, f, u, d
 
-    def add_constraint_proximity(self, solver, p, x, nbins, metric, x_p, t_p,
-                                 t_m, z):
+    def add_constraint_new_values(self, solver, p, x, nbins, metric, x_p, z):
         for k in range(self.K):
             for i in range(p):
-                # Absolute value
-                solver.Add(t_p[k, i] - t_m[k, i] == x[i] - x_p[k, i])
-
                 # Compute x'
                 solver.Add(x_p[k, i] == x[i] + solver.Sum(
                     [(metric[i][j] - x[i]) * z[k, i, j]
                      for j in range(nbins[i])]))
 
+    def add_constraint_proximity(self, solver, p, x, x_p, t_p, t_m):
+        for k in range(self.K):
+            for i in range(p):
+                # Absolute value
+                solver.Add(t_p[k, i] - t_m[k, i] == x[i] - x_p[k, i])
+
     def add_constraint_closeness(self, solver, p, F, mu, x_p, m_p, m_m):
         # Mahalanobis distance l1-norm
         for k in range(self.K):
-- 
2.43.0


From ab434a5d6c82fac123669c751d71e318a5d5ae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:29 +0000
Subject: [PATCH 79/88] fix: counterfactual priorities within the solver
 tolerance, constraints added once

The degradation allowed for an optimal objective was exact, so that rounding
in the first stage made the next one infeasible. Constraints of several
counterfactuals were added once per counterfactual, and the pieces of the
logistic function were unbounded; CBC returned wrong optima.
---
 optbinning/scorecard/counterfactual/mip.py    |   8 +-
 .../scorecard/counterfactual/multi_mip.py     | 107 +++++++++---------
 2 files changed, 60 insertions(+), 55 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/mip.py b/optbinning/scorecard/counterfactual/mip.py
index d217821..e139400 100644
--- a/optbinning/scorecard/counterfactual/mip.py
+++ b/optbinning/scorecard/counterfactual/mip.py
@@ -147,8 +147,10 @@ class CFMIP:
 
                     # Constraint: maximum relative degradation
                     absval = abs(pobj_val)
+                    tol = 1e-4 * max(1, absval)
                     solver.Add(d_p[i] - d_m[i] == objs[pobj_name] - pobj_val)
-                    solver.Add(d_p[i] + d_m[i] <= self.priority_tol * absval)
+                    solver.Add(
+                        d_p[i] + d_m[i] <= self.priority_tol * absval + tol)
 
             # Constraint: new values
             self.add_constraint_new_values(
@@ -262,7 +264,9 @@ class CFMIP:
                 h = {}
                 s = {}
                 for r in range(len(b_pw)):
-                    h[r] = solver.NumVar(-np.inf, np.inf, "h[{}]".format(r))
+                    h[r] = solver.NumVar(min(0, b_pw[r][0]),
+                                         max(0, b_pw[r][1]),
+                                         "h[{}]".format(r))
                     s[r] = solver.BoolVar("s[{}]".format(r))
 
         return x_p, t_p, t_m, m_p, m_m, a, z, q_p, q_m, h, s, f
diff --git a/optbinning/scorecard/counterfactual/multi_mip.py b/optbinning/scorecard/counterfactual/multi_mip.py
index 9155889..d4573b3 100644
--- a/optbinning/scorecard/counterfactual/multi_mip.py
+++ b/optbinning/scorecard/counterfactual/multi_mip.py
@@ -52,38 +52,37 @@ class MCFMIP(CFMIP):
         solver.Minimize(solver.Sum([weights[name] * objs[name]
                                     for name in names]))
 
-        # Constraints
-        for k in range(self.K):
-            # Constraint: new values
-            self.add_constraint_new_values(
-                solver, p, x, nbins, metric, x_p, z)
+        # Constraint: new values
+        self.add_constraint_new_values(
+            solver, p, x, nbins, metric, x_p, z)
 
-            # Constraint: proximity
-            if "proximity" in self.objectives:
-                self.add_constraint_proximity(
-                    solver, p, x, x_p, t_p, t_m)
+        # Constraint: proximity
+        if "proximity" in self.objectives:
+            self.add_constraint_proximity(
+                solver, p, x, x_p, t_p, t_m)
 
-            # Constraint: closeness
-            if "closeness" in self.objectives:
-                self.add_constraint_closeness(solver, p, F, mu, x_p, m_p, m_m)
+        # Constraint: closeness
+        if "closeness" in self.objectives:
+            self.add_constraint_closeness(solver, p, F, mu, x_p, m_p, m_m)
 
-            # Constraint: max changes
-            self.add_constraint_max_changes(solver, p, nbins, a, z)
+        # Constraint: max changes
+        self.add_constraint_max_changes(solver, p, nbins, a, z)
 
-            # Constraint: actionable features
-            self.add_constraint_actionable(solver, p, a)
+        # Constraint: actionable features
+        self.add_constraint_actionable(solver, p, a)
 
-            # Constraints applicable depending on outcome type
-            if outcome_type == "binary":
-                self.add_constraint_opposite(
-                    solver, p, y, intercept, coef, x_p)
+        # Constraints applicable depending on outcome type
+        if outcome_type == "binary":
+            self.add_constraint_opposite(
+                solver, p, y, intercept, coef, x_p)
 
-            elif outcome_type in ("probability", "continuous"):
-                self.add_constraint_min_max_diff_outcome(
-                    solver, p, y, intercept, coef, outcome_type, b_pw, c_pw,
-                    x_p, q_p, q_m, h, s, f)
+        elif outcome_type in ("probability", "continuous"):
+            self.add_constraint_min_max_diff_outcome(
+                solver, p, y, intercept, coef, outcome_type, b_pw, c_pw,
+                x_p, q_p, q_m, h, s, f)
 
-            # Diversity constraints
+        # Diversity constraints
+        for k in range(self.K):
             for l in range(k + 1, self.K):
                 for i in range(p):
                     hki = a[k, i]
@@ -156,42 +155,43 @@ class MCFMIP(CFMIP):
 
                     # Constraint: maximum relative degradation
                     absval = abs(pobj_val)
+                    tol = 1e-4 * max(1, absval)
                     solver.Add(d_p[i] - d_m[i] == objs[pobj_name] - pobj_val)
-                    solver.Add(d_p[i] + d_m[i] <= self.priority_tol * absval)
+                    solver.Add(
+                        d_p[i] + d_m[i] <= self.priority_tol * absval + tol)
 
-            # Constraints
-            for k in range(self.K):
-                # Constraint: new values
-                self.add_constraint_new_values(
-                    solver, p, x, nbins, metric, x_p, z)
+            # Constraint: new values
+            self.add_constraint_new_values(
+                solver, p, x, nbins, metric, x_p, z)
 
-                # Constraint: proximity
-                if "proximity" in self.objectives:
-                    self.add_constraint_proximity(
-                        solver, p, x, x_p, t_p, t_m)
+            # Constraint: proximity
+            if "proximity" in self.objectives:
+                self.add_constraint_proximity(
+                    solver, p, x, x_p, t_p, t_m)
 
-                # Constraint: closeness
-                if "closeness" in self.objectives:
-                    self.add_constraint_closeness(
-                        solver, p, F, mu, x_p, m_p, m_m)
+            # Constraint: closeness
+            if "closeness" in self.objectives:
+                self.add_constraint_closeness(
+                    solver, p, F, mu, x_p, m_p, m_m)
 
-                # Constraint: max changes
-                self.add_constraint_max_changes(solver, p, nbins, a, z)
+            # Constraint: max changes
+            self.add_constraint_max_changes(solver, p, nbins, a, z)
 
-                # Constraint: actionable features
-                self.add_constraint_actionable(solver, p, a)
+            # Constraint: actionable features
+            self.add_constraint_actionable(solver, p, a)
 
-                # Constraints applicable depending on outcome type
-                if outcome_type == "binary":
-                    self.add_constraint_opposite(
-                        solver, p, y, intercept, coef, x_p)
+            # Constraints applicable depending on outcome type
+            if outcome_type == "binary":
+                self.add_constraint_opposite(
+                    solver, p, y, intercept, coef, x_p)
 
-                elif outcome_type in ("probability", "continuous"):
-                    self.add_constraint_min_max_diff_outcome(
-                        solver, p, y, intercept, coef, outcome_type, b_pw,
-                        c_pw, x_p, q_p, q_m, h, s, f)
+            elif outcome_type in ("probability", "continuous"):
+                self.add_constraint_min_max_diff_outcome(
+                    solver, p, y, intercept, coef, outcome_type, b_pw,
+                    c_pw, x_p, q_p, q_m, h, s, f)
 
-                # Diversity constraints
+            # Diversity constraints
+            for k in range(self.K):
                 for l in range(k + 1, self.K):
                     for i in range(p):
                         hki = a[k, i]
@@ -309,7 +309,8 @@ class MCFMIP(CFMIP):
                 if outcome_type == "probability":
                     f[k] = solver.NumVar(0, 1, "f[{}]".format(k))
                     for r in range(len(b_pw)):
-                        h[k, r] = solver.NumVar(-np.inf, np.inf,
+                        h[k, r] = solver.NumVar(min(0, b_pw[r][0]),
+                                                max(0, b_pw[r][1]),
                                                 "h[{}, {}]".format(k, r))
                         s[k, r] = solver.BoolVar("s[{}, {}]".format(k, r))
 
-- 
2.43.0


From b4b9f1c9cd700283e5ecc91c733202fd89f4d940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:29 +0000
Subject: [PATCH 80/88] fix: counterfactuals use the values the scorecard gives
 to special and missing records

Values other than WoE or mean, and values given to special or missing bins,
were ignored, and the bin of the query could be offered as an alternative.
---
 .../counterfactual/counterfactual.py          |  4 ++--
 .../scorecard/counterfactual/model_data.py    | 17 +++++++++++------
 .../scorecard/counterfactual/problem_data.py  | 19 +++++++++----------
 optbinning/scorecard/scorecard.py             | 13 +++++++++----
 4 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/counterfactual.py b/optbinning/scorecard/counterfactual/counterfactual.py
index 9f51776..1e283c7 100644
--- a/optbinning/scorecard/counterfactual/counterfactual.py
+++ b/optbinning/scorecard/counterfactual/counterfactual.py
@@ -20,6 +20,7 @@ from .mip import CFMIP
 from .model_data import model_data
 from .multi_mip import MCFMIP
 from .problem_data import problem_data
+from .problem_data import transform
 
 
 logger = Logger(__name__).logger
@@ -625,8 +626,7 @@ class Counterfactual(BaseCounterfactual):
         if isinstance(query, dict):
             query = pd.DataFrame.from_dict(query, orient="index").T
 
-        x = self.scorecard.binning_process_.transform(
-            query[self._variable_names]).values.ravel()
+        x = transform(self.scorecard, query[self._variable_names]).ravel()
 
         return x, query
 
diff --git a/optbinning/scorecard/counterfactual/model_data.py b/optbinning/scorecard/counterfactual/model_data.py
index 2220286..9fd9051 100644
--- a/optbinning/scorecard/counterfactual/model_data.py
+++ b/optbinning/scorecard/counterfactual/model_data.py
@@ -5,27 +5,32 @@ Counterfactual model data.
 # Guillermo Navas-Palencia <g.navas.palencia@gmail.com>
 # Copyright (C) 2021
 
+import numpy as np
+
 
 def model_data(scorecard, x, special_missing):
     s_vars = scorecard.binning_process_.get_support(names=True)
 
-    sc = scorecard.table(style="detailed")
-    metric_name = "WoE" if scorecard._target_dtype == "binary" else "Mean"
-
     # Number of bins, metric and indices
     nbins = []
     metric = []
     indices = []
     for i, v in enumerate(s_vars):
-        metric_i = sc[sc.Variable == v][metric_name].values
+        metric_i = scorecard._metric_values[v]
 
         if not special_missing:
-            metric_i = metric_i[:-2]
+            optb = scorecard.binning_process_.get_binned_variable(v)
+            if isinstance(optb.special_codes, dict):
+                n_specials = len(optb.special_codes)
+            else:
+                n_specials = 1
+
+            metric_i = metric_i[:-1 - n_specials]
 
         _metric = []
         _indices = []
         for j, m in enumerate(metric_i):
-            if m != x[i]:
+            if not np.isclose(m, x[i]):
                 _indices.append(j)
                 _metric.append(m)
 
diff --git a/optbinning/scorecard/counterfactual/problem_data.py b/optbinning/scorecard/counterfactual/problem_data.py
index 2b0131b..7804cf9 100644
--- a/optbinning/scorecard/counterfactual/problem_data.py
+++ b/optbinning/scorecard/counterfactual/problem_data.py
@@ -8,18 +8,17 @@ Counterfactual problem data.
 import numpy as np
 
 
+def transform(scorecard, X):
+    # Values of the variables as seen by the scorecard model
+    return scorecard.binning_process_.transform(
+        X, metric_special=scorecard._metric_special,
+        metric_missing=scorecard._metric_missing).values
+
+
 def problem_data(scorecard, X):
     s_vars = X.columns
     n_vars = X.shape[1]
 
-    # Scorecard table
-    sc = scorecard.table(style="detailed")
-
-    if scorecard._target_dtype == "binary":
-        sc["Points"] = sc["WoE"] * sc["Coefficient"]
-    else:
-        sc["Points"] = sc["Mean"] * sc["Coefficient"]
-
     # Linear model coefficients
 
     # Only index into the intercept if it is an array, it is a scalar otherwise
@@ -37,7 +36,7 @@ def problem_data(scorecard, X):
     wrange = np.empty(n_vars)
 
     for i, v in enumerate(s_vars):
-        v_points = sc[sc["Variable"] == v]["Points"]
+        v_points = scorecard._metric_values[v] * coef[i]
         _min = np.min(v_points)
         _max = np.max(v_points)
         min_p += _min
@@ -49,7 +48,7 @@ def problem_data(scorecard, X):
     max_p += intercept
 
     # Mahalanobis distance
-    Xt = scorecard.binning_process_.transform(X).values
+    Xt = transform(scorecard, X)
     F = np.linalg.cholesky(np.linalg.inv(np.cov(Xt.T)))
     mu = Xt.mean(axis=0)
 
diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index 3bfcb36..c980d7e 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -251,6 +251,7 @@ class Scorecard(Base, BaseEstimator):
 
         self._metric_special = None
         self._metric_missing = None
+        self._metric_values = None
 
         # auxiliary
         self._target_dtype = None
@@ -602,6 +603,7 @@ class Scorecard(Base, BaseEstimator):
         selected_variables = self.binning_process_.get_support(names=True)
         transform_params = self.binning_process_.binning_transform_params or {}
         binning_tables = []
+        metric_values = {}
         for i, variable in enumerate(selected_variables):
             params = transform_params.get(variable, {})
             var_metric = params.get("metric", metric)
@@ -626,7 +628,7 @@ class Scorecard(Base, BaseEstimator):
                     var_metric_missing = "empirical"
             else:
                 values = binning_table[bt_metrics[var_metric]]
-            binning_table.loc[:, "Points"] = values * c
+            values = np.array(values, dtype=float)
 
             if var_metric_special != 'empirical':
                 if isinstance(optb.special_codes, dict):
@@ -634,10 +636,12 @@ class Scorecard(Base, BaseEstimator):
                 else:
                     n_specials = 1
 
-                binning_table.loc[
-                    nt-1-n_specials:nt-2, "Points"] = var_metric_special * c
+                values[nt-1-n_specials:nt-1] = var_metric_special
             if var_metric_missing != 'empirical':
-                binning_table.loc[nt-1, "Points"] = var_metric_missing * c
+                values[nt-1] = var_metric_missing
+
+            binning_table.loc[:, "Points"] = values * c
+            metric_values[variable] = values
 
             binning_table.index.names = ['Bin id']
             binning_table.reset_index(level=0, inplace=True)
@@ -687,6 +691,7 @@ class Scorecard(Base, BaseEstimator):
         self._time_rounding = time.perf_counter() - time_rounding
 
         self._df_scorecard = df_scorecard
+        self._metric_values = metric_values
 
         self._time_build_scorecard = time.perf_counter() - time_build_scorecard
         self._time_total = time.perf_counter() - time_init
-- 
2.43.0


From 5ca1ad444879d4cefb139395e381fbb96ad600ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:27 +0000
Subject: [PATCH 81/88] fix: scorecard rounding attains the minimum and maximum
 score

---
 optbinning/scorecard/rounding.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/optbinning/scorecard/rounding.py b/optbinning/scorecard/rounding.py
index 6d61417..1208a37 100644
--- a/optbinning/scorecard/rounding.py
+++ b/optbinning/scorecard/rounding.py
@@ -36,8 +36,8 @@ class RoundingMIP:
         min_point = np.rint(np.sum(mins))
         max_point = np.rint(np.sum(maxs))
 
-        min_p = np.min(mins)
-        max_p = np.max(maxs)
+        min_p = np.floor(np.min(mins))
+        max_p = np.ceil(np.max(maxs))
 
         # Initialize solver
         solver = pywraplp.Solver(
@@ -72,6 +72,10 @@ class RoundingMIP:
                 # Min score constraints for each variable
                 solver.Add(min_b[i] <= p[i, j])
 
+            # Min/max score of each variable are attained
+            solver.Add(min_b[i] == p[i, np.argmin(points[i])])
+            solver.Add(max_b[i] == p[i, np.argmax(points[i])])
+
         # Sum of minimum/maximum point by variable must be min_point/max_point
         solver.Add(solver.Sum([min_b[i] for i in range(nb)]) == min_point)
         solver.Add(solver.Sum([max_b[i] for i in range(nb)]) == max_point)
-- 
2.43.0


From ab248549f14a57b832a3a9d833ba431f9fd0d2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:27 +0000
Subject: [PATCH 82/88] fix: continuous piecewise binning table provides woe
 and quality score

---
 .../binning/piecewise/binning_statistics.py   | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/optbinning/binning/piecewise/binning_statistics.py b/optbinning/binning/piecewise/binning_statistics.py
index 9e5f564..d53c395 100644
--- a/optbinning/binning/piecewise/binning_statistics.py
+++ b/optbinning/binning/piecewise/binning_statistics.py
@@ -14,6 +14,7 @@ import pandas as pd
 from scipy import stats
 
 from ...binning.binning_statistics import _check_build_parameters
+from ...binning.binning_statistics import _check_is_analyzed
 from ...binning.binning_statistics import _check_is_built
 from ...binning.binning_statistics import bin_str_format
 from ...binning.binning_statistics import BinningTable
@@ -467,6 +468,8 @@ class PWContinuousBinningTable:
         self._hhi = None
         self._hhi_norm = None
         self._n_specials = None
+        self._woe = None
+        self._quality_score = None
 
         self._is_built = False
         self._is_analyzed = False
@@ -495,6 +498,7 @@ class PWContinuousBinningTable:
         mask = (self.n_records > 0)
         self._mean = np.zeros(len(self.n_records))
         self._mean[mask] = self.sums[mask] / self.n_records[mask]
+        self._woe = np.absolute(self._mean - t_sum / t_n_records).sum()
 
         # Compute HHI
         self._hhi = hhi(p_records)
@@ -688,3 +692,29 @@ class PWContinuousBinningTable:
 
         if print_output:
             print(report)
+
+        self._is_analyzed = True
+
+    @property
+    def woe(self):
+        """The sum of absolute WoEs.
+
+        Returns
+        -------
+        woe : float
+        """
+        _check_is_built(self)
+
+        return self._woe
+
+    @property
+    def quality_score(self):
+        """The quality score (QS).
+
+        Returns
+        -------
+        quality_score : float
+        """
+        _check_is_analyzed(self)
+
+        return self._quality_score
-- 
2.43.0


From 2c01a7beb5ba06080b609317cb2e9b99db8d5b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:38 +0000
Subject: [PATCH 83/88] fix: binning process refuses unfitted binnings and
 binnings of other targets

---
 optbinning/binning/binning_process.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 9056c38..7617f3b 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -998,7 +998,10 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         # Check current class
         if self._target_dtype == "binary":
             optb_binary = (OptimalBinning, OptimalPWBinning)
-            if not isinstance(optb, optb_binary):
+            # Binning classes for other targets derive from OptimalBinning
+            optb_other = (ContinuousOptimalBinning, MulticlassOptimalBinning)
+            if (not isinstance(optb, optb_binary) or
+                    isinstance(optb, optb_other)):
                 raise TypeError("target is binary and Object {} must be of "
                                 "type {}.".format(optb, optb_binary))
         elif self._target_dtype == "continuous":
@@ -1013,6 +1016,11 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                                 "of type {}.".format(
                                     optb, MulticlassOptimalBinning))
 
+        if not optb._is_fitted:
+            raise NotFittedError("Object {} is not fitted yet. Call 'fit' for "
+                                 "this object before passing to a binning "
+                                 "process.".format(name))
+
         optb_old = self._binned_variables[name]
         if optb_old.name and optb_old.name != optb.name:
             raise ValueError("Update object name must match old object name; "
-- 
2.43.0


From 2ba60f111fe33584e6e942b098df7b0f5851d6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:38 +0000
Subject: [PATCH 84/88] fix: mean metric of processes with continuous piecewise
 binnings

---
 optbinning/binning/binning_process.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 7617f3b..2a8e2d9 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1477,7 +1477,10 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             if isinstance(optb, _OPTBPW_TYPES):
                 tparams.pop("show_digits")
 
-            if var_metric is None:
+            # Continuous piecewise binning only transforms to the mean
+            if var_metric is None or (
+                    var_metric == "mean" and
+                    isinstance(optb, ContinuousOptimalPWBinning)):
                 tparams.pop("metric")
 
             X_transform[:, i] = optb.transform(**tparams)
@@ -1582,7 +1585,10 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 if isinstance(optb, _OPTBPW_TYPES):
                     tparams.pop("show_digits")
 
-                if var_metric is None:
+                # Continuous piecewise binning only transforms to the mean
+                if var_metric is None or (
+                        var_metric == "mean" and
+                        isinstance(optb, ContinuousOptimalPWBinning)):
                     tparams.pop("metric")
 
                 X_transform[:, i] = optb.transform(**tparams)
-- 
2.43.0


From 8bbc0580447cc8b54cde4efece6af2c69d17c8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:38 +0000
Subject: [PATCH 85/88] fix: selection and statistics of a binning process
 follow its current variables

---
 optbinning/binning/binning_process.py | 40 ++++++++++++++++++---------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 2a8e2d9..1580654 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -412,13 +412,11 @@ class BaseBinningProcess:
             optb.binning_table.build()
 
             n_bins = len(optb.splits)
-            if isinstance(optb, OptimalPWBinning) or optb.dtype == "numerical":
-                n_bins += 1
+            # Piecewise binning is only available for numerical variables
+            dtype = getattr(optb, "dtype", "numerical")
 
-            if isinstance(optb, OptimalPWBinning):
-                dtype = "numerical"
-            else:
-                dtype = optb.dtype
+            if dtype == "numerical":
+                n_bins += 1
 
             info = {"dtype": dtype,
                     "status": optb.status,
@@ -443,9 +441,23 @@ class BaseBinningProcess:
 
             info = {**info, **metrics}
             self._variable_stats[name] = info
+            self._variable_dtypes[name] = dtype
 
         self._support_selection_criteria()
 
+    def _discard_solution(self):
+        self._is_fitted = False
+        self._is_updated = False
+        self._variable_dtypes = {}
+        self._variable_stats = {}
+        self._binned_variables = {}
+
+    def _update_selection(self):
+        # Binned variables were updated after the last selection
+        if self._is_updated:
+            self._binning_selection_criteria()
+            self._is_updated = False
+
 
 class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
     """Binning process to compute optimal binning of variables in a dataset,
@@ -913,6 +925,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             raise ValueError("print_level must be an integer >= 0; got {}."
                              .format(print_level))
 
+        self._update_selection()
+
         n_numerical = list(self._variable_dtypes.values()).count("numerical")
         n_categorical = self._n_variables - n_numerical
 
@@ -936,9 +950,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         """
         self._check_is_fitted()
 
-        if self._is_updated:
-            self._binning_selection_criteria()
-            self._is_updated = False
+        self._update_selection()
 
         df_summary = pd.DataFrame.from_dict(self._variable_stats).T
         df_summary.reset_index(inplace=True)
@@ -1029,8 +1041,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         if optb.name and name != optb.name:
             raise ValueError("name and object name must coincide.")
 
-        self._binned_variables[name] = optb
         self._is_updated = True
+        self._binned_variables[name] = optb
 
     def get_support(self, indices=False, names=False):
         """Get a mask, or integer index, or names of the variables selected.
@@ -1062,6 +1074,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         if indices and names:
             raise ValueError("Only indices or names can be True.")
 
+        self._update_selection()
+
         mask = self._support
         if indices:
             return np.where(mask)[0]
@@ -1080,7 +1094,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         _check_parameters(**self.get_params())
 
         # The previous solution, if any, is discarded
-        self._is_fitted = False
+        self._discard_solution()
 
         # check X dtype
         if not isinstance(X, (pd.DataFrame, np.ndarray)):
@@ -1222,7 +1236,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         _check_parameters(**self.get_params())
 
         # The previous solution, if any, is discarded
-        self._is_fitted = False
+        self._discard_solution()
 
         # Input file extension
         extension = os.path.splitext(input_path)[1][1:]
@@ -1305,7 +1319,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         _check_parameters(**self.get_params())
 
         # The previous solution, if any, is discarded
-        self._is_fitted = False
+        self._discard_solution()
 
         if not isinstance(dict_optb, dict):
             raise TypeError("dict_optb must be a dict.")
-- 
2.43.0


From 0e6864c79d6d3f5d0bf36f4fccd93a5b6f13c1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:54 +0000
Subject: [PATCH 86/88] fix: continuous piecewise binning does not keep missing
 statistics of a previous fit

---
 optbinning/binning/piecewise/continuous_binning.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optbinning/binning/piecewise/continuous_binning.py b/optbinning/binning/piecewise/continuous_binning.py
index 057f23c..85366ec 100644
--- a/optbinning/binning/piecewise/continuous_binning.py
+++ b/optbinning/binning/piecewise/continuous_binning.py
@@ -298,6 +298,9 @@ class ContinuousOptimalPWBinning(BasePWBinning):
 
         # The previous solution, if any, is discarded
         self._is_fitted = False
+        self._std_missing = None
+        self._min_target_missing = None
+        self._max_target_missing = None
 
         # Pre-processing
         if self.verbose:
-- 
2.43.0


From 6648d591967771a37589c012c8556ecd8cad6f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:34 +0000
Subject: [PATCH 87/88] fix: 2D binning with cart strategy when an axis has few
 prebins

---
 optbinning/binning/multidimensional/binning_2d.py            | 2 +-
 optbinning/binning/multidimensional/continuous_binning_2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index 63369af..564d6fa 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -639,7 +639,7 @@ class OptimalBinning2D(OptimalBinning):
             n_splits_x = len(splits_x)
             n_splits_y = len(splits_y)
 
-            clf_nodes = n_splits_x * n_splits_y
+            clf_nodes = max(n_splits_x * n_splits_y, 2)
 
             indices_x = np.digitize(x_clean, splits_x, right=False)
             n_bins_x = n_splits_x + 1
diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index 321909b..6b1d877 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -564,7 +564,7 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
             n_splits_x = len(splits_x)
             n_splits_y = len(splits_y)
 
-            clf_nodes = n_splits_x * n_splits_y
+            clf_nodes = max(n_splits_x * n_splits_y, 2)
 
             indices_x = np.digitize(x_clean, splits_x, right=False)
             n_bins_x = n_splits_x + 1
-- 
2.43.0


From 98cb66925008ae9c2844d0de76547ea6419036b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:08 +0000
Subject: [PATCH 88/88] fix: MDLP candidate splits do not depend on the order
 of the records

---
 optbinning/binning/mdlp.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/mdlp.py b/optbinning/binning/mdlp.py
index 835ec7b..618fa85 100644
--- a/optbinning/binning/mdlp.py
+++ b/optbinning/binning/mdlp.py
@@ -129,7 +129,14 @@ class MDLP(BaseEstimator):
 
     def _find_split(self, u_x, x, y):
         n_x = len(x)
-        u_x = np.unique(0.5 * (x[1:] + x[:-1])[(y[1:] - y[:-1]) != 0])
+        # Candidates: midpoints of consecutive distinct values, unless all
+        # the records of both values are of the same class
+        v_x, start = np.unique(x, return_index=True)
+        n_v = np.diff(np.r_[start, n_x])
+        n_1 = np.add.reduceat(y, start)
+        mixed = (n_1[1:] + n_1[:-1] != 0) & (
+            n_1[1:] + n_1[:-1] != n_v[1:] + n_v[:-1])
+        u_x = (0.5 * (v_x[1:] + v_x[:-1]))[mixed]
 
         if len(u_x) > self.max_candidates:
             percentiles = np.linspace(1, 100, self.max_candidates)
-- 
2.43.0

