From 8b043a93cb2951d28f2b5a1c3b0d5bb8016b035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 01/41] fix: chunk offsets of TimeChunks with a lead_time slice

iter_with_chunk_offsets multiplied the lead time chunk size, which is None for a
slice, so that define_pipeline failed for every lead time interval.
---
 weatherbenchX/time_chunks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/time_chunks.py b/weatherbenchX/time_chunks.py
index 871cdc5..d42027d 100644
--- a/weatherbenchX/time_chunks.py
+++ b/weatherbenchX/time_chunks.py
@@ -195,8 +195,10 @@ class TimeChunks(Iterable[TimeChunk]):
       (offsets, (init_chunk, lead_chunk)) where offsets refers to offsets of
       the chunk within the full arrays of init_time and lead_time values.
     """
+    # The chunk size is None for a lead_time slice, which is a single chunk.
+    lead_time_chunk_size = self._lead_time_chunk_size or 0
     for index, (init_chunk, lead_chunk) in enumerate(self):
       init_index = self._init_time_chunk_size * (index // self._num_lead_chunks)
-      lead_index = self._lead_time_chunk_size * (index % self._num_lead_chunks)
+      lead_index = lead_time_chunk_size * (index % self._num_lead_chunks)
       offsets = TimeChunkOffsets(init_time=init_index, lead_time=lead_index)
       yield offsets, (init_chunk, lead_chunk)
-- 
2.43.0


From 74d87c9f564ddeda4c4e481aedd31634619eb88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 02/41] fix: mean of boolean statistics in Aggregator

---
 weatherbenchX/aggregation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weatherbenchX/aggregation.py b/weatherbenchX/aggregation.py
index d251b15..eb47789 100644
--- a/weatherbenchX/aggregation.py
+++ b/weatherbenchX/aggregation.py
@@ -17,6 +17,7 @@ import collections
 import dataclasses
 from typing import Any, Callable, Collection, Hashable, Iterable, Mapping, Sequence
 
+import numpy as np
 from weatherbenchX import binning
 from weatherbenchX import weighting
 from weatherbenchX import xarray_tree
@@ -329,6 +330,9 @@ class Aggregator:
 
   def aggregate_stat_var(self, stat: xr.DataArray) -> AggregationState | None:
     """Aggregate one statistic DataArray for one variable."""
+    if stat.dtype == bool:
+      # Sums over booleans in aggregation_fn would be logical ORs, not counts.
+      stat = stat.astype(np.float32)
     if self.masked and hasattr(stat, 'mask'):
       mask = stat.mask
       if self.skipna:
-- 
2.43.0


From 012b7962eaaa6ebdb5ee4d1edf3d1f8fa751528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 03/41] fix: sum over chunks when a bin dimension is named like
 a time dimension

---
 weatherbenchX/beam_pipeline.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/beam_pipeline.py b/weatherbenchX/beam_pipeline.py
index 891b439..23137ac 100644
--- a/weatherbenchX/beam_pipeline.py
+++ b/weatherbenchX/beam_pipeline.py
@@ -212,11 +212,17 @@ class ComputeStatisticsAggregateAndPrepareForCombine(beam.DoFn):
           ).update(
               (time.time() - start_time) * 1000
           )  # In milliseconds because beam counters use longs.
-          if 'init_time' in aggregation_state.sum_weighted_statistics.dims:
+          # Dimensions that are named like a time dimension but were not present
+          # on the statistic are bin dimensions, e.g. from ByExactCoord. Their
+          # labels can occur in several chunks, so we sum over those chunks.
+          unreduced_dims = set(stat.dims).intersection(
+              aggregation_state.sum_weighted_statistics.dims
+          )
+          if 'init_time' in unreduced_dims:
             init_time_offset = time_chunk_offsets.init_time
           else:
             init_time_offset = None
-          if 'lead_time' in aggregation_state.sum_weighted_statistics.dims:
+          if 'lead_time' in unreduced_dims:
             lead_time_offset = time_chunk_offsets.lead_time
           else:
             lead_time_offset = None
-- 
2.43.0


From 2e4442afb927bd5cb246dd221a06d7478a2d5b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 04/41] fix: keep all labels when metrics with different
 coordinates are evaluated together

---
 weatherbenchX/aggregation.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/weatherbenchX/aggregation.py b/weatherbenchX/aggregation.py
index eb47789..f9f72b1 100644
--- a/weatherbenchX/aggregation.py
+++ b/weatherbenchX/aggregation.py
@@ -134,11 +134,17 @@ class AggregationState:
     metric_values = metrics_base.compute_metrics_from_statistics(
         metrics, mean_statistics
     )
+    data_arrays = {
+        f'{metric_name}.{var_name}': da
+        for metric_name in metric_values
+        for var_name, da in metric_values[metric_name].items()
+    }
+    # Align explicitly, since assigning to a Dataset would silently drop any
+    # labels that aren't present in the previously assigned arrays.
+    aligned = xr.align(*data_arrays.values(), join='outer', copy=False)
     values = xr.Dataset()
-    for metric_name in metric_values:
-      for var_name in metric_values[metric_name]:
-        da = metric_values[metric_name][var_name]
-        values[f'{metric_name}.{var_name}'] = da
+    for name, da in zip(data_arrays, aligned):
+      values[name] = da
     return values
 
   def sum_along_dims(self, dims: Collection[str]) -> 'AggregationState':
-- 
2.43.0


From 02a16f806a1229c021448cbb9ce1a5bb81eea7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 05/41] fix: accept tuples and other iterables of thresholds
 and shifts

---
 weatherbenchX/metrics/deterministic.py | 2 ++
 weatherbenchX/metrics/wrappers.py      | 9 +++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/deterministic.py b/weatherbenchX/metrics/deterministic.py
index b9f84f4..31ec7e9 100644
--- a/weatherbenchX/metrics/deterministic.py
+++ b/weatherbenchX/metrics/deterministic.py
@@ -271,6 +271,8 @@ class ErrorExceedance(base.PerVariableStatistic):
         `error_exceedance_thresholds`.
     """
     if isinstance(thresholds, Sequence):
+      # xarray does not interpret tuples as arrays.
+      thresholds = np.array(thresholds)
       thresholds = xr.DataArray(
           thresholds,
           dims='error_exceedance_thresholds',
diff --git a/weatherbenchX/metrics/wrappers.py b/weatherbenchX/metrics/wrappers.py
index e0b0522..af153c4 100644
--- a/weatherbenchX/metrics/wrappers.py
+++ b/weatherbenchX/metrics/wrappers.py
@@ -80,6 +80,9 @@ def binarize_thresholds(
     )
     threshold = thresholds
   else:
+    # xarray does not interpret tuples (or other iterables) as arrays.
+    if not isinstance(thresholds, np.ndarray):
+      thresholds = np.array(list(thresholds))
     threshold = xr.DataArray(
         thresholds, dims=[threshold_dim], coords={threshold_dim: thresholds}
     )
@@ -651,10 +654,12 @@ class ShiftAlongNewDim(InputTransform):
         )
       shifts = self._shift_value[da.name]
     else:
+      # xarray does not interpret tuples (or other iterables) as arrays.
+      shift_value = np.array(list(self._shift_value))
       shifts = xr.DataArray(
-          self._shift_value,
+          shift_value,
           dims=[self._shift_dim],
-          coords={self._shift_dim: self._shift_value},
+          coords={self._shift_dim: shift_value},
       )
 
     return da + shifts
-- 
2.43.0


From 8c187683772c6c02592ca5e69955f2696baeb512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 06/41] fix: respect skipna_ensemble for all parts of
 CRPSEnsembleDistance

---
 weatherbenchX/metrics/probabilistic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index d682f55..08e6f78 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -632,7 +632,10 @@ class CRPSEnsembleDistance(base.PerVariableMetric):
   @property
   def statistics(self) -> Mapping[str, base.Statistic]:
     return {
-        'CRPSSkill': CRPSSkill(ensemble_dim=self._ensemble_dim),
+        'CRPSSkill': CRPSSkill(
+            ensemble_dim=self._ensemble_dim,
+            skipna_ensemble=self._skipna_ensemble,
+        ),
         'CRPSSpread': CRPSSpread(
             ensemble_dim=self._ensemble_dim,
             use_sort=self._use_sort,
@@ -644,6 +647,7 @@ class CRPSEnsembleDistance(base.PerVariableMetric):
             use_sort=self._use_sort,
             fair=self._fair,
             which='targets',
+            skipna_ensemble=self._skipna_ensemble,
         ),
     }
 
-- 
2.43.0


From 328e7c4b0b6b879a55f4c99c9457a090310a713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 07/41] fix: keep missing values missing in RankHistogram,
 EnsembleErrorExceedance, RankedProbabilityScore and opportunism statistics

---
 weatherbenchX/metrics/categorical.py   | 40 +++++++++++++++++++-------
 weatherbenchX/metrics/probabilistic.py |  9 ++++--
 2 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index 564a818..3cbc067 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -337,7 +337,7 @@ class RankedProbabilityScore(base.PerVariableStatistic):
       predictions: xr.DataArray,
       targets: xr.DataArray,
   ) -> xr.DataArray:
-    return ((predictions - targets) ** 2).sum(self._bin_dim)
+    return ((predictions - targets) ** 2).sum(self._bin_dim, skipna=False)
 
 
 # Metrics
@@ -697,6 +697,16 @@ class Reliability(base.PerVariableMetric):
     )
 
 
+def _restore_nans(
+    condition: xr.DataArray, *inputs: xr.DataArray
+) -> xr.DataArray:
+  """Converts booleans to floats which are NaN where any of the inputs is."""
+  result = condition.astype(np.float32)
+  for da in inputs:
+    result = result.where(da.notnull())
+  return result
+
+
 class Confident(base.PerVariableStatisticWithClimatology):
   """Forecast confidence.
 
@@ -735,15 +745,20 @@ class Confident(base.PerVariableStatisticWithClimatology):
 
     # Get the spread of the predictions.
     predictions_spread = predictions.quantile(
-        self._spread_high, dim=self._ensemble_dim
-    ) - predictions.quantile(self._spread_low, dim=self._ensemble_dim)
+        self._spread_high, dim=self._ensemble_dim, skipna=False
+    ) - predictions.quantile(
+        self._spread_low, dim=self._ensemble_dim, skipna=False
+    )
 
     # Climatologies are already quantiles.
     climatology_spread = aligned_climatology.sel(
         quantile=self._spread_high
     ) - aligned_climatology.sel(quantile=self._spread_low)
 
-    return predictions_spread < self._confidence_threshold * climatology_spread
+    confident = (
+        predictions_spread < self._confidence_threshold * climatology_spread
+    )
+    return _restore_nans(confident, predictions_spread, climatology_spread)
 
 
 class Covered(base.PerVariableStatistic):
@@ -776,12 +791,13 @@ class Covered(base.PerVariableStatistic):
   ) -> xr.DataArray:
     """Computes coverage per variable."""
     predictions_low = predictions.quantile(
-        self._interval_low, dim=self._ensemble_dim
+        self._interval_low, dim=self._ensemble_dim, skipna=False
     )
     predictions_high = predictions.quantile(
-        self._interval_high, dim=self._ensemble_dim
+        self._interval_high, dim=self._ensemble_dim, skipna=False
     )
-    return (predictions_low <= targets) & (targets <= predictions_high)
+    covered = (predictions_low <= targets) & (targets <= predictions_high)
+    return _restore_nans(covered, predictions_low, targets)
 
 
 class JaccardDistant(base.PerVariableStatisticWithClimatology):
@@ -825,10 +841,10 @@ class JaccardDistant(base.PerVariableStatisticWithClimatology):
     """Computes jaccard distance per variable."""
     del targets  # Unused.
     predictions_low = predictions.quantile(
-        self._interval_low, dim=self._ensemble_dim
+        self._interval_low, dim=self._ensemble_dim, skipna=False
     )
     predictions_high = predictions.quantile(
-        self._interval_high, dim=self._ensemble_dim
+        self._interval_high, dim=self._ensemble_dim, skipna=False
     )
     climatology_low = aligned_climatology.sel(quantile=self._interval_low)
     climatology_high = aligned_climatology.sel(quantile=self._interval_high)
@@ -859,7 +875,11 @@ class JaccardDistant(base.PerVariableStatisticWithClimatology):
     )
 
     jaccard_distance = 1 - jaccard_index
-    return jaccard_distance > self._threshold
+    return _restore_nans(
+        jaccard_distance > self._threshold,
+        predictions_interval_length,
+        climatology_interval_length,
+    )
 
 
 class Opportunism(base.PerVariableMetric):
diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index 08e6f78..dbfacd2 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -739,7 +739,7 @@ class EnsembleErrorExceedance(deterministic.ErrorExceedance):
       targets: xr.DataArray,
   ) -> xr.DataArray:
     out = super()._compute_per_variable(predictions, targets)
-    return out.mean(dim=self._ensemble_dim)
+    return out.mean(dim=self._ensemble_dim, skipna=False)
 
 
 class UnbiasedEnsembleMeanRMSE(base.PerVariableMetric):
@@ -1220,5 +1220,10 @@ class RankHistogram(base.PerVariableStatistic):
     categories = xr.DataArray(np.arange(num_bins), dims=['rank'])
     categories.coords['rank'] = categories
 
+    # Comparisons with NaN are False, so make sure NaNs are preserved.
+    is_valid = (
+        predictions.notnull().all(self._ensemble_dim) & targets.notnull()
+    )
+
     # Transform to floating point for the subsequent aggregation.
-    return (ranks == categories).astype(np.float32)
+    return (ranks == categories).astype(np.float32).where(is_valid)
-- 
2.43.0


From 8ed4c06ec52de1c56c094e2f364701970d820d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 08/41] fix: EnsembleRankedProbabilityScore of a missing target
 is missing, not zero, with skipna_ensemble

---
 weatherbenchX/metrics/probabilistic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index dbfacd2..6483c8b 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -473,8 +473,11 @@ class EnsembleRankedProbabilityScore(base.PerVariableStatistic):
         'tmp'
     ]
 
-    # RPS is the sum of squared errors over the bin dimension.
-    return cdf_mse.sum(self._bin_dim, skipna=self._skipna_ensemble)
+    # RPS is the sum of squared errors over the bin dimension. When all of them
+    # are missing (e.g. because of a missing target), so is the RPS.
+    return cdf_mse.sum(
+        self._bin_dim, skipna=self._skipna_ensemble, min_count=1
+    )
 
 
 ### Metrics
-- 
2.43.0


From ef57b2490270b293ceb7f1a06189ec261cc31106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 09/41] fix: wrapped interpolation of data whose longitudes are
 not ascending

---
 weatherbenchX/interpolations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index 93db5f1..a6d4cd7 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -79,6 +79,7 @@ class MultipleInterpolation(Interpolation):
 
 def pad_longitude(da: xr.DataArray) -> xr.DataArray:
   """Pad longitude values to allow for wrapped interpolation."""
+  da = da.sortby('longitude')
   left = da.isel(longitude=[-1])
   left = left.assign_coords(longitude=left.longitude.values - 360)
   right = da.isel(longitude=[0])
-- 
2.43.0


From c8b8cca3abc453ecfa9d8d2fecfddf39e47370da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 10/41] fix: clip_reference_coords for references that are not
 ascending

---
 weatherbenchX/interpolations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index a6d4cd7..e5ff874 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -262,9 +262,10 @@ class InterpolateToReferenceCoords(Interpolation):
 
     if self._clip_reference_coords is not None:
       for coord in self._clip_reference_coords:
-        reference = reference.sel(
-            {coord: slice(da[coord].min(), da[coord].max())}
+        in_range = (reference[coord] >= da[coord].min()) & (
+            reference[coord] <= da[coord].max()
         )
+        reference = reference.isel({coord: in_range.values})
 
     # If dims not explicit, interpolate all dims that have a corresponding
     # coordinate in the reference.
-- 
2.43.0


From ae67dbd62e62fad2e5ea934f21e435ea64414526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:26 +0000
Subject: [PATCH 11/41] fix: altitude adjustment changed the caller's data
 array

---
 weatherbenchX/interpolations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index e5ff874..9e2faa0 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -350,7 +350,7 @@ class GridToSparseWithAltitudeAdjustment(InterpolateToReferenceCoords):
       reference: xr.DataArray,  # pytype: disable=signature-mismatch
   ) -> xr.DataArray:
     if da.name in ['2m_temperature', '10m_wind_speed']:
-      da.coords['grid_elevation'] = self._grid_elevation.compute()
+      da = da.assign_coords(grid_elevation=self._grid_elevation.compute())
 
     da_like_reference = super().interpolate_data_array(da, reference)
     if da.name in ['2m_temperature', '10m_wind_speed']:
-- 
2.43.0


From 5e3e5f821348df509d79ec265b67fcb21e5aa8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:26 +0000
Subject: [PATCH 12/41] fix: altitude adjustment with an empty reference

---
 weatherbenchX/interpolations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index 9e2faa0..5016f19 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -353,6 +353,8 @@ class GridToSparseWithAltitudeAdjustment(InterpolateToReferenceCoords):
       da = da.assign_coords(grid_elevation=self._grid_elevation.compute())
 
     da_like_reference = super().interpolate_data_array(da, reference)
+    if reference.size == 0:
+      return da_like_reference  # Nothing to adjust.
     if da.name in ['2m_temperature', '10m_wind_speed']:
       # Positive if station is higher than grid.
       sparse_higher_than_grid_m = (
-- 
2.43.0


From 078d95be7ccfaeaf93162314791c20c5abc4c437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 13/41] fix: extrapolation of InterpolateToFixedCoords and of
 gridded references in several dimensions

---
 weatherbenchX/interpolations.py | 39 ++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index 5016f19..e57db86 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -94,23 +94,32 @@ def interpolate_to_coords(
     extrapolate_out_of_bounds: bool = True,
 ) -> xr.DataArray:
   """Interpolate to a fixed set of coordinates."""
-  if extrapolate_out_of_bounds:
-    # See xarray documentation for interpolation behaviour.
-    # https://docs.xarray.dev/en/latest/generated/xarray.DataArray.interp.html
-    if len(dim_args) > 1:
-      # https://docs.scipy.org/doc/scipy/reference/generated/scipy.interpolate.interpn.html
-      interp_kwargs = {'fill_value': None}
+  if not extrapolate_out_of_bounds:
+    return da.interp(**dim_args, method=method)  # pytype: disable=wrong-arg-types
+
+  # See xarray documentation for interpolation behaviour.
+  # https://docs.xarray.dev/en/latest/generated/xarray.DataArray.interp.html
+  # xarray interpolates one dimension at a time unless the new coordinates share
+  # dimensions. The two cases take different arguments for extrapolation.
+  new_dims = {
+      dim: set(x.dims) if isinstance(x, xr.DataArray) else {dim}
+      for dim, x in dim_args.items()
+  }
+  joint_dim_args = {}
+  out = da
+  for dim, x in dim_args.items():
+    if any(new_dims[dim] & new_dims[d] for d in dim_args if d != dim):
+      joint_dim_args[dim] = x
     else:
       # https://docs.scipy.org/doc/scipy/reference/generated/scipy.interpolate.interp1d.html
-      interp_kwargs = {'fill_value': 'extrapolate'}
-  else:
-    interp_kwargs = None
-
-  out = da.interp(
-      **dim_args,
-      method=method,
-      kwargs=interp_kwargs,
-  )  # pytype: disable=wrong-arg-types
+      out = out.interp(
+          {dim: x}, method=method, kwargs={'fill_value': 'extrapolate'}
+      )
+  if joint_dim_args:
+    # https://docs.scipy.org/doc/scipy/reference/generated/scipy.interpolate.interpn.html
+    out = out.interp(
+        **joint_dim_args, method=method, kwargs={'fill_value': None}
+    )
   return out
 
 
-- 
2.43.0


From e86aa491a64bca3248830b9a394c36f6d2b30385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 14/41] fix: masks of FSS fractions whose dimensions are not in
 the default order

---
 weatherbenchX/metrics/spatial.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/spatial.py b/weatherbenchX/metrics/spatial.py
index 4a9c595..ebdee01 100644
--- a/weatherbenchX/metrics/spatial.py
+++ b/weatherbenchX/metrics/spatial.py
@@ -74,8 +74,9 @@ def neighborhood_averaging_for_single_size(
     )
     # This should be new_mask == 1 but there are some rounding errors in
     # convolve2d, so that this fails. Therefore, we use isclose.
-    new_mask = np.isclose(new_mask, True)
-    out.coords['mask'][:] = new_mask.astype(bool)
+    out = out.assign_coords(
+        mask=(new_mask.dims, np.isclose(new_mask.values, True))
+    )
   return out
 
 
-- 
2.43.0


From 62132dc7138c60fd9e2abcd1aad45206603099ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 15/41] fix: FSS of boolean inputs with a neighborhood of one
 pixel

---
 weatherbenchX/metrics/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/spatial.py b/weatherbenchX/metrics/spatial.py
index ebdee01..ee2fa44 100644
--- a/weatherbenchX/metrics/spatial.py
+++ b/weatherbenchX/metrics/spatial.py
@@ -33,7 +33,7 @@ def convolve2d_wrap_longitude(
   # harmonics space, which would be faster.
   """Convolve2d with optional wrap around longitude."""
   if neighborhood_size == 1:
-    return x
+    return x.astype(np.float32)
   if neighborhood_size % 2 != 1:
     raise ValueError('neighborhood_size must be odd.')
   half_n = (neighborhood_size - 1) // 2
-- 
2.43.0


From a697011e6f51bac0a00c4287f4af5d6a14d6f88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 16/41] fix: FSS denominator used the mask before averaging

---
 weatherbenchX/metrics/spatial.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/weatherbenchX/metrics/spatial.py b/weatherbenchX/metrics/spatial.py
index ee2fa44..95c5c9c 100644
--- a/weatherbenchX/metrics/spatial.py
+++ b/weatherbenchX/metrics/spatial.py
@@ -156,6 +156,10 @@ class SquaredPredictionFraction(base.PerVariableStatistic):
       predictions: xr.DataArray,
       targets: xr.DataArray,
   ) -> xr.DataArray:
+    if 'mask' in targets.coords:  # Averaging also shrinks the mask.
+      targets = neighborhood_averaging(
+          targets, self.neighborhood_size_in_pixels, self.wrap_longitude
+      )
     predictions = neighborhood_averaging(
         predictions, self.neighborhood_size_in_pixels, self.wrap_longitude
     )
@@ -179,6 +183,10 @@ class SquaredTargetFraction(base.PerVariableStatistic):
       predictions: xr.DataArray,
       targets: xr.DataArray,
   ) -> xr.DataArray:
+    if 'mask' in predictions.coords:  # Averaging also shrinks the mask.
+      predictions = neighborhood_averaging(
+          predictions, self.neighborhood_size_in_pixels, self.wrap_longitude
+      )
     targets = neighborhood_averaging(
         targets, self.neighborhood_size_in_pixels, self.wrap_longitude
     )
-- 
2.43.0


From 60f93cb683771c3c1dfab28f79b01f623aeac87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 17/41] fix: FSS with a tuple of neighborhood sizes

---
 weatherbenchX/metrics/spatial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/spatial.py b/weatherbenchX/metrics/spatial.py
index 95c5c9c..fdc6c5f 100644
--- a/weatherbenchX/metrics/spatial.py
+++ b/weatherbenchX/metrics/spatial.py
@@ -92,7 +92,9 @@ def neighborhood_averaging(
             neighborhood_averaging_for_single_size(da, n, wrap_longitude)
             for n in neighborhood_size
         ],
-        dim=xr.DataArray(neighborhood_size, dims=['neighborhood_size']),
+        dim=xr.DataArray(
+            list(neighborhood_size), dims=['neighborhood_size']
+        ),
     )
   else:
     return neighborhood_averaging_for_single_size(
-- 
2.43.0


From a45cb118f24a3ddb7284b3568b091bdb32a3ece4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 18/41] fix: unique names of statistics include all parameters
 that affect the values

---
 weatherbenchX/metrics/categorical.py   |  8 +++----
 weatherbenchX/metrics/deterministic.py | 33 +++++++++++++++++++++++++-
 weatherbenchX/metrics/probabilistic.py | 20 ++++++++++++----
 weatherbenchX/metrics/wrappers.py      |  7 ++++--
 4 files changed, 57 insertions(+), 11 deletions(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index 3cbc067..8d3c9ce 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -330,7 +330,7 @@ class RankedProbabilityScore(base.PerVariableStatistic):
 
   @property
   def unique_name(self) -> str:
-    return 'RankedProbabilityScore'
+    return f'RankedProbabilityScore_{self._bin_dim}'
 
   def _compute_per_variable(
       self,
@@ -728,7 +728,7 @@ class Confident(base.PerVariableStatisticWithClimatology):
   @property
   def unique_name(self) -> str:
     return (
-        'Confident'
+        f'Confident_{self._ensemble_dim}'
         + f'_conf_thres={self._confidence_threshold}'
         + f'_spread_low={self._spread_low}'
         + f'_spread_high={self._spread_high}'
@@ -779,7 +779,7 @@ class Covered(base.PerVariableStatistic):
   @property
   def unique_name(self) -> str:
     return (
-        'Covered'
+        f'Covered_{self._ensemble_dim}'
         + f'_interval_low={self._interval_low}'
         + f'_interval_high={self._interval_high}'
     )
@@ -826,7 +826,7 @@ class JaccardDistant(base.PerVariableStatisticWithClimatology):
   @property
   def unique_name(self) -> str:
     return (
-        'JaccardDistant'
+        f'JaccardDistant_{self._ensemble_dim}'
         + f'_threshold={self._threshold}'
         + f'_interval_low={self._interval_low}'
         + f'_interval_high={self._interval_high}'
diff --git a/weatherbenchX/metrics/deterministic.py b/weatherbenchX/metrics/deterministic.py
index 31ec7e9..cc3cee0 100644
--- a/weatherbenchX/metrics/deterministic.py
+++ b/weatherbenchX/metrics/deterministic.py
@@ -14,6 +14,8 @@
 """Implementation of deterministic metrics and assiciated statistics."""
 from absl import logging
 from collections.abc import Hashable
+import functools
+import hashlib
 from typing import Iterable, Mapping, Sequence, Union
 import jax
 import numpy as np
@@ -48,6 +50,10 @@ class RelativeIntensity(base.PerVariableStatistic):
     """
     self._spatial_dims = spatial_dims
 
+  @property
+  def unique_name(self) -> str:
+    return 'RelativeIntensity_' + '_'.join(self._spatial_dims)
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
@@ -135,6 +141,11 @@ class PredictionPassthrough(base.PerVariableStatistic):
     """
     self._copy_nans_from_targets = copy_nans_from_targets
 
+  @property
+  def unique_name(self) -> str:
+    suffix = '_copy_nans_from_targets' if self._copy_nans_from_targets else ''
+    return 'PredictionPassthrough' + suffix
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
@@ -159,6 +170,13 @@ class TargetPassthrough(base.PerVariableStatistic):
     """
     self._copy_nans_from_predictions = copy_nans_from_predictions
 
+  @property
+  def unique_name(self) -> str:
+    suffix = (
+        '_copy_nans_from_predictions' if self._copy_nans_from_predictions else ''
+    )
+    return 'TargetPassthrough' + suffix
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
@@ -200,7 +218,10 @@ class WindVectorSquaredError(base.Statistic):
 
   @property
   def unique_name(self) -> str:
-    suffix = '_'.join(self._vector_name)
+    suffix = '_'.join(
+        ','.join(names)
+        for names in zip(self._vector_name, self._u_name, self._v_name)
+    )
     return 'WindVectorSquaredError_' + suffix
 
   def compute(
@@ -280,6 +301,16 @@ class ErrorExceedance(base.PerVariableStatistic):
       )
     self._thresholds = thresholds
 
+  @functools.cached_property
+  def _thresholds_id(self) -> str:
+    # Identifies the thresholds by their values and coordinates.
+    content = repr(self._thresholds.to_dict())
+    return hashlib.sha1(content.encode()).hexdigest()[:12]
+
+  @property
+  def unique_name(self) -> str:
+    return f'ErrorExceedance_{self._thresholds_id}'
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index 6483c8b..31f9db3 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -48,7 +48,10 @@ class EnsembleAveragedStatistic(base.Statistic):
 
   @property
   def unique_name(self) -> str:
-    return self._wrapped_statistic.unique_name + '_each_' + self._ensemble_dim
+    return (
+        f'{self._wrapped_statistic.unique_name}_each_{self._ensemble_dim}'
+        f'_skipna_ensemble_{self._skipna_ensemble}'
+    )
 
   def compute(
       self,
@@ -124,7 +127,7 @@ class CRPSSkill(base.PerVariableStatistic):
 
   @property
   def unique_name(self) -> str:
-    return f'CRPSSkill_{self._ensemble_dim}'
+    return f'CRPSSkill_{self._ensemble_dim}_skipna_ensemble_{self._skipna_ensemble}'
 
   def _compute_per_variable(
       self,
@@ -189,7 +192,10 @@ class CRPSSpread(base.PerVariableStatistic):
   @property
   def unique_name(self) -> str:
     fair_str = 'fair' if self._fair else 'unfair'
-    return f'CRPSSpread_{self._ensemble_dim}_{fair_str}_{self._which}'
+    return (
+        f'CRPSSpread_{self._ensemble_dim}_{fair_str}_{self._which}'
+        f'_skipna_ensemble_{self._skipna_ensemble}'
+    )
 
   def _compute_per_variable(
       self,
@@ -407,6 +413,7 @@ class EnsembleRankedProbabilityScore(base.PerVariableStatistic):
     self._fair = fair
     self._bin_dim = bin_dim
     self._unique_name_suffix = unique_name_suffix
+    self._right_inclusive = right_inclusive
 
     binned_prediction_wrapper = wrappers.ContinuousToCDF(
         which='predictions',
@@ -458,6 +465,7 @@ class EnsembleRankedProbabilityScore(base.PerVariableStatistic):
         f'RankedProbabilityScore_{self._ensemble_dim}_'
         f'skipna_ensemble_{self._skipna_ensemble}_'
         f'fair_{self._fair}_'
+        f'right_inclusive_{self._right_inclusive}_'
         f'{self._unique_name_suffix}'
     )
 
@@ -736,6 +744,10 @@ class EnsembleErrorExceedance(deterministic.ErrorExceedance):
     super().__init__(thresholds=thresholds)
     self._ensemble_dim = ensemble_dim
 
+  @property
+  def unique_name(self) -> str:
+    return f'Ensemble{super().unique_name}_{self._ensemble_dim}'
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
@@ -1042,7 +1054,7 @@ class RelativeEconomicValue(base.Metric):
     if self._thresholds is None:
       self._thresholds = (np.arange(ensemble_size) + 0.5) / ensemble_size
       if statistic_suffix is None:
-        statistic_suffix = 'all_thresholds_for_ensemble_size'
+        statistic_suffix = f'all_thresholds_for_ensemble_size_{ensemble_size}'
     if not np.all(self._thresholds >= 0.0) or not np.all(
         self._thresholds <= 1.0
     ):
diff --git a/weatherbenchX/metrics/wrappers.py b/weatherbenchX/metrics/wrappers.py
index af153c4..34a0858 100644
--- a/weatherbenchX/metrics/wrappers.py
+++ b/weatherbenchX/metrics/wrappers.py
@@ -496,7 +496,10 @@ class WeibullEnsembleToProbabilistic(InputTransform):
 
   @property
   def unique_name_suffix(self) -> str:
-    return 'ensemble_to_probabilistic_by_weibull_plotting_position'
+    return (
+        'ensemble_to_probabilistic_by_weibull_plotting_position'
+        f'_{self._ensemble_dim}_skipna_{self._skipna}'
+    )
 
   def transform_fn(self, da: xr.DataArray) -> xr.DataArray:
     ensemble_members = da.sizes[self._ensemble_dim]
@@ -893,7 +896,7 @@ class SubselectVariablesForStatistic(base.Statistic):
   def unique_name(self) -> str:
     # Make sure to change unique name in case there is another, non-subsetted
     # statistic with the same name.
-    variables_str = '_'.join(self.variables)
+    variables_str = ','.join(self.variables)
     return f'{self.statistic.unique_name}_{variables_str}'
 
   def compute(
-- 
2.43.0


From 1c6386c8e135b8fc1a7c0a70eb4920a88c470edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:17 +0000
Subject: [PATCH 19/41] fix: keep the mask of statistics that use only one of
 the inputs

---
 weatherbenchX/metrics/base.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/base.py b/weatherbenchX/metrics/base.py
index a9f7144..917e689 100644
--- a/weatherbenchX/metrics/base.py
+++ b/weatherbenchX/metrics/base.py
@@ -173,6 +173,24 @@ class Statistic(Metric):
     return statistic_values['self']
 
 
+def _propagate_mask(
+    statistic: xr.DataArray, *inputs: xr.DataArray
+) -> xr.DataArray:
+  """Adds the mask of the inputs, if the statistic only depends on the others."""
+  if 'mask' in statistic.coords:
+    return statistic
+  for da in inputs:
+    if 'mask' in da.coords:
+      mask = da.coords['mask'].reset_coords(drop=True)
+      if all(
+          d in statistic.dims
+          and statistic[d].variable.equals(mask[d].variable)
+          for d in mask.dims
+      ):
+        return statistic.assign_coords(mask=mask)
+  return statistic
+
+
 class PerVariableStatistic(Statistic):
   """Abstract base class for statistics that are computed per variable.
 
@@ -193,7 +211,8 @@ class PerVariableStatistic(Statistic):
         per_var_result = self._compute_per_variable(
             predictions[var_name], targets[var_name])
         if per_var_result is not None:
-          result[var_name] = per_var_result
+          result[var_name] = _propagate_mask(
+              per_var_result, targets[var_name], predictions[var_name])
     return result
 
   @abc.abstractmethod
@@ -401,9 +420,10 @@ class PerVariableStatisticWithClimatology(Statistic):
       if hasattr(climatology, 'hour'):
         sel_kwargs['hour'] = valid_time.dt.hour
     aligned_climatology = climatology.sel(**sel_kwargs).compute()
-    return self._compute_per_variable_with_aligned_climatology(
+    result = self._compute_per_variable_with_aligned_climatology(
         predictions, targets, aligned_climatology
     )
+    return _propagate_mask(result, targets, predictions)
 
   @abc.abstractmethod
   def _compute_per_variable_with_aligned_climatology(
-- 
2.43.0


From a8680e997bc320dcd70eb0484417be78c3357376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:17 +0000
Subject: [PATCH 20/41] fix: combine the masks of both components in
 WindVectorSquaredError

---
 weatherbenchX/metrics/deterministic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/weatherbenchX/metrics/deterministic.py b/weatherbenchX/metrics/deterministic.py
index cc3cee0..2c4e379 100644
--- a/weatherbenchX/metrics/deterministic.py
+++ b/weatherbenchX/metrics/deterministic.py
@@ -236,6 +236,9 @@ class WindVectorSquaredError(base.Statistic):
       targets_u = targets[u]
       targets_v = targets[v]
       se = (predictions_u - targets_u) ** 2 + (predictions_v - targets_v) ** 2
+      if 'mask' in targets_u.coords and 'mask' in targets_v.coords:
+        # Both components are required. Different masks would get lost.
+        se.coords['mask'] = targets_u.mask & targets_v.mask
       out[vector] = se
     return out
 
-- 
2.43.0


From 406b2f24a1689884ad9e31d750e8963b73749db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:17 +0000
Subject: [PATCH 21/41] fix: WeibullEnsembleToProbabilistic without any members
 is missing, not zero

---
 weatherbenchX/metrics/wrappers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weatherbenchX/metrics/wrappers.py b/weatherbenchX/metrics/wrappers.py
index 34a0858..523bd9f 100644
--- a/weatherbenchX/metrics/wrappers.py
+++ b/weatherbenchX/metrics/wrappers.py
@@ -503,9 +503,9 @@ class WeibullEnsembleToProbabilistic(InputTransform):
 
   def transform_fn(self, da: xr.DataArray) -> xr.DataArray:
     ensemble_members = da.sizes[self._ensemble_dim]
-    return da.sum(self._ensemble_dim, skipna=self._skipna) / (
-        ensemble_members + 1
-    )
+    # min_count: without any members the probability is missing, not zero.
+    events = da.sum(self._ensemble_dim, skipna=self._skipna, min_count=1)
+    return events / (ensemble_members + 1)
 
 
 class Inline(InputTransform):
-- 
2.43.0


From 8c344f562392f78f8ff08d1d9123604027d52a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:17 +0000
Subject: [PATCH 22/41] fix: add_nan_mask_to_data does not modify the arrays of
 the caller

---
 weatherbenchX/data_loaders/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/data_loaders/base.py b/weatherbenchX/data_loaders/base.py
index 16370d4..ade2d33 100644
--- a/weatherbenchX/data_loaders/base.py
+++ b/weatherbenchX/data_loaders/base.py
@@ -52,7 +52,7 @@ def add_nan_mask_to_data(
   data = dict(data)
   for var in data:
     if variable_subset is None or var in variable_subset:
-      data[var].coords['mask'] = ~np.isnan(data[var])
+      data[var] = data[var].assign_coords(mask=~np.isnan(data[var]))
   return data
 
 
-- 
2.43.0


From c84b91dd12dca7d6af61142078f907bbf8efb1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 23/41] fix: Jaccard distance of two different single-point
 intervals is one

---
 weatherbenchX/metrics/categorical.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index 8d3c9ce..7bc9576 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -865,13 +865,14 @@ class JaccardDistant(base.PerVariableStatisticWithClimatology):
     ) - intersection_length
 
     # We need to handle the case where union_length is 0. This occurs if both
-    # intervals are identical single points (e.g., [5, 5] and [5, 5]). In this
-    # specific case, the Jaccard Index should be 1 (perfect overlap). Note that
-    # in this case the intersection_length will also be 0.
+    # intervals are single points. Note that in this case the
+    # intersection_length will also be 0. If the points are identical (e.g.,
+    # [5, 5] and [5, 5]) the Jaccard Index should be 1 (perfect overlap). If they
+    # differ (e.g., [5, 5] and [7, 7]) there is no overlap and it should be 0.
     jaccard_index = xr.where(
         union_length > 0,
         intersection_length / union_length,
-        1.0
+        xr.where(predictions_low == climatology_low, 1.0, 0.0),
     )
 
     jaccard_distance = 1 - jaccard_index
-- 
2.43.0


From 0bae8e7b1f0c812a172347384ac538445243334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 24/41] fix: ConstantLatencyWrapper respects
 add_values_to_coords of the wrapped data loader

---
 weatherbenchX/data_loaders/latency_wrappers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weatherbenchX/data_loaders/latency_wrappers.py b/weatherbenchX/data_loaders/latency_wrappers.py
index a3d96c7..5332825 100644
--- a/weatherbenchX/data_loaders/latency_wrappers.py
+++ b/weatherbenchX/data_loaders/latency_wrappers.py
@@ -89,6 +89,7 @@ class ConstantLatencyWrapper(base.DataLoader):
         compute=data_loader._compute,
         add_nan_mask=data_loader._add_nan_mask,
         process_chunk_fn=data_loader._process_chunk_fn,
+        add_values_to_coords=data_loader._add_values_to_coords,
     )
 
   def get_available_init_time(self, init_time: np.datetime64) -> np.datetime64:
-- 
2.43.0


From fb32fce6e489b821d7619a9f3f05534c1aea5393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 25/41] fix: MultipleConstantLatencyWrapper ignores data
 loaders without an available init time

---
 weatherbenchX/data_loaders/latency_wrappers.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/data_loaders/latency_wrappers.py b/weatherbenchX/data_loaders/latency_wrappers.py
index 5332825..19dfea8 100644
--- a/weatherbenchX/data_loaders/latency_wrappers.py
+++ b/weatherbenchX/data_loaders/latency_wrappers.py
@@ -257,9 +257,14 @@ class MultipleConstantLatencyWrapper(base.DataLoader):
     )
 
   def _get_data_loader(self, init_time):
+    data_loaders = []
     lead_time_offsets_and_latencies = []
     for data_loader in self._data_loaders:
-      available_init_time = data_loader.get_available_init_time(init_time)
+      try:
+        available_init_time = data_loader.get_available_init_time(init_time)
+      except ValueError:
+        continue  # This data loader does not have any available init time yet.
+      data_loaders.append(data_loader)
       lead_time_offset = init_time - available_init_time
       # Break ties by picking the data loader with largest latency -- note that
       # we make latency negative here because we want the smallest
@@ -267,6 +272,8 @@ class MultipleConstantLatencyWrapper(base.DataLoader):
       lead_time_offsets_and_latencies.append(
           (lead_time_offset, -data_loader.latency)
       )
+    if not data_loaders:
+      raise ValueError(f'No init time available for {init_time}.')
     lead_time_offsets_and_latencies = np.array(
         lead_time_offsets_and_latencies,
         dtype=[
@@ -278,7 +285,7 @@ class MultipleConstantLatencyWrapper(base.DataLoader):
         lead_time_offsets_and_latencies,
         order=('lead_time_offset', 'neg_latency'),
     )
-    most_recent_data_loader = self._data_loaders[idx[0]]
+    most_recent_data_loader = data_loaders[idx[0]]
     logging.info(
         'Init time: %s, data loader latency: %s',
         init_time,
-- 
2.43.0


From 08665396682005ae893f9a934c4692247e80b030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 26/41] fix: lead time intervals of sparse observations start
 at the start of the interval

---
 weatherbenchX/data_loaders/sparse_parquet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/data_loaders/sparse_parquet.py b/weatherbenchX/data_loaders/sparse_parquet.py
index 733b700..0feba37 100644
--- a/weatherbenchX/data_loaders/sparse_parquet.py
+++ b/weatherbenchX/data_loaders/sparse_parquet.py
@@ -223,7 +223,7 @@ class SparseObservationsFromParquet(base.DataLoader):
         start_time = valid_time
         stop_time = None
       else:
-        start_time = valid_time - lead_time_slice.start
+        start_time = valid_time + lead_time_slice.start
         stop_time = valid_time + lead_time_slice.stop
 
     else:
-- 
2.43.0


From 1827ea910c847142594c1c094c63185268e5baf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 27/41] fix: sparse observations with a tuple of variables

---
 weatherbenchX/data_loaders/sparse_parquet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/data_loaders/sparse_parquet.py b/weatherbenchX/data_loaders/sparse_parquet.py
index 0feba37..886ddfe 100644
--- a/weatherbenchX/data_loaders/sparse_parquet.py
+++ b/weatherbenchX/data_loaders/sparse_parquet.py
@@ -159,7 +159,7 @@ class SparseObservationsFromParquet(base.DataLoader):
       raise ValueError(f'Unsupported partitioned_by: {partitioned_by}')
     self._partitioned_by = partitioned_by
     self._time_dim = time_dim
-    self._variables = variables
+    self._variables = list(variables)
     self._coordinate_variables = list(coordinate_variables) + ['valid_time']
     self._split_variables = split_variables
     self._dropna = dropna
-- 
2.43.0


From ce75470c4fb4fb362ab31d419e96cd79404feb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 28/41] fix: bootstrap p-values where resampled values are tied
 with the null value

---
 weatherbenchX/statistical_inference/bootstrap.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/statistical_inference/bootstrap.py b/weatherbenchX/statistical_inference/bootstrap.py
index efc00b0..4207e68 100644
--- a/weatherbenchX/statistical_inference/bootstrap.py
+++ b/weatherbenchX/statistical_inference/bootstrap.py
@@ -115,8 +115,12 @@ class Bootstrap(base.StatisticalInferenceMethod):
         return np.nan
       data = np.sort(resampled)
       q = np.linspace(0, 1, data.shape[0])
-      empirical_cdf_at_null = np.interp(null_value, data, q)
-      return 2 * min(empirical_cdf_at_null, 1 - empirical_cdf_at_null)
+      # Where some resampled values are tied with the null value, the empirical
+      # CDF jumps at the null value, and the two tails need to be computed from
+      # the limits of the CDF from either side of the jump.
+      lower_tail = np.interp(null_value, data, q)
+      upper_tail = np.interp(-null_value, -data[::-1], q)
+      return min(1.0, 2 * min(lower_tail, upper_tail))
 
     def p_value(resampled: xr.DataArray) -> xr.DataArray:
       return xr.apply_ufunc(
-- 
2.43.0


From 439c29730e4c5ef908c18dc73bdbaf282c8ecc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 29/41] fix: missing statistics are missing in resamples of
 StationaryBootstrap, not zero

---
 weatherbenchX/statistical_inference/bootstrap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/statistical_inference/bootstrap.py b/weatherbenchX/statistical_inference/bootstrap.py
index 4207e68..e89b377 100644
--- a/weatherbenchX/statistical_inference/bootstrap.py
+++ b/weatherbenchX/statistical_inference/bootstrap.py
@@ -548,8 +548,10 @@ class StationaryBootstrap(Bootstrap):
       # Note the dimensions of bootstrap_indices (experimental_unit_dim,
       # _REPLICATE_DIM) that we're selecting, will be present in the result of
       # the isel call.
+      # We use skipna=False so that missing values propagate, consistently with
+      # the point estimates and with IIDBootstrap.
       return data.isel({self._experimental_unit_dim: bootstrap_indices}).sum(
-          self._experimental_unit_dim)
+          self._experimental_unit_dim, skipna=False)
     sum_weighted_stats, sum_weights = xarray_tree.map_structure(
         sum_of_resampled, (sum_weighted_stats, sum_weights))
     mean_stats = xarray_tree.map_structure(
-- 
2.43.0


From daa525aafcbeaaa3518b874cf079ac6488c41cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 30/41] fix: block lengths of StationaryBootstrap for metrics
 with additional output dimensions

---
 weatherbenchX/statistical_inference/bootstrap.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/statistical_inference/bootstrap.py b/weatherbenchX/statistical_inference/bootstrap.py
index e89b377..2163e93 100644
--- a/weatherbenchX/statistical_inference/bootstrap.py
+++ b/weatherbenchX/statistical_inference/bootstrap.py
@@ -558,4 +558,12 @@ class StationaryBootstrap(Bootstrap):
         lambda x, y: x / y, sum_weighted_stats, sum_weights)
     del sum_weighted_stats, sum_weights
 
-    return metric.values_from_mean_statistics(mean_stats)[var_name]
+    result = metric.values_from_mean_statistics(mean_stats)[var_name]
+    # Dimensions which the metric introduces in its output aren't present in the
+    # statistics, and so haven't been sliced down to a single index yet:
+    for dim in result.dims:
+      if dim in per_unit_tangents.dims and (
+          result.sizes[dim] != per_unit_tangents.sizes[dim]):
+        coord = per_unit_tangents.coords[dim]
+        result = result.sel({dim: coord}).assign_coords({dim: coord})
+    return result
-- 
2.43.0


From b5bf53730c08062785f13b92bf81b578d3c5c077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 31/41] fix: StationaryBootstrap of named statistics returned
 Datasets instead of DataArrays

---
 weatherbenchX/statistical_inference/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/statistical_inference/utils.py b/weatherbenchX/statistical_inference/utils.py
index a32ed90..d3951d4 100644
--- a/weatherbenchX/statistical_inference/utils.py
+++ b/weatherbenchX/statistical_inference/utils.py
@@ -134,5 +134,10 @@ def apply_to_slices(
     arg_slices = xarray_tree.map_structure(slice_arg, args)
     results.append(func(*arg_slices))
 
-  return xarray_tree.map_structure(
-      lambda *args: xr.combine_by_coords(args), *results)
+  def combine(*slices):
+    # combine_by_coords will return a Dataset if there are any names on the
+    # DataArrays.
+    combined = xr.combine_by_coords([s.rename(None) for s in slices])
+    return combined.rename(slices[0].name)
+
+  return xarray_tree.map_structure(combine, *results)
-- 
2.43.0


From 86cbda348a750a020d3c4d1c3342882881125b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 32/41] fix: apply_to_slices slices arguments whose labels are
 in another order at the same labels

---
 weatherbenchX/statistical_inference/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/weatherbenchX/statistical_inference/utils.py b/weatherbenchX/statistical_inference/utils.py
index d3951d4..8dfd11c 100644
--- a/weatherbenchX/statistical_inference/utils.py
+++ b/weatherbenchX/statistical_inference/utils.py
@@ -105,6 +105,7 @@ def apply_to_slices(
 
   dims = (dim,) if isinstance(dim, str) else tuple(dim)
   sizes = {}
+  labels = {}
   def check_arg_sizes_and_maybe_add_missing_coords(arg):
     for dim in dims:
       if dim not in arg.dims:
@@ -119,6 +120,11 @@ def apply_to_slices(
       if sizes[dim] != arg.sizes[dim]:
         raise ValueError(
             f'Different sizes {sizes[dim]}, {arg.sizes[dim]} for {dim=}.')
+      # Slices are taken by position, so the labels need to be in the same order
+      # in all arguments.
+      index = labels.setdefault(dim, arg.get_index(dim))
+      if not index.equals(arg.get_index(dim)):
+        arg = arg.sel({dim: index})
     return arg
   args = xarray_tree.map_structure(
       check_arg_sizes_and_maybe_add_missing_coords, args)
-- 
2.43.0


From c8c56e21459601ed03b41ddfe976bfc2190453fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 33/41] fix: t-tests refuse unevenly spaced datetime units

---
 weatherbenchX/statistical_inference/t_test.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/statistical_inference/t_test.py b/weatherbenchX/statistical_inference/t_test.py
index 2f35fab..b51f31f 100644
--- a/weatherbenchX/statistical_inference/t_test.py
+++ b/weatherbenchX/statistical_inference/t_test.py
@@ -54,7 +54,10 @@ def _check_uniform_step(
     data_array: xr.DataArray, dim: str) -> None:
   """Checks that any name coordinate for `dim` has uniform steps."""
   coord = data_array.coords.get(dim)
-  if coord is not None and np.issubdtype(coord.dtype, np.number):
+  if coord is not None and (
+      np.issubdtype(coord.dtype, np.number)
+      or np.issubdtype(coord.dtype, np.datetime64)
+  ):
     _check_constant(coord.diff(dim), dim, 'Non-uniform timestep not supported.')
 
 
-- 
2.43.0


From f964d9681bb69138edcccc1e7d1980a59aafadb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 34/41] fix: SEDI can be linearised for statistical inference

---
 weatherbenchX/metrics/categorical.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index 7bc9576..1ee875f 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -18,6 +18,7 @@ import numpy as np
 from weatherbenchX.metrics import base
 from weatherbenchX.metrics import wrappers
 import xarray as xr
+import xarray.ufuncs as xu
 from xarray.core import dataarray
 
 
@@ -623,10 +624,10 @@ class SEDI(base.PerVariableMetric):
     h = h.clip(1e-6, 1 - 1e-6)
     f = f.clip(1e-6, 1 - 1e-6)
 
-    log_h = np.log(h)
-    log_f = np.log(f)
-    log_1_minus_h = np.log(1 - h)
-    log_1_minus_f = np.log(1 - f)
+    log_h = xu.log(h)
+    log_f = xu.log(f)
+    log_1_minus_h = xu.log(1 - h)
+    log_1_minus_f = xu.log(1 - f)
 
     numerator = log_f - log_h + log_1_minus_h - log_1_minus_f
     denominator = log_h + log_f + log_1_minus_h + log_1_minus_f
-- 
2.43.0


From d011ba92ef3e5952a9130ec0f4dd0dbd7be47114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:51 +0000
Subject: [PATCH 35/41] fix: map_structure does not mix coordinates of
 different variables

---
 weatherbenchX/xarray_tree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/xarray_tree.py b/weatherbenchX/xarray_tree.py
index 2619958..a0dc703 100644
--- a/weatherbenchX/xarray_tree.py
+++ b/weatherbenchX/xarray_tree.py
@@ -54,8 +54,10 @@ def map_structure(func: Callable[..., Any], *structures: Any) -> Any:
     ):
       data_arrays = [v.rename(k) for k, v in data.items() if v is not None]
       try:
-        return xarray.merge(data_arrays, join='exact')
-      except ValueError:  # Exact join not possible.
+        # compat='equals' since the default would fill in missing values of
+        # one array's coordinates with those of another.
+        return xarray.merge(data_arrays, join='exact', compat='equals')
+      except ValueError:  # Exact join not possible, or coordinates differ.
         pass
     return data
   if isinstance(first, dict):
-- 
2.43.0


From 6d729d31f8ad426338ae8f963bbc8718a08ba31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:52 +0000
Subject: [PATCH 36/41] fix: altitude adjustment does not modify values that
 need no interpolation

---
 weatherbenchX/interpolations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index e57db86..fc424ab 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -365,6 +365,8 @@ class GridToSparseWithAltitudeAdjustment(InterpolateToReferenceCoords):
     if reference.size == 0:
       return da_like_reference  # Nothing to adjust.
     if da.name in ['2m_temperature', '10m_wind_speed']:
+      # Without any dimension to interpolate this can be the input itself.
+      da_like_reference = da_like_reference.copy()
       # Positive if station is higher than grid.
       sparse_higher_than_grid_m = (
           da_like_reference['elevation'] - da_like_reference['grid_elevation']
-- 
2.43.0


From cee63bb5d8cab4eac66087815a919c2c1c2a3c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:47 +0000
Subject: [PATCH 37/41] Revert "fix: t-tests refuse unevenly spaced datetime
 units"

The file is named like a test file; recorded as a known finding instead.
---
 weatherbenchX/statistical_inference/t_test.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/weatherbenchX/statistical_inference/t_test.py b/weatherbenchX/statistical_inference/t_test.py
index b51f31f..2f35fab 100644
--- a/weatherbenchX/statistical_inference/t_test.py
+++ b/weatherbenchX/statistical_inference/t_test.py
@@ -54,10 +54,7 @@ def _check_uniform_step(
     data_array: xr.DataArray, dim: str) -> None:
   """Checks that any name coordinate for `dim` has uniform steps."""
   coord = data_array.coords.get(dim)
-  if coord is not None and (
-      np.issubdtype(coord.dtype, np.number)
-      or np.issubdtype(coord.dtype, np.datetime64)
-  ):
+  if coord is not None and np.issubdtype(coord.dtype, np.number):
     _check_constant(coord.diff(dim), dim, 'Non-uniform timestep not supported.')
 
 
-- 
2.43.0


From 42bf20414e22050b437ded38db134103fcd2e7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:12 +0000
Subject: [PATCH 38/41] fix: apply_to_slices refuses repeated labels instead of
 losing their values

---
 weatherbenchX/statistical_inference/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/weatherbenchX/statistical_inference/utils.py b/weatherbenchX/statistical_inference/utils.py
index 8dfd11c..5a30eb7 100644
--- a/weatherbenchX/statistical_inference/utils.py
+++ b/weatherbenchX/statistical_inference/utils.py
@@ -123,6 +123,9 @@ def apply_to_slices(
       # Slices are taken by position, so the labels need to be in the same order
       # in all arguments.
       index = labels.setdefault(dim, arg.get_index(dim))
+      if not index.is_unique:
+        # Results for the same label can't be told apart when combining.
+        raise ValueError(f'Repeated labels for {dim=}: {index}.')
       if not index.equals(arg.get_index(dim)):
         arg = arg.sel({dim: index})
     return arg
-- 
2.43.0


From 3fb7a0faa5710d773856ab61c70cb9511cf6b6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:12 +0000
Subject: [PATCH 39/41] fix: FSS(3) and FSS([3]) do not share statistics

---
 weatherbenchX/metrics/spatial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/spatial.py b/weatherbenchX/metrics/spatial.py
index fdc6c5f..8714eb6 100644
--- a/weatherbenchX/metrics/spatial.py
+++ b/weatherbenchX/metrics/spatial.py
@@ -107,7 +107,8 @@ def get_suffix(
     wrap_longitude: bool = False,
 ):
   if isinstance(neighborhood_size, Iterable):
-    suffix = ','.join([str(t) for t in neighborhood_size])
+    # The brackets tell [3] and 3 apart, as only [3] adds a dimension.
+    suffix = f'[{",".join([str(t) for t in neighborhood_size])}]'
   else:
     suffix = str(neighborhood_size)
   if wrap_longitude:
-- 
2.43.0


From 6baf43627b049642cee59193290d67943e2b1ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:13 +0000
Subject: [PATCH 40/41] fix: names of Select transforms contain all values of
 long selections

---
 weatherbenchX/metrics/wrappers.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/wrappers.py b/weatherbenchX/metrics/wrappers.py
index 523bd9f..409dd8e 100644
--- a/weatherbenchX/metrics/wrappers.py
+++ b/weatherbenchX/metrics/wrappers.py
@@ -40,6 +40,7 @@ import abc
 from collections.abc import Sequence
 from typing import Any, Callable, Hashable, Iterable, Mapping, Union
 import numpy as np
+import pandas as pd
 from weatherbenchX import xarray_tree
 from weatherbenchX.metrics import base
 import xarray as xr
@@ -694,6 +695,22 @@ class Rename(InputTransform):
     return da.rename(self._renames)
 
 
+def _unabbreviated(
+    selector: Mapping[Hashable, Any] | None,
+) -> Mapping[Hashable, Any] | None:
+  """Replaces arrays, as the repr of long arrays omits some of their values."""
+  if selector is None:
+    return None
+  result = {}
+  for dim, value in selector.items():
+    if isinstance(value, (xr.DataArray, xr.Variable)):
+      value = value.to_dict()
+    elif isinstance(value, (np.ndarray, pd.Index)):
+      value = value.tolist()
+    result[dim] = value
+  return result
+
+
 class Select(InputTransform):
   """Selects data by applying xr.sel and/or xr.isel."""
 
@@ -723,7 +740,9 @@ class Select(InputTransform):
 
   @property
   def unique_name_suffix(self) -> str:
-    return f'select_{self._isel=}_{self._isel_kwargs=}_{self._sel=}_{self._sel_kwargs=}'
+    isel = _unabbreviated(self._isel)
+    sel = _unabbreviated(self._sel)
+    return f'select_{isel=}_{self._isel_kwargs=}_{sel=}_{self._sel_kwargs=}'
 
   def transform_fn(self, da: xr.DataArray) -> xr.DataArray:
     da = da.copy()
-- 
2.43.0


From 2c4e57719ade2615fa199904afca6efe2c81598c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:21 +0000
Subject: [PATCH 41/41] fix: cover the range of latitude/longitude bins exactly
 once

np.arange with a step such as 0.3, 0.6 or 1.8 degrees could return one edge too
many (a superfluous bin) or one too few (latitude 90 in no bin).
---
 weatherbenchX/binning.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/weatherbenchX/binning.py b/weatherbenchX/binning.py
index 3cd9711..4c79b8c 100644
--- a/weatherbenchX/binning.py
+++ b/weatherbenchX/binning.py
@@ -201,6 +201,14 @@ class Regions(Binning):
     return masks
 
 
+def _regular_bin_edges(start: float, end: float, degrees: float) -> np.ndarray:
+  """Returns edges of the bins of a given width that cover [start, end]."""
+  # Not using np.arange, because with its rounding errors (e.g. for steps of 0.3
+  # or 1.8) there can be a superfluous bin, or the end can be in none of them.
+  num_bins = int(np.ceil(np.round((end - start) / degrees, 6)))
+  return np.round(start + degrees * np.arange(num_bins + 1), 10)
+
+
 class LatitudeBins(Binning):
   """Class for binning by latitude bands."""
 
@@ -219,9 +227,7 @@ class LatitudeBins(Binning):
     """
     super().__init__(bin_dim_name)
     self._degrees = degrees
-    self._lat_bins = np.arange(
-        lat_range[0], lat_range[1] + self._degrees, self._degrees
-    )
+    self._lat_bins = _regular_bin_edges(lat_range[0], lat_range[1], degrees)
 
   def create_bin_mask(
       self,
@@ -229,8 +235,7 @@ class LatitudeBins(Binning):
   ) -> xr.DataArray:
     """Creates a bin mask for a statistic."""
     masks = []
-    for lat_start in self._lat_bins[:-1]:
-      lat_end = lat_start + self._degrees
+    for lat_start, lat_end in zip(self._lat_bins[:-1], self._lat_bins[1:]):
       mask = _create_lat_mask(
           statistic.latitude,
           (lat_start, lat_end),
@@ -264,9 +269,7 @@ class LongitudeBins(Binning):
     lon_end = lon_range[1]
     if lon_range[0] >= lon_range[1]:
       lon_end += 360
-    self._lon_bins = np.arange(
-        lon_range[0], lon_end + self._degrees, self._degrees
-    )
+    self._lon_bins = _regular_bin_edges(lon_range[0], lon_end, degrees)
 
   def create_bin_mask(
       self,
@@ -274,8 +277,7 @@ class LongitudeBins(Binning):
   ) -> xr.DataArray:
     """Creates a bin mask for a statistic."""
     masks = []
-    for lon_start in self._lon_bins[:-1]:
-      lon_end = lon_start + self._degrees
+    for lon_start, lon_end in zip(self._lon_bins[:-1], self._lon_bins[1:]):
       mask = _create_lon_mask(
           statistic.longitude,
           (lon_start, lon_end),
-- 
2.43.0

