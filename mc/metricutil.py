"""Public-API helpers for the metric checks."""

import itertools

import numpy as np
import xarray as xr

from weatherbenchX import aggregation
from weatherbenchX.metrics import base


def all_assignments(alphabet, n):
  """Array (len(alphabet)**n, n) of all assignments, in lexicographic order."""
  k = len(alphabet)
  idx = np.indices((k,) * n).reshape(n, -1).T
  return np.asarray(alphabet, dtype=float)[idx]


def stats_of(metric, predictions, targets):
  """internal name -> var -> DataArray."""
  out = base.compute_unique_statistics_for_all_metrics(
      {'m': metric}, predictions, targets)
  return {k: out[s.unique_name] for k, s in metric.statistics.items()}


def value(metrics, predictions, targets, reduce_dims, **agg):
  """Dataset of '<metric>.<var>' via the public single-chunk entry point."""
  if isinstance(metrics, base.Metric):
    metrics = {'m': metrics}
  return aggregation.compute_metric_values_for_single_chunk(
      metrics, aggregation.Aggregator(reduce_dims=list(reduce_dims), **agg),
      predictions, targets)


def state_of(metrics, predictions, targets, reduce_dims, **agg):
  st = base.compute_unique_statistics_for_all_metrics(
      metrics, predictions, targets)
  return aggregation.Aggregator(
      reduce_dims=list(reduce_dims), **agg).aggregate_statistics(st)


def chunked(metrics, predictions, targets, reduce_dims, dim, cuts, **agg):
  """Metric values from summed states of chunks of `dim` (a list of slices)."""
  states = []
  for sl in cuts:
    p = {k: (v.isel({dim: sl}) if dim in v.dims else v)
         for k, v in dict(predictions).items()}
    t = {k: (v.isel({dim: sl}) if dim in v.dims else v)
         for k, v in dict(targets).items()}
    states.append(state_of(metrics, p, t, reduce_dims, **agg))
  return aggregation.AggregationState.sum(states).metric_values(metrics)


def compositions(n):
  """All ways to cut range(n) into contiguous non-empty slices."""
  for mask in itertools.product((0, 1), repeat=n - 1):
    cuts = [0] + [i + 1 for i, m in enumerate(mask) if m] + [n]
    yield [slice(a, b) for a, b in zip(cuts[:-1], cuts[1:])]


def dims_orders(da, keep_first=None):
  for order in itertools.permutations(da.dims):
    yield da.transpose(*order)


def as_container(d, kind):
  if kind == 'dict':
    return dict(d)
  if kind == 'rdict':
    return dict(reversed(list(d.items())))
  if kind == 'ds':
    return xr.Dataset(d)
  raise ValueError(kind)
