"""Shared pieces of the statistical inference checks (C25 to C28).

States are built directly from arrays of weighted statistics and weights; the
metrics are small public-API metrics whose exact values and derivatives are
known in closed form.
"""

import numpy as np
import xarray as xr
import xarray.ufuncs as xu

from mc.xrutil import check
from weatherbenchX import aggregation
from weatherbenchX.metrics import base as mb

UNIT = 'init_time'


class Stat(mb.Statistic):
  """A statistic identified by a letter; never computed by these checks."""

  def __init__(self, tag):
    self._tag = tag

  @property
  def unique_name(self):
    return f'Stat_{self._tag}'

  def compute(self, predictions, targets):
    raise NotImplementedError


class Mean(Stat):
  """The mean of a statistic is itself a metric."""


class Root(mb.PerVariableMetric):
  """sqrt(mean(a))."""

  def __init__(self, a='a'):
    self._a = a

  @property
  def statistics(self):
    return {'x': Stat(self._a)}

  def _values_from_mean_statistics_per_variable(self, statistic_values):
    return xu.sqrt(statistic_values['x'])


class Ratio(mb.PerVariableMetric):
  """mean(a) / mean(b)."""

  def __init__(self, a='a', b='b'):
    self._a, self._b = a, b

  @property
  def statistics(self):
    return {'num': Stat(self._a), 'den': Stat(self._b)}

  def _values_from_mean_statistics_per_variable(self, statistic_values):
    return statistic_values['num'] / statistic_values['den']


class Both(mb.Metric):
  """One result variable from two variables: mean(a)[v] * mean(a)[w]."""

  @property
  def statistics(self):
    return {'x': Stat('a')}

  def values_from_mean_statistics(self, statistic_values):
    x = statistic_values['x']
    return {'product': x['v'] * x['w']}


class Mix(mb.PerVariableMetric):
  """Linear combinations c0 * mean(a) + c1 * mean(b) along a new dimension."""

  def __init__(self, coefs, labels=None):
    self._coefs, self._labels = np.asarray(coefs, float), labels

  @property
  def statistics(self):
    return {'a': Stat('a'), 'b': Stat('b')}

  def _values_from_mean_statistics_per_variable(self, statistic_values):
    co = None if self._labels is None else {'mix': self._labels}
    c = [xr.DataArray(self._coefs[:, i], dims='mix', coords=co)
         for i in range(2)]
    return statistic_values['a'] * c[0] + statistic_values['b'] * c[1]


METRICS = {'mean': Mean('a'), 'root': Root(), 'ratio': Ratio(),
           'meanb': Mean('b')}


def state(weighted, weights, units, dims, coords=None, named=True):
  """AggregationState from {tag: {var: array}} with dims (UNIT first)."""
  co = dict(coords or {})
  if units is not None:
    co[UNIT] = units
  def make(x):
    out = {}
    for tag, per in x.items():
      out[f'Stat_{tag}'] = {}
      for v, a in per.items():
        d = dims[:np.ndim(a)]
        out[f'Stat_{tag}'][v] = xr.DataArray(
            a, dims=d, coords={k: c for k, c in co.items() if k in d},
            name=v if named else None)
    return out
  return aggregation.AggregationState(make(weighted), make(weights))


def dates(n, step=12):
  return (np.datetime64('2020-01-01', 'ns') +
          np.arange(n) * np.timedelta64(step, 'h'))


def defaults(method, what):
  """Omitted arguments mean a level of 0.05 and a null value of zero."""
  pairs = [
      (method.confidence_intervals()[0], method.confidence_intervals(0.05)[0]),
      (method.confidence_intervals()[1],
       method.confidence_intervals(alpha=0.05)[1]),
      (method.p_values(), method.p_values(null_value=0.0)),
      (method.significance_tests(), method.significance_tests(0.0, 0.05)),
      (method.significance_tests(alpha=0.3), method.significance_tests(0, 0.3)),
      (method.significance_tests(1.0),
       method.significance_tests(null_value=1.0, alpha=0.05))]
  for i, (got, want) in enumerate(pairs):
    for m in want:
      for v in want[m]:
        check(got[m][v].equals(want[m][v]), f'{what}: default arguments of '
              f'result {i} for {m} {v}: {got[m][v].values} instead of '
              f'{want[m][v].values}')
