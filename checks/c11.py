"""C11: metrics computed together equal metrics computed alone."""

import itertools

import numpy as np
import xarray as xr

from mc import core
from mc import metricutil as mu
from mc import zoo
from mc.xrutil import check, close, fail
from weatherbenchX import aggregation
from weatherbenchX.metrics import base


def compare(alone, joint, what, key=None):
  """Every value of `alone` must be in `joint`, and nothing else of it."""
  for v, w in alone.items():
    if v not in joint:
      fail(f'{what}: no value {v}')
    g = joint[v]
    if set(g.dims) != set(w.dims):
      fail(f'{what}: {v} has dims {g.dims}, alone {w.dims}')
    sel = g
    for d in w.dims:
      if d in w.indexes:
        pos = [list(g[d].values).index(x) if x in g[d].values else -1
               for x in w[d].values]
        if -1 in pos:
          fail(f'{what}: {v} lost labels of {d}: '
               f'{w[d].values} -> {g[d].values}')
        sel = sel.isel({d: pos})
    a, b = sel.transpose(*w.dims).values, w.values
    if not close(a, b, 1e-6, 1e-7):
      raise core.Violation(
          f'{what}: {v} differs from the value computed alone\n'
          f'  together {np.ravel(a)[:8]}\n  alone    {np.ravel(b)[:8]}', key)
    # labels of other metrics must be filled with "missing" only
    extra = int(np.isfinite(g.values).sum()) - int(np.isfinite(a).sum())
    if extra:
      fail(f'{what}: {v} has {extra} values that it does not have alone')


def prefixed(ds, name):
  return {v: ds[v] for v in ds.data_vars if str(v).rsplit('.', 1)[0] == name}


class C11(core.Check):
  id = 'C11'
  rule = ('all ordered pairs of the metrics of the catalogue that accept the '
          'same data (all library metrics with all options that affect '
          'values), all of them at once in two orders, over chunks, and with '
          'a repeated metric; the values must be those of the metric alone')
  assumptions = ('user supplied unique name suffixes are unique, as documented',)

  def setup(self):
    self.zoo = {n: (k, f) for n, k, f in zoo.catalogue()}
    self.kinds = {}
    for n, (k, _) in self.zoo.items():
      self.kinds.setdefault(k, []).append(n)

  def cases(self):
    for family in zoo.variants():
      yield dict(kind='variants', family=family)
    for k in ('real', 'precip', 'binary', 'prob', 'ens', 'ensens', 'ensbin',
              'cdf'):
      names = [n for n, kk, _ in zoo.catalogue() if kk == k]
      for c in (0, 1):
        for mode in ('all', 'reversed', 'chunked', 'missing'):
          yield dict(kind='all', data=k, clim=c, mode=mode)
      for a in names:
        yield dict(kind='pairs', data=k, a=a)
        for b in names:
          if self.conflict(a, b):
            yield dict(kind='pair', data=k, a=a, b=b)

  @staticmethod
  def conflict(a, b):
    """Pairs that only differ in their climatology are separate cases."""
    c = [n for n in (a, b) if n.startswith(('ACC', 'PredictionActivity'))]
    return len(c) == 2 and c[0][-1] != c[1][-1]

  def run_case(self, case, rec):
    getattr(self, 'run_' + case['kind'])(case, rec)

  def reduce(self, names, p, t):
    red = list(zoo.DIMS)
    for n in names:
      for per_var in mu.stats_of(self.zoo[n][1](), p, t).values():
        for da in per_var.values():
          red = [d for d in red if d in da.dims]
    return red

  def value(self, metrics, p, t, red):
    with np.errstate(all='ignore'):
      return mu.value(metrics, p, t, red, masked=True)

  def alone(self, n, p, t, red):
    ds = self.value({n: self.zoo[n][1]()}, p, t, red)
    return {v: ds[v] for v in ds.data_vars}

  def pairwise(self, a, b, p, t, cache, rec):
    for x in (a, b):
      if x not in cache:
        cache[x] = (set(self.reduce([x], p, t)), {})
    red = tuple(d for d in zoo.DIMS if d in cache[a][0] & cache[b][0])
    for x in (a, b):
      if red not in cache[x][1]:
        cache[x][1][red] = self.alone(x, p, t, red)
    for first, second in ((a, b), (b, a)):
      ds = self.value({first: self.zoo[first][1](),
                       second: self.zoo[second][1]()}, p, t, red)
      rec.transition()
      for x in (a, b):
        compare(cache[x][1][red], prefixed(ds, x), f'{first} with {second}',
                'together:' + '+'.join(sorted((a, b))))
      extra = set(ds.data_vars) - set(cache[a][1][red]) - set(cache[b][1][red])
      check(not extra, f'extra values {extra}')
    rec.trace(2, outcome=(a, b))

  def run_pairs(self, case, rec):
    a = case['a']
    p, t = zoo.data(case['data'])
    cache = {}
    names = self.kinds[case['data']]
    for b in names[names.index(a) + 1:]:
      if not self.conflict(a, b):
        rec.nodes += 2
        self.pairwise(a, b, p, t, cache, rec)
    # The same metric under two names
    red = self.reduce([a], p, t)
    w = self.alone(a, p, t, red)
    ds = self.value({a: self.zoo[a][1](), 'again': self.zoo[a][1]()}, p, t, red)
    compare(w, prefixed(ds, a), f'{a} twice')
    compare({k.replace(a, 'again', 1): v for k, v in w.items()},
            prefixed(ds, 'again'), f'{a} twice')
    rec.trace()

  def run_pair(self, case, rec):
    if case['a'] > case['b']:
      return
    p, t = zoo.data(case['data'])
    rec.nodes += 1
    self.pairwise(case['a'], case['b'], p, t, {}, rec)

  def run_variants(self, case, rec):
    """Metrics that differ in one parameter, all at once and in pairs."""
    kind, fs = zoo.variants()[case['family']]
    p, t = zoo.data(kind)
    red = list(zoo.DIMS)
    for f in fs:
      for per_var in mu.stats_of(f(), p, t).values():
        for da in per_var.values():
          red = [d for d in red if d in da.dims]
    alone = []
    for f in fs:
      ds = self.value({'x': f()}, p, t, red)
      alone.append({v: ds[v] for v in ds.data_vars})
    orders = [range(len(fs)), range(len(fs) - 1, -1, -1)]
    orders += [(i, i + 1) for i in range(len(fs) - 1)]
    if self.thorough:
      orders += list(itertools.permutations(range(len(fs)), 2))
    for order in orders:
      ds = self.value({f'm{i}': fs[i]() for i in order}, p, t, red)
      rec.transition()
      rec.nodes += len(order)
      for i in order:
        compare({v.replace('x', f'm{i}', 1): w for v, w in alone[i].items()},
                prefixed(ds, f'm{i}'), f'{case["family"]} {i} in {list(order)}')
      rec.trace(outcome=(case['family'], tuple(order)))

  def run_all(self, case, rec):
    p, t = zoo.data(case['data'])
    other = str(1 - case['clim'])
    names = [n for n in self.kinds[case['data']]
             if not (n.startswith(('ACC', 'PredictionActivity'))
                     and n[-1] == other)
             and 'RelativeIntensity' not in n]
    if case['mode'] == 'reversed':
      names = names[::-1]
    if case['mode'] == 'missing':
      t = {k: v.where(v.longitude != 120.0) for k, v in t.items()}
      t = {k: v.assign_coords(mask=~np.isnan(v)) for k, v in t.items()}
    metrics = {n: self.zoo[n][1]() for n in names}
    red = self.reduce(names, p, t)
    if case['mode'] == 'chunked':
      with np.errstate(all='ignore'):
        ds = mu.chunked(metrics, p, t, red, 'init_time',
                        [slice(0, 1), slice(1, 2)], masked=True)
    else:
      ds = self.value(metrics, p, t, red)
    rec.transition()
    rec.nodes += 1
    seen = set()
    for n in names:
      w = self.alone(n, p, t, red)
      if case['mode'] == 'chunked':
        with np.errstate(all='ignore'):
          w = mu.chunked({n: self.zoo[n][1]()}, p, t, red, 'init_time',
                         [slice(0, 1), slice(1, 2)], masked=True)
        w = {v: w[v] for v in w.data_vars}
      compare(w, prefixed(ds, n), f'{n} with all others ({case["mode"]})')
      seen |= set(w)
      rec.trace(outcome=(n, case['mode']))
    check(set(ds.data_vars) == seen, f'extra values {set(ds.data_vars) - seen}')


CHECK = C11
