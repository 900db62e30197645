"""C27: linearised per-unit values are the exact first-order expansion."""

import itertools

import numpy as np
import xarray as xr

from mc import core
from mc import infer
from mc import metricutil as mu
from mc import zoo
from mc.xrutil import check, close, fail
from weatherbenchX import aggregation
from weatherbenchX import binning
from weatherbenchX import weighting
from weatherbenchX.metrics import base as mb
from weatherbenchX.statistical_inference import autodiff

CAT = {n: (kind, make) for n, kind, make in zoo.catalogue()}
UNIT = 'init_time'
H = 1e-4


def stack(states):
  """Concatenates states along new init times."""
  out = []
  for part in ('sum_weighted_statistics', 'sum_weights'):
    trees = [getattr(s, part) for s in states]
    out.append({k: {v: xr.concat([t[k][v] for t in trees], UNIT)
                    for v in trees[0][k]} for k in trees[0]})
  return aggregation.AggregationState(*out)


def data_state(kind, metric, layout, weights):
  """State with four units (init times) for the layout of other dims."""
  p, t = zoo.data(kind)
  states = []
  for i in range(2):
    roll = lambda d: {k: v.roll(latitude=i, lead_time=i).assign_coords(
        init_time=zoo.INITS + np.timedelta64(24 * 2 * i, 'h'))
                      for k, v in d.items()}
    kw = {}
    if layout == 'area':
      kw['weigh_by'] = [weighting.GridAreaWeighting()]
    if layout == 'bins':
      kw['bin_by'] = [binning.Regions({'s': ((-90, 0), (0, 360)),
                                        'n': ((0, 90), (0, 360))})]
    dims = ['latitude', 'longitude']
    if layout in ('scalar', 'bins'):
      dims = dims + ['lead_time']
    tt = t if i == 0 else {k: v.assign_coords(
        init_time=zoo.INITS + np.timedelta64(48, 'h')) for k, v in t.items()}
    states.append(mu.state_of({'m': metric}, roll(p), tt, dims, **kw))
  st = stack(states)
  n = 4
  w = xr.DataArray({'ones': np.ones(n), 'mixed': np.array([1., 2., .5, 3.]),
                    'zero': np.array([1., 0., 2., 1.])}[weights], dims=UNIT)
  return st.map(lambda x: x * w)


def evaluate(metric, ws, w):
  """Metric values of mean statistics ws / w in double precision."""
  mean = {k: {v: ws[k][v] / w[k][v] for v in ws[k]} for k in ws}
  return mb.compute_metrics_from_statistics({'m': metric}, mean)['m']


def derivative(metric, st, unit):
  """(value, tangents) by central differences of double precision."""
  mean = lambda t: {k: {v: t[k][v].mean(unit, skipna=False) for v in t[k]}
                    for k in t}
  ws, w = mean(st.sum_weighted_statistics), mean(st.sum_weights)
  value = evaluate(metric, ws, w)
  n = next(iter(next(iter(st.sum_weights.values())).values())).sizes[unit]
  cols, other = [], []
  for i in range(n):
    def at(eps):
      move = lambda m, t: {k: {v: m[k][v] + eps * (
          t[k][v].isel({unit: i}, drop=True) - m[k][v]) for v in m[k]}
                           for k in m}
      return evaluate(metric, move(ws, st.sum_weighted_statistics),
                      move(w, st.sum_weights))
    p, m = at(H), at(-H)
    cols.append({v: (p[v] - m[v]) / (2 * H) for v in p})
    p2 = at(2 * H)
    # a kink or another singularity: the one-sided derivatives differ
    other.append({v: (p2[v] - value[v]) / (2 * H) - (value[v] - m[v]) / H
                  for v in p})
  return value, cols, other


class C27(core.Check):
  id = 'C27'
  rule = ('every library metric of the catalogue x layouts of other '
          'dimensions x weights x unit dimension, against double precision '
          'central differences; closed forms for all small series; pairs of '
          'metrics; dimension orders')
  assumptions = ('single precision tolerance',
                 'kinks (one-sided derivatives differ) are left out')

  def cases(self):
    weights = ('ones', 'mixed', 'zero')
    for n in CAT:
      for lay in ('scalar', 'lead', 'area', 'bins'):
        full = self.thorough and lay in ('scalar', 'lead')
        for w in weights if full or lay == 'scalar' else ('mixed',):
          if w == 'ones' and not self.thorough:
            continue
          yield {'k': 'catalogue', 'm': n, 'layout': lay, 'w': w}
    for n in (2, 3, 4, 5):
      for w in ('ones', 'mixed', 'zero'):
        yield {'k': 'closed', 'n': n, 'w': w}
    for o in range(6):
      yield {'k': 'order', 'order': o}
    yield {'k': 'several'}
    yield {'k': 'dtype'}

  def run_case(self, case, rec):
    getattr(self, '_' + case['k'])(case, rec)

  def _catalogue(self, case, rec):
    kind, make = CAT[case['m']]
    metric = make()
    st = data_state(kind, metric, case['layout'], case['w'])
    if any(not st.sum_weights.get(s.unique_name)
           for s in metric.statistics.values()):
      raise core.Skip()  # without the reduced dimensions
    value, tangent = autodiff.per_unit_values_linearized_around_mean_statistics(
        {'m': metric}, st, UNIT)
    check(set(value) == {'m'} and set(tangent) == {'m'}, f'{set(value)}')
    rec.transition()
    want, cols, other = derivative(metric, st, UNIT)
    direct = st.sum_along_dims([UNIT]).metric_values({'m': metric})
    units = next(iter(next(iter(
        st.sum_weights.values())).values())).sizes[UNIT]
    co = infer_coord(st)
    check(set(value['m']) == set(want) and set(tangent['m']) == set(want),
          f'variables {set(value["m"])}, expected {set(want)}')
    for v in want:
      y, t = value['m'][v], tangent['m'][v]
      d = direct[f'm.{v}']
      check(set(y.dims) == set(d.dims), f'{v}: dims {y.dims} vs {d.dims}')
      check(set(t.dims) == set(d.dims) | {UNIT}, f'{v}: dims {t.dims}')
      for c in d.dims:
        for z in (y, t):
          check((c in z.coords) == (c in d.coords) and (
              c not in d.coords or close(z[c].values, d[c].values)),
                f'{v}: labels of {c}')
      check(np.array_equal(t[UNIT].values, co), f'{v}: units {t[UNIT].values}')
      yv = y.transpose(*d.dims).values
      check(close(yv, d.values, 1e-4, 1e-5),
            f'{case["m"]}[{v}]: value {yv.ravel()[:4]}, metric of all data '
            f'{d.values.ravel()[:4]}')
      tv = t.transpose(UNIT, *d.dims).values
      w = np.stack([c[v].transpose(*d.dims).values for c in cols])
      kink = np.stack([c[v].transpose(*d.dims).values for c in other])
      scale = np.abs(w).max(initial=0, where=np.isfinite(w)) + 1e-3
      ok = np.isfinite(w) & (abs(kink) < 1e-2 * scale)
      rec.count('kinks', int((~ok & np.isfinite(w)).sum()))
      rec.nodes += int(ok.sum())
      bad = ok & ~np.isclose(tv, w, 2e-3, 2e-3 * scale)
      if bad.any():
        i = tuple(int(x[0]) for x in np.nonzero(bad))
        fail(f'{case["m"]}[{v}]: deviation of unit {i[0]} at {i[1:]} is '
             f'{tv[i]}, expected {w[i]}')
      allok = ok.all(0)
      check(close(tv.mean(0)[allok], 0 * tv.mean(0)[allok], 0, 1e-4 * scale),
            f'{case["m"]}[{v}]: deviations average to {tv.mean(0)}')
      rec.outcome((case['m'], v, np.round(w[ok], 5).tobytes()))
    rec.trace(1)

  def _closed(self, case, rec):
    """Means, roots and ratios of all series over an alphabet."""
    n = case['n']
    xs = mu.all_assignments((0.25, 1., 3., 4.) if n < 5 else (1., 3., 4.), n).T
    w = {'ones': np.ones(n), 'mixed': 0.5 + np.arange(n),
         'zero': np.where(np.arange(n) == 1, 0., 1.)}[case['w']][:, None]
    w = w + 0 * xs
    b, wb = 1.0 + (xs * 3) % 5, np.roll(w, 1, 0) + 0.25
    st = infer.state({'a': {'v': xs * w, 'w': xs[::-1] * w}, 'b':
                      {'v': b * wb, 'w': b * wb}},
                     {'a': {'v': w, 'w': w}, 'b': {'v': wb, 'w': wb}},
                     infer.dates(n), (UNIT, 's'))
    metrics = {**infer.METRICS, 'both': infer.Both()}
    value, tangent = autodiff.per_unit_values_linearized_around_mean_statistics(
        metrics, st, UNIT)
    rec.transition(xs.shape[1])
    W, WB = w.mean(0), wb.mean(0)
    a1, a2 = (xs * w).mean(0) / W, (xs[::-1] * w).mean(0) / W
    d1, d2 = (xs - a1) * w / W, (xs[::-1] - a2) * w / W
    bb = (b * wb).mean(0) / WB
    db = (b - bb) * wb / WB
    want = {
        'mean': {'v': (a1, d1), 'w': (a2, d2)},
        'meanb': {'v': (bb, db), 'w': (bb, db)},
        'root': {'v': (np.sqrt(a1), d1 / 2 / np.sqrt(a1)),
                 'w': (np.sqrt(a2), d2 / 2 / np.sqrt(a2))},
        'ratio': {'v': (a1 / bb, (d1 - a1 / bb * db) / bb),
                  'w': (a2 / bb, (d2 - a2 / bb * db) / bb)},
        'both': {'product': (a1 * a2, d1 * a2 + a1 * d2)}}
    for m in want:
      check(set(value[m]) == set(want[m]), f'variables of {m}: {set(value[m])}')
      for v, (x, d) in want[m].items():
        check(close(value[m][v].values, x, 1e-5, 1e-6), f'value of {m}[{v}]')
        t = tangent[m][v].transpose(UNIT, 's').values
        if not close(t, d, 2e-5, 2e-5):
          i = np.unravel_index(np.argmax(abs(t - d)), t.shape)
          fail(f'{m}[{v}]: deviation of unit {i[0]} is {t[i]}, expected {d[i]} '
               f'for {xs[:, i[1]]} with weights {w[:, i[1]]}')
        rec.nodes += xs.shape[1]
    rec.trace(xs.shape[1], (n, case['w']))

  def _order(self, case, rec):
    """The order of dimensions is irrelevant, also per statistic."""
    order = list(itertools.permutations((UNIT, 'x', 'y')))[case['order']]
    n = 3
    x = 1.0 + (np.arange(n * 6).reshape(n, 2, 3) * 7) % 11
    w = 1.0 + np.arange(n * 6).reshape(n, 2, 3) % 4
    st = infer.state({'a': {'v': x * w}, 'b': {'v': w * w}},
                     {'a': {'v': w}, 'b': {'v': w}}, infer.dates(n),
                     (UNIT, 'x', 'y'), {'x': ['p', 'q'], 'y': [1, 2, 3]})
    one = lambda t, tag: {k: {v: a.transpose(*order) if k == f'Stat_{tag}'
                              else a for v, a in t[k].items()} for k in t}
    want = autodiff.per_unit_values_linearized_around_mean_statistics(
        infer.METRICS, st, UNIT)
    for tag in 'ab':
      st2 = aggregation.AggregationState(
          one(st.sum_weighted_statistics, tag), one(st.sum_weights, 'b'))
      got = autodiff.per_unit_values_linearized_around_mean_statistics(
          infer.METRICS, st2, UNIT)
      rec.transition()
      rec.nodes += 1
      for g, t in zip(got, want):
        for m in infer.METRICS:
          a, b = g[m]['v'], t[m]['v']
          check(set(a.dims) == set(b.dims), f'dims {a.dims}')
          check(close(a.transpose(*b.dims).values, b.values, 1e-5, 1e-5),
                f'{m} with dims {order} of {tag}')
          check(a.x.values.tolist() == ['p', 'q'] and
                a.y.values.tolist() == [1, 2, 3], 'labels')
      rec.trace(1, (order, tag))

  def _several(self, case, rec):
    """Metrics together have the values they have alone, in any order."""
    names = ('RMSE', 'MSE', 'Bias', 'ACC0', 'PredictionActivity0',
             'WindVectorRMSE', 'RMSE-a')
    metrics = {n: CAT[n][1]() for n in names}
    p, t = zoo.data('real')
    st = lambda ms: mu.state_of(ms, p, t, ['latitude', 'longitude'])
    alone = {n: autodiff.per_unit_values_linearized_around_mean_statistics(
        {n: metrics[n]}, st({n: metrics[n]}), UNIT) for n in names}
    for a, b in itertools.permutations(names, 2):
      ms = {a: metrics[a], b: metrics[b]}
      got = autodiff.per_unit_values_linearized_around_mean_statistics(
          ms, st(ms), UNIT)
      rec.transition()
      rec.nodes += 1
      for n, i in itertools.product((a, b), (0, 1)):
        for v in alone[n][i][n]:
          x, y = got[i][n][v], alone[n][i][n][v]
          check(close(x.transpose(*y.dims).values, y.values, 1e-5, 1e-5),
                f'{n}[{v}] together with {a}, {b}')
        check(set(got[i][n]) == set(alone[n][i][n]), f'variables of {n}')
      rec.trace(1, (a, b))

  def _dtype(self, case, rec):
    """Integer and single precision states, large offsets."""
    n = 4
    for dt, off in itertools.product(('f4', 'f8', 'i8', 'i4'), (0, 1000)):
      x = (off + np.array([[3, 1], [1, 8], [2, 2], [6, 1]])).astype(dt)
      w = np.ones_like(x)
      st = infer.state({'a': {'v': x}}, {'a': {'v': w}}, infer.dates(n),
                       (UNIT, 's'))
      value, tan = autodiff.per_unit_values_linearized_around_mean_statistics(
          {'mean': infer.Mean('a')}, st, UNIT)
      rec.transition()
      rec.nodes += 1
      y = x.astype(float)
      check(close(value['mean']['v'].values, y.mean(0), 1e-6, 1e-6),
            f'{dt} {off}: {value["mean"]["v"].values}')
      check(close(tan['mean']['v'].transpose(UNIT, 's').values, y - y.mean(0),
                  1e-3, 1e-3), f'{dt} {off}: {tan["mean"]["v"].values}')
      rec.trace(1, (dt, off))


def infer_coord(st):
  return next(iter(next(iter(
      st.sum_weighted_statistics.values())).values()))[UNIT].values


CHECK = C27
