"""C10: grid-area weights equal the true share of the sphere of each cell."""

import itertools
import math

import numpy as np
import xarray as xr

from mc import core
from mc.xrutil import check, close, fail
from weatherbenchX import aggregation
from weatherbenchX import weighting

ALPHA = (-90.0, -89.75, -60.0, -45.5, -30.0, 0.0, 1.0, 30.0, 59.25, 89.0, 90.0)


def ref_weights(lats):
  """Area of each band, bounds midway to neighbours, clipped at the poles."""
  order = sorted(range(len(lats)), key=lambda i: lats[i])
  s = [lats[i] for i in order]
  n = len(s)
  lo = [0.0] * n
  hi = [0.0] * n
  for j in range(n):
    lo[j] = (s[j - 1] + s[j]) / 2 if j else max(-90.0, s[0] - (s[1] - s[0]) / 2)
    hi[j] = ((s[j] + s[j + 1]) / 2 if j < n - 1
             else min(90.0, s[-1] + (s[-1] - s[-2]) / 2))
  area = [math.sin(math.radians(b)) - math.sin(math.radians(a))
          for a, b in zip(lo, hi)]
  out = [0.0] * n
  for j, i in enumerate(order):
    out[i] = area[j]
  return np.array(out)


class C10(core.Check):
  id = 'C10'
  rule = ('every subset of at least two latitudes of an 11-value alphabet (13 '
          'thorough) in both directions, several dtypes and layouts of the '
          'statistic, plus regular grids of every size up to 60 (181 thorough); one '
          'object for all grids with the same ends, forth and back')
  assumptions = ('a latitude band is defined only for at least two latitudes',)

  def cases(self):
    al = ALPHA + ((-72.0, 75.5) if self.thorough else ())
    al = sorted(al)
    for k in range(2, len(al) + 1):
      for sub in itertools.combinations(al, k):
        yield dict(lats=sub)
    for n in range(2, 182 if self.thorough else 61):
      yield dict(grid=n, poles=True)
      yield dict(grid=n, poles=False)
    for bad in ([0, 0], [0, 10, 5], [10, 0, 5], [0, 10, 10], [5, 5, 5],
                [10, 5, 5], [0, 1, 2, 1]):
      yield dict(bad=bad)
    # one object for many grids, forth and back
    for norm in (True, False):
      for ends in itertools.combinations(al, 2) if self.thorough else (
          (-90.0, 90.0), (-60.0, 59.25), (-90.0, 30.0), (-89.75, 89.0)):
        yield dict(history=ends, norm=norm)

  def run_case(self, case, rec):
    if 'bad' in case:
      st = xr.DataArray(np.zeros(len(case['bad'])), dims=['latitude'],
                        coords={'latitude': np.array(case['bad'], float)})
      rec.transition()
      try:
        weighting.GridAreaWeighting().weights(st)
      except (AssertionError, ValueError):
        rec.trace(outcome='rejected')
        return
      fail('non-monotonic latitudes accepted', case)
    if 'history' in case:
      return self._history(case, rec)
    if 'grid' in case:
      n = case['grid']
      if case['poles']:
        lats = np.linspace(-90, 90, n)
      else:
        d = 180 / n
        lats = np.linspace(-90 + d / 2, 90 - d / 2, n)
    else:
      lats = np.array(case['lats'])
    dts = [np.float64, np.float32]
    if np.all(lats == np.round(lats)):
      dts.append(np.int32)
    for rev in (False, True):
      for dt in dts:
        lat = (lats[::-1] if rev else lats).astype(dt)
        w = ref_weights([float(x) for x in lat])
        tol = dict(rtol=1e-2, atol=1e-4) if dt == np.float32 else dict(
            rtol=1e-9, atol=1e-12)
        for name in ('latitude', 'lat'):
          for norm in (True, False):
            st = xr.DataArray(
                np.arange(3.0 * len(lat)).reshape(3, len(lat)),
                dims=['x', name], coords={name: lat,
                                          'aux': (name, np.arange(len(lat)))})
            variants = [st] if norm else [st.isel(x=0), st.transpose()]
            for st in variants:
              got = weighting.GridAreaWeighting(
                  latitude_name=name, return_normalized=norm).weights(st)
              rec.transition()
              check(got.dims == (name,), f'dims {got.dims}', case)
              check(np.array_equal(got[name].values, lat), 'labels changed',
                    got[name].values, lat)
              want = w / w.mean() if norm else w
              g = np.asarray(got.values, float)
              check(np.all(g > 0), 'non-positive weight', g, lat)
              if norm:
                check(abs(g.mean() - 1) < 1e-5, 'mean of weights is not one', g)
                ok = close(g, want, **tol)
              else:
                ok = close(g / g.sum(), want / want.sum(), **tol)
              check(ok, f'weights {g} expected {want}', f'latitudes {lat}',
                    f'normalised={norm}')
            other = xr.DataArray(np.zeros((2, 2)), dims=['x', 'y'])
            gw = weighting.GridAreaWeighting(name, norm)
            o = gw.weights(other)
            # latitudes that label one point, or the points of a station list
            for o in (o, gw.weights(st.isel({name: -1})),
                      gw.weights(st.rename({name: 'station'}).assign_coords(
                          {name: ('station', lat)}).drop_vars('station'))):
              check(np.all(np.asarray(o) == 1.0) and name not in o.dims,
                    'weight without latitude is not one', o)
        # through the aggregator
        st = xr.DataArray(np.linspace(1, 2, len(lat)), dims=['latitude'],
                          coords={'latitude': lat})
        agg = aggregation.Aggregator(
            reduce_dims=['latitude'], weigh_by=[weighting.GridAreaWeighting()])
        m = agg.aggregate_statistics({'s': {'v': st}}).mean_statistics()['s']['v']
        rec.transition()
        want = float((st.values * w).sum() / w.sum())
        check(close(m.values, want, **tol), f'area mean {m.values} expected {want}',
              lat)
        rec.trace(outcome=tuple(np.round(w / w.mean(), 6)))
        rec.state((tuple(lat), dt.__name__))

  def _history(self, case, rec):
    """The weights do not depend on the grids the object has seen before."""
    lo, hi = case['history']
    inner = [x for x in ALPHA if lo < x < hi]
    grids = []
    for k in range(len(inner) + 1):
      for sub in itertools.combinations(inner, k):
        g = np.array((lo,) + sub + (hi,))
        grids.append(g[::-1] if len(grids) % 3 == 2 else g)
    if not self.thorough:
      grids = grids[:150] + grids[150::5]
    w = weighting.GridAreaWeighting(return_normalized=case['norm'])
    for lat in grids + grids[::-1]:
      got = np.asarray(w.weights(xr.DataArray(
          np.zeros(len(lat)), dims=['latitude'],
          coords={'latitude': lat})).values, float)
      want = ref_weights(lat)
      rec.transition()
      check(close(got / got.sum(), want / want.sum(), rtol=1e-9, atol=1e-12),
            f'weights {got} of {lat} depend on the grids before')
    rec.trace(outcome=len(grids))


CHECK = C10
