"""C26: t-test intervals and p-values match their formulas and each other."""

import itertools

import numpy as np
import scipy.stats
import xarray as xr

from mc import core
from mc import infer
from mc import metricutil as mu
from mc.xrutil import check, close, fail
from weatherbenchX.statistical_inference import t_test

UNIT = infer.UNIT
METHODS = ('iid', 'geer', 'ewc')
# single precision arithmetic inside of the library
RTOL, ATOL = 2e-4, 2e-6


def build(method, metrics, st, v0=None):
  if method == 'iid':
    return t_test.IID(metrics, st, UNIT)
  if method == 'geer':
    return t_test.GeerAR2Corrected(metrics, st, UNIT)
  if v0 is None:
    return t_test.LazarusHACEWC(metrics, st, UNIT)
  return t_test.LazarusHACEWC(metrics, st, UNIT, v_0=v0)


def reference(method, d, v0=0.4):
  """(standard error, degrees of freedom, well conditioned) of deviations d.

  d: (..., n) deviations of the units from the mean.
  """
  n = d.shape[-1]
  ok = np.ones(d.shape[:-1], bool)
  with np.errstate(all='ignore'):
    var = (d**2).sum(-1) / (n - 1)
    if method == 'iid':
      return np.sqrt(var / n), n - 1, ok
    if method == 'geer':
      def rho(k):
        r = (d[..., :-k] * d[..., k:]).sum(-1) / (n - k) / var
        return np.where(var == 0, 0, r)
      r1, r2 = rho(1), rho(2)
      phi1 = r1 * (1 - r2) / (1 - r1**2)
      phi2 = (r2 - r1**2) / (1 - r1**2)
      den = 1 - phi1 - phi2
      k2 = (1 - r1 * phi1 - r2 * phi2) / den**2
      ok = (abs(1 - r1**2) > 2e-2) & (abs(den) > 2e-2) & (abs(k2) > 1e-2)
      return np.sqrt(var / n) * np.sqrt(k2), n - 1, ok
    v = min(max(int(v0 * n**(2 / 3)), 1), n - 1)
    t = np.arange(n) + 0.5
    tot = 0
    for j in range(1, v + 1):
      tot = tot + (np.sqrt(2 / n) * (d * np.cos(np.pi * j * t / n)).sum(-1))**2
    return np.sqrt(tot / v / n), v, ok


def reference_values(a, wa, b, wb):
  """value, deviations of mean, root, ratio, meanb; units on the last axis."""
  m = lambda x: x.mean(-1, keepdims=True)
  with np.errstate(all='ignore'):
    va, vb = m(a) / m(wa), m(b) / m(wb)
    da, db = (a - va * wa) / m(wa), (b - vb * wb) / m(wb)
    return {
        'mean': (va[..., 0], da), 'meanb': (vb[..., 0], db),
        'root': (np.sqrt(va)[..., 0], da / 2 / np.sqrt(va)),
        'ratio': ((va / vb)[..., 0], (da - va / vb * db) / vb)}


ALPHABETS = {3: (0., 1., 2., 5.), 4: (0., 1., 3.), 5: (0., 1., 4.),
             6: (1., 2.), 7: (0., 1.), 8: (1., 3.), 10: (0., 1.)}
WEIGHTS = {'ones': lambda n: np.ones(n), 'two': lambda n: np.full(n, 0.5),
           'mixed': lambda n: 1.0 + np.arange(n) % 3,
           'zero': lambda n: np.where(np.arange(n) == 1, 0., 1.)}
ALPHAS = (0.001, 0.01, 0.05, 0.1, 0.3, 0.5, 0.9)


class C26(core.Check):
  id = 'C26'
  rule = ('all series of up to ten units over a value alphabet x weights x '
          'methods x metrics, all significance levels and null values of an '
          'alphabet; all spacing patterns x coordinate types; layouts')
  assumptions = ('single precision tolerance; AR(2) estimates near their '
                 'singularities are only compared where well conditioned',)

  def cases(self):
    for n in ALPHABETS:
      if n > 8 and not self.thorough:
        continue
      for w in WEIGHTS:
        for m in METHODS:
          yield {'k': 'series', 'n': n, 'w': w, 'm': m, 'v0': None}
    yield {'k': 'series', 'n': 2, 'w': 'ones', 'm': 'iid', 'v0': None}
    yield {'k': 'series', 'n': 2, 'w': 'mixed', 'm': 'ewc', 'v0': None}
    for n, v0 in itertools.product((3, 5, 8), (0.01, 0.25, 0.4, 0.7, 1.0, 3.0)):
      yield {'k': 'series', 'n': n, 'w': 'ones', 'm': 'ewc', 'v0': v0}
    for n in (30, 61, 100, 127, 128, 129, 255, 256, 257, 300, 1000):
      for m in METHODS:
        yield {'k': 'long', 'n': n, 'm': m}
    for m in METHODS:
      for o in range(6):
        yield {'k': 'layout', 'm': m, 'order': o}
    for kind in ('datetime', 'timedelta', 'int', 'float', 'datetime_s',
                 'datetime_desc'):
      for m in METHODS:
        yield {'k': 'spacing', 'kind': kind, 'm': m}
    for m in METHODS:
      yield {'k': 'affine', 'm': m}
      yield {'k': 'missing', 'm': m}
    yield {'k': 'coords'}

  def run_case(self, case, rec):
    getattr(self, '_' + case['k'])(case, rec)

  def verify(self, method, n, a, wa, b, wb, rec, what, v0=None, nulls=None):
    """a, wa, b, wb: (units, series)."""
    st = infer.state({'a': {'v': a}, 'b': {'v': b}},
                     {'a': {'v': wa}, 'b': {'v': wb}}, infer.dates(n),
                     (UNIT, 'series'))
    tt = build(method, infer.METRICS, st, v0)
    rec.transition(a.shape[1] if a.ndim > 1 else 1)
    infer.defaults(tt, what)
    ref = reference_values(a.T, np.broadcast_to(wa.T, a.T.shape), b.T,
                           np.broadcast_to(wb.T, b.T.shape))
    point, se = tt.point_estimates(), tt.standard_error_estimates()
    nulls = nulls if nulls is not None else (0., 1., 0.75, -2.)
    intervals = {alpha: tt.confidence_intervals(alpha) for alpha in ALPHAS}
    pvals = {null: tt.p_values(null) for null in nulls}
    tests = {(null, alpha): tt.significance_tests(null, alpha)
             for alpha in ALPHAS for null in nulls}
    check(set(point) == set(infer.METRICS) and set(se) == set(infer.METRICS),
          f'{what}: metrics {set(point)}')
    for name in infer.METRICS:
      value, d = ref[name]
      # The derivative does not exist where the root is of zero.
      good = np.isfinite(value) & np.isfinite(d).all(-1)
      if name == 'root':
        good &= value > 0.1
      want, df, ok = reference(method, d, 0.4 if v0 is None else v0)
      good &= ok
      g = point[name]['v']
      check(g.dims == ('series',), f'{what}: dims {g.dims}')
      fin = np.isfinite(value)
      check(close(g.values[fin], value[fin], RTOL, ATOL),
            f'{what}: {name} is {g.values[:5]}, expected {value[:5]}')
      s = se[name]['v'].values
      bad = good & ~(np.isclose(s, want, RTOL * 5, ATOL, equal_nan=True))
      if bad.any():
        i = int(np.flatnonzero(bad)[0])
        fail(f'{what}: standard error of {name} {s[i]}, expected {want[i]}; '
             f'a {a[:, i] if a.ndim > 1 else a} weights {wa[:, i]}')
      nonneg = np.isfinite(s)
      check((s[nonneg] >= 0).all(), f'{what}: negative standard error')
      y = g.values.astype(float)
      sf = s.astype(float)
      pick = good & np.isfinite(sf)
      for alpha in ALPHAS:
        lo, hi = intervals[alpha]
        lo, hi = lo[name]['v'].values, hi[name]['v'].values
        half = scipy.stats.t.ppf(1 - alpha / 2, df) * sf
        check(close(lo[pick], (y - half)[pick], RTOL, 1e-5 * (1 + abs(half[pick]).max(initial=0))) and
              close(hi[pick], (y + half)[pick], RTOL, 1e-5 * (1 + abs(half[pick]).max(initial=0))),
              f'{what}: interval {lo[pick][:3]}..{hi[pick][:3]} of {name} at '
              f'level {alpha}, expected {(y - half)[pick][:3]}..'
              f'{(y + half)[pick][:3]}')
        for null in nulls:
          p = pvals[null][name]['v'].values
          with np.errstate(all='ignore'):
            z = np.where((y == null) & (sf == 0), 0, (y - null) / sf)
          wantp = 2 * scipy.stats.t.sf(abs(z), df)
          # Ill conditioned where rounding decides between 0 and 1.
          sure = pick & ((sf > 1e-4) | ((sf == 0) & (abs(y - null) > 1e-3)) |
                         ((sf == 0) & (y == null)))
          check(close(p[sure], wantp[sure], 1e-3, 1e-4),
                f'{what}: p-values of {name} for {null}: {p[sure][:5]}, '
                f'expected {wantp[sure][:5]}')
          tol = 1e-4 * (1 + abs(y) + abs(half))
          outside = (null < lo - tol) | (null > hi + tol)
          inside = (null > lo + tol) & (null < hi - tol)
          x = sure & outside & ~(p < alpha)
          check(not x.any(), f'{what}: {null} is outside of the {alpha} '
                f'interval but p = {p[x][:3]}')
          x = sure & inside & ~(p > alpha)
          check(not x.any(), f'{what}: {null} is inside of the {alpha} '
                f'interval but p = {p[x][:3]}')
          sig = tests[null, alpha][name]['v'].values
          clear = sure & (abs(p - alpha) > 1e-6)
          check(np.array_equal(sig[clear], (p < alpha)[clear]),
                f'{what}: significance tests of {name}')
      rec.nodes += int(pick.sum())
      rec.count('ill_conditioned', int((~good).sum()))
      rec.outcome((what, name, np.round(s[pick], 4).tobytes()))
    rec.trace(a.shape[1] if a.ndim > 1 else 1)

  def _series(self, case, rec):
    n, m = case['n'], case['m']
    xs = mu.all_assignments(ALPHABETS.get(n, (0., 1., 2., 7.)), n).T
    w = WEIGHTS[case['w']](n)[:, None] * np.ones_like(xs)
    b = 1.0 + (np.arange(n)[:, None] * 3 + xs * 2) % 4
    wb = np.roll(w, 1, 0) + 0.5
    if n > 5 and not self.thorough:
      xs, w, b, wb = (x[:, :128] for x in (xs, w, b, wb))
    self.verify(m, n, xs * w, w, b * wb, wb, rec,
                f'{m} n={n} weights {case["w"]}', case['v0'])

  def _long(self, case, rec):
    """Deterministic series of realistic length."""
    n, m = case['n'], case['m']
    t = np.arange(n)[:, None]
    xs = np.concatenate([
        10 + np.sin(t / 3.0), 2 + (t * 7919 % 13) / 13.0, 5 + 0.1 * t,
        1 + (t % 2), 3 + np.cos(t) + (t * 31 % 7) / 5.0], 1)
    w = 1 + np.sin(t) / 2 + 0 * xs
    b = 4 + np.cos(t / 2) + 0 * xs
    self.verify(m, n, xs * w, w, b * w, w, rec, f'{m} n={n}')

  def _layout(self, case, rec):
    """Dimension order, further dimensions and several variables."""
    n, m = 5, case['m']
    order = list(itertools.permutations((UNIT, 'lead', 'x')))[case['order']]
    rng = np.arange(n * 6).reshape(n, 2, 3)
    a = 1.0 + rng * 7 % 11
    w = 1.0 + rng % 3
    da = lambda x, d=(UNIT, 'lead', 'x'): xr.DataArray(
        x, dims=d, coords={UNIT: infer.dates(n), 'lead': [6, 12],
                           'x': ['p', 'q', 'r'], 'aux': ('x', [1, 2, 3])}
        if 'x' in d else {UNIT: infer.dates(n)})
    from weatherbenchX import aggregation
    mk = lambda v, u: {'v': da(v).transpose(*order), 'u': da(u, (UNIT,))}
    st = aggregation.AggregationState(
        {'Stat_a': mk(a * w, a[:, 0, 0]), 'Stat_b': mk(w, a[:, 1, 1])},
        {'Stat_a': mk(w, np.ones(n)), 'Stat_b': mk(w, np.ones(n))})
    tt = build(m, infer.METRICS, st)
    se, pt = tt.standard_error_estimates(), tt.point_estimates()
    lo, hi = tt.confidence_intervals(0.1)
    pv = tt.p_values(1.0)
    back = lambda x: np.moveaxis(x, 0, -1)
    for var, args in (('v', (back(a * w), back(w), back(w), back(w))),
                      ('u', (a[:, 0, 0], np.ones(n), a[:, 1, 1], np.ones(n)))):
      ref = reference_values(*args)
      for name in infer.METRICS:
        value, d = ref[name]
        want, df, ok = reference(m, d)
        for res, exp in ((pt, value), (se, want), (lo, value - want *
                                                   scipy.stats.t.ppf(.95, df)),
                         (hi, value + want * scipy.stats.t.ppf(.95, df)),
                         (pv, None)):
          g = res[name][var]
          dims = ('lead', 'x') if var == 'v' else ()
          check(set(g.dims) == set(dims), f'dims {g.dims} of {var}')
          check(UNIT not in g.coords, 'the units are still a coordinate')
          g = g.transpose(*dims)
          if var == 'v':
            check(g.x.values.tolist() == ['p', 'q', 'r'] and
                  g.lead.values.tolist() == [6, 12] and
                  g.aux.values.tolist() == [1, 2, 3], f'labels {g.coords}')
          if exp is not None:
            keep = ok & np.isfinite(exp)
            check(close(g.values[keep], exp[keep], 1e-3, 1e-4),
                  f'{m} {name}[{var}] order {order}: {g.values}, {exp}')
    rec.nodes += 1
    rec.transition()
    rec.trace(1, (m, order))

  def _spacing(self, case, rec):
    kind, m = case['kind'], case['m']
    accepted, uneven = [], 0
    for n in (3, 4, 5, 6):
      for steps in itertools.product((1, 2), repeat=n - 1):
        off = np.concatenate([[0], np.cumsum(steps)])
        if kind == 'datetime':
          co = np.datetime64('2020-02-28', 'ns') + off * np.timedelta64(12, 'h')
        elif kind == 'datetime_desc':
          co = np.datetime64('2020-02-28', 'ns') - off * np.timedelta64(12, 'h')
        elif kind == 'datetime_s':
          co = np.datetime64('2020-02-28', 's') + off * np.timedelta64(3600, 's')
        elif kind == 'timedelta':
          co = (off * np.timedelta64(6, 'h')).astype('timedelta64[ns]')
        elif kind == 'int':
          co = 10 + off
        else:
          co = 0.1 + 0.3 * off
        y = 1.0 + (off * 5) % 7
        st = infer.state({'a': {'v': y}}, {'a': {'v': np.ones(n)}}, co, (UNIT,))
        rec.transition()
        rec.nodes += 1
        even = len(set(steps)) == 1
        uneven += not even
        try:
          build(m, {'mean': infer.Mean('a')}, st)
        except Exception as e:  # pylint: disable=broad-except
          if even or m == 'iid':
            fail(f'{m} rejects {kind} units with steps {steps}: {e!r}')
          rec.trace(1, (kind, steps, m, 'rejected'))
          continue
        rec.trace(1, (kind, steps, m, 'accepted'))
        if not even and m != 'iid':
          accepted.append(steps)
    if accepted:
      which = 'all' if len(accepted) == uneven else str(accepted)
      fail(f'{m} accepts unevenly spaced {kind} units with steps {accepted}',
           key=f'uneven:{kind}:{m}:{which}')

  def _affine(self, case, rec):
    """Shifting and scaling a mean moves its interval accordingly."""
    m, n = case['m'], 6
    xs = mu.all_assignments((0., 1., 4.), n).T
    ones = np.ones_like(xs)
    def run(y, null):
      st = infer.state({'a': {'v': y}}, {'a': {'v': ones}}, infer.dates(n),
                       (UNIT, 's'))
      tt = build(m, {'mean': infer.Mean('a')}, st)
      lo, hi = tt.confidence_intervals(0.1)
      f = lambda r: r['mean']['v'].values.astype(float)
      return (f(tt.point_estimates()), f(tt.standard_error_estimates()), f(lo),
              f(hi), f(tt.p_values(null)))
    d = xs - xs.mean(0)
    _, _, ok = reference(m, d.T)
    base = run(xs, 0.5)
    for c, s in itertools.product((0., -3., 100.), (1., -1., 2., 0.25)):
      got = run(c + s * xs, c + s * 0.5)
      want = (c + s * base[0], abs(s) * base[1],
              c + s * (base[2] if s > 0 else base[3]),
              c + s * (base[3] if s > 0 else base[2]), base[4])
      sure = ok & np.isfinite(base[1]) & (base[1] > 1e-3)
      for i, (x, y) in enumerate(zip(got, want)):
        check(close(x[sure], y[sure], 2e-3, 2e-3),
              f'{m}: shift {c} scale {s}: result {i} {x[sure][:3]}, expected '
              f'{y[sure][:3]}')
      rec.nodes += int(sure.sum())
      rec.transition(xs.shape[1])
      rec.trace(1, (m, c, s))

  def _missing(self, case, rec):
    """A missing unit makes exactly the results missing that depend on it."""
    m, n = case['m'], 5
    for i in range(n):
      a = np.arange(n * 3.0).reshape(n, 3) * 5 % 7 + 1
      a[i, 1] = np.nan
      b = 2.0 + np.arange(n * 3.0).reshape(n, 3) % 3
      one = np.ones((n, 3))
      st = infer.state({'a': {'v': a}, 'b': {'v': b}},
                       {'a': {'v': one}, 'b': {'v': one}}, infer.dates(n),
                       (UNIT, 'x'))
      tt = build(m, infer.METRICS, st)
      res = [tt.point_estimates(), tt.standard_error_estimates(),
             *tt.confidence_intervals(), tt.p_values(0.5)]
      for r, name in itertools.product(res, infer.METRICS):
        y = np.isnan(r[name]['v'].values)
        check(y[1] == (name != 'meanb'), f'{m}: {name} with a missing unit: '
              f'{r[name]["v"].values}')
        if m == 'iid':
          check(not y[0] and not y[2], f'{m}: {name} became missing {y}')
      rec.nodes += 1
      rec.transition()
      rec.trace(1, (m, i))

  def _coords(self, case, rec):
    """Units of different statistics must be the same units."""
    n = 4
    y = np.array([1., 2., 4., 3.])
    good = infer.dates(n)
    mk = lambda c: xr.DataArray(y[:len(c)] if c is not None else y,
                                dims=UNIT, coords={} if c is None else {UNIT: c})
    from weatherbenchX import aggregation
    for what, other in (('shifted', infer.dates(n) + np.timedelta64(1, 'h')),
                        ('reversed', good[::-1]), ('fewer', good[:3]),
                        ('none', None), ('same', good)):
      for m in METHODS:
        st = aggregation.AggregationState(
            {'Stat_a': {'v': mk(good)}, 'Stat_b': {'v': mk(other)}},
            {'Stat_a': {'v': mk(good)}, 'Stat_b': {'v': mk(other)}})
        rec.transition()
        rec.nodes += 1
        try:
          build(m, {'ratio': infer.Ratio()}, st)
        except Exception as e:  # pylint: disable=broad-except
          check(what != 'same', f'{m} rejects equal units: {e!r}')
          rec.trace(1, (what, m))
          continue
        check(what == 'same', f'{m} accepts {what} units of one statistic')
        rec.trace(1, (what, m))


CHECK = C26
