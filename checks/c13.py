"""C13: contingency-table scores equal their definitions on every table."""

import itertools

import numpy as np
import xarray as xr

from mc import core
from mc import metricutil as mu
from mc.xrutil import check, close, fail
from weatherbenchX import weighting
from weatherbenchX.metrics import categorical as cat

NAN = np.nan
COUNTS = {'TruePositives': lambda p, t: p & t,
          'TrueNegatives': lambda p, t: ~p & ~t,
          'FalsePositives': lambda p, t: p & ~t,
          'FalseNegatives': lambda p, t: ~p & t}


def _sedi(tp, fp, fn, tn):
  h = np.clip(tp / (tp + fn), 1e-6, 1 - 1e-6)
  f = np.clip(fp / (fp + tn), 1e-6, 1 - 1e-6)
  l = np.log
  return (l(f) - l(h) + l(1 - h) - l(1 - f)) / (l(h) + l(f) + l(1 - h) + l(1 - f))


def _ets(tp, fp, fn, tn):
  r = (tp + fp) * (tp + fn) / (tp + fp + fn + tn)
  return (tp - r) / (tp + fp + fn - r)


SCORES = {
    'CSI': lambda tp, fp, fn, tn: tp / (tp + fp + fn),
    'Accuracy': lambda tp, fp, fn, tn: (tp + tn) / (tp + fp + fn + tn),
    'Recall': lambda tp, fp, fn, tn: tp / (tp + fn),
    'Precision': lambda tp, fp, fn, tn: tp / (tp + fp),
    'FalseAlarmRate': lambda tp, fp, fn, tn: fp / (tp + fp),
    'F1Score': lambda tp, fp, fn, tn: 2 * tp / (2 * tp + fp + fn),
    'FrequencyBias': lambda tp, fp, fn, tn: (tp + fp) / (tp + fn),
    'HSS': lambda tp, fp, fn, tn: 2 * (tp * tn - fp * fn) / (
        (tp + fn) * (fn + tn) + (tp + fp) * (fp + tn)),
    'ETS': _ets,
    'SEDI': _sedi,
}


class TableWeights(weighting.Weighting):
  """Weights that realise a given contingency table from four units."""

  def __init__(self, da):
    self.da = da

  def weights(self, statistic):
    return self.da


def pair_units(n):
  """All assignments of (p, t) in {0, 1, missing}^2 to n units."""
  s = np.array([(a, b) for a in (0.0, 1.0, NAN) for b in (0.0, 1.0, NAN)])
  idx = np.indices((9,) * n).reshape(n, -1).T
  return s[idx, 0], s[idx, 1]


def score_ok(got, want, name):
  """Equal; where the definition is undefined, missing or infinite."""
  tol = 5e-3 if name == 'SEDI' else 2e-5
  undefined = ~np.isfinite(want)
  ok = np.where(undefined, ~np.isfinite(got),
                np.isclose(got, want, tol, tol))
  return ok


class C13(core.Check):
  id = 'C13'
  rule = ('every assignment of {0, 1, missing} predictions and targets to up to '
          '4 (5) units, every table with counts from {0..5, large}, every '
          'reduction and dtype; every assignment of edge probabilities and '
          'outcomes to 3 units for reliability')
  assumptions = ('predictions and targets are binary; SEDI clips its rates to '
                 '[1e-6, 1-1e-6] as documented',)

  def cases(self):
    for n in range(1, 6 if self.thorough else 5):
      yield dict(kind='counts', n=n)
    for m in SCORES:
      for n in range(1, 6 if self.thorough else 5):
        yield dict(kind='units', m=m, n=n)
      yield dict(kind='tables', m=m)
      yield dict(kind='batch', m=m)
      for dt in ('bool', 'i8', 'i4', 'f4', 'f8'):
        yield dict(kind='dtype', m=m, dt=dt)
      for n in (10, 127, 129, 255, 257, 32767, 32769, 65535, 65537, 90000):
        for dt in ('bool', 'i8', 'i4', 'f4', 'f8'):
          yield dict(kind='many', m=m, n=n, dt=dt)
    for bins in (None, (0.0, 0.25, 0.5, 1.0), (-np.inf, 0.5, np.inf),
                 (0.1, 0.25, 0.75)):
      for n in (1, 2, 3):
        yield dict(kind='rel', bins=bins, n=n)

  def run_case(self, case, rec):
    getattr(self, 'k_' + case['kind'])(case, rec)

  def da(self, a, name='v'):
    return xr.DataArray(a, dims=['case', 'unit'], name=name)

  def table(self, p, t):
    """Pooled counts, missing when any unit is missing."""
    miss = np.isnan(p) | np.isnan(t)
    pb, tb = p == 1, t == 1
    out = []
    for k in ('TruePositives', 'FalsePositives', 'FalseNegatives',
              'TrueNegatives'):
      v = COUNTS[k](pb, tb).astype(float)
      v[miss] = NAN
      out.append(v.sum(1))
    return out

  def k_counts(self, case, rec):
    p, t = pair_units(case['n'])
    P, T = {'v': self.da(p)}, {'v': self.da(t)}
    total = 0
    miss = np.isnan(p) | np.isnan(t)
    for k, f in COUNTS.items():
      s = list(mu.stats_of(getattr(cat, k)(), P, T).values())[0]['v']
      g = s.transpose('case', 'unit').values
      w = np.where(miss, NAN, f(p == 1, t == 1).astype(float))
      rec.transition(len(p))
      if not close(g, w):
        i = np.argwhere(~np.isclose(g, w, equal_nan=True))[0]
        fail(f'{k}: got {g[tuple(i)]} expected {w[tuple(i)]}',
             f'prediction {p[tuple(i)]} target {t[tuple(i)]}')
      total = total + g
    check(close(total, np.where(miss, NAN, 1.0)), 'the four counts do not '
          'partition the valid units')
    rec.nodes += len(p)
    rec.trace(len(p))

  def k_units(self, case, rec):
    p, t = pair_units(case['n'])
    name = case['m']
    got = mu.value(getattr(cat, name)(), {'v': self.da(p)}, {'v': self.da(t)},
                   ('unit',))['m.v'].values
    rec.transition(len(p))
    with np.errstate(all='ignore'):
      want = SCORES[name](*self.table(p, t))
    ok = score_ok(got, want, name)
    if not ok.all():
      i = int(np.argmin(ok))
      fail(f'{name}: got {got[i]} expected {want[i]}',
           f'predictions {p[i].tolist()} targets {t[i].tolist()}')
    miss = (np.isnan(p) | np.isnan(t)).any(1)
    check(np.all(np.isnan(got[miss])), f'{name}: missing unit ignored')
    rec.nodes += len(p)
    for v in np.unique(got.round(5)):
      rec.outcome((name, float(v)))
    rec.trace(len(p))

  def k_tables(self, case, rec):
    name = case['m']
    vals = (0, 1, 2, 3, 5, 1000) if not self.thorough else (
        0, 1, 2, 3, 4, 5, 7, 11, 1000, 123457)
    tab = np.array([x for x in itertools.product(vals, repeat=4) if sum(x)],
                   float)
    p = np.array([1.0, 1.0, 0.0, 0.0])
    t = np.array([1.0, 0.0, 1.0, 0.0])
    one = np.ones((len(tab), 1))
    P, T = {'v': self.da(one * p)}, {'v': self.da(one * t)}
    for scale in (1.0, 0.125):
      w = xr.DataArray(tab * scale, dims=['case', 'unit'])
      got = mu.value(getattr(cat, name)(), P, T, ('unit',),
                     weigh_by=[TableWeights(w)])['m.v'].values
      rec.transition(len(tab))
      with np.errstate(all='ignore'):
        want = SCORES[name](*tab.T)
      ok = score_ok(got, want, name)
      if not ok.all():
        i = int(np.argmin(ok))
        fail(f'{name}: got {got[i]} expected {want[i]}',
             f'(tp, fp, fn, tn) = {tab[i].tolist()}')
      rec.nodes += len(tab)
      rec.trace(len(tab), outcome=name)

  def k_batch(self, case, rec):
    name = case['m']
    p = np.array([[1, 0], [1, 1], [0, 0], [0, 1]], float)
    t = np.array([[1, 1], [0, 1], [0, 1], [0, 1]], float)
    perms = list(itertools.permutations(range(4)))
    for pi, ti in itertools.product(perms if self.thorough else perms[::5], perms):
      P, T = p[list(pi)], t[list(ti)]
      with np.errstate(all='ignore'):
        pooled = [c.sum() for c in self.table(P, T)]
        want = np.array(SCORES[name](*pooled))
      for cuts in mu.compositions(4) if pi == tuple(range(4)) else ([slice(0, 4)],):
        got = mu.chunked({'m': getattr(cat, name)()}, {'v': self.da(P)},
                         {'v': self.da(T)}, ('unit', 'case'), 'case', cuts)
        g = got['m.v'].values
        rec.transition()
        check(score_ok(g, want, name).all(),
              f'{name}: split {cuts} gives {g}, expected {want}',
              P.tolist(), T.tolist())
      rec.trace(outcome=(name, float(np.nan_to_num(want).round(4))))

  def k_dtype(self, case, rec):
    name = case['m']
    v = mu.all_assignments((0, 1), 6)
    p, t = v[:, :3], v[:, 3:]
    with np.errstate(all='ignore'):
      want = SCORES[name](*self.table(p, t))
    for pt, tt in ((case['dt'], case['dt']), (case['dt'], 'f8'),
                   ('bool', case['dt'])):
      P = xr.Dataset({'v': self.da(p.astype(pt)), 'u': self.da(1 - p)})
      T = xr.Dataset({'v': self.da(t.astype(tt)), 'w': self.da(t)})
      for q in (P, P.transpose('unit', 'case')):
        got = mu.value(getattr(cat, name)(), q, T, ('unit',))
        rec.transition()
        check(set(got.data_vars) == {'m.v'}, list(got.data_vars))
        ok = score_ok(got['m.v'].values, want, name)
        check(ok.all(), f'{name} dtype {pt},{tt}', p[np.argmin(ok)],
              t[np.argmin(ok)])
    rec.trace(outcome=(name, case['dt']))

  def k_many(self, case, rec):
    """Tables with large counts, pooled over one and over many pieces."""
    name, n, dt = case['m'], case['n'], case['dt']
    i = np.arange(n)[None] + np.array([[0], [3], [0], [1]])
    p = np.stack([i[0] % 3 == 0, i[1] % 2 == 0, i[2] < 0, i[3] >= n // 2])
    t = np.stack([i[0] % 5 == 0, i[1] % 2 == 0, i[2] == 5, i[3] >= n // 3])
    with np.errstate(all='ignore'):
      want = np.asarray(SCORES[name](*self.table(p.astype(float),
                                                 t.astype(float))))
    P, T = {'v': self.da(p.astype(dt))}, {'v': self.da(t.astype(dt))}
    got = mu.value(getattr(cat, name)(), P, T, ('unit',))['m.v'].values
    rec.transition()
    ok = score_ok(got, want, name)
    check(ok.all(), f'{name} over {n} {dt} units: {got} expected {want}')
    cuts = [slice(k, k + n // 7 + 1) for k in range(0, n, n // 7 + 1)]
    got = mu.chunked({'m': getattr(cat, name)()}, P, T, ('unit',), 'unit',
                     cuts)['m.v'].values
    rec.transition(len(cuts))
    ok = score_ok(got, want, name)
    check(ok.all(), f'{name} over {n} {dt} units in pieces: {got} not {want}')
    rec.state((name, n, dt))
    rec.trace(2, outcome=(name, n, str(np.round(want, 4))))

  def k_rel(self, case, rec):
    bins = case['bins']
    b = bins or (-np.inf, .1, .2, .3, .4, .5, .6, .7, .8, .9, 1.)
    pv = (0.0, 0.05, 0.1, 0.25, 0.5, 0.75, 1.0, NAN)
    units = [(x, y) for x in pv for y in (0.0, 1.0, NAN)]
    n = case['n']
    if n == 3 and not self.thorough:
      units = [u for u in units if u[0] not in (0.05, 1.0)]
    s = np.array(units)
    idx = np.indices((len(units),) * n).reshape(n, -1).T
    p, t = s[idx, 0], s[idx, 1]
    m = cat.Reliability() if bins is None else cat.Reliability(bins)
    got = mu.value(m, {'v': self.da(p)}, {'v': self.da(t)}, ('unit',))['m.v']
    rec.transition(len(p))
    d = [x for x in got.dims if x != 'case'][0]
    check(got.sizes[d] == len(b) - 1, 'number of bins', got.sizes)
    check(close(got[f'{d}_left'].values, b[:-1])
          and close(got[f'{d}_right'].values, b[1:]), 'bin edges', b)
    got = got.transpose('case', d).values
    miss = (np.isnan(p) | np.isnan(t)).any(1)
    for j, (lo, hi) in enumerate(zip(b[:-1], b[1:])):
      with np.errstate(all='ignore'):
        inb = (p > lo) & (p <= hi)
        want = (inb & (t == 1)).sum(1) / inb.sum(1)
      want = np.where(miss, NAN, want)
      g = got[:, j]
      if not close(g, want):
        i = int(np.argmax(~np.isclose(g, want, equal_nan=True)))
        fail(f'bin ({lo}, {hi}]: got {g[i]} expected {want[i]}',
             f'probabilities {p[i].tolist()} outcomes {t[i].tolist()}')
    rec.nodes += len(p)
    rec.trace(len(p), outcome=(n, str(bins)))


CHECK = C13
