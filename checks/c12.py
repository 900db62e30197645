"""C12: deterministic error metrics equal their definitions."""

import itertools

import numpy as np
import xarray as xr

from mc import core
from mc import metricutil as mu
from mc.xrutil import check, close, fail, same_da
from weatherbenchX.metrics import deterministic as det

NAN = np.nan
PA = (-1.5, 0.0, 2.0, NAN)
TA = (0.0, 2.0, 3.25, NAN)
LAT = np.array([-30.0, 40.0])
LON = np.array([0.0, 10.0, 350.0])
THR = (0.0, 1.5, 2.0, 3.25)
EPS = 1e-6


def arr(a, dims=('case', 'latitude', 'longitude'), name='v', dtype=float):
  co = {'latitude': LAT, 'longitude': LON[:a.shape[-1]]}
  return xr.DataArray(a.astype(dtype), dims=dims, name=name,
                      coords={k: v for k, v in co.items() if k in dims})


# reference: (P, T) arrays (..., lat, lon) -> per-unit statistic array
def r_err(p, t):
  return p - t


def r_abs(p, t):
  return np.abs(p - t)


def r_sq(p, t):
  return (p - t) * (p - t)



def r_exc(p, t):
  e = np.abs(p - t)[..., None]
  return np.where(np.isnan(e), NAN, (e > np.array(THR)).astype(float))


def r_rel(p, t):
  return np.abs((p.mean((-2, -1)) + EPS) / (t.mean((-2, -1)) + EPS) - 1)


METRICS = {
    'Bias': (lambda: det.Bias(), r_err, False),
    'Error': (lambda: det.Error(), r_err, False),
    'MAE': (lambda: det.MAE(), r_abs, False),
    'MSE': (lambda: det.MSE(), r_sq, False),
    'RMSE': (lambda: det.RMSE(), r_sq, True),
    'PredictionAverage': (lambda: det.PredictionAverage(), lambda p, t: p, False),
    'TargetAverage': (lambda: det.TargetAverage(), lambda p, t: t, False),
    'PredictionAverageN': (
        lambda: det.PredictionPassthrough(copy_nans_from_targets=True),
        lambda p, t: np.where(np.isnan(t), NAN, p), False),
    'TargetAverageN': (
        lambda: det.TargetPassthrough(copy_nans_from_predictions=True),
        lambda p, t: np.where(np.isnan(p), NAN, t), False),
    'ErrorExceedance': (lambda: det.ErrorExceedance(list(THR)), r_exc, False),
    'RelativeIntensity': (lambda: det.RelativeIntensity(), r_rel, False),
}
REDS = ((), ('latitude',), ('longitude',), ('latitude', 'longitude'),
        ('case',), ('case', 'longitude', 'latitude'))


def reference(name, p, t, red):
  """p, t: float arrays (case, lat, lon). Returns a DataArray."""
  _, stat, root = METRICS[name]
  with np.errstate(invalid='ignore'):
    s = stat(p, t)
  if name == 'RelativeIntensity':
    dims = ['case']
  else:
    dims = ['case', 'latitude', 'longitude']
  if name == 'ErrorExceedance':
    dims = dims + ['error_exceedance_thresholds']
  da = xr.DataArray(s, dims=dims)
  coords = {'latitude': LAT, 'longitude': LON[:p.shape[-1]],
            'error_exceedance_thresholds': list(THR)}
  da = da.assign_coords({d: coords[d] for d in dims if d in coords})
  axes = tuple(dims.index(d) for d in red)
  out = np.sum(s, axis=axes) / np.prod([s.shape[i] for i in axes] or [1])
  if root:
    out = np.sqrt(out)
  keep = [d for d in dims if d not in red]
  return xr.DataArray(out, dims=keep, coords={d: coords[d] for d in keep
                                              if d in coords}), da


class C12(core.Check):
  id = 'C12'
  rule = ('every assignment of 3 values and "missing" to the predictions and '
          'targets of 4 units (4^8 value assignments), for every metric and '
          'reduction; all dimension orders, containers, variable sets, batch '
          'splits and dtypes on reduced alphabets')
  assumptions = ()

  def cases(self):
    for m in METRICS:
      for red in REDS:
        if m == 'RelativeIntensity' and set(red) & {'latitude', 'longitude'}:
          continue
        yield dict(kind='values', m=m, red=red)
    for m in METRICS:
      for po in itertools.permutations(range(3)):
        for to in itertools.permutations(range(3)):
          yield dict(kind='layout', m=m, po=po, to=to)
      for pv in range(1, 8):
        yield dict(kind='vars', m=m, pv=pv)
      yield dict(kind='batch', m=m)
      for dt in itertools.product(('f8', 'f4', 'i8', 'i4'), repeat=2):
        yield dict(kind='dtype', m=m, dt=dt)
    for n in range(1, 4):
      for scal in (False, True):
        yield dict(kind='wind', n=n, scal=scal)
    for k in ('list', 'tuple', 'da', 'ds', 'da2d', 'nan'):
      yield dict(kind='exc', thr=k)
    for mask in range(2 ** 4):
      yield dict(kind='relmask', mask=mask)
    for sd in (('latitude',), ('longitude',), ('longitude', 'latitude'),
               ('case', 'latitude'), ('case', 'latitude', 'longitude')):
      yield dict(kind='reldims', sd=sd)

  def run_case(self, case, rec):
    getattr(self, 'k_' + case['kind'])(case, rec)

  def pt(self, small=False, order=None):
    if small:
      v = mu.all_assignments((-1.0, 2.0), 8)
    else:
      v = np.concatenate([
          np.stack(np.broadcast_arrays(*np.ix_(*([PA] * 4 + [TA] * 4))),
                   -1).reshape(-1, 8)])
    return v[:, :4].reshape(-1, 2, 2), v[:, 4:].reshape(-1, 2, 2)

  def k_values(self, case, rec):
    p, t = self.pt()
    name, red = case['m'], case['red']
    metric = METRICS[name][0]()
    if 'case' in red:   # keep it non-trivial: drop the assignments with NaN
      ok = ~np.isnan(p).any((1, 2)) & ~np.isnan(t).any((1, 2))
      p, t = p[ok], t[ok]
    P, T = {'v': arr(p)}, {'v': arr(t)}
    want, stat = reference(name, p, t, red)
    got = mu.value(metric, P, T, red)
    rec.transition(len(p))
    check(set(got.data_vars) == {'m.v'}, 'variables', list(got.data_vars))
    self.cmp(got['m.v'], want, p, t, case, 1e-6)
    if not red:
      for k, s in mu.stats_of(metric, P, T).items():
        self.cmp(s['v'], stat, p, t, (case, k), 1e-9)
    rec.nodes += len(p)
    for o in np.unique(want.values.ravel().round(6))[:2000]:
      rec.outcome(o)
    rec.trace(len(p))

  def cmp(self, got, want, p, t, ctx, tol):
    check(set(got.dims) == set(want.dims), f'dims {got.dims} not {want.dims}', ctx)
    same_da(got, want, str(ctx), rtol=tol, atol=tol) if got.size < 50 else None
    g = got.transpose(*want.dims).values
    if not close(g, want.values, tol, tol):
      bad = np.argwhere(~np.isclose(g.astype(float), want.values, tol, tol,
                                    equal_nan=True))[0]
      i = bad[0] if 'case' in want.dims else 0
      fail(f'value {g[tuple(bad)]} expected {want.values[tuple(bad)]}',
           f'predictions {p[i].tolist()}', f'targets {t[i].tolist()}', ctx)

  def k_layout(self, case, rec):
    p, t = self.pt(small=True)
    name = case['m']
    D = ('case', 'latitude', 'longitude')
    P, T = arr(p), arr(t)
    want, _ = reference(name, p, t, ())
    wantm, _ = reference(name, p, t, ('case',))
    for pc, tc in itertools.product(('dict', 'ds'), repeat=2):
      pp = mu.as_container({'v': P.transpose(*[D[i] for i in case['po']])}, pc)
      tt = T.transpose(*[D[i] for i in case['to']])
      for rev in (False, True):
        if rev:   # same labels, listed in another order
          tt = tt.isel(latitude=[1, 0], longitude=[1, 0])
        tc_ = mu.as_container({'v': tt}, tc)
        for red, w in (((), want), (('case',), wantm)):
          got = mu.value(METRICS[name][0](), pp, tc_, red)
          rec.transition()
          same_da(got['m.v'], w, str((case, pc, tc, rev, red)), order=False)
    rec.trace(outcome=(name, case['po'], case['to']))
    rec.state((name, case['po'], case['to']))

  def k_vars(self, case, rec):
    p, t = self.pt(small=True)
    name = case['m']
    names = ('a', 'b', 'c')
    vals = {n: (p * (i + 1) + i, t * (2 - i)) for i, n in enumerate(names)}
    for tv in range(1, 8):
      pn = [n for i, n in enumerate(names) if case['pv'] >> i & 1]
      tn = [n for i, n in enumerate(names) if tv >> i & 1]
      for pk, tk in itertools.product(('dict', 'rdict', 'ds'), repeat=2):
        P = mu.as_container({n: arr(vals[n][0], name=n) for n in pn}, pk)
        T = mu.as_container({n: arr(vals[n][1], name=n) for n in tn}, tk)
        common = set(pn) & set(tn)
        if not common:
          continue
        got = mu.value(METRICS[name][0](), P, T, ('case',))
        rec.transition()
        check(set(got.data_vars) == {f'm.{n}' for n in common},
              f'variables {list(got.data_vars)}, common {common}', case)
        for n in common:
          want, _ = reference(name, *vals[n], ('case',))
          same_da(got[f'm.{n}'], want, f'{case} {n}')
      rec.trace(outcome=(name, case['pv'], tv))

  def k_batch(self, case, rec):
    name = case['m']
    rng = mu.all_assignments((-1.0, 0.5, 3.0), 4)
    for rows in (rng[1:6], rng[30:35], rng[[80, 0, 41, 13, 77]]):
      p = rows.reshape(-1, 2, 2)
      t = p[::-1] * 0.5 + 1
      P, T = {'v': arr(p)}, {'v': arr(t)}
      want, _ = reference(name, p, t, ('case',))
      for cuts in mu.compositions(len(p)):
        for order in (cuts, cuts[::-1]):
          got = mu.chunked({'m': METRICS[name][0]()}, P, T, ('case',), 'case',
                           order)
          rec.transition()
          same_da(got['m.v'], want, f'{case} split {order}')
          rec.trace(outcome=(name, len(order)))
        rec.state((name, str(cuts)))

  def k_dtype(self, case, rec):
    p, t = self.pt(small=True)
    name = case['m']
    got = mu.value(METRICS[name][0](), {'v': arr(p, dtype=case['dt'][0])},
                   {'v': arr(t, dtype=case['dt'][1])}, ('case', ))
    rec.transition()
    want, _ = reference(name, p, t, ('case',))
    same_da(got['m.v'], want, str(case), rtol=1e-4, atol=1e-4)
    rec.trace(outcome=(name, case['dt']))

  def k_wind(self, case, rec):
    v = np.stack(np.broadcast_arrays(*np.ix_(*([(-1.0, 0.0, 2.5, NAN)] * 4))),
                 -1).reshape(-1, 4)
    n = case['n']
    P, T, U, V, W = {}, {}, [], [], []
    for i in range(n):
      U.append(f'u{i}'), V.append(f'v{i}'), W.append(f'w{i}')
      for j, (c, d) in enumerate(((U, P), (V, P), (U, T), (V, T))):
        d[c[-1]] = xr.DataArray(np.roll(v[:, j], 7 * i), dims=['case'],
                                name=c[-1])
    P['other'] = xr.DataArray([1.0], dims=['zz'])
    if case['scal']:
      if n != 1:
        raise core.Skip()
      args = (U[0], V[0], W[0])
    else:
      args = (U, V, W)
    for pk, tk in itertools.product(('dict', 'rdict', 'ds'), repeat=2):
      PP, TT = mu.as_container(P, pk), mu.as_container(T, tk)
      for red in ((), ('case',)):
        got = mu.value(det.WindVectorRMSE(*args), PP, TT, red)
        rec.transition(len(v))
        check(set(got.data_vars) == {f'm.{w}' for w in W}, list(got.data_vars))
        for i in range(n):
          up, vp, ut, vt = (np.roll(v[:, j], 7 * i) for j in range(4))
          se = (up - ut) * (up - ut) + (vp - vt) * (vp - vt)
          want = np.sqrt(se) if not red else np.sqrt(se.mean())
          check(close(got[f'm.{W[i]}'].values, want), 'wind vector RMSE', case)
        rec.trace(len(v), outcome=(n, red))
    ok = ~np.isnan(v).any(1)
    P = {'u': xr.DataArray(v[ok, 0], dims=['case']),
         'v': xr.DataArray(v[ok, 1], dims=['case'])}
    T = {'u': xr.DataArray(v[ok, 2], dims=['case']),
         'v': xr.DataArray(v[ok, 3], dims=['case'])}
    got = mu.value(det.WindVectorRMSE('u', 'v', 'w'), P, T, ('case',))['m.w']
    w = v[ok]
    want = np.sqrt(((w[:, 0] - w[:, 2])**2 + (w[:, 1] - w[:, 3])**2).mean())
    check(close(got.values, want), 'wind RMSE of all', got.values, want)
    # Vectors may share components; all assignments of three fields.
    f = {c: (np.array([1.0, 2.0]) * k, np.array([-3.0, 5.0]) * k)
         for c, k in (('a', 1.0), ('b', 10.0), ('c', 100.0))}
    P = {c: xr.DataArray(x[0], dims=['case']) for c, x in f.items()}
    T = {c: xr.DataArray(x[1], dims=['case']) for c, x in f.items()}
    for u1, v1, u2, v2 in itertools.product('abc', repeat=4):
      for cont in ('dict', 'rdict', 'ds'):
        got = mu.value(det.WindVectorRMSE([u1, u2], [v1, v2], ['w1', 'w2']),
                       mu.as_container(P, cont), mu.as_container(T, cont), ())
        for w, (a, b) in (('w1', (u1, v1)), ('w2', (u2, v2))):
          want = np.sqrt((f[a][0] - f[a][1])**2 + (f[b][0] - f[b][1])**2)
          check(close(got[f'm.{w}'].values, want),
                f'vectors ({u1},{v1}) ({u2},{v2}): {w}', got[f'm.{w}'].values,
                want)
        rec.transition()
        rec.trace(1, (u1, v1, u2, v2))
    for bad in ((['u'], ['v', 'x'], ['w']), (['u'], ['v'], ['w', 'y'])):
      try:
        det.WindVectorRMSE(*bad)
      except ValueError:
        continue
      fail('unequal numbers of components accepted', bad)

  def k_exc(self, case, rec):
    p, t = self.pt()
    e = np.abs(p - t)
    kind = case['thr']
    th = np.array([0.0, 1.25, 2.0])
    dim = 'error_exceedance_thresholds'
    full = np.broadcast_to(th[:, None, None], (3, 2, 2)).copy()
    if kind == 'list':
      arg = th.tolist()
    elif kind == 'tuple':
      arg = tuple(th.tolist())
    elif kind == 'da':
      dim = 'q'
      arg = xr.DataArray(th, dims=['q'], coords={'q': [1, 2, 3]})
    elif kind in ('da2d', 'nan', 'ds'):
      dim = 'q'
      full = th[:, None, None] + np.array([[0, 1.5], [0.75, -1.0]])
      if kind == 'nan':
        full[1, 0, 1] = NAN
      a2 = xr.DataArray(full, dims=['q', 'latitude', 'longitude'],
                        coords={'latitude': LAT, 'longitude': LON[:2]})
      arg = a2
      if kind == 'ds':
        arg = xr.Dataset({'other': a2 + 100, 'v': a2})
    got = mu.stats_of(det.ErrorExceedance(arg), {'v': arr(p)}, {'v': arr(t)})
    got = list(got.values())[0]['v'].transpose('case', dim, 'latitude',
                                               'longitude').values
    want = (e[:, None] > full[None]).astype(float)
    want = np.where(np.isnan(e[:, None]) | np.isnan(full[None]), NAN, want)
    rec.transition(len(p))
    if not close(got, want):
      i = np.argwhere(~np.isclose(got, want, equal_nan=True))[0]
      fail('error exceedance', f'at {i} got {got[tuple(i)]}', case)
    rec.trace(len(p), outcome=kind)

  def k_relmask(self, case, rec):
    p, t = self.pt()
    m = np.array([case['mask'] >> i & 1 for i in range(4)], bool).reshape(2, 2)
    T = arr(t).assign_coords(mask=(('latitude', 'longitude'), m))
    got = list(mu.stats_of(det.RelativeIntensity(), {'v': arr(p)},
                           {'v': T}).values())[0]['v']
    rec.transition(len(p))
    if m.any():
      pm, tm = p[:, m].mean(1), t[:, m].mean(1)
      want = np.abs((pm + EPS) / (tm + EPS) - 1)
      check(close(got.values, want, 1e-5, 1e-5), 'masked relative intensity', case)
    g = np.broadcast_to(got['mask'].values, got.shape)
    check(np.all((g != 0) == m.any()), 'mask of relative intensity', case)
    rec.trace(len(p), outcome=case['mask'])

  def k_reldims(self, case, rec):
    p, t = self.pt(small=True)
    t = t + 2.5
    got = list(mu.stats_of(det.RelativeIntensity(case['sd']), {'v': arr(p)},
                           {'v': arr(t)}).values())[0]['v']
    D = ('case', 'latitude', 'longitude')
    ax = tuple(D.index(d) for d in case['sd'])
    want = np.abs((p.mean(ax) + EPS) / (t.mean(ax) + EPS) - 1)
    keep = [d for d in D if d not in case['sd']]
    check(set(got.dims) == set(keep), 'dims', got.dims, case)
    check(close(got.transpose(*keep).values, want), 'relative intensity', case)
    rec.transition(len(p))
    rec.trace(outcome=case['sd'])


CHECK = C12
