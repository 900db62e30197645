"""C18: anomaly metrics use the climatology of each valid time and place."""

import itertools

import numpy as np
import xarray as xr

from mc import core
from mc import metricutil as mu
from mc.xrutil import check, close, fail
from weatherbenchX.metrics import categorical as cat
from weatherbenchX.metrics import deterministic as det

NAN = np.nan
LAT, LON = np.array([-30.0, 60.0]), np.array([10.0, 200.0, 300.0])
# Mostly synoptic hours; others give wrong values to imprecise selections.
HOURS = np.array([0, 5, 6, 7, 12, 13, 18, 23])
VARS = ('a', 'b')
ANOMALY = {'ACC': det.ACC, 'PredictionActivity': det.PredictionActivity}
LAYOUTS = ('init_lead', 'lead_init', 'valid_dim', 'sparse', 'valid_2d')
CLIMS = ('time', 'day', 'day_hour', 'hour_day')
DAY0 = np.datetime64('2019-12-28', 'D')


def times_of(days, hours=HOURS):
  t = (days[:, None].astype('datetime64[h]') +
       hours.astype('timedelta64[h]')[None, :])
  return t.reshape(-1).astype('datetime64[ns]')


def day_of_year(t):
  d = t.astype('datetime64[D]')
  return (d - d.astype('datetime64[Y]').astype('datetime64[D]')).astype(int) + 1


def hour_of(t):
  return (t.astype('datetime64[h]') -
          t.astype('datetime64[D]').astype('datetime64[h]')).astype(int)


def field(kind, t, var, i, j):
  """Climatology value; differs for (almost) all neighbouring times/places."""
  if kind == 'time':
    k = t.astype('datetime64[h]').astype(int) * 7
  elif kind == 'day':
    k = day_of_year(t) * 29
  else:
    k = day_of_year(t) * 29 + hour_of(t) * 5
  return ((k + 13 * i + 17 * j + 101 * VARS.index(var)) % 2003) / 8.0


def climatology(kind, order, labels):
  """order: permutation of dims; labels: order of the time labels."""
  def arrange(x):
    if labels == 'reversed':
      return x[::-1]
    if labels == 'rolled':
      return np.roll(x, len(x) // 3)
    return x

  days = arrange(np.arange(1, 367))
  hours = arrange(HOURS)
  if kind == 'time':
    t = arrange(times_of(np.datetime64('2019-12-20') + np.arange(480)))
    co = {'time': t}
    tt = t
  elif kind == 'day':
    co = {'dayofyear': days}
    tt = np.datetime64('2020-01-01') + (days - 1)
  else:
    co = {'dayofyear': days, 'hour': hours}
    tt = ((np.datetime64('2020-01-01') + (days - 1)).astype('datetime64[h]')
          [:, None] + hours.astype('timedelta64[h]')[None])
  tt = np.asarray(tt).astype('datetime64[ns]')
  co.update(latitude=LAT, longitude=LON)
  dims = list(co)
  out = {}
  for v in VARS:
    x = np.stack([np.stack([field(kind, tt, v, i, j) for j in range(len(LON))],
                           -1) for i in range(len(LAT))], -2)
    out[v] = xr.DataArray(x, dims=dims, coords=co)
  ds = xr.Dataset(out)
  if kind == 'hour_day':
    ds = ds.transpose('hour', 'dayofyear', ...)
  if order is not None:
    ds = ds.transpose(*[dims[i] for i in order])
  return ds


def forecast(layout, inits, leads):
  """(template DataArray of valid times, dims) for a layout."""
  vt = inits[:, None] + leads[None, :]
  if layout in ('init_lead', 'lead_init', 'valid_2d'):
    v = xr.DataArray(vt, dims=('init_time', 'lead_time'),
                     coords={'init_time': inits, 'lead_time': leads})
    if layout == 'lead_init':
      v = v.transpose('lead_time', 'init_time')
  elif layout == 'valid_dim':
    u = np.unique(vt)[::-1]
    v = xr.DataArray(u, dims='valid_time', coords={'valid_time': u})
  else:
    u = np.concatenate([vt.ravel(), vt.ravel()[::-3]])
    v = xr.DataArray(u, dims='index', coords={'index': np.arange(u.size)})
  return v


def values(v, var, salt):
  """Data on the grid or (sparse) at changing places."""
  if v.dims == ('index',):
    n = v.size
    i = j = np.zeros(n, int)  # one place
    x = ((np.arange(n) * 31 + salt + VARS.index(var) * 7) % 97) / 4.0
    return xr.DataArray(x, dims='index', coords=dict(v.coords)), i, j
  x = (np.arange(v.size * 6).reshape(v.shape + (2, 3)) * 31 + salt +
       VARS.index(var) * 7) % 97 / 4.0
  da = xr.DataArray(x, dims=v.dims + ('latitude', 'longitude'),
                    coords={**v.coords, 'latitude': LAT, 'longitude': LON})
  return da, np.arange(2)[:, None], np.arange(3)[None, :]


class C18(core.Check):
  id = 'C18'
  rule = ('all climatology layouts (time / day of year / day of year and hour, '
          'all dimension orders, three label orders) x all forecast layouts '
          'over every day of 2020 with its year ends; every split into chunks '
          'of small sets of times; all value assignments of an alphabet for '
          'ACC and activity; all sorted ensembles x targets x climatological '
          'intervals of an alphabet for the opportunity statistics')
  assumptions = ('the climatology has every requested day, hour or time; '
                 'others are rejected loudly',)

  def cases(self):
    for kind in CLIMS:
      for layout in LAYOUTS:
        for labels in ('sorted', 'reversed', 'rolled'):
          yield {'k': 'align', 'clim': kind, 'layout': layout,
                 'labels': labels, 'order': None}
    for kind in CLIMS:
      n = 4 if 'hour' in kind else 3
      for order in itertools.permutations(range(n)):
        yield {'k': 'align', 'clim': kind, 'layout': 'init_lead',
               'labels': 'rolled', 'order': list(order)}
    for kind in CLIMS:
      for layout in LAYOUTS[:2] + LAYOUTS[3:]:
        yield {'k': 'chunks', 'clim': kind, 'layout': layout}
    for kind in CLIMS:
      yield {'k': 'absent', 'clim': kind}
    for n in (1, 2) + ((3,) if self.thorough else ()):
      for c in range(3):
        yield {'k': 'acc', 'n': n, 'c': c}
    for q in ([0.25, 0.75], [0.0, 1.0], [0.0, 0.5], [0.5, 0.75]):
      for m in (3, 5):
        if m == 3 and (0.25 in q or 0.75 in q):
          continue
        for thr in (0.5, 0.75, 1.0):
          yield {'k': 'interval', 'q': q, 'm': m, 'thr': thr}
    for m in (2, 4):  # interpolated quantiles; exact binary fractions
      for q in ([0.25, 0.75], [0.125, 0.5]):
        yield {'k': 'interval', 'q': q, 'm': m, 'thr': 0.5}
    for flags in itertools.product((True, False), (None, True, False),
                                   (None, True, False)):
      yield {'k': 'opportunism', 'flags': list(flags)}
    for extra in ('targets', 'climatology'):
      yield {'k': 'variables', 'extra': extra}

  def run_case(self, case, rec):
    getattr(self, '_' + case['k'])(case, rec)

  # -- alignment ------------------------------------------------------------
  def _data(self, layout, inits, leads):
    v = forecast(layout, inits, leads)
    p, t = {}, {}
    place = {}
    for var in VARS:
      p[var], i, j = values(v, var, 5)
      t[var], _, _ = values(v, var, 50)
      place[var] = (i, j)
    if layout in ('sparse', 'valid_2d'):
      p = {k: x.assign_coords(valid_time=v.variable) for k, x in p.items()}
      t = {k: x.assign_coords(valid_time=v.variable) for k, x in t.items()}
    if layout == 'sparse':
      for d in (p, t):
        for k in d:
          d[k] = d[k].assign_coords(station=('index', np.arange(v.size) % 5))
    return v, p, t, place

  def _expected(self, kind, v, p, t, place):
    tv = v.values
    out = {}
    for var in VARS:
      i, j = place[var]
      if v.dims == ('index',):
        c = field(kind, tv, var, i, j)
      else:
        c = field(kind, tv[..., None, None], var, i, j)
      a, b = p[var].values - c, t[var].values - c
      out[var] = {'SquaredPredictionAnomaly': a * a,
                  'SquaredTargetAnomaly': b * b, 'AnomalyCovariance': a * b}
    return out

  def _stats(self, clim, p, t):
    out = mu.stats_of(det.ACC(climatology=clim), p, t)
    act = mu.stats_of(det.PredictionActivity(climatology=clim), p, t)
    for var in p:
      if not close(out['SquaredPredictionAnomaly'][var].values,
                   act['SquaredPredictionAnomaly'][var].values):
        fail('ACC and PredictionActivity disagree on the anomaly')
    return out

  def _clim_for(self, layout, clim):
    """Sparse forecasts are of one place."""
    if layout != 'sparse':
      return clim
    return clim.isel(latitude=0, longitude=0, drop=True)

  def _align(self, case, rec):
    kind, layout = case['clim'], case['layout']
    inits = times_of(DAY0 + np.arange(0, 376, 1 if self.thorough else 3),
                     np.array([0, 18]))
    leads = (np.array([0, 5, 6, 12, 24 * 31 + 13]) * 3600 * 10**9).astype(
        'timedelta64[ns]')
    if layout == 'sparse':
      inits = inits[::5]
    clim = climatology(kind, case['order'], case['labels'])
    v, p, t, place = self._data(layout, inits, leads)
    cl = self._clim_for(layout, clim)
    got = self._stats(cl, p, t)
    want = self._expected(kind, v, p, t, place)
    rec.transition(2)
    for var in VARS:
      for name, w in want[var].items():
        g = got[name][var]
        check(set(g.dims) == set(p[var].dims),
              f'{name} has dims {g.dims}, predictions {p[var].dims}')
        for d in g.dims:
          if d in p[var].indexes:
            check(np.array_equal(g[d].values, p[var][d].values),
                  f'labels of {d} changed')
        x = g.transpose(*p[var].dims).values
        if not close(x, w, 1e-9, 1e-9):
          bad = np.argwhere(~np.isclose(x, w, 1e-9, 1e-9))[0]
          fail(f'{name} of {var} at {bad.tolist()} of {p[var].dims} is '
               f'{x[tuple(bad)]}, expected {w[tuple(bad)]}',
               f'{len(np.argwhere(~np.isclose(x, w)))} of {w.size} differ')
        rec.nodes += w.size
        rec.trace(w.size)
    rec.outcome((kind, layout, float(np.sum(want['a']['AnomalyCovariance']))))

  def _chunks(self, case, rec):
    kind, layout = case['clim'], case['layout']
    inits = np.array(['2019-12-31T18', '2020-02-28T12', '2020-02-29T06',
                      '2020-12-31T00'], 'datetime64[ns]')
    leads = (np.array([0, 6, 36]) * 3600 * 10**9).astype('timedelta64[ns]')
    clim = climatology(kind, None, 'sorted')
    v, p, t, place = self._data(layout, inits, leads)
    cl = self._clim_for(layout, clim)
    metrics = {n: f(climatology=cl) for n, f in ANOMALY.items()}
    dim0 = {'sparse': 'index'}.get(layout, 'init_time')
    dims = ['index'] if layout == 'sparse' else ['init_time', 'latitude',
                                                 'longitude']
    if layout == 'sparse':
      pick = [0, 3, 5, 8, 10]
      p = {k: x.isel(index=pick) for k, x in p.items()}
      t = {k: x.isel(index=pick) for k, x in t.items()}
    whole = mu.value(metrics, p, t, dims)
    want = self._expected(kind, v if layout != 'sparse' else v.isel(index=pick),
                          p, t, {k: (i[pick], j[pick]) if layout == 'sparse'
                                 else (i, j) for k, (i, j) in place.items()})
    for var in VARS:
      ax = tuple(p[var].dims.index(d) for d in dims)
      m = {k: x.mean(axis=ax) for k, x in want[var].items()}
      acc = m['AnomalyCovariance'] / np.sqrt(
          m['SquaredPredictionAnomaly'] * m['SquaredTargetAnomaly'])
      rest = [d for d in p[var].dims if d not in dims]
      check(close(whole[f'ACC.{var}'].transpose(*rest).values, acc),
            f'ACC of {var}: {whole[f"ACC.{var}"].values}, expected {acc}')
      check(close(
          whole[f'PredictionActivity.{var}'].transpose(*rest).values,
          np.sqrt(m['SquaredPredictionAnomaly'])), f'activity of {var}')
    n = p['a'].sizes[dim0]
    for cuts in mu.compositions(n):
      # the same objects as before, possibly reused between chunks
      got = mu.chunked(metrics, p, t, dims, dim0, cuts)
      for k in whole.data_vars:
        check(close(got[k].transpose(*whole[k].dims).values, whole[k].values),
              f'{k} depends on the chunks {cuts}')
      rec.nodes += 1
      rec.transition(len(cuts))
      rec.trace(1)
    rec.outcome((kind, layout, repr(whole['ACC.a'].values)))

  def _absent(self, case, rec):
    """Times without climatology must not silently use another one."""
    kind = case['clim']
    full = climatology(kind, None, 'sorted')
    inits = np.array(['2020-02-28T18', '2020-12-30T12'], 'datetime64[ns]')
    leads = (np.array([0, 6, 36]) * 3600 * 10**9).astype('timedelta64[ns]')
    v, p, t, _ = self._data('init_lead', inits, leads)
    labels = {'time': [('time', x) for x in np.unique(v.values)],
              'day': [('dayofyear', d) for d in np.unique(
                  day_of_year(v.values))]}.get(
                      kind, [('dayofyear', 59), ('dayofyear', 366),
                             ('hour', 0), ('hour', 18)])
    need = [(d, x) for d, x in labels]
    for d, x in need:
      cl = full.sel({d: full[d].values[full[d].values != x]})
      used = (d == 'time' or x in (day_of_year(v.values) if d == 'dayofyear'
                                   else hour_of(v.values)))
      try:
        self._stats(cl, p, t)
        ok = False
      except Exception:  # pylint: disable=broad-except
        ok = True
      check(ok == bool(used), f'climatology without {d}={x}: '
            f'{"rejected" if ok else "silently accepted"}')
      rec.nodes += 1
      rec.transition()
      rec.trace(1, (d, str(x), ok))

  # -- values ---------------------------------------------------------------
  def _acc(self, case, rec):
    n = case['n']
    al = [-2.0, 0.0, 1.5, NAN]
    clim_vals = [0.0, 1.5, -7.0][case['c']]
    x = mu.all_assignments(al, 2 * n)
    k = x.shape[0]
    days = np.array(['2020-02-29', '2020-12-31', '2021-01-01'],
                    'datetime64[ns]')[:n]
    clim = np.zeros((366, k)) + 1000
    for i, d in enumerate(day_of_year(days)):
      clim[d - 1] = clim_vals + i
    if n > 1:
      clim[day_of_year(days)[1] - 1, 0] = NAN
    cl = xr.Dataset({'a': (('dayofyear', 'case'), clim)},
                    coords={'dayofyear': np.arange(1, 367)})
    def arr(v):
      return {'a': xr.DataArray(
          v[:, :, None], dims=('case', 'init_time', 'lead_time'),
          coords={'init_time': days, 'lead_time': np.array(
              [0], 'timedelta64[ns]')})}
    p, t = x[:, :n], x[:, n:]
    c = clim[day_of_year(days) - 1].T
    pa, ta = p - c, t - c
    with np.errstate(all='ignore'):
      act = np.sqrt(np.mean(pa * pa, 1))
      acc = np.mean(pa * ta, 1) / (act * np.sqrt(np.mean(ta * ta, 1)))
    got = mu.value({m: f(climatology=cl) for m, f in ANOMALY.items()}, arr(p),
                   arr(t), ['init_time', 'lead_time'])
    for name, w in (('ACC', acc), ('PredictionActivity', act)):
      g = got[f'{name}.a'].values
      if not close(g, w, 1e-9, 1e-9):
        b = np.argwhere(~np.isclose(g, w, equal_nan=True))[0, 0]
        fail(f'{name} of p={p[b]} t={t[b]} c={c[b]}: {g[b]}, expected {w[b]}')
    rec.nodes += k
    rec.transition(k)
    rec.trace(k, (n, case['c'], float(np.nansum(acc))))

  def _quantile(self, x, q):
    """Linear interpolation of the sorted values (last axis)."""
    s = np.sort(x, -1)
    pos = q * (s.shape[-1] - 1)
    lo = int(np.floor(pos))
    hi = min(lo + 1, s.shape[-1] - 1)
    w = pos - lo
    out = s[..., lo] * (1 - w) + s[..., hi] * w if w else s[..., lo]
    return np.where(np.isnan(x).any(-1), NAN, out)

  def _reference(self, ens, t, lo, hi, q, thr):
    """(confident, covered, distant) as floats with NaN for missing inputs."""
    pl, ph = self._quantile(ens, q[0]), self._quantile(ens, q[1])
    conf = np.where(ph - pl < thr * (hi - lo), 1.0, 0.0)
    conf[np.isnan(pl) | np.isnan(ph) | np.isnan(lo) | np.isnan(hi)] = NAN
    cov = np.where((pl <= t) & (t <= ph), 1.0, 0.0)
    cov[np.isnan(pl) | np.isnan(t)] = NAN
    inter = np.maximum(0, np.minimum(ph, hi) - np.maximum(pl, lo))
    union = (ph - pl) + (hi - lo) - inter
    with np.errstate(all='ignore'):
      # two single points: the same point, or disjoint
      dist = np.where(union > 0, 1 - inter / union, np.where(pl == lo, 0, 1))
    jac = np.where(dist > thr, 1.0, 0.0)
    jac[np.isnan(pl) | np.isnan(lo) | np.isnan(hi)] = NAN
    return conf, cov, jac

  def _sites(self, m):
    al = [0.0, 1.0, 2.0, 4.0]
    ens = np.array(list(itertools.combinations_with_replacement(al, m)) + [
        (NAN,) + (1.0,) * (m - 1)])
    # a fixed member shuffle per ensemble, so that members are not sorted
    for r in range(len(ens)):
      ens[r] = np.roll(ens[r], r % m)[::(-1 if r % 2 else 1)]
    iv = list(itertools.combinations_with_replacement(al + [8.0], 2)) + [
        (NAN, 1.0)]
    tg = al + [0.5, 3.0, NAN]
    grid = list(itertools.product(range(len(ens)), iv, tg))
    e = ens[[g[0] for g in grid]]
    lo = np.array([g[1][0] for g in grid])
    hi = np.array([g[1][1] for g in grid])
    lo = np.where(np.isnan(hi), NAN, lo)
    t = np.array([g[2] for g in grid])
    return e, lo, hi, t

  def _arrays(self, e, lo, hi, t, q):
    day = np.array(['2020-12-31'], 'datetime64[ns]')
    lead = np.array([0], 'timedelta64[ns]')
    n, m = e.shape
    co = {'init_time': day, 'lead_time': lead}
    p = xr.DataArray(e.reshape(1, 1, n, m),
                     dims=('init_time', 'lead_time', 'site', 'member'),
                     coords=co)
    tt = xr.DataArray(t.reshape(1, 1, n), dims=p.dims[:3], coords=co)
    # more quantiles than needed, unsorted, different values at other days
    qs = sorted(set([0.9, 0.3] + q), reverse=True)
    c = np.full((3, len(qs), n), 55.0)
    c[1, qs.index(q[0])] = lo
    c[1, qs.index(q[1])] = hi
    cl = xr.DataArray(c, dims=('dayofyear', 'quantile', 'site'),
                      coords={'dayofyear': [365, 366, 1], 'quantile': qs})
    return {'a': p}, {'a': tt}, xr.Dataset({'a': cl})

  def _interval(self, case, rec):
    q, m, thr = case['q'], case['m'], case['thr']
    e, lo, hi, t = self._sites(m)
    p, tt, cl = self._arrays(e, lo, hi, t, q)
    want = self._reference(e, t, lo, hi, q, thr)
    fs = {
        'Confident': cat.Confident('member', cl, tuple(q), thr),
        'Covered': cat.Covered('member', tuple(q)),
        'JaccardDistant': cat.JaccardDistant('member', cl, thr, tuple(q))}
    for (name, f), w in zip(fs.items(), want):
      g = next(iter(mu.stats_of(f, p, tt).values()))['a']
      g = g.transpose('init_time', 'lead_time', 'site').values[0, 0]
      if not close(np.asarray(g, float), w):
        b = np.argwhere(~np.isclose(np.asarray(g, float), w, equal_nan=True)
                        )[0, 0]
        fail(f'{name} q={q} thr={thr} of ensemble {e[b]} target {t[b]} '
             f'climatology [{lo[b]}, {hi[b]}]: {g[b]}, expected {w[b]}')
      rec.nodes += len(w)
      rec.transition(len(w))
      rec.trace(len(w), (name, float(np.nansum(w))))

  def _opportunism(self, case, rec):
    conf, cov, jac = case['flags']
    qs = ([0.25, 0.75], [0.0, 1.0], [0.0, 0.5])
    for perm in itertools.permutations(range(3)):
      qc, qv, qj = [qs[i] for i in perm]
      e, lo, hi, t = self._sites(5)
      keep = ~(np.isnan(e).any(1) | np.isnan(t) | np.isnan(lo))
      e, lo, hi, t = e[keep][::3], lo[keep][::3], hi[keep][::3], t[keep][::3]
      p, tt, cl = self._arrays(e, lo, hi, t, qc)
      # one climatology serves both: three quantile pairs of an interval
      levels = sorted(set(qc + qj))
      vals = {x: lo + (hi - lo) * x for x in levels}
      c = np.stack([vals[x] for x in levels])[None]
      cl = xr.Dataset({'a': xr.DataArray(
          c, dims=('dayofyear', 'quantile', 'site'),
          coords={'dayofyear': [366], 'quantile': levels})})
      n = len(t)
      group = np.arange(n) % 7
      a = self._reference(e, t, vals[qc[0]], vals[qc[1]], qc, 0.75)[0]
      b = self._reference(e, t, vals[qc[0]], vals[qc[1]], qv, 0.75)[1]
      d = self._reference(e, t, vals[qj[0]], vals[qj[1]], qj, 0.5)[2]
      for sel in [slice(None)] + [np.flatnonzero(group == g) for g in range(7)]:
        ps = {k: v.isel(site=sel) for k, v in p.items()}
        ts = {k: v.isel(site=sel) for k, v in tt.items()}
        cls = cl.isel(site=sel)
        mm = cat.Opportunism(
            'member', cls, conf, is_covered=cov, is_jaccard_distant=jac,
            confidence_quantile_boundaries=tuple(qc),
            coverage_quantile_boundaries=tuple(qv),
            jaccard_distance_quantile_boundaries=tuple(qj),
            confidence_threshold=0.75, jaccard_distance_threshold=0.5)
        got = mu.value(mm, ps, ts, ['init_time', 'lead_time', 'site'])
        w = a[sel].mean() if conf else 1 - a[sel].mean()
        if cov is not None:
          w *= b[sel].mean() if cov else 1 - b[sel].mean()
        if jac is not None:
          w *= d[sel].mean() if jac else 1 - d[sel].mean()
        g = float(got['m.a'])
        check(close(g, w, 1e-5, 1e-6), f'Opportunism {case["flags"]} q={qs}: '
              f'{g}, expected {w}')
        rec.nodes += 1
        rec.transition()
        rec.trace(1, round(w, 6))

  def _variables(self, case, rec):
    """Variables of the climatology that are not forecast play no role."""
    kind = 'day_hour'
    full = climatology(kind, None, 'sorted')
    inits = np.array(['2020-02-28T18', '2020-12-30T12'], 'datetime64[ns]')
    leads = (np.array([0, 6, 36]) * 3600 * 10**9).astype('timedelta64[ns]')
    v, p, t, place = self._data('init_lead', inits, leads)
    want = self._expected(kind, v, p, t, place)
    extra = case['extra']
    for drop, order, cont in itertools.product(
        ('a', 'b', None), (1, -1), ('dict', 'rdict', 'ds')):
      pp = {k: x for k, x in p.items() if k != drop}
      tt = {k: x for k, x in t.items() if k != drop}
      cl = full[list(full.data_vars)[::order]]
      if extra == 'climatology':
        cl = cl.assign(c=full['a'] * 0 + 99)
      else:
        cl = cl[list(pp)]
      got = self._stats(cl, mu.as_container(pp, cont), mu.as_container(tt, cont))
      for name, d in got.items():
        check(set(d) == set(pp), f'{name}: variables {set(d)}, not {set(pp)}')
        for k in pp:
          check(close(d[k].transpose(*p[k].dims).values, want[k][name]),
                f'{name} of {k} with variables {list(pp)}')
      rec.nodes += 1
      rec.transition(len(got))
      rec.trace(1, (drop, order, cont))


CHECK = C18
