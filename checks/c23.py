"""C23: interpolations return the documented values at the requested points."""

import itertools

import numpy as np
import xarray as xr

from mc import core
from mc.xrutil import check, close, fail, same_da
from weatherbenchX import interpolations as I

NAN = np.nan
LATS = {'reg': [-60.0, 0.0, 60.0], 'irr': [-80.0, -10.0, 30.0, 90.0],
        'two': [-30.0, 30.0]}
LONS = {'reg': [0.0, 90.0, 180.0, 270.0], 'irr': [10.0, 50.0, 200.0, 355.0],
        'neg': [-180.0, -90.0, 0.0, 90.0], 'two': [20.0, 180.0],
        'one': [100.0]}


def points(xs, lo, hi, ties):
  """Grid points, points in between, and points beyond the ends."""
  xs = sorted(xs)
  out = list(xs)
  for a, b in zip(xs[:-1], xs[1:]):
    out += [a + 0.25 * (b - a), a + 0.875 * (b - a)]
    if ties:
      out.append((a + b) / 2)
  for e in (lo, hi):
    if e is not None:
      out.append(e)
  return np.array(out)


def weights(xs, ps, method, extrap):
  """(p, n) weights on ascending xs; rows of NaN outside the domain.

  Also returns the set of support points that bracket each p.
  """
  xs = np.asarray(xs, float)
  W = np.zeros((len(ps), len(xs)))
  B = np.zeros(W.shape, bool)
  for i, p in enumerate(ps):
    if (p < xs[0] or p > xs[-1]) and not extrap:
      W[i] = NAN
      continue
    if method == 'nearest':
      d = np.abs(xs - p)
      j = int(np.argmin(d))
      assert (d == d[j]).sum() == 1, 'tie'
      W[i, j] = 1
      B[i, j] = True
    else:
      j = int(np.clip(np.searchsorted(xs, p) - 1, 0, len(xs) - 2))
      t = (p - xs[j]) / (xs[j + 1] - xs[j])
      W[i, j], W[i, j + 1] = 1 - t, t
      B[i, max(j - 1, 0):j + 3] = True
  return W, B


def axis_weights(xs, ps, method, wrap, extrap):
  """Weights on the original order xs (periodic if wrap)."""
  order = np.argsort(xs)
  s = np.asarray(xs, float)[order]
  src = order
  if wrap:
    s = np.concatenate([[s[-1] - 360], s, [s[0] + 360]])
    src = np.concatenate([[order[-1]], order, [order[0]]])
  W, B = weights(s, ps, method, extrap)
  out = np.zeros((len(ps), len(xs)))
  ob = np.zeros(out.shape, bool)
  for k, j in enumerate(src):
    out[:, j] += W[:, k]
    ob[:, j] |= B[:, k]
  return out, ob


def lon_orders(n, full):
  base = list(range(n))
  if full:
    return list(itertools.permutations(base))
  out = {tuple(base), tuple(base[::-1])}
  for k in range(1, n):
    out.add(tuple(base[k:] + base[:k]))
  if n == 4:
    out.add((2, 0, 3, 1))
  return sorted(out)


def grid(lats, lons, stack=None, name='v', dtype=float):
  """All unit impulses on the grid: (case, latitude, longitude)."""
  k = len(lats) * len(lons)
  x = np.eye(k).reshape(k, len(lats), len(lons)) if stack is None else stack
  return xr.DataArray(x.astype(dtype), dims=['case', 'latitude', 'longitude'],
                      coords={'latitude': lats, 'longitude': lons}, name=name)


def sparse_ref(pla, plo, **coords):
  c = {'latitude': ('index', np.asarray(pla, float)),
       'longitude': ('index', np.asarray(plo, float))}
  for k, v in coords.items():
    c[k] = ('index', np.asarray(v))
  return xr.DataArray(np.zeros(len(pla)), dims=['index'], coords=c, name='v')


class C23(core.Check):
  id = 'C23'
  rule = ('all unit impulses (interpolation is linear in the data) and single '
          'missing values on small grids in many orders, all points of a lattice '
          'in and around the domain, both methods, all ways to request points, '
          'wrapping and extrapolation options; all boxes, strides and chains of '
          'an alphabet; all elevation differences around the regime limits')
  assumptions = ('linear interpolation needs two grid points per dimension; with '
                 'wrapping, requested longitudes lie between the last source '
                 'longitude minus 360 and the first plus 360; midpoints may take '
                 'either neighbour; box edges in longitude may or may not '
                 'include points exactly on the edge')

  def cases(self):
    full = self.thorough
    for la, lo in itertools.product(LATS, LONS):
      for order in lon_orders(len(LONS[lo]), full):
        for method in ('linear', 'nearest'):
          for wrap in (False, True):
            if lo == 'one' and not wrap:
              continue
            yield dict(kind='grid', la=la, lo=lo, order=order, method=method,
                       wrap=wrap)
    for method in ('linear', 'nearest'):
      for ext in (True, False):
        yield dict(kind='level', method=method, ext=ext)
        for dims in (None, 'latlon'):
          yield dict(kind='times', method=method, ext=ext, dims=dims)
    yield dict(kind='ties')
    for d in (1, -1):
      for d2 in (1, -1):
        yield dict(kind='clip', src=d, ref=d2)
    for n in ('empty', 'emptylead'):
      for alt in (False, True):
        yield dict(kind='empty', n=n, alt=alt)
    for v in ('2m_temperature', '10m_wind_speed', 'other'):
      for mx in (None, 1500, 500, 150):
        yield dict(kind='altitude', v=v, mx=mx)
    for la in (1, -1):
      for ro in range(4):
        yield dict(kind='crop', la=la, ro=ro)
    for s in range(-1, 8):
      yield dict(kind='subsample', s=s)
    k = 3 if full else 2
    for n in range(k + 1):
      for combo in itertools.product(range(6), repeat=n):
        yield dict(kind='chain', combo=combo)

  def run_case(self, case, rec):
    getattr(self, 'k_' + case['kind'])(case, rec)

  # ---- values at points ----------------------------------------------------
  def k_grid(self, case, rec):
    lats, method, wrap = LATS[case['la']], case['method'], case['wrap']
    lons0 = LONS[case['lo']]
    lons = [lons0[i] for i in case['order']]
    s = sorted(lons)
    if wrap:
      ext = sorted([s[-1] - 360] + s + [s[0] + 360])
      plo = points(ext, None, None, method == 'linear')
    else:
      plo = points(s, s[0] - 7, s[-1] + 11, method == 'linear')
    pla = points(lats, min(lats) - 5, max(lats) + 3, method == 'linear')
    if method == 'nearest':
      plo = np.array([p for p in plo if not self.tie(ext if wrap else s, p)])
      pla = np.array([p for p in pla if not self.tie(lats, p)])
    # not in ascending order
    pla, plo = np.roll(pla[::-1], 1), np.roll(plo, 2)
    for flip in (False, True):
      la = lats[::-1] if flip else lats
      imp = grid(la, lons)
      k = imp.sizes['case']
      nan = grid(la, lons, np.where(imp.values == 1, NAN, 1.0 + np.arange(
          k).reshape(1, len(la), len(lons))))
      for ext_ in (True, False):
        Wa, Ba = axis_weights(la, pla, method, False, ext_)
        Wo, Bo = axis_weights(lons, plo, method, wrap, ext_)
        gla, glo = np.meshgrid(pla, plo, indexing='ij')
        ref_g = xr.DataArray(np.zeros((len(pla), len(plo))),
                             dims=['latitude', 'longitude'],
                             coords={'latitude': pla, 'longitude': plo})
        ref_s = sparse_ref(gla.ravel(), glo.ravel())
        oob = (np.isnan(Wa).any(1)[:, None] | np.isnan(Wo).any(1)[None])
        modes = {
            'fixed': I.InterpolateToFixedCoords(
                method, {'latitude': pla, 'longitude': plo}, wrap, ext_),
            'fixed_da': I.InterpolateToFixedCoords(
                method, {'longitude': xr.DataArray(plo, dims='longitude'),
                         'latitude': xr.DataArray(pla, dims='latitude')},
                wrap, ext_),
            'grid': I.InterpolateToReferenceCoords(
                method, wrap_longitude=wrap, extrapolate_out_of_bounds=ext_),
            'grid_dims': I.InterpolateToReferenceCoords(
                method, ['longitude', 'latitude'], wrap,
                extrapolate_out_of_bounds=ext_),
            'sparse': I.InterpolateToReferenceCoords(
                method, wrap_longitude=wrap, extrapolate_out_of_bounds=ext_),
        }
        for mode, itp in modes.items():
          r = None
          if mode.startswith('grid'):
            r = {'v': ref_g}
          elif mode == 'sparse':
            r = {'v': ref_s}
          for what, src in (('impulse', imp), ('nan', nan)):
            if what == 'nan' and mode in ('fixed_da', 'grid_dims'):
              continue
            got = itp.interpolate({'v': src}, r)['v']
            rec.transition(k)
            if mode == 'sparse':
              check(set(got.dims) == {'case', 'index'}, 'dims', got.dims)
              check(close(got.latitude.values, gla.ravel())
                    and close(got.longitude.values, glo.ravel()), 'labels')
              g = got.transpose('case', 'index').values.reshape(
                  k, len(pla), len(plo))
            else:
              check(set(got.dims) == {'case', 'latitude', 'longitude'}, 'dims',
                    got.dims)
              check(close(got.latitude.values, pla)
                    and close(got.longitude.values, plo), 'labels')
              g = got.transpose('case', 'latitude', 'longitude').values
            if what == 'impulse':
              W = np.einsum('ia,jb->abij', Wa, Wo).reshape(k, len(pla), len(plo))
              w = np.where(oob[None], NAN, W)
              check(close(g, w), f'{mode} ext={ext_} flip={flip} {case}',
                    *self.diff(g, w, pla, plo))
            else:
              Wc = np.einsum('ia,jb->abij', np.nan_to_num(Wa),
                             np.nan_to_num(Wo)).reshape(k, len(pla), len(plo))
              touch = np.einsum('ia,jb->abij', Ba, Bo).reshape(
                  k, len(pla), len(plo)).astype(bool)
              val = 1.0 + np.arange(k)
              full = np.einsum('kij,k->ij', Wc, val)
              w = np.where(oob, NAN, full)[None] + 0 * Wc
              must_nan = (np.abs(Wc) > 1e-9) | oob[None]
              must_val = ~touch & ~oob[None]
              check(np.isnan(g[must_nan]).all(),
                    f'missing value ignored {mode} {case}')
              check(close(g[must_val], w[must_val]),
                    f'missing value spread {mode} {case}')
        if not ext_ or flip:
          continue
        # single dimensions
        for dim, ps, W in (('latitude', pla, Wa), ('longitude', plo, Wo)):
          itp = I.InterpolateToFixedCoords(
              method, {dim: ps}, wrap and dim == 'longitude', True)
          g = itp.interpolate({'v': imp.astype('f4')})['v'].transpose(
              'case', 'latitude', 'longitude').values
          e = ('ia,kab->kib' if dim == 'latitude' else 'jb,kab->kaj')
          w = np.einsum(e, W, imp.values)
          rec.transition(k)
          check(close(g, w, atol=1e-5), f'only {dim} {case}')
    rec.trace(outcome=str(case))
    rec.state(str(case))

  def tie(self, xs, p):
    d = np.sort(np.abs(np.asarray(xs) - p))
    return len(d) > 1 and d[0] == d[1]

  def diff(self, g, w, pla, plo):
    bad = np.argwhere(~np.isclose(g, w, equal_nan=True, atol=1e-6))
    if not len(bad):
      return ()
    k, i, j = bad[0]
    return (f'impulse {k} at lat {pla[i]} lon {plo[j]}: got {g[k, i, j]}, '
            f'expected {w[k, i, j]}; {len(bad)} differences',)

  def k_ties(self, case, rec):
    """Half-way points take one of the two neighbours."""
    da = grid(LATS['reg'], LONS['reg'])
    for p, nb in ((45.0, (0, 1)), (315.0, (3, 0)), (-45.0, (3, 0))):
      got = I.InterpolateToFixedCoords('nearest', {'longitude': np.array([p])},
                                       True).interpolate({'v': da})['v']
      rec.transition()
      g = got.isel(longitude=0).transpose('case', 'latitude').values
      check(any(close(g, da.values[:, :, n]) for n in nb), f'tie at {p}')
    rec.trace(outcome='ties')

  def k_level(self, case, rec):
    lev = [1000.0, 850.0, 500.0]
    x = xr.DataArray(np.eye(3), dims=['case', 'level'], coords={'level': lev},
                     name='v')
    ps = np.array([500.0, 850.0, 1000.0, 900.0, 550.0, 1100.0, 400.0])
    W, _ = axis_weights(lev, ps, case['method'], False, case['ext'])
    for r in (0, 1):
      if r:
        ref = xr.DataArray(np.zeros(len(ps)), dims=['level'],
                           coords={'level': ps})
        got = I.InterpolateToReferenceCoords(
            case['method'], extrapolate_out_of_bounds=case['ext']).interpolate(
                {'v': x}, {'v': ref})['v']
      else:
        got = I.InterpolateToFixedCoords(
            case['method'], {'level': ps},
            extrapolate_out_of_bounds=case['ext']).interpolate({'v': x})['v']
      rec.transition()
      check(close(got.transpose('case', 'level').values, W.T), f'level {case}')
    rec.trace(outcome=str(case))

  def k_times(self, case, rec):
    """Sparse references pick their own init and lead times."""
    it = np.array(['2020-01-01', '2020-01-02', '2020-01-04'], 'datetime64[ns]')
    lt = np.array([0, 6, 24], 'timedelta64[h]').astype('timedelta64[ns]')
    lat, lon = LATS['reg'], LONS['reg']
    if case['dims'] is None:
      shape = (3, 3, 3, 4)
      da = xr.DataArray(np.arange(np.prod(shape), dtype=float).reshape(shape)**1.5,
                        dims=['init_time', 'lead_time', 'latitude', 'longitude'],
                        coords={'init_time': it, 'lead_time': lt,
                                'latitude': lat, 'longitude': lon}, name='v')
    else:
      da = xr.DataArray(np.arange(36, dtype=float).reshape(3, 3, 4)**1.5,
                        dims=['number', 'latitude', 'longitude'],
                        coords={'latitude': lat, 'longitude': lon}, name='v')
    pts = [(-60.0, 0.0), (-45.0, 22.5), (0.0, 270.0), (52.5, 67.5)]
    obs = list(itertools.product(range(3), range(3), range(4)))
    # every cyclic rotation and reversal of the observations
    for rot in (0, 5, 17):
      o = obs[rot:] + obs[:rot]
      for oo in (o, o[::-1], o[:1], o + o[:3]):
        ref = sparse_ref([pts[k][0] for *_, k in oo], [pts[k][1] for *_, k in oo],
                         init_time=[it[i] for i, *_ in oo],
                         lead_time=[lt[j] for _, j, _ in oo])
        itp = I.InterpolateToReferenceCoords(
            case['method'],
            None if case['dims'] is None else ['latitude', 'longitude'],
            extrapolate_out_of_bounds=case['ext'])
        got = itp.interpolate({'v': da}, {'v': ref})['v']
        rec.transition()
        Wa, _ = axis_weights(lat, [p[0] for p in pts], case['method'], False, True)
        Wo, _ = axis_weights(lon, [p[1] for p in pts], case['method'], False, True)
        if case['dims'] is None:
          want = np.array([Wa[k] @ da.values[i, j] @ Wo[k] for i, j, k in oo])
          check(got.dims == ('index',), 'dims', got.dims)
          g = got.values
        else:
          want = np.array([[Wa[k] @ da.values[m] @ Wo[k] for *_, k in oo]
                           for m in range(3)])
          g = got.transpose('number', 'index').values
        check(close(g, want), f'{case}', g, want)
        for c in ('init_time', 'lead_time', 'latitude', 'longitude'):
          check(close(got[c].values, ref[c].values), f'labels {c}')
    rec.trace(outcome=str(case))
    rec.state(str(case))

  def k_clip(self, case, rec):
    lat, lon = LATS['reg'][::case['src']], LONS['reg']
    da = grid(lat, lon)
    alph = (-90.0, -60.0, -20.0, 60.0, 61.0)
    for k in range(1, 6):
      for sub in itertools.combinations(alph, k):
        for clo in (None, ['latitude'], ('latitude', 'longitude'), []):
          rl = list(sub)[::case['ref']]
          rlon = [-10.0, 5.0, 270.0, 275.0]
          ref = xr.DataArray(np.zeros((k, 4)), dims=['latitude', 'longitude'],
                             coords={'latitude': rl, 'longitude': rlon})
          got = I.InterpolateToReferenceCoords(
              'linear', clip_reference_coords=clo,
              extrapolate_out_of_bounds=False).interpolate({'v': da}, {'v': ref})
          got = got['v']
          rec.transition()
          el = [x for x in rl if -60 <= x <= 60] if clo else rl
          eo = [x for x in rlon if 0 <= x <= 270] if clo and len(clo) > 1 else rlon
          check(close(got.latitude.values, el) and close(got.longitude.values, eo),
                f'clipped labels {case} {sub} {clo}', got.latitude.values, el)
          if el:
            Wa, _ = axis_weights(lat, el, 'linear', False, False)
            Wo, _ = axis_weights(lon, eo, 'linear', False, False)
            w = np.einsum('ia,jb->abij', Wa, Wo).reshape(12, len(el), len(eo))
            w = np.where(np.isnan(Wa).any(1)[:, None] | np.isnan(Wo).any(1)[None],
                         NAN, w)
            check(close(got.transpose('case', 'latitude', 'longitude').values, w),
                  f'clipped values {case} {sub} {clo}')
    rec.trace(outcome=str(case))

  def k_empty(self, case, rec):
    names = ('2m_temperature', '10m_wind_speed', 'x')
    lat, lon = LATS['reg'], LONS['reg']
    ref = sparse_ref([], [], elevation=np.array([], float))
    if case['n'] == 'emptylead':
      ref = ref.assign_coords(
          init_time=('index', np.array([], 'datetime64[ns]')))
    ds, rs = {}, {}
    for n in names:
      ds[n] = xr.DataArray(np.ones((2, 3, 4)), name=n,
                           dims=['number', 'latitude', 'longitude'],
                           coords={'latitude': lat, 'longitude': lon,
                                   'number': [3, 5]})
      rs[n] = ref.rename(n)
    if case['alt']:
      el = xr.DataArray(np.ones((3, 4)), dims=['latitude', 'longitude'],
                        coords={'latitude': lat, 'longitude': lon})
      itp = I.GridToSparseWithAltitudeAdjustment('linear', el)
    else:
      itp = I.InterpolateToReferenceCoords('linear')
    got = itp.interpolate(ds, rs)
    rec.transition(3)
    check(set(got) == set(names), 'names')
    for n in names:
      check(set(got[n].dims) == {'index', 'number'} and got[n].size == 0
            and got[n].sizes['number'] == 2
            and close(got[n]['number'].values, [3, 5]), f'empty {n}',
            got[n].dims, got[n].shape)
    rec.trace(outcome=str(case))

  def k_altitude(self, case, rec):
    v, mx = case['v'], case['mx']
    lat, lon = [-60.0, 0.0, 60.0], [0.0, 90.0]
    elev = np.array([[0.0, 400.0], [100.0, 300.0], [800.0, 0.0]])
    diffs = [0, 1, -1, 50, 99, 100, 101, 149, 150, 151, 400, 499, 500, 501, 1099,
             1100, 1101, 1499, 1500, 1501, 3000, -99, -100, -101, -150, -149,
             -499, -500, -1100, -1499, -1500, -1501]
    pts = [(-60.0, 0.0), (0.0, 90.0), (-30.0, 45.0), (45.0, 22.5)]
    field = np.array([[280.0, 290.0], [300.0, 270.0], [260.0, 250.0]])
    kw = {} if mx is None else dict(max_alititude_diff_in_m=mx)
    lim = 1500 if mx is None else mx
    for so in (1, -1):
      el = xr.DataArray(elev, dims=['latitude', 'longitude'],
                        coords={'latitude': lat, 'longitude': lon})
      da = xr.DataArray(np.stack([field, field * 2]), name=v,
                        dims=['number', 'latitude', 'longitude'],
                        coords={'latitude': lat, 'longitude': lon})
      da = da.isel(latitude=slice(None, None, so))
      for eo in (1, -1):
        e2 = el.isel(latitude=slice(None, None, eo))
        itp = I.GridToSparseWithAltitudeAdjustment('linear', e2, **kw)
        Wa, _ = axis_weights(lat, [p[0] for p in pts], 'linear', False, True)
        Wo, _ = axis_weights(lon, [p[1] for p in pts], 'linear', False, True)
        gp = [(n, d) for n in range(len(pts)) for d in diffs]
        ge = np.array([Wa[n] @ elev @ Wo[n] for n, _ in gp])
        gv = np.array([Wa[n] @ field @ Wo[n] for n, _ in gp])
        dd = np.array([d for _, d in gp], float)
        refs = [(sparse_ref([pts[n][0] for n, _ in gp],
                            [pts[n][1] for n, _ in gp], elevation=ge + dd),
                 gv, dd)]
        for ref, gv, dd in refs:
          use = np.where(np.abs(dd) < lim, dd, 0.0)
          if v == '2m_temperature':
            want = [gv - 0.0065 * use, 2 * gv - 0.0065 * use]
          elif v == '10m_wind_speed':
            f = np.where(use < 100, 1.0,
                         np.where(use < 1100, 1 + 0.002 * (use - 100), 3.0))
            want = [gv * f, 2 * gv * f]
          else:
            want = [gv, 2 * gv]
          got = itp.interpolate({v: da}, {v: ref})[v]
          rec.transition(dd.size)
          g = got.transpose('number', *ref.dims).values
          # differences next to a limit are exact up to rounding
          near = np.isclose(np.abs(dd), lim, atol=1e-6)
          w = np.stack(want)
          check(close(g[:, ~near], w[:, ~near], rtol=1e-9), f'{case}', g, w)
          rec.trace(dd.size, outcome=f'{v}{lim}')
    rec.state(str(case))

  # ---- cropping, subsampling, chains ---------------------------------------
  def k_crop(self, case, rec):
    lat = [-60.0, -20.0, 20.0, 60.0][::case['la']]
    lon = [0.0, 90.0, 180.0, 270.0]
    lon = lon[case['ro']:] + lon[:case['ro']]
    da = xr.DataArray(np.arange(32.0).reshape(2, 4, 4), name='v',
                      dims=['t', 'latitude', 'longitude'],
                      coords={'latitude': lat, 'longitude': lon})
    ea = (-90.0, -60.0, -59.0, -20.0, 0.0, 20.0, 60.0, 75.0)
    eo = (-10.0, 0.0, 45.0, 90.0, 200.0, 270.0, 300.0)
    for a, b in itertools.product(ea, repeat=2):
      for c, d in itertools.product(eo, repeat=2):
        rec.transition()
        if a > b or c > d:
          try:
            I.CropToBox(a, b, c, d)
          except ValueError:
            continue
          fail('invalid box accepted', (a, b, c, d))
        box = I.CropToBox(a, b, c, d)
        for x in (da, da.transpose()):
          got = box.interpolate({'v': x})['v']
          wl = [x_ for x_ in sorted(lat) if a <= x_ <= b]
          sure = [x_ for x_ in sorted(lon) if c < x_ < d]
          may = [x_ for x_ in sorted(lon) if c <= x_ <= d]
          gl, go = list(got.latitude.values), list(got.longitude.values)
          check(gl == wl, f'latitudes {gl} expected {wl}', case, (a, b, c, d))
          check(set(sure) <= set(go) <= set(may) and go == sorted(go),
                f'longitudes {go}', case, (a, b, c, d))
          want = da.values[:, [lat.index(q) for q in gl]][
              :, :, [lon.index(q) for q in go]]
          check(close(got.transpose('t', 'latitude', 'longitude').values, want),
                'values moved', case, (a, b, c, d))
    rec.trace(outcome=str(case))
    rec.state(str(case))

  def k_subsample(self, case, rec):
    s = case['s']
    da = xr.DataArray(np.arange(42.0).reshape(1, 6, 7), name='v',
                      dims=['t', 'latitude', 'longitude'],
                      coords={'latitude': np.arange(6) * -10.0,
                              'longitude': np.arange(7) * 3.0, 't': [4]})
    for dims in ([], ['latitude'], ['longitude'], ['latitude', 'longitude'],
                 ('longitude', 'level'), ['t'], ['x']):
      rec.transition()
      if s < 1:
        try:
          I.Subsample(dims, s)
        except ValueError:
          continue
        fail(f'stride {s} accepted')
      got = I.Subsample(dims, s).interpolate({'v': da, 'w': da * 2})
      want = da
      for d in dims:
        if d in da.dims:
          want = want.isel({d: [i for i in range(da.sizes[d]) if i % s == 0]})
      same_da(got['v'], want, f'{case} {dims}', dim_order=True)
      same_da(got['w'], want * 2, f'{case} {dims}')
    rec.trace(outcome=s)

  def k_chain(self, case, rec):
    lat, lon = [-60.0, -20.0, 20.0, 60.0], [0.0, 90.0, 180.0, 270.0]
    da = xr.DataArray(np.arange(32.0).reshape(2, 4, 4)**1.5, name='v',
                      dims=['t', 'latitude', 'longitude'],
                      coords={'latitude': lat, 'longitude': lon})
    ref = xr.DataArray(np.zeros((2, 3)), dims=['latitude', 'longitude'],
                       coords={'latitude': [-20.0, 10.0],
                               'longitude': [0.0, 45.0, 90.0]}, name='v')
    steps = [I.Subsample(['longitude'], 2), I.Subsample(['latitude'], 2),
             I.CropToBox(-30, 90, -1, 200),
             I.InterpolateToFixedCoords('linear', {
                 'longitude': np.array([30.0, 330.0, 150.0, 60.0])},
                                        wrap_longitude=True),
             I.InterpolateToReferenceCoords('linear', ['latitude', 'longitude']),
             I.InterpolateToFixedCoords('nearest', {
                 'latitude': np.array([-55.0, 22.0])})]
    combo = [steps[i] for i in case['combo']]
    want, err = da, None
    try:
      for st in combo:
        want = st.interpolate_data_array(want, ref)
    except Exception as e:  # pylint: disable=broad-except
      err = e
    for seq in (combo, tuple(combo)):
      rec.transition(len(combo))
      try:
        got = I.MultipleInterpolation(seq).interpolate({'v': da}, {'v': ref})['v']
      except Exception as e:  # pylint: disable=broad-except
        check(err is not None, f'chain failed {case}', repr(e)[:200])
        rec.trace(outcome='both fail')
        continue
      check(err is None, f'chain did not fail {case}')
      same_da(got, want, f'chain {case}')
    # datasets and dictionaries give the same
    if err is None and combo and 4 not in case['combo']:
      ds = I.MultipleInterpolation(combo).interpolate(
          xr.Dataset({'v': da, 'w': da + 1}))
      same_da(ds['v'], want, f'dataset chain {case}')
      check(set(ds) == {'v', 'w'}, 'variables')
    rec.trace(outcome=str(case))
    rec.state(str(case))


CHECK = C23
