"""C16: fractions skill score uses exactly the square neighbourhood."""

import itertools

import numpy as np
import xarray as xr

from mc import core
from mc import metricutil as mu
from mc.xrutil import check, close, fail
from weatherbenchX import interpolations
from weatherbenchX.metrics import spatial

NAN = np.nan


def brute(x, n, wrap):
  """Neighbourhood means of x (case, lat, lon), and which pixels have one."""
  h = n // 2
  _, ny, nx = x.shape
  out = np.zeros(x.shape)
  ok = np.zeros((ny, nx), bool)
  for j in range(ny):
    for i in range(nx):
      if j - h < 0 or j + h >= ny:
        continue
      if not wrap and (i - h < 0 or i + h >= nx):
        continue
      ok[j, i] = True
      s = 0.0
      for dj in range(-h, h + 1):
        for di in range(-h, h + 1):
          s = s + x[:, j + dj, (i + di) % nx]
      out[:, j, i] = s / n**2
  return out, ok


def fields(ny, nx):
  """All binary fields on the grid, (2**(ny*nx), ny, nx)."""
  k = ny * nx
  return ((np.arange(2**k)[:, None] >> np.arange(k)) & 1).reshape(
      -1, ny, nx).astype(float)


def da3(x, dtype=float, mask=None, order=('t', 'latitude', 'longitude'),
        morder=None):
  d = xr.DataArray(x.astype(dtype), dims=['t', 'latitude', 'longitude'],
                   coords={'latitude': np.arange(x.shape[1]) * 10.0,
                           'longitude': np.arange(x.shape[2]) * 20.0})
  if mask is not None:
    m = xr.DataArray(mask, dims=['t', 'latitude', 'longitude'][-mask.ndim:])
    if morder:
      m = m.transpose(*[o for o in morder if o in m.dims])
    d = d.assign_coords(mask=m)
  return d.transpose(*order)


PERMS = list(itertools.permutations(('t', 'latitude', 'longitude')))


class C16(core.Check):
  id = 'C16'
  rule = ('all binary fields and all masks on small grids, all unit impulses and '
          'missing values on larger ones, every neighbourhood size that can '
          'matter, both edge rules, all dimension orders and batch splits')
  assumptions = ('inputs are binary or missing; with wrapping the neighbourhood '
                 'is not wider than the grid',)

  def cases(self):
    small = [(2, 2), (1, 4), (3, 3), (3, 4), (4, 3)]
    if self.thorough:
      small += [(2, 6), (4, 4), (3, 5), (5, 3)]
    for ny, nx in small:
      for n in (1, 3, 5):
        for wrap in (False, True):
          yield dict(kind='fields', ny=ny, nx=nx, n=n, wrap=wrap)
          yield dict(kind='masks', ny=ny, nx=nx, n=n, wrap=wrap)
    m = 9 if self.thorough else 7
    for ny in range(1, m + 1):
      for nx in range(1, m + 1):
        yield dict(kind='impulse', ny=ny, nx=nx)
    for ny, nx in ((2, 3), (3, 3)):
      for n in (1, 3, [1, 3], (3, 1), [3]):
        for wrap in (False, True):
          yield dict(kind='pairs', ny=ny, nx=nx, n=n, wrap=wrap)
    for n in (1, 3, [1, 3]):
      for wrap in (False, True):
        for which in ('t', 'p', 'both'):
          yield dict(kind='maskpair', n=n, wrap=wrap, which=which)
    for perm in range(6):
      for mperm in range(6):
        for n in (1, 3, [1, 3]):
          yield dict(kind='order', perm=perm, mperm=mperm, n=n)
    for ny, nx in ((32, 64), (61, 33), (129, 257)):
      for n in (1, 3, 9, 15, [1, 5, 17], 31):
        for wrap in (False, True):
          for dt in ('f8', 'f4', 'bool', 'i8'):
            if self.thorough or ny < 100 or dt == 'f8':
              yield dict(kind='large', ny=ny, nx=nx, n=n, wrap=wrap, dt=dt)
    for n in range(1, 64 if self.thorough else 34, 2):
      for wrap in (False, True):
        yield dict(kind='gap', n=n, wrap=wrap)
    for n in (2, 4, [1, 2]):
      yield dict(kind='even', n=n)
    for n in (1, 3):
      yield dict(kind='dtype', n=n)
    for n in ([1], [3], [1, 3], (3, 5)):
      for wrap in (False, True):
        yield dict(kind='ntp', n=n, wrap=wrap)

  def run_case(self, case, rec):
    getattr(self, 'k_' + case['kind'])(case, rec)

  def skip_wide(self, n, nx, wrap):
    if wrap and max(np.atleast_1d(n)) > nx:
      raise core.Skip()

  def fss_stats(self, n, wrap, p, t):
    return {k: v['v'] for k, v in mu.stats_of(
        spatial.FSS(n, wrap), {'v': p}, {'v': t}).items()}

  def k_large(self, case, rec):
    """Grids and neighbourhoods of realistic size."""
    ny, nx, wrap = case['ny'], case['nx'], case['wrap']
    j, i = np.indices((ny, nx))
    x = np.stack([(i * i + j * 3) % 7 < 2, (i // 5 + j // 4) % 2 == 0])
    y = np.stack([(i * i + j * 3 + i // 9) % 7 < 2, (i // 6 + j // 4) % 3 == 0])
    dt = bool if case['dt'] == 'bool' else case['dt']
    got = self.fss_stats(case['n'], wrap, da3(x, dt), da3(y, dt))
    rec.transition()
    for n in np.atleast_1d(case['n']):
      h = n // 2
      frac = []
      for z in (x, y):
        z = z.astype(int)
        z = np.pad(z, ((0, 0), (0, 0), (h, h)), mode='wrap' if wrap else 'constant')
        z = np.pad(z, ((0, 0), (h, h), (0, 0)))
        s = sum(z[:, a:a + ny] for a in range(n))
        frac.append(sum(s[:, :, a:a + nx] for a in range(n)) / n**2)
      ok = (j >= h) & (j < ny - h)
      if not wrap:
        ok &= (i >= h) & (i < nx - h)
      fx, fy = [np.where(ok, f, 0) for f in frac]
      for k, w in (('SquaredFractionsError', (fx - fy)**2),
                   ('SquaredPredictionFraction', fx**2),
                   ('SquaredTargetFraction', fy**2)):
        g = got[k]
        if 'neighborhood_size' in g.dims:
          g = g.sel(neighborhood_size=n)
        g = g.transpose('t', 'latitude', 'longitude').values
        bad = ~np.isclose(g, w, atol=2e-4)
        if bad.any():
          q = tuple(np.argwhere(bad)[0])
          fail(f'{k} {case}: {g[q]} expected {w[q]} at {q} for size {n}')
      rec.trace(outcome=(ny, nx, int(n), wrap))
      rec.state((ny, nx, int(n), wrap, case['dt']))

  def k_fields(self, case, rec):
    n, wrap = case['n'], case['wrap']
    self.skip_wide(n, case['nx'], wrap)
    x = fields(case['ny'], case['nx'])
    want, _ = brute(x, n, wrap)
    got = self.fss_stats(n, wrap, da3(x), da3(np.zeros_like(x)))
    for k, w in (('SquaredFractionsError', want**2),
                 ('SquaredPredictionFraction', want**2),
                 ('SquaredTargetFraction', 0 * want)):
      g = got[k].transpose('t', 'latitude', 'longitude').values
      check(close(g, w, atol=1e-5), f'{k} {case}', g, w)
    got = self.fss_stats(n, wrap, da3(1 - x), da3(x))
    wp, _ = brute(1 - x, n, wrap)
    for k, w in (('SquaredFractionsError', (want - wp)**2),
                 ('SquaredPredictionFraction', wp**2),
                 ('SquaredTargetFraction', want**2)):
      g = got[k].transpose('t', 'latitude', 'longitude').values
      check(close(g, w, atol=1e-5), f'{k} {case}')
    rec.transition(2 * len(x))
    rec.trace(len(x), outcome=str(case))
    rec.state(str(case))

  def k_impulse(self, case, rec):
    ny, nx = case['ny'], case['nx']
    k = ny * nx
    x = np.eye(k).reshape(k, ny, nx)
    xn = np.where(x == 1, NAN, 1.0)
    z = np.zeros_like(x)
    for n in (1, 3, 5, 7, 9):
      for wrap in (False, True):
        if wrap and n > nx:
          continue
        for a in (x, xn):
          want, ok = brute(a, n, wrap)
          got = self.fss_stats(n, wrap, da3(z), da3(a))
          rec.transition(k)
          for name, w in (('SquaredFractionsError', want**2),
                          ('SquaredTargetFraction', want**2),
                          ('SquaredPredictionFraction', 0 * z)):
            g = got[name].transpose('t', 'latitude', 'longitude').values
            if name == 'SquaredPredictionFraction':
              g = np.where(np.isnan(w) | np.isnan(want), 0, g)
            check(close(g, w, atol=1e-5), f'{name} n={n} wrap={wrap} {case}', g, w)
          rec.trace(k, outcome=f'{n},{wrap},{bool(ok.any())}')
    rec.state(str(case))

  def k_masks(self, case, rec):
    n, wrap = case['n'], case['wrap']
    self.skip_wide(n, case['nx'], wrap)
    m = fields(case['ny'], case['nx']).astype(bool)
    frac, ok = brute(m.astype(float), n, wrap)
    want = ok & (frac > 1 - 0.5 / n**2)
    if n == 1:
      want = m
    x = np.where(m, 1.0, NAN)  # masked content is missing
    p = np.ones_like(x)
    got = self.fss_stats(n, wrap, da3(p), da3(x, mask=m))
    rec.transition(len(m))
    for k, v in got.items():
      g = v.coords['mask'].transpose('t', 'latitude', 'longitude').values
      check(g.dtype == bool and close(g, want), f'mask of {k} {case}', g, want)
      val = v.transpose('t', 'latitude', 'longitude').values
      check(not np.isnan(val[want]).any(), f'{k} missing inside the mask', case)
    rec.trace(len(m), outcome=str(case))
    rec.state(str(case))

  def k_gap(self, case, rec):
    """A single missing point hides all neighbourhoods that contain it."""
    n, wrap = case['n'], case['wrap']
    h, ny, nx = n // 2, n + 2, n + 3
    j, i = np.indices((ny, nx))
    ok = (j >= h) & (j < ny - h)
    if not wrap:
      ok &= (i >= h) & (i < nx - h)
    step = max(1, ny * nx // (400 if self.thorough else 60))
    m, want = [np.ones((ny, nx), bool)], [ok]
    for a, b in list(np.ndindex(ny, nx))[::step]:
      d = abs(i - b)
      if wrap:
        d = np.minimum(d, nx - d)
      m.append((j != a) | (i != b))
      want.append(ok & ~((abs(j - a) <= h) & (d <= h)))
    m, want = np.stack(m), np.stack(want)
    p = da3(np.ones(m.shape))
    got = self.fss_stats(n, wrap, p, da3(np.where(m, 1.0, NAN), mask=m))
    rec.transition(len(m))
    for k, v in got.items():
      g = v.coords['mask'].transpose('t', 'latitude', 'longitude').values
      bad = (g != want).any((1, 2))
      if bad.any():
        q = int(np.argmax(bad))
        fail(f'mask of {k} {case}: missing at {np.argwhere(~m[q])}, valid at '
             f'{np.argwhere(g[q]).tolist()}, expected '
             f'{np.argwhere(want[q]).tolist()}')
    rec.trace(len(m), outcome=str(case))

  def score(self, stats_mask, num, pf, tf, axes):
    w = stats_mask
    with np.errstate(all='ignore'):
      s = lambda a: np.where(w, a, 0).sum(axes)
      return 1 - s(num) / (s(pf) + s(tf))

  def k_pairs(self, case, rec):
    """FSS of all pairs of binary fields, pooled in space and over batches."""
    ns = list(np.atleast_1d(case['n']))
    wrap = case['wrap']
    self.skip_wide(ns, case['nx'], wrap)
    f = fields(case['ny'], case['nx'])
    tgt = f if len(f) <= 64 else f[::19]
    arg = case['n']
    m = {'m': spatial.FSS(arg, wrap)}
    for t in tgt:
      x, y = f, np.broadcast_to(t, f.shape)
      p, q = da3(x), da3(y)
      got = mu.value(m, {'v': p}, {'v': q}, ['latitude', 'longitude'])['m.v']
      gall = mu.value(m, {'v': p}, {'v': q},
                      ['latitude', 'longitude', 't'])['m.v']
      rec.transition(len(f) + 1)
      for n in ns:
        a, _ = brute(x, n, wrap)
        b, _ = brute(y, n, wrap)
        one = np.ones_like(a, bool)
        w = self.score(one, (a - b)**2, a**2, b**2, (1, 2))
        g, ga = got, gall
        if np.ndim(arg):
          g = got.sel(neighborhood_size=n)
          ga = gall.sel(neighborhood_size=n)
        check(close(g.values, w, atol=1e-5), f'FSS n={n} {case}', g.values, w)
        w = self.score(one, (a - b)**2, a**2, b**2, (0, 1, 2))
        check(close(ga.values, w, atol=1e-5), f'pooled FSS n={n}', ga.values, w)
      rec.trace(len(f), outcome=f'{ns}{wrap}')
    # batches
    p, q = da3(f[:6]), da3(f[5:11] if len(f) > 11 else f[:6][::-1])
    whole = mu.value(m, {'v': p}, {'v': q}, ['latitude', 'longitude', 't'])
    for cuts in mu.compositions(6):
      g = mu.chunked(m, {'v': p}, {'v': q}, ['latitude', 'longitude', 't'], 't',
                     cuts)
      rec.transition()
      check(close(g['m.v'].values, whole['m.v'].values, atol=1e-5),
            f'batches {cuts} {case}')
    rec.state(str(case))

  def k_maskpair(self, case, rec):
    """Masked FSS uses the same (shrunk) set of pixels everywhere."""
    ns = list(np.atleast_1d(case['n']))
    wrap, which = case['wrap'], case['which']
    m = fields(3, 4).astype(bool)
    rng = (np.arange(m.size).reshape(m.shape) * 7919 % 13)
    x, y = (rng % 2).astype(float), (rng % 3 == 0).astype(float)
    xm = np.where(m, x, NAN) if which in ('p', 'both') else x
    ym = np.where(m, y, NAN) if which in ('t', 'both') else y
    p = da3(xm, mask=m if which in ('p', 'both') else None)
    q = da3(ym, mask=m if which in ('t', 'both') else None)
    got = mu.value(spatial.FSS(case['n'], wrap), {'v': p}, {'v': q},
                   ['latitude', 'longitude'], masked=True)['m.v']
    rec.transition(len(m))
    for n in ns:
      frac, ok = brute(m.astype(float), n, wrap)
      valid = ok & (frac > 1 - 0.5 / n**2) if n > 1 else m
      a, _ = brute(x, n, wrap)
      b, _ = brute(y, n, wrap)
      w = self.score(valid, (a - b)**2, a**2, b**2, (1, 2))
      g = got.sel(neighborhood_size=n) if np.ndim(case['n']) else got
      check(close(g.values, w, atol=1e-5), f'masked FSS n={n} {case}',
            g.values[~np.isclose(g.values, w, equal_nan=True)],
            w[~np.isclose(g.values, w, equal_nan=True)])
    rec.trace(len(m), outcome=str(case))
    rec.state(str(case))

  def k_order(self, case, rec):
    """Dimension order of values and of the mask does not matter."""
    m = np.ones((4, 4, 4), bool)
    m[0, 1, 2] = m[2, 3, 0] = m[3, 0, 1] = False
    x = (np.arange(64).reshape(4, 4, 4) * 7 % 5 < 2).astype(float)
    y = (np.arange(64).reshape(4, 4, 4) * 11 % 7 < 3).astype(float)
    ref_p, ref_t = da3(x), da3(y, mask=m)
    met = spatial.FSS(case['n'], True)
    want = mu.value(met, {'v': ref_p}, {'v': ref_t}, ['latitude', 'longitude'],
                    masked=True)['m.v']
    order, morder = PERMS[case['perm']], PERMS[case['mperm']]
    for porder in PERMS:
      p = da3(x, order=porder)
      t = da3(y, mask=m, order=order, morder=morder)
      got = mu.value(met, {'v': p}, {'v': t}, ['latitude', 'longitude'],
                     masked=True)['m.v']
      rec.transition()
      check(close(got.transpose(*want.dims).values, want.values, atol=1e-5),
            f'dimension order {case} {porder}', got.values, want.values)
    # a mask without the time dimension
    t = da3(y, mask=m[0], order=order,
            morder=[d for d in morder if d != 't'])
    t2 = da3(y, mask=np.broadcast_to(m[0], m.shape))
    a = mu.value(met, {'v': ref_p}, {'v': t}, ['latitude', 'longitude'],
                 masked=True)['m.v']
    b = mu.value(met, {'v': ref_p}, {'v': t2}, ['latitude', 'longitude'],
                 masked=True)['m.v']
    check(close(a.transpose(*b.dims).values, b.values, atol=1e-5),
          f'static mask {case}', a.values, b.values)
    rec.trace(outcome=str(case))
    rec.state(str(case))

  def k_even(self, case, rec):
    x = fields(2, 3)
    rec.transition()
    try:
      self.fss_stats(case['n'], False, da3(x), da3(x))
    except ValueError:
      rec.trace(outcome='rejected')
      return
    fail('even neighbourhood accepted', case)

  def k_dtype(self, case, rec):
    x = fields(3, 3)
    y = x[::-1]
    want = mu.value(spatial.FSS(case['n']), {'v': da3(x)}, {'v': da3(y)},
                    ['latitude', 'longitude'])['m.v'].values
    for a, b in itertools.product(('f4', bool, int, float), repeat=2):
      got = mu.value(spatial.FSS(case['n']), {'v': da3(x, a)}, {'v': da3(y, b)},
                     ['latitude', 'longitude'])['m.v'].values
      rec.transition(len(x))
      check(close(got, want, atol=1e-5), f'dtype {a} {b} {case}')
    rec.trace(outcome=case['n'])

  def k_ntp(self, case, rec):
    """Neighbourhood probabilities of threshold exceedance."""
    self.skip_wide(case['n'], 4, case['wrap'])
    x = fields(3, 4)
    x = np.where(x == 1, 2.0, 0.5)
    th = [0.0, 0.5, 1.0, 2.0]
    itp = interpolations.NeighborhoodThresholdProbabilities(
        list(case['n']), th, threshold_dim='th', wrap_longitude=case['wrap'])
    for order in PERMS:
      got = itp.interpolate({'v': da3(x, order=order)})['v']
      rec.transition(len(x))
      check(set(got.dims) == {'t', 'latitude', 'longitude', 'th',
                              'smoothing_neighborhood'}, 'dims', got.dims)
      for n, q in itertools.product(case['n'], th):
        want, _ = brute((x > q).astype(float), n, case['wrap'])
        g = got.sel(smoothing_neighborhood=n, th=q).transpose(
            't', 'latitude', 'longitude').values
        check(close(g, want, atol=1e-5), f'probability n={n} th={q} {case}')
    rec.trace(len(x), outcome=str(case))
    rec.state(str(case))


CHECK = C16
