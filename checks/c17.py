"""C17: SEEPS equals its published scoring table."""

import itertools

import numpy as np
import xarray as xr

from mc import core
from mc import metricutil as mu
from mc.xrutil import check, close, fail
from weatherbenchX.metrics import categorical as cat

NAN = np.nan
# Dry fractions of the grid points (rows x columns); multiples of 1/64, so that
# their mean over times is exact.
P1 = np.array([[0.0, 1 / 64, 0.125, 0.25], [0.5, 0.75, 0.875, 57 / 64],
               [1.0, NAN, 0.1875, 0.8125]])
LAT, LON = np.array([-45.0, 10.0, 80.0]), np.array([0.0, 90.0, 180.0, 270.0])
INITS = np.array(['2019-12-31T00', '2020-02-28T12', '2020-12-30T12',
                  '2021-02-28T06'], 'datetime64[ns]')
LEADS = np.array([0, 6, 12, 36], 'timedelta64[h]').astype('timedelta64[ns]')
HOURS = np.array([0, 6, 12, 18])
DRY_MM = 0.25


def climatology(seed=0, name='tp', order=None, hours=HOURS, days=None,
                uneven=True):
  """Wet thresholds that differ between all days, hours and places."""
  days = np.arange(1, 367) if days is None else days
  n, d = len(hours), len(days)
  h, doy, i, j = np.meshgrid(hours, days, np.arange(3), np.arange(4),
                             indexing='ij')
  thr = 0.001 * (1 + (doy * 7 + h * 3 + i * 5 + j * 11 + seed) % 13 / 4.0)
  f = np.broadcast_to(P1, (n, d, 3, 4)).copy()
  if uneven:  # times differ, only their mean is P1
    inside = (P1 > 0.05) & (P1 < 0.95)
    s = (np.where(np.arange(n) < n // 2, 1, -1)[:, None] +
         np.where(days > 183, 2, -2))
    f = f + s[..., None, None] * np.where(inside, 1 / 64, 0)
  dims = ['hour', 'dayofyear', 'latitude', 'longitude']
  co = {'hour': hours, 'dayofyear': days, 'latitude': LAT, 'longitude': LON}
  ds = xr.Dataset({
      f'{name}_seeps_threshold': xr.DataArray(thr, dims=dims, coords=co),
      f'{name}_seeps_dry_fraction': xr.DataArray(f, dims=dims, coords=co)})
  if order is not None:
    ds = ds.transpose(*[dims[i] for i in order])
  return ds


def day_of_year(t):
  d = t.astype('datetime64[D]')
  return int((d - t.astype('datetime64[Y]').astype('datetime64[D]'))
             / np.timedelta64(1, 'D')) + 1


def hour(t):
  return int((t - t.astype('datetime64[D]')) / np.timedelta64(1, 'h'))


def thresholds_at(clim, name):
  """(init, lead, lat, lon) thresholds by explicit loops."""
  da = clim[f'{name}_seeps_threshold'].transpose(
      'hour', 'dayofyear', 'latitude', 'longitude')
  hs, ds = list(da.hour.values), list(da.dayofyear.values)
  out = np.zeros((len(INITS), len(LEADS), 3, 4))
  for i, a in enumerate(INITS):
    for j, b in enumerate(LEADS):
      v = a + b
      out[i, j] = da.values[hs.index(hour(v)), ds.index(day_of_year(v))]
  return out


def score(f, o, p):
  """Published matrix (Rodwell et al. 2010, eq. 15); 0 dry, 1 light, 2 heavy."""
  if f == o:
    return 0.0
  return 0.5 * {(0, 1): 1 / (1 - p), (0, 2): 4 / (1 - p), (1, 0): 1 / p,
                (1, 2): 3 / (1 - p), (2, 0): 1 / p + 3 / (2 + p),
                (2, 1): 3 / (2 + p)}[f, o]


def category(x, dry, wet):
  return 0 if x <= dry else (1 if x < wet else 2)


# The alphabet of values, given the thresholds of the unit.
LETTERS = ('0', 'dry', 'dry+', 'mid', 'wet-', 'wet', 'wet+', 'big', 'nan')


def letter(c, dry, wet):
  return {'0': np.zeros_like(wet), 'dry': np.full_like(wet, dry),
          'dry+': np.full_like(wet, np.nextafter(dry, 1)),
          'mid': (wet + dry) / 2, 'wet-': np.nextafter(wet, 0), 'wet': wet,
          'wet+': np.nextafter(wet, 1), 'big': wet + 1,
          'nan': np.full_like(wet, NAN)}[c]


def expected(pairs, wet, dry, lo, hi):
  """(pair, init, lead, lat, lon) scores and the (lat, lon) mask."""
  mask = np.zeros(P1.shape, bool)
  for i, j in np.ndindex(*P1.shape):
    mask[i, j] = bool(P1[i, j] >= lo and P1[i, j] <= hi)
  out = np.full((len(pairs),) + wet.shape, NAN)
  for k, (f, o) in enumerate(pairs):
    if 'nan' in (f, o):
      continue
    fv, ov = letter(f, dry, wet), letter(o, dry, wet)
    fc = np.where(fv <= dry, 0, np.where(fv < wet, 1, 2))
    oc = np.where(ov <= dry, 0, np.where(ov < wet, 1, 2))
    for i, j in np.ndindex(*P1.shape):
      if mask[i, j]:
        table = np.array([[score(a, b, P1[i, j]) for b in range(3)]
                          for a in range(3)])
        out[k, :, :, i, j] = table[fc[..., i, j], oc[..., i, j]]
  return out, mask


def make(pairs, wet, dry, which, name='tp'):
  x = np.stack([letter(p[which], dry, wet) for p in pairs])
  return xr.DataArray(
      x, dims=['case', 'init_time', 'lead_time', 'latitude', 'longitude'],
      coords={'init_time': INITS, 'lead_time': LEADS, 'latitude': LAT,
              'longitude': LON}, name=name)


class C17(core.Check):
  id = 'C17'
  rule = ('all pairs of 9 forecast and observed values around the thresholds x '
          '12 dry fractions (inside, at and outside of the limits, 0, 1, '
          'missing) x 16 valid times (leap days, year ends, all hours) x limits '
          'x dry thresholds x layouts; targets masked at every place; several '
          'variables with separate settings')
  assumptions = ('the climatological threshold exceeds the dry threshold',)

  def cases(self):
    for seed in range(13 if self.thorough else 4):
      for lo, hi in ((0.125, 0.875), (0.1, 0.85), (1 / 64, 57 / 64),
                     (0.25, 0.25), (0.6, 0.5)):
        yield dict(kind='table', seed=seed, lo=lo, hi=hi)
    for dry in (0.05, 0.25, 0.5, 0.9):
      for dt in ('f8', 'f4'):
        yield dict(kind='dry', dry=dry, dt=dt)
    for order in itertools.permutations(range(4)):
      yield dict(kind='layout', order=order)
    for i, j in itertools.product(range(3), range(4)):
      yield dict(kind='mask', i=i, j=j)
    for n in range(4):
      yield dict(kind='days', drop=n)
    for perm in itertools.permutations(('a', 'b', 'c')):
      for sub in (2, 3):
        yield dict(kind='vars', names=perm[:sub])
    for red in ((), ('case',), ('init_time', 'lead_time'),
                ('case', 'init_time', 'lead_time', 'latitude', 'longitude')):
      yield dict(kind='mean', red=red)

  def run_case(self, case, rec):
    getattr(self, 'run_' + case['kind'])(case, rec)

  pairs = list(itertools.product(LETTERS, LETTERS))

  def compare(self, got, pairs, wet, dry, lo, hi, rec, mask=None, tol=1e-9):
    want, m = expected(pairs, wet, dry, lo, hi)
    check(set(got.dims) == {'case', 'init_time', 'lead_time', 'latitude',
                            'longitude'}, f'dims {got.dims}')
    g = got.transpose('case', 'init_time', 'lead_time', 'latitude', 'longitude')
    if not close(g.values, want, tol, tol):
      bad = np.argwhere(~np.isclose(g.values, want, tol, tol, equal_nan=True))[0]
      fail(f'score of forecast {pairs[bad[0]][0]} and observation '
           f'{pairs[bad[0]][1]} at {INITS[bad[1]]}+{LEADS[bad[2]]}, dry '
           f'fraction {P1[bad[3], bad[4]]}: {g.values[tuple(bad)]}, expected '
           f'{want[tuple(bad)]}')
    check('mask' in got.coords, 'no mask')
    full = np.broadcast_to(m if mask is None else m & mask, g.shape)
    gm = got.mask.broadcast_like(g).transpose(*g.dims).values.astype(bool)
    if not np.array_equal(gm, full):
      bad = np.argwhere(gm != full)[0]
      fail(f'mask at dry fraction {P1[bad[3], bad[4]]} is {gm[tuple(bad)]}')
    rec.nodes += want.size
    rec.transition(want.size)
    rec.trace(want.size, outcome=np.unique(want[np.isfinite(want)]).tobytes())

  def run_table(self, case, rec):
    c = climatology(case['seed'])
    wet, dry = thresholds_at(c, 'tp'), DRY_MM / 1000.0
    p, t = (make(self.pairs, wet, dry, w) for w in (0, 1))
    m = cat.SEEPS(['tp'], c, DRY_MM, case['lo'], case['hi'])
    out = mu.stats_of(m, {'tp': p}, {'tp': t})['self']
    check(set(out) == {'tp'}, f'variables {set(out)}')
    self.compare(out['tp'], self.pairs, wet, dry, case['lo'], case['hi'], rec)

  def run_dry(self, case, rec):
    c = climatology(3)
    wet, dry = thresholds_at(c, 'tp'), case['dry'] / 1000.0
    letters = ('0', 'dry', 'mid', 'big', 'nan')
    pairs = list(itertools.product(letters, letters))
    dt = np.dtype(case['dt'])
    p, t = (make(pairs, wet, dry, w).astype(dt) for w in (0, 1))
    m = cat.SEEPS(['tp'], c, case['dry'], 0.125, 0.875)
    out = mu.stats_of(m, {'tp': p}, {'tp': t})['self']['tp']
    self.compare(out, pairs, wet, dry, 0.125, 0.875, rec, tol=1e-5)

  def run_layout(self, case, rec):
    pairs = self.pairs[::5]
    c = climatology(2, order=case['order'])
    wet, dry = thresholds_at(c, 'tp'), DRY_MM / 1000.0
    p, t = (make(pairs, wet, dry, w) for w in (0, 1))
    for k, (po, to) in enumerate(itertools.product(
        itertools.permutations(range(5)), repeat=2)):
      if k % 601 and not (self.thorough and k % 97 == 0):
        continue
      pp = p.transpose(*[p.dims[i] for i in po])
      tt = t.transpose(*[p.dims[i] for i in to])
      m = cat.SEEPS(['tp'], c, DRY_MM, 0.125, 0.875)
      for kind in ('dict', 'ds'):
        out = mu.stats_of(m, mu.as_container({'tp': pp}, kind),
                          mu.as_container({'tp': tt}, kind))['self']['tp']
        self.compare(out, pairs, wet, dry, 0.125, 0.875, rec)
    # defaults: 0.25 mm, 0.1 .. 0.85
    out = mu.stats_of(cat.SEEPS(['tp'], c), {'tp': p}, {'tp': t})['self']['tp']
    self.compare(out, pairs, wet, dry, 0.1, 0.85, rec)

  def run_mask(self, case, rec):
    pairs = self.pairs[::7]
    c = climatology(1)
    wet, dry = thresholds_at(c, 'tp'), DRY_MM / 1000.0
    p, t = (make(pairs, wet, dry, w) for w in (0, 1))
    m = cat.SEEPS(['tp'], c, DRY_MM, 0.125, 0.875)
    keep = np.ones((len(INITS), len(LEADS), 3, 4), bool)
    keep[:, :, case['i'], case['j']] = False
    keep[case['i'], case['j']] = False
    co = (('init_time', 'lead_time', 'latitude', 'longitude'), keep)
    for a, b in ((p, t.assign_coords(mask=co)), (p.assign_coords(mask=co), t)):
      out = mu.stats_of(m, {'tp': a}, {'tp': b})['self']['tp']
      self.compare(out, pairs, wet, dry, 0.125, 0.875, rec, mask=keep)
    # a mask in space only
    sp = keep[0, 0] & (np.arange(12).reshape(3, 4) % 5 != case['j'])
    out = mu.stats_of(m, {'tp': p}, {'tp': t.assign_coords(
        mask=(('latitude', 'longitude'), sp))})['self']['tp']
    self.compare(out, pairs, wet, dry, 0.125, 0.875, rec, mask=sp)

  def run_days(self, case, rec):
    """Order of the climatology's labels and sub-hourly labels do not matter."""
    pairs = self.pairs[::4]
    days = np.roll(np.arange(1, 367), 100 * case['drop'])
    if case['drop'] % 2:
      days = days[::-1]
    hours = np.roll(HOURS, case['drop'])
    c = climatology(5, hours=hours, days=days)
    wet, dry = thresholds_at(c, 'tp'), DRY_MM / 1000.0
    p, t = (make(pairs, wet, dry, w) for w in (0, 1))
    out = mu.stats_of(cat.SEEPS(['tp'], c, DRY_MM, 0.125, 0.875), {'tp': p},
                      {'tp': t})['self']['tp']
    self.compare(out, pairs, wet, dry, 0.125, 0.875, rec)
    # lead_time as a coordinate of several times, init as a scalar, etc.
    one = dict(init_time=case['drop'])
    out = mu.stats_of(cat.SEEPS(['tp'], c, DRY_MM, 0.125, 0.875),
                      {'tp': p.isel(one)}, {'tp': t.isel(one)})['self']['tp']
    w, _ = expected(pairs, wet, dry, 0.125, 0.875)
    got = out.transpose('case', 'lead_time', 'latitude', 'longitude').values
    check(close(got, w[:, case['drop']], 1e-9, 1e-9), 'scalar init_time')
    # Every part of the data alone, in every order.
    for j in range(len(LEADS)):
      for at in ([j], [j, (j + 1) % 4], [(j + 2) % 4, j, (j + 1) % 4]):
        for i in ([case['drop']], [case['drop'], (case['drop'] + 2) % 4]):
          part = dict(init_time=i, lead_time=at)
          out = mu.stats_of(cat.SEEPS(['tp'], c, DRY_MM, 0.125, 0.875),
                            {'tp': p.isel(part)}, {'tp': t.isel(part)})
          got = out['self']['tp'].transpose(*p.dims).values
          check(close(got, w[:, i][:, :, at], 1e-9, 1e-9),
                f'score of only {INITS[i]} + {LEADS[at]}')
          rec.nodes += 1
          rec.transition()

  def run_vars(self, case, rec):
    names = case['names']
    sett = {'a': (0.25, 0.125, 0.875), 'b': (0.5, 0.25, 0.5),
            'c': (0.1, 1 / 64, 0.75)}
    pairs = self.pairs[::6]
    cl = xr.merge([climatology(4 * i, n) for i, n in enumerate('abc')])
    p, t, wets = {}, {}, {}
    for n in 'abcd':
      m = n if n != 'd' else 'a'
      wets[n] = thresholds_at(cl, m)
      dry = sett[m][0] / 1000.0
      p[n], t[n] = (make(pairs, wets[n], dry, w, n) for w in (0, 1))
    for seq in (list, tuple):
      m = cat.SEEPS(list(names), cl, *[seq(sett[n][i] for n in names)
                                       for i in range(3)])
      out = mu.stats_of(m, p, t)['self']
      check(set(out) == set(names), f'variables {set(out)}')
      for n in names:
        d, lo, hi = sett[n]
        self.compare(out[n], pairs, wets[n], d / 1000.0, lo, hi, rec)

  def run_mean(self, case, rec):
    c = climatology(1)
    wet, dry = thresholds_at(c, 'tp'), DRY_MM / 1000.0
    pairs = [x for x in self.pairs if 'nan' not in x]
    p, t = (make(pairs, wet, dry, w) for w in (0, 1))
    m = cat.SEEPS(['tp'], c, DRY_MM, 0.125, 0.875)
    want, mask = expected(pairs, wet, dry, 0.125, 0.875)
    full = np.broadcast_to(mask, want.shape).astype(float)
    dims = ('case', 'init_time', 'lead_time', 'latitude', 'longitude')
    ax = tuple(dims.index(d) for d in case['red'])
    with np.errstate(all='ignore'):
      w = np.nansum(want * full, axis=ax) / full.sum(axis=ax)
    got = mu.value(m, {'tp': p}, {'tp': t}, case['red'], masked=True)['m.tp']
    rest = [d for d in dims if d not in case['red']]
    check(close(got.transpose(*rest).values, w, 1e-6, 1e-6), 'mean score')
    rec.trace(outcome=case['red'])


CHECK = C17
