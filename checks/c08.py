"""C08: bin membership follows the documented rule for every unit and bin."""

import datetime
import fractions
import itertools
import math

import numpy as np
import xarray as xr

from mc import core
from mc.xrutil import check, fail
from weatherbenchX import aggregation
from weatherbenchX import binning

LATS = (-90.0, -60.0, -45.25, -30.0, 0.0, 0.5, 30.0, 45.0, 60.0, 90.0)
LONS = (-180.0, -179.5, -90.0, -0.5, 0.0, 0.5, 10.0, 90.0, 179.5, 180.0, 190.0,
        270.0, 350.0, 359.5, 360.0)
LON_EDGES = (-180, -90, -10, 0, 10, 90, 180, 190, 350, 360)
LAT_EDGES = (-90, -30, 0, 30, 60, 90)
TIMES = ('2019-12-30T21:17:05', '2019-12-31T23:59:59', '2020-01-01T00:00:00',
         '2020-02-29T12:30:00', '2020-03-01T06:00:59', '2020-12-31T18:00:00',
         '2021-01-01T00:00:00', '2021-06-15T12:00:01')
DELTAS = (0, 1, 59, 60, 3599, 3600, 5400, 21600, 86399, 86400, 90000, 604800,
          31536000, -1, -3600)  # seconds


def lat_rule(lat, lims):
  return lims[0] <= lat <= lims[1]


def lon_rule(lon, lims):
  """On the eastward arc from lims[0] to lims[1], both ends included."""
  width = (lims[1] - lims[0]) % 360
  if width == 0:
    return True  # full circle
  return (lon - lims[0]) % 360 <= width


def grid(lats=LATS, lons=LONS, order=('latitude', 'longitude')):
  shape = dict(latitude=len(lats), longitude=len(lons), t=2)
  return xr.DataArray(
      np.zeros([shape[d] for d in order]), dims=order,
      coords={'latitude': list(lats), 'longitude': list(lons)})


def sparse(lats=LATS, lons=LONS):
  pairs = list(itertools.product(lats, lons))
  return xr.DataArray(
      np.zeros(len(pairs)), dims=['index'],
      coords={'latitude': ('index', [p[0] for p in pairs]),
              'longitude': ('index', [p[1] for p in pairs])})


def layouts_ll():
  yield grid()
  yield grid(LATS[::-1], LONS[::-1], ('longitude', 't', 'latitude'))
  yield sparse()


def time_unit(x, unit):
  """x: python datetime or timedelta."""
  if isinstance(x, datetime.timedelta):
    s = x.days * 86400 + x.seconds
    return {'second': s, 'minute': s // 60, 'hour': s // 3600,
            'day': s // 86400, 'week': s // 604800,
            'year': s // 31536000}[unit]
  return {
      'second': x.second, 'minute': x.minute, 'hour': x.hour, 'day': x.day,
      'month': x.month, 'year': x.year, 'dayofyear': x.timetuple().tm_yday,
      'dayofweek': x.weekday(), 'weekday': x.weekday(),
      'quarter': (x.month - 1) // 3 + 1}[unit]


def py(v):
  """numpy time -> python time, exact to the second."""
  if isinstance(v, np.datetime64):
    return datetime.datetime(1970, 1, 1) + datetime.timedelta(
        seconds=int((v - np.datetime64(0, 's')) / np.timedelta64(1, 's')))
  if isinstance(v, np.timedelta64):
    return datetime.timedelta(seconds=int(v / np.timedelta64(1, 's')))
  return v


def coord_full(stat, name):
  """Values of a coordinate for every unit of stat (broadcast, C order)."""
  return stat[name].broadcast_like(stat).transpose(*stat.dims).values


def members(b, stat):
  """label -> boolean array of the shape of stat, from the public API."""
  mask = b.create_bin_mask(stat)
  d = b.bin_dim_name
  check(d in mask.dims, f'bin dimension {d} missing', mask.dims)
  check(d in mask.coords, f'bins of {d} have no labels')
  extra = set(mask.dims) - set(stat.dims) - {d}
  check(not extra, f'mask has foreign dimensions {extra}')
  labels = mask[d].values.tolist() if mask[d].dtype.kind not in 'mM' else list(
      mask[d].values)
  check(len(set(map(str, labels))) == len(labels), 'duplicate bin labels', labels)
  out = {}
  for i, label in enumerate(labels):
    m = mask.isel({d: i}, drop=True)
    for dim in m.dims:
      if dim in m.indexes and dim in stat.indexes:
        a, c = m.indexes[dim], stat.indexes[dim]
        check(len(a) == len(c) and set(a) == set(c), f'labels of {dim} changed')
        if not a.equals(c):
          m = m.isel({dim: [a.get_loc(x) for x in c]})
    shape = {x: stat.sizes[x] for x in stat.dims}
    v = m.values
    check(np.all((v == 0) | (v == 1)), 'mask is not boolean', v)
    m = xr.DataArray(v.astype(bool), dims=m.dims)
    full = xr.DataArray(np.zeros(list(shape.values()), bool), dims=list(shape))
    out[label] = (full | m).transpose(*stat.dims).values
  return out


def norm(label):
  if isinstance(label, (np.datetime64, np.timedelta64)):
    return ('t', int(label.astype(f'{label.dtype.kind}8[ns]').astype('i8')))
  if isinstance(label, (np.generic,)):
    label = label.item()
  if isinstance(label, (int, float)) and not isinstance(label, bool):
    return ('n', float(label))
  return ('s', str(label))


class C08(core.Check):
  id = 'C08'
  rule = ('each kind of binning with its parameter alphabets (all ordered pairs '
          'of region edges, band widths and ranges, thresholds, units, sets and '
          'interval edges, global and complement bins) on units placed at and '
          'next to every edge, on grid and sparse layouts and dimension orders, '
          'whole and split into every contiguous pair of chunks')
  assumptions = (
      'a unit on the inner edge of two bands whose width is not exact in binary '
      'may be in one of them or in both',)

  # ---- parameter enumeration -------------------------------------------
  def cases(self):
    ll = list(itertools.combinations(LAT_EDGES, 2))
    for i, la in enumerate(ll):
      lons = [p for p in itertools.product(LON_EDGES, repeat=2) if p[0] != p[1]]
      step = 15
      for k in range(0, len(lons), step):
        # several regions at once; land masks on some of them
        yield dict(kind='regions', lat=la, lons=lons[k:k + step],
                   land=(i + k // step) % 3)
    for deg in (180, 90, 60, 45, 30, 22.5, 15, 7.5):
      yield dict(kind='lat', deg=deg, rng=None)
    for deg in (360, 180, 90, 45, 30, 22.5):
      yield dict(kind='lon', deg=deg, rng=None)
    for deg, rng in ((30, (-60, 60)), (15, (30, 90)), (60, (-90, -30)),
                     (0.5, (-1, 1))):
      yield dict(kind='lat', deg=deg, rng=rng)
    for deg, rng in ((90, (-180, 180)), (45, (-180, 180)), (10, (-30, 30)),
                     (10, (350, 10)), (20, (340, 40)), (90, (180, 180)),
                     (0.5, (359, 1)), (15, (170, 200)), (30, (-90, 90)),
                     (60, (90, -90)), (10, (10, -10))):
      yield dict(kind='lon', deg=deg, rng=rng)
    degs = ('0.1', '0.2', '0.3', '0.4', '0.6', '0.7', '0.9', '1.1', '1.2', '1.4',
            '1.8', '2.2', '2.4', '3.6', '4.5', '7', '11', '22.4', '50')
    if self.thorough:
      degs = [f'{k / 10:.1f}' for k in range(1, 200)] + [
          f'{k / 20:.2f}' for k in range(1, 80, 2)]
    for deg in degs:
      few = slice(2 if float(deg) < 0.5 else 4)
      for rng in (None, (-60, 60), (20, 90), (-90, -20.5))[few]:
        yield dict(kind='bands', what='lat', deg=deg, rng=rng)
      for rng in (None, (350, 20), (-180, 180), (-30, 41.5))[few]:
        yield dict(kind='bands', what='lon', deg=deg, rng=rng)
    for what in ('lat1', 'lat0.25', 'lon1', 'lon0.25', 'lon2.5', 'exact', 'edges',
                 'sets', 'regions', 'dates', 'strings'):
      for n in (127, 129, 257, 300) + ((1025, 2000) if self.thorough else ()):
        yield dict(kind='many', what=what, n=n)
    for thr in (0.0, 0.25, 0.5, 1.0):
      for g in (False, True):
        yield dict(kind='landsea', thr=thr, glob=g)
    for coord in ('station', 'lead_time', 'num', 'valid_time', 'elev', 'vt2'):
      for g in (False, True):
        yield dict(kind='exact', coord=coord, glob=g)
    for unit in ('second', 'minute', 'hour', 'day', 'month', 'year',
                 'dayofyear', 'dayofweek', 'weekday', 'quarter'):
      for coord in ('init_time', 'valid_time', 'vt2'):
        for g in (False, True):
          yield dict(kind='unit', unit=unit, coord=coord, glob=g)
    for unit in ('second', 'minute', 'hour', 'day', 'week', 'year'):
      for coord in ('lead_time', 'lead_dim'):
        for g in (False, True):
          yield dict(kind='unit', unit=unit, coord=coord, glob=g)
    for unit, sets in (
        ('hour', {'00/12': [0, 12], '06/18': (6, 18)}),
        ('hour', {'a': [0], 'b': 12, 'all': list(range(24)), 'none': []}),
        ('month', {'DJF': [12, 1, 2], 'MAM': [3, 4, 5], 'x': 6}),
        ('year', {'y19': 2019, 'y20': [2020], 'both': [2019, 2020]}),
        ('dayofyear', {'ends': [1, 365, 366], 'leap': [60]}),
        ('minute', {'0': [0], '30': [30, 17]})):
      for coord in ('init_time', 'valid_time', 'vt2'):
        for g in (False, True):
          yield dict(kind='unitset', unit=unit, sets=sets, coord=coord, glob=g)
    for unit, sets in (('hour', {'early': [0, 1], 'late': [6, 24, 25]}),
                       ('day', {'d0': 0, 'd1': [1, 7], 'neg': [-1]})):
      for coord in ('lead_time', 'lead_dim'):
        for g in (False, True):
          yield dict(kind='unitset', unit=unit, sets=sets, coord=coord, glob=g)
    for unit in ('second', 'minute', 'hour'):
      for bins in (None, [0], [0, 1, 6], [24, 2, 0], [60, 3600, 59, 1]):
        yield dict(kind='secs', unit=unit, bins=bins)
    edges = (-1.5, 0.0, 0.5, 2.0, 7.0)
    for k in range(2, 6):
      for e in itertools.combinations(edges, k):
        for g in (False, True):
          yield dict(kind='bins', edges=e, coord='num', glob=g)
    for e in ((0, 6), (0, 3600, 5400, 86400), (-3600, 0, 21600, 10**8)):
      yield dict(kind='bins', edges=e, coord='lead_time', glob=False)
    names = ('a', 'b', 'c', 'dd')
    for k in range(0, 5):
      for sub in itertools.combinations(names, k):
        for comp in (False, True):
          for g in (False, True):
            yield dict(kind='sets', sets={'s': list(sub), 't': ('a', 'zz'),
                                          'u': 'c'},
                       coord='station', comp=comp, glob=g)
    for comp in (False, True):
      for g in (False, True):
        yield dict(kind='sets', sets={'s': [0, 2], 't': 0.5, 'u': (7, -1.5)},
                   coord='num', comp=comp, glob=g)

  # ---- statistics to bin -----------------------------------------------
  def stats(self, case):
    k = case['kind']
    if k in ('regions', 'lat', 'lon'):
      return list(layouts_ll())
    if k == 'landsea':
      return [grid(), grid(order=('longitude', 't', 'latitude'))]
    if k == 'secs':
      v = np.array([s for s in DELTAS if s >= 0])
      out = [xr.DataArray(np.zeros(len(v)), dims=['i'],
                          coords={'seconds': ('i', v)})]
      out.append(xr.DataArray(np.zeros((2, len(v))), dims=['x', 'seconds'],
                              coords={'seconds': v}))
      out.append(xr.DataArray(np.zeros(3), dims=['x'], coords={'seconds': 3600}))
      return out
    n = 15
    t = np.array([TIMES[i % len(TIMES)] for i in range(n)], 'datetime64[ns]')
    lt = np.array(DELTAS[:n], 'timedelta64[s]').astype('timedelta64[ns]')
    obs = xr.DataArray(
        np.zeros(n), dims=['index'],
        coords={
            'station': ('index', [('a', 'b', 'c', 'dd', 'e')[i % 5]
                                  for i in range(n)]),
            'num': ('index', [(-1.5, 0.0, 0.25, 0.5, 2.0, 6.5, 7.0, -2.0)[i % 8]
                              for i in range(n)]),
            'elev': ('index', np.arange(n) % 3),
            'valid_time': ('index', t), 'lead_time': ('index', lt),
            'init_time': ('index', t - lt[::-1])})
    init = np.array(TIMES, 'datetime64[ns]')
    lead = np.array(DELTAS, 'timedelta64[s]').astype('timedelta64[ns]')
    box = xr.DataArray(
        np.zeros((len(init), 2, len(lead))), dims=['init_time', 'z', 'lead_dim'],
        coords={'init_time': init, 'lead_dim': lead,
                'vt2': (('init_time', 'lead_dim'), init[:, None] + lead[None]),
                'valid_time': ('init_time', init),
                'lead_time': ('lead_dim', lead)})
    out = []
    for s in (obs, obs.isel(index=slice(0, 0)), obs.isel(index=[3]),
              box.isel(lead_dim=slice(0, 4)), box.transpose(),
              box.isel(lead_dim=2, z=0)):
      c = case['coord']
      if c in s.coords and (k == 'unit' or c not in s.dims or k == 'unitset'):
        if c == 'init_time' and k in ('exact', 'bins') and c in s.dims:
          continue
        if s.size == 0 and k in ('unit', 'unitset'):
          pass
        out.append(s)
    return out

  # ---- the binning under test and the reference rule -------------------
  def make(self, case, stat):
    """Returns (binning, ordered {label: rule(unit dict) -> bool}, exact)."""
    k = case['kind']
    g = case.get('glob', False)
    if k == 'regions':
      regions, rules = {}, {}
      for i, lo in enumerate(case['lons']):
        regions[f'r{i}'] = (tuple(case['lat']), tuple(lo))
      land = None
      if case['land'] and 'longitude' in stat.dims:
        la = stat.latitude.values
        la = la if case['land'] == 1 else la
        land = xr.DataArray(
            (np.arange(stat.sizes['latitude'])[:, None]
             + np.arange(stat.sizes['longitude'])[None]) % 3 == 0,
            dims=['latitude', 'longitude'],
            coords={'latitude': la, 'longitude': stat.longitude.values})
      for n, (la, lo) in regions.items():
        rules[n] = lambda u, la=la, lo=lo: (
            lat_rule(u['latitude'], la) and lon_rule(u['longitude'], lo))
      if land is not None:
        lut = {(a, o): bool(land.values[i, j])
               for i, a in enumerate(land.latitude.values.tolist())
               for j, o in enumerate(land.longitude.values.tolist())}
        for n, (la, lo) in regions.items():
          rules[f'{n}_land'] = lambda u, la=la, lo=lo: (
              lat_rule(u['latitude'], la) and lon_rule(u['longitude'], lo)
              and lut[u['latitude'], u['longitude']])
      return binning.Regions(regions, land_sea_mask=land), rules, ()
    if k == 'lat':
      kw = {} if case['rng'] is None else dict(lat_range=tuple(case['rng']))
      lo, hi = case['rng'] or (-90, 90)
      n = int(round((hi - lo) / case['deg']))
      rules = {lo + i * case['deg']: (
          lambda u, a=lo + i * case['deg']: lat_rule(
              u['latitude'], (a, a + case['deg']))) for i in range(n)}
      return binning.LatitudeBins(case['deg'], **kw), rules, ()
    if k == 'lon':
      kw = {} if case['rng'] is None else dict(lon_range=tuple(case['rng']))
      lo, hi = case['rng'] or (0, 360)
      if lo >= hi:
        hi += 360
      n = int(round((hi - lo) / case['deg']))
      rules = {(lo + i * case['deg']) % 360: (
          lambda u, a=lo + i * case['deg']: lon_rule(
              u['longitude'], (a, a + case['deg']))) for i in range(n)}
      return binning.LongitudeBins(case['deg'], **kw), rules, ()
    if k == 'landsea':
      vals = (0.0, 0.2, 0.25, 0.5, 0.75, 1.0, 0.49999)
      lut = {}
      arr = np.zeros((len(LATS), len(LONS)))
      for i, a in enumerate(LATS):
        for j, o in enumerate(LONS):
          arr[i, j] = lut[a, o] = vals[(i * 3 + j) % len(vals)]
      frac = xr.DataArray(arr, dims=['latitude', 'longitude'],
                          coords={'latitude': list(LATS),
                                  'longitude': list(LONS)})
      f = lambda u: lut[u['latitude'], u['longitude']]
      rules = {'land': lambda u: f(u) >= case['thr'],
               'sea': lambda u: not f(u) >= case['thr']}
      if g:
        rules['global'] = lambda u: True
      b = binning.LandSea(frac, case['thr'], include_global_mask=g)
      return b, rules, ()
    c = case.get('coord')
    if k == 'exact':
      uniq = sorted(set(coord_full(stat, c).ravel().tolist()))
      arr = np.unique(coord_full(stat, c))
      rules = {}
      for v in arr:
        label = v
        if g and arr.dtype.kind != 'U':
          label = str(np.array([v]).astype(str)[0])
        rules[label] = lambda u, v=v: u[c] == v
      if g:
        rules['global'] = lambda u: True
      del uniq
      return binning.ByExactCoord(c, add_global_bin=g), rules, ('strlabels',)
    if k == 'unit':
      us = sorted({time_unit(py(v), case['unit'])
                   for v in coord_full(stat, c).ravel()})
      rules = {}
      for v in us:
        rules[v] = lambda u, v=v: time_unit(py(u[c]), case['unit']) == v
      if g:
        rules['global'] = lambda u: True
      b = binning.ByTimeUnit(case['unit'], c, add_global_bin=g)
      return b, rules, ('numlabels',) if g else ()
    if k == 'unitset':
      rules = {}
      for n, s in case['sets'].items():
        ss = set(s) if isinstance(s, (list, tuple)) else {s}
        rules[n] = lambda u, ss=ss: time_unit(py(u[c]), case['unit']) in ss
      if g:
        rules['global'] = lambda u: True
      return binning.ByTimeUnitSets(case['sets'], case['unit'], c,
                                    add_global_bin=g), rules, ()
    if k == 'secs':
      d = {'second': 1, 'minute': 60, 'hour': 3600}[case['unit']]
      bins = case['bins']
      labels = bins if bins is not None else list(
          range(24 if case['unit'] == 'hour' else 60))
      rules = {v: lambda u, v=v: int(u['seconds']) // d == v for v in labels}
      return binning.ByTimeUnitFromSeconds(case['unit'], 'seconds', bins), rules, ()
    if k == 'bins':
      e = list(case['edges'])
      conv = lambda x: x
      if c == 'lead_time':
        e = [np.timedelta64(x, 's').astype('timedelta64[ns]') for x in e]
      rules = {}
      for a, b in zip(e[:-1], e[1:]):
        label = str(a) if g else a
        rules[label] = lambda u, a=a, b=b: a <= u[c] < b
      if g:
        rules['global'] = lambda u: True
      del conv
      return binning.ByCoordBins(c, np.array(e), add_global_bin=g), rules, (
          'numlabels',) if g else ()
    if k == 'sets':
      rules = {}
      for n, s in case['sets'].items():
        ss = set(s) if isinstance(s, (list, tuple)) else {s}
        rules[n] = lambda u, ss=ss: u[c] in ss
        if case['comp']:
          rules[f'not_in_{n}'] = lambda u, ss=ss: u[c] not in ss
      if g:
        rules['global'] = lambda u: True
      return binning.BySets(case['sets'], c, 'bin', case['comp'], g), rules, ()
    raise ValueError(k)

  def label_key(self, label, flags):
    if 'numlabels' in flags and isinstance(label, str):
      try:
        return ('n', float(label))
      except ValueError:
        return norm(label)
    return norm(label)

  def k_many(self, case, rec):
    """Hundreds of bins over hundreds of units."""
    what, n = case['what'], case['n']
    i = np.arange(3 * n)
    lat = -90 + (i * 37 % 1441) / 8.0
    lon = (i * 113 % 2881) / 8.0
    num = (i * 7 % n).astype(float)
    day = np.datetime64('2019-12-01', 'ns') + (i * 5 % n) * np.timedelta64(1, 'D')
    sta = np.array([f'S{j:04d}' for j in i * 11 % n])
    stat = xr.DataArray(np.zeros(len(i)), dims=['index'], coords={
        'latitude': ('index', lat), 'longitude': ('index', lon),
        'num': ('index', num), 'day': ('index', day), 'sta': ('index', sta)})
    if what[:3] == 'lat':
      d = float(what[3:])
      b = binning.LatitudeBins(d)
      want = {-90 + k * d: (lat >= -90 + k * d) & (lat <= -90 + (k + 1) * d)
              for k in range(int(180 / d))}
    elif what[:3] == 'lon':
      d = float(what[3:])
      b = binning.LongitudeBins(d)
      want = {k * d: (lon - k * d) % 360 <= d for k in range(int(360 / d))}
    elif what == 'exact':
      b = binning.ByExactCoord('num')
      want = {v: num == v for v in np.unique(num)}
    elif what == 'dates':
      b = binning.ByExactCoord('day')
      want = {v: day == v for v in np.unique(day)}
    elif what == 'strings':
      b = binning.ByExactCoord('sta')
      want = {v: sta == v for v in np.unique(sta)}
    elif what == 'edges':
      e = np.arange(0, n + 1, 0.5)
      b = binning.ByCoordBins('num', e)
      want = {x: (num >= x) & (num < y) for x, y in zip(e[:-1], e[1:])}
    elif what == 'sets':
      sets = {f's{k}': [float(k), float((k * k + 1) % n), -1.0] for k in range(n)}
      b = binning.BySets(sets, 'num', 'bin')
      want = {k: np.isin(num, v) for k, v in sets.items()}
    else:
      reg = {f'r{k}': ((-90 + k % 60, -29 + k % 100),
                       (k % 360, (k * 7 + 9) % 360))
             for k in range(n) if (k * 6 + 9) % 360}
      b = binning.Regions(reg)
      want = {k: (lat >= a) & (lat <= c) & ((lon - e) % 360 <= (f - e) % 360)
              for k, ((a, c), (e, f)) in reg.items()}
    got = {norm(k): v for k, v in members(b, stat).items()}
    want = {norm(k): v for k, v in want.items()}
    rec.transition()
    check(set(got) == set(want), f'{case}: bins {sorted(set(got) ^ set(want))[:5]}'
          ' are not both expected and present')
    for k, w in want.items():
      bad = np.flatnonzero(got[k] != w)
      if len(bad):
        j = bad[0]
        fail(f'{case}: bin {k[1]} has {got[k][j]} for latitude {lat[j]} longitude'
             f' {lon[j]} value {num[j]} day {day[j]} station {sta[j]}')
    agg = aggregation.Aggregator(reduce_dims=['index'], bin_by=[b])
    state = agg.aggregate_statistics({'s': {'v': stat + i}})
    sw, sws = state.sum_weights['s']['v'], state.sum_weighted_statistics['s']['v']
    labels = list(sw[b.bin_dim_name].values)
    check(len(labels) == len(want), 'number of aggregated bins')
    for j, lab in enumerate(labels):
      m = want[norm(lab)]
      check(float(sw[j]) == m.sum() and float(sws[j]) == i[m].sum(),
            f'{case}: aggregate of bin {lab}', float(sw[j]), m.sum())
    rec.nodes += len(want) * len(i)
    rec.trace(outcome=(what, n))

  def k_bands(self, case, rec):
    """Bands of any width: their number, and where every unit belongs.

    Whether a unit on an inner edge is in both adjacent bands or in one of them
    is up to rounding, when the width is not exact in binary.
    """
    deg, lon = fractions.Fraction(case['deg']), case['what'] == 'lon'
    lo, hi = case['rng'] or ((0, 360) if lon else (-90, 90))
    kw = {} if case['rng'] is None else {
        f"{case['what']}_range": tuple(case['rng'])}
    lo, hi = fractions.Fraction(lo), fractions.Fraction(hi)
    if lo >= hi:
      hi += 360
    n = math.ceil((hi - lo) / deg)
    cls = binning.LongitudeBins if lon else binning.LatitudeBins
    b = cls(float(deg), **kw)
    eps = fractions.Fraction(1, 10**6)
    stride = max(1, n // (400 if self.thorough else 60))
    ks = sorted({k for k in range(n) if k % stride == 0} | {0, 1, n - 2, n - 1}
                & set(range(n)))
    xs = {hi, lo, hi - eps, lo + eps}
    for k in ks:
      e = lo + k * deg
      xs |= {e, e + eps, e + deg / 2, e - eps}
    round_ = lon and hi - lo == 360
    xs = sorted(x for x in xs if lo <= x <= hi and not (round_ and x == hi))
    if lon:  # either convention
      val = [float(x % 360 if i % 2 else (x + 180) % 360 - 180)
             for i, x in enumerate(xs)]
    else:
      val = [float(x) for x in xs]
    stat = xr.DataArray(np.zeros(len(val)), dims=['index'], coords={
        'longitude' if lon else 'latitude': ('index', val)})
    mask = b.create_bin_mask(stat).transpose(b.bin_dim_name, 'index')
    rec.transition()
    m = mask.values.astype(bool)
    labels = mask[b.bin_dim_name].values
    check(len(labels) == n, f'{case}: {len(labels)} bands instead of {n}',
          labels[-2:])
    for k in (*ks,):
      want = float((lo + k * deg) % 360 if lon else lo + k * deg)
      d = abs(labels[k] - want)
      check(min(d, 360 - d) < 1e-6 if lon else d < 1e-6,
            f'{case}: band {k} is labelled {labels[k]} instead of {want}')
    full = round_ and n * deg > 360
    for j, x in enumerate(xs):
      k = (x - lo) // deg
      near = (x - lo) - k * deg
      edge = min(near, deg - near) < eps / 10
      members_ = set(np.flatnonzero(m[:, j]))
      ok = {int(k)}
      if edge:
        k = round((x - lo) / deg)
        ok = {k - 1, k}
      if round_ and edge and k in (0, n):
        ok |= {0, n - 1}
      if full:  # the last band reaches into the first ones again
        ok |= {n - 1} if (x - lo) <= n * deg - 360 else set()
        check(members_ & ok, f'{case}: {val[j]} is in no band')
      ok &= set(range(n))
      check(members_, f'{case}: {val[j]} is in no band')
      check(members_ <= ok, f'{case}: {val[j]} is in bands '
            f'{sorted(labels[list(members_)])}, expected {sorted(ok)}')
      check(edge or full or members_ == ok, f'{case}: {val[j]}')
    rec.nodes += m.size
    rec.trace(outcome=(n, len(xs)))

  def run_case(self, case, rec):
    if case['kind'] == 'many':
      return self.k_many(case, rec)
    if case['kind'] == 'bands':
      return self.k_bands(case, rec)
    for li, stat in enumerate(self.stats(case)):
      b, rules, flags = self.make(case, stat)
      names = {
          'regions': ('latitude', 'longitude'), 'lat': ('latitude',),
          'lon': ('longitude',), 'landsea': ('latitude', 'longitude'),
          'secs': ('seconds',)}.get(case['kind'], (case.get('coord'),))
      cols = {n: coord_full(stat, n) for n in names}
      # the rule of every bin, evaluated once per distinct coordinate value
      cache = {}
      shape = stat.shape
      want = {lab: np.zeros(shape, bool) for lab in rules}
      for idx in np.ndindex(*shape):
        u = {n: v[idx] for n, v in cols.items()}
        key = tuple(str(x) for x in u.values())
        if key not in cache:
          cache[key] = [bool(r(u)) for r in rules.values()]
        for lab, v in zip(rules, cache[key]):
          want[lab][idx] = v
      want_k = {self.label_key(l, flags): v for l, v in want.items()}
      ctx = (case, f'layout {stat.dims}')
      got = members(b, stat)
      rec.transition()
      got_k = {self.label_key(l, flags): v for l, v in got.items()}
      check(set(got_k) == set(want_k),
            f'bins {sorted(got_k)} expected {sorted(want_k)}', *ctx)
      for lab in want_k:
        bad = np.argwhere(got_k[lab] != want_k[lab])
        if len(bad):
          i = tuple(bad[0])
          fail(f'bin {lab[1]}: membership {got_k[lab][i]}, expected '
               f'{want_k[lab][i]}', {n: v[i] for n, v in cols.items()}, *ctx)
      rec.state((case['kind'], tuple(sorted(map(str, want_k))), li))
      rec.trace(outcome=tuple(int(v.sum()) for v in want_k.values()))
      # membership does not depend on the chunk
      for d in stat.dims:
        if stat.sizes[d] < 2 or (case['kind'] == 'regions' and 'r0_land' in rules):
          continue
        if case['kind'] == 'landsea':
          continue  # the fraction has the coordinates of the statistic
        ncut = range(1, stat.sizes[d])
        if case['kind'] == 'regions' and not self.thorough:
          ncut = (stat.sizes[d] // 2,)
        elif d == 'index' and stat.sizes[d] > 20:
          ncut = (1, 7, stat.sizes[d] // 2)
        elif not self.thorough:
          n = stat.sizes[d]
          ncut = sorted({1, n // 2, n - 1})
        for cut in ncut:
          for sl in (slice(0, cut), slice(cut, None)):
            part = stat.isel({d: sl})
            gp = {self.label_key(l, flags): v
                  for l, v in members(b, part).items()}
            rec.transition()
            ax = stat.dims.index(d)
            ix = tuple(sl if i == ax else slice(None) for i in range(stat.ndim))
            for lab in set(want_k) | set(gp):
              check(lab in want_k, f'chunk has a foreign bin {lab}', *ctx)
              w = want_k[lab][ix]
              if lab not in gp:
                check(not w.any(), f'bin {lab} missing in a chunk with members',
                      *ctx)
              else:
                check(np.array_equal(gp[lab], w),
                      f'bin {lab}: membership depends on the chunk', d, sl, *ctx)
      # binned aggregate: the weights count the members
      if stat.size and case['kind'] not in ('secs',):
        st = stat.copy(data=np.arange(stat.size, dtype=float).reshape(stat.shape))
        agg = aggregation.Aggregator(reduce_dims=list(stat.dims), bin_by=[b])
        state = agg.aggregate_statistics({'s': {'v': st}})
        rec.transition()
        sw = state.sum_weights['s']['v']
        sws = state.sum_weighted_statistics['s']['v']
        labs = (sw[b.bin_dim_name].values.tolist()
                if sw[b.bin_dim_name].dtype.kind not in 'mM'
                else list(sw[b.bin_dim_name].values))
        for i, lab in enumerate(labs):
          m = want_k[self.label_key(lab, flags)]
          check(float(sw[i]) == m.sum(), f'weight of bin {lab} is {float(sw[i])},'
                f' expected {m.sum()}', *ctx)
          check(float(sws[i]) == st.values[m].sum(), f'sum of bin {lab}', *ctx)
        rec.trace()


CHECK = C08
