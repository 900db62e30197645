"""C19: gridded loaders return exactly the data of the requested times."""

import itertools
import pickle
import tempfile

import numpy as np
import xarray as xr

from mc import core
from mc.xrutil import check, close, fail
from weatherbenchX import interpolations
from weatherbenchX import time_chunks
from weatherbenchX.data_loaders import xarray_loaders as xl

NS = 'datetime64[ns]'
H = np.timedelta64(3600 * 10**9, 'ns')
LAT, LON = np.array([20.0, -10.0]), np.array([350.0, 5.0, 90.0])
LEVEL = np.array([850, 500])
# Stored times. The store of forecasts is not sorted by time.
INIT = np.array(['2020-02-28T12', '2020-02-28T00', '2020-02-29T00',
                 '2020-12-31T12'], NS)
LEAD = np.array([6, 0, 12, 18, 48]) * H
VALID = np.unique(np.concatenate([
    (INIT[:, None] + np.array([0, 6, 12, 18, 24, 48])[None] * H).ravel(), INIT]))
VALID = np.roll(VALID, 5)
HOURS = np.array([0, 6, 12, 18])
YEARS = (2018, 2021)


def hours_since(t):
  return ((t - np.datetime64('2018-01-01', 'ns')) / H).astype(int)


def day_of_year(t):
  d = t.astype('datetime64[D]')
  return (d - d.astype('datetime64[Y]').astype('datetime64[D]')).astype(int) + 1


def hour_of(t):
  return (t.astype('datetime64[h]') -
          t.astype('datetime64[D]').astype('datetime64[h]')).astype(int)


VARS = ('t2m', 'z')  # z has levels


def cell(var, tcode):
  """Values of `var` over (..., [level,] latitude, longitude)."""
  tcode = np.asarray(tcode, float)
  v = VARS.index(var)
  i, j = np.arange(2)[:, None], np.arange(3)[None]
  if var == 'z':
    k = np.arange(2)[:, None, None]
    return tcode[..., None, None, None] * 100 + v * 50 + k * 20 + i * 8 + j
  return tcode[..., None, None] * 100 + v * 50 + i * 8 + j


def store(kind):
  if kind == 'forecast':
    t = (hours_since(INIT)[:, None] * 64 + (LEAD / H).astype(int)[None])
    td = ('time', 'prediction_timedelta')
    co = {'time': INIT, 'prediction_timedelta': LEAD}
  elif kind == 'analysis':
    t, td, co = hours_since(VALID), ('time',), {'time': VALID}
  elif kind == 'clim_hour':
    d = np.arange(366, 0, -1)
    t = d[:, None] * 24 + HOURS[None]
    td, co = ('dayofyear', 'hour'), {'dayofyear': d, 'hour': HOURS}
  elif kind == 'clim_day':
    d = np.arange(1, 367)
    t, td, co = d, ('dayofyear',), {'dayofyear': d}
  elif kind == 'years':
    v = np.arange('2018-01-01', '2022-01-02', 6, dtype='datetime64[h]').astype(NS)
    t, td, co = hours_since(v), ('time',), {'time': v}
  co = dict(co, level=LEVEL, lat=LAT, lon=LON)
  return xr.Dataset(
      {'t2m': (td + ('lat', 'lon'), cell('t2m', t)),
       'z': (td + ('level', 'lat', 'lon'), cell('z', t))}, coords=co)


def preprocess(ds):
  # Right after opening, so with the names of the store. Not idempotent.
  assert 'lat' in ds.dims and 'lon' in ds.dims, ds.dims
  return ds.assign(t2m=ds.t2m + 7, z=ds.z + 11)


KINDS = {'predictions': 'forecast', 'targets': 'analysis',
         'clim_hour': 'clim_hour', 'clim_day': 'clim_day',
         'persistence': 'analysis', 'years': 'years'}


# Loader options: (constructor arguments, reference: var -> (source var, levels))
def options(opt, kind):
  kw, names, levels, lat = {}, {'t2m': 't2m', 'z': 'z'}, None, None
  if opt == 'subset':
    kw, names = dict(variables=['z']), {'z': 'z'}
  elif opt == 'order':
    kw, names = dict(variables=iter(['z', 't2m'])), {'z': 'z', 't2m': 't2m'}
  elif opt == 'rename':
    kw = dict(rename_variables={'t2m': 'z', 'z': 'gh'})
    names = {'z': 't2m', 'gh': 'z'}
  elif opt == 'rename_subset':
    kw = dict(rename_variables={'t2m': 'z', 'z': 't2m'}, variables=('z',))
    names = {'z': 't2m'}
  elif opt == 'sel':
    kw, levels = dict(sel_kwargs={'level': 500}), 1
  elif opt == 'sel_list':
    kw = dict(sel_kwargs={'level': [500], 'latitude': slice(15, -20)})
    levels, lat = [1], [1]
  elif opt == 'latlon':
    kw = dict(automatically_convert_lat_lon_to_latitude_longitude=False)
  elif opt == 'preprocess':
    kw = dict(preprocessing_fn=preprocess)
  elif opt == 'dims':
    m = {'forecast': {'time': 'init_time', 'prediction_timedelta': 'lead_time'},
         'analysis': {'time': 'valid_time'}, 'years': {'time': 'valid_time'}}
    kw = dict(rename_dimensions=m.get(kind))
  elif opt == 'all':
    kw = dict(rename_variables={'t2m': 'z', 'z': 't2m'}, variables=('t2m', 'z'),
              sel_kwargs={'level': 850},
              preprocessing_fn=preprocess)
    names, levels = {'t2m': 'z', 'z': 't2m'}, 0
  shift = {'t2m': 7, 'z': 11} if 'preprocessing_fn' in kw else {'t2m': 0, 'z': 0}
  return kw, names, levels, lat, shift


OPTIONS = ('plain', 'subset', 'order', 'rename', 'rename_subset', 'sel',
           'sel_list', 'latlon', 'preprocess', 'dims', 'all')


def make(name, src, opt, interpolation=None):
  """(loader, fresh source dataset or None)."""
  kind = KINDS[name]
  kw = options(opt, kind)[0]
  if interpolation is not None:
    kw['interpolation'] = interpolation
  if isinstance(src, str):
    kw['path'] = src
  else:
    kw['ds'] = src
  if name == 'predictions':
    return xl.PredictionsFromXarray(**kw)
  if name == 'targets':
    return xl.TargetsFromXarray(**kw)
  if name == 'persistence':
    return xl.PersistenceFromXarray(**kw)
  if name == 'clim_hour':
    return xl.ClimatologyFromXarray(**kw)
  if name == 'clim_day':
    return xl.ClimatologyFromXarray(climatology_time_coords=['dayofyear'], **kw)
  return xl.ProbabilisticClimatologyFromXarray(
      start_year=YEARS[0], end_year=YEARS[1] - 1, ensemble_dim='m', **kw)


def expected(name, opt, inits, leads):
  """(var -> array, dims, labels) or None if the request must be rejected."""
  kw, names, levels, lat, shift = options(opt, KINDS[name])
  inits = np.asarray(inits).astype(NS)
  if name == 'predictions':
    if leads is None:
      leads = LEAD
    elif isinstance(leads, slice):
      lo = -10**9 * H if leads.start is None else leads.start
      hi = 10**6 * H if leads.stop is None else leads.stop
      leads = np.array([x for x in LEAD if lo <= x <= hi], 'timedelta64[ns]')
    leads = np.asarray(leads).astype('timedelta64[ns]')
    if not (np.isin(inits, INIT).all() and np.isin(leads, LEAD).all()):
      return None
    t = hours_since(inits)[:, None] * 64 + (leads / H).astype(int)[None]
    dims, labels = ['init_time', 'lead_time'], [inits, leads]
  elif isinstance(leads, slice):
    return None
  elif leads is None:
    if name in ('persistence', 'years'):
      return None
    valid = inits
    dims = ['valid_time' if name == 'targets' else 'init_time']
    labels = [inits]
  else:
    leads = np.asarray(leads).astype('timedelta64[ns]')
    valid = inits[:, None] + leads[None, :]
    dims, labels = ['init_time', 'lead_time'], [inits, leads]
  if name == 'targets':
    if not np.isin(valid, VALID).all():
      return None
    t = hours_since(valid)
  elif name == 'persistence':
    if not np.isin(inits, VALID).all():
      return None
    t = np.broadcast_to(hours_since(inits)[:, None], valid.shape)
  elif name == 'clim_hour':
    if not np.isin(hour_of(valid), HOURS).all():
      return None
    t = day_of_year(valid) * 24 + hour_of(valid)
  elif name == 'clim_day':
    t = day_of_year(valid)
  elif name == 'years':
    if not np.isin(hour_of(valid), HOURS).all():
      return None
    years = np.arange(YEARS[0], YEARS[1])
    start = hours_since(np.array([str(y) for y in years], NS))
    t = (start[:, None, None] +
         ((day_of_year(valid) - 1) * 24 + hour_of(valid))[None])
    dims = ['m'] + dims
    labels = [np.arange(len(years))] + labels
  out = {}
  for v, s in names.items():
    x = cell(s, t) + shift[s]
    d = list(dims)
    n = len(dims)
    la, lo = (('lat', 'lon') if opt == 'latlon' else ('latitude', 'longitude'))
    co = dict(zip(dims, labels))
    if s == 'z':
      if levels is None:
        d.append('level')
        co['level'] = LEVEL
      elif isinstance(levels, int):
        x = np.take(x, levels, n)
      else:
        x = np.take(x, levels, n)
        d.append('level')
        co['level'] = LEVEL[levels]
    d += [la, lo]
    co[la], co[lo] = LAT, LON
    if lat is not None:
      x = np.take(x, lat, d.index(la))
      co[la] = LAT[lat]
    out[v] = (d, co, x)
  return out


def verify(got, want, what, tol=0):
  got = {k: got[k] for k in got}
  if set(got) != set(want):
    fail(f'{what}: variables {sorted(got)}, expected {sorted(want)}')
  for v, (dims, co, x) in want.items():
    g = got[v]
    if set(g.dims) != set(dims):
      fail(f'{what}: {v} has dims {g.dims}, expected {dims}')
    for d in dims:
      if d == 'm':
        check(g.sizes[d] == len(co[d]), f'{what}: {g.sizes[d]} members')
        continue
      if not np.array_equal(g[d].values, co[d]):
        fail(f'{what}: labels of {d} are {g[d].values}, expected {co[d]}')
    y = g.transpose(*dims).values
    if 'm' in dims:  # the order of members is arbitrary
      ax = dims.index('m')
      y, x = np.sort(y, ax), np.sort(x, ax)
    if not close(y, x, tol, tol):
      b = tuple(np.argwhere(y != x)[0])
      where = {d: co[d][i] for d, i in zip(dims, b)}
      fail(f'{what}: {v} at {where} is {y[b]}, expected {x[b]}')


def leads_alphabet(name):
  a = [0, 6, 12, 18, 48]
  out = [[a[i] for i in c] for r in (1, 2) for c in itertools.permutations(
      range(len(a)), r)] + [a, a[::-1], [12, 12]]
  if name in ('clim_hour', 'clim_day', 'years'):
    out += [[-6, 24 * 366], [24 * 59, 24 * 60]]
  if name in ('clim_day', 'persistence'):
    out += [[1, 7]]
  return [np.array(x) * H for x in out]


class C19(core.Check):
  id = 'C19'
  rule = ('all loaders x all loader options x in-memory/chunked/Zarr/NetCDF '
          'sources; all requests of ordered subsets of times of an alphabet '
          '(arrays, intervals, none, absent times); all request histories of '
          'length two (thorough three) on one loader; all chunkings')
  assumptions = ('stored times are unique',)

  def setup(self):
    root = tempfile.mkdtemp(prefix='mc_c19_')
    self.root = root
    self.paths = {}
    for kind in sorted(set(KINDS.values())):
      ds = store(kind)
      self.paths[kind, 'zarr'] = f'{root}/{kind}.zarr'
      ds.to_zarr(f'{root}/{kind}.zarr')
      self.paths[kind, 'nc'] = f'{root}/{kind}.nc'
      ds.to_netcdf(f'{root}/{kind}.nc')

  def source(self, kind, src):
    if src == 'mem':
      return store(kind)
    if src == 'dask':
      return store(kind).chunk()
    if src == 'slash':
      return self.paths[kind, 'zarr'] + '/'
    return self.paths[kind, src]

  def cases(self):
    for name in KINDS:
      for opt in OPTIONS:
        yield {'k': 'single', 'loader': name, 'opt': opt, 'src': 'mem'}
      for src in ('dask', 'zarr', 'slash', 'nc'):
        for opt in ('plain', 'all'):
          yield {'k': 'single', 'loader': name, 'opt': opt, 'src': src}
    for name in KINDS:
      yield {'k': 'absent', 'loader': name}
      for src in ('mem', 'zarr'):
        for opt in ('plain', 'all', 'rename'):
          yield {'k': 'history', 'loader': name, 'opt': opt, 'src': src}
      yield {'k': 'chunks', 'loader': name}
      yield {'k': 'shared', 'loader': name}
      yield {'k': 'arguments', 'loader': name}
      yield {'k': 'reference', 'loader': name}

  def run_case(self, case, rec):
    getattr(self, '_' + case['k'])(case, rec)

  def _request(self, loader, name, opt, inits, leads, rec, what):
    want = expected(name, opt, inits, leads)
    rec.transition()
    rec.nodes += 1
    try:
      got = loader.load_chunk(inits, leads)
    except Exception as e:  # pylint: disable=broad-except
      if want is None:
        rec.trace(1, (name, opt, 'rejected', type(e).__name__))
        return None
      raise
    if want is None:
      fail(f'{what}: inits {inits} leads {leads} must be rejected')
    verify(got, want, what)
    rec.trace(1, (name, opt, float(sum(np.sum(x) for _, _, x in want.values()))))
    return got

  def _inits(self, full=True):
    idx = [c for r in (1, 2) for c in itertools.permutations(range(len(INIT)), r)]
    idx += [(0, 1, 2, 3), (3, 2, 1, 0), (1, 1)] if full else []
    return [INIT[list(c)] for c in idx]

  def _single(self, case, rec):
    name, opt, src = case['loader'], case['opt'], case['src']
    loader = make(name, self.source(KINDS[name], src), opt)
    slow = src != 'mem' and not self.thorough
    inits = self._inits()[::7 if slow else 1]
    leads = leads_alphabet(name)[::(11 if slow else
                                    1 if opt == 'plain' or self.thorough else 5)]
    leads = leads + [None, slice(6 * H, 18 * H), slice(0 * H, 0 * H),
                     slice(7 * H, 11 * H), slice(None, 12 * H),
                     slice(12 * H, None)]
    # A store whose lead times are not sorted does not support intervals.
    for i, l in itertools.product(inits, leads):
      if isinstance(l, slice) and name == 'predictions':
        continue
      self._request(loader, name, opt, i, l, rec, f'{name} {opt} {src}')
    # other time units
    self._request(loader, name, opt, inits[0].astype('datetime64[h]'),
                  np.array([12, 6], 'timedelta64[h]'), rec, 'hourly units')
    if name == 'predictions':
      self._intervals(case, rec)

  def _intervals(self, case, rec):
    """Lead time intervals include both ends."""
    kind, opt, src = KINDS[case['loader']], case['opt'], case['src']
    if not isinstance(self.source(kind, src), xr.Dataset):
      return
    ds = self.source(kind, src).sortby('prediction_timedelta')
    loader = make('predictions', ds, opt)
    h = [None, -6, 0, 3, 6, 12, 17, 18, 48, 60]
    for a, b in itertools.product(h, h):
      if a is not None and b is not None and a > b:
        continue
      sl = slice(None if a is None else a * H, None if b is None else b * H)
      want = expected('predictions', opt, INIT[:2], sl)
      order = np.argsort(list(want.values())[0][1]['lead_time'])
      w = {}
      for v, (d, co, x) in want.items():
        co = dict(co, lead_time=co['lead_time'][order])
        w[v] = (d, co, np.take(x, order, d.index('lead_time')))
      verify(loader.load_chunk(INIT[:2], sl), w, f'leads {a}..{b} h')
      rec.nodes += 1
      rec.transition()
      rec.trace(1, (a, b))

  def _absent(self, case, rec):
    """Requests with any time that is not stored are rejected."""
    name = case['loader']
    loader = make(name, store(KINDS[name]), 'plain')
    bad_i = np.array(['2020-02-28T06', '2019-02-28T00', '2020-02-28T12:00:01',
                      '2021-06-01T01', '2020-03-05T00'], NS)
    bad_l = np.array([3, 54, -6, 7, 24 * 300]) * H
    inits = [np.array([g, b]) for g in INIT[:2] for b in bad_i] + [
        np.array([b]) for b in bad_i] + [INIT[:1], INIT[:2]]
    leads = [np.array([g, b]) for g in LEAD[:2] for b in bad_l] + [
        np.array([b]) for b in bad_l] + [LEAD[:1], LEAD[:3]]
    if name not in ('persistence', 'years'):
      leads += [None]
    for i, l in itertools.product(inits, leads):
      if name in ('clim_hour', 'clim_day', 'years') and (
          (i.astype('datetime64[h]') != i).any()):
        continue  # day of year and hour of the day are defined to truncate
      self._request(loader, name, 'plain', i, l, rec, name)
      if rec.nodes % 5 == 0:  # still right after a rejected request
        self._request(loader, name, 'plain', INIT[:2], LEAD[:2], rec,
                      f'{name} after other requests')

  def _arguments(self, case, rec):
    """Exactly one source, known ways to rename, and known variables."""
    name = case['loader']
    kind = KINDS[name]
    cls = type(make(name, store(kind), 'plain'))
    extra = dict(start_year=YEARS[0], end_year=YEARS[1] - 1) if name == 'years' else (
        dict(climatology_time_coords=['dayofyear']) if name == 'clim_day' else {})
    dims = options('dims', kind)[0]['rename_dimensions']
    for path, ds, rename in itertools.product(
        (False, True), (False, True), (dims, 'ecmwf', 'other', 5)):
      if kind.startswith('clim') and rename == 'ecmwf':
        continue
      good = path != ds and rename in (dims, 'ecmwf')
      rec.transition()
      rec.nodes += 1
      try:
        got = cls(path=self.paths[kind, 'nc'] if path else None,
                  ds=store(kind) if ds else None, rename_dimensions=rename,
                  **extra).load_chunk(INIT[:1], LEAD[:1])
      except ValueError:
        check(not good, f'{name}: valid arguments are rejected', path, ds, rename)
      else:
        check(good, f'{name}: accepts path={path} ds={ds} {rename}')
        check(set(got) == {'t2m', 'z'}, f'{name}: variables')
      rec.trace(1, (path, ds, str(rename)))
    for wanted, rename in itertools.product(
        (['t2m', 'q'], ['q', 'z'], ['q'], ['t2m'], ['gh', 'z'], ['gh']),
        (None, {'t2m': 'gh'}, {'z': 'q'})):
      names = {(rename or {}).get(v, v) for v in ('t2m', 'z')}
      good = set(wanted) <= names
      rec.transition()
      rec.nodes += 1
      try:
        got = cls(ds=store(kind), variables=wanted, rename_variables=rename,
                  **extra).load_chunk(INIT[:1], LEAD[:1])
      except (KeyError, ValueError):
        check(not good, f'{name}: {wanted} of {names} is rejected')
      else:
        check(good, f'{name}: {wanted} of {names} is accepted')
        check(list(got) == wanted, f'{name}: variables {list(got)}')
      rec.trace(1, (tuple(wanted), str(rename)))

  def _reference(self, case, rec):
    """The reference of a request reaches the interpolation of the loader."""
    name = case['loader']
    for opt, src in itertools.product(('plain', 'rename_subset'), ('mem', 'zarr')):
      loader = make(name, self.source(KINDS[name], src), opt, interpolations.
                    InterpolateToReferenceCoords('linear', dims=['latitude']))
      want = expected(name, opt, INIT[:2], LEAD[:2])
      for lats in ([-10.0, 20.0], [5.0], [-10.0, -2.5, 12.5]):
        ref = xr.DataArray(np.zeros(len(lats)), dims='latitude',
                           coords={'latitude': lats})
        got = loader.load_chunk(INIT[:2], LEAD[:2], {v: ref for v in want})
        w = np.array([(x + 10) / 30 for x in lats])  # weight of 20 degrees
        full = {}
        for v, (dims, co, x) in want.items():
          x = np.moveaxis(x, dims.index('latitude'), -1)
          x = x[..., :1] * w + x[..., 1:] * (1 - w)
          full[v] = (dims, dict(co, latitude=np.array(lats)),
                     np.moveaxis(x, -1, dims.index('latitude')))
        verify(got, full, f'{name} {opt} {src} at latitudes {lats}', 1e-9)
        rec.transition()
        rec.nodes += 1
        rec.trace(1, (name, opt, src, tuple(lats)))

  def _history(self, case, rec):
    name, opt, src = case['loader'], case['opt'], case['src']
    reqs = [(INIT[:1], LEAD[:2]), (INIT[[2, 0]], LEAD[[1, 0]]),
            (INIT[::-1], LEAD[2:4]),
            (np.array(['2020-02-28T06'], NS), LEAD[:1] + 3 * H),  # absent
            (INIT[:2], None)]
    depth = 3 if self.thorough else 2
    steps = list(range(len(reqs))) + ['prepare', 'pickle']
    for seq in itertools.product(steps, repeat=depth):
      if src != 'mem' and not self.thorough and 3 not in seq and 'pickle' not in seq:
        continue
      loader = make(name, self.source(KINDS[name], src), opt)
      for i, s in enumerate(seq):
        if s == 'prepare':
          loader.maybe_prepare_dataset()
        elif s == 'pickle':
          import cloudpickle  # what Beam uses for closures
          loader = pickle.loads(cloudpickle.dumps(loader))
        else:
          self._request(loader, name, opt, reqs[s][0], reqs[s][1], rec,
                        f'{name} {opt} {src} after {seq[:i]}')
      self._request(loader, name, opt, reqs[1][0], reqs[1][1], rec,
                    f'{name} {opt} {src} after {seq}')

  def _chunks(self, case, rec):
    """Splitting a request with TimeChunks gives the parts of the whole."""
    name = case['loader']
    loader = make(name, store(KINDS[name]), 'plain')
    whole = loader.load_chunk(INIT, LEAD)
    for ic, lc in itertools.product((None, 1, 2, 3), (None, 1, 2, 4)):
      tc = time_chunks.TimeChunks(INIT, LEAD, init_time_chunk_size=ic,
                                  lead_time_chunk_size=lc)
      for i, l in tc:
        part = loader.load_chunk(i, l)
        for v in whole:
          w = whole[v].sel(init_time=i, lead_time=l)
          check(close(part[v].transpose(*w.dims).values, w.values, 0, 0),
                f'{name} chunk {i} {l} differs from the whole')
        rec.nodes += 1
        rec.transition()
        rec.trace(1)
    rec.outcome((name, float(whole['t2m'].sum())))

  def _shared(self, case, rec):
    """Loaders that share a source do not affect each other nor the source."""
    name = case['loader']
    kind = KINDS[name]
    ds = store(kind)
    ref = ds.copy(deep=True)
    for a, b in itertools.permutations(OPTIONS, 2):
      la, lb = make(name, ds, a), make(name, ds, b)
      for l, o in ((la, a), (lb, b), (la, a)):
        self._request(l, name, o, INIT[:2], LEAD[1:3], rec,
                      f'{name} {a}+{b} of one source')
    check(ds.identical(ref), f'{name}: the source dataset was modified')


CHECK = C19
