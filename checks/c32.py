"""C32: the evaluation scripts write the scores of the requested evaluation."""

import contextlib
import functools
import importlib.util
import io
import itertools
import math
import os
import shutil
import sys
import tempfile
import types

from absl import flags
import numpy as np
import xarray as xr

from mc import core
from mc.xrutil import check, fail

H = np.timedelta64(1, 'h').astype('m8[ns]')
LAT = [-75.0, -45.0, -15.0, 15.0, 45.0, 75.0]
LON = [0.0, 45.0, 90.0, 135.0, 180.0, 225.0, 270.0, 315.0]
LEVEL = [500, 600, 700, 850]
USED = [500, 700, 850]
START = np.datetime64('2020-01-01T00', 'ns')
TP = 'total_precipitation_6hr'
T24 = 'total_precipitation_24hr'
DRY = {TP: 1e-4, T24: 2.5e-4}
UPPER = ['geopotential', 'u_component_of_wind', 'v_component_of_wind']
SURFACE = ['2m_temperature', '10m_u_component_of_wind',
           '10m_v_component_of_wind', TP, T24]
LEVELED = UPPER + ['temperature', 'specific_humidity']
ALL = UPPER + SURFACE + LEVELED[3:] + ['mean_sea_level_pressure']
LAND = ((np.arange(48).reshape(6, 8) * 7) % 5 < 2).astype(float)

REGIONS = {
    'global': ((-90, 90), (0, 360)),
    'tropics': ((-20, 20), (0, 360)),
    'northern-hemisphere': ((20, 90), (0, 360)),
    'southern-hemisphere': ((-90, -20), (0, 360)),
    'europe': ((35, 75), (-12.5, 42.5)),
    'north-america': ((25, 60), (360 - 120, 360 - 75)),
    'north-atlantic': ((25, 65), (360 - 70, 360 - 10)),
    'north-pacific': ((25, 60), (145, 360 - 130)),
    'east-asia': ((25, 60), (102.5, 150)),
    'ausnz': ((-45, -12.5), (120, 175)),
    'arctic': ((60, 90), (0, 360)),
    'antarctic': ((-90, -60), (0, 360)),
    'northern-africa': ((5, 32.5), (-12.5, 37.5)),
    'southern-africa': ((-30, 5), (12.5, 37.5)),
    'south-america': ((-40, 5), (-75, -45)),
    'west-asia': ((15, 60), (42.5, 102.5)),
    'south-east-asia': ((-12.5, 25), (95, 125)),
}


def members(lims):
  """Whether each cell is in a region."""
  (a, b), (c, d) = lims
  width = (d - c) % 360
  return np.array([[a <= la <= b and (width == 0 or (lo - c) % 360 <= width)
                    for lo in LON] for la in LAT])


@functools.lru_cache(None)
def areas():
  out = []
  for la in LAT:
    out.append(math.sin(math.radians(la + 15)) -
               math.sin(math.radians(la - 15)))
  return np.repeat(np.array(out)[:, None], len(LON), axis=1)


def noise(*ids):
  """Reproducible numbers between 0 and 1 for arrays of integers."""
  x = sum((np.asarray(i) + 3.7) * p for i, p in
          zip(ids, (12.9898, 78.233, 37.719, 4.581, 9.131, 23.77, 51.3)))
  y = np.sin(x) * 43758.5453
  return y - np.floor(y)


def hours(t):
  return ((np.asarray(t, 'datetime64[ns]') - START) / H).astype(int)


def field(kind, var, t, level, member=0):
  """(len(t), 6, 8) values at times t of the data kind (an integer)."""
  v = ALL.index(var)
  i, j = np.meshgrid(range(6), range(8), indexing='ij')
  x = noise(kind, v, hours(t).reshape(-1, 1, 1), i, j, level, member)
  return 1e-3 * x if var in DRY else 10 * x + 250


def day(t):
  t = np.asarray(t, 'datetime64[ns]')
  return (t.astype('M8[D]') - t.astype('M8[Y]').astype('M8[D]')).astype(int) + 1


def hour(t):
  t = np.asarray(t, 'datetime64[ns]')
  return ((t - t.astype('M8[D]').astype('M8[ns]')) / H).astype(int)


def clim_field(what, var, d, h, level):
  i, j = np.meshgrid(range(6), range(8), indexing='ij')
  v = ALL.index(var)
  if what == 'mean':
    x = noise(91, v, d, h, i, j, level)
    return 1e-3 * x if var in DRY else 10 * x + 250
  if what == 'wet':
    return 4e-4 + 3e-4 * noise(92, v, d, h, i, j)
  return 0.05 + 0.9 * noise(93, v, i, j)  # dry fraction; some are masked


SEEPS_TABLE = {(0, 1): lambda p: 1 / (1 - p), (0, 2): lambda p: 4 / (1 - p),
               (1, 0): lambda p: 1 / p, (1, 2): lambda p: 3 / (1 - p),
               (2, 0): lambda p: 1 / p + 3 / (2 + p),
               (2, 1): lambda p: 3 / (2 + p)}


def seeps(f, o, wet, p1, dry):
  out = np.zeros(np.broadcast(f, o, wet, p1).shape)
  cat = lambda x: np.where(x <= dry, 0, np.where(x < wet, 1, 2))
  fc, oc = cat(f), cat(o)
  p = np.broadcast_to(p1, out.shape)
  for (a, b), s in SEEPS_TABLE.items():
    out = np.where((fc == a) & (oc == b), 0.5 * s(p), out)
  return out


class Data:
  """The datasets of one evaluation, and the values they contain."""

  def __init__(self, tmp, times, variables, doys, flip=(), dtype='f8',
               dims=('latitude', 'longitude')):
    self.tmp = tmp
    self.vars = variables
    self.flip = flip
    self.dtype = dtype
    self.dims = dims
    self.cfg = dict(target_configs={}, climatology_configs={},
                    deterministic_prediction_configs={},
                    probabilistic_prediction_configs={})
    self.times = times
    for name in ('era5', 'hres_t0'):
      self.target(name, times)
    self.climatology(doys)

  def levels(self, var):
    return LEVEL if var in LEVELED else [None]

  def write(self, name, variables, flip):
    """variables: name -> (leading dims and labels, fn(level) -> array)."""
    out = {}
    for v, (lead, fn) in variables.items():
      shape = [len(l) for l in lead.values()]
      per = [np.asarray(fn(l)).reshape(shape + [6, 8]) for l in self.levels(
          v)] if v in LEVELED else [np.asarray(fn(0)).reshape(shape + [6, 8])]
      co = dict(lead, latitude=LAT, longitude=LON)
      dims = list(lead) + ['latitude', 'longitude']
      if v in LEVELED:
        da = xr.DataArray(np.stack(per, len(shape)).astype(self.dtype),
                          dims=list(lead) + ['level', 'latitude', 'longitude'],
                          coords=dict(co, level=LEVEL))
      else:
        da = xr.DataArray(per[0].astype(self.dtype), dims=dims, coords=co)
      out[v] = da.transpose(*[d for d in da.dims if d not in self.dims],
                            *self.dims)
    ds = xr.Dataset(out)
    if flip:
      ds = ds.isel(latitude=slice(None, None, -1))
    path = os.path.join(self.tmp, name + '.zarr')
    ds.to_zarr(path, consolidated=True)
    return path

  def target(self, name, times):
    kind = 1 if name == 'era5' else 5
    vs = [v for v in self.vars if name == 'era5' or v not in DRY]
    dv = {v: ({'time': times}, functools.partial(field, kind, v, times))
          for v in vs}
    if name == 'era5':
      dv['land_sea_mask'] = ({}, lambda l: LAND)
    path = self.write(name, dv, name in self.flip)
    self.cfg['target_configs'][f'{name}_64x32'] = {
        'path': path, 'variables': vs,
        'data_loader_kwargs': {
            'preprocessing_fn': lambda ds: ds.sortby('latitude')}}

  def climatology(self, doys):
    hs = [0, 6, 12, 18]
    d, h = np.meshgrid(doys, hs, indexing='ij')
    d, h = (x.reshape(x.shape + (1, 1)) for x in (d, h))
    lead = {'dayofyear': list(doys), 'hour': hs}
    dv = {v: (lead, functools.partial(clim_field, 'mean', v, d, h))
          for v in self.vars}
    for v in set(DRY) & set(self.vars):
      dv[v + '_seeps_threshold'] = (
          lead, lambda l, v=v: clim_field('wet', v, d, h, 0))
      dv[v + '_seeps_dry_fraction'] = (
          lead, lambda l, v=v: np.broadcast_to(clim_field('dry', v, d, h, 0),
                                               d.shape[:2] + (6, 8)))
    path = self.write('climatology', dv, 'climatology' in self.flip)
    for y in (2018, 2020, 2022):
      self.cfg['climatology_configs'][f'era5_64x32_{y}'] = {
          'path': path, 'variables': list(self.vars),
          'data_loader_kwargs': {
              'preprocessing_fn': lambda ds: ds.sortby('latitude')}}

  def prediction(self, name, inits, leads, year=2020, members=0, missing=False,
                 names=('time', 'prediction_timedelta', 'number'), **config):
    valid = (np.asarray(inits)[:, None] + np.asarray(leads)[None]).reshape(-1)
    base = [2] if not members else range(2, 2 + members)
    def fn(v, level):
      x = np.stack([self.forecast(v, valid, level, m, missing) for m in base],
                   0)
      return x if members else x[0]
    lead = {names[0]: inits, names[1]: leads}
    if members:
      lead = {names[2]: list(range(members)), **lead}
    path = self.write(name, {v: (lead, functools.partial(fn, v))
                             for v in self.vars}, name in self.flip)
    key = ('probabilistic' if members and not config.get('single') else
           'deterministic')
    config.pop('single', None)
    self.cfg[f'{key}_prediction_configs'][f'{name}_64x32_{year}'] = dict(
        path=path, variables=list(self.vars), **config)

  def forecast(self, v, valid, level, m=2, missing=False):
    x = field(1, v, valid, level) * 0.6 + 0.4 * field(m, v, valid, level, m)
    if missing:
      i, j = np.meshgrid(range(6), range(8), indexing='ij')
      x = np.where(noise(77, hours(valid).reshape(-1, 1, 1), i, j,
                         level) < 0.2, np.nan, x)
    return x

  # ---- expected scores

  def scores(self, how, target, inits, leads, levels, temporal, variables):
    """name -> array with dims (init_time?, lead_time, region, level?)."""
    out = {}
    variables = [v for v in variables if target == 'era5' or v not in DRY]
    tk = 1 if target == 'era5' else 5
    n, m = len(inits), len(leads)
    valid = (np.asarray(inits)[:, None] + np.asarray(leads)[None]).reshape(-1)
    shape = (n, m, 6, 8)
    errors = {}
    for v in variables:
      for l in (levels if v in LEVELED else [None]):
        ll = 0 if l is None else l
        t = field(tk, v, valid, ll).reshape(shape)
        c = clim_field('mean', v, day(valid).reshape(-1, 1, 1),
                       hour(valid).reshape(-1, 1, 1), ll).reshape(shape)
        x = self.values(how, v, inits, leads, ll, c)
        put = lambda name, arr, l=l: out.setdefault(name, {}).__setitem__(
            l, arr)
        mean = lambda y: self.mean(y, temporal)
        if x.ndim == 4:
          err = x - t
          errors[v, l] = err
          mse = mean(err ** 2)
          put(f'rmse.{v}', np.sqrt(mse))
          put(f'mse.{v}', mse)
          put(f'bias.{v}', mean(err))
          a = mean((x - c) ** 2)
          # The mask of the predictions is that of both anomalies.
          tt = np.where(np.isnan(x), np.nan, t)
          with np.errstate(all='ignore'):
            put(f'acc.{v}', mean((x - c) * (t - c)) / np.sqrt(
                a * mean((tt - c) ** 2)))
          put(f'prediction_activity.{v}', np.sqrt(a))
          if v in DRY:
            p1 = clim_field('dry', v, 0, 0, 0)
            s = seeps(x, t, clim_field('wet', v, day(valid).reshape(-1, 1, 1),
                                       hour(valid).reshape(-1, 1, 1),
                                       0).reshape(shape), p1, DRY[v])
            s = np.where((p1 < 0.1) | (p1 > 0.85), np.nan, s)
            put(f'seeps.{v}', mean(s))
        else:
          k = x.shape[0]
          pair = sum(abs(x[i] - x[j]) for i in range(k) for j in range(k))
          put(f'crps.{v}', mean(abs(x - t).mean(0)) - 0.5 * mean(
              pair / (k * (k - 1))))
          var = x.var(0, ddof=1)
          se = (x.mean(0) - t) ** 2
          with np.errstate(all='ignore'):
            put(f'unbiased_spread_skill.{v}', np.sqrt(
                mean(var) / mean(se - var / k)))
            put(f'unbiased_mean_rmse.{v}', np.sqrt(mean(se - var / k)))
          put(f'mean_rmse.{v}', np.sqrt(mean(se)))
    for a, b, name in (('u_component_of_wind', 'v_component_of_wind', 'wind'),
                       ('10m_u_component_of_wind', '10m_v_component_of_wind',
                        '10m_wind')):
      for l in levels + [None]:
        if (a, l) in errors and (b, l) in errors:
          out.setdefault(f'vector_rmse.{name}', {})[l] = np.sqrt(self.mean(
              errors[a, l] ** 2 + errors[b, l] ** 2, temporal))
    return out

  def values(self, how, v, inits, leads, level, clim):
    n, m = len(inits), len(leads)
    shape = (n, m, 6, 8)
    valid = (np.asarray(inits)[:, None] + np.asarray(leads)[None]).reshape(-1)
    if how == 'persistence':
      x = field(1, v, inits, level)
      return np.repeat(x[:, None], m, axis=1)
    if how == 'climatology':
      return clim
    if how == 'probabilistic_climatology':
      out = []
      for y in range(1990, 2020):
        t = (np.datetime64(f'{y}-01-01', 'ns') +
             ((day(valid) - 1) * 24 + hour(valid)) * H)
        out.append(field(1, v, t, level).reshape(shape))
      return np.stack(out)
    if how == 'missing':
      return self.forecast(v, valid, level, missing=True).reshape(shape)
    if isinstance(how, int):
      return np.stack([self.forecast(v, valid, level, i).reshape(shape)
                       for i in range(2, 2 + how)])
    return self.forecast(v, valid, level).reshape(shape)

  def mean(self, y, temporal, regions=None, land=True):
    """Per region; missing cells do not count."""
    out = []
    axes = (2, 3) if temporal else (0, 2, 3)
    regions = REGIONS if regions is None else regions
    for mask in [np.ones((6, 8), bool)] + ([LAND > 0] if land else []):
      for lims in regions.values():
        w = areas() * members(lims) * mask * ~np.isnan(y)
        with np.errstate(all='ignore'):
          out.append((w * np.nan_to_num(y)).sum(axes) / w.sum(axes))
    return np.stack(out, -1)


class Script:
  """Loads and runs a script with flags."""

  def __init__(self, *path):
    self.path = os.path.join(core.REPO, *path)

  def run(self, args, config=None):
    before = set(flags.FLAGS)
    spec = importlib.util.spec_from_file_location('script', self.path)
    mod = importlib.util.module_from_spec(spec)
    name = 'c32_config'
    try:
      spec.loader.exec_module(mod)
      if config is not None:
        sys.modules[name] = config
        args = args + [f'--config={name}']
      rest = flags.FLAGS(['x'] + args + ['--', '--direct_num_workers=1'])
      with contextlib.redirect_stdout(io.StringIO()):
        mod.main(rest)
    finally:
      sys.modules.pop(name, None)
      for f in set(flags.FLAGS) - before:
        delattr(flags.FLAGS, f)


class Config:
  """Stands for a configuration module."""

  def __init__(self, data):
    self.__dict__.update(data.cfg)


BENCH = ('public_benchmark', 'run_benchmark_evaluation.py')
EXAMPLE = ('evaluation_scripts', 'run_example_evaluation.py')


def compare(ds, want, coords, what, rec):
  """coords: list of (dim, labels) of the arrays in want; then level."""
  check(set(ds.data_vars) == set(want), f'{what}: scores '
        f'{sorted(ds.data_vars)}, expected {sorted(want)}')
  for name, per in want.items():
    da = ds[name]
    lev = None if list(per) == [None] else list(per)
    dims = [d for d, _ in coords] + (['level'] if lev else [])
    check(set(da.dims) == set(dims), f'{what}: {name} has {da.dims}, expected '
          f'{dims}')
    da = da.transpose(*dims)
    for d, labels in coords + ([('level', lev)] if lev else []):
      got = list(da[d].values)
      if d == 'lead_time':
        got = [int(x / H) for x in got]
        labels = [int(x / H) for x in labels]
      elif d == 'init_time':
        got = list(da[d].values.astype('M8[ns]'))
        labels = list(np.asarray(labels).astype('M8[ns]'))
      check(sorted(got) == sorted(labels) and len(got) == len(labels),
            f'{what}: {name} has {d} {got}, expected {labels}')
      da = da.isel({d: [got.index(x) for x in labels]})
    w = np.stack(list(per.values()), -1) if lev else per[None]
    g = da.values.astype(float)
    small = name.split('.')[1] in DRY and name.split('.')[0] in (
        'rmse', 'bias', 'prediction_activity', 'mse')
    ok = np.isclose(g, w, rtol=2e-4, atol=1e-9 if small else 2e-5,
                    equal_nan=True)
    if not ok.all():
      i = tuple(np.argwhere(~ok)[0])
      fail(f'{what}: {name} at {[list(l)[k] for (_, l), k in zip(coords, i)]} '
           f'is {g[i]}, expected {w[i]}')
    rec.nodes += g.size


def region_names(land=True):
  return list(REGIONS) + ([f'{r}_land' for r in REGIONS] if land else [])


EXAMPLE_VARIABLES = [
    'geopotential', 'temperature', 'u_component_of_wind', 'v_component_of_wind',
    'specific_humidity', '2m_temperature', 'mean_sea_level_pressure']


class C32(core.Check):
  id = 'C32'
  rule = ('all kinds of predictions x targets x time and lead time requests x '
          'chunk sizes x latitude orders of each dataset, run through the '
          'scripts and compared with scores computed from the raw values')
  assumptions = ('land-sea mask of zeros and ones',)

  def cases(self):
    t = self.thorough
    for kind in ('hres', 'ens', 'ens_single_member', 'neuralgcm_ens',
                 'keisler', 'fuxi', 'persistence', 'climatology',
                 'probabilistic_climatology'):
      for target in ('era5', 'hres_t0'):
        if not t and target == 'hres_t0' and kind in (
            'keisler', 'neuralgcm_ens', 'ens_single_member', 'climatology'):
          continue
        yield {'k': 'bench', 'kind': kind, 'target': target}
    for n, flip in enumerate(itertools.product((0, 1), repeat=4)):
      if t or n in (1, 6, 10, 13):
        yield {'k': 'flips', 'flip': list(flip)}
    for name, year in (('hres', 2018), ('hres', 2020), ('hres', 2022),
                       ('ens', 2018), ('fuxi', 2020), ('excarta', 2020),
                       ('aurora', 2022), ('baguan', 2020),
                       ('climatology', 2018), ('persistence', 2022)):
      yield {'k': 'year', 'name': name, 'year': year}
    yield {'k': 'flags'}
    yield {'k': 'leads'}
    for levels in (0, 1, 2):
      yield {'k': 'example', 'levels': levels}
    yield {'k': 'example_dims'}
    for which in ('variables', 'times', 'leads'):
      yield {'k': 'example_defaults', 'which': which}
    yield {'k': 'configs'}
    yield {'k': 'regions'}

  def run_case(self, case, rec):
    tmp = tempfile.mkdtemp(prefix='c32_')
    try:
      getattr(self, '_' + case['k'])(case, rec, tmp)
    finally:
      shutil.rmtree(tmp, ignore_errors=True)

  # ---- the benchmark script

  INITS = START + np.arange(5) * 12 * H
  LEADS = np.arange(4) * 6 * H

  def bench(self, data, name, target, how, inits, leads, rec, what, args=(),
            temporal=False, levels=None, times=None, year=2020, variables=None,
            out=None):
    out = out or tempfile.mkdtemp(dir=data.tmp)
    a = [f'--prediction={name}', f'--target={target}', '--resolution=64x32',
         f'--year={year}', f'--output_dir={out}', '--runner=DirectRunner']
    if times is not None:
      a += [f'--time_start={times[0]}', f'--time_stop={times[1]}']
    if temporal:
      a += ['--temporal']
    Script(*BENCH).run(a + list(args), Config(data))
    rec.transition()
    label = f'{times[0]}_{times[1]}' if times is not None else str(year)
    fn = (f'{name}_vs_{target}_64x32_{label}' +
          ('_temporal' if temporal else '') + '.nc')
    files = sorted(f for f in os.listdir(out) if f.endswith('.nc'))
    check(fn in files, f'{what}: wrote {files}, expected {fn}')
    ds = xr.open_dataset(os.path.join(out, fn), decode_timedelta=True).load()
    want = data.scores(how, target, inits, leads, levels or USED, temporal,
                       data.vars if variables is None else variables)
    co = [('lead_time', leads), ('region', region_names())]
    if temporal:
      co = [('init_time', inits)] + co
    compare(ds, want, co, what, rec)
    rec.trace(1, (what,))
    return os.path.join(out, fn)

  def add(self, data, kind, inits, leads, year=2020):
    """Adds the predictions of a kind; returns what they are."""
    kw = dict(year=year)
    if kind == 'ens':
      data.prediction(kind, inits, leads, members=3, **kw)
      return 3
    if kind == 'ens_single_member':
      data.prediction(kind, inits, leads, members=2, single=True,
                      data_loader_kwargs={'preprocessing_fn': public().
                                          select_first_member}, **kw)
      return 'plain'
    if kind == 'neuralgcm_ens':
      names = ('time', 'prediction_timedelta', 'realization')
      data.prediction(kind, inits, leads, members=2, names=names,
                      data_loader_kwargs={'rename_dimensions': {
                          'realization': 'number', 'time': 'init_time',
                          'prediction_timedelta': 'lead_time'}}, **kw)
      return 2
    if kind == 'keisler':
      data.prediction(kind, inits, leads, missing=True,
                      data_loader_kwargs={'add_nan_mask': True}, **kw)
      return 'missing'
    if kind in ('persistence', 'climatology', 'probabilistic_climatology'):
      return kind
    if kind == 'fuxi':
      kw['levels'] = [500, 850]
    data.prediction(kind, inits, leads, **kw)
    return 'plain'

  def _bench(self, case, rec, tmp):
    kind, target = case['kind'], case['target']
    # Vectors have no missing values.
    variables = UPPER + SURFACE if kind == 'hres' else [
        'geopotential', '2m_temperature'] + (
            [[TP, T24], [T24, TP], [TP], [T24]][len(kind) % 4]
            if kind != 'keisler' else [])
    times = START + np.arange(0, 24 * 5, 6) * H
    if kind == 'probabilistic_climatology':
      variables = ['geopotential', '2m_temperature']
      times = np.concatenate([np.datetime64(f'{y}-01-01', 'ns') +
                              np.arange(0, 24 * 4, 6) * H
                              for y in range(1990, 2021)])
    data = Data(tmp, times, variables, range(1, 6))
    how = self.add(data, kind, self.INITS, self.LEADS)
    levels = [500, 850] if kind == 'fuxi' else None
    runs = [
        (('2020-01-01', '2020-01-02'), 2, [], [0, 6, 12, 18], False),
        (('2020-01-01T12', '2020-01-02T12'), 2,
         ['--lead_time_start=6', '--lead_time_stop=18',
          '--init_time_chunk_size=2'], [6, 12], True),
        (('2020-01-01', '2020-01-03'), 4,
         ['--lead_time_start=0', '--lead_time_stop=24',
          '--lead_time_frequency=12', '--init_time_chunk_size=3',
          '--lead_time_chunk_size=1'], [0, 12], False),
    ]
    base = kind in ('persistence', 'climatology', 'probabilistic_climatology')
    for i, (span, n, args, leads, temporal) in enumerate(runs):
      if base and not args:
        args = ['--lead_time_start=0', '--lead_time_stop=24']
      if not self.thorough and (i == 0 or (target == 'era5') == (i == 2)):
        continue
      inits = np.datetime64(span[0], 'ns') + np.arange(n) * 12 * H
      self.bench(data, kind, target, how, inits, np.array(leads) * H, rec,
                 f'{case} {i}', args, temporal, levels, span)

  def _flips(self, case, rec, tmp):
    """Each dataset has one of the orders of latitudes."""
    names = ['era5', 'hres_t0', 'climatology', 'hres']
    flip = [n for n, f in zip(names, case['flip']) if f]
    times = START + np.arange(0, 24 * 3, 6) * H
    # SEEPS rejects predictions in another order than the climatology.
    variables = ['geopotential', '2m_temperature' if 'hres' in flip else TP]
    data = Data(tmp, times, variables, range(1, 4), flip,
                dims=('longitude', 'latitude') if sum(case['flip']) % 2 else
                ('latitude', 'longitude'))
    how = self.add(data, 'hres', self.INITS[:2], self.LEADS[:2])
    for kind in ('hres', 'persistence', 'climatology'):
      for target in ('era5', 'hres_t0'):
        other = 'hres_t0' if kind == 'hres' and 'hres_t0' in flip else 'era5'
        if target != other and not self.thorough:
          continue
        self.bench(data, kind, target, 'plain' if kind == 'hres' else kind,
                   self.INITS[:2], self.LEADS[:2], rec,
                   f'{case} {kind} {target}',
                   ['--lead_time_start=0', '--lead_time_stop=12'],
                   times=('2020-01-01', '2020-01-02'))

  def _year(self, case, rec, tmp):
    """Whole years; then the combination of result files."""
    name, year = case['name'], case['year']
    first = np.datetime64(f'{year}-01-01', 'ns')
    n = 366 if year == 2020 else 365
    times = first + np.arange(0, 24 * (n + 1), 6) * H
    data = Data(tmp, times, ['geopotential'], range(1, 367), dtype='f4')
    inits = first + np.arange(0, 24 * n, 12) * H
    leads = np.array([6]) * H
    how = self.add(data, name, inits, leads, year)
    last = None
    if year == 2022 or name in ('fuxi', 'excarta'):
      last = np.datetime64(f'{year}-12-16')
    if name == 'baguan':
      last = np.datetime64('2020-12-30T12')
    if last is not None:
      inits = inits[inits < last]
    if name == 'aurora':
      inits = inits[1:]
    if name == 'excarta':
      inits = inits[::2]
    args = ['--init_time_chunk_size=250']
    if name in ('climatology', 'persistence'):
      args += ['--lead_time_start=6', '--lead_time_stop=12']
    path = self.bench(data, name, 'era5', how, inits, leads, rec, f'{case}',
                      args, year=year,
                      levels=[500, 850] if name == 'fuxi' else None)
    if name not in ('hres', 'ens'):
      return
    # The file is one that can be combined with others.
    ds = xr.open_dataset(path, decode_timedelta=True).load()
    out = os.path.join(tmp, 'combined')
    os.mkdir(out)
    mode = 'deterministic' if name == 'hres' else 'probabilistic'
    Script('public_benchmark', 'combine_results.py').run(
        [f'--mode={mode}', f'--input_dir={os.path.dirname(path)}',
         f'--output_dir={out}'])
    rec.transition()
    got = xr.open_zarr(os.path.join(out, mode + '.zarr'),
                       decode_timedelta=True).load()
    check(list(got) == ['Geopotential'], f'{case}: {list(got)}')
    got = got['Geopotential'].sel(
        model='IFS HRES vs ERA5' if name == 'hres' else 'IFS ENS vs ERA5',
        year=str(year), resolution='64x32')
    from checks import c31  # pylint: disable=g-import-not-at-top
    for var, da in ds.items():
      metric = c31.METRICS[mode][var.split('.')[0]]
      for r in ('global', 'tropics_land', 'europe'):
        for l in da.level.values:
          a = float(got.sel(metric=metric, region=c31.REGIONS[r],
                            level=l).squeeze())
          b = float(da.sel(region=r, level=l).squeeze())
          check(a == b or (np.isnan(a) and np.isnan(b)),
                f'{case}: combined {var} {r} {l}: {a}, expected {b}')

  def _flags(self, case, rec, tmp):
    """Forms of the time flags; half-given ranges are rejected."""
    times = START + np.arange(0, 24 * 5, 6) * H
    data = Data(tmp, times, ['geopotential'], range(1, 6))
    inits = START + np.arange(0, 96, 6) * H
    how = self.add(data, 'hres', inits, self.LEADS)
    for start, stop, f in (('2020-01-01', '2020-01-01T12', None),
                           ('2020-01-01T06', '2020-01-02', 6),
                           ('2020-01-01T06:00', '2020-01-03T12:00', None),
                           ('2020-01-02', '2020-01-04', 24),
                           ('2020-01-01T18', '2020-01-02T01', 6)):
      a = np.datetime64(start, 'ns')
      b = np.datetime64(stop, 'ns')
      want = np.arange(a, b, (f or 12) * H)
      self.bench(data, 'hres', 'era5', how, want, self.LEADS, rec,
                 f'{case} {start} {stop} {f}',
                 [f'--time_frequency={f}'] if f else [], times=(start, stop))
    for a, b, f in ((0, 7, 6), (6, 19, 6), (0, 18, 12), (18, 24, 6)):
      self.bench(data, 'hres', 'era5', how, inits[:1],
                 np.arange(a, b, f) * H, rec, f'{case} {a} {b} {f}',
                 [f'--lead_time_start={a}', f'--lead_time_stop={b}',
                  f'--lead_time_frequency={f}'],
                 times=('2020-01-01', '2020-01-01T12'))
    for bad in (['--time_start=2020-01-01'], ['--time_stop=2020-01-02'],
                ['--time_start=2020-01-01', '--time_stop=2020-01-02',
                 '--lead_time_start=0'],
                ['--time_start=2020-01-01', '--time_stop=2020-01-02',
                 '--lead_time_stop=12']):
      out = tempfile.mkdtemp(dir=tmp)
      rec.transition()
      try:
        Script(*BENCH).run(
            ['--prediction=hres', '--target=era5', '--resolution=64x32',
             '--year=2020', f'--output_dir={out}', '--runner=DirectRunner'] +
            bad, Config(data))
      except Exception:  # pylint: disable=broad-except
        check(not os.listdir(out), f'{bad}: {os.listdir(out)}')
        continue
      fail(f'{bad} is not rejected')

  def _leads(self, case, rec, tmp):
    """Default lead times."""
    times = START + np.arange(0, 24 * 17, 6) * H
    data = Data(tmp, times, ['geopotential'], range(1, 20))
    span = ('2020-01-01', '2020-01-02')
    for kind in ('persistence', 'climatology'):
      self.bench(data, kind, 'era5', kind, self.INITS[:2],
                 np.arange(0, 361, 6) * H, rec, f'{case} {kind}',
                 ['--lead_time_chunk_size=20'], times=span)
    leads = np.array([0, 6, 30, 240]) * H
    how = self.add(data, 'hres', self.INITS[:2], leads)
    for size in (1, 3, 4, 12) if self.thorough else (3, 12):
      self.bench(data, 'hres', 'era5', how, self.INITS[:2], leads, rec,
                 f'{case} {size}', [f'--lead_time_chunk_size={size}'],
                 times=span)

  # ---- the example script

  EXAMPLE_REGIONS = {'global': ((-90, 90), (0, 360)),
                     'northern-hemisphere': ((20, 90), (0, 360))}

  def example(self, data, variables, inits, leads, args, levels, dims, rec,
              what, state=False):
    out = tempfile.mkdtemp(dir=data.tmp)
    path = os.path.join(out, 'results.nc')
    a = [f'--prediction_path={data.tmp}/hres.zarr',
         f'--target_path={data.tmp}/era5.zarr', f'--output_path={path}',
         '--runner=DirectRunner'] + args
    if variables != EXAMPLE_VARIABLES:
      a.append(f'--variables={",".join(variables)}')
    if state:
      a.append(f'--aggregation_state_output_path={out}/state.nc')
    Script(*EXAMPLE).run(a)
    rec.transition()
    check(sorted(os.listdir(out)) == ['results.nc'] + ['state.nc'] * state,
          f'{what}: {os.listdir(out)}')
    ds = xr.open_dataset(path, decode_timedelta=True).load()
    want = {}
    valid = (inits[:, None] + leads[None]).reshape(-1)
    shape = (len(inits), len(leads), 6, 8)
    axes = tuple(i for i, d in enumerate(
        ('init_time', 'lead_time', 'latitude', 'longitude')) if d in dims)
    for v in variables:
      for l in (levels if v in LEVELED else [None]):
        t = field(1, v, valid, l or 0)
        err = ((data.forecast(v, valid, l or 0) - t) ** 2).reshape(shape)
        per = []
        for lims in self.EXAMPLE_REGIONS.values():
          w = np.broadcast_to(areas() * members(lims), shape)
          with np.errstate(all='ignore'):
            per.append((w * err).sum(axes) / w.sum(axes))
        mse = np.stack(per, -1)
        want.setdefault(f'mse.{v}', {})[l] = mse
        want.setdefault(f'rmse.{v}', {})[l] = np.sqrt(mse)
    labels = dict(init_time=inits, lead_time=leads, latitude=LAT,
                  longitude=LON)
    co = [(d, l) for d, l in labels.items() if d not in dims]
    compare(ds, want, co + [('region', list(self.EXAMPLE_REGIONS))], what, rec)
    rec.trace(1, (what,))
    if state:
      saved = xr.open_dataset(f'{out}/state.nc', decode_timedelta=True).load()
      check(len(saved) > 0, f'{what}: {saved}')

  def _example(self, case, rec, tmp):
    times = START + np.arange(0, 24 * 5, 6) * H
    variables = ['geopotential', '2m_temperature']
    data = Data(tmp, times, variables, range(1, 3))
    inits = START + np.arange(0, 96, 6) * H
    self.add(data, 'hres', inits, self.LEADS)
    levels, args = [(LEVEL, []), ([500], ['--levels=500']),
                    ([850, 600], ['--levels=850,600'])][case['levels']]
    three = ['init_time', 'latitude', 'longitude']
    for i, (span, f, lead, c1, c2) in enumerate((
        (('2020-01-01', '2020-01-02'), None, (0, 24, 6), None, None),
        (('2020-01-01T06', '2020-01-02T18'), 6, (6, 18, 6), 2, 1),
        (('2020-01-01', '2020-01-03T01'), 24, (0, 19, 12), 1, None),
        (('2020-01-02', '2020-01-03'), 12, (12, 13, 6), None, 3))):
      a = [f'--time_start={span[0]}', f'--time_stop={span[1]}',
           f'--lead_time_start={lead[0]}', f'--lead_time_stop={lead[1]}',
           f'--lead_time_frequency={lead[2]}'] + args
      a += [f'--time_frequency={f}'] if f else []
      a += [f'--time_chunk_size={c1}'] if c1 else []
      a += [f'--lead_time_chunk_size={c2}'] if c2 else []
      want = np.arange(np.datetime64(span[0], 'ns'),
                       np.datetime64(span[1], 'ns'), (f or 12) * H)
      self.example(data, variables if i % 2 else variables[:1], want,
                   np.arange(*lead) * H, a, levels, three, rec, f'{case} {i}',
                   state=bool(i % 2))

  def _example_defaults(self, case, rec, tmp):
    """What is evaluated if flags are left out."""
    which = case['which']
    variables = EXAMPLE_VARIABLES if which == 'variables' else ['geopotential']
    inits, leads = self.INITS[:2], self.LEADS[:2]
    args = []
    if which == 'times':
      inits = START + np.arange(0, 24 * 365, 12) * H
    else:
      args += ['--time_start=2020-01-01', '--time_stop=2020-01-02']
    if which == 'leads':
      leads = np.arange(0, 240, 6) * H
    else:
      args += ['--lead_time_start=0', '--lead_time_stop=12']
    times = np.arange(inits[0], inits[-1] + leads[-1] + 12 * H, 6 * H)
    data = Data(tmp, times, variables, range(1, 3))
    self.add(data, 'hres', inits, leads)
    self.example(data, variables, inits, leads, args, LEVEL,
                 ['init_time', 'latitude', 'longitude'], rec, f'{case}')

  def _example_dims(self, case, rec, tmp):
    """All sets of reduced dimensions."""
    times = START + np.arange(0, 24 * 2, 6) * H
    variables = ['geopotential', '2m_temperature']
    data = Data(tmp, times, variables, range(1, 3), flip=('hres',))
    self.add(data, 'hres', self.INITS[:2], self.LEADS[:2])
    all_dims = ['init_time', 'lead_time', 'latitude', 'longitude']
    for n in (1, 2, 3, 4):
      for dims in itertools.combinations(all_dims, n):
        self.example(
            data, variables, self.INITS[:2], self.LEADS[:2],
            ['--time_stop=2020-01-02', '--lead_time_stop=12', '--levels=700',
             f'--reduce_dims={",".join(dims)}', '--time_chunk_size=1'], [700],
            dims, rec, f'{case} {dims}')

  # ---- the regions

  def _regions(self, case, rec, tmp):
    """The limits of all regions, on a grid of one degree."""
    lat = np.arange(-89.5, 90)
    lon = np.arange(0.5, 360)
    i, j = np.meshgrid(range(len(lat)), range(len(lon)), indexing='ij')
    land = ((i * 7 + j * 3) % 5 < 2).astype(float)
    x = {'hres': 10 * noise(3, i, j), 'era5': 10 * noise(4, i, j),
         'climatology': 10 * noise(5, i, j)}
    lead = {'hres': {'time': [START], 'prediction_timedelta': [0 * H]},
            'era5': {'time': [START]},
            'climatology': {'dayofyear': [1], 'hour': [0]}}
    paths = {}
    for name, y in x.items():
      dims = list(lead[name]) + ['level', 'latitude', 'longitude']
      y = np.stack([y * (1 + k) for k in range(len(USED))])
      da = xr.DataArray(y.reshape((1,) * len(lead[name]) + y.shape), dims=dims,
                        coords=dict(lead[name], level=USED, latitude=lat,
                                    longitude=lon))
      ds = xr.Dataset({'geopotential': da})
      if name == 'era5':
        ds['land_sea_mask'] = (('latitude', 'longitude'), land)
      paths[name] = os.path.join(tmp, name + '.zarr')
      ds.to_zarr(paths[name], consolidated=True)
    conf = lambda n: {'path': paths[n], 'variables': ['geopotential'],
                      'data_loader_kwargs': {}}
    cfg = types.SimpleNamespace(cfg=dict(
        target_configs={'era5_64x32': conf('era5')},
        climatology_configs={'era5_64x32_2020': conf('climatology')},
        deterministic_prediction_configs={'hres_64x32_2020': {
            k: v for k, v in conf('hres').items()
            if k != 'data_loader_kwargs'}},
        probabilistic_prediction_configs={}))
    band = np.sin(np.radians(lat + 0.5)) - np.sin(np.radians(lat - 0.5))
    err = (x['hres'] - x['era5']) ** 2
    def want(region, mask):
      (a, b), (c, d) = region
      width = (d - c) % 360
      m = ((lat >= a) & (lat <= b))[:, None] & (
          (width == 0) | ((lon - c) % 360 <= width))[None] & mask
      w = band[:, None] * m
      return (w * err).sum() / w.sum()
    out = os.path.join(tmp, 'out')
    os.mkdir(out)
    Script(*BENCH).run(
        ['--prediction=hres', '--target=era5', '--resolution=64x32',
         '--year=2020', f'--output_dir={out}', '--runner=DirectRunner',
         '--time_start=2020-01-01', '--time_stop=2020-01-01T12'], Config(cfg))
    rec.transition()
    ds = xr.open_dataset(os.path.join(out, os.listdir(out)[0])).load()
    check(sorted(ds.region.values) == sorted(region_names()),
          f'{case}: {ds.region.values}')
    for suffix, mask in (('', True), ('_land', land > 0)):
      for name, lims in REGIONS.items():
        w = want(lims, mask)
        got = ds['mse.geopotential'].sel(region=name + suffix, level=500)
        check(np.isclose(got.item(), w, rtol=2e-5), f'{case}: {name}{suffix} '
              f'{got.item()}, expected {w}')
        rec.nodes += 1
    path = os.path.join(tmp, 'results.nc')
    Script(*EXAMPLE).run(
        [f'--prediction_path={paths["hres"]}', f'--target_path={paths["era5"]}',
         f'--output_path={path}', '--variables=geopotential', '--levels=500',
         '--time_start=2020-01-01', '--time_stop=2020-01-01T12',
         '--lead_time_start=0', '--lead_time_stop=6',
         '--runner=DirectRunner'])
    rec.transition()
    ds = xr.open_dataset(path).load()
    for name, lims in self.EXAMPLE_REGIONS.items():
      w = want(lims, True)
      got = ds['mse.geopotential'].sel(region=name).squeeze()
      check(np.isclose(got.item(), w, rtol=2e-5), f'{case}: example {name} '
            f'{got.item()}, expected {w}')
      rec.nodes += 1
    rec.trace(1, ('regions',))

  # ---- the public configuration

  def _configs(self, case, rec, tmp):
    """Every entry names data of its own resolution, and no future climate."""
    mod = public()
    for table in ('deterministic_prediction_configs',
                  'probabilistic_prediction_configs', 'target_configs',
                  'climatology_configs'):
      for key, conf in getattr(mod, table).items():
        rec.transition()
        rec.nodes += 1
        what = f'{table} {key}: {conf["path"]}'
        res = [r for r in ('64x32', '240x121', '1440x721') if f'_{r}' in key]
        check(len(res) == 1, what)
        other = [r for r in ('64x32', '240x121') if r != res[0]]
        check(not any(r in conf['path'] for r in other), what)
        if res[0] != '1440x721':
          check(res[0] in conf['path'], what)
        check(('_mean.zarr' in conf['path']) == ('_mean_' in key), what)
        if 'single_member' in key:
          fn = conf['data_loader_kwargs']['preprocessing_fn']
          ds = xr.Dataset({'x': (('number', 'y'), [[1, 2], [3, 4]])})
          check(list(fn(ds).x.values) == [1, 2], what)
        if table == 'climatology_configs':
          year = int(key.rsplit('_', 1)[1])
          span = os.path.basename(conf['path'])[:9].split('-')
          if year != 2016:
            check(int(span[1]) < year, f'{what} contains the year')
    rec.trace(1, ('configs',))


_PUBLIC = None


def public():
  global _PUBLIC
  if _PUBLIC is None:
    path = os.path.join(core.REPO, 'public_benchmark', 'public_configs.py')
    spec = importlib.util.spec_from_file_location('public_configs', path)
    _PUBLIC = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(_PUBLIC)
  return _PUBLIC


CHECK = C32
