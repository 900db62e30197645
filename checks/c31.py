"""C31: combined result files have every score at its own labels."""

import contextlib
import importlib.util
import io
import itertools
import os
import shutil
import tempfile

from absl import flags
import numpy as np
import xarray as xr

from mc import core
from mc.xrutil import check, fail

HOUR = np.timedelta64(1, 'h').astype('m8[ns]')
YEARS = (2018, 2020, 2022)
RES = ('64x32', '240x121', '1440x721')

_MODULE = None


def script():
  """The module of the script, loaded once per process."""
  global _MODULE
  if _MODULE is None:
    path = os.path.join(core.REPO, 'public_benchmark', 'combine_results.py')
    spec = importlib.util.spec_from_file_location('combine_results', path)
    _MODULE = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(_MODULE)
  return _MODULE


# Names of the scores and of variables in the combined file, as far as they are
# used here.
METRICS = {
    'deterministic': {'rmse': 'RMSE', 'mae': 'MAE', 'bias': 'Bias',
                      'acc': 'ACC', 'seeps': 'SEEPS', 'mse': 'MSE',
                      'prediction_activity': 'Forecast Activity'},
    'probabilistic': {'crps': 'CRPS', 'spread_skill': 'Spread/Skill',
                      'unbiased_spread_skill': 'Unbiased Spread/Skill',
                      'unbiased_mean_rmse': 'Unbiased Mean RMSE',
                      'mean_rmse': 'Mean RMSE'},
}
VARIABLES = {
    'geopotential': 'Geopotential', 'temperature': 'Temperature',
    '2m_temperature': '2m Temperature', 'wind_speed': 'Wind Speed',
    '10m_wind_speed': '10m Wind Speed', 'wind_vector': 'Wind Vector',
    '10m_wind_vector': '10m Wind Vector',
    'total_precipitation_24hr': '24h Precipitation',
    'total_precipitation_6hr': '6h Precipitation',
    'mean_sea_level_pressure': 'Sea Level Pressure',
    'u_component_of_wind': 'U Component of Wind',
    'v_component_of_wind': 'V Component of Wind',
    '10m_u_component_of_wind': '10m U Component of Wind',
    '10m_v_component_of_wind': '10m V Component of Wind',
    'specific_humidity': 'Specific Humidity',
}
REGIONS = {
    'global': 'Global', 'tropics': 'Tropics', 'europe': 'Europe',
    'northern-hemisphere': 'Northern Hemisphere',
    'southern-hemisphere': 'Southern Hemisphere',
    'north-america': 'North America', 'south-america': 'South America',
    'ausnz': 'Australia/New Zealand', 'global_land': 'Global (Land)',
    'tropics_land': 'Tropics (Land)', 'east-asia': 'East Asia',
    'west-asia': 'West Asia', 'south-east-asia': 'South-East Asia',
    'northern-africa': 'Northern Africa', 'southern-africa': 'Southern Africa',
}
LEVEL_VARS = ('geopotential', 'temperature', 'wind_speed', 'wind_vector',
              'u_component_of_wind', 'v_component_of_wind',
              'specific_humidity')
MODELS = {
    'deterministic': {
        'hres_vs_hres_t0': 'IFS HRES vs Analysis',
        'hres_vs_era5': 'IFS HRES vs ERA5',
        'ens_mean_vs_era5': 'IFS ENS (mean) vs ERA5',
        'graphcast_hres_init_vs_hres_t0': 'GraphCast (oper.) vs Analysis',
        'climatology_vs_era5': 'Climatology vs ERA5',
        'pangu_vs_era5': 'Pangu-Weather vs ERA5',
        'aurora_vs_hres_t0': 'Aurora (oper.) vs Analysis',
    },
    'probabilistic': {
        'ens_vs_hres_t0': 'IFS ENS vs Analysis',
        'ens_vs_era5': 'IFS ENS vs ERA5',
        'neuralgcm_ens_vs_era5': 'NeuralGCM ENS vs ERA5',
        'gencast_vs_era5': 'GenCast vs ERA5',
        'gencast_operational_100m_uv_vs_era5': 'GenCast (oper.) vs ERA5',
    },
}
D, P = 'deterministic', 'probabilistic'

# Contents of a file: (metric.variable names, regions, levels, lead hours).
CONTENTS = {
    D: {
        'full': (['rmse.geopotential', 'rmse.temperature',
                  'rmse.2m_temperature', 'mae.2m_temperature',
                  'bias.temperature'], ['global', 'tropics'], [500, 850],
                 [0, 6, 24]),
        'order': (['bias.2m_temperature', 'rmse.2m_temperature',
                   'acc.temperature', 'rmse.temperature'],
                  ['tropics', 'global_land', 'global'], [850, 500], [24, 6]),
        'wind': (['vector_rmse.wind', 'vector_rmse.10m_wind',
                  'rmse.10m_wind_speed', 'rmse.wind_speed', 'mae.wind_speed'],
                 ['global'], [500], [6, 12]),
        'surface': (['seeps.total_precipitation_24hr',
                     'mae.total_precipitation_6hr',
                     'rmse.mean_sea_level_pressure', 'acc.2m_temperature'],
                    ['europe', 'global'], None, [6, 360]),
        'levels': (['mse.temperature', 'prediction_activity.temperature',
                    'rmse.geopotential'], ['global', 'ausnz'],
                   [700, 850, 1000], [24]),
        'secs': (['rmse.temperature', 'rmse.2m_temperature'],
                 ['northern-hemisphere', 'global'], [850], [6, 24]),
    },
    P: {
        'full': (['crps.geopotential', 'crps.2m_temperature',
                  'spread_skill.2m_temperature',
                  'unbiased_spread_skill.2m_temperature',
                  'mean_rmse.geopotential', 'unbiased_mean_rmse.temperature'],
                 ['global', 'tropics'], [500, 850], [0, 6, 24]),
        'order': (['unbiased_spread_skill.2m_temperature',
                   'unbiased_mean_rmse.temperature', 'mean_rmse.temperature',
                   'crps.2m_temperature'],
                  ['tropics_land', 'tropics', 'global'], [850, 500], [24, 6]),
        'surface': (['crps.total_precipitation_24hr', 'crps.10m_wind_speed'],
                    ['europe', 'global'], None, [6, 360]),
        'levels': (['crps.temperature', 'crps.wind_speed'], ['global'],
                   [700, 850, 1000], [24]),
    },
}


def code(name):
  return sum((i + 1) * ord(c) for i, c in enumerate(name)) % 9973


class World:
  """A directory of result files, and the values they contain."""

  def __init__(self, mode, tmp):
    self.mode = mode
    self.dir = tmp
    self.want = {}  # (var, model, year, res, metric, region, level, lead)
    self.n = 0

  def add(self, model, year, res, content, dtype='f8', order=0, nans=False):
    names, regions, levels, leads = CONTENTS[self.mode][content]
    if order % 2:
      names = list(reversed(names))
    self.n += 1
    ds = {}
    for name in names:
      metric, var = name.split('.')
      if metric == 'vector_rmse':
        out, met = var + '_vector', 'rmse'
      else:
        out, met = var, metric
      lev = levels if (out in LEVEL_VARS and levels) else [None]
      a = np.zeros((len(regions), len(lev), len(leads)))
      for (i, r), (j, l), (k, t) in itertools.product(
          enumerate(regions), enumerate(lev), enumerate(leads)):
        v = (self.n * 1000 + code(name) / 16 + i * 0.25 + j * 3 + k * 0.125)
        if nans and (i + j + k) % 3 == 1:
          v = np.nan
        a[i, j, k] = np.asarray(v, dtype)
        self.want[(VARIABLES[out], MODELS[self.mode][model], str(year), res,
                   METRICS[self.mode][met], REGIONS[r], l, t)] = a[i, j, k]
      da = xr.DataArray(a.astype(dtype), dims=['region', 'level', 'lead_time'],
                        coords={'region': regions,
                                'lead_time': np.array(leads) * HOUR})
      if lev == [None]:
        da = da.isel(level=0)
      else:
        da = da.assign_coords(level=lev)
      if order >= 2:
        da = da.transpose(*reversed(da.dims))
      ds[name] = da
    ds = xr.Dataset(ds)
    if content == 'secs':
      ds = ds.assign_coords(lead_time_secs=('lead_time', np.array(
          leads) * 3600.0 + self.n))
    ds.to_netcdf(os.path.join(self.dir, f'{model}_{res}_{year}.nc'),
                 engine='scipy')

  def run(self):
    mod = script()
    out = os.path.join(self.dir, 'out')
    shutil.rmtree(out, ignore_errors=True)
    os.mkdir(out)
    flags.FLAGS.unparse_flags()
    flags.FLAGS(['x', f'--mode={self.mode}', f'--input_dir={self.dir}',
                 f'--output_dir={out}'])
    with contextlib.redirect_stdout(io.StringIO()):
      mod.main(['x'])
    got = os.listdir(out)
    check(got == [f'{self.mode}.zarr'], f'output files {got}')
    return xr.open_zarr(os.path.join(out, got[0]),
                        decode_timedelta=True).compute()

  def verify(self, ds, what):
    want = {}
    for k, v in self.want.items():
      want.setdefault(k[0], {})[k[1:]] = v
    check(set(ds.data_vars) == set(want), f'{what}: variables '
          f'{sorted(ds.data_vars)}, expected {sorted(want)}')
    cells = 0
    for var, per in want.items():
      da = ds[var]
      dims = ['model', 'year', 'resolution', 'metric', 'region', 'level',
              'lead_time']
      has_level = any(k[5] is not None for k in per)
      if not has_level:
        check('level' not in da.dims, f'{what}: {var} has levels')
        da = da.expand_dims(level=[-1])
      check(set(da.dims) == set(dims), f'{what}: {var} has {da.dims}')
      da = da.transpose(*dims)
      labels = [[str(x) for x in da.model.values],
                [str(x) for x in da.year.values],
                [str(x) for x in da.resolution.values],
                [str(x) for x in da.metric.values],
                [str(x) for x in da.region.values],
                [int(x) if has_level else None for x in da.level.values],
                [int(x / np.timedelta64(1, 'h')) for x in
                 da.lead_time.values]]
      for d, ls in zip(dims, labels):
        check(len(set(ls)) == len(ls), f'{what}: labels of {d} {ls}')
      where = [{l: i for i, l in enumerate(ls)} for ls in labels]
      seen = np.zeros(da.shape, bool)
      for k, v in per.items():
        for d, l, w in zip(dims, k, where):
          check(l in w, f'{what}: {var} has no {d} {l}: {list(w)}')
        i = tuple(w[l] for l, w in zip(k, where))
        seen[i] = True
        g = da.values[i]
        check(g == v or (np.isnan(g) and np.isnan(v)),
              f'{what}: {var} {k}: {g}, expected {v}')
        cells += 1
      rest = da.values[~seen]
      check(np.all(np.isnan(rest)), f'{what}: {var} has values '
            f'{rest[~np.isnan(rest)][:5]} where no file has any')
    check('lead_time_h' in ds.coords and np.array_equal(
        ds.lead_time_h.values, ds.lead_time.values / HOUR),
          f'{what}: hours {ds.get("lead_time_h")}')
    return cells


class C31(core.Check):
  id = 'C31'
  rule = ('all assignments of contents (variables, metrics, regions, levels, '
          'lead times, orders) to small sets of model, year and resolution '
          'files, run through the script and read back')
  assumptions = ('netCDF 3 input files', 'at least one variable with levels')

  def cases(self):
    t = self.thorough
    for mode in (D, P):
      kinds = list(CONTENTS[mode])
      names = list(MODELS[mode])
      for a, b in itertools.product(kinds, repeat=2):
        yield {'k': 'two', 'mode': mode, 'a': a, 'b': b}
      for i, m in enumerate(names):
        yield {'k': 'each', 'mode': mode, 'model': m}
      trip = list(itertools.product(kinds, repeat=3)) if t else [
          tuple(kinds[(i * s) % len(kinds)] for i in range(1, 4))
          for s in range(1, len(kinds))]
      for c in trip:
        yield {'k': 'three', 'mode': mode, 'c': list(c)}
    yield {'k': 'names'}
    for mode in (D, P):
      yield {'k': 'subset', 'mode': mode}
    yield {'k': 'allvars'}
    yield {'k': 'variants'}

  def run_case(self, case, rec):
    tmp = tempfile.mkdtemp(prefix='c31_')
    try:
      getattr(self, '_' + case['k'])(case, rec, tmp)
    finally:
      shutil.rmtree(tmp, ignore_errors=True)

  def go(self, w, what, rec):
    if not any(k[6] is not None for k in w.want):
      return None
    ds = w.run()
    rec.transition()
    rec.nodes += w.verify(ds, what)
    rec.trace(1, (what,))
    return ds

  def _two(self, case, rec, tmp):
    """Two files: different models, years or resolutions, both ways."""
    names = list(MODELS[case['mode']])
    pairs = [((names[0], 2020, RES[0]), (names[1], 2020, RES[0])),
             ((names[1], 2020, RES[0]), (names[0], 2020, RES[0])),
             ((names[2], 2018, RES[1]), (names[2], 2022, RES[1])),
             ((names[2], 2022, RES[2]), (names[2], 2022, RES[1]))]
    if not self.thorough:
      i = sorted(CONTENTS[case['mode']]).index(case['a'])
      j = sorted(CONTENTS[case['mode']]).index(case['b'])
      pairs = [pairs[0], pairs[1 + (i + j) % 3]]
    for i, (a, b) in enumerate(pairs):
      d = os.path.join(tmp, str(i))
      os.mkdir(d)
      w = World(case['mode'], d)
      w.add(*a, case['a'], order=i)
      w.add(*b, case['b'], order=3 - i)
      self.go(w, f'{case} {i}', rec)

  def _three(self, case, rec, tmp):
    names = list(MODELS[case['mode']])
    w = World(case['mode'], tmp)
    w.add(names[1], 2020, RES[1], case['c'][0])
    w.add(names[0], 2022, RES[1], case['c'][1], nans=True)
    w.add(names[1], 2020, RES[0], case['c'][2], order=2)
    self.go(w, f'{case}', rec)

  def _each(self, case, rec, tmp):
    """Every model, with all years and resolutions."""
    w = World(case['mode'], tmp)
    kinds = list(CONTENTS[case['mode']])
    i = 0
    for y in YEARS:
      for r in RES:
        w.add(case['model'], y, r, kinds[i % len(kinds)] if i else 'full',
              dtype='f4' if i % 2 else 'f8')
        i += 1
    self.go(w, f'{case}', rec)

  def _subset(self, case, rec, tmp):
    """All subsets of four files, and all values of one model alone."""
    names = list(MODELS[case['mode']])
    files = [(names[0], 2018, RES[0], 'full'), (names[1], 2020, RES[0], 'order'),
             (names[2], 2018, RES[2], 'levels'),
             (names[3], 2020, RES[0], 'surface')]
    ref = {}
    n = 0
    for size in (4, 1, 2, 3):
      for sub in itertools.combinations(range(4), size):
        n += 1
        d = os.path.join(tmp, str(n))
        os.mkdir(d)
        w = World(case['mode'], d)
        for i in sub:
          w.n = 10 * i
          w.add(*files[i])
        # Other files in the directory do not matter.
        with open(os.path.join(d, 'notes_64x32_2018.nc'), 'w') as f:
          f.write('x')
        self.go(w, f'{case} {sub}', rec)
        for k, v in w.want.items():
          check(ref.setdefault(k, v) == v, f'{k}')

  def _variants(self, case, rec, tmp):
    """Missing values, data types and dimension orders."""
    n = 0
    for dtype, order, nans in itertools.product(('f4', 'f8'), range(4),
                                                (False, True)):
      d = os.path.join(tmp, str(n))
      n += 1
      os.mkdir(d)
      w = World(D, d)
      w.add('hres_vs_era5', 2020, RES[0], 'full', dtype, order, nans)
      w.add('hres_vs_hres_t0', 2020, RES[0], 'order', dtype, 0, not nans)
      self.go(w, f'{case} {dtype} {order} {nans}', rec)

  def _allvars(self, case, rec, tmp):
    """All variables, metrics and regions."""
    for mode in (D, P):
      d = os.path.join(tmp, mode)
      os.mkdir(d)
      w = World(mode, d)
      names = [f'{m}.{v}' for v in VARIABLES for m in METRICS[mode]
               if not v.endswith('vector') or m == 'rmse']
      save = dict(CONTENTS[mode])
      try:
        CONTENTS[mode]['all'] = (names, list(REGIONS), [500, 850], [0, 12])
        w.add(list(MODELS[mode])[0], 2022, RES[2], 'all')
        self.go(w, f'{case} {mode}', rec)
      finally:
        CONTENTS[mode].clear()
        CONTENTS[mode].update(save)

  def _names(self, case, rec, tmp):
    """Names are distinct and say what they are of."""
    mod = script()
    for attr in ('DETERMINISTIC_MODELS', 'PROBABILISTIC_MODELS',
                 'REGION_NAMES', 'VARIABLE_NAMES', 'DETERMINISTIC_METRIC_NAMES',
                 'PROBABILISTIC_METRIC_NAMES'):
      table = getattr(mod, attr, None)
      if not isinstance(table, dict):
        continue
      rec.transition()
      rec.nodes += len(table)
      check(len(set(table.values())) == len(table), f'{attr} has equal names')
      if not attr.endswith('MODELS'):
        continue
      for k, v in table.items():
        ref = k.rsplit('_vs_', 1)[1]
        want = {'era5': ' vs ERA5', 'hres_t0': ' vs Analysis'}.get(ref)
        check(want is None or v.endswith(want), f'{k} is called {v}')
        for part, text in (('_mean_', '(mean)'),
                           ('_single_member_', '(1st member)')):
          check((part in k) == (text in v), f'{k} is called {v}')
    for attr, known in (('VARIABLE_NAMES', VARIABLES),
                        ('DETERMINISTIC_METRIC_NAMES', METRICS[D]),
                        ('PROBABILISTIC_METRIC_NAMES', METRICS[P])):
      table = getattr(mod, attr, None)
      if isinstance(table, dict):
        for k, v in known.items():
          check(table.get(k) == v, f'{attr}: {k} is called {table.get(k)}')
    rec.trace(1, ('names',))


CHECK = C31
