"""C24: evaluation never modifies its inputs and is repeatable.

A world is a set of shared inputs and objects with a list of public operations
on them. Every operation is executed on its own in a fresh process (its
reference result), and then all operations in all ordered pairs are executed in
one history on the shared objects. After every step the inputs must be
unchanged, and the result must be the reference result.
"""

import gc
import os
import pickle
import signal
import tempfile

import dask
import numpy as np
import xarray as xr

from checks import c20
from checks import c21
from mc import core
from mc import infer
from mc import metricutil as mu
from mc import zoo
from mc.xrutil import check, close, fail, fingerprint
from weatherbenchX import aggregation
from weatherbenchX import binning
from weatherbenchX import interpolations as ip
from weatherbenchX import time_chunks
from weatherbenchX import weighting
from weatherbenchX import xarray_tree
from weatherbenchX.data_loaders import latency_wrappers as lw
from weatherbenchX.data_loaders import sparse_parquet as sp
from weatherbenchX.data_loaders import xarray_loaders as xl
from weatherbenchX.metrics import base as mb
from weatherbenchX.metrics import deterministic as det
from weatherbenchX.metrics import spatial
from weatherbenchX.metrics import wrappers as wr
from weatherbenchX.statistical_inference import autodiff
from weatherbenchX.statistical_inference import baseline_comparison as bc
from weatherbenchX.statistical_inference import bootstrap as bs
from weatherbenchX.statistical_inference import t_test as tt
from weatherbenchX.statistical_inference import utils as iu

NAN = float('nan')
H = c20.hours


def isolated(fn, timeout=150):
  """Result of fn() in a forked process, or raises."""
  r, w = os.pipe()
  pid = os.fork()
  if pid == 0:
    code = 1
    try:
      os.close(r)
      gc.disable()
      signal.signal(signal.SIGALRM, signal.SIG_DFL)
      signal.alarm(timeout)
      try:
        out = ('ok', fn())
      except core.Violation as e:
        out = ('violation', str(e))
      except Exception as e:  # pylint: disable=broad-except
        out = ('error', f'{type(e).__name__}: {str(e)[:500]}')
      with os.fdopen(w, 'wb') as f:
        pickle.dump(out, f)
      code = 0
    finally:
      os._exit(code)
  os.close(w)
  try:
    with os.fdopen(r, 'rb') as f:
      data = f.read()
  except BaseException:
    os.kill(pid, signal.SIGKILL)
    raise
  finally:
    os.waitpid(pid, 0)
  if not data:
    return ('error', 'the process died')
  return pickle.loads(data)


def canon(o):
  """Plain, picklable and comparable form of a result."""
  if isinstance(o, xr.DataArray):
    return ('A', tuple(map(str, o.dims)), np.asarray(o.values), {
        str(c): (tuple(map(str, v.dims)), np.asarray(v.values))
        for c, v in o.coords.items()})
  if isinstance(o, xr.Dataset):
    return ('D', {str(k): canon(v) for k, v in o.data_vars.items()})
  if isinstance(o, xr.DataTree):
    return ('T', {
        n.path: canon(n.to_dataset()) for n in o.subtree})
  if isinstance(o, aggregation.AggregationState):
    return ('S', canon(o.sum_weighted_statistics), canon(o.sum_weights))
  if isinstance(o, np.ndarray):
    return ('N', o)
  if isinstance(o, dict):
    return ('M', {str(k): canon(v) for k, v in o.items()})
  if isinstance(o, (list, tuple)):
    return ('L', [canon(v) for v in o])
  return ('R', repr(o))


def arr_eq(a, b):
  if a.dtype != b.dtype or a.shape != b.shape:
    return False
  if a.dtype.kind in 'fc':
    return close(a, b, 1e-5, 1e-7)
  if a.dtype.kind == 'O':
    return repr(a.tolist()) == repr(b.tolist())
  return a.tobytes() == b.tobytes()


def differs(a, b, path=''):
  """None or a description of a difference of canonical results."""
  if type(a) is not type(b):
    return f'{path}: {type(a).__name__} instead of {type(b).__name__}'
  if isinstance(a, np.ndarray):
    return None if arr_eq(a, b) else (
        f'{path}: {np.array2string(a, threshold=20)} instead of '
        f'{np.array2string(b, threshold=20)}')
  if isinstance(a, dict):
    if list(a) != list(b) and set(a) != set(b):
      return f'{path}: {list(a)} instead of {list(b)}'
    for k in a:
      d = differs(a[k], b[k], f'{path}/{k}')
      if d:
        return d
    return None
  if isinstance(a, (list, tuple)):
    if len(a) != len(b):
      return f'{path}: {len(a)} items instead of {len(b)}'
    for i, (x, y) in enumerate(zip(a, b)):
      d = differs(x, y, f'{path}/{i}' if i > 1 or len(a) > 4 else path)
      if d:
        return d
    return None
  return None if a == b else f'{path}: {a} instead of {b}'


class World:
  """Shared inputs and operations."""

  def __init__(self):
    self.inputs = {}
    self.ops = {}

  def add(self, name, fn):
    assert name not in self.ops, name
    self.ops[name] = fn


def shaped(d, variant, mask, reorder):
  """The given arrays {name: DataArray} in a layout."""
  out = {}
  for i, (k, v) in enumerate(d.items()):
    if variant == 'nan':
      x = v.values.astype(float).copy()
      x.reshape(-1)[i::7] = NAN
      v = v.copy(data=x)
      if mask:
        v = v.assign_coords(mask=v.notnull())
    elif variant == 'permuted':
      v = v.transpose(*v.dims[::-1])
      if reorder:
        v = v.isel(longitude=[2, 0, 1])
      v = v.assign_attrs(units='m')
    elif variant == 'lazy':
      v = v.chunk({'init_time': 1})
    elif variant == 'f32':
      v = v.astype('float32')
    out[k] = v
  return xr.Dataset(out) if variant == 'ds' else out


def metric_world(kind, variant):
  w = World()
  for s in (1, 2):
    p, t = zoo.data(kind)
    if s == 2:
      if kind == 'precip':
        p, t = t, p
      else:
        p = {k: v.roll(longitude=1, roll_coords=False) for k, v in p.items()}
        t = {k: v.roll(latitude=1, roll_coords=False) for k, v in t.items()}
    w.inputs[s] = (
        shaped(p, variant, False, kind != 'precip'),
        shaped(t, variant, True, kind != 'precip'))
  w.inputs['climatology'] = zoo.climatology(0)
  w.inputs['thresholds'] = zoo.thresholds((1.0, 2.0), 'q')
  metrics = {n: f() for n, k, f in zoo.catalogue() if k == kind and
             (variant != 'lazy' or 'FSS' not in n)}  # needs data in memory
  if kind == 'real':
    metrics['ACCshared'] = det.ACC(w.inputs['climatology'])
    metrics['Exshared'] = det.ErrorExceedance(w.inputs['thresholds'])
    metrics['CSIshared'] = wr.WrappedMetric(
        metrics['MSE'], [wr.ContinuousToBinary(
            'both', w.inputs['thresholds'], 'q', 'shared')])

  def run(ms, s):
    p, t = w.inputs[s]
    stats = mb.compute_unique_statistics_for_all_metrics(ms, p, t)
    agg = aggregation.Aggregator(
        reduce_dims=['init_time', 'latitude'], masked=variant == 'nan',
        weigh_by=[weighting.GridAreaWeighting()])
    before = fingerprint(stats)
    state = agg.aggregate_statistics(stats)
    check(fingerprint(stats) == before, 'aggregation changed the statistics')
    before = fingerprint(state)
    values = state.metric_values(ms)
    check(fingerprint(state) == before, 'metric values changed the state')
    return {'state': state, 'values': values}

  for n, m in metrics.items():
    for s in (1, 2):
      w.add(f'{n}@{s}', lambda m=m, s=s: run({'m': m}, s))
  names = list(metrics)
  for s in (1, 2):
    w.add(f'some@{s}', lambda s=s: run(
        {n: metrics[n] for n in names[:6]}, s))
  return w


INIT = np.array(['2020-02-28T00', '2020-12-31T12'], 'datetime64[ns]')
LEAD = np.array([0, 12], 'timedelta64[h]').astype('timedelta64[ns]')


def loader_world(variant):
  w = World()
  inits = [0, 12, 24, 36, 48]
  fc = c20.forecasts(1, inits).isel(latitude=[2, 0, 1])
  fc2 = c20.forecasts(2, [6, 18, 30])
  n = 40
  t = c20.T0 + np.arange(n) * H(6)
  x = np.arange(n * 3).reshape(n, 3) * 1.5
  x[3::5, 1] = NAN
  an = xr.Dataset({'v': (('time', 'lat'), x), 'w': (('lat', 'time'), -x.T)},
                  coords={'time': t, 'lat': c20.LAT, 'lon': 5.0})
  cl = xr.Dataset(
      {'v': (('hour', 'dayofyear', 'latitude'),
             np.arange(4 * 366 * 3.0).reshape(4, 366, 3))},
      coords={'hour': [0, 6, 12, 18], 'dayofyear': np.arange(1, 367),
              'latitude': c20.LAT})
  years = np.concatenate([
      (np.datetime64(f'{y}-02-26T00', 'ns') + np.arange(24) * H(6))
      for y in (2017, 2018, 2019)])
  pc = xr.Dataset({'v': (('time', 'latitude'),
                         np.arange(len(years) * 3.0).reshape(-1, 3))},
                  coords={'time': years, 'latitude': c20.LAT})
  data = dict(fc=fc, fc2=fc2, an=an, cl=cl, pc=pc)
  if variant == 'lazy':
    data = {k: v.chunk({list(v.dims)[0]: 2}) for k, v in data.items()}
  rename = {'v': 'u'}
  variables = ['w', 'v']
  sel = {'latitude': [0.0, 20.0]}
  ref = {'v': xr.DataArray(np.zeros(2), dims='station', coords={
      'latitude': ('station', [2.5, 15.0])})}
  ref['w'] = ref['v'].copy()
  reqs = {
      'a': (np.array([c20.at(12), c20.at(24)]), np.array([H(0), H(6)])),
      'b': (np.array([c20.at(36)]), np.array([H(6), H(12)])),
      'c': (np.array([c20.at(24), c20.at(12)]), slice(H(0), H(12))),
  }
  w.inputs.update(data=data, rename=rename, variables=variables, sel=sel,
                  ref=ref, reqs=reqs)
  pre = lambda ds: ds.map(lambda v: v * 2)
  proc = lambda ds: {k: v.fillna(0.0) + 1 for k, v in ds.items()}
  inter = ip.InterpolateToReferenceCoords(method='linear')
  mk = {
      'fc': lambda **k: xl.PredictionsFromXarray(ds=data['fc'], **k),
      'fcmask': lambda **k: xl.PredictionsFromXarray(
          ds=data['fc'], add_nan_mask=True, variables=variables,
          process_chunk_fn=proc, **k),
      'fcopts': lambda **k: xl.PredictionsFromXarray(
          ds=data['fc'], variables=['v'], sel_kwargs=sel,
          preprocessing_fn=pre,
          add_values_to_coords=True, **k),
      'fcref': lambda **k: xl.PredictionsFromXarray(
          ds=data['fc'], interpolation=inter, **k),
      'an': lambda **k: xl.TargetsFromXarray(ds=data['an'], **k),
      'anmask': lambda **k: xl.TargetsFromXarray(
          ds=data['an'], add_nan_mask=True, add_values_to_coords=True,
          rename_variables=rename, **k),
      'anfn': lambda **k: xl.TargetsFromXarray(
          ds=data['an'], variables=['v'], preprocessing_fn=pre,
          process_chunk_fn=proc, compute=False, **k),
      'pers': lambda **k: xl.PersistenceFromXarray(ds=data['an'], **k),
      'clim': lambda **k: xl.ClimatologyFromXarray(ds=data['cl'], **k),
      'pclim': lambda **k: xl.ProbabilisticClimatologyFromXarray(
          ds=data['pc'], start_year=2017, end_year=2019, **k),
      'late': lambda **k: lw.XarrayConstantLatencyWrapper(
          xl.PredictionsFromXarray(ds=data['fc'], **k), H(6)),
      'both': lambda **k: lw.MultipleConstantLatencyWrapper([
          lw.XarrayConstantLatencyWrapper(
              xl.PredictionsFromXarray(ds=data['fc'], **k), H(6)),
          lw.XarrayConstantLatencyWrapper(
              xl.PredictionsFromXarray(ds=data['fc2'], **k), H(3))]),
  }
  loaders = {n: f() for n, f in mk.items()}
  for n, l in loaders.items():
    for r, (it, lt) in reqs.items():
      if r == 'c' and n not in ('fc', 'fcmask', 'fcopts', 'fcref'):
        continue
      w.add(f'{n}.{r}', lambda n=n, l=l, it=it, lt=lt: l.load_chunk(
          it, lt, ref if n == 'fcref' else None))
    # A loader made while others are in use.
    w.add(f'new.{n}', lambda n=n: mk[n]().load_chunk(
        *reqs['b'], ref if n == 'fcref' else None))
  return w


def sparse_world(variant, tmp):
  w = World()
  rows = c21.RICH
  c21.write(tmp, rows, variant, untyped_empty=True)
  w.inputs['files'] = Files(tmp)
  # c21's time zero
  z = c21.at(0)
  minutes = c21.minutes
  its = np.array([z + minutes(600), z + minutes(660)])
  w.inputs['its'] = its
  variables, coords = ['temperature', 'windSpeed'], ['oid', 'stationName']
  rename = {'temperature': 't2'}
  w.inputs['lists'] = (variables, coords, rename)
  args = dict(path=tmp, partitioned_by=variant, time_dim='timeObs')
  loaders = {
      'plain': sp.SparseObservationsFromParquet(
          variables=variables, coordinate_variables=coords, **args),
      'split': sp.SparseObservationsFromParquet(
          variables=variables, coordinate_variables=coords,
          split_variables=True, dropna=True, add_nan_mask=True,
          tolerance=minutes(20), **args),
      'dup': sp.SparseObservationsFromParquet(
          variables=['t2', 'windSpeed'], rename_variables=rename,
          coordinate_variables=coords, remove_duplicates=True,
          pick_closest_duplicate_by='timeNominal', observation_dim='stationName',
          tolerance=minutes(30), **args),
  }
  reqs = {'exact': np.array([minutes(0), minutes(60)]).astype('m8[ns]'),
          'slice': slice(minutes(0), minutes(90)),
          'one': np.array([minutes(120)]).astype('m8[ns]')}
  w.inputs['reqs'] = reqs
  for n, l in loaders.items():
    for r, lt in reqs.items():
      if r == 'slice' and n != 'plain':
        continue
      for k in (1, 2):
        w.add(f'{n}.{r}.{k}', lambda l=l, lt=lt, k=k: l.load_chunk(
            its[:k], lt))
  return w


class Files:
  """Names and contents of files."""

  def __init__(self, root):
    self.root = root

  def __repr__(self):
    out = []
    for d, _, fs in sorted(os.walk(self.root)):
      for f in sorted(fs):
        with open(os.path.join(d, f), 'rb') as x:
          out.append((d, f, hash(x.read())))
    return repr(out)


def field(variant, seed=0, extra=(), nan=False):
  r = np.random.RandomState(seed)
  lat, lon = np.array([60.0, 0.0, -60.0]), np.array([180.0, 0.0, 90.0, 270.0])
  x = r.randint(0, 9, (2, 3, 4)).astype(float)
  if nan:
    x[1, 1, 2] = NAN
  da = xr.DataArray(x, dims=['t', 'latitude', 'longitude'], coords={
      't': [1, 0], 'latitude': lat, 'longitude': lon,
      'elevation': (('latitude', 'longitude'), x[0] * 100)}, name='f')
  if 'noelev' in extra:
    da = da.drop_vars('elevation')
  if variant == 'lazy':
    da = da.chunk({'t': 1})
  elif variant == 'permuted':
    da = da.transpose('longitude', 't', 'latitude')
  elif variant == 'f32':
    da = da.astype('float32')
  return da


def interpolation_world(variant):
  w = World()
  ds = {'2m_temperature': field(variant, 1), '10m_wind_speed': field(variant, 2),
        'z': field(variant, 3, nan=True)}
  ds = {k: v.rename(k).drop_vars('elevation') for k, v in ds.items()}
  sparse = {k: xr.DataArray(np.arange(4.0), dims='index', coords={
      'latitude': ('index', [10.0, -30.0, 70.0, 0.0]),
      'longitude': ('index', [-10.0, 350.0, 45.0, 180.0]),
      'elevation': ('index', [0.0, 2000.0, 300.0, 150.0])}) for k in ds}
  gridded = {k: xr.DataArray(np.zeros((2, 2)), dims=['latitude', 'longitude'],
                             coords={'latitude': [30.0, -30.0],
                                     'longitude': [45.0, 300.0]}) for k in ds}
  # Values that are already at stations.
  there = {k: v.copy(data=np.array([3.0, 5.0, 7.0, NAN])).rename(k).assign_coords(
      grid_elevation=('index', [0.0, 0.0, 10.0, 20.0]))
           for k, v in sparse.items()}
  elev = field(variant, 5).isel(t=0, drop=True).drop_vars('elevation') * 50
  at_stations = xr.DataArray([0.0, 0.0, 10.0, 20.0], dims='index')
  coords = {'latitude': np.array([15.0, -15.0]),
            'longitude': np.array([10.0, 200.0])}
  jcoords = {'latitude': xr.DataArray([15.0, -15.0], dims='p'),
             'longitude': xr.DataArray([10.0, 359.0], dims='p')}
  w.inputs.update(ds=ds, dataset=xr.Dataset(ds), sparse=sparse, gridded=gridded,
                  there=there, elev=elev, coords=coords, jcoords=jcoords,
                  at=at_stations, dims=['latitude', 'longitude'])
  clip = ['latitude', 'longitude']
  w.inputs['clip'] = clip
  I = ip.InterpolateToReferenceCoords
  F = ip.InterpolateToFixedCoords
  objs = {
      'lin': I('linear', wrap_longitude=True),
      'near': I('nearest', wrap_longitude=True, clip_reference_coords=clip),
      'noextra': I('linear', extrapolate_out_of_bounds=False,
                   dims=w.inputs['dims']),
      'alt': ip.GridToSparseWithAltitudeAdjustment(
          'linear', elev, wrap_longitude=True),
  }
  fixed = {
      'fix': F('linear', coords, wrap_longitude=True),
      'fixj': F('nearest', jcoords, wrap_longitude=True),
      'fixx': F('linear', coords, extrapolate_out_of_bounds=False),
      'crop': ip.CropToBox(-70, 10, 0, 200),
      'prob': ip.NeighborhoodThresholdProbabilities([1, 3], [2.0, 5.0],
                                                    wrap_longitude=True),
      'sub': ip.Subsample(['latitude', 'longitude'], 2),
  }
  fixed['multi'] = ip.MultipleInterpolation([fixed['crop'], fixed['sub']])
  for n, o in objs.items():
    if n != 'near':
      w.add(f'{n}.sparse', lambda o=o: o.interpolate(ds, sparse))
    if n != 'alt':
      # (clipping needs the dimensions)
      w.add(f'{n}.grid', lambda o=o: o.interpolate(ds, gridded))
      w.add(f'{n}.dataset', lambda o=o: o.interpolate(
          w.inputs['dataset'], gridded))
  none = ip.GridToSparseWithAltitudeAdjustment('linear', at_stations, dims=[])
  # There is nothing to interpolate.
  w.add('alt.there', lambda: {k: none.interpolate_data_array(v, sparse[k])
                              for k, v in there.items()})
  if variant == 'lazy':
    fixed.pop('prob')  # needs data in memory
  for n, o in fixed.items():
    w.add(f'{n}', lambda o=o: o.interpolate(ds))
    w.add(f'{n}.dataset', lambda o=o: o.interpolate(w.inputs['dataset']))
    if n in ('fix', 'crop', 'sub', 'prob'):
      w.add(f'{n}.one', lambda o=o: o.interpolate_data_array(ds['z']))
  w.add('pad', lambda: ip.pad_longitude(ds['z']))
  w.add('to', lambda: ip.interpolate_to_coords(ds['z'].sortby('longitude'),
                                               coords, 'linear'))
  return w


def transform_world(variant):
  w = World()
  das = [field(variant, i, nan=i == 1).rename('v') for i in range(2)]
  if variant == 'mask':
    das = [d.assign_coords(mask=d.notnull() & (d != 4)) for d in das]
  ens = [d.rename(t='number') for d in das]
  th = xr.DataArray([[1.0, 4.0], [2.0, 6.0], [3.0, 5.0]],
                    dims=['latitude', 'q'],
                    coords={'latitude': das[0].latitude, 'q': [0.1, 0.9]})
  thds = xr.Dataset({'v': th})
  values = [2.0, 5.0]
  sel = {'longitude': [0.0, 90.0]}
  renames = {'t': 'time'}
  w.inputs.update(das=das, ens=ens, th=th, thds=thds, values=values, sel=sel,
                  renames=renames)
  ts = {
      'binary': wr.ContinuousToBinary('both', values, 'q'),
      'binaryda': wr.ContinuousToBinary('both', th, 'q', 'th'),
      'binaryds': wr.ContinuousToBinary('both', thds, 'q', 'th'),
      'bins': wr.ContinuousToBins('both', values, 'b'),
      'binsda': wr.ContinuousToBins('both', th, 'q', 'th'),
      'cdf': wr.ContinuousToCDF('both', values, 'b'),
      'cdfds': wr.ContinuousToCDF('both', thds, 'q', 'th', right_inclusive=False),
      'relu': wr.ReLU('both'),
      'inline': wr.Inline('both', lambda d: d - 1, 'm1'),
      'shift': wr.ShiftAlongNewDim('both', values, 's', 's'),
      'shift1': wr.ShiftAlongNewDim('both', 1.5, 's', 's'),
      'rename': wr.Rename('both', renames),
      'select': wr.Select('both', sel=sel),
      'iselect': wr.Select('both', isel={'latitude': slice(0, 2)}),
      'stack': wr.StackToNewDimension('both', ['latitude', 'longitude'], 'p'),
  }
  es = {
      'mean': wr.EnsembleMean('both'), 'meanskip': wr.EnsembleMean(
          'both', skipna=True),
      'weibull': wr.WeibullEnsembleToProbabilistic('predictions'),
  }
  if variant == 'lazy':
    ts.pop('stack')
  for i in range(2):
    for n, t in ts.items():
      w.add(f'{n}.{i}', lambda t=t, i=i: t.transform_fn(das[i]))
    for n, t in es.items():
      w.add(f'{n}.{i}', lambda t=t, i=i: t.transform_fn(
          ens[i] if n != 'weibull' else (ens[i] > 3).where(ens[i].notnull())))
  if variant != 'mask' and variant != 'lazy':
    for n in (1, 3):
      for wrap in (False, True):
        w.add(f'conv{n}{wrap}', lambda n=n, wrap=wrap:
              spatial.convolve2d_wrap_longitude(das[0].transpose(
                  't', 'latitude', 'longitude').values[0], n, wrap))
        w.add(f'near{n}{wrap}', lambda n=n, wrap=wrap:
              spatial.neighborhood_averaging(das[0], [1, n], wrap))
        w.add(f'near1{n}{wrap}', lambda n=n, wrap=wrap:
              spatial.neighborhood_averaging(das[1], n, wrap))
  for wh in ('predictions', 'targets', 'both'):
    m = wr.WrappedMetric(det.MSE(), [wr.ReLU(wh), wr.Select(
        'both', sel=sel)], f'x{wh}')
    w.add(f'wrapped.{wh}', lambda m=m: mb.compute_unique_statistics_for_all_metrics(
        {'m': m}, {'v': das[0]}, {'v': das[1]}))
  return w


def binning_world(variant):
  w = World()
  t = np.array(['2020-02-29T00', '2020-12-31T18', '2021-06-01T06'],
               'datetime64[ns]')
  r = np.random.RandomState(3)
  lat, lon = np.array([80.0, 0.0, -45.0]), np.array([0.0, 90.0, 200.0, 355.0])
  da = xr.DataArray(
      r.randint(0, 9, (3, 2, 3, 4)).astype(float),
      dims=['init_time', 'lead_time', 'latitude', 'longitude'],
      coords={'init_time': t, 'lead_time': LEAD, 'latitude': lat,
              'longitude': lon, 'valid_time': (
                  ('init_time', 'lead_time'), t[:, None] + LEAD),
              'kind': ('init_time', [2, 1, 2]),
              'elev': ('longitude', [0.0, 90.0, 10.0, -5.0])}, name='v')
  other = da.isel(latitude=[2, 1], longitude=[3, 1]).drop_vars('valid_time')
  if variant == 'permuted':
    da, other = da.transpose(*da.dims[::-1]), other.transpose(*da.dims[::-1])
  elif variant == 'lazy':
    da, other = da.chunk({'init_time': 1}), other.chunk({'init_time': 1})
  elif variant == 'nan':
    da = da.where(da != 3)
    da = da.assign_coords(mask=da.notnull())
    other = other.where(other > 1)
    other = other.assign_coords(mask=other.notnull())
  land = xr.DataArray(r.randint(0, 3, (3, 4)) / 2, dims=['latitude', 'longitude'],
                      coords={'latitude': lat, 'longitude': lon})
  regions = {'n': ((20, 90), (0, 360)), 'x': ((-90, 90), (350, 100))}
  sets = {'s': [1, 2], 'p': 0.0}
  usets = {'a': [0, 6], 'b': 18}
  edges = np.array([0.0, 90.0, 360.0])
  w.inputs.update(da=da, other=other, land=land, regions=regions, sets=sets,
                  usets=usets, edges=edges)
  bins = {
      'land': binning.LandSea(land, include_global_mask=True),
      'regions': binning.Regions(regions),
      'regland': binning.Regions(regions, land_sea_mask=land > 0.4),
      'lat': binning.LatitudeBins(45), 'lon': binning.LongitudeBins(90),
      'exact': binning.ByExactCoord('kind', True),
      'hour': binning.ByTimeUnit('hour', 'init_time'),
      'season': binning.ByTimeUnit('month', 'init_time', True),
      'usets': binning.ByTimeUnitSets(usets, 'hour', 'init_time',
                                      add_global_bin=True),
      'secs': binning.ByTimeUnitFromSeconds('hour', 'lead_time'),
      'cbins': binning.ByCoordBins('elev', edges, True),
      'sets': binning.BySets(sets, 'latitude', 'ls', True, True),
  }
  for n, b in bins.items():
    for k, x in (('da', da), ('other', other)):
      if n in ('land', 'regland') and k == 'other':
        continue
      w.add(f'mask.{n}.{k}', lambda b=b, x=x: b.create_bin_mask(x))
  area = weighting.GridAreaWeighting()
  w.add('area', lambda: area.weights(da))
  w.add('area.other', lambda: area.weights(other))
  stats = {'S': {'v': da, 'w': da * 2}, 'T': {'v': other}}
  w.inputs['stats'] = stats
  by, wt, rd = [bins['exact'], bins['hour']], [area], ['init_time', 'latitude',
                                                      'longitude']
  w.inputs['rd'] = rd
  aggs = {
      'all': aggregation.Aggregator(reduce_dims=rd),
      'area': aggregation.Aggregator(reduce_dims=rd, weigh_by=wt),
      'bins': aggregation.Aggregator(reduce_dims=rd, bin_by=by, weigh_by=wt),
      'skip': aggregation.Aggregator(reduce_dims=rd, skipna=True, bin_by=by),
  }
  if variant == 'nan':
    aggs['masked'] = aggregation.Aggregator(
        reduce_dims=rd, bin_by=by, weigh_by=wt, masked=True)
  for n, a in aggs.items():
    w.add(f'agg.{n}', lambda a=a: a.aggregate_statistics(stats))
    w.add(f'vars.{n}', lambda a=a: a.aggregate_stat_vars(stats['S']))
    w.add(f'one.{n}', lambda a=a: a.aggregate_stat_var(da))
  return w


def make_states(variant):
  units = infer.dates(3)
  def make(seed, k):
    r = np.random.RandomState(seed)
    names = ('v', 'w') if k == 2 else ('v',)
    x = {'a': {n: r.randint(1, 9, (3, 2)).astype(float) for n in names},
         'b': {n: r.randint(1, 9, (3, 2)).astype(float) for n in names}}
    y = {t: {n: r.randint(1, 4, (3, 2)).astype(float) for n in names}
         for t in 'ab'}
    if variant == 'nan':
      y['a']['v'][1, 0] = 0.0
      x['a']['v'][1, 0] = 0.0
      x['b']['v'][2, 1] = NAN
    return infer.state(x, y, units, (infer.UNIT, 'lead'), {'lead': [1, 2]},
                       named=variant != 'unnamed')
  ms = {'mean': infer.Mean('a'), 'root': infer.Root(), 'ratio': infer.Ratio()}
  return make(1, 2), make(2, 2), make(3, 2), ms, units


def state_world(variant):
  w = World()
  s, t, u, ms, units = make_states(variant)
  zero = aggregation.AggregationState.zero()
  lst, dims = [s, t, u, zero], [infer.UNIT]
  counts = xr.DataArray([[1.0, 0.0, 2.0], [0.0, 1.0, 1.0]],
                        dims=['rep', infer.UNIT],
                        coords={infer.UNIT: units})
  other = aggregation.AggregationState(
      {k: {n: d.assign_coords({infer.UNIT: units + np.timedelta64(30, 'D')})
           for n, d in v.items()} for k, v in t.sum_weighted_statistics.items()},
      {k: {n: d.assign_coords({infer.UNIT: units + np.timedelta64(30, 'D')})
           for n, d in v.items()} for k, v in t.sum_weights.items()})
  w.inputs.update(s=s, t=t, u=u, zero=zero, lst=lst, dims=dims, counts=counts,
                  other=other)
  A = aggregation.AggregationState
  w.add('add', lambda: s + t)
  w.add('addu', lambda: u + s)
  w.add('radd', lambda: t + s)
  w.add('zero', lambda: zero + s)
  w.add('other', lambda: s + other)
  w.add('sum', lambda: A.sum(lst))
  w.add('sum2', lambda: A.sum([t, s]))
  w.add('sumi', lambda: A.sum(iter([t, s, other])))
  w.add('sum1', lambda: A.sum([s]))
  w.add('along', lambda: s.sum_along_dims(dims))
  w.add('along2', lambda: s.sum_along_dims(['lead', infer.UNIT]))
  w.add('dot', lambda: s.dot(counts, dim=infer.UNIT))
  w.add('mean', lambda: s.mean_statistics())
  w.add('values', lambda: s.metric_values(ms))
  w.add('valuest', lambda: t.metric_values({'x': ms['root']}))
  w.add('map', lambda: s.map(lambda x: x * 2))
  w.add('multi', lambda: A.map_multi(lambda x, y: x - y, s, t))
  w.add('tree', lambda: s.to_data_tree())
  w.add('ds', lambda: s.to_dataset())
  w.add('rtree', lambda: A.from_data_tree(s.to_data_tree()))
  w.add('rds', lambda: A.from_dataset(t.to_dataset()))
  arr = s.sum_weighted_statistics['Stat_a']['v']
  w.add('csum', lambda: aggregation.combining_sum(
      [arr, other.sum_weights['Stat_a']['v'], arr]))
  w.add('xmap', lambda: xarray_tree.map_structure(
      lambda x: x + 1, {'k': [s.sum_weights['Stat_a'], arr]}))
  w.add('slices', lambda: iu.apply_to_slices(
      lambda x: x.sum(infer.UNIT), arr, dim='lead'))
  return w


def inference_world(variant):
  w = World()
  s, t, _, ms, _ = make_states(variant)
  w.inputs.update(s=s, t=t)
  def seeded(f):
    def run():
      np.random.seed(5)
      o = f()
      out = [o.point_estimates(), o.standard_error_estimates(),
             o.confidence_intervals(0.1), o.p_values(0.0), o.p_values(2.0),
             o.confidence_intervals(0.1), o.point_estimates()]
      d = differs(canon(out[5]), canon(out[2])) or differs(
          canon(out[6]), canon(out[0]))
      check(d is None, f'asked again: {d}')
      return out
    return run
  for k, q in (('s', s), ('t', t)):
    w.add(f'iid.{k}', seeded(lambda q=q: bs.IIDBootstrap(
        ms, q, infer.UNIT, 5)))
    w.add(f'stat.{k}', seeded(lambda q=q: bs.StationaryBootstrap(
        ms, q, infer.UNIT, 5, mean_block_length=2.0)))
    w.add(f'tt.{k}', seeded(lambda q=q: tt.IID(ms, q, infer.UNIT)))
    w.add(f'lin.{k}', lambda q=q:
          autodiff.per_unit_values_linearized_around_mean_statistics(
              {'m': ms['ratio']}, q, infer.UNIT))
  cmp = {'d': bc.BaselineComparison(ms['root'])}
  both = bc.combine_aggregation_states(s, t)
  w.inputs['both'] = both
  w.add('combine', lambda: bc.combine_aggregation_states(s, t))
  w.add('compare', lambda: both.metric_values(cmp))
  w.add('iid.compare', seeded(lambda: bs.IIDBootstrap(
      cmp, both, infer.UNIT, 5)))
  w.add('tt.compare', seeded(lambda: tt.IID(cmp, both, infer.UNIT)))
  return w


def chunk_world(variant):
  w = World()
  init = np.arange(5).astype('timedelta64[h]') + np.datetime64('2020-01-01', 'ns')
  lead = (slice(LEAD[0], LEAD[1]) if variant == 'slice'
          else np.arange(3).astype('timedelta64[h]').astype('timedelta64[ns]'))
  w.inputs.update(init=init, lead=lead)
  objs = {f'{a}{b}': time_chunks.TimeChunks(init, lead, a, b)
          for a in (None, 2) for b in (None, 2)
          if variant != 'slice' or b is None}
  for n, o in objs.items():
    w.add(f'list.{n}', lambda o=o: list(o))
    w.add(f'len.{n}', lambda o=o: len(o))
    w.add(f'get.{n}', lambda o=o: o[0])
    w.add(f'last.{n}', lambda o=o: o[len(o) - 1])
    w.add(f'part.{n}', lambda o=o: next(iter(o)))
    w.add(f'offsets.{n}', lambda o=o: [
        (repr(a), b) for a, b in o.iter_with_chunk_offsets()])
    w.add(f'nested.{n}', lambda o=o: [
        (a[0], b[0]) for a in o for b in o])
  return w


WORLDS = {
    'loaders': (loader_world, ('memory', 'lazy')),
    'sparse': (sparse_world, ('day', 'month')),
    'interpolation': (interpolation_world, ('plain', 'lazy', 'permuted', 'f32')),
    'transforms': (transform_world, ('plain', 'lazy', 'permuted', 'mask', 'f32')),
    'binning': (binning_world, ('plain', 'lazy', 'permuted', 'nan')),
    'states': (state_world, ('plain', 'nan', 'unnamed')),
    'inference': (inference_world, ('plain', 'unnamed')),
    'chunks': (chunk_world, ('array', 'slice')),
}
KINDS = ('real', 'precip', 'binary', 'prob', 'ens', 'ensens', 'ensbin', 'cdf')
QUICK = {'nan': KINDS, 'plain': (), 'ds': ('binary', 'prob', 'cdf'),
         'permuted': ('real', 'ens', 'precip', 'ensens'),
         'f32': ('ens', 'ensbin', 'real'), 'lazy': ('precip', 'cdf')}
# Layouts with all pairs of operations in the quick tier.
PAIRS = {'loaders': ('memory',), 'sparse': (),
         'interpolation': ('plain',), 'transforms': ('plain',),
         'binning': ('nan',), 'states': ('nan',), 'inference': (),
         'chunks': ('array', 'slice')}
PARTS = 2


class C24(core.Check):
  id = 'C24'
  rule = ('worlds of shared inputs and objects (loaders, sparse stores, '
          'interpolations, transforms, binnings, aggregators, states and '
          'inference, all library metrics) in several layouts; all operations '
          'alone in a fresh process, then all ordered pairs on shared objects')
  assumptions = ('user supplied functions do not modify their arguments',
                 'random draws are seeded before every operation')
  case_timeout = 400

  def cases(self):
    for name, (_, variants) in WORLDS.items():
      for v in variants:
        pairs = self.thorough or v in PAIRS[name]
        for part in range(PARTS) if pairs else (None,):
          yield {'w': name, 'v': v, 'part': part}
    for kind in KINDS:
      for v in ('nan', 'plain', 'ds', 'permuted', 'f32', 'lazy'):
        if not self.thorough and kind not in QUICK[v]:
          continue
        pairs = self.thorough or (v == 'nan' and kind in (
            'precip', 'ensens', 'ensbin', 'cdf'))
        for part in range(PARTS) if pairs else (None,):
          yield {'w': 'metrics', 'kind': kind, 'v': v, 'part': part}

  def run_case(self, case, rec):
    # Threads do not survive the forks.
    dask.config.set(scheduler='synchronous')
    with tempfile.TemporaryDirectory() as tmp:
      self.explore(case, rec, tmp)

  def make(self, case, tmp):
    np.random.seed(0)
    if case['w'] == 'metrics':
      return metric_world(case['kind'], case['v'])
    f = WORLDS[case['w']][0]
    return f(case['v'], tmp) if case['w'] == 'sparse' else f(case['v'])

  def explore(self, case, rec, tmp):
    kind, names = isolated(lambda: list(self.make(case, tmp).ops))
    check(kind == 'ok', f'{case}: {names}')
    part = case['part']
    mine = names if part is None else names[part::PARTS]
    history = []
    if part is None:
      history = names + names[::-1]
      if self.thorough:
        history += names[::2] + names[1::2]
    else:
      # first, then every other operation and first again
      for a in mine:
        for b in self.partners(case, a, names):
          history += [a, b]
        history += [a]
    if not history:
      return
    # Every operation alone.
    def alone():
      w = self.make(case, tmp)
      before = fingerprint(w.inputs)
      def one(n):
        out = canon(w.ops[n]())
        check(fingerprint(w.inputs) == before, f'{n} modifies its inputs')
        return out
      fresh = {}
      for n in sorted(set(history)):
        k, v = isolated(lambda n=n: one(n))
        check(k == 'ok', f'{n} on its own: {v}')
        fresh[n] = v
      return fresh
    k, fresh = isolated(alone, 380)
    check(k == 'ok', f'{case}: {fresh}')
    rec.transition(len(fresh))
    def steps():
      w = self.make(case, tmp)
      before = fingerprint(w.inputs)
      past = []
      for n in history:
        out = canon(w.ops[n]())
        past.append(n)
        d = differs(out, fresh[n])
        check(d is None, f'{n} after {past[-4:-1]} (step {len(past)}) gives '
              f'{d}')
        check(fingerprint(w.inputs) == before,
              f'{n} (after {past[-4:-1]}) modifies its inputs')
      return len(past)
    k, v = isolated(steps, 380)
    check(k == 'ok', f'{case}: {v}')
    rec.transition(v)
    rec.nodes += v
    rec.trace(v, (str(case), len(history)))

  def partners(self, case, a, names):
    # Every unordered pair once, since a is repeated after b.
    later = names[names.index(a) + 1:]
    if case['w'] != 'metrics':
      return later
    # Metrics: the same data before, or the same metric on other data.
    name, s = a.split('@')
    return [b for b in later if (b.split('@')[1] == s == '1') or
            b.split('@')[0] == name]


CHECK = C24
