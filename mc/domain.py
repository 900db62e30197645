"""Small synthetic forecasts, observations and loaders used by the checks."""

import numpy as np
import xarray as xr

from weatherbenchX.data_loaders import base as loaders_base
from weatherbenchX.data_loaders import xarray_loaders

H = lambda x: np.timedelta64(int(x), 'h').astype('timedelta64[ns]')
T0 = np.datetime64('2020-02-28T00', 'ns')


def init_times(n, step=12):
  return T0 + (np.arange(n) * step).astype('timedelta64[h]')


def lead_times(n, step=6):
  return (np.arange(n) * step).astype('timedelta64[h]').astype('timedelta64[ns]')


def mix(*idx):
  """A deterministic, collision-free looking value in (0, 20)."""
  x = 17
  for i in idx:
    x = (x * 31 + int(i) * 7919 + 13) % 100003
  return (x % 1999) / 100.0 + 0.01


def grid(shape, salt, dtype=np.float32):
  a = np.empty(shape, dtype)
  for idx in np.ndindex(*shape):
    a[idx] = mix(salt, *idx)
  return a


def prediction_ds(ni, nl, nlat=2, nlon=2, salt=1, level=True, number=0,
                  init_step=12, lead_step=6, dtype=np.float32):
  """Forecast data set with ECMWF dimension names."""
  c = dict(time=init_times(ni, init_step),
           prediction_timedelta=lead_times(nl, lead_step),
           latitude=np.linspace(-30, 60, nlat), longitude=np.arange(nlon) * 90.0)
  dims = ['time', 'prediction_timedelta', 'latitude', 'longitude']
  shape = [ni, nl, nlat, nlon]
  if number:
    dims.append('number')
    shape.append(number)
    c['number'] = np.arange(number)
  v = {'t': (dims, grid(shape, salt, dtype))}
  if level:
    c['level'] = [500, 850]
    v['z'] = (dims + ['level'], grid(shape + [2], salt + 1, dtype))
  return xr.Dataset(v, coords=c)


def target_ds(nt, nlat=2, nlon=2, salt=5, level=True, step=6, dtype=np.float32):
  c = dict(time=T0 + (np.arange(nt) * step).astype('timedelta64[h]'),
           latitude=np.linspace(-30, 60, nlat), longitude=np.arange(nlon) * 90.0)
  dims = ['time', 'latitude', 'longitude']
  shape = [nt, nlat, nlon]
  v = {'t': (dims, grid(shape, salt, dtype))}
  if level:
    c['level'] = [500, 850]
    v['z'] = (dims + ['level'], grid(shape + [2], salt + 1, dtype))
  return xr.Dataset(v, coords=c)


class SparseTargets(loaders_base.DataLoader):
  """Observations given as a table (valid_time, station, lat, lon, value).

  Returned with an `index` dimension and init/lead/valid time coordinates, as
  the sparse observation loader does.
  """

  def __init__(self, table, variables=('t',), **kw):
    super().__init__(**kw)
    self.table = table
    self.variables = variables

  def _load_chunk_from_source(self, init_times, lead_times=None):
    rows = []
    for it in init_times:
      for vt, st, lat, lon, val in self.table:
        if isinstance(lead_times, slice):
          if it + lead_times.start <= vt <= it + lead_times.stop:
            rows.append((it, vt - it, vt, st, lat, lon, val))
        else:
          for lt in lead_times:
            if it + lt == vt:
              rows.append((it, lt, vt, st, lat, lon, val))
    n = len(rows)
    col = lambda j, dt: np.array([r[j] for r in rows], dtype=dt)
    coords = dict(
        index=np.arange(n),
        init_time=('index', col(0, 'datetime64[ns]')),
        lead_time=('index', col(1, 'timedelta64[ns]')),
        valid_time=('index', col(2, 'datetime64[ns]')),
        stationName=('index', col(3, 'U4')),
        latitude=('index', col(4, float)),
        longitude=('index', col(5, float)))
    return {v: xr.DataArray(col(6, np.float32) + i, dims=['index'],
                            coords=coords, name=v)
            for i, v in enumerate(self.variables)}


class SparsePredictions(loaders_base.DataLoader):
  """A forecast evaluated at the reference points (a function of its labels)."""

  def __init__(self, variables=('t',), **kw):
    super().__init__(**kw)
    self.variables = variables

  def _load_chunk_from_source(self, init_times, lead_times=None):
    raise NotImplementedError

  def load_chunk(self, init_times, lead_times=None, reference=None):
    out = {}
    for i, v in enumerate(self.variables):
      r = reference[v]
      f = [mix(int(it.astype('datetime64[h]').astype(int)) % 977,
               int(lt.astype('timedelta64[h]').astype(int)), len(str(s)),
               ord(str(s)[0])) + i
           for it, lt, s in zip(r.init_time.values, r.lead_time.values,
                                r.stationName.values)]
      out[v] = r.copy(data=np.array(f, dtype=np.float32).reshape(r.shape))
    return out


def loaders(ni, nl, **kw):
  p = prediction_ds(ni, nl, **{k: v for k, v in kw.items()
                               if k in ('nlat', 'nlon', 'level', 'number',
                                        'dtype')})
  t = target_ds(2 * ni + nl + 2, **{k: v for k, v in kw.items()
                                    if k in ('nlat', 'nlon', 'level', 'dtype')})
  lk = {k: v for k, v in kw.items() if k in ('add_nan_mask',)}
  return (xarray_loaders.PredictionsFromXarray(ds=p),
          xarray_loaders.TargetsFromXarray(ds=t, **lk))
