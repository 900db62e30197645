"""C20: latency wrappers never leak future data and use the latest run."""

import itertools

import numpy as np
import xarray as xr

from mc import core
from mc.xrutil import check, close, fail
from weatherbenchX import interpolations
from weatherbenchX.data_loaders import base
from weatherbenchX.data_loaders import latency_wrappers as lw
from weatherbenchX.data_loaders import xarray_loaders as xl

NS = 'datetime64[ns]'
T0 = np.datetime64('2020-02-28T00', 'ns')
LAT = np.array([0.0, 10.0, 20.0])


UNIT = [3600]  # seconds of the unit of time ("hour") of the current case


def hours(x):
  return np.timedelta64(int(x) * UNIT[0] * 10**9, 'ns')


def at(h):
  return T0 + hours(h)


def value(model, init_h, lead_h, var=0):
  """Identifies the model, run and step."""
  return model * 1e7 + var * 1e6 + (init_h + 100) * 1000.0 + lead_h


LEADS = np.arange(0, 97, 3)


def forecasts(model, inits, leads=LEADS):
  """inits: hours since T0, in the given (any) order."""
  x = np.array([[value(model, i, l) for l in leads] for i in inits])
  x = x.reshape(len(inits), len(leads))
  data = x[..., None] + np.arange(3) / 8.0
  return xr.Dataset(
      {'v': (('time', 'prediction_timedelta', 'latitude'), data),
       'w': (('prediction_timedelta', 'latitude', 'time'),
             np.moveaxis(data, 0, -1) + 1e6)},
      coords={'time': np.array([at(i) for i in inits], NS),
              'prediction_timedelta': np.array([hours(l) for l in leads],
                                               'timedelta64[ns]'),
              'latitude': LAT})


class Sparse(base.DataLoader):
  """Forecasts at stations: times are coordinates of `index`.

  Some steps are missing, so the number of rows differs between requests.
  """

  def __init__(self, model, inits, **kw):
    super().__init__(**kw)
    self.model = model
    self.inits = inits

  def _load_chunk_from_source(self, init_times, lead_times=None):
    rows = []
    for t in init_times:
      i = int((t - T0) / hours(1))
      if i not in self.inits:
        raise KeyError(t)
      for d in lead_times:
        l = int(d / hours(1))
        for s in range((i + l) // 3 % 3):
          rows.append((t, d, s, value(self.model, i, l) + s))
    co = {'init_time': ('index', np.array([r[0] for r in rows], NS)),
          'lead_time': ('index', np.array([r[1] for r in rows],
                                          'timedelta64[ns]')),
          'station': ('index', np.array([r[2] for r in rows], int))}
    return {n: xr.DataArray(np.array([r[3] for r in rows], float) + k * 1e6,
                            dims='index', coords=co)
            for k, n in enumerate(('v', 'w'))}


def best_run(runs, latency, t):
  """Latest run (hours) that is available at t, or None."""
  ok = [r for r in runs if r + latency <= t]
  return max(ok) if ok else None


def choose(loaders, t):
  """(index, run): most recent available run, ties: largest latency."""
  cand = [(best_run(r, l, t), l, k) for k, (r, l) in enumerate(loaders)]
  cand = [c for c in cand if c[0] is not None]
  if not cand:
    return None
  m = max((c[0], c[1]) for c in cand)
  ks = [c[2] for c in cand if (c[0], c[1]) == m]
  return ks, m[0]


RUNS = ((0, 12, 24), (24, 0, 12), (0,), (0, 6, 12, 18, 24), (6, 18),
        (0, 7, 26, 36), (18, -6, 6, 30))
LATENCIES = (0, 3, 5, 6, 7, 12, 30)


class C20(core.Check):
  id = 'C20'
  rule = ('all sets of runs (regular, irregular, unsorted) x latencies x '
          'requested times of an alphabet, with steps of hours, minutes and '
          'seconds; all ordered request pairs; all '
          'pairs (some triples) of wrapped loaders; all options; gridded and '
          'sparse loaders; all request histories of length two')
  assumptions = ('lead times are given as arrays (intervals are rejected)',)

  def cases(self):
    for r, l in itertools.product(range(len(RUNS)), LATENCIES):
      for kind in ('xarray', 'constant', 'sparse'):
        yield {'k': 'single', 'runs': r, 'lat': l, 'kind': kind}
    # the same with times that differ by minutes or seconds
    for r, unit in itertools.product(range(len(RUNS)), (420, 1)):
      for kind in ('xarray', 'constant', 'sparse'):
        yield {'k': 'single', 'runs': r, 'lat': 5, 'kind': kind, 'unit': unit}
    for (a, b), ls in itertools.product(
        itertools.product(range(len(RUNS)), repeat=2),
        ((6, 0), (5, 7), (12, 5)) if self.thorough else ((6, 0),)):
      for unit in (420, 1):
        if a == b:  # equal runs: only the latencies tell them apart
          yield {'k': 'multi', 'loaders': [[a, ls[1]], [b, ls[0]]],
                 'kind': 'xarray', 'unit': unit}
          yield {'k': 'multi', 'loaders': [[a, ls[1] + 5], [b, ls[0] + 5]],
                 'kind': 'xarray', 'unit': unit}
        if unit == 1 and not self.thorough and (a + b) % 2:
          continue
        yield {'k': 'multi', 'loaders': [[a, ls[0]], [b, ls[1]]],
               'kind': 'xarray', 'unit': unit}
    for a, b in itertools.product(range(len(RUNS)), repeat=2):
      for la, lb in (itertools.product((0, 5, 6, 12), repeat=2)
                     if self.thorough else
                     ((0, 6), (6, 0), (6, 6), (12, 0))):
        yield {'k': 'multi', 'loaders': [[a, la], [b, lb]], 'kind': 'xarray'}
      yield {'k': 'multi', 'loaders': [[a, 6], [b, 6]], 'kind': 'sparse'}
    for tri in itertools.product(((0, 6), (4, 3), (3, 12)), repeat=3):
      yield {'k': 'multi', 'loaders': [list(x) for x in tri], 'kind': 'xarray'}
    for o in itertools.product((0, 1), (0, 1), (0, 1), (0, 1, 2)):
      for kind in ('xarray', 'constant', 'sparse', 'multi'):
        yield {'k': 'options', 'opt': list(o), 'kind': kind}
    for kind in ('xarray', 'constant', 'multi'):
      yield {'k': 'history', 'kind': kind}
    yield {'k': 'units'}
    yield {'k': 'dims'}

  def run_case(self, case, rec):
    UNIT[0] = case.get('unit', 3600)
    getattr(self, '_' + case['k'])(case, rec)

  def wrap(self, kind, model, runs, lat, **kw):
    if kind == 'sparse':
      return lw.ConstantLatencyWrapper(
          Sparse(model, runs, **kw), hours(lat),
          np.array([at(r) for r in runs], NS), concat_dim='index')
    loader = xl.PredictionsFromXarray(ds=forecasts(model, runs), **kw)
    if kind == 'constant':
      return lw.ConstantLatencyWrapper(
          loader, hours(lat), np.array([at(r) for r in runs], NS))
    return lw.XarrayConstantLatencyWrapper(loader, hours(lat))

  def expected_rows(self, loaders, reqs, leads):
    """Per requested time: (candidate models, run) or None if unavailable."""
    return [choose(loaders, t) for t in reqs]

  def verify(self, got, kind, loaders, reqs, leads, what):
    rows = self.expected_rows(loaders, reqs, leads)
    for k, name in enumerate(('v', 'w')):
      check(name in got, f'{what}: {name} is missing')
      g = got[name]
      if kind == 'sparse':
        want = []
        for t, (models, run) in zip(reqs, rows):
          for l in leads:
            nl = t - run + l
            for s in range((run + nl) // 3 % 3):
              want.append((at(t), hours(l), s,
                           value(models[0], run, nl, k) + s))
        check(g.dims == ('index',), f'{what}: dims {g.dims}')
        # The order of the rows follows the request.
        check(np.array_equal(g.values, [w[3] for w in want]),
              f'{what}: rows {g.values}, expected {[w[3] for w in want]}')
        for c, i in (('init_time', 0), ('lead_time', 1), ('station', 2)):
          check(np.array_equal(
              g[c].values, np.array([w[i] for w in want], g[c].dtype)),
                f'{what}: {c} is {g[c].values}')
        continue
      check(set(g.dims) == {'init_time', 'lead_time', 'latitude'},
            f'{what}: dims {g.dims}')
      check(np.array_equal(g.init_time.values,
                           np.array([at(t) for t in reqs], NS)),
            f'{what}: init times {g.init_time.values}')
      check(np.array_equal(g.lead_time.values, np.array(
          [hours(l) for l in leads], 'timedelta64[ns]')),
            f'{what}: lead times {g.lead_time.values}')
      y = g.transpose('init_time', 'lead_time', 'latitude').values
      for a, (t, (models, run)) in enumerate(zip(reqs, rows)):
        for b, l in enumerate(leads):
          ok = [value(m, run, t - run + l, k) + np.arange(3) / 8.0
                for m in models]
          if not any(np.array_equal(y[a, b], x) for x in ok):
            fail(f'{what}: request {t} h + {l} h got {y[a, b]}, expected run '
                 f'{run} of model {models}: {ok[0]}')

  def available(self, loaders, reqs, leads):
    for t in reqs:
      c = choose(loaders, t)
      if c is None:
        return False
      if any(t - c[1] + l > LEADS[-1] for l in leads):
        return False
    return True

  def request(self, loader, kind, loaders, reqs, leads, rec, what):
    it = np.array([at(t) for t in reqs], NS)
    lt = np.array([hours(l) for l in leads], 'timedelta64[ns]')
    rec.transition()
    rec.nodes += 1
    # (requested time, available run) of sparse loaders with changing steps
    ok = self.available(loaders, reqs, leads)
    try:
      got = loader.load_chunk(it, lt)
    except Exception as e:  # pylint: disable=broad-except
      if not ok:
        rec.trace(1, (what, 'rejected', type(e).__name__))
        return
      raise
    if not ok:
      if kind == 'sparse' and all(choose(loaders, t) for t in reqs):
        return
      fail(f'{what}: request {reqs} h must fail, got '
           f'{np.ravel(got["v"].values)[:3]}')
    self.verify(got, kind, loaders, reqs, leads, what)
    rec.trace(1, (what, tuple(reqs), tuple(leads)))

  def _single(self, case, rec):
    runs, lat, kind = RUNS[case['runs']], case['lat'], case['kind']
    loaders = [(runs, lat)]
    loader = self.wrap(kind, 0, runs, lat)
    # requests one hour around every availability, where the step is stored
    ts = sorted({r + lat + d for r in runs for d in (-3, -1, 0, 1, 3, 6)} |
                set(range(-9, 49, 6)))
    step = lambda t: (lambda c: c is None or (t - c[1]) % 3 == 0)(
        choose(loaders, t))
    for t in ts:
      for leads in ([0, 6], [12], [6, 0, 3]):
        if step(t):
          self.request(loader, kind, loaders, [t], leads, rec, f'{kind} {lat}h')
        elif kind != 'sparse':
          # ask for the lead times that are stored for the right run
          d = -(t - choose(loaders, t)[1]) % 3
          self.request(loader, kind, loaders, [t], [l + d for l in leads], rec,
                       f'{kind} {lat}h')
    good = [t for t in ts if step(t) and choose(loaders, t)]
    for pair in itertools.permutations(good[:6] + good[-2:], 2):
      self.request(loader, kind, loaders, list(pair), [0, 6], rec,
                   f'{kind} {lat}h pair')
    if good:
      self.request(loader, kind, loaders, good, [3], rec, f'{kind} all')

  def _multi(self, case, rec):
    kind = case['kind']
    loaders = [(RUNS[r], l) for r, l in case['loaders']]
    wrapped = [self.wrap(kind, k, r, l) for k, (r, l) in enumerate(loaders)]
    loader = lw.MultipleConstantLatencyWrapper(
        wrapped, concat_dim='index' if kind == 'sparse' else 'init_time')
    step = lambda t: (lambda c: c is None or (t - c[1]) % 3 == 0)(
        choose(loaders, t))
    ts = [t for t in sorted(
        {r + l + d for runs, l in loaders for r in runs for d in (-1, 0, 1)} |
        set(range(-9, 49, 9))) if step(t)]
    if kind == 'sparse':
      # ties cannot be told apart by the reference of sparse rows
      ts = [t for t in ts if choose(loaders, t) is None or
            len(choose(loaders, t)[0]) == 1]
    for t in ts:
      self.request(loader, kind, loaders, [t], [0, 6], rec, f'multi {loaders}')
    good = [t for t in ts if choose(loaders, t)]
    if good:
      self.request(loader, kind, loaders, good[::-1], [6, 0], rec,
                   f'multi {loaders}')

  def _options(self, case, rec):
    """Options of the wrapped loader act on the returned chunk."""
    mask, coords, process, interp = case['opt']
    kw = {}
    if mask:
      kw['add_nan_mask'] = True
    if coords:
      kw['add_values_to_coords'] = True
    if process:
      kw['process_chunk_fn'] = lambda c: {
          'v': c['v'] * 2, 'w': c['w'].where(c['w'] % 1 != 0.125)}
    kind = case['kind']
    sparse = kind == 'sparse'
    reference = None
    if interp:
      if sparse:
        raise core.Skip()
      kw['interpolation'] = interpolations.InterpolateToFixedCoords(
          'linear', {'latitude': [5.0, 10.0]})
      if interp == 2:  # the same from the reference
        kw['interpolation'] = interpolations.InterpolateToReferenceCoords(
            'linear', dims=['latitude'])
        ref = xr.DataArray([0.0, 0.0], dims='latitude',
                           coords={'latitude': [5.0, 10.0]})
        reference = {'v': ref, 'w': ref}
    runs, lat = (0, 12, 24), 6
    if kind == 'multi':
      loader = lw.MultipleConstantLatencyWrapper([
          self.wrap('xarray', 0, runs, lat, **kw),
          self.wrap('xarray', 1, (6,), lat, **kw)])
      loaders = [(runs, lat), ((6,), lat)]
    else:
      loader = self.wrap(kind, 0, runs, lat, **kw)
      loaders = [(runs, lat)]
    reqs, leads = [12, 18, 36], [0, 6]
    got = loader.load_chunk(np.array([at(t) for t in reqs], NS), np.array(
        [hours(l) for l in leads], 'timedelta64[ns]'), reference)
    rec.transition()
    rec.nodes += 1
    for k, name in enumerate(('v', 'w')):
      want = []
      for t in reqs:
        models, run = choose(loaders, t)
        for l in leads:
          nl = t - run + l
          if sparse:
            want += [value(0, run, nl, k) + s for s in range((run + nl) // 3 % 3)]
          else:
            want.append(value(models[0], run, nl, k) + np.arange(3) / 8.0)
      want = np.array(want)
      if process:
        want = want * 2 if name == 'v' else np.where(want % 1 != 0.125, want,
                                                     np.nan)
      if interp:
        want = np.stack([(want[:, 0] + want[:, 1]) / 2, want[:, 1]], 1)
      g = got[name]
      if not sparse:
        g = g.transpose('init_time', 'lead_time', 'latitude')
      check(close(g.values.reshape(want.shape), want, 1e-12, 1e-9),
            f'{name} with options {case["opt"]}: {g.values.ravel()[:6]}, '
            f'expected {want.ravel()[:6]}')
      check(('mask' in g.coords) == bool(mask), f'mask {case}')
      if mask:
        m = g['mask'].transpose(*g.dims).values.reshape(want.shape)
        check(np.array_equal(m, ~np.isnan(want)), f'mask of {name}: {m}')
      check(('values_as_coord' in g.coords) == bool(coords),
            f'values_as_coord {case}')
      if coords:
        m = g['values_as_coord'].transpose(*g.dims).values.reshape(want.shape)
        check(close(m, want, 1e-12, 1e-9), f'values_as_coord of {name}: {m}')
    rec.trace(1, (kind, tuple(case['opt'])))

  def _history(self, case, rec):
    kind = case['kind']
    runs = (12, 0, 24)
    reqs = [[12], [30, 18], [3], [-9], [15]]
    loaders = [((0,), 99)] + [(runs, 6)]
    def make():
      if kind == 'multi':
        return lw.MultipleConstantLatencyWrapper(
            [self.wrap('xarray', 0, (0,), 99), self.wrap('xarray', 1, runs, 6)])
      return self.wrap(kind, 1, runs, 6)
    for seq in itertools.product(range(len(reqs)),
                                 repeat=3 if self.thorough else 2):
      loader = make()
      for s in seq + (0,):
        self.request(loader, kind, loaders, reqs[s], [0, 6], rec, f'after {seq}')

  def _units(self, case, rec):
    """Other time units and latencies that are no multiple of an hour."""
    runs = (0, 12)
    for unit, dt in itertools.product(('h', 'm', 's', 'ms', 'ns'), repeat=2):
      for wrapper in ('xarray', 'constant', 'multi'):
        lat = hours(6).astype(f'timedelta64[{unit}]')
        inner = xl.PredictionsFromXarray(ds=forecasts(1, runs))
        if wrapper == 'constant':
          loader = lw.ConstantLatencyWrapper(
              inner, lat, np.array([at(r) for r in runs]).astype(
                  f'datetime64[{dt}]'))
        else:
          loader = lw.XarrayConstantLatencyWrapper(inner, lat)
        if wrapper == 'multi':
          loader = lw.MultipleConstantLatencyWrapper([loader])
        for t in (6, 9, 18, 24):
          got = loader.load_chunk(
              np.array([at(t)]).astype(f'datetime64[{dt}]'),
              np.array([0, 6], 'timedelta64[h]'))
          self.verify(got, 'xarray', [((0,), 10**6), (runs, 6)], [t], [0, 6],
                      f'units {unit} {dt}')
          rec.nodes += 1
          rec.transition()
          rec.trace(1, (unit, dt, t))
    # availability is decided to the minute
    for m in (-90, -1, 0, 1, 90):
      lat = np.timedelta64(360 + m, 'm')
      loader = lw.XarrayConstantLatencyWrapper(
          xl.PredictionsFromXarray(ds=forecasts(1, runs)), lat)
      for t in (6, 9, 18, 24):
        want = best_run(runs, 6 + m / 60, t)
        try:
          got = loader.load_chunk(np.array([at(t)]), np.array(
              [3], 'timedelta64[h]'))
        except Exception:  # pylint: disable=broad-except
          check(want is None, f'latency {lat}: request at {t} h failed')
          continue
        check(want is not None, f'latency {lat}: request at {t} h must fail')
        check(float(got['v'].values.ravel()[0]) == value(1, want, t - want + 3),
              f'latency {lat}, request at {t} h')
        rec.nodes += 1
        rec.transition()
        rec.trace(1, (m, t))

  def _dims(self, case, rec):
    """Selections, renaming and subsets of the wrapped loader are kept."""
    runs = (0, 12, 24)
    ds = forecasts(1, runs).rename(time='start', prediction_timedelta='step')
    for vs, sel in itertools.product((['v'], ['w'], ['w', 'v'], None),
                                     (None, {'latitude': 10.0},
                                      {'latitude': [20.0, 0.0]})):
      kw = dict(ds=ds, variables=vs, sel_kwargs=sel, rename_dimensions={
          'start': 'init_time', 'step': 'lead_time'})
      for wrapper in ('xarray', 'constant'):
        inner = xl.PredictionsFromXarray(**kw)
        if wrapper == 'xarray':
          loader = lw.XarrayConstantLatencyWrapper(inner, hours(6))
        else:
          loader = lw.ConstantLatencyWrapper(inner, hours(6), np.array(
              [at(r) for r in runs]))
        it, lt = np.array([at(18), at(30)]), np.array([hours(0), hours(9)])
        got = loader.load_chunk(it, lt)
        check(set(got) == set(vs or ['v', 'w']), f'variables {list(got)}')
        for name in got:
          g = got[name]
          idx = ([0, 1, 2] if sel is None else
                 [1] if sel['latitude'] == 10.0 else [2, 0])
          k = ['v', 'w'].index(name)
          want = np.array([[value(1, t - 6, 6 + l, k) + np.array(idx) / 8.0
                            for l in (0, 9)] for t in (18, 30)])
          y = g.transpose('init_time', 'lead_time', ...).values
          check(close(y.reshape(want.shape), want, 0, 0), f'{name} {sel}: {y}')
        rec.nodes += 1
        rec.transition()
        rec.trace(1, (str(vs), str(sel), wrapper))


CHECK = C20
