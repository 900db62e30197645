"""C21: sparse observation loading returns exactly the observations in the window."""

import itertools
import os
import tempfile

import numpy as np
import pandas as pd
import xarray as xr

from mc import core
from mc.xrutil import check, fail
from weatherbenchX.data_loaders import sparse_parquet as sp

NS = 'datetime64[ns]'
T0 = np.datetime64('2020-02-29T00', 'ns')
FIRST, LAST = -5 * 60, 31 * 60  # minutes of the stored period around T0


def minutes(x):
  return np.timedelta64(int(round(x * 60)) * 10**9, 'ns')


def at(m):
  return T0 + minutes(m)


def to_min(t):
  return (np.datetime64(t, 'ns') - T0) / minutes(1)


def fname(path, t, unit):
  """Documented layout: <PATH>/year=2020/month=1/day=1/2020-01-01.parquet."""
  t = pd.Timestamp(t)
  d, n = [f'year={t.year}', f'month={t.month}'], f'{t.year}-{t.month:02d}'
  if unit in ('day', 'hour'):
    d.append(f'day={t.day}')
    n += f'-{t.day:02d}'
  if unit == 'hour':
    d.append(f'hour={t.hour}')
    n += f'T{t.hour:02d}'
  return os.path.join(path, *d, n + '.parquet')


def periods(unit, first=FIRST, last=LAST):
  code = {'month': 'M', 'day': 'D', 'hour': 'h'}[unit]
  a = np.datetime64(at(first), code)
  b = np.datetime64(at(last), code)
  return np.arange(a, b + 1)


FLAGS = 'SVCGZBXQk'


def row(i, t, nominal=None, station=None, a=None, b=None, lon=None, lat=None):
  """Observation i at minute t, filed under minute `nominal`."""
  nominal = round(t / 60) * 60 if nominal is None else nominal
  return dict(
      timeObs=at(t), timeNominal=at(nominal), oid=i,
      stationName=f'S{i % 3}' if station is None else station,
      temperature=float(i) if a is None else a,
      windSpeed=1000.0 + i if b is None else b,
      longitude=(i * 37.0) % 400 - 200 if lon is None else lon,
      latitude=float(i % 90) if lat is None else lat,
      elevation=float(i % 5) * 9999.0 / 4 if i % 7 else 20000.0,
      temperatureDD=FLAGS[i % len(FLAGS)],
      windSpeedDD=FLAGS[(i // 2) % len(FLAGS)])


def frame(rows):
  df = pd.DataFrame(rows, columns=list(row(0, 0)))
  for c in ('timeObs', 'timeNominal'):
    df[c] = df[c].astype(NS)
  for c in ('temperature', 'longitude', 'latitude', 'elevation'):
    df[c] = df[c].astype('float32')
  df['windSpeed'] = df['windSpeed'].astype('float64')
  df['oid'] = df['oid'].astype('int64')
  return df


def write(path, rows, unit, untyped_empty=False, first=FIRST, last=LAST):
  """Writes every partition of the period, also those without any rows."""
  df = frame(rows)
  files = np.array([fname(path, r['timeNominal'], unit) for r in rows], object)
  for p in periods(unit, first, last):
    fn = fname(path, p, unit)
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    part = df[files == fn]
    if untyped_empty and not len(part):
      part = pd.DataFrame({c: pd.Series([], dtype=object) for c in df.columns})
    part.to_parquet(fn)


RICH = [row(i, t) for i, t in enumerate(
    t + d for t in range(-4 * 60, 30 * 60, 60) for d in (-30, -20, -1, 0, 1, 20)
)]

TOLS = {
    'none': None, 'sym': minutes(20), 'tuple': (minutes(-30), minutes(1)),
    'after': (minutes(1), minutes(20)), 'wide': minutes(60),
    'before': (minutes(-60), minutes(-1))}


def bounds(tol):
  return tol if isinstance(tol, tuple) else (-tol, tol)


def window(rows, time_dim, lo, hi, end):
  return [r for r in rows if lo <= r[time_dim] and
          (r[time_dim] <= hi if end else r[time_dim] < hi)]


def expected(rows, time_dim, inits, leads, tol, end):
  """List of (row, init, lead, valid) of all matching requests."""
  out = []
  for t in inits:
    if isinstance(leads, slice):
      for r in window(rows, time_dim, t + leads.start, t + leads.stop, end):
        out.append((r, t, r[time_dim] - t))
      continue
    for l in [None] if leads is None else leads:
      v = t if l is None else t + l
      if tol is None:
        sel = [r for r in rows if r[time_dim] == v]
      else:
        sel = window(rows, time_dim, v + bounds(tol)[0], v + bounds(tol)[1],
                     end)
      out += [(r, t, l) for r in sel]
  return out


def key(*xs):
  """Canonical sortable form of a row."""
  out = []
  for x in xs:
    if isinstance(x, (np.datetime64, np.timedelta64)):
      x = int(x.astype(x.dtype.str[:2] + '8[ns]').astype(int))
    elif isinstance(x, (float, np.floating)):
      x = 'nan' if np.isnan(x) else float(x)
    elif isinstance(x, np.integer):
      x = int(x)
    out.append(str(x))
  return tuple(out)


class C21(core.Check):
  id = 'C21'
  rule = ('all requests (exact, tolerance, interval, none) x partitionings x '
          'time columns over a store with observations around every boundary; '
          'all placements of small observation sets around partition ends; all '
          'duplicate sets up to three rows; all missing patterns; all options')
  assumptions = (
      'observations are filed under a time within the file tolerance',
      'all files of the period exist')

  def cases(self):
    for unit, td in itertools.product(('month', 'day', 'hour'),
                                      ('timeObs', 'timeNominal')):
      for tol, end in itertools.product(TOLS, (False, True)):
        yield {'k': 'window', 'unit': unit, 'td': td, 'tol': tol, 'end': end}
      yield {'k': 'slices', 'unit': unit, 'td': td}
    for unit in ('month', 'day', 'hour'):
      for ft in (0, 30, 60, 1440):
        if unit == 'hour' and ft > 60 and not self.thorough:
          continue
        yield {'k': 'place', 'unit': unit, 'ft': ft}
    for n in (1, 2, 3):
      for s in itertools.product(range(2), repeat=n):
        if s[0] and not self.thorough:
          continue  # the same up to renaming of the stations
        yield {'k': 'dups', 'stations': list(s)}
    for split, drop in itertools.product((False, True), repeat=2):
      yield {'k': 'missing', 'split': split, 'drop': drop}
    for o in itertools.product((0, 1), repeat=6):
      yield {'k': 'options', 'opt': list(o)}
    for split, drop, td, pre in itertools.product(
        (False, True), (False, True), ('timeObs', 'timeNominal'),
        (False, True)):
      yield {'k': 'metar', 'split': split, 'drop': drop, 'td': td, 'pre': pre}
    for unit in ('month', 'day', 'hour'):
      for untyped in (False, True):
        yield {'k': 'empty', 'unit': unit, 'untyped': untyped}
    yield {'k': 'rejected'}
    yield {'k': 'units'}

  def run_case(self, case, rec):
    with tempfile.TemporaryDirectory() as tmp:
      getattr(self, '_' + case['k'])(case, rec, tmp)

  def loader(self, path, unit, td, **kw):
    args = dict(
        variables=['temperature', 'windSpeed'],
        coordinate_variables=['oid', 'stationName', 'latitude'])
    args.update(kw)
    return sp.SparseObservationsFromParquet(
        path=path, partitioned_by=unit, time_dim=td, **args)

  def rows_of(self, chunk, names, coords, leads, what):
    """Rows of each variable as canonical tuples, or of all variables."""
    out = {}
    for n in names:
      check(n in chunk, f'{what}: {n} is missing from {list(chunk)}')
      g = chunk[n]
      check(g.dims == ('index',), f'{what}: dims of {n}: {g.dims}')
      cs = list(coords) + ['valid_time']
      if leads is not None:
        cs += ['init_time', 'lead_time']
      else:
        check('lead_time' not in g.coords, f'{what}: lead times without request')
      for c in cs:
        check(c in g.coords and g[c].dims == ('index',),
              f'{what}: coordinate {c} of {n} is {g.coords.get(c)}')
      extra = set(g.coords) - set(cs) - {'index', 'mask', 'values_as_coord'}
      check(not extra, f'{what}: unexpected coordinates {extra}')
      cols = [g[c].values for c in cs]
      out[n] = sorted(key(v, *(c[i] for c in cols))
                      for i, v in enumerate(g.values))
    check(set(chunk) == set(names), f'{what}: variables {list(chunk)}')
    return out

  def compare(self, chunk, want, names, coords, leads, td, what,
              keep=lambda r, n: True):
    """names: {returned name: stored name}; coords likewise."""
    got = self.rows_of(chunk, names, coords, leads, what)
    for n, raw in names.items():
      ref = []
      for r, t, l in want:
        if not keep(r, n):
          continue
        v = r[raw]
        x = [np.float32(v) if raw == 'temperature' else v]
        for c in coords.values():
          x.append(np.float32(r[c]) if c in ('latitude', 'longitude',
                                             'elevation') else r[c])
        x.append(r[td])
        if leads is not None:
          x += [t, l]
        ref.append(key(*x))
      ref.sort()
      if got[n] != ref:
        a = [x for x in got[n] if x not in ref][:3]
        b = [x for x in ref if x not in got[n]][:3]
        fail(f'{what}: {n} has {len(got[n])} rows, expected {len(ref)}; '
             f'unexpected {a}; missing {b}')

  def check_request(self, loader, rows, td, its, lts, tol, end, rec, what):
    rec.transition()
    rec.nodes += 1
    inits = np.array([at(t) for t in its], NS)
    if lts is None:
      leads = None
    elif isinstance(lts, slice):
      leads = slice(minutes(lts.start), minutes(lts.stop))
    else:
      leads = np.array([minutes(l) for l in lts], 'timedelta64[ns]')
    chunk = loader.load_chunk(inits, leads)
    want = expected(rows, td, inits, leads, tol, end)
    same = lambda *xs: {x: x for x in xs}
    self.compare(chunk, want, same('temperature', 'windSpeed'),
                 same('oid', 'stationName', 'latitude'), leads, td,
                 f'{what} init {its} lead {lts} (minutes since 2020-02-29)')
    rec.trace(1, (what, tuple(its), str(lts), len(want)))

  def _window(self, case, rec, tmp):
    td, tol, end = case['td'], TOLS[case['tol']], case['end']
    write(tmp, RICH, case['unit'])
    loader = self.loader(tmp, case['unit'], td, tolerance=tol,
                         include_slice_end_time=end)
    what = f'{case["unit"]} {td} tolerance {case["tol"]} end {end}'
    inits = (-120, -60, -1, 0, 30, 660, 1380, 1440)
    if not self.thorough:
      inits = (-60, -1, 0, 30, 1440)
    for t in inits:
      self.check_request(loader, RICH, td, [t], None, tol, end, rec, what)
      self.check_request(loader, RICH, td, [t], [0, 60], tol, end, rec, what)
    few = (-60, 0, 1440) if not self.thorough else inits
    for pair in itertools.permutations(few, 2):
      self.check_request(loader, RICH, td, list(pair), [60, 0, 1], tol, end,
                         rec, what)
    self.check_request(loader, RICH, td, [0, 0], [0, 0], tol, end, rec, what)
    self.check_request(loader, RICH, td, list(inits), None, tol, end, rec, what)

  def _slices(self, case, rec, tmp):
    td = case['td']
    write(tmp, RICH, case['unit'])
    edges = (-60, -1, 0, 20, 60, 90, 180)
    if not self.thorough:
      edges = (-60, 0, 1, 60, 90)
    for end in (False, True):
      loader = self.loader(tmp, case['unit'], td, include_slice_end_time=end)
      what = f'{case["unit"]} {td} interval end {end}'
      for a, b in itertools.combinations_with_replacement(edges, 2):
        for its in ([0], [1440, -60]) if not self.thorough else (
            [0], [1380], [1440, -60], [-120], [0, 30], [720, 0, 1440]):
          self.check_request(loader, RICH, td, its, slice(a, b), None, end, rec,
                             what)

  def _place(self, case, rec, tmp):
    """Observations filed under another partition than their own time."""
    unit, ft = case['unit'], case['ft']
    size = {'hour': 60, 'day': 1440, 'month': 1440}[unit]
    # around the end of February 2020 (minute 1440)
    offs = sorted(d for d in {0, -1, 1, ft, -ft, ft // 2, -(ft // 2)}
                  if abs(d) <= ft)
    rows = []
    for t, d in itertools.product((1438, 1439, 1440, 1441, 1440 + size - 1,
                                   1440 - size), offs):
      rows.append(row(len(rows), t, nominal=t + d))
    write(tmp, rows, unit, first=-3 * 1440, last=5 * 1440)
    tolerances = (None, minutes(1), (minutes(0), minutes(2)),
                  (minutes(-2), minutes(0)))
    for tol, end in itertools.product(tolerances, (False, True)):
      loader = self.loader(tmp, unit, 'timeObs', tolerance=tol,
                           include_slice_end_time=end,
                           file_tolerance=minutes(ft))
      for t in (1437, 1438, 1439, 1440, 1441, 1442, 1440 - size,
                1440 + size - 1):
        self.check_request(loader, rows, 'timeObs', [t], None, tol, end, rec,
                           f'{unit} file tolerance {ft} tolerance {tol}')
      if tol is None:
        for a, b in ((0, 1), (-1, 1), (0, size), (-size, 2)):
          self.check_request(loader, rows, 'timeObs', [1440], slice(a, b), None,
                             end, rec, f'{unit} file tolerance {ft}')

  def _dups(self, case, rec, tmp):
    st = case['stations']
    offs = ((-20, -5, 0, 5, 20) if self.thorough else (-5, 0, 5, 20)
            if len(st) < 3 else (-5, 5, 20))
    unit = 'day'
    for o in itertools.product(offs, repeat=len(st)):
      rows = [row(i, d, 0, station=f'S{s}') for i, (s, d) in
              enumerate(zip(st, o))]
      rows += [row(9, 600, station='S0'), row(10, 615, 600, station='S0')]
      write(tmp, rows, unit, first=-60)
      for by, td in ((None, 'timeNominal'), ('timeObs', 'timeNominal'),
                     ('timeObs', 'timeObs')):
        for t, tol in ((0, minutes(20)), (1, minutes(30)),
                       (2, (minutes(-10), minutes(19)))) + (
                           ((0, None),) if td == 'timeNominal' else ()):
          loader = self.loader(
              tmp, unit, td, tolerance=tol, remove_duplicates=True,
              pick_closest_duplicate_by=by, observation_dim='stationName')
          chunk = loader.load_chunk(np.array([at(t)]), np.array(
              [minutes(0), minutes(600)]))
          rec.transition()
          rec.nodes += 1
          for lead in (0, 600):
            v = at(t + lead)
            cand = [r for r, _, _ in expected(rows, td, [v], None, tol, False)]
            g = chunk['temperature']
            sel = g.lead_time.values == minutes(lead)
            ids = g.oid.values[sel].tolist()
            stations = g.stationName.values[sel].tolist()
            check(sorted(stations) == sorted({r['stationName'] for r in cand}),
                  f'stations {stations} at {v} within {tol}, expected once each '
                  f'of {[(r["stationName"], r["timeObs"]) for r in cand]}')
            for i, s in zip(ids, stations):
              mine = [r for r in cand if r['stationName'] == s]
              if by is not None:
                d = min(abs(r[by] - v) for r in mine)
                mine = [r for r in mine if abs(r[by] - v) == d]
              check(i in [r['oid'] for r in mine],
                    f'observation {i} of {s} at {v}, expected one of '
                    f'{[r["oid"] for r in mine]} (closest by {by})')
              r = rows[[r['oid'] for r in rows].index(i)]
              pos = np.flatnonzero(sel & (g.oid.values == i))
              check(len(pos) == 1, f'observation {i} at {v}: {len(pos)} times')
              check(g.values[pos[0]] == r['temperature'] and
                    g.valid_time.values[pos[0]] == r[td],
                    f'observation {i}: {g.values[pos[0]]} at '
                    f'{g.valid_time.values[pos[0]]}')
          rec.trace(1, (str(by), td, tuple(o), t))

  def _missing(self, case, rec, tmp):
    nan = float('nan')
    for pat in itertools.product((0, 1, 2, 3), repeat=3):
      if pat[2] in (1, 2) and not self.thorough:
        continue
      rows = [row(i, 0, station=f'S{i}', a=nan if p & 1 else float(i),
                  b=nan if p & 2 else 1000.0 + i) for i, p in enumerate(pat)]
      # missing coordinates never drop a row
      rows[0]['latitude'] = nan
      write(tmp, rows, 'month')
      for mask in (False, True):
        loader = self.loader(
            tmp, 'month', 'timeObs', split_variables=case['split'],
            dropna=case['drop'], add_nan_mask=mask)
        inits = np.array([at(0), at(60)])
        chunk = loader.load_chunk(inits, np.array([minutes(0), minutes(-60)]))
        rec.transition()
        rec.nodes += 1
        if not mask:
          check(isinstance(chunk, xr.Dataset) != case['split'],
                f'split {case["split"]}: {type(chunk)}')
        def keep(r, n):
          if not case['drop']:
            return True
          if case['split']:
            return not np.isnan(r[n])
          return not (np.isnan(r['temperature']) or np.isnan(r['windSpeed']))
        want = expected(rows, 'timeObs', inits,
                        np.array([minutes(0), minutes(-60)]), None, False)
        same = lambda *xs: {x: x for x in xs}
        self.compare(chunk, want, same('temperature', 'windSpeed'),
                     same('oid', 'stationName', 'latitude'), True, 'timeObs',
                     f'missing {pat} {case}', keep)
        for n in ('temperature', 'windSpeed'):
          g = chunk[n]
          if mask:
            check(np.array_equal(g['mask'].values, ~np.isnan(g.values)),
                  f'mask of {n}')
        check(chunk['temperature'].dtype == np.float32 and
              chunk['windSpeed'].dtype == np.float64,
              f'types {chunk["temperature"].dtype} {chunk["windSpeed"].dtype}')
        rec.trace(1, (pat, mask))

  def _options(self, case, rec, tmp):
    rename, coords, subset, pre, mask, values = case['opt']
    unit, td = 'day', 'timeNominal'
    write(tmp, RICH, unit)
    kw = {}
    names = {'temperature': 'temperature', 'windSpeed': 'windSpeed'}
    cs = {'oid': 'oid', 'stationName': 'stationName'}
    if subset:
      del names['windSpeed']
    if coords:
      cs['timeObs'] = 'timeObs'
      cs['windSpeedDD'] = 'windSpeedDD'
    if rename:
      kw['rename_variables'] = {'temperature': 't2m', 'stationName': 'station',
                                'unused': 'x', 'windSpeed': 'ws'}
      ren = lambda d: {kw['rename_variables'].get(k, k): v
                       for k, v in d.items()}
      names, cs = ren(names), ren(cs)
    if pre:
      def fn(df):
        df = df[df.oid % 2 == 0].copy()
        df['temperature'] = df['temperature'] * 2
        return df
      kw['preprocessing_fn'] = fn
    variables = list(names)[::-1]
    kw.update(variables=tuple(variables) if values else variables,
              coordinate_variables=tuple(cs) if mask else list(cs),
              add_nan_mask=bool(mask), add_values_to_coords=bool(values))
    loader = self.loader(tmp, unit, td, **kw)
    inits, leads = np.array([at(0), at(1380)]), np.array([minutes(60),
                                                          minutes(0)])
    for _ in range(2):
      chunk = loader.load_chunk(inits, leads)
      rec.transition()
      rec.nodes += 1
      want = expected(RICH, td, inits, leads, None, False)
      if pre:
        want = [(dict(r, temperature=r['temperature'] * 2), t, l)
                for r, t, l in want if r['oid'] % 2 == 0]
      self.compare(chunk, want, names, cs, leads, td, f'options {case["opt"]}')
      for n in names:
        check(('mask' in chunk[n].coords) == bool(mask), f'mask of {n}')
        check(('values_as_coord' in chunk[n].coords) == bool(values),
              f'values_as_coord of {n}')
        if values:
          check(np.array_equal(chunk[n]['values_as_coord'].values,
                               chunk[n].values), f'values_as_coord of {n}')
      rec.trace(1, tuple(case['opt']))

  def _metar(self, case, rec, tmp):
    td = case['td']
    write(tmp, RICH, 'month')
    kw = {}
    if case['pre']:
      # Runs before the bad observations are removed.
      def fn(df):
        df = df.copy()
        df['temperatureDD'] = np.where(df['oid'] % 4 == 0, 'S',
                                       df['temperatureDD'])
        return df
      kw['preprocessing_fn'] = fn
    names = {'2m_temperature': 'temperature', '10m_wind_speed': 'windSpeed'}
    def clean(r):
      r = dict(r)
      if case['pre'] and r['oid'] % 4 == 0:
        r['temperatureDD'] = 'S'
      for v in ('temperature', 'windSpeed'):
        if r[v + 'DD'] in 'ZBXQk':
          r[v] = float('nan')
      r['longitude'] = float(np.mod(np.float32(r['longitude']), 360))
      if not r['elevation'] < 9999.0:
        r['elevation'] = float('nan')
      return r
    rows = [clean(r) for r in RICH]
    cs = {c: c for c in ('latitude', 'longitude', 'elevation', 'stationName')}
    for sub in (list(names), ['10m_wind_speed'], ['10m_wind_speed',
                                                  '2m_temperature']):
      for tol, dup in ((None, False), (minutes(20), False), (minutes(20), True)):
        if dup and (td != 'timeObs' or case['drop']):
          continue
        loader = sp.METARFromParquet(
            tmp, sub, td, split_variables=case['split'], dropna=case['drop'],
            tolerance=tol, remove_duplicates=dup,
            pick_closest_duplicate_by='timeObs' if dup else None, **kw)
        inits = np.array([at(0), at(1380)])
        leads = np.array([minutes(60), minutes(30)])
        chunk = loader.load_chunk(inits, leads)
        rec.transition()
        rec.nodes += 1
        want = expected(rows, td, inits, leads, tol, False)
        if dup:
          best = {}
          for r, t, l in want:
            k = (t, l, r['stationName'])
            d = abs(r['timeObs'] - t - l)
            best.setdefault(k, []).append((d, r['oid'], (r, t, l)))
          picked = []
          g = chunk[sub[0]]
          for (t, l, s), xs in best.items():
            d = min(x[0] for x in xs)
            near = [x[2] for x in xs if x[0] == d]
            if len(near) > 1:
              # ties: whichever was returned, identified by its latitude
              lats = g.latitude.values[(g.init_time.values == t) &
                                       (g.lead_time.values == l) &
                                       (g.stationName.values == s)]
              near = [x for x in near if np.float32(x[0]['latitude']) in lats]
              check(len(near) == 1, f'{s} at {t} {l}: {lats}')
            picked += near
          want = picked
        def keep(r, n):
          if not case['drop']:
            return True
          if case['split']:
            return not np.isnan(r[names[n]])
          return not any(np.isnan(r[names[x]]) for x in sub)
        self.compare(chunk, want, {n: names[n] for n in sub}, cs, leads, td,
                     f'METAR {case} {sub} {tol} {dup}', keep)
        rec.trace(1, (tuple(sub), str(tol), dup, len(want)))

  def _empty(self, case, rec, tmp):
    """Windows without any observation contribute no rows."""
    rows = [row(0, 0), row(1, 1380), row(2, 1439, nominal=1439)]
    write(tmp, rows, case['unit'], untyped_empty=case['untyped'])
    for tol in (None, minutes(5)):
      loader = self.loader(tmp, case['unit'], 'timeObs', tolerance=tol)
      what = f'{case["unit"]} few observations, tolerance {tol}'
      for n in (1, 2):
        for its in itertools.permutations((0, 720, 1380, 1440), n):
          for leads in (None, [0], [60, 0]):
            self.check_request(loader, rows, 'timeObs', list(its), leads, tol,
                               False, rec, what)
    if case['untyped']:
      return  # intervals without any observation need typed empty files
    loader = self.loader(tmp, case['unit'], 'timeObs')
    for a, b in ((0, 60), (-60, 0), (60, 120)):
      for its in ([0], [720], [720, 0], [1380, 720], [720, 300]):
        self.check_request(loader, rows, 'timeObs', its, slice(a, b), None,
                           False, rec, case['unit'] + ' few observations')

  def _rejected(self, case, rec, tmp):
    """Invalid combinations raise instead of returning other data."""
    write(tmp, RICH, 'day')
    def bad(fn, what):
      rec.transition()
      rec.nodes += 1
      try:
        fn()
      except Exception as e:  # pylint: disable=broad-except
        rec.trace(1, (what, type(e).__name__))
        return
      fail(f'{what} must be rejected')
    it = np.array([at(0)])
    sl = slice(minutes(0), minutes(60))
    mk = lambda **kw: self.loader(tmp, kw.pop('unit', 'day'), 'timeObs', **kw)
    bad(lambda: mk(unit='year'), 'partition by year')
    bad(lambda: mk(tolerance=minutes(0)), 'zero tolerance')
    bad(lambda: mk(tolerance=(minutes(1), minutes(1))), 'empty tolerance')
    bad(lambda: mk(tolerance=(minutes(2), minutes(1))), 'inverted tolerance')
    bad(lambda: mk(tolerance=(minutes(1),)), 'tolerance of one value')
    bad(lambda: mk(remove_duplicates=True), 'duplicates without a dimension')
    bad(lambda: mk(tolerance=minutes(5)).load_chunk(it, sl),
        'interval with tolerance')
    bad(lambda: mk(remove_duplicates=True, observation_dim='stationName')
        .load_chunk(it, sl), 'duplicates of an interval')
    bad(lambda: mk(variables=['absent']).load_chunk(it, None), 'absent variable')
    bad(lambda: mk().load_chunk(np.array([at(40 * 1440)]), None),
        'time without any file')

  def _units(self, case, rec, tmp):
    """Requests in other time units."""
    write(tmp, RICH, 'hour')
    for iu, lu in itertools.product(('h', 'm', 's', 'ms', 'us', 'ns'), repeat=2):
      for tol in (None, np.timedelta64(20, 'm')):
        loader = self.loader(tmp, 'hour', 'timeObs', tolerance=tol)
        inits = np.array([at(0), at(1380)])
        leads = np.array([minutes(60), minutes(0)])
        chunk = loader.load_chunk(inits.astype(f'datetime64[{iu}]'),
                                  leads.astype(f'timedelta64[{lu}]'))
        rec.transition()
        rec.nodes += 1
        same = lambda *xs: {x: x for x in xs}
        self.compare(chunk, expected(RICH, 'timeObs', inits, leads, tol, False),
                     same('temperature', 'windSpeed'),
                     same('oid', 'stationName', 'latitude'), leads, 'timeObs',
                     f'units {iu} {lu} {tol}')
        rec.trace(1, (iu, lu, str(tol)))


CHECK = C21
