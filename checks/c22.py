"""C22: chunk loading applies its stages in the documented order."""

import itertools

import numpy as np
import xarray as xr

from mc import core
from mc.xrutil import check, fail, fingerprint
from weatherbenchX import interpolations
from weatherbenchX.data_loaders import base

NAN = float('nan')
DTYPES = ('float32', 'float64', 'float16', 'int16', 'int64', 'bool',
          'datetime64[ns]')


class Source(base.DataLoader):
  """Returns a given chunk and records its calls."""

  def __init__(self, chunk, log, **kwargs):
    super().__init__(**kwargs)
    self.chunk, self.log = chunk, log

  def _load_chunk_from_source(self, init_times, lead_times=None):
    self.log.append(('source', init_times, lead_times))
    return self.chunk


class Interp(interpolations.Interpolation):
  """Reverses x, and removes values of -1."""

  def __init__(self, log):
    self.log = log

  def interpolate_data_array(self, da, reference):
    raise NotImplementedError

  def interpolate(self, ds, reference=None):
    self.log.append(('interpolate', ds, reference))
    return _map(_interp, ds)


def _lazy(da):
  return da.chunks is not None


def _map(f, ds):
  if isinstance(ds, xr.Dataset):
    return xr.Dataset({k: f(v) for k, v in ds.items()})
  return {k: f(v) for k, v in ds.items()}


def _reverse(da):
  # Labels stay, values are reversed.
  return da.copy(data=da.data[::-1])


def _interp(da):
  out = _reverse(da)
  if da.dtype.kind == 'f':
    out = out.where(out != -1)
  return out


def _process(da):
  """2 becomes missing, missing becomes -1, others are doubled."""
  if da.dtype.kind == 'f':
    return xr.where(da == 2, np.array(NAN, da.dtype),
                    xr.where(np.isnan(da), np.array(-1, da.dtype), da * 2)
                    ).astype(da.dtype)
  if da.dtype.kind == 'i':
    return (da * 2).astype(da.dtype)
  return da


def values_of(dtype, pattern):
  """Values of an alphabet (codes 0..3; code 3 is missing)."""
  kind = np.dtype(dtype).kind
  if kind == 'f':
    return np.array([(0.5, 2.0, -1.0, NAN)[c] for c in pattern], dtype)
  if kind == 'b':
    return np.array([c > 1 for c in pattern])
  if kind == 'M':
    return np.array(['2020-01-01', '2020-01-02', '2020-02-29', 'NaT'],
                    dtype)[list(pattern)]
  return np.array(pattern, dtype)


def missing(x):
  return np.isnan(x) if x.dtype.kind in 'fM' else np.zeros(x.shape, bool)


def np_process(x):
  if x.dtype.kind == 'f':
    y = np.where(np.isnan(x), -1, x * 2).astype(x.dtype)
    y[x == 2] = NAN
    return y
  return (x * 2).astype(x.dtype) if x.dtype.kind == 'i' else x


def np_interp(x):
  y = x[::-1].copy()
  if x.dtype.kind == 'f':
    y[y == -1] = NAN
  return y


def eq(a, b):
  return a.dtype == b.dtype and a.shape == b.shape and (
      np.array_equal(a, b, equal_nan=a.dtype.kind in 'fM'))


def same(a, b):
  if missing(a).all() and missing(b).all():
    return True
  if a.dtype.kind in 'mM' or b.dtype.kind in 'mM':
    return a.dtype == b.dtype and eq(a, b)
  return eq(a.astype(float), b.astype(float))


class C22(core.Check):
  id = 'C22'
  rule = ('all subsets of the five stages x containers x in-memory/lazy data '
          'x data types x all patterns of present, special and missing values '
          'of two variables with recording stages; library interpolations '
          'with references')
  assumptions = ('masks and values of variables of one type; strings have no '
                 'missing values and are rejected by the mask',)

  def cases(self):
    for st in itertools.product((0, 1), repeat=5):
      for cont, lazy in itertools.product(('dataset', 'dict'), (False, True)):
        yield {'k': 'stages', 'st': list(st), 'cont': cont, 'lazy': lazy}
    for d1, d2 in itertools.product(DTYPES, repeat=2):
      yield {'k': 'dtypes', 'd': [d1, d2]}
    for cont in ('dataset', 'dict'):
      for st in itertools.product((0, 1), repeat=3):
        yield {'k': 'layouts', 'cont': cont, 'st': list(st)}
        yield {'k': 'library', 'cont': cont, 'st': list(st)}
    yield {'k': 'times'}
    for n in (1, 2, 3):
      yield {'k': 'mask_fn', 'n': n}

  def run_case(self, case, rec):
    getattr(self, '_' + case['k'])(case, rec)

  def one(self, st, cont, lazy, data, rec, what, coords=True):
    """Loads data {name: 1-d array} with the given stages and compares."""
    proc, interp, comp, mask, vals = st
    log = []
    das = {k: xr.DataArray(v, dims='x', coords={
        'x': np.arange(len(v)) * 10, 'aux': ('x', np.arange(len(v)) + 0.5)}
                           if coords else None) for k, v in data.items()}
    if lazy:
      das = {k: v.chunk({'x': 2}) for k, v in das.items()}
    chunk = xr.Dataset(das) if cont == 'dataset' else das
    def process(c):
      log.append(('process', c, None))
      return _map(_process, c)
    loader = Source(chunk, log, interpolation=Interp(log) if interp else None,
                    compute=bool(comp), add_nan_mask=bool(mask),
                    process_chunk_fn=process if proc else None,
                    add_values_to_coords=bool(vals))
    init, lead, ref = object(), object(), {'r': xr.DataArray(1)}
    out = loader.load_chunk(init, lead, ref)
    rec.transition()
    rec.nodes += 1
    want_log = ['source'] + ['process'] * proc + ['interpolate'] * interp
    check([l[0] for l in log] == want_log, f'{what}: stages {[l[0] for l in log]}'
          f', expected {want_log}')
    check(log[0][1] is init and log[0][2] is lead, f'{what}: requested times')
    if proc:
      check(set(log[1][1]) == set(data) and all(
          eq(np.asarray(log[1][1][k].values), data[k]) for k in data),
            f'{what}: the processing function does not see the raw data')
    want = {k: np_process(v) if proc else v for k, v in data.items()}
    if interp:
      check(log[-1][2] is ref, f'{what}: the reference is not passed on')
      check(all(eq(np.asarray(log[-1][1][k].values), want[k]) for k in data),
            f'{what}: the interpolation does not see the processed data')
      if lazy:
        check(all(_lazy(log[-1][1][k]) for k in data), f'{what}: data are '
              'loaded into memory before the interpolation')
      want = {k: np_interp(v) for k, v in want.items()}
    check(list(out) == list(data), f'{what}: variables {list(out)}, expected '
          f'{list(data)}')
    for k, w in want.items():
      g = out[k]
      if comp:
        check(not _lazy(g), f'{what}: {k} is not loaded into memory')
      elif lazy:
        check(_lazy(g), f'{what}: {k} is loaded into memory')
      v = g.values
      check(eq(v, w), f'{what}: {k} is {v} ({v.dtype}), expected {w} '
            f'({w.dtype})')
      if coords:
        check(np.array_equal(g.x.values, np.arange(len(w)) * 10) and
              np.array_equal(g.aux.values, np.arange(len(w)) + 0.5),
              f'{what}: coordinates of {k} are {g.coords}')
      check(('mask' in g.coords) == bool(mask), f'{what}: mask of {k}')
      if mask:
        m = g.mask
        check(m.dims == g.dims and m.dtype == bool and
              np.array_equal(m.values, ~missing(w)),
              f'{what}: mask of {k} is {m.values} for {w}')
      check(('values_as_coord' in g.coords) == bool(vals),
            f'{what}: values of {k} as coordinate')
      if vals:
        x = g.values_as_coord
        # A Dataset has one coordinate for both variables if they are equal.
        check(x.dims == g.dims and (
            eq(x.values, w) if cont == 'dict' or len({
                v.dtype for v in data.values()}) == 1 else same(x.values, w)),
              f'{what}: values of {k} as coordinate are {x.values} for {w}')
    rec.trace(1, (what, [fingerprint(out[k].values) for k in out]))

  def _stages(self, case, rec):
    n = 4 if self.thorough else 3
    for p in itertools.product(range(4), repeat=n):
      if case['lazy'] and not self.thorough and not set(p[1:]) <= {p[0], 3}:
        continue
      for q in ((3,) * n, p[::-1])[case['cont'] == 'dict':]:
        data = {'v': values_of('float32', p), 'w': values_of('float32', q)}
        self.one(case['st'], case['cont'], case['lazy'], data, rec,
                 f'{case["cont"]} values {p} {q} stages {case["st"]}')

  def _dtypes(self, case, rec):
    for st in itertools.product((0, 1), repeat=5):
      for cont, lazy in itertools.product(('dataset', 'dict'), (False, True)):
        for p in ((0, 1, 2), (3, 0, 3), (3, 3, 3))[lazy:]:
          if not self.thorough and (st[0] != st[1] if not lazy else (
              st[0] or st[1] or DTYPES.index(case['d'][0]) % 3)):
            continue
          data = {'b': values_of(case['d'][0], p),
                  'a': values_of(case['d'][1], p[::-1])}
          self.one(st, cont, lazy, data, rec,
                   f'{cont} types {case["d"]} values {p} stages {st}')

  def _layouts(self, case, rec):
    """Variables with other dimensions, or without any."""
    mask, vals, comp = case['st']
    shapes = [(), ('x',), ('y',), ('x', 'y'), ('y', 'x')]
    co = {'x': [1, 2], 'y': ['p', 'q']}
    for s, t in itertools.product(shapes, repeat=2):
      for p in itertools.product((1.5, NAN), repeat=2):
        mk = lambda dims: xr.DataArray(
            np.broadcast_to(np.array(p).reshape((2, 1) if len(dims) == 2 else
                                                (2,) if dims else (2,)),
                            (2, 2) if len(dims) == 2 else (2,))[
                                () if dims else 0].copy(), dims=dims,
            coords={d: co[d] for d in dims})
        das = {'v': mk(s), 'w': mk(t)}
        chunk = xr.Dataset(das) if case['cont'] == 'dataset' else das
        out = Source(chunk, [], compute=bool(comp), add_nan_mask=bool(mask),
                     add_values_to_coords=bool(vals)).load_chunk(0)
        rec.transition()
        rec.nodes += 1
        for k, w in das.items():
          g = out[k]
          what = f'{case} dims {s} {t} values {p}: {k}'
          check(g.dims == w.dims and eq(g.values, w.values),
                f'{what}: {g.dims} {g.values}, expected {w.values}')
          for name, x, on in (('mask', ~np.isnan(w.values), mask),
                              ('values_as_coord', w.values, vals)):
            check((name in g.coords) == bool(on), f'{what}: {name} '
                  f'{list(g.coords)}')
            if on:
              check(g[name].dims == w.dims and
                    np.array_equal(g[name].values, x, equal_nan=name != 'mask'),
                    f'{what}: {name} is {g[name].values} {g[name].dims}, '
                    f'expected {x}')
        rec.trace(1, (s, t, p))

  def _library(self, case, rec):
    """Masks of interpolated values, with the reference of the request."""
    mask, vals, proc = case['st']
    lat = np.array([0.0, 1.0, 2.0])
    for p in itertools.product((2.0, NAN), repeat=3):
      da = xr.DataArray(np.array(p), dims='latitude', coords={'latitude': lat})
      das = {'v': da, 'w': da * 2 + 1}
      chunk = xr.Dataset(das) if case['cont'] == 'dataset' else das
      for pts in itertools.product((0.0, 0.5, 1.0, 1.75), repeat=2):
        for method in ('nearest', 'linear'):
          ref = xr.DataArray(np.zeros(2), dims='station', coords={
              'latitude': ('station', np.array(pts)), 'station': ['a', 'b']})
          fill = lambda c: _map(lambda x: x.fillna(4.0), c)
          out = Source(
              chunk, [], interpolation=interpolations.InterpolateToReferenceCoords(
                  method=method), process_chunk_fn=fill if proc else None,
              add_nan_mask=bool(mask), add_values_to_coords=bool(vals)
          ).load_chunk(0, reference=(
              xr.Dataset if case['cont'] == 'dataset' else dict)(
                  {'v': ref, 'w': ref}))
          rec.transition()
          rec.nodes += 1
          for k, w in das.items():
            x = np.where(np.isnan(w.values), 4.0, w.values) if proc else w.values
            want = []
            for q in pts:
              lo, hi = x[int(q)], x[int(q) + 1]
              f = q - int(q)
              if method == 'linear':
                # At a grid point neighbours may be taken into account or not.
                want.append([lo + f * (hi - lo)] + [lo] * (f == 0) + [
                    NAN] * (f == 0))
              else:
                want.append([lo] * (f <= .5) + [hi] * (f >= .5))
            g = out[k]
            for i, opts in enumerate(want):
              v = float(g.values[i])
              check(any((np.isnan(o) and np.isnan(v)) or abs(o - v) < 1e-9
                        for o in opts), f'{case} {p} at {pts[i]} {method}: '
                    f'{v}, expected {opts}')
            if mask:
              check(np.array_equal(g.mask.values, ~np.isnan(g.values)),
                    f'{case} {p} at {pts}: mask {g.mask.values} of {g.values}')
            if vals:
              check(eq(g.values_as_coord.values, g.values),
                    f'{case} {p} at {pts}: values {g.values_as_coord.values} '
                    f'of {g.values}')
          rec.trace(1, (p, pts, method, proc))

  def _times(self, case, rec):
    """The requested times and no reference."""
    log = []
    da = xr.DataArray(np.arange(3.0), dims='x')
    for lead in (None, slice(1, 2), np.array([1, 2])):
      for init in (np.array([1]), [2, 3]):
        for interp in (None, Interp(log)):
          log.clear()
          args = (init,) if lead is None else (init, lead)
          loader = Source({'v': da}, log, interpolation=interp)
          loader.load_chunk(*args)
          loader.load_chunk(*args)
          rec.transition(2)
          rec.nodes += 1
          src = [l for l in log if l[0] == 'source']
          check(len(src) == 2 and all(l[1] is init and l[2] is lead
                                      for l in src), f'{src}')
          if interp is not None:
            check([l[2] for l in log if l[0] == 'interpolate'] == [None, None],
                  'a reference appeared')
          rec.trace(1, (str(lead), str(init), interp is None))

  def _mask_fn(self, case, rec):
    """Masks for a subset of variables."""
    names = ['v', 'w', 'z'][:case['n']]
    for p in itertools.product((0, 3), repeat=2):
      data = {k: xr.DataArray(values_of('float64', p[::1 - 2 * (i % 2)]),
                              dims='x') for i, k in enumerate(names)}
      subsets = [None] + [c for r in range(case['n'] + 1)
                          for c in itertools.combinations(names, r)]
      for sub, cont, kind in itertools.product(
          subsets, ('dataset', 'dict'), (list, tuple, set)):
        d = xr.Dataset(data) if cont == 'dataset' else dict(data)
        before = fingerprint(d)
        out = base.add_nan_mask_to_data(d, None if sub is None else kind(sub))
        rec.transition()
        rec.nodes += 1
        check(fingerprint(d) == before, 'inputs of the mask are changed')
        check(list(out) == names, f'variables {list(out)}')
        for k in names:
          on = sub is None or k in sub
          check(('mask' in out[k].coords) == on, f'mask of {k} for {sub}')
          if on:
            check(np.array_equal(out[k].mask.values, ~np.isnan(data[k].values)),
                  f'mask of {k}: {out[k].mask.values}')
          check(eq(out[k].values, data[k].values), f'values of {k}')
        rec.trace(1, (p, sub, cont))


CHECK = C22
