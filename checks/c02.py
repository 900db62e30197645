"""C02: saved aggregation states reload without losing or changing anything."""

import io
import itertools

import numpy as np
import xarray as xr

from mc import core
from mc import domain
from mc import mcfs
from mc.xrutil import check, close, fail, fingerprint, same_da, same_tree
from weatherbenchX import aggregation
from weatherbenchX import beam_pipeline
from weatherbenchX.metrics import base as metrics_base
from weatherbenchX.metrics import deterministic

State = aggregation.AggregationState

AXES = {
    'init_time': domain.init_times(3),
    'lead_time': domain.lead_times(2),
    'region': np.array(['global', 'n-hem', 'tropics_land']),
    'level': np.array([500, 850]),
    'quantile': np.array([0.1, 0.5, 0.9]),
    'latitude': np.array([-30.0, 0.0, 45.5], np.float32),
    'flag': np.array([False, True]),
    'bare': None,      # a dimension without coordinate
    'bare1': None,
    'one': np.array([7]),
    'site1': np.array(['x']),
    'none': np.array([], float),
    'many': np.arange(33000),
}
STATS = ('SquaredError', 'SquaredError_0.5,1.0', 'A (b) [c=1]', 'x.y.z',
         'thr_>=2|3', 'WindVectorSquaredError_10m', 'sp ace', 'sum_weights')
VARS = ('t', '2m_temperature', 'wind.10m', 'v v', 'sum_weighted_statistics')


def arr(dims, salt, dtype, nan):
  shape = [{'bare': 3, 'bare1': 1}.get(d) or len(AXES[d]) for d in dims]
  a = domain.grid(shape, salt, np.float64).astype(dtype) if shape else np.asarray(
      domain.mix(salt), dtype)
  if nan and a.size:
    a = a.copy()
    a.reshape(-1)[0] = np.nan
    a.reshape(-1)[-1] = np.inf
  return xr.DataArray(a, dims=dims,
                      coords={d: AXES[d] for d in dims if AXES[d] is not None})


def build(case):
  """Nested dict state; dims may differ per entry (compatible coordinates)."""
  salt = 0
  ws, w = {}, {}
  for i, s in enumerate(case['stats']):
    ws[s], w[s] = {}, {}
    for j, v in enumerate(case['vars']):
      if case['shape'] == 'ragged' and i and j >= 1:
        continue
      dims = list(case['dims'])
      if case['shape'] == 'mixed' and (i + j) % 2:
        dims = dims[1:]
      if case['shape'] == 'perm' and (i + j) % 2:
        dims = dims[::-1]
      salt += 1
      x = arr(dims, salt, case['dtype'], case['nan'])
      y = arr(dims, salt + 500, case['dtype'], False)
      if case['aux'] and dims and AXES[dims[0]] is not None:
        n = x.sizes[dims[0]]
        ac = {f'aux_{dims[0]}': (dims[0], np.arange(n) * 2.5), 'sc': 7}
        x, y = x.assign_coords(ac), y.assign_coords(ac)
        if set(dims) >= {'init_time', 'lead_time'}:
          vt = x.init_time + x.lead_time
          x, y = x.assign_coords(valid_time=vt), y.assign_coords(valid_time=vt)
      if v == 't':
        x.attrs['units'] = 'K'
      ws[s][v], w[s][v] = x, y
  return State(ws, w)


# strings and booleans change their storage type in NetCDF
KIND = {'U': 's', 'O': 's', 'b': 'i', 'i': 'i', 'u': 'i', 'f': 'f', 'M': 'M', 'm': 'm'}


def same_state(got, want, what, aux=True):
  for part in ('sum_weighted_statistics', 'sum_weights'):
    g, w = getattr(got, part), getattr(want, part)
    if isinstance(w, xr.DataArray):
      same_da(g, w, f'{what} {part}', rtol=0, atol=0)
      continue
    w = {k: v for k, v in w.items() if len(v)}
    check(set(g) == set(w), f'{what} {part}: statistics {sorted(g)}, expected '
          f'{sorted(w)}')
    for s in w:
      check(set(g[s]) == set(w[s]), f'{what} {part}[{s}]: variables '
            f'{sorted(g[s])}, expected {sorted(w[s])}')
      for v in w[s]:
        a, b = g[s][v], w[s][v]
        same_da(a, b, f'{what} {part}[{s}][{v}]', rtol=0, atol=0)
        check(a.dims == b.dims, f'{what} {s} {v}: dimension order {a.dims} '
              f'expected {b.dims}')
        check(a.dtype.newbyteorder('=') == b.dtype,
              f'{what} {s} {v}: dtype {a.dtype}, expected {b.dtype}')
        for d in b.dims:
          if d in b.indexes:
            check(KIND.get(a[d].dtype.kind) == KIND.get(b[d].dtype.kind),
                  f'{what}: kind of {d} is {a[d].dtype}, expected {b[d].dtype}')
        for c in set(b.coords) - set(b.dims):
          check(c in a.coords, f'{what} {s} {v}: coordinate {c} lost')
          check(close(a[c].transpose(*b[c].dims).values, b[c].values),
                f'{what} {s} {v}: coordinate {c} changed')
        extra = set(a.coords) - set(b.coords)
        check(not aux or not extra - {'sc'}, f'{what} {s} {v}: extra coordinates {extra}')


def nc(ds):
  data = ds.drop_attrs(deep=True).to_netcdf()
  return xr.open_dataset(io.BytesIO(data)).load()


OPS = {
    'tree': lambda st: State.from_data_tree(st.to_data_tree()),
    'ds': lambda st: State.from_dataset(st.to_dataset()),
    'ds_sep': lambda st: State.from_dataset(st.to_dataset('@@'), separator='@@'),
    'nc': lambda st: State.from_dataset(nc(st.to_dataset())),
    'ds_shuffled': lambda st: State.from_dataset(
        (lambda d: d[list(d.data_vars)[::-1]])(st.to_dataset())),
    'tree_copy': lambda st: State.from_data_tree(st.to_data_tree().copy(deep=True)),
}


def op_file(st):
  disk = mcfs.reset()
  list(beam_pipeline.WriteAggregationState('mcfs://s/state.nc').process(st))
  return State.from_dataset(
      xr.open_dataset(io.BytesIO(disk.files['s/state.nc'])).load())


OPS['file'] = op_file


class C02(core.Check):
  id = 'C02'
  rule = ('states over an alphabet of statistic/variable names, dimension lists, '
          'dtypes, missing values and coordinates x all sequences of 1..3 of 7 '
          'save/load operations; compared entry by entry with the original')
  assumptions = (
      'names contain neither the separator nor "/" (documented)',
      'coordinates of the entries are compatible (documented)',
      'attributes are dropped on writing (documented)')

  def cases(self):
    dimlists = [(), ('init_time',), ('lead_time', 'region'), ('level', 'bare'),
                ('init_time', 'lead_time'), ('quantile', 'latitude', 'region'),
                ('flag',), ('region', 'init_time', 'lead_time'),
                ('site1', 'one'), ('bare1', 'lead_time'), ('init_time', 'one')]
    rare = [('one',), ('bare1',), ('site1', 'bare1', 'one'), ('none',),
            ('lead_time', 'none'), ('many',), ('one', 'many')]
    full = [list(s) for k in (1, 2, 3) for s in itertools.product(OPS, repeat=k)]
    short = [[o] for o in OPS] + [['ds', 'tree'], ['nc', 'file'], ['file', 'tree', 'ds']]
    base = dict(stats=STATS[:2], vars=VARS[:2], shape='plain', dtype='f4',
                nan=True, aux=True)
    for dims in dimlists:
      for seq in (full if dims in (('lead_time', 'region'),) or self.thorough
                  else short):
        yield dict(base, dims=dims, seq=seq)
      for shape in ('mixed', 'perm', 'ragged'):
        if dims[-1:] == ('one',) and shape == 'perm' and not self.thorough:
          continue
        for dt in ('f8', 'i4', 'f4'):
          for aux in (False, True):
            for seq in short[:7]:
              yield dict(base, dims=dims, shape=shape, dtype=dt, nan=dt[0] == 'f',
                         aux=aux, seq=seq)
    for dims in rare:
      for seq in short:
        # NetCDF 3 has no dimensions of size zero
        if 'none' not in dims or not {'nc', 'file'} & set(seq):
          yield dict(base, dims=dims, seq=seq)
    for s in itertools.permutations(STATS, 2):
      for seq in short[:7]:
        yield dict(base, dims=('region',), stats=s, vars=VARS[:1], seq=seq)
    for v in itertools.permutations(VARS, 2):
      for seq in short[:7]:
        yield dict(base, dims=('region',), stats=STATS[:1], vars=v, seq=seq)
    names = STATS + VARS + ('t',)
    for n in names:  # names that occur at several levels
      for m in dict.fromkeys((n, 't', 'sum_weights', 'sum_weighted_statistics')):
        for seq in short[:7]:
          yield dict(base, dims=('region',), stats=[n], seq=seq,
                     vars=[n, m] if m != n else [n, 'zz'])
    for depth in (1, 2, 3, 4):
      for ab in (('a', 'b'), ('a', 'sum_weights'), ('a', 'a.a')):
        for op in OPS:
          yield dict(kind='nested', depth=depth, names=ab, op=op)
    for dims in dimlists:
      for op in OPS:
        if op in ('tree', 'tree_copy'):
          yield dict(kind='leaf', dims=dims, op=op)
    for red in ((), ('init_time',), ('latitude', 'longitude'),
                ('init_time', 'lead_time', 'latitude', 'longitude')):
      for op in OPS:
        yield dict(kind='real', red=red, op=op)

  def run_case(self, case, rec):
    if case.get('kind') == 'leaf':
      x, y = arr(case['dims'], 1, 'f8', True), arr(case['dims'], 2, 'f8', False)
      got = OPS[case['op']](State(x, y))
      same_state(got, State(x, y), str(case))
      rec.transition()
      rec.trace(outcome=str(case['dims']))
      return
    if case.get('kind') == 'nested':
      return self.run_nested(case, rec)
    if case.get('kind') == 'real':
      return self.run_real(case, rec)
    st = build(case)
    fp = fingerprint((st.sum_weighted_statistics, st.sum_weights))
    cur = st
    for op in case['seq']:
      cur = OPS[op](cur)
      rec.transition()
    # a flat dataset may hand auxiliary coordinates to other entries
    same_state(cur, st, f'{case["seq"]}', aux=case['shape'] in ('plain', 'ragged'))
    check(fingerprint((st.sum_weighted_statistics, st.sum_weights)) == fp,
          'saving modified the state', case)
    want = st.sum_along_dims(list(case['dims'])[:1]) if case['shape'] in (
        'plain', 'ragged') else None
    if want is not None:
      red = cur.sum_along_dims(list(case['dims'])[:1])
      for s in want.sum_weighted_statistics:
        for v in want.sum_weighted_statistics[s]:
          same_da(red.sum_weighted_statistics[s][v],
                  want.sum_weighted_statistics[s][v], 'reduction after reload')
      mean, wmean = cur.mean_statistics(), st.mean_statistics()
      for s in wmean:
        for v in wmean[s]:
          same_da(mean[s][v], wmean[s][v], 'mean after reload')
    rec.state((case['stats'], case['vars'], case['dims'], case['shape'],
               case['dtype'], case['aux'], tuple(case['seq'])))
    rec.trace(outcome=fp)

  def run_nested(self, case, rec):
    """Any nesting of names; every path over two names is present."""
    salt = [0]

    def tree(depth, shift):
      if not depth:
        salt[0] += 1
        return arr(('region',), salt[0] + shift, 'f8', False)
      return {n: tree(depth - 1, shift) for n in case['names']}

    st = State(tree(case['depth'], 0), tree(case['depth'], 700))
    got = OPS[case['op']](st)
    same_tree(got.sum_weighted_statistics, st.sum_weighted_statistics, str(case))
    same_tree(got.sum_weights, st.sum_weights, str(case))
    rec.transition()
    rec.state(str(case))
    rec.trace(outcome=str(case['names']))

  def run_real(self, case, rec):
    """States of real metrics; metrics from the reloaded state are equal."""
    ms = {'rmse': deterministic.RMSE(), 'bias': deterministic.Bias(),
          'mae': deterministic.MAE()}
    pl, tl = domain.loaders(3, 2)
    it, lt = domain.init_times(3), domain.lead_times(2)
    t = tl.load_chunk(it, lt)
    p = pl.load_chunk(it, lt, t)
    stats = metrics_base.compute_unique_statistics_for_all_metrics(ms, p, t)
    st = aggregation.Aggregator(reduce_dims=list(case['red'])
                                ).aggregate_statistics(stats)
    got = OPS[case['op']](st)
    rec.transition()
    same_state(got, st, str(case))
    a, b = got.metric_values(ms), st.metric_values(ms)
    check(set(a.data_vars) == set(b.data_vars) and len(b.data_vars) == 6,
          'metrics after reload')
    for v in b.data_vars:
      same_da(a[v], b[v], f'metric {v} after reload', rtol=0, atol=0)
    # reloaded states combine with others like the originals
    c, d = got + st, st + st
    for v in b.data_vars:
      same_da(c.metric_values(ms)[v], d.metric_values(ms)[v], 'sum after reload')
    rec.trace(outcome=str(case['red']))


CHECK = C02
