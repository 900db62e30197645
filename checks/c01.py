"""C01: the pipeline result is independent of chunking, order and retries."""

import io

import apache_beam as beam
import numpy as np
import xarray as xr

from mc import core
from mc import domain
from mc import mcfs
from mc import minibeam
from mc.xrutil import check, fail, same_da
from weatherbenchX import aggregation
from weatherbenchX import beam_pipeline
from weatherbenchX import binning
from weatherbenchX import time_chunks
from weatherbenchX import weighting
from weatherbenchX.data_loaders import base as loaders_base
from weatherbenchX.data_loaders import xarray_loaders
from weatherbenchX.metrics import base as metrics_base
from weatherbenchX.metrics import categorical
from weatherbenchX.metrics import deterministic
from weatherbenchX.metrics import probabilistic
from weatherbenchX.metrics import wrappers

H = domain.H


READY = [False]  # state of the process, e.g. a registered file system


def set_up():
  check(not READY[0], 'setup_fn called twice in a worker')
  READY[0] = True


def new_process():
  READY[0] = False


class NeedsSetup(loaders_base.DataLoader):
  """A loader that depends on what setup_fn does."""

  def __init__(self, loader):
    super().__init__()
    self.loader = loader

  def _load_chunk_from_source(self, init_times, lead_times=None):
    raise NotImplementedError

  def load_chunk(self, init_times, lead_times=None, reference=None):
    check(READY[0], 'loading before setup_fn was called in this worker')
    return self.loader.load_chunk(init_times, lead_times, reference)


class Labelled(loaders_base.DataLoader):
  """Gives some chunks coordinates that others do not have."""

  def __init__(self, loader, first):
    super().__init__()
    self.loader = loader
    self.first = first

  def _load_chunk_from_source(self, init_times, lead_times=None):
    raise NotImplementedError

  def load_chunk(self, init_times, lead_times=None, reference=None):
    out = self.loader.load_chunk(init_times, lead_times, reference)
    if init_times[0] == self.first:
      return out
    return {k: v.assign_coords(
        cycle=('init_time', v.init_time.values), model='v2',
        row=('latitude', np.arange(v.sizes['latitude'])))
            for k, v in out.items()}


def _double(x):
  return x * 2


def _triple(x):
  return x * 3


def metrics_of(kind):
  if kind == 'long':  # names that only differ far behind the beginning
    out = {}
    for k in (31, 126, 300):
      for suffix, fn in (('a', _double), ('B', _triple), ('b', abs)):
        out[f'rmse{k}{suffix}'] = wrappers.WrappedMetric(
            deterministic.RMSE(),
            [wrappers.Inline('both', fn, 'x' * k + suffix)])
    return out
  if kind == 'det':
    return {'rmse': deterministic.RMSE(), 'bias': deterministic.Bias(),
            'mse': deterministic.MSE()}
  if kind == 'ens':
    return {'crps': probabilistic.CRPSEnsemble(ensemble_dim='number'),
            'ssr': probabilistic.UnbiasedSpreadSkillRatio(ensemble_dim='number')}
  if kind == 'cat':
    w = wrappers.ContinuousToBinary(
        which='both', threshold_value=[5.0, 12.0], threshold_dim='threshold')
    return {'csi': wrappers.WrappedMetric(categorical.CSI(), [w]),
            'rmse': deterministic.RMSE()}
  raise ValueError(kind)


def obs_table(kind, ni, nl):
  """Observation tables: dense, or with holes for some chunk."""
  it, lt = domain.init_times(ni), domain.lead_times(nl)
  rows = []
  k = 0
  for i, a in enumerate(it):
    for j, b in enumerate(lt):
      for s in range(3):
        if kind == 'different_stations' and (i + j + s) % 2:
          continue
        if kind == 'no_first_init' and i == 0:
          continue
        if kind == 'no_last_lead' and j == nl - 1:
          continue
        if kind == 'one_only' and (i, j, s) != (ni - 1, 0, 1):
          continue
        if kind == 'none':
          continue
        vt = a + b
        if any(r[0] == vt and r[1] == f'S{s}' * (s + 1) for r in rows):
          continue
        k += 1
        rows.append((vt, f'S{s}' * (s + 1), 10.0 * s, 30.0 * s,
                     domain.mix(3, k)))
  return rows


BINS = {
    'none': lambda: None,
    'hour_init': lambda: [binning.ByTimeUnit('hour', 'init_time')],
    'hour_init_global': lambda: [
        binning.ByTimeUnit('hour', 'init_time', add_global_bin=True)],
    'day_valid': lambda: [binning.ByTimeUnit('dayofyear', 'valid_time')],
    'hour_valid_regions': lambda: [
        binning.ByTimeUnit('hour', 'valid_time', add_global_bin=True),
        binning.Regions({'all': ((-90, 90), (0, 360)),
                         'north': ((0, 90), (-10, 100))})],
    'sets': lambda: [binning.ByTimeUnitSets(
        {'00': [0], 'noon': 12}, 'hour', 'init_time', add_global_bin=True)],
    'station': lambda: [binning.ByExactCoord('stationName')],
    'lead': lambda: [binning.ByExactCoord('lead_time')],
    'init_lead': lambda: [binning.ByExactCoord('init_time'),
                          binning.ByExactCoord('lead_time')],
    'station_global': lambda: [
        binning.ByExactCoord('stationName', add_global_bin=True),
        binning.ByTimeUnit('hour', 'valid_time')],
    'lead_global': lambda: [
        binning.ByExactCoord('lead_time', add_global_bin=True)],
    'leadbins': lambda: [binning.ByCoordBins(
        'lead_time', np.array([0, 6, 12, 24], 'timedelta64[h]'))],
    'bysets': lambda: [binning.BySets(
        {'a': ['S0'], 'b': ['S1S1', 'zz']}, 'stationName', 'st',
        add_set_complements=True, add_global_bin=True)],
}


class C01(core.Check):
  id = 'C01'
  rule = ('all chunkings of small init x lead grids x reduced dimensions x bins '
          'x data kinds under the default schedule; for selected configurations '
          'every schedule with at most 1 (thorough 2) deviations of order, '
          'bundling, retries, backups, combine trees, worker freshness')
  assumptions = (
      'requested times are sorted (combine_by_coords sorts or rejects others)',
      'loaders, metrics and aggregators pickle',
      'the runner model covers what Beam documents for batch pipelines')

  def cases(self):
    red_all = [('init_time', 'lead_time', 'latitude', 'longitude'),
               ('init_time', 'latitude', 'longitude'),
               ('lead_time', 'latitude', 'longitude'), ('latitude', 'longitude'),
               ('init_time',), ('lead_time',), ('init_time', 'lead_time'), ()]
    grids = [(3, 2), (2, 3)] if not self.thorough else [(3, 2), (2, 3), (4, 3), (5, 1)]
    # all chunkings, default schedule
    for g, (ni, nl) in enumerate(grids):
      for ics in [None] + list(range(1, ni)):   # ics = ni: same chunks as None
        for lcs in [None] + list(range(1, nl)):
          few = g and not self.thorough
          for red in red_all[:4:3] if few else red_all:
            yield dict(data='grid', m='det', ni=ni, nl=nl, ics=ics, lcs=lcs,
                       red=red, bins='none', bound=0)
          for red in (red_all[0], red_all[3]) if not few else ():
            for kind in ('ens', 'cat'):
              yield dict(data='grid', m=kind, ni=ni, nl=nl, ics=ics, lcs=lcs,
                         red=red, bins='none', bound=0)
          for bins in ('hour_init', 'hour_init_global', 'day_valid',
                       'hour_valid_regions', 'sets'):
            for red in red_all[:3] if self.thorough else red_all[:2] if not few else red_all[1:2]:
              yield dict(data='grid', m='det', ni=ni, nl=nl, ics=ics, lcs=lcs,
                         red=red, bins=bins, bound=0)
          for red in (red_all[0], red_all[1], red_all[2], red_all[3]):
            for data, m in (('caps', 'det'), ('missing', 'det'), ('attrs', 'det'),
                            ('labels', 'det'), ('desc', 'det'),
                            ('grid', 'long')):
              if not self.thorough and (few or red in red_all[1:3] and (
                  data not in ('missing', 'labels'))):
                continue
              yield dict(data=data, m=m, ni=ni, nl=nl, ics=ics, lcs=lcs,
                         red=red, bins='none', bound=0)
          if few and (ics, lcs) != (1, 2):
            continue
          for red in (red_all[0], red_all[1], red_all[3], ()):
            for m in ('skipna', 'masked'):
              yield dict(data=m, m='det', ni=ni, nl=nl, ics=ics, lcs=lcs,
                         red=red, bins='hour_valid_regions' if
                         len(red) > 2 else 'none', bound=0)
          for table in ('dense', 'different_stations', 'no_first_init',
                        'no_last_lead', 'one_only', 'none'):
            for bins in ('none', 'station', 'lead', 'station_global',
                         'init_lead', 'leadbins', 'bysets', 'lead_global'):
              for sl in (False, True):
                if sl and lcs is not None or ics == lcs is None:
                  continue
                if not self.thorough and not sl and lcs is None:
                  continue
                yield dict(data='sparse', table=table, m='det', ni=ni, nl=nl,
                           ics=ics, lcs=lcs, red=('index',), bins=bins,
                           slice=sl, bound=0)
    for outs in ('m', 's', ''):
      for ics, red in ((None, red_all[0]), (1, red_all[3])):
        yield dict(data='grid', m='det', ni=2, nl=2, ics=ics, lcs=None, red=red,
                   bins='none', outs=outs, bound=0)
    # schedules
    b = 2 if self.thorough else 1
    sched = []
    reds = red_all[:4] + [()] if self.thorough else [red_all[0], red_all[1], ()]
    for red in reds:
      sched.append(dict(data='grid', m='det', ni=2, nl=2, ics=1, lcs=1, red=red,
                        bins='none', small=True))
    for red in reds[:2]:
      sched.append(dict(data='grid', m='det', ni=3, nl=1, ics=1, lcs=None,
                        red=red, bins='none', small=True))
    sched.append(dict(data='grid', m='det', ni=3, nl=1, ics=2, lcs=None,
                      red=red_all[0], bins='hour_init_global', small=True))
    tables = ('different_stations', 'no_first_init', 'one_only')
    for table in tables if self.thorough else tables[:1]:
      for bins in ('station', 'lead_global'):
        sched.append(dict(data='sparse', table=table, m='det', ni=2, nl=2, ics=1,
                          lcs=1, red=('index',), bins=bins, slice=False,
                          small=True))
    sched.append(dict(data='sparse', table='different_stations', m='det', ni=3,
                      nl=2, ics=1, lcs=None, red=('index',), bins='station',
                      slice=True, small=True))
    sched.append(dict(data='grid', m='det', ni=3, nl=1, ics=1, lcs=None,
                      red=red_all[0], bins='none', small=True, setup=True))
    for s in sched:
      # the first choice points split the work between workers
      for part in range(8):
        yield dict(s, bound=b, part=part)

  # ---------------------------------------------------------------------
  def build(self, case):
    ni, nl = case['ni'], case['nl']
    it, lt = domain.init_times(ni), domain.lead_times(nl)
    if case['data'] == 'desc':
      it, lt = it[::-1], lt[::-1]
    if case['data'] == 'sparse':
      table = obs_table(case['table'], ni, nl)
      variables = ('t', 'u') if case['bins'] == 'none' else ('t',)
      pl = domain.SparsePredictions(variables)
      tl = domain.SparseTargets(table, variables)
      if case['slice']:
        lt = slice(lt[0], lt[-1])
    else:
      p = domain.prediction_ds(ni, nl, number=3 if case['m'] == 'ens' else 0,
                               level=not case.get('small'))
      t = domain.target_ds(2 * ni + nl + 2, level=not case.get('small'))
      if case['data'] == 'caps':  # names that only differ in capitals, spaces
        p, t = [x.rename(t='LEVEL t', **({'z': 'level T'} if 'z' in x else {}))
                for x in (p, t)]
        for x in (p, t):
          x['level t'] = x['LEVEL t'] + 1
          x['level_t'] = x['LEVEL t'] * 2
      if case['data'] == 'missing':  # a forecast that failed, one missing time
        p['t'].values[0] = np.nan
        p['t'].values[-1, -1] = np.nan
      if case['data'] == 'attrs':  # not all of these can be in a NetCDF file
        for x in (p, t):
          for v in [x] + list(x.data_vars.values()) + list(x.coords.values()):
            v.attrs.update(long_name='a b', n={'a': [1, None]}, f=None,
                           g=True, missing_value='none')
      if case['data'] in ('skipna', 'masked'):
        t['t'].values[1, 0, 1] = np.nan
        t['t'].values[3] = np.nan
      pl = xarray_loaders.PredictionsFromXarray(ds=p)
      tl = xarray_loaders.TargetsFromXarray(
          ds=t, add_nan_mask=case['data'] == 'masked')
    if case['data'] == 'labels':
      pl = Labelled(pl, it[0])
    wb = None
    if 'latitude' in case['red']:
      wb = [weighting.GridAreaWeighting()]
    agg = aggregation.Aggregator(
        reduce_dims=list(case['red']), bin_by=BINS[case['bins']](), weigh_by=wb,
        masked=case['data'] == 'masked', skipna=case['data'] == 'skipna')
    ms = metrics_of(case['m'])
    if case.get('small'):
      ms = {'rmse': deterministic.RMSE()}
      if case['bins'] != 'none':
        ms['bias'] = deterministic.Bias()
    return it, lt, pl, tl, agg, ms

  def direct(self, case):
    it, lt, pl, tl, agg, ms = self.build(case)
    targets = tl.load_chunk(it, lt)
    preds = pl.load_chunk(it, lt, targets)
    stats = metrics_base.compute_unique_statistics_for_all_metrics(
        ms, preds, targets)
    return (aggregation.compute_metric_values_for_single_chunk(
        ms, agg, preds, targets), agg.aggregate_statistics(stats))

  def compare(self, got, want, case, log):
    ctx = f'{case} schedule={log}'
    if set(got.data_vars) != set(want.data_vars):
      fail(f'result variables {sorted(got.data_vars)}, expected '
           f'{sorted(want.data_vars)}', ctx)
    for v in want.data_vars:
      g, w = got[v], want[v]
      if w.size == 0 or not np.any(np.isfinite(w.values)):
        # nothing was observed: nothing may be reported
        check(not np.any(np.isfinite(g.values)), f'{v}: value without data {g}',
              ctx)
        continue
      for d in w.dims:
        if (d in ('init_time', 'lead_time') and case['data'] != 'desc'
            and d in g.dims and d in g.indexes
            and g[d].dtype.kind in 'mM'):
          check(bool(g.indexes[d].is_monotonic_increasing),
                f'{v}: {d} not in order', ctx)
      try:
        same_da(g, w, v, rtol=2e-5, atol=2e-5, order=False)
      except core.Violation as e:
        fail(str(e), ctx)
      for c in ('valid_time',):
        if c in g.coords and c in w.coords and set(g[c].dims) == set(w[c].dims):
          a = g[c].sortby(list(g[c].dims)).transpose(*w[c].dims)
          b = w[c].sortby(list(w[c].dims))
          check(np.array_equal(a.values, b.values), f'{v}: {c} labels differ', ctx)

  def run_case(self, case, rec):
    want, want_state = self.direct(case)
    want = want.compute()
    it, lt, pl, tl, agg, ms = self.build(case)
    times = time_chunks.TimeChunks(it, lt, case['ics'], case['lcs'])
    # to_dataset() documents that it needs compatible coordinates; unreduced
    # masks of several variables are not.
    outs = case.get('outs', 'ms')
    state = 's' in outs and not (case['data'] == 'masked' and not case['red'])
    p = beam.Pipeline()
    kw = {}
    minibeam.NEW_WORKER[:] = []
    if case.get('setup'):
      minibeam.NEW_WORKER.append(new_process)
      kw = dict(setup_fn=set_up)
      pl, tl = NeedsSetup(pl), NeedsSetup(tl)
    try:
      beam_pipeline.define_pipeline(
          p, times, pl, tl, ms, agg,
          out_path='mcfs://out/metrics.nc' if 'm' in outs else None,
          aggregation_state_out_path='mcfs://out/state.nc' if state else None,
          **kw)
    except ValueError:
      if outs:
        raise
      rec.transition()
      rec.trace(outcome='no output asked for')
      return
    check(outs, 'accepts a pipeline without any output')

    def run(ch):
      disk = mcfs.reset()
      r = minibeam.run(p, ch, rec)
      data = disk.files.get('out/metrics.nc')
      check((data is not None) == ('m' in outs), 'metrics file', case, r.log)
      got = want
      if data is not None:
        got = xr.open_dataset(io.BytesIO(data)).load()
        self.compare(got, want, case, r.log)
      check(('out/state.nc' in disk.files) == state, 'aggregation state file',
            r.log)
      if state:
        self.check_state(disk.files['out/state.nc'], want, want_state, ms, case,
                         r.log)
      left = set(disk.files) - {'out/metrics.nc', 'out/state.nc'}
      check(not left, f'extra files {left}')
      rec.state(tuple(r.log) + (str(case),))
      rec.trace(outcome=tuple(np.round(np.nan_to_num(
          got[v].values.astype(float)), 4).tobytes() for v in sorted(got.data_vars)))

    if 'part' in case:
      explore_part(run, rec, case['bound'], case['part'], 8)
    else:
      core.explore(run, rec, bound=0)

  def check_state(self, data, want, want_state, ms, case, log):
    ds = xr.open_dataset(io.BytesIO(data)).load()
    st = aggregation.AggregationState.from_dataset(ds)
    vals = st.metric_values(ms)
    self.compare(vals, want, case, log + ['state file'])
    for part in ('sum_weighted_statistics', 'sum_weights'):
      got, exp = getattr(st, part), getattr(want_state, part)
      for s in exp:
        for v, w in exp[s].items():
          if not np.any(want_state.sum_weights[s][v].values):
            continue  # nothing was observed
          try:
            same_da(got[s][v], w, f'{part} of {s} {v}', rtol=2e-5, atol=2e-5,
                    order=False)
          except core.Violation as e:
            fail(str(e), f'{case} schedule={log} state file')


def explore_part(run, rec, bound, part, parts):
  """Explores the part-th share of the deviation tree (split at the root)."""
  ch = core.Chooser([], rec)
  run(ch)
  rec.executions += 1
  jobs = []
  for i, (num, cost, _) in enumerate(ch.points):
    if bound is not None and cost > bound:
      continue
    for alt in range(1, num):
      jobs.append(ch.choices[:i] + [alt])
  for j, prefix in enumerate(jobs):
    if j % parts != part:
      continue
    sub_explore(run, rec, bound, prefix)


def sub_explore(run, rec, bound, prefix):
  stack = [prefix]
  while stack:
    pre = stack.pop()
    ch = core.Chooser(pre, rec)
    run(ch)
    rec.executions += 1
    rec.nodes += len(ch.choices) - len(pre) + 1
    for i in range(len(ch.points) - 1, len(pre) - 1, -1):
      num, cost, _ = ch.points[i]
      if bound is not None and ch.deviations(i) + cost > bound:
        continue
      for alt in range(num - 1, 0, -1):
        stack.append(ch.choices[:i] + [alt])


CHECK = C01
