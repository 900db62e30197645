"""C03: the unaggregated pipeline writes every value at the right place."""

import itertools
import os
import shutil
import tempfile

import apache_beam as beam
import numpy as np
import xarray as xr

from checks import c01
from mc import core
from mc import domain
from mc import minibeam
from mc.xrutil import check, fail, same_da
from weatherbenchX import beam_pipeline
from weatherbenchX import time_chunks
from weatherbenchX.data_loaders import xarray_loaders
from weatherbenchX.metrics import base as metrics_base
from weatherbenchX.metrics import deterministic
from weatherbenchX.metrics import wrappers


def metrics_of(kind):
  ms = {'rmse': deterministic.RMSE()}
  if kind in ('two', 'nolead', 'noinit', 'neither'):
    ms['bias'] = deterministic.Bias()
    ms['mse'] = deterministic.MSE()
  if kind == 'nolead':
    # a statistic without lead_time dimension
    ms['first'] = wrappers.WrappedMetric(
        deterministic.MAE(),
        [wrappers.Select('both', {'lead_time': np.timedelta64(0, 'ns')}),
         DropCoord('both')],
        unique_name_suffix='lead0')
  if kind in ('noinit', 'neither'):
    sel = {'init_time': domain.init_times(1)[0]}
    if kind == 'neither':
      sel['lead_time'] = np.timedelta64(0, 'ns')
    ms['first'] = wrappers.WrappedMetric(
        deterministic.MAE(), [wrappers.Select('both', sel), DropCoord('both')],
        unique_name_suffix='init0')
  return ms


class DropCoord(wrappers.InputTransform):
  """Drops the scalar times left over by a selection."""

  def transform_fn(self, da):
    drop = [c for c in ('init_time', 'lead_time') if c not in da.dims]
    return da.drop_vars(drop + ['valid_time'], errors='ignore')

  @property
  def unique_name_suffix(self):
    return 'dropcoord'


class C03(core.Check):
  id = 'C03'
  rule = ('all chunkings x store chunks x metric sets of small grids under the '
          'default schedule; every schedule with one (thorough two) deviations '
          'for selected ones; the Zarr store is read back and every value '
          'compared with the statistic computed directly')
  assumptions = ('lead times are given as an array (intervals have no template)',
                 'requested times are unique',
                 'all statistics have compatible coordinates (documented)')

  def cases(self):
    zc = [None, {'init_time': 1}, {'init_time': -1, 'lead_time': 1},
          {'lead_time': -1, 'init_time': 2, 'latitude': 1},
          {'longitude': 1, 'init_time': -1, 'lead_time': -1}]
    grids = [(3, 2), (2, 3)] if not self.thorough else [(3, 2), (2, 3), (4, 3), (5, 4)]
    for g, (ni, nl) in enumerate(grids):
      for ics in [None] + list(range(1, ni + 1)):
        for lcs in [None] + list(range(1, nl + 1)):
          for k, z in enumerate(zc):
            kinds = ('one', 'two', 'nolead', 'noinit', 'neither', 'mask')
            for kind in kinds:
              # a chunk without lead time 0 (the first time) cannot provide it
              if kind in ('nolead', 'neither') and lcs not in (None, nl):
                continue
              if kind in ('noinit', 'neither') and ics not in (None, ni):
                continue
              if kind == 'mask' and k:
                continue
              if not self.thorough and kind == 'one':
                continue
              if not self.thorough and (g or kind != 'two') and (k + (ics or 0)) % 3:
                continue
              yield dict(ni=ni, nl=nl, ics=ics, lcs=lcs, zc=z, m=kind, bound=0)
    for io, lo in itertools.product(itertools.permutations(range(3)), repeat=2):
      for ics, lcs in ((1, 2), (2, 1), (2, None), (None, 2), (None, None)):
        if not self.thorough and (io > lo or (io[0] + lo[0] + lo[1]) % 2):
          continue
        yield dict(ni=3, nl=3, ics=ics, lcs=lcs, zc=None, m='one', bound=0,
                   io=io, lo=lo)
    for ics, lcs in ((1, 1), (1, None), (None, None)):
      yield dict(ni=2, nl=2, ics=ics, lcs=lcs, zc=None, m='one', setup=True,
                 bound=1)
    for (ni, nl, ics, lcs, z) in ((3, 2, 1, 1, None), (3, 2, 2, 1, {'init_time': -1}),
                                  (3, 2, 1, 2, {'init_time': 2, 'lead_time': 1}),
                                  ):
      for part in range(8):
        yield dict(ni=ni, nl=nl, ics=ics, lcs=lcs, zc=z, m='one',
                   bound=2 if self.thorough else 1, part=part)

  def build(self, case):
    ni, nl = case['ni'], case['nl']
    small = case['m'] == 'one'
    p = domain.prediction_ds(ni + 1, nl + 1, level=not small)
    t = domain.target_ds(2 * ni + nl + 3, level=not small)
    pl = xarray_loaders.PredictionsFromXarray(ds=p)
    if case['m'] == 'mask':
      t['t'].values[1, 0] = np.nan
    tl = xarray_loaders.TargetsFromXarray(
        ds=t, add_nan_mask=case['m'] == 'mask')
    it, lt = domain.init_times(ni), domain.lead_times(nl)
    if 'io' in case:  # the requested times need not be sorted
      it, lt = it[list(case['io'])], lt[list(case['lo'])]
    return pl, tl, it, lt

  def run_case(self, case, rec):
    ms = metrics_of(case['m'])
    pl, tl, it, lt = self.build(case)
    t = tl.load_chunk(it, lt)
    stats = metrics_base.compute_unique_statistics_for_all_metrics(
        ms, pl.load_chunk(it, lt, t), t)
    want = {f'{s}.{v}': da for s, d in stats.items() for v, da in d.items()}
    pl, tl, it, lt = self.build(case)
    times = time_chunks.TimeChunks(it, lt, case['ics'], case['lcs'])
    root = tempfile.mkdtemp(prefix='mc_c03_')
    n = [0]
    kw = {}
    minibeam.NEW_WORKER[:] = []
    if case.get('setup'):
      minibeam.NEW_WORKER.append(c01.new_process)
      kw = dict(setup_fn=c01.set_up)
      pl, tl = c01.NeedsSetup(pl), c01.NeedsSetup(tl)
    if case['m'] == 'mask':  # documented as not supported
      try:
        beam_pipeline.define_unaggregated_pipeline(
            beam.Pipeline(), times, pl, tl, ms, os.path.join(root, 'out.zarr'))
        fail('masks are not supported, but accepted', case)
      except ValueError:
        check(not os.listdir(root), 'something was written', case)
      finally:
        shutil.rmtree(root, ignore_errors=True)
      rec.trace(outcome=('mask', case['ics'], case['lcs']))
      return

    def run(ch):
      n[0] += 1
      path = os.path.join(root, f'out{n[0]}.zarr')
      p = beam.Pipeline()
      c01.new_process()
      beam_pipeline.define_unaggregated_pipeline(
          p, times, pl, tl, ms, path, zarr_chunks=case['zc'], **kw)
      r = minibeam.run(p, ch, rec)
      ds = xr.open_zarr(path).load()
      ctx = f'{case} schedule={r.log}'
      if set(ds.data_vars) != set(want):
        fail(f'store holds {sorted(ds.data_vars)}, expected {sorted(want)}', ctx)
      for k, w in want.items():
        try:
          same_da(ds[k], w, k, rtol=1e-6, atol=1e-6)
        except core.Violation as e:
          fail(str(e), ctx)
        check(not np.any(np.isnan(ds[k].values)), f'{k}: gaps in the store', ctx)
        for c in ('init_time', 'lead_time'):
          if c in w.dims:
            check(ds[k][c].dtype.kind == w[c].dtype.kind, f'{c}: type', ctx)
      for k in want:  # documented: as requested, else those of the TimeChunks
        for d, size, got in zip(ds[k].dims, ds[k].shape, ds[k].encoding['chunks']):
          exp = {'init_time': case['ics'] or -1, 'lead_time': case['lcs'] or -1,
                 **(case['zc'] or {})}.get(d, -1)
          exp = size if exp == -1 else min(exp, size)
          check(min(got, size) == exp,
                f'{k}: store chunks of {d} are {got}, not {exp}', ctx)
      if 'valid_time' in ds.coords and {'init_time', 'lead_time'} <= set(
          ds.valid_time.dims):
        vt = (ds.init_time + ds.lead_time).transpose(*ds.valid_time.dims)
        check(np.array_equal(ds.valid_time.values, vt.values),
              'valid_time labels are not init_time + lead_time', ctx)
      shutil.rmtree(path)
      rec.state(tuple(r.log) + (str(case),))
      rec.trace(outcome=(case['zc'] and sorted(case['zc'].items()), case['ics'],
                         case['lcs'], case['m']))

    try:
      if 'part' in case:
        c01.explore_part(run, rec, case['bound'], case['part'], 8)
      else:
        core.explore(run, rec, bound=case['bound'])
    finally:
      shutil.rmtree(root, ignore_errors=True)


CHECK = C03
