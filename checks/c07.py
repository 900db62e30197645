"""C07: unexpected missing data is loud and masked data is silent."""

import itertools

import numpy as np
import xarray as xr

from mc import core
from mc import metricutil as mu
from mc import zoo
from mc.xrutil import check, close, fail
from weatherbenchX import aggregation
from weatherbenchX.metrics import base

NAN = np.nan
UNITS = list(itertools.product(*[range(n) for n in zoo.SHAPE]))
NU = len(UNITS)
# Metrics that do not use the target (prediction) values at all.
NO_TARGET = ('PredictionAverage', 'PredictionActivity', 'Var', 'RootVar')
NO_PREDICTION = ('TargetAverage',)
# Values depend on several units of a time, so there is no per-unit reference.
NOT_UNITWISE = ('FSS', 'RelativeIntensity')


def subgrids():
  """Boolean (case, unit) matrix of all non-empty sub-grids."""
  subs = [[c for r in range(1, n + 1) for c in itertools.combinations(range(n), r)]
          for n in zoo.SHAPE]
  return np.array([[all(u[i] in s[i] for i in range(4)) for u in UNITS]
                   for s in itertools.product(*subs)])


def expand(d, n):
  return {k: v.expand_dims(case=np.arange(n)) for k, v in d.items()}


def put(da, where, value, member=None):
  """da with `value` where the boolean (case, init, lead, lat, lon) is set."""
  w = xr.DataArray(where.reshape((-1,) + zoo.SHAPE), dims=('case',) + zoo.DIMS)
  if member is not None:
    w = w & xr.DataArray(np.arange(zoo.M) == member, dims='number')
  return da.where(~w, value).transpose(*da.dims)


def with_mask(d, keep):
  m = (('case',) + zoo.DIMS, keep.reshape((-1,) + zoo.SHAPE))
  return {k: v.assign_coords(mask=m) for k, v in d.items()}


def reduce_dims(stats, wanted):
  have = [set(da.dims) for s in stats.values() for da in s.values()]
  return [d for d in wanted if all(d in h for h in have)]


def flat(ds):
  """name -> (case, other...) values."""
  return {k: v for k, v in ds.data_vars.items()}


class C07(core.Check):
  id = 'C07'
  rule = ('every metric of the catalogue (all statistics of the library with '
          'their options) x (a) every sub-grid of kept units and every single '
          'masked unit x contents of the masked units; (b, c) missing data at '
          'every unit, in predictions / targets / single members, with and '
          'without masks elsewhere; the add_nan_mask option for every pattern '
          'of missing values')
  assumptions = ('masks are on the targets (both inputs masked is rejected by '
                 'the library for SEEPS)',)

  def cases(self):
    for name, _, _ in zoo.catalogue():
      yield dict(kind='masked', m=name)
      yield dict(kind='loud', m=name)
    for n in range(1, 5 if self.thorough else 4):
      for miss in itertools.product((0, 1), repeat=n):
        yield dict(kind='add_mask', miss=miss)
    yield dict(kind='wind')

  def setup(self):
    self.zoo = {n: (k, f) for n, k, f in zoo.catalogue()}
    check(len(self.zoo) == len(zoo.catalogue()), 'duplicate names')

  def run_case(self, case, rec):
    getattr(self, 'run_' + case['kind'])(case, rec)

  # (a) masked units do not matter, whatever they contain
  def run_masked(self, case, rec):
    kind, f = self.zoo[case['m']]
    p, t = zoo.data(kind)
    keep = np.concatenate([subgrids(), ~np.eye(NU, dtype=bool)])
    if not self.thorough:
      keep = np.concatenate([keep[::7], keep[-NU:]])
    n = len(keep)
    pe, te = expand(p, n), with_mask(expand(t, n), keep)
    stats = mu.stats_of(f(), p, t)
    red = reduce_dims(stats, zoo.DIMS)
    unitwise = not case['m'].startswith(NOT_UNITWISE)
    want = None
    # Logarithms of single precision frequencies.
    rtol = 1e-3 if case['m'] == 'SEDI' else 2e-5
    if unitwise:
      want = self.reference(f(), stats, keep, case['m'])
    contents = [(NAN, NAN), (None, NAN), (NAN, None), (1e9, -1e9), (0.0, 1e9),
                (np.inf, NAN), (-np.inf, np.inf)]
    if kind in ('ens', 'ensens', 'ensbin'):
      contents.append(('member', NAN))
    for pc, tc in contents:
      pp, tt = pe, te
      if pc == 'member':
        pp = {k: put(v, ~keep, NAN, 1) for k, v in pe.items()}
      elif pc is not None:
        pp = {k: put(v, ~keep, pc) for k, v in pe.items()}
      if tc is not None:
        tt = {k: put(v, ~keep, tc) for k, v in te.items()}
      with np.errstate(all='ignore'):
        got = flat(mu.value(f(), pp, tt, red, masked=True))
      rec.transition(n)
      rec.nodes += n
      if want is None:
        want = got
        continue
      check(set(got) == set(want), f'values {sorted(got)} vs {sorted(want)}')
      for k in want:
        g = got[k].transpose(*want[k].dims)
        if not close(g.values, want[k].values, rtol=rtol, atol=1e-5):
          bad = np.argwhere(~np.isclose(
              g.values.astype(float), want[k].values.astype(float), rtol=rtol,
              atol=1e-5, equal_nan=True))[0]
          c = int(bad[want[k].dims.index('case')])
          fail(f'{case["m"]}: {k} depends on masked units (contents: '
               f'predictions {pc}, targets {tc})',
               f'kept units {[UNITS[i] for i in np.flatnonzero(keep[c])][:12]}',
               f'got {g.values[tuple(bad)]}, expected '
               f'{want[k].values[tuple(bad)]} at {dict(zip(want[k].dims, bad))}')
      rec.trace(n, outcome=[np.round(v.values, 4).tobytes()
                            for v in want.values()])

  def reference(self, metric, stats, keep, name):
    """Values from plain means of the unmasked statistics over kept units."""
    means = {}
    for sn, per_var in stats.items():
      means[sn] = {}
      for v, da in per_var.items():
        x = da.transpose(*zoo.DIMS, ...)
        sel = np.array([  # units of the statistic (Select keeps only some)
            np.isin(zoo.COORDS[d][[u[i] for u in UNITS]], x[d].values)
            for i, d in enumerate(zoo.DIMS)]).all(0)
        k = keep[:, sel]
        y = x.values.reshape((int(sel.sum()),) + x.shape[4:]).astype(float)
        if 'mask' in x.coords:  # SEEPS masks units by itself
          k = k & x.mask.broadcast_like(x).values.reshape(-1)
          y = np.where(x.mask.broadcast_like(x).values.reshape(-1), y, 0)
        with np.errstate(all='ignore'):
          m = (np.tensordot(k.astype(float), y, (1, 0))
               / k.sum(1).reshape((-1,) + (1,) * (y.ndim - 1)))
        rest = x.dims[4:]
        means[sn][v] = xr.DataArray(
            m, dims=('case',) + rest,
            coords={'case': np.arange(len(k)),
                    **{d: x[d] for d in rest if d in x.indexes}})
    with np.errstate(all='ignore'):
      vals = metric.values_from_mean_statistics(means)
    return {f'm.{v}': da for v, da in vals.items()}

  # (b) missing data in an unmasked unit makes the cell missing, loudly
  def run_loud(self, case, rec):
    name = case['m']
    kind, f = self.zoo[name]
    p, t = zoo.data(kind)
    stats = mu.stats_of(f(), p, t)
    red = reduce_dims(stats, ('init_time', 'latitude', 'longitude'))
    seeps = name.startswith('SEEPS')
    eye = np.eye(NU, dtype=bool)
    other = np.roll(eye, 5, axis=1)  # a masked unit elsewhere
    keep_lead = 'lead_time'
    modes = ['p', 't', 'pt']
    if kind in ('ens', 'ensens', 'ensbin'):
      modes.append('member')
    if kind == 'ensens':
      modes.append('tmember')
    skip = name.endswith('True') and not name.startswith('FSS')
    for mode, masked in itertools.product(modes, (False, True)):
      if seeps and not masked:
        continue
      pe, te = expand(p, NU), expand(t, NU)
      if masked:
        te = with_mask(te, ~other)
        te = {k: put(v, other, NAN) for k, v in te.items()}
      with np.errstate(all='ignore'):
        clean = flat(mu.value(f(), pe, te, red, masked=masked))
        if 'p' in mode:
          pe = {**pe, 'a': put(pe['a'], eye, NAN)}
        if mode == 'member':
          pe = {**pe, 'a': put(pe['a'], eye, NAN, 1)}
        if mode in ('t', 'pt'):
          te = {**te, 'a': put(te['a'], eye, NAN)}
        if mode == 'tmember':
          te = {**te, 'a': put(te['a'], eye, NAN, 1)}
        got = flat(mu.value(f(), pe, te, red, masked=masked))
      rec.transition(NU)
      rec.nodes += NU
      check(set(got) == set(clean), f'values {sorted(got)} / {sorted(clean)}')
      uses = True
      if mode in ('t', 'tmember'):
        uses = not name.startswith(NO_TARGET)
        if name.startswith('Opp') and 'covered' not in name:
          uses = 'cov' in name
      if mode in ('p', 'member'):
        uses = not name.startswith(NO_PREDICTION)
      if name in ('PredictionAverage(nan)', 'TargetAverage(nan)'):
        uses = True
      if skip and mode in ('member', 'tmember'):
        uses = None  # explicitly skipped members: decided by C14
      for k, g in got.items():
        check(set(g.dims) == set(clean[k].dims), f'dims {g.dims} changed')
        w = clean[k].transpose('case', keep_lead, ...)
        g = g.transpose(*w.dims)
        if k.endswith('.b'):
          if not close(g.values, w.values):
            fail(f'{name}: {k} changed by missing values of another variable')
          continue
        for i, u in enumerate(UNITS):
          # Is this unit one of the evaluation units of the metric?
          if any(zoo.COORDS[d][u[j]] not in s[d].values
                 for s in stats[next(iter(stats))].values()
                 for j, d in enumerate(zoo.DIMS) if d in s.dims):
            affected = False
          elif k == 'm.x':  # the second wind vector only uses variable b
            affected = False
          elif seeps and not bool(
              stats[next(iter(stats))]['a'].mask.isel(
                  latitude=u[2], longitude=u[3])):
            affected = False
          else:
            affected = uses
          if name.startswith('FSS') and masked:
            # Units around masked ones are masked as well.
            affected = None if affected else affected
          for l in range(zoo.SHAPE[1]):
            a, b = g.values[i, l], w.values[i, l]
            if l == u[1] and affected is None:
              continue
            if l == u[1] and affected:
              # Values that are undefined anyway stay undefined.
              if not np.all(np.isnan(a)):
                fail(f'{name}: {k} does not show missing data (mode {mode}, '
                     f'masked={masked}) at unit {u}', f'got {a}', f'clean {b}')
            elif not close(a, b):
              fail(f'{name}: {k} of lead {l} changed by missing data at unit '
                   f'{u} (mode {mode}, masked={masked})', f'got {a}',
                   f'clean {b}')
      rec.trace(NU, outcome=(mode, masked, uses))

  # add_nan_mask: the mask is exactly the pattern of present values
  def run_add_mask(self, case, rec):
    from weatherbenchX.data_loaders import base as dl
    miss = np.array(case['miss'], bool)
    x = np.arange(1.0, 1 + len(miss))
    x[miss] = NAN

    class L(dl.DataLoader):

      def _load_chunk_from_source(self, init_times, lead_times=None):
        a = xr.DataArray(x.copy(), dims='x', coords={'x': np.arange(len(x))})
        b = xr.DataArray(x[::-1].copy(), dims='x',
                         coords={'x': np.arange(len(x))})
        return as_kind({'a': a, 'b': b})

    for kind, comp in itertools.product(('dict', 'ds'), (False, True)):
      as_kind = lambda d, kind=kind: mu.as_container(d, kind)
      out = L(add_nan_mask=True, compute=comp).load_chunk(np.array([0]))
      rec.transition()
      for k, want in (('a', ~miss), ('b', ~miss[::-1])):
        check('mask' in out[k].coords, 'no mask')
        m = out[k].mask
        check(m.dims == ('x',) and m.dtype == bool and np.array_equal(m.values, want),
              f'mask {m.values} of {k}, expected {want}')
      out0 = L(compute=comp).load_chunk(np.array([0]))
      check('mask' not in out0['a'].coords, 'mask without being asked for')
      # end to end: targets with gaps are skipped, predictions with gaps are not
      pred = {k: xr.DataArray(np.full(len(x), 2.0), dims='x',
                              coords={'x': np.arange(len(x))}) for k in 'ab'}
      from weatherbenchX.metrics import deterministic as det
      got = mu.value(det.Bias(), pred, out, ['x'], masked=True)
      for k, y in (('a', x), ('b', x[::-1])):
        e = 2 - y[~np.isnan(y)]
        e = e.mean() if len(e) else NAN
        check(close(got['m.' + k].values, e), f'bias {got["m." + k].values} vs {e}')
      rec.trace(outcome=(case['miss'], kind))

  # masks of several input variables
  def run_wind(self, case, rec):
    from weatherbenchX.metrics import deterministic as det
    n = 3
    for mu_, mv in itertools.product(
        itertools.product((0, 1), repeat=n), repeat=2):
      t, p = {}, {}
      for name, m, s in (('u', mu_, 1.0), ('v', mv, 2.0)):
        x = np.arange(n) * s
        x[np.array(m) == 0] = NAN
        t[name] = xr.DataArray(x, dims='x', coords={
            'x': np.arange(n), 'mask': ('x', np.array(m, bool))})
        p[name] = xr.DataArray(np.arange(n) + s, dims='x',
                               coords={'x': np.arange(n)})
      both = (np.array(mu_) * np.array(mv)) == 1
      got = mu.value(det.WindVectorRMSE('u', 'v', 'w'), p, t, ['x'], masked=True)
      se = (p['u'] - t['u']).values ** 2 + (p['v'] - t['v']).values ** 2
      e = np.sqrt(se[both].mean()) if both.any() else NAN
      rec.transition()
      check(close(got['m.w'].values, e), 'wind error with masks '
            f'{mu_} {mv}: {got["m.w"].values}, expected {e}')
      rec.trace(outcome=float(np.round(e, 4)))


CHECK = C07
