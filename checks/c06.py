"""C06: aggregates are true weighted means over exactly the requested units."""

import itertools

import numpy as np
import xarray as xr

from mc import core
from mc.xrutil import check, fail
from weatherbenchX import aggregation
from weatherbenchX import binning
from weatherbenchX import weighting

NAN = np.nan
VALS = np.array([[2.0, 3.0], [5.0, 7.0]])
A = np.array([10, 20])
B = np.array([-45.0, 45.0])


class FixedWeight(weighting.Weighting):
  """User-defined weights along given dims."""

  def __init__(self, da):
    self.da = da

  def weights(self, statistic):
    return self.da


class FixedBins(binning.Binning):
  """User-defined boolean bins."""

  def __init__(self, name, da):
    super().__init__(name)
    self.da = da

  def create_bin_mask(self, statistic):
    return self.da


def w_da(kind):
  if kind == 'a':
    return xr.DataArray([0.25, 3.0], dims=['a'], coords={'a': A})
  if kind == 'b':
    return xr.DataArray([0.0, 2.0], dims=['b'], coords={'b': B})
  if kind == 'ba':
    return xr.DataArray([[1.0, 0.5], [2.0, 4.0]], dims=['b', 'a'],
                        coords={'a': A, 'b': B})
  if kind == 'one':
    return xr.DataArray(1)
  raise ValueError(kind)


def b_da(kind, name):
  if kind == 'a':
    return xr.DataArray([[True, False], [True, True], [False, False]],
                        dims=[name, 'a'], coords={name: ['x', 'y', 'z'], 'a': A})
  if kind == 'ab':
    return xr.DataArray(
        [[[True, False], [True, True]], [[False, True], [False, False]]],
        dims=[name, 'a', 'b'], coords={name: [1, 2], 'a': A, 'b': B})
  if kind == 'b_last':
    return xr.DataArray([[True, False], [True, True]], dims=['b', name],
                        coords={name: [7, 8], 'b': B})
  if kind == 'missing':   # refers to a dimension the statistic lacks
    return xr.DataArray([[True, False]], dims=[name, 'other'],
                        coords={name: ['q'], 'other': [1, 2]})
  raise ValueError(kind)


# unit states: (value factor or nan, masked-in?)
FLOAT_STATES = [(1, True), (NAN, True), (1, False), (NAN, False), (np.inf, False)]
SIZES = [127, 128, 129, 255, 256, 257, 511, 513, 1025, 2049, 4097, 32767,
         32768, 32769, 65535, 65536, 65537, 70000]
INT_STATES = [(1, True), (0, True), (1, False)]


def assignments(states):
  for combo in itertools.product(states, repeat=4):
    yield combo


class C06(core.Check):
  id = 'C06'
  rule = ('all assignments of {valid, missing, masked, masked+missing, '
          'masked+infinite} to 4 units x reduce dims x dim order x dtype x '
          'weights x bins x masked x skipna, against explicit loops')
  assumptions = (
      'a missing unit outside of a bin may or may not make that bin missing '
      '(documented as an awkward current limitation); within a bin it must',
      'statistics are float32/float64/int32/int64/bool')

  def cases(self):
    red = [(), ('a',), ('b',), ('a', 'b'), ('b', 'a')]
    weights = [(), ('a',), ('b',), ('a', 'ba'), ('one', 'b')]
    bins = [(), ('a',), ('ab', 'b_last'), ('b_last',)]
    for dt in ('f8', 'f4', 'i8', 'i4', 'bool'):
      for masked in (False, True):
        for skipna in (False, True):
          for mdims in (('ab',) if not masked else ('ab', 'ba', 'none')):
            for r in red:
              for w in weights:
                for b in bins:
                  if dt[-1] == '4' and not self.thorough and (
                      w in weights[1:3] or b in bins[1:2] or masked and mdims != 'ab'):
                    continue
                  yield dict(kind='vec', dt=dt, masked=masked, skipna=skipna,
                             mdims=mdims, red=r, w=w, b=b)
    for masked, skipna, mdims in itertools.product(
        (False, True), (False, True), ('a', 'b')):
      for r in red:
        yield dict(kind='vec', dt='f8', masked=masked, skipna=skipna,
                   mdims=mdims, red=r, w=('ba',), b=('ab',))
    # each assignment on its own (nothing else in the batch)
    for masked, skipna in itertools.product((False, True), repeat=2):
      for i in range(5 ** 4):
        yield dict(kind='single', i=i, masked=masked, skipna=skipna)
    for r in (('zz',), ('a', 'zz'), ('b', 'init_time')):
      yield dict(kind='lacking', red=r, b=())
    for r in ((), ('a',), ('a', 'b')):
      yield dict(kind='lacking', red=r, b=('missing',))
    yield dict(kind='dupbins')
    # sizes around powers of two: counts and sums must not wrap or saturate
    for dt in ('f8', 'f4', 'i8', 'i4', 'bool'):
      for n in SIZES:
        for masked, skipna in itertools.product((False, True), repeat=2):
          yield dict(kind='scale', dt=dt, n=n, masked=masked, skipna=skipna)

  # ---------------------------------------------------------------
  def build(self, combos, dt, mdims, order):
    """Statistic of dims k, a, b holding all assignments along k."""
    n = len(combos)
    base = VALS.ravel() if dt != 'bool' else np.ones(4)
    vals = np.empty((n, 4), dtype=float)
    mask = np.empty((n, 4), dtype=bool)
    for k, combo in enumerate(combos):
      for j, (f, m) in enumerate(combo):
        vals[k, j] = base[j] * f
        mask[k, j] = m
    vals = vals.reshape(n, 2, 2)
    mask = mask.reshape(n, 2, 2)
    typed = vals.astype({'f8': np.float64, 'f4': np.float32, 'i8': np.int64,
                         'i4': np.int32, 'bool': bool}[dt])
    da = xr.DataArray(typed, dims=['k', 'a', 'b'],
                      coords={'k': np.arange(n), 'a': A, 'b': B})
    if mdims in ('ab', 'ba'):
      m = xr.DataArray(mask, dims=['k', 'a', 'b'])
      da = da.assign_coords(mask=m if mdims == 'ab' else m.transpose('b', 'k', 'a'))
    elif mdims == 'a':
      da = da.assign_coords(mask=('a', np.array([True, False])))
      mask = np.broadcast_to(np.array([True, False])[None, :, None], mask.shape)
    elif mdims == 'b':
      da = da.assign_coords(mask=('b', np.array([False, True])))
      mask = np.broadcast_to(np.array([False, True])[None, None, :], mask.shape)
    else:
      mask = np.ones(mask.shape, bool)
    da = da.transpose(*order)
    return da, vals, mask

  def reference(self, vals, mask, case):
    """Explicit sums; returns dims, sums, weights, dont_care arrays."""
    n = vals.shape[0]
    wfull = np.ones((2, 2))
    for kind in case['w']:
      w = w_da(kind)
      for ia in range(2):
        for ib in range(2):
          sel = w
          if 'a' in w.dims:
            sel = sel.sel(a=A[ia])
          if 'b' in w.dims:
            sel = sel.sel(b=B[ib])
          wfull[ia, ib] *= float(sel)
    bin_das = [b_da(kind, f'bin{i}') for i, kind in enumerate(case['b'])]
    sizes = [d.sizes[f'bin{i}'] for i, d in enumerate(bin_das)]
    red = set(case['red'])
    keep_a, keep_b = 'a' not in red, 'b' not in red
    shape = [n] + ([2] if keep_a else []) + ([2] if keep_b else []) + sizes
    num = np.zeros(shape)
    den = np.zeros(shape)
    poison = np.zeros(shape, bool)   # a counted missing unit: must be NaN
    touchy = np.zeros(shape, bool)   # missing unit of the group outside the bin
    for ia, ib in itertools.product(range(2), range(2)):
      v = vals[:, ia, ib]
      inc = np.ones(n, bool)
      if case['masked']:
        inc &= mask[:, ia, ib]
      isnan = np.isnan(v)
      if case['skipna']:
        inc &= ~isnan
      bad = inc & ~np.isfinite(v)
      ok = inc & ~bad
      for bi in itertools.product(*[range(s) for s in sizes]):
        member = True
        for d, (i, j) in zip(bin_das, enumerate(bi)):
          s = d.isel({f'bin{i}': j})
          if 'a' in s.dims:
            s = s.sel(a=A[ia])
          if 'b' in s.dims:
            s = s.sel(b=B[ib])
          member = member and bool(s)
        idx = (slice(None),) + ((ia,) if keep_a else ()) + (
            (ib,) if keep_b else ()) + bi
        if member:
          num[idx] += np.where(ok, v, 0) * wfull[ia, ib] if True else 0
          den[idx] += np.where(inc, wfull[ia, ib], 0)
          if wfull[ia, ib]:
            poison[idx] |= bad
          else:
            touchy[idx] |= bad
        else:
          touchy[idx] |= bad
    dims = ['k'] + (['a'] if keep_a else []) + (['b'] if keep_b else []) + [
        f'bin{i}' for i in range(len(sizes))]
    return dims, num, den, poison, touchy, bin_das

  def verify(self, da, vals, mask, case, rec):
    agg = aggregation.Aggregator(
        reduce_dims=list(case['red']),
        weigh_by=[FixedWeight(w_da(k)) for k in case['w']] or None,
        bin_by=[FixedBins(f'bin{i}', b_da(k, f'bin{i}'))
                for i, k in enumerate(case['b'])] or None,
        masked=case['masked'], skipna=case['skipna'])
    state = agg.aggregate_statistics({'s': {'v': da}})
    got = state.mean_statistics()['s']['v']
    rec.transition()
    dims, num, den, poison, touchy, bin_das = self.reference(
        np.where(np.isfinite(vals) | np.isnan(vals), vals, NAN)
        if False else vals, mask, case)
    check(set(got.dims) == set(dims), f'dims {got.dims}, expected {dims}', case)
    for i, d in enumerate(bin_das):
      check(got[f'bin{i}'].values.tolist() == d[f'bin{i}'].values.tolist(),
            f'bin labels {got[f"bin{i}"].values}', case)
    g = np.asarray(got.transpose(*dims).values, float)
    with np.errstate(all='ignore'):
      want = num / den
    want = np.where(poison, NAN, want)
    rtol = 2e-6 if case['dt'] in ('f4', 'bool') else 1e-9
    same = np.isclose(g, want, rtol=rtol, atol=1e-9, equal_nan=True)
    same |= touchy & ~poison & np.isnan(g)
    if not np.all(same):
      k = np.argwhere(~same)[0]
      fail(f'mean at {dict(zip(dims, k.tolist()))} is {g[tuple(k)]}, expected '
           f'{want[tuple(k)]}', f'unit values {vals[k[0]].tolist()}',
           f'unit mask {mask[k[0]].tolist()}', case, f'dtype {da.dtype}')
    rec.trace(g.size)
    return g

  def run_case(self, case, rec):
    getattr(self, 'run_' + case['kind'])(case, rec)

  def run_vec(self, case, rec):
    case = dict(case)
    st = FLOAT_STATES if case['dt'][0] == 'f' else INT_STATES
    combos = list(assignments(st))
    orders = [('k', 'a', 'b'), ('b', 'k', 'a')]
    if self.thorough:
      orders = list(itertools.permutations(('k', 'a', 'b')))
    for order in orders:
      da, vals, mask = self.build(combos, case['dt'], case['mdims'], order)
      if not case['masked'] and case['dt'][0] == 'f':
        # masks are ignored; infinite units are out of the alphabet then
        sel = np.isfinite(vals) | np.isnan(vals)
        keep = np.where(sel.all(axis=(1, 2)))[0]
        da, vals, mask = da.isel(k=keep), vals[keep], mask[keep]
      elif case['mdims'] in ('a', 'b', 'none'):
        ok = np.isfinite(vals) | np.isnan(vals)
        keep = np.where((ok | ~mask).all(axis=(1, 2)))[0]
        da, vals, mask = da.isel(k=keep), vals[keep], mask[keep]
      before = da.copy(deep=True)
      g = self.verify(da, vals, mask, case, rec)
      check(before.identical(da), 'the statistic was modified', case)
      rec.state((case, order, str(da.shape)))
      rec.outcome((case['red'], case['w'], case['b'], case['masked'],
                   case['skipna'], np.round(g, 5).tobytes()))

  def run_single(self, case, rec):
    combo = list(assignments(FLOAT_STATES))[case['i']]
    if not case['masked'] and any(np.isinf(f) for f, _ in combo):
      raise core.Skip()
    for red, w, b in ((('a', 'b'), (), ()), (('b',), ('ba',), ('a',))):
      c = dict(case, red=red, w=w, b=b, dt='f8')
      da, vals, mask = self.build([combo], 'f8', 'ab', ('a', 'k', 'b'))
      g = self.verify(da, vals, mask, c, rec)
      rec.state((case, red))
      rec.outcome(np.round(g, 6).tobytes())

  def run_lacking(self, case, rec):
    """Statistics lacking a required dimension are left out, others kept."""
    full = xr.DataArray(np.ones((2, 2)), dims=['a', 'b'], coords={'a': A, 'b': B})
    extra = {'zz': [1, 2], 'init_time': [1, 2], 'other': [1, 2]}
    dims_needed = list(case['red']) + (['other'] if case['b'] else [])
    have = full
    for d in dims_needed:
      if d not in have.dims:
        have = have.expand_dims({d: extra[d]})
    for masked, skipna in itertools.product((False, True), repeat=2):
      agg = aggregation.Aggregator(
          reduce_dims=list(case['red']), masked=masked, skipna=skipna,
          bin_by=[FixedBins(f'bin{i}', b_da(k, f'bin{i}'))
                  for i, k in enumerate(case['b'])])
      st = agg.aggregate_statistics({'s': {'v': full, 'w': have},
                                     't': {'v': full}})
      rec.transition()
      for part in (st.sum_weighted_statistics, st.sum_weights):
        check('v' not in part['s'], f'{case}: statistic without the required '
              'dimension was aggregated', part['s'])
        check('v' not in part.get('t', {}), f'{case}: wrong t', part)
        check('w' in part['s'], f'{case}: complete statistic is lost')
      mean = st.mean_statistics()['s']['w']
      good = np.asarray(mean.values, float)
      check(np.all((good == 1) | np.isnan(good)), 'mean of ones is not one', mean)
      check(agg.aggregate_stat_var(full) is None, 'aggregate_stat_var not None')
      rec.trace(outcome=str(case))

  def run_scale(self, case, rec):
    """Many units per cell, with values whose exact mean is known."""
    n, dt = case['n'], case['dt']
    i = np.arange(n)
    vals = (i % 2 if dt == 'bool' else i % 5).astype(float)
    valid = np.ones(n, bool)
    miss = (i % 11 == 3) if dt[0] == 'f' and case['skipna'] else np.zeros(n, bool)
    mask = i % 3 != 1
    typed = np.where(miss, NAN, vals) if miss.any() else vals
    typed = typed.astype({'f8': 'f8', 'f4': 'f4', 'i8': 'i8', 'i4': 'i4',
                          'bool': bool}[dt])
    valid &= ~miss
    if case['masked']:
      valid &= mask
    member = np.stack([i >= 0, i % 2 == 0, i < n - 1])
    weight = 1.0 + i % 2
    bins = FixedBins('bin', xr.DataArray(
        member, dims=['bin', 't'], coords={'bin': list('xyz')}))
    by_weight = FixedWeight(xr.DataArray(weight, dims=['t']))
    for shape in ('t', 'tu'):
      da = xr.DataArray(typed, dims=['t'])
      if case['masked']:
        da = da.assign_coords(mask=('t', mask))
      if shape == 'tu':
        da = da.expand_dims(u=2, axis=1)
      for w, b in itertools.product((False, True), repeat=2):
        agg = aggregation.Aggregator(
            reduce_dims=list(shape), weigh_by=[by_weight] if w else None,
            bin_by=[bins] if b else None, masked=case['masked'],
            skipna=case['skipna'])
        state = agg.aggregate_statistics({'s': {'v': da}})
        rec.transition()
        for m in member if b else member[:1]:
          wt = np.where(valid & m, weight if w else 1.0, 0)
          k = next(j for j in range(3) if np.array_equal(member[j], m))
          pick = (lambda x: x.isel(bin=k)) if b else (lambda x: x)
          got = float(pick(state.mean_statistics()['s']['v']))
          want = (wt * vals).sum() / wt.sum()
          check(np.isclose(got, want, rtol=1e-4, atol=0), f'mean over {n} units'
                f' is {got}, expected {want}', case, shape, w, b)
          both = state + state
          got = float(pick(both.mean_statistics()['s']['v']))
          check(np.isclose(got, want, rtol=1e-4, atol=0), f'mean over twice {n}'
                f' units is {got}, expected {want}', case, shape, w, b)
          rec.trace(outcome=(dt, n, round(want, 6)))
          rec.state((case, shape, w, b, k))

  def run_dupbins(self, case, rec):
    full = xr.DataArray(np.ones((2, 2)), dims=['a', 'b'], coords={'a': A, 'b': B})
    agg = aggregation.Aggregator(
        reduce_dims=['a'], bin_by=[FixedBins('bin0', b_da('a', 'bin0')),
                                   FixedBins('bin0', b_da('ab', 'bin0'))])
    rec.transition()
    try:
      r = agg.aggregate_statistics({'s': {'v': full}})
    except ValueError:
      rec.trace(outcome='dup rejected')
      return
    fail('two bins with the same name were accepted', r)


CHECK = C06
