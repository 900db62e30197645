"""C14: ensemble scores equal their definitions and ignore member order."""

import itertools

import numpy as np
import xarray as xr

from mc import core
from mc import metricutil as mu
from mc.xrutil import check, close, fail
from weatherbenchX.metrics import categorical as cat
from weatherbenchX.metrics import deterministic as det
from weatherbenchX.metrics import probabilistic as prob

NAN = np.nan
XA = (0.0, 1.0, 2.5, NAN)
YA = (0.0, 1.0, 1.75, 2.5, NAN)
SIZES = (7, 11, 51, 100, 127, 128, 129, 130, 255, 256, 257, 258)
THR = (0.0, 0.5, 1.0, 2.0)
THR2 = (-0.5, 0.0, 1.75, 2.5)


def present(v):
  return [float(x) for x in v if not np.isnan(x)]


def mean(v):
  return sum(v) / len(v) if v else NAN


def var1(v):
  if len(v) < 2:
    return NAN
  m = mean(v)
  return sum((x - m) ** 2 for x in v) / (len(v) - 1)


def pairs(v, fair):
  n = len(v)
  d = n * (n - 1) if fair else n * n
  return sum(abs(a - b) for a in v for b in v) / d if d > 0 else NAN


# Each reference takes lists of members (already without missing ones when
# skipping) x and y (y has one element for a single target) and returns the
# list of statistic values that are averaged, in the order of the combine fn.
def skill(x, y):
  return mean([abs(a - b) for a in x for b in y])


def umse(x, y, ens):
  b = var1(x) / len(x) if len(x) > 1 else NAN
  if ens:
    b = b + (var1(y) / len(y) if len(y) > 1 else NAN)
  return (mean(x) - mean(y)) ** 2 - b


def wass(x, y):
  pts = sorted(set(x) | set(y))
  out = 0.0
  for a, b in zip(pts[:-1], pts[1:]):
    f = sum(v <= a for v in x) / len(x)
    g = sum(v <= a for v in y) / len(y)
    out += abs(f - g) * (b - a)
  return out


def rps(x, y, ens, fair, right, thr, target_thr):
  out = 0.0
  for b, c in zip(thr, target_thr):
    cx = [float(v <= b if right else v < b) for v in x]
    cy = [float(v <= c if right else v < c) for v in y]
    out += umse(cx, cy, ens) if fair else (mean(cx) - mean(cy)) ** 2
  return out


ONE = lambda s: s[0]


def spec(name, opt):
  """(metric, stats(x, y, ens) -> list, combine, minimum members, target kinds)."""
  f, srt, sk = opt.get('fair', True), opt.get('sort', False), opt.get('skip', False)
  d = opt.get('dim', 'number')
  kw = dict(ensemble_dim=d, skipna_ensemble=sk)
  if name == 'CRPSEnsemble':
    return (prob.CRPSEnsemble(use_sort=srt, fair=f, **kw),
            lambda x, y, e: [skill(x, y), pairs(x, f)],
            lambda s: s[0] - 0.5 * s[1], 2, ('single', 'ens'))
  if name == 'CRPSEnsembleDistance':
    return (prob.CRPSEnsembleDistance(use_sort=srt, fair=f, **kw),
            lambda x, y, e: [skill(x, y), pairs(x, f), pairs(y, f)],
            lambda s: s[0] - 0.5 * s[1] - 0.5 * s[2], 2, ('ens',))
  if name == 'EnsembleVariance':
    return (prob.EnsembleVariance(**kw), lambda x, y, e: [var1(x)], ONE, 2,
            ('single',))
  if name == 'EnsembleRootMeanVariance':
    return (prob.EnsembleRootMeanVariance(**kw), lambda x, y, e: [var1(x)],
            lambda s: np.sqrt(s[0]), 2, ('single',))
  if name == 'UnbiasedEnsembleMeanSquaredError':
    return (prob.UnbiasedEnsembleMeanSquaredError(**kw),
            lambda x, y, e: [umse(x, y, e)], ONE, 2, ('single', 'ens'))
  if name == 'UnbiasedEnsembleMeanRMSE':
    return (prob.UnbiasedEnsembleMeanRMSE(**kw),
            lambda x, y, e: [umse(x, y, e)], lambda s: np.sqrt(s[0]), 2,
            ('single', 'ens'))
  if name == 'UnbiasedSpreadSkillRatio':
    return (prob.UnbiasedSpreadSkillRatio(**kw),
            lambda x, y, e: [var1(x), umse(x, y, e)],
            lambda s: np.sqrt(np.float64(s[0]) / np.float64(s[1])), 2, ('single', 'ens'))
  if name == 'WassersteinDistance':
    return (prob.WassersteinDistance(d), lambda x, y, e: [wass(x, y)], ONE, 1,
            ('ens',))
  if name == 'EnsembleErrorExceedance':
    th = [0.0, 1.0, 1.5]
    return (prob.EnsembleErrorExceedance(th, d),
            lambda x, y, e: [np.array([mean([float(abs(a - y[0]) > t) for a in x])
                                       for t in th])], ONE, 1, ('single',))
  if name == 'RankHistogram':
    return (prob.RankHistogram(ensemble_dim=d),
            lambda x, y, e: [np.array([float(sum(a < y[0] for a in x) == r)
                                       for r in range(len(x) + 1)])],
            ONE, 1, ('single',))
  if name == 'EnsembleAveragedRMSE':
    return (prob.EnsembleAveragedMetric(det.RMSE(), **kw),
            lambda x, y, e: [mean([(a - y[0]) ** 2 for a in x])],
            lambda s: np.sqrt(s[0]), 1, ('single',))
  if name == 'EnsembleAveragedBias':
    return (prob.EnsembleAveragedMetric(det.Bias(), **kw),
            lambda x, y, e: [mean([a - y[0] for a in x])], ONE, 1, ('single',))
  if name == 'EnsembleRankedProbabilityScore':
    right = opt.get('right', True)
    thr = [THR, THR2 if opt.get('apart') else THR]
    ds = [xr.Dataset({
        'other': ('q', np.array(t) * 2 + 9),
        'v': ('q', np.array(t))}, coords={'q': np.arange(len(t))}) for t in thr]
    return (prob.EnsembleRankedProbabilityScore(
        ds[0], ds[1], 'q', 'sfx', fair=f, right_inclusive=right, **kw),
            lambda x, y, e: [rps(x, y, e, f, right, *thr)], ONE, 2 if f else 1,
            ('single', 'ens'))
  raise ValueError(name)


NAMES = ('CRPSEnsemble', 'CRPSEnsembleDistance', 'EnsembleVariance',
         'EnsembleRootMeanVariance', 'UnbiasedEnsembleMeanSquaredError',
         'UnbiasedEnsembleMeanRMSE', 'UnbiasedSpreadSkillRatio',
         'WassersteinDistance', 'EnsembleErrorExceedance', 'RankHistogram',
         'EnsembleAveragedRMSE', 'EnsembleAveragedBias',
         'EnsembleRankedProbabilityScore')
HAS_SKIP = set(NAMES) - {'WassersteinDistance', 'EnsembleErrorExceedance',
                         'RankHistogram'}


class C14(core.Check):
  id = 'C14'
  rule = ('every assignment of 3 values and "missing" to the members of '
          'ensembles of size 1..4 (5) and of 4 values and "missing" to single '
          'targets, or to target ensembles of size 1..3, for every score and '
          'option, per unit and averaged over units; all dimension orders')
  assumptions = (
      'scores are compared only where at least the minimum number of members '
      'is present (2 for spread-based and fair scores); with default settings '
      'a missing member or target makes the unit missing')

  def opts(self, name):
    fair = (True, False) if name in ('CRPSEnsemble', 'CRPSEnsembleDistance',
                                     'EnsembleRankedProbabilityScore') else (True,)
    srt = (False, True) if name.startswith('CRPS') else (False,)
    skip = (False, True) if name in HAS_SKIP else (False,)
    right = (True, False) if 'Ranked' in name else (True,)
    for f, s, k, r in itertools.product(fair, srt, skip, right):
      if s and k:
        continue
      yield dict(fair=f, sort=s, skip=k, right=r)
      if 'Ranked' in name:
        yield dict(fair=f, sort=s, skip=k, right=r, apart=True)

  def cases(self):
    for name in NAMES:
      kinds = spec(name, {})[4]
      for opt in self.opts(name):
        for m in range(1, 6 if self.thorough else 5):
          for tk in kinds:
            for n in ((0,) if tk == 'single' else (1, 2, 3)):
              yield dict(kind='score', name=name, opt=opt, m=m, n=n)
        for tk in kinds:
          yield dict(kind='layout', name=name, opt=opt, n=0 if tk == 'single' else 2)
        if opt.get('apart'):
          continue
        for m in SIZES if self.thorough else SIZES[::2]:
          for tk in kinds:
            for n in ((0,) if tk == 'single' else (2, 131)):
              yield dict(kind='scale', name=name, opt=opt, m=m, n=n)
    yield dict(kind='sortskip')
    yield dict(kind='crps_small')
    yield dict(kind='monotonic')
    for nb in (1, 2, 3):
      yield dict(kind='catrps', nb=nb)

  def run_case(self, case, rec):
    getattr(self, 'k_' + case['kind'])(case, rec)

  @staticmethod
  def need_y(name, opt, n, minimum):
    """Number of target members that the score needs."""
    if name in ('EnsembleVariance', 'EnsembleRootMeanVariance'):
      return 0
    if name == 'CRPSEnsemble' or (
        name == 'EnsembleRankedProbabilityScore' and not opt['fair']):
      return 1
    return 2 if n and minimum == 2 else 1

  def reference(self, name, opt, x, y, n):
    """Per unit list of statistic values; None where below the minimum."""
    _, stats, _, minimum, _ = spec(name, opt)
    skip = opt['skip']
    out = []
    for a, b in zip(x, y):
      xs, ys = present(a), present(b)
      missing = (len(xs) < len(a) or len(ys) < len(b))
      if not skip and missing:
        out.append('nan')
        continue
      need_y = self.need_y(name, opt, n, minimum)
      if len(xs) < minimum or len(ys) < need_y:
        out.append('nan' if not xs or (need_y and not ys) else None)
        continue
      out.append(stats(xs, ys, n > 0))
    return out

  def k_score(self, case, rec):
    name, opt, m, n = case['name'], case['opt'], case['m'], case['n']
    metric, stats, combine, minimum, _ = spec(name, opt)
    xa = XA
    if m + n >= 6 and not self.thorough:
      xa = (0.0, 2.5, NAN)
    if m >= 5:
      xa = (0.0, 1.0, NAN)
    X = mu.all_assignments(xa, m)
    Y = mu.all_assignments(xa if n else YA, n or 1)
    i, j = np.indices((len(X), len(Y))).reshape(2, -1)
    x, y = X[i], Y[j]
    P = {'v': xr.DataArray(x, dims=['case', 'number'], name='v')}
    T = xr.DataArray(y, dims=['case', 'number'], name='v')
    T = {'v': T if n else T.isel(number=0)}
    rec.transition(len(x))
    unused_target = name in ('EnsembleVariance', 'EnsembleRootMeanVariance')
    try:
      got = mu.value(metric, P, T, ())['m.v']
    except Exception as e:  # pylint: disable=broad-except
      if m < minimum or n and n < self.need_y(name, opt, n, minimum):
        rec.trace(outcome='rejected')  # loud refusal below the minimum
        return
      raise
    ref = self.reference(name, opt, x, y, n)
    extra = [d for d in got.dims if d != 'case']
    g = got.transpose('case', *extra).values
    if name == 'RankHistogram':
      check(got.sizes['rank'] == m + 1, 'number of ranks', got.sizes)
      check(list(got['rank'].values) == list(range(m + 1)), 'rank labels')
    good = []
    for k, r in enumerate(ref):
      if r is None:
        continue
      if isinstance(r, str):
        if unused_target and not np.isnan(x[k]).any():
          continue  # does not depend on the target
        ok = np.all(np.isnan(g[k]))
        want = 'missing'
      else:
        with np.errstate(all='ignore'):
          want = combine(r)
        good.append(k)
        ok = close(g[k], np.asarray(want, float), 1e-5, 1e-5)
        if not ok and name.endswith(('RMSE', 'Ratio')):
          # at a zero of the mean-squared error rounding decides the sign
          z = r[-1]
          ok = abs(z) < 1e-9
      if not ok:
        fail(f'{name} {opt}: got {g[k]} expected {want}',
             f'members {x[k].tolist()} target {y[k].tolist()}')
    rec.nodes += len(x)
    for v in np.unique(np.round(g[~np.isnan(g)], 5))[:500]:
      rec.outcome((name, float(v)))
    rec.trace(len(x))
    # averaging over units happens before any non-linear combination
    if good:
      for sub in (good, good[::2], good[-3:]):
        Ps = {'v': P['v'].isel(case=sub)}
        Ts = {'v': T['v'].isel(case=sub)}
        gm = mu.value(metric, Ps, Ts, ('case',))['m.v'].values
        rec.transition()
        ms = [sum(ref[k][q] for k in sub) / len(sub) for q in range(len(ref[good[0]]))]
        with np.errstate(all='ignore'):
          want = combine(ms)
        if np.abs(ms[-1]).max() < 1e-9 and name.endswith(("RMSE", "Ratio")):
          continue
        check(close(gm, np.asarray(want, float), 1e-5, 1e-5),
              f'{name} {opt}: mean over {len(sub)} units is {gm}, expected {want}')
        rec.trace()

  def k_scale(self, case, rec):
    """Realistic and byte-boundary ensemble sizes, against the same loops."""
    name, opt, m, n = case['name'], case['opt'], case['m'], case['n']
    metric, _, combine, _, _ = spec(name, opt)
    u = np.arange(4)[:, None]
    i = np.arange(m)[None]
    x = ((i * i * 7 + i * u * 3 + 5 * u) % 101) / 16.0
    j = np.arange(n or 1)[None]
    y = ((j * j * 3 + 11 * u + j * u) % 97) / 16.0
    y[0] = 9.0   # above all members
    y[1] = -1.0  # below all members
    if opt['skip']:
      x[2, ::3] = NAN
      x[3, -1] = NAN
    P = xr.DataArray(x, dims=['case', 'number'], name='v')
    T = xr.DataArray(y, dims=['case', 'number'], name='v')
    T = T if n else T.isel(number=0)
    ref = self.reference(name, opt, x, y, n)
    for dt, tol in (('f8', 1e-6), ('f4', 2e-3)):
      got = mu.value(metric, {'v': P.astype(dt)}, {'v': T.astype(dt)}, ())['m.v']
      rec.transition()
      g = got.transpose('case', ...).values
      for k, r in enumerate(ref):
        check(not isinstance(r, str) and r is not None, 'bad case')
        with np.errstate(all='ignore'):
          want = np.asarray(combine(r), float)
        check(close(g[k], want, tol, tol), f'{name} {opt} of {m} members: got '
              f'{g[k]} expected {want}', dt, k, n)
        rec.trace(outcome=(name, m, round(float(np.nansum(want)), 4)))
    rec.state((name, str(opt), m, n))

  def k_layout(self, case, rec):
    """Dimension orders, member order and names, other ensemble names, dtypes."""
    name, opt, n = case['name'], dict(case['opt']), case['n']
    k = 3
    u = np.arange(12)[:, None] * 5 + np.arange(k)[None] * 7
    base = ((u * u + u // 3) % 17 / 4.0).reshape(2, 3, 2, k)
    tgt = (np.arange(12) * 7 % 11 / 4.0 + 0.125).reshape(2, 3, 2)
    if opt['skip']:
      k = 4
      extra = np.where(np.arange(12) % 3 == 0, NAN, 1.5).reshape(2, 3, 2, 1)
      base = np.concatenate([base, extra], 3)
      base[0, 1, 0, 1] = NAN
    tens = tgt[..., None] + np.array([0.0, 1.5])
    D = ('a', 'b', 'c', 'number')
    # every unit on its own
    flat = mu.value(
        spec(name, opt)[0],
        {'v': xr.DataArray(base.reshape(12, k), dims=['case', 'number'],
                           name='v')},
        {'v': xr.DataArray(tens.reshape(12, 2), dims=['case', 'number'], name='v') if n
         else xr.DataArray(tgt.reshape(12), dims=['case'], name='v')}, ())['m.v']
    flat = flat.transpose('case', ...).values
    flat = flat.reshape((2, 3, 2) + flat.shape[1:])
    members = list(itertools.permutations(range(k)))
    orders = list(itertools.permutations(range(4)))
    combos = [(m, o) for m in members for o in (orders[0], orders[-1])] + [
        (m, o) for m in members[1::5] for o in orders]
    want = None
    for i, (mem, do) in enumerate(combos):
      dim = ('number', 'realization')[(i // 2) % 2]
      o = dict(opt, dim=dim)
      metric = spec(name, o)[0]
      P = xr.DataArray(base, dims=D, name='v', coords={
          'number': np.arange(k) * 2, 'a': [1, 2]})
      P = P.isel(number=list(mem)).transpose(*[D[q] for q in do])
      if n:
        T = xr.DataArray(tens, dims=D, name='v',
                         coords={'number': [7, 0], 'a': [1, 2]})
        T = T.transpose(*[D[q] for q in do[::-1]])
      else:
        T = xr.DataArray(tgt, dims=D[:3], name='v', coords={'a': [1, 2]})
        T = T.transpose(*[D[q] for q in do[::-1] if q < 3])
      if dim != 'number':
        P = P.rename(number=dim)
        T = T.rename(number=dim) if n else T
      P, T = xr.Dataset({'v': P}), {'v': T}
      ctx = f'members {mem} dims {do} dim {dim}'
      one = mu.value(metric, P, T, ())['m.v'].transpose('a', 'b', 'c', ...).values
      check(close(one, flat, 1e-5, 1e-5), f'{name} {opt} depends on the layout: '
            f'{one} vs {flat}', ctx)
      got = mu.value(metric, P, T, ('b', 'c'))['m.v']
      rec.transition(2)
      rec.nodes += 1
      check(dim not in got.dims, f'{name} keeps the ensemble dimension', got.dims)
      g = got.transpose('a', ...).values
      if want is None:
        want = g
      check(close(g, want, 1e-5, 1e-5),
            f'{name} {opt} depends on member or dimension order: {g} vs {want}',
            ctx)
      if i < 2 and name != 'EnsembleRankedProbabilityScore':
        # float32 inputs give the same result to single precision
        g4 = mu.value(metric, P.astype('f4'), {'v': T['v'].astype('f4')},
                      ('b', 'c'))['m.v'].transpose('a', ...).values
        check(close(g4, want, 1e-3, 1e-3), f'{name}: float32', g4, want)
      rec.trace(outcome=(name, str(opt), n))
    rec.state((name, str(opt), n))

  def k_sortskip(self, case, rec):
    P = {'v': xr.DataArray([[1.0, 2.0]], dims=['case', 'number'])}
    T = {'v': xr.DataArray([1.0], dims=['case'])}
    rec.transition()
    try:
      mu.value(prob.CRPSEnsemble(use_sort=True, skipna_ensemble=True), P, T, ())
    except ValueError:
      rec.trace(outcome='rejected')
      return
    fail('use_sort with skipna_ensemble is documented as unsupported')

  def k_crps_small(self, case, rec):
    """Documented: with fewer than two members present fair CRPS is missing."""
    P = {'v': xr.DataArray([[1.0, NAN], [NAN, NAN], [1.0, 2.0]],
                           dims=['case', 'number'])}
    T = {'v': xr.DataArray([1.5, 1.5, 1.5], dims=['case'])}
    got = mu.value(prob.CRPSEnsemble(skipna_ensemble=True), P, T, ())['m.v'].values
    rec.transition()
    check(np.isnan(got[0]) and np.isnan(got[1]) and not np.isnan(got[2]),
          'fair CRPS with fewer than two present members', got)
    rec.trace(outcome='small')

  def k_monotonic(self, case, rec):
    """Thresholds that do not increase are rejected unless allowed."""
    P = {'v': xr.DataArray([[1.0, 2.0, 0.5]], dims=['case', 'number'], name='v')}
    T = {'v': xr.DataArray([1.0], dims=['case'], name='v')}
    lists = ((0.0, 1.0, 2.0), (1.0, 0.0, 2.0), (0.0, 2.0, 1.0), (2.0, 1.0, 0.0),
             (0.0, NAN, 2.0))
    for a, b, enforce, fair in itertools.product(
        lists, lists, (None, True, False), (True, False)):
      ds = [xr.Dataset({'v': ('q', list(t))}) for t in (a, b)]
      kw = {} if enforce is None else dict(enforce_monotonicity=enforce)
      bad = a != lists[0] or b != lists[0]
      rec.transition()
      rec.nodes += 1
      try:
        got = mu.value(prob.EnsembleRankedProbabilityScore(
            *ds, 'q', 'sfx', fair=fair, **kw), P, T, ())['m.v'].values
      except ValueError:
        check(bad and enforce is not False, 'thresholds rejected', a, b, kw)
        rec.trace(outcome='rejected')
        continue
      check(not bad or enforce is False, 'thresholds that do not increase are '
            'accepted', a, b, kw)
      if not np.isnan(a + b).any():
        want = rps([1.0, 2.0, 0.5], [1.0], False, fair, True, a, b)
        check(close(got, [want], 1e-6, 1e-6), 'RPS', got, want, a, b, kw)
      rec.trace(outcome=(fair, round(float(np.nan_to_num(got[0])), 4)))

  def k_catrps(self, case, rec):
    nb = case['nb']
    v = mu.all_assignments((0.0, 0.25, 1.0, NAN), 2 * nb)
    p, t = v[:, :nb], v[:, nb:]
    D = ['case', 'bin']
    got = mu.value(cat.RankedProbabilityScore('bin'),
                   {'v': xr.DataArray(p, dims=D)},
                   {'v': xr.DataArray(t, dims=D)}, ())['m.v'].values
    rec.transition(len(v))
    want = ((p - t) ** 2).sum(1)
    if not close(got, want):
      i = int(np.argmax(~np.isclose(got, want, equal_nan=True)))
      fail(f'RPS of CDFs: got {got[i]} expected {want[i]}', p[i], t[i])
    rec.trace(len(v), outcome=nb)


CHECK = C14
