"""C30: relative economic value is the cost-loss model's."""

import itertools

import numpy as np
import xarray as xr

from mc import core
from mc import metricutil as mu
from mc.xrutil import check, fail, fingerprint
from weatherbenchX import aggregation
from weatherbenchX.metrics import base as mb
from weatherbenchX.metrics import probabilistic
from weatherbenchX.statistical_inference import autodiff

RATIOS = np.array([0.1, 0.5, 0.8])
STATS = ('TruePositives', 'TrueNegatives', 'FalsePositives', 'FalseNegatives')


def cost(ratio, act, event):
  """Of one user for one event: the protection or the loss (1)."""
  return ratio if act else float(bool(event))


def rev(acts, events, ratio, weights=None):
  """The saving relative to a perfect forecast, from single decisions."""
  n = len(events)
  w = np.ones(n) if weights is None else np.asarray(weights, float)
  def mean(decisions):
    return sum(wi * cost(ratio, a, e)
               for wi, a, e in zip(w, decisions, events)) / w.sum()
  clim = min(mean([True] * n), mean([False] * n))
  perf = mean(events)
  if abs(clim - perf) < 1e-9:
    return None
  return (clim - mean(acts)) / (clim - perf)


def acts_at(p, thresholds, i):
  """Decisions for the option number i: always, the thresholds, never."""
  if i == 0:
    return [True] * len(p)
  if i == len(thresholds) + 1:
    return [False] * len(p)
  return [x > thresholds[i - 1] for x in p]


def options(thresholds):
  return [0.0] + [float(t) for t in thresholds] + [1.0]


def near(got, want, tol=2e-5):
  return abs(float(got) - want) <= tol * max(1.0, abs(want))


class C30(core.Check):
  id = 'C30'
  rule = ('all small vectors of probabilities and outcomes x ratios x sets of '
          'thresholds; all selections of thresholds per ratio, variable and '
          'remaining dimension x their forms x array types')
  assumptions = ('the value is not compared where the perfect forecast saves '
                 'nothing',)

  def cases(self):
    t = self.thorough
    for size in (1, 2, 3, 4) if t else (1, 2, 3):
      for n in (1, 2, 3, 4) if t else (1, 2, 3):
        if (size + 1) ** n * 2 ** n > 4000:
          continue
        yield {'k': 'members', 'size': size, 'n': n}
    for m in (0, 1, 2, 3):
      yield {'k': 'thresholds', 'm': m}
    yield {'k': 'tables', 'n': 4 if t else 3}
    yield {'k': 'missing'}
    yield {'k': 'defaults'}
    yield {'k': 'together'}
    yield {'k': 'reject'}
    for dims in ('r', 'lr', 'rl', 'glr', 'rgl', 'gr'):
      for form in ('array', 'dict', 'dataset'):
        for how in ('numpy', 'jax', 'linear'):
          yield {'k': 'select', 'dims': dims, 'form': form, 'how': how}
    for how in ('numpy', 'jax', 'linear'):
      yield {'k': 'nearest', 'how': how}
      yield {'k': 'unavailable', 'how': how}
      yield {'k': 'labels', 'how': how}
    yield {'k': 'best'}

  def run_case(self, case, rec):
    getattr(self, '_' + case['k'])(case, rec)

  # ---- all vectors

  def vectors(self, probs, n, outcomes=(0, 1)):
    """(p, y) arrays with dims case, time: all assignments."""
    p = mu.all_assignments(probs, n)
    y = mu.all_assignments(outcomes, n)
    pp = np.repeat(p, len(y), axis=0)
    yy = np.tile(y, (len(p), 1))
    return pp, yy

  def compare(self, metric, p, y, thresholds, ratios, what, rec, dtypes=('f8',),
              skipna=False, bools=False):
    for dt in dtypes:
      pred = {'v': xr.DataArray(p.astype(dt), dims=['case', 'time'])}
      targ = {'v': xr.DataArray(y.astype(bool) if bools else y.astype(dt),
                                dims=['case', 'time'])}
      before = fingerprint([pred, targ])
      res = mu.value({'m': metric}, pred, targ, ['time'], skipna=skipna)['m.v']
      rec.transition()
      check(fingerprint([pred, targ]) == before, f'{what}: inputs changed')
      check(set(res.dims) == {'case', 'threshold', 'cost_loss_ratio'},
            f'{what}: dims {res.dims}')
      check(np.allclose(res.cost_loss_ratio.values, ratios),
            f'{what}: ratios {res.cost_loss_ratio.values}')
      check(np.allclose(res.threshold.values, options(thresholds)),
            f'{what}: thresholds {res.threshold.values}, expected '
            f'{options(thresholds)}')
      v = res.transpose('case', 'threshold', 'cost_loss_ratio').values
      for c in range(len(p)):
        pc, yc = p[c].astype(dt), y[c]
        if skipna:
          ok = ~np.isnan(p[c]) & ~np.isnan(y[c])
          pc, yc = pc[ok], yc[ok]
          if not len(pc):
            check(np.all(np.isnan(v[c])), f'{what}: value without events')
            continue
        elif np.isnan(p[c]).any() or np.isnan(y[c]).any():
          check(np.all(np.isnan(v[c])), f'{what}: {p[c]} {y[c]}: {v[c]}')
          continue
        best = {}
        for i in range(len(thresholds) + 2):
          acts = acts_at(pc, np.asarray(thresholds, float), i)
          for j, r in enumerate(ratios):
            want = rev(acts, yc, r)
            if want is None:
              continue
            check(near(v[c, i, j], want),
                  f'{what}: probabilities {pc} outcomes {yc} ratio {r} '
                  f'threshold {options(thresholds)[i]}: {v[c, i, j]}, expected '
                  f'{want}')
            best[j] = max(best.get(j, -np.inf), v[c, i, j])
            if list(acts) == list(yc.astype(bool)):
              check(near(v[c, i, j], 1.0), f'{what}: perfect has {v[c, i, j]}')
        for j, b in best.items():
          check(-1e-5 <= b <= 1 + 1e-5, f'{what}: best value {b}')
        rec.nodes += 1
      rec.trace(len(p), (what, dt))

  def _members(self, case, rec):
    n, size = case['n'], case['size']
    p, y = self.vectors([i / size for i in range(size + 1)], n)
    th = [(i + 0.5) / size for i in range(size)]
    metrics = {
        'size': probabilistic.RelativeEconomicValue(
            ensemble_size=size, cost_loss_ratios=RATIOS),
        'given': probabilistic.RelativeEconomicValue(
            probability_thresholds=np.array(th), cost_loss_ratios=RATIOS,
            statistic_suffix='s'),
    }
    for name, m in metrics.items():
      self.compare(m, p, y, th, RATIOS, f'{case} {name}', rec,
                   dtypes=('f8', 'f4') if name == 'size' else ('f8',))
    self.compare(metrics['size'], p, y, th, RATIOS, f'{case} bool', rec,
                 bools=True)

  def _thresholds(self, case, rec):
    """Sets of thresholds in all orders, some equal to probabilities."""
    pool = (0.0, 0.25, 0.5, 0.625, 1.0)
    p, y = self.vectors([0.0, 0.25, 0.5, 1.0], 2)
    for th in itertools.permutations(pool, case['m'] or len(pool)):
      if case['m'] == 0 and th != tuple(sorted(th)) and not self.thorough:
        continue
      if case['m'] == 3 and not self.thorough and (
          th[0] > th[2] or (th[0] > th[1] and 0.625 in th)):
        continue
      for ratios in ([0.3], [0.9, 0.2]):
        m = probabilistic.RelativeEconomicValue(
            probability_thresholds=np.array(th), cost_loss_ratios=np.array(
                ratios), statistic_suffix='x')
        self.compare(m, p, y, th, ratios, f'{case} {th}', rec)

  def _tables(self, case, rec):
    """Means of statistics, for all pairs of weighted contingency tables."""
    n = case['n']
    th = [0.25, 0.75]
    tables = [t for t in itertools.product(range(n + 1), repeat=4)
              if sum(t) == n]
    by_base = {}
    for t in tables:
      by_base.setdefault(t[0] + t[3], []).append(t)
    for ratios in ([0.2, 0.7], [0.45], np.linspace(0.05, 0.95, 10)):
      m = probabilistic.RelativeEconomicValue(
          probability_thresholds=np.array(th), statistic_suffix='x',
          cost_loss_ratios=np.array(ratios))
      for base, group in by_base.items():
        pairs = list(itertools.product(group, repeat=2))
        a = np.array(pairs, float) / n  # case, threshold, (tp, tn, fp, fn)
        stats = {s: {'v': xr.DataArray(a[..., i], dims=['case', 'threshold'],
                                       coords={'threshold': th})}
                 for i, s in enumerate(STATS)}
        for order in (['case', 'threshold'], ['threshold', 'case']):
          st = {s: {'v': d['v'].transpose(*order)} for s, d in stats.items()}
          res = m.values_from_mean_statistics(st)['v'].transpose(
              'case', 'threshold', 'cost_loss_ratio')
          rec.transition()
          for c, (t1, t2) in enumerate(pairs):
            for i, t in ((1, t1), (2, t2)):
              acts = [1] * t[0] + [0] * t[1] + [1] * t[2] + [0] * t[3]
              ev = [1] * t[0] + [0] * t[1] + [0] * t[2] + [1] * t[3]
              for j, r in enumerate(ratios):
                for k, ac in ((i, acts), (0, [1] * n), (3, [0] * n)):
                  want = rev(ac, ev, r)
                  if want is not None:
                    got = res.values[c, k, j]
                    check(near(got, want), f'table {t} ratio {r} option {k}: '
                          f'{got}, expected {want}')
            rec.nodes += 1
          rec.trace(len(pairs), (base, len(ratios), order[0]))

  def _missing(self, case, rec):
    nan = np.nan
    p, y = self.vectors([0.0, 1.0, nan], 3, (0, 1, nan))
    m = probabilistic.RelativeEconomicValue(
        ensemble_size=2, cost_loss_ratios=RATIOS)
    for skipna in (False, True):
      self.compare(m, p, y, [0.25, 0.75], RATIOS, f'{case} {skipna}', rec,
                   skipna=skipna)

  def _defaults(self, case, rec):
    for size in (1, 2, 5, 10, 50):
      m = probabilistic.RelativeEconomicValue(ensemble_size=size)
      p = np.array([[0.0, 1.0, 0.5, 0.5], [1.0, 0.3, 0.2, 0.9]])
      y = np.array([[0.0, 1.0, 0.0, 1.0], [1.0, 0.0, 0.0, 0.0]])
      self.compare(m, p, y, (np.arange(size) + 0.5) / size,
                   np.exp(np.linspace(np.log(0.005), 0, 51))[:-1],
                   f'{case} {size}', rec)

  def _together(self, case, rec):
    """Several of them in one set of metrics."""
    p, y = self.vectors([0.0, 0.25, 0.5, 0.75, 1.0], 2)
    pred = {'v': xr.DataArray(p, dims=['case', 'time']),
            'w': xr.DataArray(1 - p[::-1], dims=['case', 'time'])}
    targ = {'w': xr.DataArray(y, dims=['case', 'time']),
            'v': xr.DataArray(y, dims=['case', 'time'])}
    r = RATIOS
    cls = probabilistic.RelativeEconomicValue
    best = xr.DataArray([0.25, 0.25, 0.75], dims='cost_loss_ratio',
                        coords={'cost_loss_ratio': r})
    pool = {
        'two': lambda: cls(ensemble_size=2, cost_loss_ratios=r),
        'four': lambda: cls(ensemble_size=4, cost_loss_ratios=r),
        'ratio': lambda: cls(ensemble_size=2, cost_loss_ratios=r[:1]),
        'some': lambda: cls(probability_thresholds=np.array([0.6, 0.1]),
                            cost_loss_ratios=r, statistic_suffix='a'),
        'other': lambda: cls(probability_thresholds=np.array([0.5]),
                             cost_loss_ratios=r, statistic_suffix='b'),
        'best': lambda: cls(ensemble_size=2, cost_loss_ratios=r,
                            optimal_thresholds=best),
    }
    alone = {k: mu.value({k: f()}, pred, targ, ['time']) for k, f in
             pool.items()}
    for n in (2, 3):
      for names in itertools.permutations(pool, n):
        if n == 3 and not self.thorough and names[0] > names[1]:
          continue
        metrics = {k: pool[k]() for k in names}
        state = mu.state_of(metrics, pred, targ, ['time'])
        for k, m in metrics.items():
          got = state.metric_values({k: m})
          for var in 'vw':
            a, b = got[f'{k}.{var}'], alone[k][f'{k}.{var}']
            check(a.dims == b.dims and np.array_equal(
                a.values, b.values, equal_nan=True),
                  f'{k} together with {names} differs')
        rec.transition()
        rec.nodes += 1
        rec.trace(1, names)

  def _reject(self, case, rec):
    cls = probabilistic.RelativeEconomicValue
    ok = xr.DataArray([0.25, 0.25, 0.75], dims='cost_loss_ratio',
                      coords={'cost_loss_ratio': RATIOS})
    bad = [
        dict(),
        dict(ensemble_size=2, probability_thresholds=np.array([0.5])),
        dict(ensemble_size=2, probability_thresholds=np.array([0.5]),
             statistic_suffix='x'),
        dict(probability_thresholds=np.array([0.5])),
        dict(probability_thresholds=np.array([0.5, 1.01]),
             statistic_suffix='x'),
        dict(probability_thresholds=np.array([-0.01, 0.5]),
             statistic_suffix='x'),
        dict(probability_thresholds=np.array([np.nan, 0.5]),
             statistic_suffix='x'),
        dict(ensemble_size=2, optimal_thresholds=ok),  # default ratios
        dict(ensemble_size=2, cost_loss_ratios=RATIOS[::-1],
             optimal_thresholds=ok),
        dict(ensemble_size=2, cost_loss_ratios=RATIOS[:2],
             optimal_thresholds=ok),
        dict(ensemble_size=2, cost_loss_ratios=RATIOS,
             optimal_thresholds={'v': ok, 'w': ok.isel(cost_loss_ratio=[0])}),
        dict(ensemble_size=2, cost_loss_ratios=RATIOS,
             optimal_thresholds={'v': ok, 'w': ok.isel(cost_loss_ratio=0)}),
        dict(ensemble_size=2, cost_loss_ratios=RATIOS,
             optimal_thresholds=xr.DataArray([0.25], dims='lead_time')),
    ]
    for kw in bad:
      rec.transition()
      rec.nodes += 1
      try:
        cls(**kw)
      except Exception:  # pylint: disable=broad-except
        continue
      fail(f'{list(kw)} is not rejected')
    for kw in (dict(ensemble_size=2), dict(
        probability_thresholds=np.array([0.0, 1.0]), statistic_suffix='x'),
               dict(ensemble_size=2, cost_loss_ratios=RATIOS,
                    optimal_thresholds=ok),
               dict(ensemble_size=2, cost_loss_ratios=RATIOS,
                    optimal_thresholds={'v': ok, 'w': ok}),
               dict(ensemble_size=2, cost_loss_ratios=RATIOS,
                    optimal_thresholds=xr.Dataset({'v': ok, 'w': ok}))):
      cls(**kw)
      rec.transition()

  # ---- selected thresholds

  TH = np.array([0.25, 0.75])
  R2 = np.array([0.4, 0.7])
  LEADS = np.array([6, 12]) * np.timedelta64(1, 'h').astype('m8[ns]')
  GROUPS = ['a', 'b']

  def world(self):
    """Targets and predictions of two variables, five units."""
    rng = [((7 * i * i + 3 * i + i // 5) % 11) / 10 for i in range(40)]
    p = np.array(rng).reshape(5, 2, 2, 2)  # unit, var, group, lead
    y = np.array([((5 * i * i + 2 * i + i // 3) % 7) < 3 for i in range(40)],
                 float).reshape(5, 2, 2, 2)
    # All base rates between 0 and 1.
    y[0], y[1] = 0, 1
    mk = lambda a, i: xr.DataArray(
        a[:, i], dims=['unit', 'group', 'lead_time'],
        coords={'group': self.GROUPS, 'lead_time': self.LEADS,
                'unit': np.arange(5)})
    return ({'v': mk(p, 0), 'w': mk(p, 1)}, {'v': mk(y, 0), 'w': mk(y, 1)},
            p, y)

  def table(self, p, y, th):
    """Values [var, group, lead, option, ratio]."""
    out = np.zeros((2, 2, 2, len(th) + 2, 2))
    for v, g, l in itertools.product(range(2), repeat=3):
      for i in range(len(th) + 2):
        for j, r in enumerate(self.R2):
          out[v, g, l, i, j] = rev(acts_at(p[:, v, g, l], th, i),
                                   y[:, v, g, l], r)
    return out

  def evaluate(self, how, metric, state):
    """Values of the variables, from the sums per unit."""
    metrics = {'m': metric}
    if how == 'linear':
      values, _ = autodiff.per_unit_values_linearized_around_mean_statistics(
          metrics, state, 'unit')
      return values['m']
    mean = state.sum_along_dims(['unit'])
    if how == 'numpy':
      got = mean.metric_values(metrics)
      return {'v': got['m.v'], 'w': got['m.w']}
    import jax  # pylint: disable=g-import-not-at-top
    stats = mean.mean_statistics()
    stats = {k: {v: d.copy(data=jax.numpy.asarray(d.values))
                 for v, d in per.items()} for k, per in stats.items()}
    per = {k: stats[s.unique_name] for k, s in metric.statistics.items()}
    return {k: v.as_numpy() for k, v in
            metric.values_from_mean_statistics(per).items()}

  def selections(self, dims, opts):
    """Index arrays over (group, lead, ratio) for the given dims."""
    sizes = [2 if d in dims else 1 for d in 'gl'] + [2]
    n = int(np.prod(sizes))
    k = len(opts)
    if k ** n <= 300:
      vecs = itertools.product(range(k), repeat=n)
    else:
      # All pairs of positions take all pairs of options.
      vecs = sorted({tuple((a * (i % m == 0) + b * (i % m != 0) + c * i) % k
                           for i in range(n))
                     for a, b, c in itertools.product(range(k), repeat=3)
                     for m in (2, 3, 4)})
    for v in vecs:
      yield np.broadcast_to(np.array(v).reshape(sizes), (2, 2, 2)), np.array(
          v).reshape(sizes)

  def threshold_array(self, idx, dims, opts, labels=True):
    names = {'g': 'group', 'l': 'lead_time', 'r': 'cost_loss_ratio'}
    co = {'group': self.GROUPS, 'lead_time': self.LEADS,
          'cost_loss_ratio': self.R2}
    a = xr.DataArray(np.asarray(opts)[idx], dims=['group', 'lead_time',
                                                  'cost_loss_ratio'])
    for d in 'gl':
      if d not in dims:
        a = a.isel({names[d]: 0}, drop=True)
    a = a.transpose(*[names[d] for d in dims])
    return a.assign_coords({names[d]: co[names[d]] for d in dims
                            if labels or d == 'r'})

  def metric(self, th, optimal, form, nearest=False, flip=None):
    if form == 'dict':
      optimal = {'w': flip if flip is not None else optimal, 'v': optimal}
    elif form == 'dataset':
      optimal = xr.Dataset({'v': optimal, 'w': flip if flip is not None
                            else optimal})
    return probabilistic.RelativeEconomicValue(
        probability_thresholds=np.asarray(th), statistic_suffix='x',
        cost_loss_ratios=self.R2, optimal_thresholds=optimal,
        optimal_thresholds_select_nearest=nearest)

  def state(self, th):
    pred, targ, p, y = self.world()
    m = probabilistic.RelativeEconomicValue(
        probability_thresholds=np.asarray(th), statistic_suffix='x',
        cost_loss_ratios=self.R2)
    return mu.state_of({'m': m}, pred, targ, []), self.table(p, y, th)

  def verify(self, got, table, idx, what):
    """idx: option numbers [var, group, lead, ratio]."""
    for v, var in enumerate('vw'):
      g = got[var]
      check(set(g.dims) == {'group', 'lead_time', 'cost_loss_ratio'},
            f'{what}: dims {g.dims}')
      check('threshold' not in g.dims, f'{what}: {g.dims}')
      check(np.allclose(g.cost_loss_ratio.values, self.R2), f'{what}: ratios')
      for d, l in (('group', self.GROUPS), ('lead_time', self.LEADS)):
        check(d in g.coords and list(g[d].values) == list(l),
              f'{what}: labels of {d}')
      a = g.transpose('group', 'lead_time', 'cost_loss_ratio').values
      for i, l, r in itertools.product(range(2), repeat=3):
        want = table[v, i, l, idx[v][i, l, r], r]
        check(near(a[i, l, r], want),
              f'{what}: {var} group {i} lead {l} ratio {r}: {a[i, l, r]}, '
              f'expected {want}')

  def _select(self, case, rec):
    how, dims, form = case['how'], case['dims'], case['form']
    th = self.TH
    opts = options(th)
    state, table = self.state(th)
    sel = list(self.selections(dims, opts))
    step = 1
    if not self.thorough and len(sel) > 16:
      step = 5 if how == 'jax' else 11 if how == 'linear' else 1
      if form != 'array' or len(sel) > 64:
        step *= 3
      sel = sel[::step]
    for i, (full, small) in enumerate(sel):
      a = self.threshold_array(full, dims, opts)
      other = full
      flip = None
      if form != 'array':
        other = (len(opts) - 1 - full)
        flip = self.threshold_array(other, dims, opts)
      m = self.metric(th, a, form, flip=flip)
      before = fingerprint([a])
      got = self.evaluate(how, m, state)
      rec.transition()
      rec.nodes += 1
      check(fingerprint([a]) == before, 'inputs changed')
      what = f'{case} {small.tolist()}'
      self.verify(got, table, (full, other), what)
      if i % 16 == 0:  # thresholds without labels along the other dimensions
        got = self.evaluate(how, self.metric(
            th, self.threshold_array(full, dims, opts, labels=False), 'array'),
                            state)
        self.verify(got, table, (full, full), what + ' unlabelled')
        rec.transition()
      rec.trace(1, (what,))

  def _nearest(self, case, rec):
    """Every threshold on a grid gives the nearest available one."""
    how = case['how']
    for th in ([0.25, 0.75], [0.5], [0.1, 0.2, 0.8]):
      state, table = self.state(th)
      opts = np.array(options(th))
      grid = [g / 100 for g in range(3, 100, 6 if self.thorough else 12)]
      for a, b in itertools.product(grid, repeat=2):
        if how != 'numpy' and not self.thorough and (a > b or b - a > 0.3):
          continue
        picks = []
        for x in (a, b):
          d = np.abs(opts - x)
          if np.sum(d - d.min() < 1e-9) > 1:
            picks = None
            break
          picks.append(int(np.argmin(d)))
        if picks is None:
          continue
        arr = xr.DataArray([a, b], dims='cost_loss_ratio',
                           coords={'cost_loss_ratio': self.R2})
        got = self.evaluate(how, self.metric(th, arr, 'array', nearest=True),
                            state)
        idx = np.broadcast_to(np.array(picks), (2, 2, 2))
        self.verify(got, table, (idx, idx), f'{case} {th} {a} {b}')
        rec.transition()
        rec.nodes += 1
        rec.trace(1, (how, len(th), a, b))
      # Exactly available ones are not moved.
      for i, j in itertools.product(range(len(opts)), repeat=2):
        arr = xr.DataArray([opts[i], opts[j]], dims='cost_loss_ratio',
                           coords={'cost_loss_ratio': self.R2})
        got = self.evaluate(how, self.metric(th, arr, 'dict', nearest=True),
                            state)
        idx = np.broadcast_to(np.array([i, j]), (2, 2, 2))
        self.verify(got, table, (idx, idx), f'{case} {th} {i} {j}')
        rec.transition()

  def _unavailable(self, case, rec):
    """Thresholds that were not evaluated are rejected unless asked for."""
    how = case['how']
    th = [0.25, 0.75]
    state, _ = self.state(th)
    for a, b in itertools.product((0.25, 0.3, 0.2500001, 0.9, np.nan),
                                  repeat=2):
      if a == b == 0.25:
        continue
      arr = xr.DataArray([a, b], dims='cost_loss_ratio',
                         coords={'cost_loss_ratio': self.R2})
      for form in ('array', 'dict'):
        rec.transition()
        rec.nodes += 1
        try:
          got = self.evaluate(how, self.metric(th, arr, form), state)
        except Exception:  # pylint: disable=broad-except
          rec.trace(1, (how, a, b, form))
          continue
        fail(f'{how}: thresholds {a}, {b} give {got["v"].values}')
    # A variable without thresholds.
    arr = xr.DataArray([0.25, 0.75], dims='cost_loss_ratio',
                       coords={'cost_loss_ratio': self.R2})
    m = probabilistic.RelativeEconomicValue(
        probability_thresholds=np.asarray(th), statistic_suffix='x',
        cost_loss_ratios=self.R2, optimal_thresholds={'v': arr})
    try:
      got = self.evaluate(how, m, state)
    except Exception:  # pylint: disable=broad-except
      return
    fail(f'thresholds of {list(got)} when only those of v are given')

  def _labels(self, case, rec):
    """Thresholds are for the labels of the other dimensions."""
    how = case['how']
    th = self.TH
    opts = options(th)
    state, table = self.state(th)
    step = 1 if self.thorough else 11 if how == 'numpy' else 37
    for full, _ in list(self.selections('lr', opts))[1::step]:
      a = self.threshold_array(full, 'lr', opts)
      for name, b in (('reversed', a.isel(lead_time=[1, 0])),
                      ('some', a.isel(lead_time=[1])),
                      ('others', a.assign_coords(
                          lead_time=self.LEADS + self.LEADS[0])),
                      ('more', xr.concat([a, a.isel(lead_time=[0]).assign_coords(
                          lead_time=self.LEADS[1:] * 2)], 'lead_time'))):
        m = self.metric(th, b, 'array')
        rec.transition()
        rec.nodes += 1
        try:
          got = self.evaluate(how, m, state)
        except Exception:  # pylint: disable=broad-except
          rec.trace(1, (how, name, 'rejected'))
          continue
        for v, var in enumerate('vw'):
          g = got[var]
          for l, lead in enumerate(self.LEADS):
            if lead not in g.lead_time.values:
              continue
            x = g.sel(lead_time=lead).transpose('group', 'cost_loss_ratio')
            for i, r in itertools.product(range(2), repeat=2):
              want = table[v, i, l, full[i, l, r], r]
              if lead in b.lead_time.values:
                check(near(x.values[i, r], want) or np.isnan(x.values[i, r]),
                      f'{case} {name}: {x.values[i, r]}, expected {want}')
              else:
                check(np.isnan(x.values[i, r]), f'{case} {name}: value '
                      f'{x.values[i, r]} without a threshold for {lead}')
        rec.trace(1, (how, name))

  def _best(self, case, rec):
    """The best thresholds of one evaluation, used in another one."""
    for th in ([0.25, 0.75], [0.75, 0.25], [0.5], [0.1, 0.3, 0.5, 0.9]):
      state, table = self.state(th)
      free = probabilistic.RelativeEconomicValue(
          probability_thresholds=np.asarray(th), statistic_suffix='x',
          cost_loss_ratios=self.R2)
      res = state.sum_along_dims(['unit']).metric_values({'m': free})
      per = {v: res[f'm.{v}'].idxmax('threshold') for v in 'vw'}
      for how in ('numpy', 'jax', 'linear'):
        m = probabilistic.RelativeEconomicValue(
            probability_thresholds=np.asarray(th), statistic_suffix='x',
            cost_loss_ratios=self.R2, optimal_thresholds=per)
        got = self.evaluate(how, m, state)
        rec.transition()
        rec.nodes += 1
        for v, var in enumerate('vw'):
          a = got[var].transpose('group', 'lead_time', 'cost_loss_ratio').values
          want = table[v].max(axis=2)
          check(np.allclose(a, want, atol=2e-5), f'{how} {th}: best {a}, '
                f'expected {want}')
        rec.trace(1, (how, len(th)))


CHECK = C30
