"""C28: baseline comparisons pair a metric with its own baseline."""

import itertools

import numpy as np
import xarray as xr

from checks import c25
from mc import core
from mc import infer
from mc import metricutil as mu
from mc import zoo
from mc.xrutil import check, close, fail, fingerprint, same_da
from weatherbenchX import aggregation
from weatherbenchX.metrics import base as mb
from weatherbenchX.statistical_inference import baseline_comparison as bc
from weatherbenchX.statistical_inference import bootstrap
from weatherbenchX.statistical_inference import t_test

UNIT = infer.UNIT


def ratio(main, base):
  return {k: main[k] / base[k] for k in main.keys() & base.keys()}


def packed(main, base):
  """Keeps both values apart."""
  return {k: main[k] * 1000 + base[k] for k in main.keys() & base.keys()}


def relative(main, base):
  return {f'{k}_rel': (main[k] - base[k]) / base[k]
          for k in main.keys() & base.keys()}


COMPARISONS = {'difference': bc.difference, 'ratio': ratio, 'packed': packed,
               'relative': relative}


class Odd(mb.PerVariableMetric):
  """a - 2 b of statistics with names chosen to confuse prefixes."""

  def __init__(self, first, second, a, b):
    self._n = (first, second)
    self._s = (a, b)

  @property
  def statistics(self):
    return {self._n[0]: self._s[0], self._n[1]: self._s[1]}

  def _values_from_mean_statistics_per_variable(self, statistic_values):
    return (statistic_values[self._n[0]] - 2 * statistic_values[self._n[1]])


class Named(mb.Statistic):
  """A statistic with any unique name."""

  def __init__(self, name):
    self._name = name

  @property
  def unique_name(self):
    return self._name

  def compute(self, predictions, targets):
    raise NotImplementedError


class Hand(mb.Metric):
  """A comparison written by hand for statistics tagged Ma, Mb, Ba, Bb."""

  def __init__(self, f, g, comparison):
    self._f, self._g, self._c = f, g, comparison

  @property
  def statistics(self):
    return {f'{side}{t}': infer.Stat(f'{side}{t}') for side in 'MB'
            for t in 'ab'}

  def values_from_mean_statistics(self, statistic_values):
    s = statistic_values
    m = {v: self._f(s['Ma'][v], s['Mb'][v]) for v in s['Ma']}
    b = {v: self._g(s['Ba'][v], s['Bb'][v]) for v in s['Ba']}
    return self._c(m, b)


def _mean(a, b):
  del b
  return a


def _root(a, b):
  del b
  import xarray.ufuncs as xu
  return xu.sqrt(a)


def _ratio(a, b):
  return a / b


FUNCS = {'mean': _mean, 'root': _root, 'ratio': _ratio,
         'meanb': lambda a, b: b}


def methods(thorough):
  out = {
      'iid': (bootstrap.IIDBootstrap, lambda: dict(
          experimental_unit_dim=UNIT, n_replicates=7)),
      'cluster': (bootstrap.ClusterBootstrap, lambda: dict(
          experimental_unit_coord=UNIT, n_replicates=7)),
      'stationary': (bootstrap.StationaryBootstrap, lambda: dict(
          experimental_unit_dim=UNIT, n_replicates=7, mean_block_length=2)),
      'auto': (bootstrap.StationaryBootstrap, lambda: dict(
          experimental_unit_dim=UNIT, n_replicates=7)),
      't_iid': (t_test.IID, lambda: dict(experimental_unit_dim=UNIT)),
      'geer': (t_test.GeerAR2Corrected, lambda: dict(
          experimental_unit_dim=UNIT)),
      'ewc': (t_test.LazarusHACEWC, lambda: dict(experimental_unit_dim=UNIT)),
  }
  del thorough
  return out


def values(n, k, seed):
  t = np.arange(n)[:, None] + seed * 3
  j = np.arange(k)[None]
  a = 2.0 + (t * 7 + j * 3 + seed) % 5 + np.sin(t + j)
  b = 3.0 + (t * 5 + j + 2 * seed) % 4 + np.cos(2 * t + j)
  return a, b


def all_results(m, alpha=0.1, null=0.0):
  lo, hi = m.confidence_intervals(alpha)
  return {'point': m.point_estimates(), 'se': m.standard_error_estimates(),
          'lo': lo, 'hi': hi, 'p': m.p_values(null),
          'sig': m.significance_tests(null, alpha)}


class C28(core.Check):
  id = 'C28'
  rule = ('all library metrics and ordered pairs of them, all pairs of '
          'variable sets, all confusing names, all comparisons x metrics x '
          'inference methods against comparisons written by hand')
  assumptions = ('both systems have the same non-unit labels',)

  def cases(self):
    for name, _, _ in zoo.catalogue():
      yield {'k': 'catalogue', 'm': name}
    names = ('A', 'main_A', 'baseline_A', 'main_', 'baseline_', 'main',
             'main_baseline_A', 'baseline_main_A')
    for x, y in itertools.permutations(names, 2):
      yield {'k': 'names', 'x': x, 'y': y}
    for c in COMPARISONS:
      yield {'k': 'variables', 'c': c}
      yield {'k': 'metrics', 'c': c}
    for m in methods(self.thorough):
      for c in COMPARISONS:
        for f, g in itertools.product(FUNCS, repeat=2):
          if f != g and c != 'difference' and not self.thorough:
            continue
          yield {'k': 'inference', 'm': m, 'c': c, 'f': f, 'g': g}
      yield {'k': 'self', 'm': m}
      yield {'k': 'units', 'm': m}
    for kind in ('iid', 'cluster', 'stationary'):
      for n in (2, 3, 4):
        yield {'k': 'paired', 'kind': kind, 'n': n}
    yield {'k': 'states'}

  def run_case(self, case, rec):
    getattr(self, '_' + case['k'])(case, rec)

  def _catalogue(self, case, rec):
    """Every library metric alone and next to a few others."""
    cat = {n: (k, f) for n, k, f in zoo.catalogue()}
    kind, make = cat[case['m']]
    p, t = zoo.data(kind)
    rev = lambda d: {v: x.isel(latitude=slice(None, None, -1)).assign_coords(
        latitude=x.latitude) for v, x in d.items()}
    p2 = rev(p)
    group = {case['m']: make()}
    others = [n for n, (k, _) in cat.items() if k == kind and n != case['m']]
    i = sorted(cat).index(case['m'])
    pick = others if self.thorough else [
        others[(i + 3 * s) % len(others)] for s in range(3) if others]
    for other in dict.fromkeys(pick):
      pair = {**group, other: cat[other][1]()}
      # the known defects of C11 (shared statistics) are not repeated here
      if 'ACC' in case['m'] + other or 'Activity' in case['m'] + other:
        pair = group
      for order in (list(pair), list(pair)[::-1]):
        mm = {n: pair[n] for n in order}
        sm = mu.state_of(mm, p, t, ['init_time', 'latitude', 'longitude'])
        sb = mu.state_of(mm, p2, t, ['init_time', 'latitude', 'longitude'])
        vm, vb = sm.metric_values(mm), sb.metric_values(mm)
        got = bc.combine_aggregation_states(sm, sb).metric_values(
            bc.for_metrics(mm))
        rec.transition()
        rec.nodes += 1
        check(set(got.data_vars) == set(vm.data_vars),
              f'results {set(got.data_vars)}, expected {set(vm.data_vars)}')
        for v in vm.data_vars:
          same_da(got[v], vm[v] - vb[v], f'{order}: {v}')
        rec.trace(1, (tuple(order),))

  def _names(self, case, rec):
    """Statistic and unique names that look like prefixes."""
    x, y = case['x'], case['y']
    da = lambda v: xr.DataArray(np.array([1.0, 2.0]) * v, dims='q',
                                coords={'q': ['s', 't']})
    for un in ((x, y), ('S1', 'S2'), (f'main_{x}', f'baseline_{y}')):
      for ln in ((x, y), (y, x), ('one', 'two')):
        m = Odd(ln[0], ln[1], Named(un[0]), Named(un[1]))
        other = Odd(ln[1], ln[0], Named(un[0]), Named(un[1]))
        st = lambda p, q: aggregation.AggregationState(
            {un[0]: {'v': da(p) * 3}, un[1]: {'v': da(q) * 4}},
            {un[0]: {'v': da(0) + 3}, un[1]: {'v': da(0) + 4}})
        base = np.array([1.0, 2.0])
        for metrics, baselines, want in (
            ({x: m, y: other}, None, {x: (5 - 2 * 7) - (11 - 2 * 17),
                                      y: (5 - 2 * 7) - (11 - 2 * 17)}),
            ({x: m}, {x: other, y: m}, {x: (5 - 14) - (11 - 34)})):
          comb = bc.combine_aggregation_states(st(5, 7), st(11, 17))
          got = comb.metric_values(bc.for_metrics(metrics, baselines))
          rec.transition()
          rec.nodes += 1
          check(set(got.data_vars) == {f'{k}.v' for k in want},
                f'results {set(got.data_vars)}')
          for k, w in want.items():
            check(close(got[f'{k}.v'].values, base * w, 1e-12, 0),
                  f'unique names {un}, names {ln}: {got[f"{k}.v"].values}, '
                  f'expected {base * w}')
          # A comparison of comparisons
          two = bc.combine_aggregation_states(
              bc.combine_aggregation_states(st(5, 7), st(11, 17)),
              bc.combine_aggregation_states(st(1, 2), st(3, 1)))
          got = two.metric_values(bc.for_metrics(bc.for_metrics({'z': m})))
          w = ((5 - 14) - (11 - 34)) - ((1 - 4) - (3 - 2))
          check(close(got['z.v'].values, base * w, 1e-12, 0),
                f'nested comparison {got["z.v"].values}, expected {base * w}')
        rec.trace(1, (un, ln))

  def _variables(self, case, rec):
    """All pairs of variable sets and orders of both systems."""
    comp = COMPARISONS[case['c']]
    sets = [s for r in range(1, 4) for s in itertools.permutations('vwx', r)]
    metrics = {'mean': infer.Mean('a'), 'ratio': infer.Ratio()}
    num = {'v': 2.0, 'w': 3.0, 'x': 5.0}
    mk = lambda names, s: aggregation.AggregationState(
        {t: {v: xr.DataArray(np.array([num[v] * s + i, 7.0 * s]), dims='q')
             for v in names} for i, t in enumerate(('Stat_a', 'Stat_b'))},
        {t: {v: xr.DataArray(np.array([2.0, 4.0]), dims='q') for v in names}
         for t in ('Stat_a', 'Stat_b')})
    for x, y in itertools.product(sets, repeat=2):
      sm, sb = mk(x, 1.0), mk(y, 11.0)
      got = bc.combine_aggregation_states(sm, sb).metric_values(
          bc.for_metrics(metrics, None, comp))
      rec.transition()
      rec.nodes += 1
      vm, vb = sm.metric_values(metrics), sb.metric_values(metrics)
      want = {}
      for m in metrics:
        r = comp({v: vm[f'{m}.{v}'] for v in x}, {v: vb[f'{m}.{v}'] for v in y})
        want.update({f'{m}.{v}': a for v, a in r.items()})
      check(set(got.data_vars) == set(want),
            f'{x} and {y}: results {set(got.data_vars)}, expected {set(want)}')
      for v, a in want.items():
        same_da(got[v], a, f'{x} and {y}: {v}')
      rec.trace(1, (x, y))

  def _metrics(self, case, rec):
    """Which metrics are compared with which."""
    comp = COMPARISONS[case['c']]
    n, k = 4, 2
    mk = lambda seed: infer.state(
        {t: {'v': x} for t, x in zip('ab', values(n, k, seed))},
        {t: {'v': np.ones((n, k))} for t in 'ab'}, infer.dates(n), (UNIT, 's')
    ).sum_along_dims([UNIT])
    sm, sb = mk(0), mk(1)
    every = infer.METRICS
    vm, vb = sm.metric_values(every), sb.metric_values(every)
    subsets = [s for r in range(1, 4) for s in
               itertools.permutations(every, r)]
    for s in subsets:
      for u in [None] + (subsets if self.thorough else subsets[::3]):
        # baseline metrics of the same key may be other metrics
        metrics = {f'k{i}': every[m] for i, m in enumerate(s)}
        base = None if u is None else {
            f'k{i}': every[m] for i, m in enumerate(u)}
        got = bc.combine_aggregation_states(sm, sb).metric_values(
            bc.for_metrics(metrics, base, comp))
        rec.transition()
        rec.nodes += 1
        pairs = list(zip(s, s if u is None else u))
        want = {}
        for i, (p, q) in enumerate(pairs):
          for v, a in comp({'v': vm[f'{p}.v']}, {'v': vb[f'{q}.v']}).items():
            want[f'k{i}.{v}'] = a
        check(set(got.data_vars) == set(want), f'{s} {u}: {set(got)}')
        for v, a in want.items():
          same_da(got[v], a, f'{s} and {u}: {v}')
      rec.trace(1, s)

  def sides(self, n, k, weights='ones', var=('v', 'w')):
    out = []
    for side in (0, 1):
      a, b = values(n, k, side)
      w = np.ones((n, k)) if weights == 'ones' else (
          0.5 + (np.arange(n)[:, None] + side) % 3 + 0 * a)
      out.append(infer.state(
          {'a': {v: (a + i) * w for i, v in enumerate(var)},
           'b': {v: (b + 2 * i) * w for i, v in enumerate(var)}},
          {t: {v: w for v in var} for t in 'ab'}, infer.dates(n), (UNIT, 's'),
          {'s': [3, 1, 2][:k]}))
    return out

  def _inference(self, case, rec):
    cls, kwargs = methods(self.thorough)[case['m']]
    comp = COMPARISONS[case['c']]
    n, k = 9, 2
    for weights in ('ones', 'mixed'):
      sm, sb = self.sides(n, k, weights)
      retag = lambda st, side: (
          {f'Stat_{side}{t[-1]}': v for t, v in
           st.sum_weighted_statistics.items()},
          {f'Stat_{side}{t[-1]}': v for t, v in st.sum_weights.items()})
      (m1, w1), (m2, w2) = retag(sm, 'M'), retag(sb, 'B')
      hand_state = aggregation.AggregationState({**m1, **m2}, {**w1, **w2})
      hand = Hand(FUNCS[case['f']], FUNCS[case['g']], comp)
      np.random.seed(5)
      want = all_results(cls({'m': hand}, hand_state, **kwargs()))
      base = None if case['f'] == case['g'] else {'m': infer.METRICS[case['g']]}
      np.random.seed(5)
      got = all_results(cls.for_baseline_comparison(
          {'m': infer.METRICS[case['f']]}, sm, sb, base, comp, **kwargs()))
      rec.transition()
      rec.nodes += 1
      for what in want:
        check(set(got[what]['m']) == set(want[what]['m']),
              f'{what}: variables {set(got[what]["m"])}')
        for v in want[what]['m']:
          x, y = got[what]['m'][v], want[what]['m'][v]
          check(set(x.dims) == {'s'} and set(y.dims) == {'s'},
                f'{what}: dims {x.dims}')
          x, y = x.sel(s=[1, 3]).values, y.sel(s=[1, 3]).values
          if what == 'sig':
            check(np.array_equal(x, y), f'{case["m"]} {what} of {v}: {x}, {y}')
          else:
            check(close(x, y, 1e-4, 1e-5),
                  f'{case["m"]} {what} of {v}: {x}, expected {y}')
      # point estimates from the values of both systems
      vm = sm.sum_along_dims([UNIT]).metric_values(
          {'m': infer.METRICS[case['f']]})
      vb = sb.sum_along_dims([UNIT]).metric_values(
          {'m': infer.METRICS[case['g']]})
      direct = comp({v: vm[f'm.{v}'] for v in 'vw'},
                    {v: vb[f'm.{v}'] for v in 'vw'})
      for v, y in direct.items():
        x = got['point']['m'][v]
        check(close(x.sel(s=[1, 3]).values, y.sel(s=[1, 3]).values, 1e-4, 1e-5),
              f'{case["m"]} point estimate of {v}: {x.values}, {y.values}')
      rec.trace(1, (case['m'], case['c'], case['f'], case['g'], weights))

  def _self(self, case, rec):
    """A system against itself, and swapped systems."""
    cls, kwargs = methods(self.thorough)[case['m']]
    n, k = 9, 2
    for weights in ('ones', 'mixed'):
      sm, sb = self.sides(n, k, weights)
      for name, metric in infer.METRICS.items():
        def run(x, y, comp=bc.difference, null=0.0):
          np.random.seed(5)
          rec.transition()
          return all_results(cls.for_baseline_comparison(
              {'m': metric}, x, y, comparison=comp, **kwargs()), null=null)
        if case['m'] != 'auto':  # the block length of constants is undefined
          for comp, value in (('difference', 0.0), ('ratio', 1.0)):
            r = run(sm, sm, COMPARISONS[comp], value)
            for v in 'vw':
              for what, w in (('point', value), ('lo', value), ('hi', value),
                              ('se', 0.0)):
                x = r[what]['m'][v].values
                if case['m'] == 'geer' and what != 'point':
                  x = x[np.isfinite(x)]
                check(close(x, np.full(x.shape, w), 0, 1e-5),
                      f'{case["m"]}: {what} of the {comp} of {name} of a '
                      f'system with itself: {x}')
              if comp == 'difference' and case['m'] in (
                  'iid', 'cluster', 'stationary'):
                check((r['p']['m'][v].values == 1).all() and
                      not r['sig']['m'][v].values.any(),
                      f'{case["m"]}: a system differs from itself with '
                      f'p={r["p"]["m"][v].values}')
        x, y = run(sm, sb), run(sb, sm)
        for v in 'vw':
          for p, q, sign in (('point', 'point', -1), ('lo', 'hi', -1),
                             ('hi', 'lo', -1), ('se', 'se', 1), ('p', 'p', 1)):
            g, w = x[p]['m'][v].values, sign * y[q]['m'][v].values
            check(close(g, w, 1e-4, 1e-5),
                  f'{case["m"]}: {p} of {name} is {g}, with systems swapped '
                  f'{w}')
        rec.nodes += 1
        rec.trace(1, (case['m'], name, weights))

  def _units(self, case, rec):
    """Systems with other units are rejected, labels must match."""
    cls, kwargs = methods(self.thorough)[case['m']]
    n = 9
    sm, sb = self.sides(n, 2)
    kw = kwargs()
    for what, f in (
        ('shifted', lambda x: x.assign_coords(
            {UNIT: x[UNIT] + np.timedelta64(1, 'h')})),
        ('reversed', lambda x: x.isel({UNIT: slice(None, None, -1)})),
        ('fewer', lambda x: x.isel({UNIT: slice(1, None)})),
        ('one other', lambda x: x.assign_coords({UNIT: np.where(
            np.arange(n) == 4, x[UNIT].values + np.timedelta64(1, 'h'),
            x[UNIT].values)})),
        ('unlabelled', lambda x: x.drop_vars(UNIT))):
      for main, base in ((sm, sb.map(f)), (sm.map(f), sb)):
        rec.transition()
        rec.nodes += 1
        try:
          cls.for_baseline_comparison(infer.METRICS, main, base, **kw)
        except Exception as e:  # pylint: disable=broad-except
          rec.trace(1, (case['m'], what, type(e).__name__))
        else:
          fail(f'{case["m"]}: {what} units of one system must be rejected')
    # the order of variables or of other dimensions does not matter
    np.random.seed(1)
    want = all_results(cls.for_baseline_comparison(
        {'m': infer.Ratio()}, sm, sb, **kw))
    for order in ((UNIT, 's'), ('s', UNIT)):
      for lab in ([3, 1], [1, 3]):
        np.random.seed(1)
        other = sb.map(lambda x: x.sel(s=lab).transpose(*order))
        other = aggregation.AggregationState(
            {t: dict(reversed(list(v.items()))) for t, v in
             reversed(list(other.sum_weighted_statistics.items()))},
            {t: dict(reversed(list(v.items()))) for t, v in
             other.sum_weights.items()})
        got = all_results(cls.for_baseline_comparison(
            {'m': infer.Ratio()}, sm, other, **kw))
        rec.transition()
        for q in want:
          for v in 'vw':
            x, y = got[q]['m'][v], want[q]['m'][v]
            check(close(x.sel(s=[1, 3]).values.astype(float),
                        y.sel(s=[1, 3]).values.astype(float), 1e-4, 1e-5),
                  f'{case["m"]} {q} depends on the order of labels of the '
                  f'baseline: {x.values}, {y.values}')
        rec.trace(1, (case['m'], order, tuple(lab)))

  def _paired(self, case, rec):
    """Both systems are resampled with the same draws."""
    kind, n = case['kind'], case['n']
    r = n**n if kind != 'stationary' else n * (2 * n)**(n - 1)
    ident = (n + 1.0)**np.arange(n)[:, None] * np.ones((1, 2))
    st = infer.state({'id': {'v': ident}}, {'id': {'v': np.ones((n, 2))}},
                     infer.dates(n), (UNIT, 's'))
    big = 1e6
    comp = lambda m, b: {'v': m['v'] * big + b['v']}
    d = c25.Design(r, 2)
    kw = dict(n_replicates=r)
    cls = {'iid': bootstrap.IIDBootstrap, 'cluster': bootstrap.ClusterBootstrap,
           'stationary': bootstrap.StationaryBootstrap}[kind]
    kw['experimental_unit_coord' if kind == 'cluster' else
       'experimental_unit_dim'] = UNIT
    if kind == 'stationary':
      kw['mean_block_length'] = 2
    with d.active():
      b = cls.for_baseline_comparison({'m': infer.Mean('id')}, st, st,
                                      comparison=comp, **kw)
    rec.transition(r)
    rec.nodes += r
    y = b.resampled_values['m']['v'].values * n
    x = np.rint(y / (big * (1 + 1 / big)))
    check(close(y, x * (big + 1), 1e-9, 0.5),
          f'{kind}: system and baseline use different draws')
    rec.trace(1, (kind, n, len(np.unique(x))))

  def _states(self, case, rec):
    """Combined states hold both states, unchanged."""
    sm, sb = self.sides(3, 2)
    fm, fb = fingerprint(sm), fingerprint(sb)
    comb = bc.combine_aggregation_states(sm, sb)
    rec.transition()
    rec.nodes += 1
    for part in ('sum_weighted_statistics', 'sum_weights'):
      c = getattr(comb, part)
      check(len(c) == 4, f'statistics {list(c)}')
      for side, st in (('main', sm), ('baseline', sb)):
        for t, per in getattr(st, part).items():
          stat = [s for s in bc.BaselineComparison(
              infer.Mean(t[-1])).statistics.values()
                  if s.unique_name.startswith(side)]
          check(len(stat) == 1, f'statistics for {side}')
          for v, a in per.items():
            same_da(c[stat[0].unique_name][v], a, f'{side} {t} {v}',
                    dim_order=True)
    check(fingerprint(sm) == fm and fingerprint(sb) == fb, 'inputs changed')
    # states of several parts: combining commutes with sums over parts
    a, b = sm, self.sides(3, 2, 'mixed')[0]
    x = bc.combine_aggregation_states(a + b, sb + sm)
    y = (bc.combine_aggregation_states(a, sb) +
         bc.combine_aggregation_states(b, sm))
    m = bc.for_metrics(infer.METRICS)
    gx, gy = x.metric_values(m), y.metric_values(m)
    for v in gx.data_vars:
      same_da(gx[v], gy[v], f'sums of combined states: {v}')
    rec.trace(1, 'states')


CHECK = C28
