"""C25: bootstrap inference follows from its resamples."""

import collections
import contextlib
import itertools

import numpy as np
import xarray as xr
import xarray.ufuncs as xu

from mc import core
from mc import infer
from mc import zoo
from mc import metricutil as mu
from mc.xrutil import check, close, fail
from weatherbenchX.metrics import base as mb
from weatherbenchX.statistical_inference import bootstrap

UNIT = infer.UNIT


class Design:
  """Answers random draws such that R replicates enumerate all outcomes.

  Every uniform integer below k is a digit of radix k, every uniform float a
  digit of radix `levels` (mid points), every multinomial n integer digits.
  Digits are assigned in the order of the draws; after R combinations are
  exhausted, the next sample starts anew.  Draws that do not fit are answered
  by the real generator and `exact` becomes False.
  """

  def __init__(self, replicates, levels):
    self.r = replicates
    self.levels = levels
    self.stride = 1
    self.exact = True
    self.samples = 0
    self.real = {n: getattr(np.random, n) for n in (
        'randint', 'rand', 'random', 'random_sample', 'uniform', 'multinomial',
        'choice', 'default_rng')}

  def digit(self, k):
    if self.r % (self.stride * k):
      self.exact = False
      return None
    d = np.arange(self.r) // self.stride % k
    self.stride *= k
    if self.stride == self.r:
      self.stride = 1
      self.samples += 1
    return d

  def shape(self, size):
    if size is None:
      return None
    s = (size,) if np.ndim(size) == 0 else tuple(size)
    return s if s.count(self.r) >= 1 else None

  def fill(self, s, k):
    """Array of shape s whose axis of size R enumerates digits of radix k."""
    ax = s.index(self.r)
    rest = s[:ax] + s[ax + 1:]
    cols = [self.digit(k) for _ in range(int(np.prod(rest, dtype=int)))]
    if any(c is None for c in cols):
      return None
    return np.moveaxis(np.stack(cols, -1).reshape((self.r,) + rest), 0, ax)

  def randint(self, low, high=None, size=None, dtype=int, endpoint=False):
    lo, hi = (0, low) if high is None else (low, high)
    s = self.shape(size)
    x = self.fill(s, int(hi - lo + endpoint)) if s else None
    if x is None:
      self.exact = False
      return self.real['randint'](lo, hi + endpoint, size=size)
    return (lo + x).astype(dtype)

  def random(self, size=None, dtype=float):
    s = self.shape(size)
    x = self.fill(s, self.levels) if s else None
    if x is None:
      self.exact = False
      return self.real['random_sample'](size)
    return (x + 0.5) / self.levels

  def rand(self, *shape):
    return self.random(shape or None)

  def uniform(self, low=0.0, high=1.0, size=None):
    return low + (high - low) * self.random(size)

  def choice(self, a, size=None, replace=True, p=None):
    a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
    if not replace or (p is not None and not np.allclose(p, 1 / len(a))):
      self.exact = False
      return self.real['choice'](a, size, replace, p)
    return a[self.randint(len(a), size=size)]

  def multinomial(self, n, pvals, size=None):
    k = len(pvals)
    s = self.shape(size)
    if s is None or not np.allclose(pvals, 1 / k):
      self.exact = False
      return self.real['multinomial'](n, pvals, size)
    cols = [self.fill(s, k) for _ in range(n)]
    if any(c is None for c in cols):
      self.exact = False
      return self.real['multinomial'](n, pvals, size)
    return sum((c[..., None] == np.arange(k)).astype(int) for c in cols)

  def default_rng(self, *a, **k):
    return self

  integers = randint
  random_sample = random

  @contextlib.contextmanager
  def active(self):
    np.random.seed(1)
    try:
      for n in self.real:
        setattr(np.random, n, getattr(self, n))
      yield self
    finally:
      for n, f in self.real.items():
        setattr(np.random, n, f)


class Packed(mb.PerVariableMetric):
  """scale * mean(id) + sqrt(mean(a)) / mean(b): identifies its draws."""

  def __init__(self, scale):
    self._scale = scale

  @property
  def statistics(self):
    return {'id': infer.Stat('id'), 'a': infer.Stat('a'), 'b': infer.Stat('b')}

  def _values_from_mean_statistics_per_variable(self, statistic_values):
    s = statistic_values
    return self._scale * s['id'] + xu.sqrt(s['a']) / s['b']


class Combined(mb.Metric):
  """Every result is made of several variables of different statistics."""

  def __init__(self, scale):
    self._scale = scale

  @property
  def statistics(self):
    return {'id': infer.Stat('id'), 'a': infer.Stat('a'), 'b': infer.Stat('b')}

  def values_from_mean_statistics(self, statistic_values):
    s = statistic_values
    out = {**s['a'], **s['b']}
    return {v: self._scale * s['id']['x'] + x + s['a']['u']
            for v, x in out.items()}


SCALE = 1000.0


def split(x, n):
  """Packed values -> (sum of ids, f)."""
  f = np.mod(x, SCALE / n)
  return np.rint((x - f) / (SCALE / n)), f


def series(n, k, kind):
  """Values and weights (a, wa, b, wb) of k series of n units."""
  t = np.arange(n)[:, None]
  j = np.arange(k)[None]
  a = 1.0 + (t * (3 + j) + j) % 7
  b = 2.0 + (t * 5 + j * 2) % 5
  one = np.ones((n, k))
  if kind == 'ones':
    wa = wb = one
  elif kind == 'mixed':
    wa, wb = 0.5 + (t + j) % 3, 1.0 + (2 * t + j) % 4
  else:  # one unit without any weight in some of the series
    wa = np.where((t == 1) & (j == 0), 0.0, 1.0) + 0 * one
    wb = wa
  return a, wa, b, wb


def markov(n, p):
  """Exact distribution of counts of the stationary bootstrap."""
  dist = collections.Counter()
  paths = {(i,): 1 / n for i in range(n)}
  for _ in range(n - 1):
    new = collections.Counter()
    for path, q in paths.items():
      for i in range(n):
        prob = p / n + (1 - p if i == (path[-1] + 1) % n else 0)
        if prob:
          new[path + (i,)] += q * prob
    paths = new
  seqs = dict(paths)
  for path, q in paths.items():
    dist[tuple(path.count(i) for i in range(n))] += q
  return dist, seqs


def uniform_counts(n, k):
  """Distribution of counts of n draws out of k."""
  dist = collections.Counter()
  for path in itertools.product(range(k), repeat=n):
    dist[tuple(path.count(i) for i in range(k))] += k**-n
  return dist


ALPHAS = (0.001, 0.02, 0.05, 0.1, 0.2, 0.32, 0.5, 0.75, 1.0)


def replicate_dim(da, dims):
  extra = [d for d in da.dims if d not in dims]
  check(len(extra) == 1, f'resampled values have dims {da.dims}, expected '
        f'{dims} and one more')
  return extra[0]


class C25(core.Check):
  id = 'C25'
  rule = ('all outcomes of the random draws (full factorial design of every '
          'draw) for two to four units, all clusterings, all mean block '
          'lengths of an alphabet; all significance levels and null values '
          'around every resampled value')
  assumptions = ('automatic block lengths: the selection procedure of the '
                 'arch library is taken as given',)

  def cases(self):
    for w in ('ones', 'mixed', 'zero'):
      for n in (2, 3, 4) + ((5,) if self.thorough else ()):
        yield {'k': 'iid', 'n': n, 'w': w}
      for n, mbl in itertools.product((2, 3, 4), (1, 2, 4)):
        if n == 4 and mbl == 4 and not self.thorough:
          continue
        yield {'k': 'stationary', 'n': n, 'mbl': mbl, 'w': w}
    for n in (2, 3, 4):
      for lab in itertools.product(range(n), repeat=n):
        # canonical and one reversed naming of the clusters
        seen = []
        for x in lab:
          if x not in seen:
            seen.append(x)
        if n == 4 and not self.thorough and seen != sorted(seen):
          continue
        if set(lab) != set(range(len(seen))):
          continue
        yield {'k': 'cluster', 'labels': list(lab)}
    for n, mbl in itertools.product((1, 2, 3, 4), (1, 2, 4)):
      yield {'k': 'indices', 'n': n, 'mbl': mbl}
    for n in (8, 9, 16, 40):
      for s in range(4):
        yield {'k': 'auto', 'n': n, 's': s}
    for kind in ('iid', 'cluster', 'stationary'):
      for w in ('ones', 'mixed', 'zero'):
        yield {'k': 'layout', 'kind': kind, 'w': w}
    for n in (20, 127, 128, 129, 255, 256, 257, 300):
      for kind in ('iid', 'cluster', 'stationary'):
        yield {'k': 'big', 'kind': kind, 'n': n}
    for n in (2, 3, 4):
      yield {'k': 'summary', 'n': n}
      for kind in ('iid', 'cluster', 'stationary'):
        yield {'k': 'missing', 'n': n, 'kind': kind}
    for name, kind, _ in zoo.catalogue():
      yield {'k': 'catalogue', 'm': name}
    for kind in ('iid', 'cluster', 'stationary'):
      for r in (2, 3, 10, 100, 499, 500, 512, 1000, 2048, 5000):
        yield {'k': 'replicates', 'kind': kind, 'r': r}
      yield {'k': 'mixed', 'kind': kind}
    yield {'k': 'rejected'}

  def run_case(self, case, rec):
    getattr(self, '_' + case['k'])(case, rec)

  def make(self, kind, metrics, st, r, levels=2, mbl=None, coord=UNIT):
    d = Design(r, levels)
    with d.active():
      if kind == 'iid':
        b = bootstrap.IIDBootstrap(metrics, st, UNIT, r)
      elif kind == 'cluster':
        b = bootstrap.ClusterBootstrap(metrics, st, coord, r)
      else:
        b = bootstrap.StationaryBootstrap(metrics, st, UNIT, r,
                                          mean_block_length=mbl)
    return b, d

  def decode(self, total, n, base):
    out = []
    for _ in range(n):
      out.append(total % base)
      total = total // base
    return np.stack(out, -1).astype(int)

  def expected(self, counts, a, wa, b, wb):
    """Means of all replicates: counts (..., n) x series (n,)."""
    with np.errstate(all='ignore'):
      return counts @ (a * wa) / (counts @ wa), counts @ (b * wb) / (counts @ wb)

  def frequencies(self, counts, want, design, rec, what):
    got = collections.Counter(map(tuple, counts.tolist()))
    for c in got:
      check(c in want, f'{what}: resample with counts {c} is impossible')
    if not design.exact:
      rec.count('inexact_designs')
      for c, q in want.items():
        tol = 6 * np.sqrt(q / len(counts)) + 6 / len(counts)
        check(abs(got[c] / len(counts) - q) < tol,
              f'{what}: counts {c} have frequency {got[c] / len(counts)}, '
              f'expected {q}')
      return
    for c, q in want.items():
      check(abs(got[c] / len(counts) - q) < 1e-9,
            f'{what}: counts {c} have probability {got[c] / len(counts)} over '
            f'all draws, expected {q}')

  def _iid(self, case, rec):
    n, k = case['n'], 3
    r = n**n
    a, wa, b, wb = series(n, k, case['w'])
    ident = np.repeat((n + 1.0)**np.arange(n)[:, None], k, 1)
    one = np.ones((n, k))
    st = infer.state(
        {'a': {'v': a * wa, 'w': a[::-1] * wa}, 'b': {'v': b * wb, 'w': b * wb},
         'id': {'v': ident, 'w': ident}},
        {'a': {'v': wa, 'w': wa}, 'b': {'v': wb, 'w': wb},
         'id': {'v': one, 'w': one}}, infer.dates(n), (UNIT, 's'))
    metrics = {**infer.METRICS, 'id': infer.Mean('id'), 'both': infer.Both()}
    boot, d = self.make('iid', metrics, st, r)
    rec.transition(r)
    res, pt = boot.resampled_values, boot.point_estimates()
    rd = replicate_dim(res['id']['v'], ('s',))
    ids = np.rint(res['id']['v'].transpose(rd, 's').values * n)
    check(ids.shape == (r, k), f'replicates {ids.shape}')
    counts = self.decode(ids[:, 0], n, n + 1)
    check((counts.sum(-1) == n).all(), f'units per resample {counts.sum(-1)}')
    for j in range(k):
      for v in 'vw':
        x = np.rint(res['id'][v].transpose(rd, 's').values[:, j] * n)
        check(np.array_equal(x, ids[:, 0]),
              f'series {j} of {v} uses other draws than series 0 of v')
    self.frequencies(counts, uniform_counts(n, n), d, rec, f'iid n={n}')
    for j in range(k):
      means = {}
      for v, x in (('v', a), ('w', a[::-1])):
        ma, mbv = self.expected(counts, x[:, j], wa[:, j], b[:, j], wb[:, j])
        pa, pb = self.expected(np.ones(n), x[:, j], wa[:, j], b[:, j], wb[:, j])
        means[v] = (ma, pa)
        with np.errstate(all='ignore'):
          want = {'mean': (ma, pa), 'meanb': (mbv, pb),
                  'root': (np.sqrt(ma), np.sqrt(pa)),
                  'ratio': (ma / mbv, pa / pb)}
        for m, (y, p) in want.items():
          g = res[m][v].transpose(rd, 's').values[:, j]
          check(close(g, y, 1e-9, 1e-12),
                f'iid n={n} weights {case["w"]}: {m}[{v}] of counts '
                f'{counts[:3]} is {g[:3]}, expected {y[:3]}')
          check(close(pt[m][v].values[j], p, 1e-5, 1e-6),
                f'point estimate of {m}[{v}]: {pt[m][v].values[j]}, {p}')
      g = res['both']['product'].transpose(rd, 's').values[:, j]
      check(close(g, means['v'][0] * means['w'][0], 1e-9, 1e-12),
            'variables of a metric use different draws')
      check(close(pt['both']['product'].values[j],
                  means['v'][1] * means['w'][1], 1e-5, 1e-6), 'point estimate')
    rec.nodes += r
    rec.trace(r, (n, case['w'], counts.tobytes()))

  def _stationary(self, case, rec):
    n, mbl, k = case['n'], case['mbl'], 2
    p = 1 / mbl
    r = n * (mbl * n)**(n - 1)
    a, wa, b, wb = series(n, k, case['w'])
    base = n + 1
    ident = np.repeat(float(base)**np.arange(n)[:, None], k, 1)
    one = np.ones((n, k))
    st = infer.state(
        {'a': {'v': a * wa, 'w': a[::-1] * wa}, 'b': {'v': b * wb, 'w': b * wb},
         'id': {'v': ident, 'w': ident}},
        {'a': {'v': wa, 'w': wa}, 'b': {'v': wb, 'w': wb},
         'id': {'v': one, 'w': one}}, infer.dates(n), (UNIT, 's'),
        {'s': [10, 20]})
    boot, d = self.make('stationary', {'packed': Packed(SCALE)}, st, r, mbl, mbl)
    rec.transition(r)
    res, pt = boot.resampled_values['packed'], boot.point_estimates()['packed']
    dist, _ = markov(n, p)
    for v, x in (('v', a), ('w', a[::-1])):
      rd = replicate_dim(res[v], ('s',))
      for j, lab in enumerate((10, 20)):
        y = res[v].sel(s=lab).values
        check(y.shape == (r,), f'replicates {y.shape}')
        with np.errstate(all='ignore'):
          pa, pb = self.expected(np.ones(n), x[:, j], wa[:, j], b[:, j], wb[:, j])
          want = SCALE * ident[:, 0].mean() + np.sqrt(pa) / pb
        check(close(pt[v].sel(s=lab).values, want, 1e-5, 1e-3),
              f'point estimate {pt[v].sel(s=lab).values}, expected {want}')
        # a resample without any weight is missing
        fin = np.isfinite(y)
        if case['w'] != 'zero':
          check(fin.all(), f'missing resamples of {v} {lab}')
        total, f = split(y[fin], n)
        counts = self.decode(total, n, base)
        check((counts.sum(-1) == n).all(),
              f'units per resample {counts.sum(-1)[:5]}')
        ma, mbv = self.expected(counts, x[:, j], wa[:, j], b[:, j], wb[:, j])
        want = np.sqrt(ma) / mbv
        check(close(f, want, 1e-7, 1e-7),
              f'stationary n={n} block {mbl}: {v} {lab}: resamples {counts[:2]} '
              f'give {f[:2]}, expected {want[:2]}')
        if fin.all():
          self.frequencies(counts, dist, d, rec,
                           f'stationary n={n} mean block length {mbl}')
        rec.nodes += r
        rec.outcome((n, mbl, v, lab, counts.tobytes()))
    rec.trace(r)

  def _missing(self, case, rec):
    """A missing statistic makes every resample with that unit missing."""
    n, kind = case['n'], case['kind']
    r = n**n if kind != 'stationary' else n * (2 * n)**(n - 1)
    a, _, b, _ = series(n, n, 'ones')
    ident = np.repeat((n + 1.0)**np.arange(n)[:, None], n, 1)
    for tag in 'ab':
      x = {'a': a.copy(), 'b': b.copy()}
      x[tag][np.arange(n), np.arange(n)] = np.nan
      one = np.ones((n, n))
      st = infer.state({'a': {'v': x['a']}, 'b': {'v': x['b']},
                        'id': {'v': ident}},
                       {t: {'v': one} for t in ('a', 'b', 'id')},
                       infer.dates(n), (UNIT, 's'))
      boot, _ = self.make(kind, {'p': Packed(SCALE)}, st, r, 2, 2)
      rec.transition(r)
      rec.nodes += r
      y = boot.resampled_values['p']['v']
      y = y.transpose(replicate_dim(y, ('s',)), 's').values
      check(np.isnan(boot.point_estimates()['p']['v'].values).all(),
            'point estimate of a missing statistic')
      for j in range(n):
        fin = np.isfinite(y[:, j])
        total, f = split(y[fin, j], n)
        counts = self.decode(total, n, n + 1)
        check((counts[:, j] == 0).all() and (counts.sum(-1) == n).all(),
              f'{kind}: resamples {counts[:3]} with unit {j}, which is '
              f'missing, have values {y[fin, j][:3]}')
        keep = np.arange(n) != j
        ma, mbv = self.expected(counts[:, keep], a[keep, j], one[keep, j],
                                b[keep, j], one[keep, j])
        check(close(f, np.sqrt(ma) / mbv, 1e-7, 1e-7), f'{kind}: {f[:3]}')
      rec.trace(1, (n, kind, tag, np.isfinite(y).tobytes()))

  def _big(self, case, rec):
    """Realistic numbers of units: which resamples are possible at all."""
    n, kind, r = case['n'], case['kind'], 40
    t = np.arange(n)
    a = 1.0 + (t * 3) % 7
    w = 0.5 + t % 3
    group = t // 7 * (t % 2 + 1)  # clusters of unequal size, out of order
    np.random.seed(3)
    if kind == 'stationary':
      # blocks that practically never end: resamples are rotations
      if hasattr(bootstrap, 'stationary_bootstrap_indices'):
        idx = np.asarray(bootstrap.stationary_bootstrap_indices(n, 1e12, r))
        check(((idx - idx[:1] - t[:, None]) % n == 0).all() and
              (idx >= 0).all() and (idx < n).all(),
              f'{n} units: a block does not continue circularly', idx[:, 0])
        one = np.asarray(bootstrap.stationary_bootstrap_indices(n, 1, 40))
        check(np.array_equal(np.unique(one), t),
              f'{n} units: blocks never start at some of the units')
      st = infer.state({'a': {'v': a * w}, 'b': {'v': w}},
                       {'a': {'v': w}, 'b': {'v': 0 * w + 1}}, infer.dates(n),
                       (UNIT,))
      boot = bootstrap.StationaryBootstrap(infer.METRICS, st, UNIT, r,
                                           mean_block_length=1e12)
      rec.transition(r)
      for m in infer.METRICS:
        y = boot.resampled_values[m]['v'].values
        check(y.shape == (r,), f'replicates {y.shape}')
        p = boot.point_estimates()[m]['v'].values
        check(close(y, 0 * y + p, 1e-4, 1e-5), f'{n} units: rotations change '
              f'{m} from {p} to {y[:3]}')
      rec.trace(r, (kind, n))
      return
    one = np.ones((n, n))
    st = infer.state(
        {'id': {'v': np.eye(n)}, 'a': {'v': (a * w)[:, None] * one},
         'b': {'v': w[:, None] * one}},
        {'id': {'v': one}, 'a': {'v': w[:, None] * one}, 'b': {'v': one}},
        infer.dates(n), (UNIT, 's'))
    if kind == 'iid':
      boot = bootstrap.IIDBootstrap({**infer.METRICS, 'id': infer.Mean('id')},
                                    st, UNIT, r)
      weight = np.ones(n)
    else:
      st = st.map(lambda x: x.assign_coords(day=(UNIT, group)))
      boot = bootstrap.ClusterBootstrap(
          {**infer.METRICS, 'id': infer.Mean('id')}, st, 'day', r)
    rec.transition(r)
    res = boot.resampled_values
    rd = replicate_dim(res['id']['v'], ('s',))
    share = res['id']['v'].transpose(rd, 's').values  # counts over their sum
    check(share.shape == (r, n), f'replicates {share.shape}')
    check(close(share.sum(1), np.ones(r), 1e-4, 1e-4), 'shares of the units')
    least = np.array([x[x > 1e-9].min() for x in share])
    if kind == 'iid':
      counts = np.rint(share * n)
      check(close(share * n, counts, 0, 1e-3) and (counts.sum(1) == n).all(),
            f'{n} units: shares {share[0][:5] * n} are not counts of {n} draws')
      used = counts.sum(0)
    else:
      # all units of a cluster appear equally often
      labels = np.unique(group)
      first = [int(np.argmax(group == g)) for g in labels]
      for g, f in zip(labels, first):
        check(close(share[:, group == g], np.repeat(share[:, [f]], int(
            (group == g).sum()), 1), 1e-4, 1e-9),
              f'cluster {g} of {n} units is torn apart')
      # the number of draws of clusters is their number
      per = share[:, first] / least[:, None]
      size = np.array([(group == g).sum() for g in labels])
      ok = False
      for mult in range(1, 4):  # the least count is one in almost any resample
        counts = per * mult
        ok = ok | (np.isclose(counts, np.rint(counts), 0, 1e-2).all(1) &
                   (np.rint(counts).sum(1) == len(labels)))
      check(np.all(ok), f'{n} units: {per[0]} are not {len(labels)} draws of '
            f'clusters of sizes {size}')
      used = share.sum(0)
    check((used > 0).all(), f'{n} units: units {np.flatnonzero(used == 0)} '
          'never occur in any resample')
    for m in ('mean', 'meanb', 'ratio', 'root'):
      g = res[m]['v'].transpose(rd, 's').values
      ma = share @ (a * w) / (share @ w)
      mbv = share @ w
      want = {'mean': ma, 'meanb': mbv, 'ratio': ma / mbv,
              'root': np.sqrt(ma)}[m]
      check(close(g, np.repeat(want[:, None], n, 1), 1e-4, 1e-5),
            f'{n} units: {m} of a resample is {g[0, :3]}, expected {want[0]}')
    rec.nodes += r * n
    rec.trace(r, (kind, n))

  def _indices(self, case, rec):
    """The index sampler itself, whose order of units is visible."""
    if not hasattr(bootstrap, 'stationary_bootstrap_indices'):
      raise core.Skip()
    n, mbl = case['n'], case['mbl']
    r = n * (mbl * n)**(n - 1)
    d = Design(r, mbl)
    with d.active():
      idx = np.asarray(bootstrap.stationary_bootstrap_indices(n, mbl, r))
    rec.transition(r)
    check(idx.shape == (n, r), f'shape {idx.shape}')
    _, seqs = markov(n, 1 / mbl)
    got = collections.Counter(map(tuple, idx.T.tolist()))
    for s in got:
      check(s in seqs, f'sequence {s} of {n} units is no sequence of circular '
            f'blocks (mean length {mbl})')
    if d.exact:
      for s, q in seqs.items():
        check(abs(got[s] / r - q) < 1e-9, f'sequence {s} has probability '
              f'{got[s] / r} over all draws, expected {q}')
    rec.nodes += r
    rec.trace(r, (n, mbl))

  def _cluster(self, case, rec):
    lab = case['labels']
    n, clusters = len(lab), sorted(set(lab))
    kk = len(clusters)
    r = kk**kk
    sizes = [lab.count(c) for c in clusters]
    size_of = np.array([lab.count(x) for x in lab], float)
    base = kk + 1
    for ctype in ('int', 'str', 'date', 'float', 'dim'):
      coord = {
          'int': np.array(lab) * 3 - 4, 'str': np.array([f'c{x}' for x in lab]),
          'date': np.array([np.datetime64('2020-02-28', 'ns') +
                            np.timedelta64(x, 'D') for x in lab]),
          'float': np.array(lab) / 4.0 - 0.5,
          'dim': np.array([f'c{x}' for x in lab])}[ctype]
      for w in ('ones', 'mixed'):
        a, wa, b, wb = series(n, 2, w)
        ident = np.repeat(float(base)**np.arange(n)[:, None], 2, 1)
        one = np.ones((n, 2))
        wt = (1 / size_of)[:, None] + 0 * one
        st = infer.state(
            {'a': {'v': a * wa}, 'b': {'v': b * wb}, 'id': {'v': ident},
             'tot': {'v': one}},
            {'a': {'v': wa}, 'b': {'v': wb}, 'id': {'v': one},
             'tot': {'v': wt}}, infer.dates(n), (UNIT, 's'))
        name = 'day'
        if ctype == 'dim':
          # the clusters are the labels of the units themselves
          st = st.map(lambda x: x.assign_coords({UNIT: coord}))
          name = UNIT
        else:
          st = st.map(lambda x: x.assign_coords(day=(UNIT, coord)))
        metrics = {**infer.METRICS, 'id': infer.Mean('id'),
                   'tot': infer.Mean('tot')}
        boot, d = self.make('cluster', metrics, st, r, coord=name)
        rec.transition(r)
        res, pt = boot.resampled_values, boot.point_estimates()
        rd = replicate_dim(res['id']['v'], ('s',))
        get = lambda m, j: res[m]['v'].transpose(rd, 's').values[:, j]
        total = get('tot', 0) * kk
        ids = get('id', 0) * total
        what = f'clusters {lab} ({ctype})'
        check(close(total, np.rint(total), 0, 1e-6) and
              close(ids, np.rint(ids), 0, 1e-4),
              f'{what}: the resamples do not have {kk} whole clusters')
        counts = self.decode(np.rint(ids), n, base)
        check(np.array_equal(counts.sum(-1), np.rint(total)),
              f'{what}: counts {counts[:3]} but {total[:3]} units')
        per = np.stack([counts[:, lab.index(c)] for c in clusters], -1)
        for i, x in enumerate(lab):
          check(np.array_equal(counts[:, i], per[:, clusters.index(x)]),
                f'{what}: units of one cluster are drawn differently')
        check((per.sum(-1) == kk).all(), f'{what}: {per.sum(-1)[:3]} clusters')
        self.frequencies(per, uniform_counts(kk, kk), d, rec, what)
        for j in range(2):
          ma, mbv = self.expected(counts, a[:, j], wa[:, j], b[:, j], wb[:, j])
          pa, pb = self.expected(np.ones(n), a[:, j], wa[:, j], b[:, j],
                                 wb[:, j])
          for m, y, p in (('mean', ma, pa), ('meanb', mbv, pb),
                          ('root', np.sqrt(ma), np.sqrt(pa)),
                          ('ratio', ma / mbv, pa / pb)):
            check(close(get(m, j), y, 1e-9, 1e-12),
                  f'{what}: {m} is {get(m, j)[:3]}, expected {y[:3]}')
            check(close(pt[m]['v'].values[j], p, 1e-5, 1e-6),
                  f'{what}: point estimate of {m}')
        rec.nodes += r
        rec.trace(r, (tuple(lab), ctype, w))

  def _auto(self, case, rec):
    """The mean block length is the optimal one of the linearised series."""
    import arch.bootstrap
    n, s = case['n'], case['s']
    t = np.arange(n)
    x = {0: 3 + np.sin(t / 3.0), 1: 1.0 + t * 7919 % 13, 2: 2.0 + t % 2,
         3: 1.0 + 0.1 * t + (t * 31 % 7) / 3}[s]
    w = 1.0 + (t % 3) * (s == 1)
    b = 2.0 + np.cos(t / 2.0)
    r = 4000
    m = (x * w).sum() / w.sum()
    da = (x - m * w / w) * w / w.mean()
    db = b - b.mean()
    coefs = [(1, 0), (0, 1), (1, -3)]
    f = {'mean': x[0], 'root': np.sqrt(x[0]), 'ratio': x[0] / b[0]}
    f['mix'] = f['labels'] = [p * x[0] + q * b[0] for p, q in coefs]
    lin = {'mean': da, 'root': da, 'ratio': da - m / b.mean() * db}
    lin['mix'] = lin['labels'] = [p * da + q * db for p, q in coefs]
    for name, metric in (
        ('mean', infer.Mean('a')), ('root', infer.Root()),
        ('ratio', infer.Ratio()), ('mix', infer.Mix(coefs)),
        ('labels', infer.Mix(coefs, ['x', 'y', 'z']))):
      st = infer.state({'a': {'v': x * w}, 'b': {'v': b}},
                       {'a': {'v': w}, 'b': {'v': np.ones(n)}}, infer.dates(n),
                       (UNIT,))
      class Ramp(Design):
        """Replicate i draws the float (i + 1/2)/R, and always unit 0."""

        def fill(self, s, k):
          ax = s.index(self.r)
          sh = [1] * len(s)
          sh[ax] = self.r
          return np.broadcast_to((np.arange(self.r) if k == self.levels else
                                  np.zeros(self.r, int)).reshape(sh), s)
      for res, rounding in ((30.0, 30.0), (None, None), (4, 4)):
        d = Ramp(r, r)
        np.random.seed(3)
        with d.active():
          boot = bootstrap.StationaryBootstrap(
              {'m': metric}, st, UNIT, r,
              block_length_rounding_resolution=rounding)
        rec.transition()
        y = boot.resampled_values['m']['v']
        rd = replicate_dim(y, ('mix',) if name in ('mix', 'labels') else ())
        y = y.transpose(rd, ...).values.reshape(r, -1)
        if not d.exact or d.samples:
          rec.count('auto_not_controlled')
          continue
        first, tangents = np.atleast_1d(f[name]), np.atleast_2d(lin[name])
        check(y.shape[1] == len(first), f'{name}: shape {y.shape}')
        for i in range(len(first)):
          block = max(1.0, arch.bootstrap.optimal_block_length(
              tangents[i]).stationary.item())
          if rounding is not None:
            block = 10**(np.round(np.log10(block) * rounding) / rounding)
          # replicates that always start a new block only contain unit 0
          new = np.isclose(y[:, i], first[i], 1e-9)
          other = np.unique(y[~new, i])
          check(len(other) <= 1, f'resampled values {other[:4]}')
          p = new.mean()
          check(abs(p - 1 / block) < 2 / r + 1e-4 * (1 / block) or
                (p > 0 and abs(1 / p - block) < 1e-2 * block),
                f'{name} {i} of series {s} with {n} units, rounding '
                f'{rounding}: mean block length {1 / max(p, 1e-9)}, expected '
                f'{block}')
          rec.nodes += 1
          rec.trace(1, (n, s, name, i, rounding, round(block, 3)))

  def _layout(self, case, rec):
    """Several dimensions, variables and statistics of different layout."""
    kind, n = case['kind'], 3
    r = 27
    t = np.arange(n)[:, None, None]
    a = 1.0 + (t * 5 + np.arange(2)[None, :, None] * 3 + np.arange(3)) % 7
    w = {'ones': np.ones_like(a), 'mixed': 1.0 + a % 3,
         'zero': np.where((t == 0) & (np.arange(3) == 1), 0., 1.) + 0 * a
        }[case['w']]
    ident = 4.0**np.arange(n)
    co = {UNIT: infer.dates(n), 'lead': [18, 6], 'reg': ['x', 'y', 'z'],
          'aux': ('lead', [1, 2])}
    for order in itertools.permutations((UNIT, 'lead', 'reg')):
      da = lambda x: xr.DataArray(x, dims=(UNIT, 'lead', 'reg'),
                                  coords=co).transpose(*order)
      u = lambda x: xr.DataArray(x, dims=(UNIT,), coords={UNIT: co[UNIT]})
      full = lambda x: da(x[:, None, None] + 0 * a)
      from weatherbenchX import aggregation
      st = aggregation.AggregationState(
          {'Stat_a': {'v': da(a * w), 'u': u(a[:, 0, 0])},
           'Stat_b': {'v': full(np.ones(n)), 'u': u(np.ones(n))},
           'Stat_id': {'v': full(ident), 'u': u(ident)}},
          {'Stat_a': {'v': da(w), 'u': u(np.ones(n))},
           'Stat_b': {'v': full(np.ones(n)), 'u': u(np.ones(n))},
           'Stat_id': {'v': full(np.ones(n)), 'u': u(np.ones(n))}})
      boot, _ = self.make(kind, {'p': Packed(SCALE)}, st, r, 1, 1)
      rec.transition()
      rec.nodes += 1
      se, (lo, hi) = boot.standard_error_estimates(), boot.confidence_intervals(.2)
      pv = boot.p_values(1.0)
      for v in 'uv':
        y = boot.resampled_values['p'][v]
        dims = ('lead', 'reg') if v == 'v' else ()
        rd = replicate_dim(y, dims)
        for z in (se, lo, hi, pv, boot.point_estimates()):
          check(set(z['p'][v].dims) == set(dims), f'dims {z["p"][v].dims}')
        for z in (y, se['p'][v], lo['p'][v], pv['p'][v]):
          check(all(c in z.coords for c in dims), f'labels {list(z.coords)}')
          if v == 'v':
            check(sorted(z.lead.values.tolist()) == [6, 18] and
                  sorted(z.reg.values.tolist()) == ['x', 'y', 'z'], 'labels')
        for i, j in itertools.product(range(2), range(3)):
          sel = dict(lead=co['lead'][i], reg=co['reg'][j]) if v == 'v' else {}
          ai, wi = ((a[:, i, j], w[:, i, j]) if v == 'v' else
                    (a[:, 0, 0], np.ones(n)))
          x = y.sel(sel).values
          fin = np.isfinite(x)
          total, f = split(x[fin], n)
          counts = self.decode(total, n, 4)
          check((counts.sum(-1) == n).all(), f'counts {counts[:3]}')
          ma, _ = self.expected(counts, ai, wi, ai, wi)
          check(close(f, np.sqrt(ma), 1e-7, 1e-7),
                f'{kind} {v} {sel}: {f[:3]}, expected {np.sqrt(ma)[:3]}')
          g = x[fin]
          for z, q in ((se, g.std(ddof=1)), (lo, np.quantile(g, .1)),
                       (hi, np.quantile(g, .9))):
            check(close(z['p'][v].sel(sel).values, q, 1e-9, 1e-9),
                  f'{kind} {v} {sel}: {z["p"][v].sel(sel).values}, {q}')
      rec.trace(1, (kind, order, case['w']))

  def _summary(self, case, rec):
    """Errors, intervals and p-values of the resampled values."""
    n = case['n']
    r = n**n
    xs = mu.all_assignments((0., 1., 3.), n).T
    k = xs.shape[1]
    w = np.ones((n, k))
    # one third of the series have a unit that carries all of the weight
    w[1:, ::3] = 0.0
    st = infer.state({'a': {'v': xs * w}}, {'a': {'v': w}}, infer.dates(n),
                     (UNIT, 's'))
    boot, _ = self.make('iid', {'m': infer.Mean('a')}, st, r)
    y = boot.resampled_values['m']['v']
    rd = replicate_dim(y, ('s',))
    y = y.transpose(rd, 's').values
    se = boot.standard_error_estimates()['m']['v'].values
    rows = [np.sort(y[np.isfinite(y[:, j]), j]) for j in range(k)]
    for j in range(k):
      want = rows[j].std(ddof=1) if len(rows[j]) > 1 else np.nan
      check(close(se[j], want, 1e-9, 1e-12),
            f'standard error {se[j]}, expected {want}')
    cis = {}
    infer.defaults(boot, f'{n} units')
    for alpha in ALPHAS:
      lo, hi = boot.confidence_intervals(alpha)
      lo, hi = lo['m']['v'].values, hi['m']['v'].values
      cis[alpha] = (lo, hi)
      for j in range(k):
        q = np.quantile(rows[j], [alpha / 2, 1 - alpha / 2])
        check(close([lo[j], hi[j]], q, 1e-9, 1e-12),
              f'interval at {alpha}: {lo[j]}..{hi[j]}, expected {q}')
      rec.transition(k)
    values = sorted({float(v) for row in rows for v in row})
    nulls = sorted(set(values) | {(a + b) / 2 for a, b in zip(
        values[:-1], values[1:])} | {-1.0, 4.0})
    if len(nulls) > 60:
      nulls = nulls[::len(nulls) // 60] + [0.0, 1.0, 3.0]
    for null in nulls:
      p = boot.p_values(null)['m']['v'].values
      rec.transition(k)
      check(((p >= 0) & (p <= 1)).all(), f'p-values {p}')
      for j in range(k):
        g = rows[j]
        q = np.linspace(0, 1, len(g))
        if len(g) < 2:
          continue
        tie = np.isclose(g, null, 0, 1e-9)
        if not tie.any():
          f = np.interp(null, g, q)
          want = 2 * min(f, 1 - f)
          check(close(p[j], want, 1e-9, 1e-9), f'p-value of {null} is {p[j]}, '
                f'expected {want}; resampled values {g}')
        for alpha in ALPHAS:
          lo, hi = cis[alpha][0][j], cis[alpha][1][j]
          if null < lo - 1e-9 or null > hi + 1e-9:
            check(p[j] <= alpha + 1e-9, f'{null} is outside of {lo}..{hi} at '
                  f'level {alpha} but p = {p[j]}; resampled values {g}')
          elif lo - 1e-9 <= null <= hi + 1e-9:
            # on the boundary both decisions agree up to rounding
            check(p[j] >= alpha - 1e-9, f'{null} is inside of {lo}..{hi} at '
                  f'level {alpha} but p = {p[j]}; resampled values {g}')
          rec.nodes += 1
      sig = boot.significance_tests(null, 0.2)['m']['v'].values
      clear = np.abs(p - 0.2) > 1e-9
      check(np.array_equal(sig[clear], (p < 0.2)[clear]), 'significance tests')
      # a p-value that equals the level is significant at this level
      for level in np.unique(p[(p > 0) & (p < 1)])[:3]:
        sig = boot.significance_tests(null, float(level))['m']['v'].values
        check(np.array_equal(sig, p <= level),
              f'significance of p = {p} at level {level}: {sig}')
      rec.trace(k, (n, null, p.tobytes()))

  def _catalogue(self, case, rec):
    """Library metrics: values of the resampled sums, for all draws."""
    kind, make = {n: (k, f) for n, k, f in zoo.catalogue()}[case['m']]
    metric = make()
    p, t = zoo.data(kind)
    st = mu.state_of({'m': metric}, p, t, ['latitude', 'longitude'])
    if any(not st.sum_weights.get(s.unique_name)
           for s in metric.statistics.values()):
      raise core.Skip()
    n = 2
    table = {}
    for c in ((2, 0), (1, 1), (0, 2)):
      w = xr.DataArray(np.array(c, float), dims=UNIT)
      table[c] = st.map(lambda x, w=w: (x * w).sum(UNIT, skipna=False)
                       ).metric_values({'m': metric})
    for how, r, lev in (('iid', 4, 2), ('cluster', 4, 2), ('stationary', 4, 1),
                        ('stationary', 8, 2)):
      try:
        boot, d = self.make(how, {'m': metric}, st, r, lev, lev)
      except ValueError:
        # Documented: stationary resampling goes along shared dimensions of
        # statistics and results, index by index.
        sizes = [x.sizes for s in metric.statistics.values()
                 for x in st.sum_weights[s.unique_name].values()]
        check(how == 'stationary' and any(
            q.get(dim, x.sizes[dim]) != x.sizes[dim] for q in sizes
            for x in table[(1, 1)].values() for dim in x.dims),
              f'{how} bootstrap of {case["m"]} fails')
        rec.trace(1, (case['m'], how, 'rejected'))
        continue
      rec.transition()
      rec.nodes += r
      res, pt = boot.resampled_values['m'], boot.point_estimates()['m']
      for v in pt:
        direct = table[(1, 1)][f'm.{v}']
        rd = replicate_dim(res[v], direct.dims)
        check(close(pt[v].transpose(*direct.dims).values, direct.values, 1e-4,
                    1e-5), f'{how} {case["m"]}[{v}]: point estimate')
        y = res[v]
        for dim in direct.dims:
          if dim in direct.indexes:
            y = y.sel({dim: direct[dim].values})
        y = y.transpose(rd, *direct.dims).values
        check(y.shape == (r,) + direct.shape, f'{how} {case["m"]}[{v}]: shape '
              f'{y.shape}, expected {(r,) + direct.shape}')
        opts = np.stack([table[c][f'm.{v}'].transpose(*direct.dims).values
                         for c in table])
        if how == 'stationary':
          # every series may have draws of its own
          eq = np.isclose(y[:, None], opts[None], 1e-4, 1e-5, equal_nan=True)
          check(eq.any(1).all(), f'{how} {case["m"]}[{v}]: values {y.ravel()[:4]}'
                f' are none of {opts.reshape(3, -1)[:, :4]}')
        else:
          eq = np.stack([[close(y[i], o, 1e-7, 1e-9) for o in opts]
                         for i in range(r)])
          check(eq.any(1).all(), f'{how} {case["m"]}[{v}]: resample is none of '
                'the possible ones')
          if d.exact and len({o.tobytes() for o in opts}) == 3:
            check(eq.sum(0).tolist() == [1, 2, 1], f'{how} {case["m"]}[{v}]: '
                  f'frequencies {eq.sum(0)}')
      rec.trace(1, (case['m'], how))

  def _replicates(self, case, rec):
    """Summaries of the resampled values for any number of replicates."""
    kind, r, n = case['kind'], case['r'], 6
    one = np.ones((n, 2))
    a = 1.0 + (np.arange(n)[:, None] * np.array([5, 3])) % 7
    st = infer.state({'a': {'v': a}, 'b': {'v': 2.0 + a[::-1]}},
                     {'a': {'v': one}, 'b': {'v': one}}, infer.dates(n),
                     (UNIT, 's'))
    st = st.map(lambda x: x.assign_coords(day=(UNIT, np.arange(n) // 2)))
    np.random.seed(5)
    metrics = {'p': infer.Ratio()}
    if kind == 'iid':
      boot = bootstrap.IIDBootstrap(metrics, st, UNIT, r)
    elif kind == 'cluster':
      boot = bootstrap.ClusterBootstrap(metrics, st, 'day', r)
    else:
      boot = bootstrap.StationaryBootstrap(metrics, st, UNIT, r,
                                           mean_block_length=2.0)
    y = boot.resampled_values['p']['v']
    y = y.transpose(replicate_dim(y, ('s',)), 's').values
    check(y.shape == (r, 2), f'replicates {y.shape}')
    se = boot.standard_error_estimates()['p']['v'].values
    check(close(se, y.std(0, ddof=1), 1e-9, 1e-12), f'{r} replicates: standard '
          f'errors {se}, expected {y.std(0, ddof=1)}')
    for alpha in ALPHAS:
      ci = boot.confidence_intervals(alpha)
      for z, q in zip(ci, (alpha / 2, 1 - alpha / 2)):
        want = np.quantile(y, q, axis=0)
        check(close(z['p']['v'].values, want, 1e-9, 1e-12),
              f'{r} replicates: quantile {q} is {z["p"]["v"].values}, '
              f'expected {want}')
      rec.transition()
    rec.nodes += r
    rec.trace(r, (kind, r))

  def _mixed(self, case, rec):
    """Results whose variables occur in some of the statistics only."""
    kind, n, r = case['kind'], 3, 27
    t = np.arange(n)
    a = {'u': 1.0 + t, 'v': 2.0 + (t * 2) % 3}
    b = {'w': 4.0 + (t + 1) % 3}
    ident = 4.0**t
    from weatherbenchX import aggregation
    da = lambda x: xr.DataArray(x, dims=UNIT, coords={UNIT: infer.dates(n)})
    sums = {'Stat_a': {v: da(x) for v, x in a.items()},
            'Stat_b': {v: da(x) for v, x in b.items()},
            'Stat_id': {'x': da(ident)}}
    st = aggregation.AggregationState(
        sums, {s: {v: da(np.ones(n)) for v in vs} for s, vs in sums.items()})
    boot, _ = self.make(kind, {'p': Combined(SCALE)}, st, r, 1, 1)
    rec.transition()
    res, pt = boot.resampled_values['p'], boot.point_estimates()['p']
    check(set(res) == set(pt) == {'u', 'v', 'w'}, f'results {set(res)}')
    for v in res:
      y = res[v].values
      check(y.shape == (r,), f'shape {y.shape}')
      total, f = split(y, n)
      counts = self.decode(total, n, 4)
      check((counts.sum(-1) == n).all(), f'counts {counts[:3]}')
      want = counts @ ({**a, **b}[v] + a['u']) / n
      check(close(f, want, 1e-7, 1e-7), f'{kind} {v}: {f[:3]}, expected '
            f'{want[:3]}')
      rec.nodes += r
      rec.trace(r, (kind, v))

  def _rejected(self, case, rec):
    n = 4
    y = np.array([1., 2., 4., 3.])
    def bad(fn, what):
      rec.transition()
      rec.nodes += 1
      try:
        fn()
      except Exception as e:  # pylint: disable=broad-except
        rec.trace(1, (what, type(e).__name__))
        return
      fail(f'{what} must be rejected')
    from weatherbenchX import aggregation
    mk = lambda c: xr.DataArray(y[:len(c)], dims=UNIT, coords={UNIT: c})
    good = infer.dates(n)
    for what, other in (('shifted', good + np.timedelta64(1, 'h')),
                        ('reversed', good[::-1]), ('fewer', good[:3])):
      s = {'Stat_a': {'v': mk(good)}, 'Stat_b': {'v': mk(other)}}
      st = aggregation.AggregationState(s, s)
      for kind in ('iid', 'cluster', 'stationary'):
        bad(lambda: self.make(kind, {'m': infer.Ratio()}, st, 4, 1, 1),
            f'{kind}: {what} units of one statistic')
    s = {'Stat_a': {'v': mk(good)}}
    for k in range(1, 8):
      few = {'Stat_a': {'v': xr.DataArray(
          1.0 + (3 * np.arange(k)) % 7, dims=UNIT,
          coords={UNIT: infer.dates(k)})}}
      bad(lambda: bootstrap.StationaryBootstrap(
          {'m': infer.Mean('a')}, aggregation.AggregationState(
              few, few.copy()), UNIT, 4),
          f'automatic block length of {k} units')
    bad(lambda: bootstrap.IIDBootstrap(
        {'m': infer.Mean('a')}, aggregation.AggregationState(s, s), 'other', 4),
        'unknown unit dimension')


CHECK = C25
