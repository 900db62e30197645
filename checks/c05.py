"""C05: combining partial aggregates is order-independent and loses nothing."""

import itertools

import numpy as np
import xarray as xr

from mc import core
from mc.xrutil import check, fail, same_da
from weatherbenchX import aggregation
from weatherbenchX import beam_utils

State = aggregation.AggregationState
# kinds of label coordinates
LABELS = {
    'str': np.array(['a', 'b', 'c']),
    'int': np.array([7, 3, 5]),
    'time': np.array(['2020-01-02', '2020-01-01', '2020-03-01'], 'datetime64[ns]'),
    'float': np.array([0.5, -1.0, 2.0]),
}
SUBSETS = [(), (0,), (1,), (2,), (0, 1), (1, 0), (1, 2), (0, 1, 2), (2, 0, 1)]
PRIMES = np.array([2., 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53,
                   59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113])


def trees(items):
  """All ordered binary groupings of a sequence."""
  if len(items) == 1:
    yield items[0]
    return
  for i in range(1, len(items)):
    for a in trees(items[:i]):
      for b in trees(items[i:]):
        yield (a, b)


def evaluate(t, leaf, add):
  if isinstance(t, tuple):
    return add(evaluate(t[0], leaf, add), evaluate(t[1], leaf, add))
  return leaf(t)


def make(i, subset, kind, two=None):
  """Summand i: dims (s, e) or (s, e, l) with labels `subset` along s."""
  n = len(subset)
  lab = LABELS[kind][list(subset)] if n else LABELS[kind][:0]
  v = (PRIMES[:n * 2].reshape(n, 2) + 200 * i + np.array(subset or [0])[:n, None])
  w = (PRIMES[3:3 + n * 2].reshape(n, 2) * 0.5 + i)
  coords = {'s': lab, 'e': [10, 20]}
  dims = ('s', 'e')
  if two is not None:
    m = len(two)
    v = v[..., None] * (1 + np.arange(m))
    w = w[..., None] * (1 + np.arange(m))
    coords['l'] = np.array([0, 6, 12])[list(two)]
    dims = ('s', 'e', 'l')
  da = lambda x: xr.DataArray(x, dims=dims, coords=coords)
  if i % 2:  # the order of entries is not significant
    return State({'stat2': {'u': da(v * 2)}, 'stat': {'v': da(v)}},
                 {'stat2': {'u': da(w * 3)}, 'stat': {'v': da(w)}})
  return State({'stat': {'v': da(v)}, 'stat2': {'u': da(v * 2)}},
               {'stat': {'v': da(w)}, 'stat2': {'u': da(w * 3)}})


def leaves(st):
  for part in ('sum_weighted_statistics', 'sum_weights'):
    tree = getattr(st, part)
    for s in tree:
      for v in tree[s]:
        yield (part, s, v), tree[s][v]


def ref(states):
  """dict path -> dict label tuple -> sum."""
  out = {}
  labels = {}
  for st in states:
    for p, da in leaves(st):
      d = out.setdefault(p, {})
      for dim in da.dims:
        labels.setdefault((p, dim), set()).update(da[dim].values.tolist())
      for idx in np.ndindex(*da.shape):
        key = tuple(da[dim].values.tolist()[j] for dim, j in zip(da.dims, idx))
        d[key] = d.get(key, 0.0) + float(da.values[idx])
  return out, labels


def compare(got, want, dims, what):
  out, labels = want
  seen = set()
  for p, da in leaves(got):
    check(p in out, f'{what}: unexpected entry {p}')
    seen.add(p)
    check(set(da.dims) == set(dims), f'{what}: {p} dims {da.dims}')
    da = da.transpose(*dims)
    full = [sorted(labels.get((p, d), ())) for d in dims]
    for d, f in zip(dims, full):
      check(sorted(da[d].values.tolist()) == f,
            f'{what}: {p} labels of {d} are {da[d].values.tolist()} expected {f}')
    for idx in np.ndindex(*da.shape):
      key = tuple(da[d].values.tolist()[j] for d, j in zip(dims, idx))
      w = out[p].get(key, 0.0)
      g = float(da.values[idx])
      if not (abs(g - w) <= 1e-9 * max(1, abs(w))):
        fail(f'{what}: {p} at {key} is {g}, expected {w}')
  check(seen == set(out), f'{what}: lost entries {set(out) - seen}')


class C05(core.Check):
  id = 'C05'
  rule = ('all tuples of up to 3 (thorough 4) summands over 9 label subsets '
          '(incl. empty, reordered); all orders x all binary groupings x zero '
          'insertions; sum of list, +, CombiningSum with all accumulator '
          'partitions; reductions and dot products before and after')

  def cases(self):
    kinds = list(LABELS)
    for k in (1, 2):
      for subs in itertools.product(range(len(SUBSETS)), repeat=k):
        for kind in kinds:
          if kind == 'str' or self.thorough or list(subs) == sorted(subs):
            yield dict(subs=subs, kind=kind, mode='trees')
    for subs in itertools.combinations_with_replacement(range(len(SUBSETS)), 3):
      yield dict(subs=subs, kind=kinds[sum(subs) % len(kinds)], mode='trees')
    few = range(len(SUBSETS)) if self.thorough else (0, 1, 4, 6, 8)
    for subs in itertools.combinations_with_replacement(few, 2):
      for two in itertools.product([(0,), (1, 2), (2, 0)], repeat=2):
        yield dict(subs=subs, two=two, kind='str', mode='trees')
    for subs in itertools.combinations_with_replacement(few, 3):
      yield dict(subs=subs, kind='str', mode='combine')
    for subs in itertools.product(range(len(SUBSETS)), repeat=2):
      yield dict(subs=subs, kind='int', mode='reduce')
    if self.thorough:
      for subs in itertools.combinations_with_replacement(range(len(SUBSETS)), 4):
        yield dict(subs=subs, kind=kinds[sum(subs) % len(kinds)], mode='trees')
    for k in (16, 17, 33, 100, 127, 128, 129, 255, 256, 257, 300):
      for dt in ('f8', 'f4', 'i8', 'i4'):
        for lab in ('same', 'own', 'window', 'mod7'):
          if not self.thorough and (
              k not in (17, 129, 257) or dt != 'f8' and lab[0] in 'sw'):
            continue
          yield dict(mode='many', k=k, dt=dt, lab=lab)
    yield dict(mode='zeros')
    yield dict(mode='nan')

  def run_case(self, case, rec):
    getattr(self, 'run_' + case['mode'])(case, rec)

  def states_of(self, case):
    two = case.get('two') or [None] * len(case['subs'])
    dims = ('s', 'e') if two[0] is None else ('s', 'e', 'l')
    return [make(i, SUBSETS[s], case['kind'], t)
            for i, (s, t) in enumerate(zip(case['subs'], two))], dims

  def run_trees(self, case, rec):
    states, dims = self.states_of(case)
    want = ref(states)
    n = len(states)
    items = list(range(n))
    add = lambda a, b: a + b
    perms = list(itertools.permutations(items))
    if n == 4:  # all groupings of the identity and reverse, all flat orders
      group_perms = [perms[0], perms[-1]]
    else:
      group_perms = perms if self.thorough or n < 3 else perms[::2]
    for perm in perms:
      got = State.sum([states[i] for i in perm])
      rec.transition()
      compare(got, want, dims, f'sum of {perm}')
      if perm == perms[-1]:
        got = State.sum(states[i] for i in perm)   # any iterable
        compare(got, want, dims, f'sum of generator {perm}')
      rec.state((case['subs'], perm))
    for perm in group_perms:
      for t in trees(perm):
        got = evaluate(t, lambda i: states[i], add)
        rec.transition(n)
        compare(got, want, dims, f'grouping {t}')
        rec.trace(outcome=str(sorted(want[1].items(), key=str)))
    for pos in range(n + 1):   # zero is the identity
      seq = states[:pos] + [State.zero()] + states[pos:]
      compare(State.sum(seq), want, dims, f'zero at {pos}')
      acc = State.zero() if pos % 2 else None
      for st in seq:
        acc = st if acc is None else acc + st
      compare(acc, want, dims, f'zero at {pos} with +')
      rec.transition(2)
    # the summands themselves are untouched
    for i, st in enumerate(self.states_of(case)[0]):
      for (p, a), (q, b) in zip(leaves(st), leaves(states[i])):
        same_da(b, a, f'summand {i} changed {p}')

  def run_combine(self, case, rec):
    """CombiningSum on every partition into accumulators, merged in any order."""
    states, dims = self.states_of(case)
    arrays = [st.sum_weighted_statistics['stat']['v'] for st in states]
    mk = lambda das: ref([State({'s': {'v': d}}, {'s': {'v': d}}) for d in das])
    want = mk(arrays)
    fn = beam_utils.CombiningSum()
    n = len(arrays)

    def build(order, assign, nacc, merge_shape, compact):
      accs = [fn.create_accumulator() for _ in range(nacc)]
      for i in order:
        accs[assign[i]] = fn.add_input(accs[assign[i]], arrays[i])
        rec.transition()
      if compact:
        accs = [fn.compact(a) for a in accs]
      if merge_shape == 'flat':
        acc = fn.merge_accumulators(accs)
      elif merge_shape == 'gen':
        acc = fn.merge_accumulators(a for a in accs[::-1])
      else:
        acc = accs[0]
        for a in accs[1:]:
          acc = fn.merge_accumulators([fn.merge_accumulators([a]), acc])
      return fn.extract_output(acc)

    for order in itertools.permutations(range(n)):
      for nacc in (1, 2, 3):
        for assign in itertools.product(range(nacc), repeat=n):
          if nacc > 1 and assign[0] != 0 and not self.thorough:
            continue  # accumulators are interchangeable up to merge order
          shape = ('flat', 'gen', 'chain')[(sum(assign) + nacc) % 3]
          shapes = ('flat', 'gen', 'chain') if self.thorough else (shape,)
          for shape in shapes:
            out = build(order, assign, nacc, shape, compact=bool(assign[-1]))
            rec.trace()
            compare(State({'s': {'v': out}}, {'s': {'v': out}}), want, dims,
                    f'accumulators {order} {assign} {nacc} {shape}')
            rec.state((case['subs'], order, assign, shape))
    rec.outcome(str(sorted(want[1].items(), key=str)))

  def run_reduce(self, case, rec):
    states, dims = self.states_of(case)
    total = State.sum(states)
    arr = xr.DataArray([0.5, 3.0], dims=['e'], coords={'e': [10, 20]})
    lab = LABELS[case['kind']]
    arr2 = xr.DataArray([1.5, 2.0, 4.0], dims=['s'], coords={'s': lab}).sortby('s')

    def red(st, over):
      return st.sum_along_dims(over)

    for over in (['e'], ['s'], ['s', 'e'], ('e',), []):
      keep = [d for d in dims if d not in over]
      first = State.sum([red(st, over) for st in states])
      last = red(total, over)
      rec.transition(2)
      last_d = dict(leaves(last))
      for p, a in leaves(first):
        same_da(a, last_d[p], f'reduce {over} before/after {p}', order=False)
      # reference
      wanted, _ = ref(states)
      for p, da in leaves(last):
        check(set(da.dims) == set(keep), f'{p}: dims {da.dims}')
        da = da.transpose(*keep)
        for idx in np.ndindex(*da.shape):
          key = {d: da[d].values.tolist()[j] for d, j in zip(keep, idx)}
          w = sum(v for k, v in wanted[p].items()
                  if all(k[dims.index(d)] == x for d, x in key.items()))
          check(abs(float(da.values[idx]) - w) < 1e-6, f'sum over {over} of {p} '
                f'at {key} is {da.values[idx]}, expected {w}')
      rec.trace(outcome=(case['subs'], tuple(over)))
    # dot products
    for arrays, dim in (((arr,), 'e'), ((arr,), ['e']), ((arr2,), 's'),
                        ((arr, arr2), ['s', 'e'])):
      dd = [dim] if isinstance(dim, str) else dim
      keep = [d for d in dims if d not in dd]

      def factor(key):
        f = 1.0
        for a in arrays:
          d = a.dims[0]
          f *= float(a.values[a[d].values.tolist().index(key[dims.index(d)])])
        return f
      wanted, _ = ref(states)
      last = total.dot(*arrays, dim=dim)
      firsts = State.sum([st.dot(*arrays, dim=dim) for st in states])
      rec.transition(2)
      for got, what in ((last, 'dot of sum'), (firsts, 'sum of dots')):
        for p, da in leaves(got):
          check(set(da.dims) == set(keep), f'{what} {p}: dims {da.dims}')
          da = da.transpose(*keep)
          for idx in np.ndindex(*da.shape):
            key = {d: da[d].values.tolist()[j] for d, j in zip(keep, idx)}
            w = sum(v * factor(k) for k, v in wanted[p].items()
                    if all(k[dims.index(d)] == x for d, x in key.items()))
            check(abs(float(da.values[idx]) - w) < 1e-6 * max(1, abs(w)),
                  f'{what} {dim}: {p} at {key} is {da.values[idx]}, expected {w}')
      rec.trace()
    # maps act on sums and weights alike
    m = total.map(lambda x: x * 2)
    for (p, a), (q, b) in zip(leaves(m), leaves(total)):
      same_da(a, b * 2, f'map {p}')
    mm = State.map_multi(lambda x, y: x + y, total, total)
    for (p, a), (q, b) in zip(leaves(mm), leaves(m)):
      same_da(a, b, f'map_multi {p}')
    # mean = sums over weights
    mean = total.mean_statistics()
    for s in mean:
      for v in mean[s]:
        same_da(mean[s][v], total.sum_weighted_statistics[s][v]
                / total.sum_weights[s][v], f'mean {s} {v}')

  def run_many(self, case, rec):
    """Hundreds of partial results, as a real evaluation produces them."""
    k, dt = case['k'], case['dt']
    labels = {'same': lambda i: [1, 2], 'own': lambda i: [i],
              'window': lambda i: [i + 1, i], 'mod7': lambda i: [i % 7]}[case['lab']]

    def one(i):
      lab = labels(i)
      v = np.array([[i % 13 + j, i % 5 + 1] for j in range(len(lab))])
      da = lambda x: xr.DataArray(x.astype(dt), dims=('s', 'e'), coords={
          's': lab, 'e': [10, 20]})
      return State({'stat': {'v': da(v)}}, {'stat': {'v': da(v * 0 + 1)}})

    states = [one(i) for i in range(k)]
    want = ref(states)
    dims = ('s', 'e')
    fn = beam_utils.CombiningSum()

    def left(seq):
      acc = State.zero()
      for x in seq:
        acc = acc + x
      return acc

    def balanced(seq):
      if len(seq) == 1:
        return seq[0]
      return balanced(seq[:len(seq) // 2]) + balanced(seq[len(seq) // 2:])

    def combine(seq, bundle):
      out = {}
      for part in ('sum_weighted_statistics', 'sum_weights'):
        accs = []
        for b in range(0, len(seq), bundle):
          acc = fn.create_accumulator()
          for x in seq[b:b + bundle]:
            acc = fn.add_input(acc, getattr(x, part)['stat']['v'])
          accs.append(fn.compact(acc))
        out[part] = {'stat': {'v': fn.extract_output(fn.merge_accumulators(accs))}}
      return State(**out)

    orders = {'given': list(range(k)), 'reverse': list(range(k))[::-1],
              'stride': sorted(range(k), key=lambda i: (i * 7 % k, i))}
    ways = {'flat': State.sum, 'left': left, 'balanced': balanced,
            'bundles': lambda q: combine(q, 10), 'single': lambda q: combine(q, 1)}
    for o, order in orders.items():
      for w, way in ways.items():
        if o != 'given' and w != 'flat' and (k > 100 or not self.thorough):
          continue
        got = way([states[i] for i in order])
        rec.transition(k)
        compare(got, want, dims, f'{k} summands, {o} {w} {case}')
        rec.trace(outcome=(k, case['lab'], o, w))
        rec.state((k, dt, case['lab'], o, w))

  def run_zeros(self, case, rec):
    z = State.zero()
    for k in range(0, 5):
      got = State.sum([State.zero() for _ in range(k)])
      rec.transition()
      check(got.sum_weighted_statistics is None and got.sum_weights is None,
            f'sum of {k} zero states is not zero')
    got = z + z
    check(got.sum_weighted_statistics is None, 'zero + zero is not zero')
    check(z.sum_along_dims(['s']).sum_weighted_statistics is None,
          'reduction of zero is not zero')
    fn = beam_utils.CombiningSum()
    for k in range(4):
      check(fn.merge_accumulators([fn.create_accumulator()] * k) is None,
            'merging empty accumulators is not empty')
    rec.trace(outcome='zeros')

  def run_nan(self, case, rec):
    """Missing values stay missing in every order; others are unaffected."""
    a = make(0, (0, 1), 'str')
    b = make(1, (1, 2), 'str')
    for pos in itertools.product(range(2), range(2)):
      st = make(0, (0, 1), 'str')
      st.sum_weighted_statistics['stat']['v'].values[pos] = np.nan
      for x, y in ((st, b), (b, st)):
        got = (x + y)
        rec.transition()
        clean = (a + b)
        clean = dict(leaves(clean))
        for p, g in leaves(got):
          w = clean[p].copy()
          if p == ('sum_weighted_statistics', 'stat', 'v'):
            w.loc[dict(s=LABELS['str'][pos[0]], e=[10, 20][pos[1]])] = np.nan
          same_da(g, w, f'nan at {pos} {p}', order=False)
        red = got.sum_along_dims(['e'])
        lab = LABELS['str'][pos[0]]
        check(bool(np.isnan(red.sum_weighted_statistics['stat']['v'].sel(s=lab))),
              'missing value disappeared in a further reduction')
        rec.trace(outcome=pos)


CHECK = C05
