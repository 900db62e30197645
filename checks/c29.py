"""C29: tree mapping and slicing visit every array once, in place."""

import itertools

import numpy as np
import xarray as xr

from mc import core
from mc.xrutil import check, close, fail, fingerprint
from weatherbenchX import xarray_tree
from weatherbenchX.statistical_inference import utils as iu

LABELS = {'n': [10, 20], 'o': [20, 30], 'r': [20, 10]}


def leaf(kind, tag):
  """A DataArray whose value identifies it."""
  if kind == 's':
    return xr.DataArray(100.0 * tag)
  if kind == 'u':  # no labels
    return xr.DataArray(100.0 * tag + np.arange(2), dims='x')
  if kind == 'k':  # with a further coordinate
    return xr.DataArray(100.0 * tag + np.arange(2), dims='x', coords={
        'x': LABELS['n'], 'aux': ('x', ['p', 'q']), 'sc': 5})
  if kind == '2':
    return xr.DataArray(100.0 * tag + np.arange(4).reshape(2, 2),
                        dims=['y', 'x'], coords={'x': LABELS['n']})
  return xr.DataArray(100.0 * tag + np.arange(2), dims='x',
                      coords={'x': LABELS[kind]})


# A shape is a string (a leaf), a number (another leaf value) or
# (container, [(name, shape), ...]).
def shapes(depth, leaves, width=2):
  for l in leaves:
    yield l
  for n in range(width + 1):
    for l in itertools.product(('n', 's'), repeat=n):
      yield ('ds', tuple(zip('ba', l)))
  if depth == 0:
    return
  for c in ('dict', 'list', 'tuple'):
    subs = list(shapes(depth - 1, leaves[:1], width))
    yield (c, ())
    for s in subs:
      yield (c, (('b', s),))
    for s, t in itertools.product(subs, repeat=2):
      if depth == 1 or isinstance(s, str) or isinstance(t, str):
        yield (c, (('b', s), ('a', t)))


def build(shape, ids, reverse=False):
  """The structure; leaves get consecutive numbers from the iterator ids.

  reverse: mappings in reversed order.
  """
  if isinstance(shape, str):
    return leaf(shape, next(ids))
  kind, items = shape
  out = {k: build(s, ids, reverse) for k, s in items}
  if reverse:
    out = dict(reversed(list(out.items())))
  if kind == 'ds':
    return xr.Dataset(out)
  if kind == 'dict':
    return out
  seq = [out[k] for k, _ in items]
  return seq if kind == 'list' else tuple(seq)


def count(shape):
  return 1 if isinstance(shape, str) else sum(count(s) for _, s in shape[1])


def tag_of(da):
  return int(np.ravel(da.values)[0]) // 100


def datasets(shape):
  if isinstance(shape, str):
    return 0
  return (shape[0] == 'ds' and len(shape[1]) > 0) + sum(
      datasets(s) for _, s in shape[1])


FUNCS = ('plus', 'none', 'allnone', 'float', 'mixed', 'other', 'rename',
         'scalar', 'grow', 'dict', 'coord')


def apply(kind, tag, da):
  """The function applied to the leaf number tag."""
  if kind == 'plus':
    return da + 1
  if kind == 'none':
    return None if tag % 2 else da * 2
  if kind == 'allnone':
    return None
  if kind == 'float':
    return float(tag)
  if kind == 'mixed':
    return da if tag % 2 else 'text'
  if kind == 'other':  # different labels for every leaf
    return xr.DataArray([1.0, 2.0], dims='z', coords={'z': [tag, tag + 1]})
  if kind == 'rename':
    return (da + 3).rename('other')
  if kind == 'scalar':
    return da.sum()
  if kind == 'grow':
    return da.expand_dims(z=[7, 8]) * 1.0
  if kind == 'dict':
    return {'t': da}
  if kind == 'coord':  # a coordinate that differs between leaves
    return da.assign_coords(extra=tag)
  raise ValueError(kind)


def same_values(a, b):
  """Equality of two arrays, in which missing numbers are equal."""
  nan = all(np.asarray(v).dtype.kind == 'f' for v in (a, b))
  return np.array_equal(a, b, equal_nan=nan)


def same_array(a, b, what):
  check(isinstance(a, xr.DataArray), f'{what}: {type(a)} is not a DataArray')
  check(a.dims == b.dims and a.shape == b.shape and a.dtype == b.dtype,
        f'{what}: {a.dims} {a.shape} {a.dtype}, expected {b.dims} {b.shape} '
        f'{b.dtype}')
  check(np.array_equal(a.values, b.values), f'{what}: {a.values}, expected '
        f'{b.values}')
  for c in b.coords:
    check(c in a.coords and a[c].dims == b[c].dims and
          same_values(a[c].values, b[c].values),
          f'{what}: coordinate {c}, expected {b[c].values}')
  check(set(a.coords) <= set(b.coords), f'{what}: coordinates {list(a.coords)} '
        f'appeared, expected {list(b.coords)}')


def joinable(arrays):
  """Whether the arrays can form a Dataset with their own coordinates."""
  seen, sizes = {}, {}
  for a in arrays:
    for d in a.dims:
      if sizes.setdefault(d, a.sizes[d]) != a.sizes[d]:
        return False
    for c in a.coords:
      v = a[c]
      if c in seen and not (seen[c].dims == v.dims and
                            same_values(seen[c].values, v.values)):
        return False
      seen.setdefault(c, v)
  # A dimension with labels for one array and without for another
  return True


class C29(core.Check):
  id = 'C29'
  rule = ('all trees up to a depth and width over dict/Dataset/list/tuple x '
          'kinds of functions (including missing, mixed, and incompatible '
          'results) x one to three corresponding trees; all sets of small '
          'arrays with all dimension sets, label kinds and orders x slicing '
          'dimensions x functions')
  assumptions = ('trees have the same structure (Datasets and mappings may be '
                 'exchanged at the leaf level)',)

  def cases(self):
    n = 8
    for i in range(n):
      yield {'k': 'trees', 'part': i, 'of': n}
    for f in FUNCS:
      yield {'k': 'datasets', 'f': f}
    yield {'k': 'misuse'}
    for sizes in itertools.product((1, 2, 3), repeat=2):
      for lab in ('none', 'int', 'down', 'shuffled', 'str', 'time'):
        yield {'k': 'slices', 'sizes': list(sizes), 'lab': lab}
    for lab in ('none', 'int', 'shuffled', 'str', 'time'):
      for dims in ('x', 'y', 'xy', 'yx'):
        yield {'k': 'args', 'lab': lab, 'dims': dims}
    yield {'k': 'dup'}
    yield {'k': 'slice_misuse'}

  def run_case(self, case, rec):
    getattr(self, '_' + case['k'])(case, rec)

  # ---- map_structure

  def verify(self, shape, got, calls, results, what):
    """Compares a result for the given shape; consumes calls in any order."""
    if isinstance(shape, str):
      want = results[next(calls)]
      if isinstance(want, xr.DataArray):
        same_array(got, want, what)
        check(got.name == want.name, f'{what}: name {got.name}')
      else:
        check(got is want or got == want, f'{what}: {got}, expected {want}')
      return
    kind, items = shape
    if kind in ('list', 'tuple'):
      check(type(got) is {'list': list, 'tuple': tuple}[kind],
            f'{what}: {type(got)} for a {kind}')
      check(len(got) == len(items), f'{what}: {len(got)} items')
      for i, (_, s) in enumerate(items):
        self.verify(s, got[i], calls, results, f'{what}[{i}]')
      return
    if kind == 'dict':
      check(isinstance(got, dict), f'{what}: {type(got)} for a dict')
      check(list(got) == [k for k, _ in items], f'{what}: names {list(got)}')
      for k, s in items:
        self.verify(s, got[k], calls, results, f'{what}[{k}]')
      return
    want = {k: results[next(calls)] for k, _ in items}
    self.verify_dataset(got, want, what)

  def verify_dataset(self, got, want, what):
    arrays = {k: v for k, v in want.items() if v is not None}
    ok = all(isinstance(v, xr.DataArray) for v in arrays.values())
    if ok and joinable(arrays.values()):
      check(isinstance(got, xr.Dataset), f'{what}: {type(got)}, expected a '
            'Dataset')
      check(list(got.data_vars) == list(arrays), f'{what}: names '
            f'{list(got.data_vars)}, expected {list(arrays)}')
      for k, v in arrays.items():
        g = got[k]
        # Arrays of a Dataset have the scalar coordinates of each other, and
        # labels of shared dimensions.
        more = [c for c in g.coords if c not in v.coords and any(
            isinstance(o, xr.DataArray) and c in o.coords
            for o in arrays.values())]
        same_array(g.drop_vars(more), v, f'{what}[{k}]')
    else:
      check(isinstance(got, dict), f'{what}: {type(got)}, expected a dict')
      check([k for k in got if got[k] is not None] == list(arrays),
            f'{what}: names {list(got)}, expected {list(arrays)}')
      for k, v in arrays.items():
        if isinstance(v, xr.DataArray):
          same_array(got[k], v, f'{what}[{k}]')
        else:
          check(got[k] == v if not isinstance(v, dict) else got[k] is v,
                f'{what}[{k}]: {got[k]}, expected {v}')

  def run(self, shape, kind, n, rec, reverse=False):
    m = count(shape)
    trees = []
    for j in range(n):
      trees.append(build(shape, iter(range(1 + j * m, 1 + (j + 1) * m)),
                         reverse and j == 1))
    before = fingerprint(trees)
    calls = []
    results = {}
    def func(*leaves):
      tags = tuple(tag_of(l) for l in leaves)
      calls.append(tags)
      out = apply(kind, tags[0], leaves[0] if n == 1 else
                  leaves[0] + sum(leaves[1:]))
      results[tags[0]] = out
      return out
    what = f'{kind} over {n} x {shape}'
    got = xarray_tree.map_structure(func, *trees)
    rec.transition()
    rec.nodes += 1
    # In a reversed mapping the numbers are still those of the names.
    want = [tuple(i + 1 + j * m for j in range(n)) for i in range(m)]
    check(sorted(calls) == want, f'{what}: the function was called for '
          f'{calls}, expected {want}')
    check(fingerprint(trees) == before, f'{what}: inputs changed')
    self.verify(shape, got, iter(range(1, m + 1)), results, what)
    rec.trace(1, (what,))

  def _trees(self, case, rec):
    depth = 2
    leaves = ['n', 's', 'u', 'k', '2']
    for i, shape in enumerate(shapes(depth, leaves)):
      if i % case['of'] != case['part']:
        continue
      big = datasets(shape) >= 2
      for f in FUNCS:
        if big and not self.thorough and f not in ('plus', 'none', 'other',
                                                   'float'):
          continue
        self.run(shape, f, 1, rec)
      for n in (2, 3):
        if n == 3 and big and not self.thorough:
          continue
        self.run(shape, 'plus', n, rec)
        self.run(shape, 'none', n, rec, reverse=True)

  def _datasets(self, case, rec):
    """All pairs and triples of arrays that form a Dataset or a dictionary."""
    f = case['f']
    for n in (1, 2, 3):
      for kinds in itertools.product(('s', 'n', 'k', '2'), repeat=n):
        shape = ('ds', tuple(zip('cab', kinds)))
        if n == 3 and not self.thorough and len(set(kinds)) == 1:
          continue
        self.run(shape, f, 1, rec)
        self.run(shape, f, 2, rec, reverse=True)
    # The result of the function decides.
    for a, b in itertools.product(('s', 'n', 'o', 'r', 'u', 'k', '2'),
                                  repeat=2):
      ds = xr.Dataset({'p': 1.0, 'q': 2.0})
      x, y = leaf(a, 1), leaf(b, 2)
      if f == 'coord':
        x, y = x.assign_coords(extra=1), y.assign_coords(extra=1)
      elif f == 'grow':
        # Missing labels are never filled in.
        x = x.assign_coords(extra=np.nan)
        y = y.assign_coords(extra=7.0)
      elif f == 'rename':
        x, y = x.rename('q'), y.rename('p')
      elif f != 'plus':
        continue
      got = xarray_tree.map_structure(
          lambda v, x=x, y=y: x if float(v) == 1 else y, ds)
      rec.transition()
      rec.nodes += 1
      labelled = ['x' in v.coords for v in (x, y) if 'x' in v.dims]
      what = f'Dataset of {a} and {b} ({f})'
      if len(set(labelled)) < 2:
        self.verify_dataset(got, {'p': x, 'q': y}, what)
      else:  # one of them has no labels: either is fine
        for k, v in (('p', x), ('q', y)):
          check(np.array_equal(got[k].values, v.values), f'{what}: {got[k]}')
      rec.trace(1, (f, a, b))

  def _misuse(self, case, rec):
    d = leaf('n', 1)
    for f in (lambda: xarray_tree.map_structure(None, d),
              lambda: xarray_tree.map_structure(3, d),
              lambda: xarray_tree.map_structure(lambda x: x),
              lambda: xarray_tree.map_structure(lambda x, y: x, {'a': d},
                                                {'b': d}),
              lambda: xarray_tree.map_structure(
                  lambda x, y: x, xr.Dataset({'a': d}), {'b': d}),
              lambda: xarray_tree.map_structure(lambda x: x.foo, {'a': d})):
      try:
        f()
      except Exception:  # pylint: disable=broad-except
        rec.transition()
        continue
      fail('misuse is not rejected')
    # Datasets and mappings can be combined.
    for a, b in itertools.product((dict, xr.Dataset), repeat=2):
      x = a({'v': leaf('n', 1), 'w': leaf('s', 2)})
      y = b({'w': leaf('s', 4), 'v': leaf('n', 3)})
      got = xarray_tree.map_structure(lambda p, q: p * 1000 + q, x, y)
      check(type(got) is a and list(got) == ['v', 'w'], f'{type(got)}')
      check(np.array_equal(got['v'].values, [100300, 101301]) and
            float(got['w']) == 200400, f'{got}')
      rec.transition()
      rec.nodes += 1
      rec.trace(1, (str(a), str(b)))

  # ---- apply_to_slices

  def labels(self, kind, n, dim):
    if kind == 'none':
      return None
    if kind == 'str':
      return [f'{dim}{i}' for i in (2, 0, 1)][:n]
    if kind == 'time':
      return (np.datetime64('2020-01-01', 'ns') + np.array([2, 0, 1])[:n] *
              np.timedelta64(1, 'D'))
    if kind == 'int':
      return list(range(10, 10 + n))
    if kind == 'down':
      return list(range(10, 10 - n, -1))
    return [3, 1, 2][:n]

  def array(self, dims, sizes, lab, seed=0, order=None, name=None):
    shape = [sizes[d] for d in dims]
    x = np.arange(int(np.prod(shape)), dtype=float).reshape(shape) ** 2 + seed
    co = {}
    for d in dims:
      l = self.labels(lab if d != 'z' else 'int', sizes[d], d)
      if l is not None:
        co[d] = l
        if d == 'x':
          co['aux'] = (d, np.arange(sizes[d]) * 1.5)
    out = xr.DataArray(x, dims=list(dims), coords=co, name=name)
    if order is not None:
      out = out.transpose(*order)
    return out

  def by_slices(self, func, args, dims, tree, what, rec):
    """Calls apply_to_slices, and compares with all slices by label."""
    calls = []
    def f(*a):
      calls.append(1)
      for v in a:
        for d in dims:
          check(d not in v.dims or v.sizes[d] == 1,
                f'{what}: size of {d} is {v.sizes}')
      out = func(*a)
      return {'t': (out,)} if tree else out
    before = fingerprint(args)
    got = iu.apply_to_slices(f, *args, dim=dims if len(dims) > 1 else dims[0])
    if tree:
      got = got['t'][0]
    rec.transition(len(calls))
    rec.nodes += 1
    check(fingerprint(args) == before, f'{what}: inputs changed')
    first = {d: next(a for a in args if d in a.dims) for d in dims}
    size = {d: first[d].sizes[d] for d in dims}
    check(len(calls) == int(np.prod(list(size.values()))),
          f'{what}: {len(calls)} calls')
    def lab(d, i):
      return first[d][d].values[i] if d in first[d].coords else i
    for idx in itertools.product(*[range(size[d]) for d in dims]):
      sl = []
      for a in args:
        for d, i in zip(dims, idx):
          if d not in a.dims:
            continue
          if d in a.coords:
            p = list(a[d].values).index(lab(d, i))
          else:
            p = i
            a = a.assign_coords({d: np.arange(a.sizes[d])})
          a = a.isel({d: [p]})
        sl.append(a)
      want = func(*sl)
      g = got
      for d, i in zip(dims, idx):
        check(d in g.coords, f'{what}: no labels of {d}')
        p = [k for k, v in enumerate(g[d].values) if v == lab(d, i)]
        check(len(p) == 1, f'{what}: label {lab(d, i)} is at {p}')
        g = g.isel({d: p})
      check(g.name == want.name, f'{what}: name {g.name}')
      check(set(g.dims) == set(want.dims), f'{what}: {g.dims}')
      check(np.array_equal(g.transpose(*want.dims).values, want.values,
                           equal_nan=True),
            f'{what}: slice {idx} is {g.values}, expected {want.values}')
      for c in want.coords:
        check(c in g.coords and np.array_equal(
            g[c].values.ravel(), want[c].values.ravel()),
              f'{what}: coordinate {c} of slice {idx}')
    for d in dims:
      check(got.sizes[d] == size[d], f'{what}: size of {d} is {got.sizes[d]}')
    rec.trace(1, (what,))
    return got

  FUNCS = {
      'same': lambda a: a,
      'sum': lambda a: a.sum([d for d in a.dims if d == 'z']),
      'new': lambda a: a.expand_dims(new=['u', 'v']) * xr.DataArray(
          [1.0, 2.0], dims='new', coords={'new': ['u', 'v']}),
      'rank': lambda a: a * 0 + float(a.max()),
      'named': lambda a: (a + 1).rename('result'),
      'nan': lambda a: a.where(a % 2 == 0),
  }

  def _slices(self, case, rec):
    sizes = dict(zip('xy', case['sizes']), z=2)
    for n in (1, 2, 3):
      for order in itertools.permutations('xyz', n):
        a = self.array(order, sizes, case['lab'])
        for r in (1, 2):
          for dims in itertools.permutations([d for d in order if d != 'z'], r):
            for f, fn in self.FUNCS.items():
              if f != 'same' and order != tuple(sorted(order)) and (
                  not self.thorough):
                continue
              self.by_slices(fn, (a.rename('v') if f == 'sum' else a,),
                             list(dims), f == 'same', f'{case} {order} {dims} '
                             f'{f}', rec)

  def _args(self, case, rec):
    """Two arrays; the second has all dimension sets and label orders."""
    sizes = {'x': 3, 'y': 2, 'z': 2}
    dims = list(case['dims'])
    a = self.array('xyz', sizes, case['lab'])
    for n in (0, 1, 2, 3):
      for od in itertools.combinations('xyz', n):
        b = self.array(od, sizes, case['lab'], seed=0.5)
        perms = [None]
        if case['lab'] != 'none':
          perms = [d for d in itertools.permutations(range(3))
                   if 'x' in od or d == (0, 1, 2)]
        for p in perms:
          c = b
          if p is not None:
            if 'x' in od:
              c = c.isel(x=list(p))
            if 'y' in od and p[0] == 2:
              c = c.isel(y=[1, 0])
          c = c.drop_vars('aux', errors='ignore')
          what = f'{case} second {od} order {p}'
          self.by_slices(lambda u, v: u * 1000 + v, (a, c), dims, False, what,
                         rec)
          if 'x' in od and 'y' in od:
            self.by_slices(lambda u, v: u * 1000 + v, (c, a), dims, True,
                           what + ' swapped', rec)
    # Trees of arguments.
    b = self.array('xy', sizes, case['lab'], seed=0.25).drop_vars(
        'aux', errors='ignore')
    for mk in (lambda: {'p': a, 'q': b}, lambda: [a, b], lambda: (a, b),
               lambda: xr.Dataset({'p': a, 'q': b})):
      tree = mk()
      if isinstance(tree, xr.Dataset) and case['lab'] == 'none':
        tree = tree.assign_coords(x=[5, 6, 7], y=[1, 2])
      got = iu.apply_to_slices(
          lambda t: xarray_tree.map_structure(lambda v: v * 2, t), tree,
          dim=dims)
      check(type(got) is type(tree), f'{case}: {type(got)}')
      keys = list(got) if isinstance(got, (dict, xr.Dataset)) else range(2)
      for k, w in zip(keys, (a, b)):
        if not all(d in w.dims for d in dims):
          continue
        g = got[k]
        for d in w.dims:
          if d in w.coords:
            g = g.sel({d: w[d].values})
        check(np.array_equal(g.transpose(*w.dims).values, w.values * 2),
              f'{case}: {type(tree)} {k} is {g.values}')
      rec.transition()
      rec.nodes += 1
    for form in (tuple(dims), list(dims)) + ((dims[0],) if len(dims) == 1
                                             else ()):
      got = iu.apply_to_slices(lambda v: v, a, dim=form)
      check(close(float(got.sum()), float(a.sum())), f'{case} {form}')
      rec.transition()

  def _dup(self, case, rec):
    """Repeated labels must not lose values silently."""
    for labs in itertools.product((1, 2, 3), repeat=3):
      a = xr.DataArray([1.0, 10.0, 100.0], dims='x', coords={'x': list(labs)})
      rec.transition()
      rec.nodes += 1
      try:
        got = iu.apply_to_slices(lambda v: v * 2, a, dim='x')
      except Exception as e:  # pylint: disable=broad-except
        check(len(set(labs)) < 3, f'{labs}: {type(e).__name__} {e}')
        continue
      check(sorted(zip(got.x.values.tolist(), got.values.tolist())) ==
            sorted(zip(labs, [2.0, 20.0, 200.0])),
            f'labels {labs}: result {got.values} at {got.x.values}')
      rec.trace(1, labs)

  def _slice_misuse(self, case, rec):
    a = self.array('xy', {'x': 3, 'y': 2}, 'int')
    u = a.drop_vars(['x', 'y', 'aux'])
    bad = [
        lambda: iu.apply_to_slices(lambda v: v, a, dim='q'),
        lambda: iu.apply_to_slices(lambda v: v, a, dim=['x', 'q']),
        lambda: iu.apply_to_slices(lambda v, w: v, a, a.isel(x=[0, 1]), dim='x'),
        lambda: iu.apply_to_slices(lambda v, w: v, u, u.isel(x=[0, 1]), dim='x'),
        lambda: iu.apply_to_slices(lambda v, w: v, a, a.isel(x=[0]), dim='x'),
        lambda: iu.apply_to_slices(lambda v, w: v, a,
                                   a.assign_coords(x=[10, 11, 13]), dim='x'),
        lambda: iu.apply_to_slices(lambda v, w: v, {'p': a},
                                   {'q': a.isel(y=[0])}, dim=['x', 'y']),
    ]
    for i, f in enumerate(bad):
      rec.transition()
      try:
        f()
      except Exception:  # pylint: disable=broad-except
        continue
      fail(f'inconsistent arguments {i} are not rejected')


CHECK = C29
