"""A Beam runner whose every scheduling decision is a choice point.

`run(pipeline, chooser)` interprets the graph that the real code built.  What a
runner may legally do, and what is therefore explored:
  * the order of the elements of every collection
  * how a collection is cut into bundles; each bundle may run on a fresh worker
    (a freshly unpickled DoFn)
  * a bundle may be executed more than once (failure after all or after the
    first element, or a redundant backup attempt): outputs of all but one
    attempt are dropped, inputs are decoded again for each attempt
  * the order of the keys and values of a GroupByKey
  * for CombineFns: pre-combining into any number of accumulators, empty
    accumulators, merging in any shape, compaction, accumulators crossing a
    process boundary (pickling)
  * which of several consumers of a collection runs first
Choice 0 is the plain in-order single-worker execution.
"""

import inspect
import itertools
import pickle

import apache_beam as beam
from apache_beam.internal import pickler
from apache_beam.transforms import core as beam_core
from apache_beam.transforms import window as beam_window
from apache_beam.utils.timestamp import MIN_TIMESTAMP
from apache_beam.utils.windowed_value import WindowedValue


class Unsupported(Exception):
  pass


class WorkerFailure(Exception):
  """Injected worker crash."""


def orders(n):
  """Representative orders: all for n <= 3, else a covering family."""
  if n <= 3:
    return list(itertools.permutations(range(n)))
  base = list(range(n))
  out = [tuple(base), tuple(base[::-1])]
  for r in (1, n // 2, n - 1):
    out.append(tuple(base[r:] + base[:r]))
  sw = base[:]
  sw[0], sw[1] = sw[1], sw[0]
  out.append(tuple(sw))
  out.append(tuple(base[::2] + base[1::2]))
  seen = []
  for o in out:
    if o not in seen:
      seen.append(o)
  return seen


COMBINE_SHAPES = ('fold', 'leaves_flat', 'reverse_fold', 'empties', 'chain',
                  'balanced', 'pickled', 'two_level')


NEW_WORKER = []  # called whenever a worker (process) starts


def new_worker(fnblob):
  for hook in NEW_WORKER:
    hook()
  return pickler.loads(fnblob)


class Run:

  def __init__(self, pipeline, chooser, rec=None, fresh=True):
    self.p = pipeline
    self.ch = chooser
    self.rec = rec
    self.values = {}
    self.uses = {}
    self.global_shape = None
    self.log = []

  # -- choices ---------------------------------------------------------
  def choose(self, options, label):
    if len(options) <= 1:
      return options[0]
    i = self.ch.choose(len(options), label)
    if i:
      self.log.append((label, repr(options[i])))
    return options[i]

  # -- graph -----------------------------------------------------------
  def run(self):
    self.global_shape = self.choose(COMBINE_SHAPES, 'combine shape everywhere')
    self.do(self.p.transforms_stack[0])
    return self

  def do(self, node):
    t = node.transform
    if isinstance(t, beam.Impulse):
      return self.put(node, [b''])
    if isinstance(t, beam.Reshuffle):
      return self.put(node, self.shuffle(self.get(node), node.full_label))
    if isinstance(t, beam.CombinePerKey):
      return self.put(node, self.combine(node, t))
    if isinstance(t, beam.GroupByKey):
      return self.put(node, self.group(node))
    if isinstance(t, beam.Flatten):
      out = []
      for x in node.inputs:
        out += self.values[x]
      return self.put(node, out)
    if isinstance(t, beam.ParDo):
      return self.pardo(node, t)
    if not node.parts:
      if node.outputs and node.inputs and set(node.outputs.values()) <= set(node.inputs):
        return  # identity
      raise Unsupported(f'{node.full_label}: {type(t).__name__}')
    parts = list(node.parts)
    # independent consumers of the same collection may run in any order
    ready = []
    for part in parts:
      ready.append(part)
    self.do_parts(ready, node.full_label)

  def do_parts(self, parts, label):
    pending = list(parts)
    done_outputs = set(self.values)
    while pending:
      enabled = [p for p in pending
                 if all(x in self.values or not self.made_by(x, pending)
                        for x in p.inputs)
                 and all(s.pvalue in self.values
                         or not self.made_by(s.pvalue, pending)
                         for s in p.side_inputs)]
      if not enabled:
        raise Unsupported('cyclic graph')
      p = self.choose(enabled, f'next stage in {label or "root"}')
      self.do(p)
      pending.remove(p)
    del done_outputs

  def made_by(self, pv, parts):
    def outs(n):
      yield from n.outputs.values()
      for q in n.parts:
        yield from outs(q)
    return any(pv in set(outs(p)) for p in parts)

  def get(self, node):
    (x,) = node.inputs
    return self.values[x]

  def put(self, node, vals, tag=None):
    self.values[node.outputs[tag]] = vals

  # -- primitives --------------------------------------------------------
  def shuffle(self, vals, label):
    """A materialised, unordered collection."""
    blobs = [pickler.dumps(v) if not _plain(v) else pickle.dumps(v) for v in vals]
    o = self.choose(orders(len(blobs)), f'order after {label}')
    return [pickle_loads(blobs[i], vals[i]) for i in o]

  def pardo(self, node, t):
    vals = self.get(node)
    fn = t.fn
    label = node.full_label
    args, kwargs = self.side_inputs(node, t)
    outs = {tag: [] for tag in node.outputs}
    trivial = isinstance(fn, beam_core.CallableWrapperDoFn)
    o = self.choose(orders(len(vals)), f'element order at {label}')
    vals = [vals[i] for i in o]
    if len(vals) > 1:
      cuts = [(len(vals),), tuple([1] * len(vals))]
      if len(vals) > 2:
        cuts.append((1, len(vals) - 1))
        cuts.append((len(vals) - 1, 1))
      if trivial:
        cuts = cuts[:2]
      cut = self.choose(cuts, f'bundles at {label}')
    else:
      cut = (len(vals),)
    fnblob = pickler.dumps(fn)
    pos = 0
    worker = new_worker(fnblob)
    call(worker.setup)
    used = False
    for b, size in enumerate(cut):
      bundle = vals[pos:pos + size]
      pos += size
      if not bundle:
        continue
      modes = ['once', 'again', 'crash_first', 'backup']
      if trivial:
        modes = modes[:2]
      mode = self.choose(modes, f'attempts of bundle {b} at {label}')
      if used and self.choose((0, 1), f'fresh worker for bundle {b} at {label}'):
        worker = new_worker(fnblob)
        call(worker.setup)
      used = True
      blobs = None
      if mode != 'once':
        blobs = pickler.dumps(bundle)
      if mode == 'again':
        self.bundle(worker, pickler.loads(blobs), args, kwargs, {})
      elif mode == 'crash_first':
        self.bundle(worker, pickler.loads(blobs)[:1], args, kwargs, {}, False)
        worker = new_worker(fnblob)
        call(worker.setup)
      if mode != 'once':
        bundle = pickler.loads(blobs)
      self.bundle(worker, bundle, args, kwargs, outs)
      if mode == 'backup':
        w2 = new_worker(fnblob)
        call(w2.setup)
        self.bundle(w2, pickler.loads(blobs), args, kwargs, {})
    if self.rec is not None:
      self.rec.transition(len(vals))
    for tag, pv in node.outputs.items():
      self.values[pv] = outs[tag]

  def bundle(self, worker, elements, args, kwargs, outs, finish=True):
    call(worker.start_bundle)
    main = outs.setdefault(None, [])
    extra = defaults(worker.process, args)
    for e in elements:
      res = worker.process(e, *args, **{**extra, **kwargs})
      for x in res or ():
        if isinstance(x, beam.pvalue.TaggedOutput):
          outs.setdefault(x.tag, []).append(x.value)
        else:
          main.append(x)
    if finish:
      res = call(worker.finish_bundle)
      for x in res or ():
        main.append(x.value if isinstance(x, WindowedValue) else x)

  def side_inputs(self, node, t):
    args = list(getattr(t, 'args', ()) or ())
    kwargs = dict(getattr(t, 'kwargs', {}) or {})
    sides = list(node.side_inputs)

    def resolve(x):
      if isinstance(x, beam_core.ArgumentPlaceholder) if hasattr(
          beam_core, 'ArgumentPlaceholder') else type(
              x).__name__ == 'ArgumentPlaceholder':
        s = sides.pop(0)
        vals = self.values[s.pvalue]
        if isinstance(s, beam.pvalue.AsSingleton):
          return vals[0] if vals else s.default_value
        if isinstance(s, beam.pvalue.AsDict):
          return dict(vals)
        return list(vals)
      return x
    args = [resolve(a) for a in args]
    kwargs = {k: resolve(v) for k, v in sorted(kwargs.items())}
    return args, kwargs

  def group(self, node):
    vals = self.get(node)
    label = node.full_label
    groups, keys = {}, []
    for k, v in vals:
      kb = pickle.dumps(k)
      if kb not in groups:
        groups[kb] = []
        keys.append((kb, k))
      groups[kb].append(v)
    ko = self.choose(orders(len(keys)), f'key order at {label}')
    out = []
    for i in ko:
      kb, k = keys[i]
      vs = groups[kb]
      o = self.choose(orders(len(vs)), f'value order of {k} at {label}')
      vs = [pickler.loads(pickler.dumps(vs[j])) for j in o]
      out.append((k, Reiterable(vs)))
    return out

  def combine(self, node, t):
    vals = self.get(node)
    label = node.full_label
    fn = pickler.loads(pickler.dumps(t.fn))
    call(getattr(fn, 'setup', None))
    groups, keys = {}, []
    for k, v in vals:
      kb = pickle.dumps(k)
      if kb not in groups:
        groups[kb] = []
        keys.append((kb, k))
      groups[kb].append(v)
    ko = self.choose(orders(len(keys)), f'key order at {label}')
    out = []
    for i in ko:
      kb, k = keys[i]
      vs = groups[kb]
      if len(vs) > 1:
        o = self.choose(orders(len(vs)), f'value order of {k} at {label}')
        vs = [vs[j] for j in o]
      shape = self.global_shape
      if shape == 'fold':
        opts = COMBINE_SHAPES if len(vs) > 1 else COMBINE_SHAPES[:2]
        shape = self.choose(opts, f'combine shape of {k} at {label}')
      out.append((k, combine_values(fn, vs, shape)))
      if self.rec is not None:
        self.rec.transition(len(vs))
    return out


class Reiterable:
  """What Beam passes to consumers of a GroupByKey."""

  def __init__(self, vals):
    self._v = vals

  def __iter__(self):
    return iter(self._v)


def combine_values(fn, vs, shape):
  """Legal evaluations of a CombineFn."""
  acc0 = fn.create_accumulator

  def one(v):
    return fn.add_input(acc0(), v)

  def wire(a):
    return pickler.loads(pickler.dumps(a))

  if shape == 'fold':
    acc = acc0()
    for v in vs:
      acc = fn.add_input(acc, v)
  elif shape == 'reverse_fold':
    acc = acc0()
    for v in vs[::-1]:
      acc = fn.add_input(acc, v)
  elif shape == 'leaves_flat':
    acc = fn.merge_accumulators([one(v) for v in vs])
  elif shape == 'empties':
    accs = [acc0()]
    for v in vs:
      accs += [fn.merge_accumulators([one(v), acc0()]), acc0()]
    acc = fn.merge_accumulators(accs)
  elif shape == 'chain':
    acc = one(vs[0])
    for v in vs[1:]:
      acc = fn.merge_accumulators(iter([one(v), acc]))
  elif shape == 'balanced':
    level = [one(v) for v in vs]
    while len(level) > 1:
      nxt = [fn.merge_accumulators(level[i:i + 2])
             for i in range(0, len(level), 2)]
      level = nxt
    acc = level[0]
  elif shape == 'pickled':
    half = (len(vs) + 1) // 2
    a = acc0()
    for v in vs[:half]:
      a = wire(fn.compact(fn.add_input(a, wire(v))))
    b = acc0()
    for v in vs[half:]:
      b = wire(fn.compact(fn.add_input(b, wire(v))))
    acc = fn.merge_accumulators([wire(b), wire(a)])
  elif shape == 'two_level':
    half = (len(vs) + 1) // 2
    a = acc0()
    for v in vs[half:]:
      a = fn.add_input(a, v)
    acc = fn.merge_accumulators([a])
    for v in vs[:half]:  # adding to a merged accumulator
      acc = fn.add_input(acc, v)
    acc = fn.merge_accumulators([acc0(), fn.compact(acc)])
  else:
    raise AssertionError(shape)
  return fn.extract_output(acc)


def call(f, *a):
  return f(*a) if f is not None else None


def _plain(v):
  return isinstance(v, (int, str, bytes, type(None)))


def pickle_loads(blob, v):
  return pickle.loads(blob) if _plain(v) else pickler.loads(blob)


def defaults(process, args):
  """Values of Beam's special default parameters."""
  out = {}
  try:
    sig = inspect.signature(process)
  except (TypeError, ValueError):
    return out
  for name, prm in sig.parameters.items():
    d = prm.default
    if d is prm.empty or not isinstance(d, beam_core._DoFnParam):
      continue
    if d == beam.DoFn.TimestampParam:
      out[name] = MIN_TIMESTAMP
    elif d == beam.DoFn.WindowParam:
      out[name] = beam_window.GlobalWindow()
    elif d == beam.DoFn.PaneInfoParam:
      from apache_beam.utils.windowed_value import PANE_INFO_UNKNOWN
      out[name] = PANE_INFO_UNKNOWN
    else:
      raise Unsupported(f'DoFn parameter {d}')
  return out


def run(pipeline, chooser, rec=None):
  return Run(pipeline, chooser, rec).run()
