"""C09: result files appear atomically or not at all."""

import os
import shutil
import tempfile
import time
from unittest import mock

import apache_beam as beam  # noqa: F401
import numpy as np
import xarray as xr

from mc import core
from mc import mcfs
from mc import sched
from mc.xrutil import check, fail
from weatherbenchX import aggregation
from weatherbenchX import beam_pipeline
from weatherbenchX import beam_utils


class Crash(BaseException):
  """The process dies here: nothing it does afterwards has an effect."""


class Fault(OSError):
  pass


OLD = b'old-content-0123456789'
DATAS = {'w0': b'A' * 7, 'w1': b'B' * 12, 'w2': b'C' * 3, 'empty': b'',
         'one': b'Z', 'big': bytes(range(256)) * 40}
PATHS = ['a.nc', 'd/a.nc', 'd/e.x/f/results.v1.nc', 'd/no_suffix', 'd/tmp.a.nc',
         '/abs/p/a b.nc']


def norm(p):
  return p.strip('/')


def const_env():
  """Workers on different hosts may share clock, pid and thread ids."""
  return [mock.patch.object(time, 'time', lambda: 1.6e9),
          mock.patch.object(time, 'time_ns', lambda: 1600000000000000000),
          mock.patch.object(os, 'getpid', lambda: 42)]


class Env:
  """A disk with an optional previous file."""

  def __init__(self, path, prev, mkdir):
    self.disk = mcfs.reset()
    self.path = norm(path)
    if prev:
      for q in mcfs._parents(self.path):
        self.disk.dirs.add(q)
      self.disk.files[self.path] = OLD
    self.prev = OLD if prev else None
    self.mkdir = mkdir

  def dest(self):
    return self.disk.files.get(self.path)

  def others(self):
    return {k: v for k, v in self.disk.files.items() if k != self.path}

  def check_dest(self, allowed, where):
    got = self.dest()
    ok = list(allowed) + [self.prev]
    if not any(got == x for x in ok):
      fail(f'reader sees {got!r} at the destination {where}; allowed only '
           f'{ok!r}')


class C09(core.Check):
  id = 'C09'
  level = 'fault_enumeration'
  rule = ('every operation of the real writer on an in-memory file system is a '
          'step; all crash points, torn writes, single and double I/O faults, '
          'all interleavings of two writers, preemption-bounded interleavings '
          'of three; non-trivial = distinct (operation trace, final disk)')
  assumptions = (
      'the move operation of the file system is atomic (documented assumption '
      'of the code)',
      'readers observe the file system between file-system operations')

  def cases(self):
    for kind in ('direct', 'metrics', 'state'):
      for path in PATHS:
        for prev in (False, True):
          for mode in ('ok', 'crash', 'fault', 'crash_in_fault', 'interrupt'):
            for data in (('w0', 'empty', 'one', 'big') if kind == 'direct'
                         else ('w0',)):
              for mkdir in ((True, False) if kind == 'direct' else (True,)):
                yield dict(kind=kind, path=path, prev=prev, mode=mode,
                           data=data, mkdir=mkdir)
    for prev in (False, True):
      for path in ('d/a.nc', 'a.nc'):
        for w in (['w0', 'w1'], ['w1', 'w0'], ['w0', 'w0'], ['empty', 'w2']):
          full = self.thorough or (path == 'd/a.nc' and w == ['w0', 'w1'])
          yield dict(kind='conc', path=path, prev=prev, writers=w,
                     bound=None if full else 3, crash=False)
        yield dict(kind='conc', path=path, prev=prev, writers=['w0', 'w1'],
                   bound=3 if self.thorough else 2, crash=True)
        yield dict(kind='conc', path=path, prev=prev,
                   writers=['w0', 'w1', 'w2'], bound=4 if self.thorough else 2,
                   crash=False)
    for path in PATHS[:5]:
      for prev in (False, True):
        for pre in ('', 'file://'):
          for fault in (None, 'write', 'move'):
            yield dict(kind='local', path=path, prev=prev, pre=pre, fault=fault)

  # -- writers ----------------------------------------------------------
  def writer(self, kind, path, data, mkdir=True):
    url = 'mcfs://' + path
    if kind in ('direct', 'conc'):
      def go():
        beam_utils.atomic_write(url, DATAS[data], auto_mkdir=mkdir)
      return go, DATAS[data]
    ds = xr.Dataset({'m.v': ('x', np.arange(3.0))}, coords={'x': [1, 2, 3]})
    if kind == 'metrics':
      fn = beam_pipeline.WriteMetrics(url)
      return (lambda: list(fn.process(ds))), None
    st = aggregation.AggregationState(
        {'s': {'v': ds['m.v']}}, {'s': {'v': ds['m.v'] * 0 + 1}})
    fn = beam_pipeline.WriteAggregationState(url)
    return (lambda: list(fn.process(st))), None

  def run_case(self, case, rec):
    if case['kind'] == 'local':
      return self.run_local(case, rec)
    if case['kind'] == 'conc':
      return self.run_conc(case, rec)
    return self.run_single(case, rec)

  # -- one writer, faults and crashes ------------------------------------
  def run_single(self, case, rec):
    mode = case['mode']
    go, data = self.writer(case['kind'], case['path'], case['data'],
                           case['mkdir'])
    # fault-free run to learn the complete content and the operations
    env = Env(case['path'], case['prev'], case['mkdir'])
    ops = []
    env.disk.hook = lambda op, *a: ops.append(op)
    need_dir = '/' in env.path and not case['prev'] and not case['mkdir']
    if need_dir:
      try:
        go()
      except FileNotFoundError:
        check(env.dest() is None and not env.others(), 'failed write left files',
              env.disk.files)
        check(env.disk.dirs == {''}, 'directory created despite auto_mkdir=False')
        rec.trace(outcome='nodir')
        return
      fail('write into a missing directory succeeded with auto_mkdir=False')
    go()
    full = env.dest()
    check(full is not None, 'write returned but the destination is missing')
    if data is not None:
      check(full == data, f'destination holds {full[:50]!r}, expected {data[:50]!r}')
    check(not env.others(), 'temporary files remain after success',
          list(env.others()))
    allowed = [full]
    if case['kind'] != 'direct':
      # content is a NetCDF file of the data set
      r = xr.open_dataset(__import__('io').BytesIO(full))
      check(len(r.data_vars) >= 1, 'unreadable result file')
    rec.trace(outcome=('ok', tuple(ops)))
    if mode == 'ok':
      env.check_dest(allowed, 'at the end')
      # overwrite again: idempotent
      go()
      check(env.dest() == full and not env.others(), 'rewriting changed the result')
      return

    def run(ch):
      env = Env(case['path'], case['prev'], case['mkdir'])
      st = dict(crashed=False, faults=0, first=None, after_first=[], last=None)

      def hook(op, *a):
        rec.transition()
        env.check_dest(allowed, f'before {op}{a}')
        rec.state((case['kind'], op, sorted(env.disk.files.items())))
        if st['crashed']:
          raise Crash()
        if st['first'] is not None:
          st['after_first'].append(op)
        if op == 'exists':
          return
        budget = 2 if mode == 'crash_in_fault' else 1
        if st['faults'] < budget:
          m = mode
          if mode == 'crash_in_fault':
            m = 'fault' if st['faults'] == 0 else 'crash'
          if ch.choose(2, f'{m} at {op}'):
            st['faults'] += 1
            if st['first'] is None:
              st['first'] = (op,) + a
            if m == 'crash':
              st['crashed'] = True
              raise Crash()
            if m == 'interrupt':
              raise KeyboardInterrupt()
            raise Fault(5, f'I/O error at {op}')

      env.disk.hook = hook
      raised = None
      try:
        go()
      except (Crash, Fault, KeyboardInterrupt) as e:
        raised = e
      env.disk.hook = lambda *a: None
      env.check_dest(allowed, f'after {mode} at {st["first"]}')
      if st['faults'] == 0:
        check(raised is None, f'raised without a fault: {raised!r}')
        check(env.dest() == full and not env.others(), 'bad final state')
      elif mode in ('fault', 'interrupt'):
        op = st['first'][0]
        # a fault reported by the cleanup itself cannot be handled further
        check(raised is not None, f'I/O error at {st["first"]} was swallowed; '
              'the writer reported success')
        if mode == 'interrupt':
          check(isinstance(raised, KeyboardInterrupt),
                f'interrupt replaced by {raised!r}')
        else:
          check(isinstance(raised, Fault), f'unrelated error {raised!r}')
        if op in ('open', 'write', 'close', 'makedirs'):
          check(env.dest() == env.prev, f'destination changed by a writer that '
                f'failed at {st["first"]}', env.dest())
          check(not env.others(), f'temporary file left behind after a failed '
                f'write at {st["first"]}', list(env.others()))
      rec.trace(outcome=(mode, st['first'] and st['first'][0],
                         tuple(sorted(len(v) for v in env.disk.files.values()))))
      # a later retry always repairs everything
      go()
      check(env.dest() == full, 'retry after failure gives wrong content')

    core.explore(run, rec)

  # -- several writers ----------------------------------------------------
  def run_conc(self, case, rec):
    path, names = case['path'], case['writers']
    allowed = [DATAS[n] for n in names]

    def run(ch):
      env = Env(path, case['prev'], True)
      crashed = [False] * len(names)
      ncrash = [0]
      s = None

      def hook(op, *a):
        rec.transition()
        s.point((op, a))
        i = getattr(s.local, 'i', None)
        if crashed[i]:
          raise Crash()
        if case['crash'] and ncrash[0] < 1 and op != 'exists':
          if ch.choose(2, f'crash {i} at {op}'):
            ncrash[0] += 1
            crashed[i] = True
            raise Crash()

      def after(sc):
        env.check_dest(allowed, f'after {sc.trace[-1] if sc.trace else None}')
        rec.state((case['writers'], sorted(len(v) for v in env.disk.files.values()),
                   env.dest(), tuple(sc.done)))

      bodies = []
      for i, n in enumerate(names):
        go, _ = self.writer('conc', path, n)

        def body(go=go, n=n):
          go()
          got = env.dest()
          check(got in allowed, f'writer {n} returned, destination is {got!r}')
          return True
        bodies.append(body)
      s = sched.Scheduler(bodies, ch, after)
      env.disk.hook = hook
      results = s.run()
      env.disk.hook = lambda *a: None
      for i, (kind, r) in enumerate(results):
        if kind == 'raised' and not (crashed[i] and isinstance(r, Crash)):
          if isinstance(r, core.Violation):
            raise r
          fail(f'writer {i} failed because of a concurrent writer: {r!r}',
               s.trace)
      if not all(crashed):
        check(env.dest() in allowed, f'final content {env.dest()!r}', s.trace)
      left = len(env.others())
      check(left <= sum(crashed), f'temporary files remain: {list(env.others())}')
      rec.trace(outcome=(env.dest(), left, tuple(k for k, _ in results)))

    ps = const_env()
    for p in ps:
      p.start()
    try:
      core.explore(run, rec, bound=case['bound'])
    finally:
      for p in ps:
        p.stop()

  # -- real local file system --------------------------------------------
  def run_local(self, case, rec):
    root = tempfile.mkdtemp(prefix='mc_c09_')
    try:
      full = os.path.join(root, case['path'].strip('/'))
      if case['prev']:
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, 'wb') as f:
          f.write(OLD)
      from fsspec.implementations import local
      patches = []
      if case['fault'] == 'write':
        orig = local.LocalFileSystem._open

        def bad_open(self, path, mode='rb', **kw):
          f = orig(self, path, mode, **kw)
          if 'w' in mode or 'a' in mode or 'x' in mode:
            def bad_write(data):
              raise Fault(28, 'no space')
            f.write = bad_write
          return f
        patches.append(mock.patch.object(local.LocalFileSystem, '_open', bad_open))
      elif case['fault'] == 'move':
        def bad_mv(self, *a, **k):
          raise Fault(5, 'io')
        for n in ('mv', 'mv_file', 'copy', 'cp_file'):
          if hasattr(local.LocalFileSystem, n):
            patches.append(mock.patch.object(local.LocalFileSystem, n, bad_mv))
      raised = None
      for p in patches:
        p.start()
      try:
        beam_utils.atomic_write(case['pre'] + full, DATAS['big'])
      except OSError as e:
        raised = e
      finally:
        for p in patches:
          p.stop()
      rec.transition()
      files = {}
      for d, _, fs in os.walk(root):
        for n in fs:
          with open(os.path.join(d, n), 'rb') as f:
            files[os.path.join(d, n)] = f.read()
      dest = files.pop(full, None)
      if case['fault'] is None:
        check(raised is None, f'raised {raised!r}')
        check(dest == DATAS['big'], 'wrong content on the local file system')
        check(not files, f'files remain {list(files)}')
      else:
        check(isinstance(raised, Fault), f'fault not reported: {raised!r}')
        check(dest == (OLD if case['prev'] else None), 'previous content lost')
        if case['fault'] == 'write':
          check(not files, f'temporary files remain {list(files)}')
      rec.trace(outcome=(case['fault'], dest is None))
    finally:
      shutil.rmtree(root)


CHECK = C09
