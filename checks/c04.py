"""C04: time chunks partition the requested times exactly once, in order."""

import numpy as np

from mc import core
from mc.xrutil import check, fail
from weatherbenchX import time_chunks

T0 = np.datetime64('2020-02-28T18', 'ns')


def make_times(n, unit, step=1):
  if unit in ('D', 'h', 'm', 's', 'ns'):
    return np.datetime64('2020-02-28T18', 'ns').astype(f'datetime64[{unit}]') + (
        np.arange(n) * step).astype(f'timedelta64[{unit}]')
  raise ValueError(unit)


def make_leads(n, unit, step=1):
  return (np.arange(n) * step).astype(f'timedelta64[{unit}]')


def ref_chunks(x, size):
  """Reference: consecutive pieces of `size` (all of it if none)."""
  out, offs = [], []
  if not len(x):
    return [], []
  size = size or len(x)
  i = 0
  while i < len(x):
    out.append(list(x[i:i + size]))
    offs.append(i)
    i += size
  return out, offs


class C04(core.Check):
  id = 'C04'
  rule = ('case = (number of init times, lead form and number, two chunk sizes, '
          'units, irregular spacing); every case checks len, all indices, '
          'iteration, offsets, re-iteration; plus all rejected requests')

  def cases(self):
    n = 9 if self.thorough else 6
    units = ['h', 'D', 'ns'] if not self.thorough else ['h', 'D', 'm', 's', 'ns']
    for ni in range(1, n + 1):
      for ics in [None] + list(range(0, ni + 2)):
        for u in units:
          for irr in (False, True):
            for lform in ['slice', 'slice0']:
              for lcs in (None, 0):
                yield dict(ni=ni, ics=ics, u=u, irr=irr, lead=lform, nl=0, lcs=lcs)
            for nl in range(1, n + 1):
              for lcs in [None] + list(range(0, nl + 2)):
                yield dict(ni=ni, ics=ics, u=u, irr=irr, lead='array', nl=nl,
                           lcs=lcs)
    # large sizes, one dimension at a time (chunk indices beyond one digit)
    for ni in (13, 25, 50):
      for ics in range(1, ni + 2):
        for nl, lcs in ((1, None), (7, 2), (11, 3), (12, 12)):
          yield dict(ni=ni, ics=ics, u='h', irr=False, lead='array', nl=nl,
                     lcs=lcs)
    for ni in (127, 128, 129, 255, 256, 257, 300):
      for ics in (None, 1, 2, 127, 128, 129, 255, 256, 257):
        yield dict(ni=ni, ics=ics, u='h', irr=False, lead='array', nl=5, lcs=2)
        yield dict(ni=3, ics=2, u='h', irr=True, lead='array', nl=ni, lcs=ics)
    for ni in (32767, 32769, 65535, 65537, 70000):
      for ics in (None, 255, 1024, 32767, 32768, 65536):
        yield dict(ni=ni, ics=ics, u='m', irr=False, lead='array', nl=3, lcs=2)
    for bad in ('init_neg', 'lead_neg', 'open_start', 'open_stop', 'step',
                'slice_chunked', 'list', 'scalar'):
      for v in (1, 2, 3):
        yield dict(bad=bad, v=v)

  def run_bad(self, case, rec):
    it, lt = make_times(4, 'h'), make_leads(3, 'h')
    h = lambda x: np.timedelta64(x, 'h')
    v = case['v']
    kw = dict(init_times=it, lead_times=lt)
    b = case['bad']
    if b == 'init_neg':
      kw['init_time_chunk_size'] = -v
    elif b == 'lead_neg':
      kw['lead_time_chunk_size'] = -v
    elif b == 'open_start':
      kw['lead_times'] = slice(None, h(v))
    elif b == 'open_stop':
      kw['lead_times'] = slice(h(v), None)
    elif b == 'step':
      kw['lead_times'] = slice(h(0), h(6 * v), h(v))
    elif b == 'slice_chunked':
      kw['lead_times'] = slice(h(0), h(6))
      kw['lead_time_chunk_size'] = v
    elif b == 'list':
      kw['lead_times'] = list(lt[:v])
    elif b == 'scalar':
      kw['lead_times'] = h(v)
    rec.transition()
    try:
      r = time_chunks.TimeChunks(**kw)
    except ValueError:
      rec.trace(outcome=('rejected', b))
      return
    fail(f'invalid request accepted: {case}', list(r))

  def run_case(self, case, rec):
    if 'bad' in case:
      return self.run_bad(case, rec)
    init = make_times(case['ni'], case['u'], 3)
    if case['irr'] and case['ni'] > 2:
      init = np.delete(np.concatenate([init, init[-1:] + (init[1] - init[0]) * 5]), 1)
    sl = case['lead'] != 'array'
    if case['lead'] == 'slice':
      lead = slice(np.timedelta64(0, 'h'), np.timedelta64(6, 'h'))
    elif case['lead'] == 'slice0':
      lead = slice(np.timedelta64(3, 'h'), np.timedelta64(3, 'h'))
    else:
      lead = make_leads(case['nl'], case['u'] if case['u'] != 'D' else 'h', 6)
      if case['irr'] and case['nl'] > 2:
        lead = lead[::-1].copy()
    init_b, lead_b = init.copy(), (lead if sl else lead.copy())
    tc = time_chunks.TimeChunks(init, lead, case['ics'], case['lcs'])
    rec.transition()
    ic, io = ref_chunks(list(init.astype('datetime64[ns]')), case['ics'])
    if sl:
      lc, lo = [lead], [0]
    else:
      lc, lo = ref_chunks(list(lead.astype('timedelta64[ns]')), case['lcs'])
    want = [(a, b) for a in ic for b in lc]
    offs = [(a, b) for a in io for b in lo]

    def eq(got, w, what):
      check(isinstance(got, tuple) and len(got) == 2, f'{what}: not a pair', got)
      gi, gl = got
      check(isinstance(gi, np.ndarray) and gi.dtype.kind == 'M'
            and list(gi.astype('datetime64[ns]')) == list(w[0]),
            f'{what}: init times {gi} expected {w[0]}', case)
      if sl:
        check(isinstance(gl, slice) and gl == w[1],
              f'{what}: lead {gl} expected {w[1]}', case)
      else:
        check(isinstance(gl, np.ndarray) and gl.dtype.kind == 'm'
              and list(gl.astype('timedelta64[ns]')) == list(w[1]),
              f'{what}: lead times {gl} expected {w[1]}', case)

    check(len(tc) == len(want), f'len {len(tc)} expected {len(want)}', case)
    for rnd in range(2):
      got = list(tc)
      rec.transition(len(got) + 1)
      check(len(got) == len(want), f'iteration {rnd} yields {len(got)} chunks, '
            f'expected {len(want)}', case)
      for k, (g, w) in enumerate(zip(got, want)):
        eq(g, w, f'chunk {k} of iteration {rnd}')
        rec.state((case['ni'], case['ics'], str(lead), case['lcs'], k))
    for k in range(len(want)):
      eq(tc[k], want[k], f'item {k}')
      rec.transition()
    for k in (-1, -len(want), len(want), len(want) + 3):
      try:
        tc[k]
      except IndexError:
        pass
      else:
        fail(f'index {k} of {len(want)} accepted', case)
    for rnd in range(2):
      got = list(tc.iter_with_chunk_offsets())
      rec.transition(len(got) + 1)
      check(len(got) == len(want), 'offset iteration has wrong length', case)
      for k, ((o, g), w, wo) in enumerate(zip(got, want, offs)):
        eq(g, w, f'chunk {k} with offset')
        check((o.init_time, o.lead_time) == wo,
              f'chunk {k}: offsets {(o.init_time, o.lead_time)} expected {wo}',
              case)
    check(np.array_equal(tc.init_times, init.astype('datetime64[ns]')),
          'init_times property differs', case)
    if sl:
      check(tc.lead_times == lead, 'lead_times property differs', case)
    else:
      check(np.array_equal(tc.lead_times, lead.astype('timedelta64[ns]')),
            'lead_times property differs', case)
    check(np.array_equal(init, init_b) and (sl or np.array_equal(lead, lead_b)),
          'inputs modified', case)
    rec.trace(outcome=(len(want), tuple(offs)))


CHECK = C04
