"""C15: input transforms apply their documented mapping, in the listed order."""

import itertools

import numpy as np
import xarray as xr

from mc import core
from mc import metricutil as mu
from mc.xrutil import check, close, fail, same_da
from weatherbenchX.metrics import categorical as cat
from weatherbenchX.metrics import deterministic as det
from weatherbenchX.metrics import probabilistic as prob
from weatherbenchX.metrics import wrappers as wr

NAN = np.nan
INF = np.inf
ALPH = (-1.0, -0.0, 0.25, 0.5, 1.0, 3.0, INF, -INF, NAN)
INITS = np.array(['2019-12-30T12', '2019-12-31T00', '2020-02-28T18',
                  '2020-02-29T00', '2020-12-31T06'], 'datetime64[ns]')
LEADS = np.array([0, 6, 24, 36], 'timedelta64[h]').astype('timedelta64[ns]')


def field(name='v', extra=True):
  v = np.array(ALPH)
  a = np.stack([v, np.roll(v, 4)])
  return xr.DataArray(a, dims=['y', 'x'], name=name,
                      coords={'y': [5, 6], 'lab': ('x', np.arange(len(v)))})


# ---- elementary transforms used for compositions --------------------------
def t_plus(w):
  return wr.Inline(w, lambda d: d + 1, 'plus')


def t_twice(w):
  return wr.Inline(w, lambda d: d * 2, 'twice')


def t_relu(w):
  return wr.ReLU(w)


def t_bin(w):
  return wr.ContinuousToBinary(w, 0.5, 'thr')


def t_mean(w):
  return wr.EnsembleMean(w, 'number', skip_if_ensemble_dim_missing=True)


def t_sel(w):
  return wr.Select(w, isel={'x': slice(None, None, -1)})


def ref_transform(name, a, names):
  """numpy reference on an array with named axes; returns (a, names)."""
  if name == 'plus':
    return a + 1, names
  if name == 'twice':
    return a * 2, names
  if name == 'relu':
    return np.where(np.isnan(a), NAN, np.maximum(a, 0)), names
  if name == 'bin':
    r = np.where(np.isnan(a), NAN, (a > 0.5).astype(float))
    if 'thr' in names:
      return r, names
    return r[..., None], names + ['thr']
  if name == 'mean':
    if 'number' not in names:
      return a, names
    i = names.index('number')
    return a.mean(i), names[:i] + names[i + 1:]
  raise ValueError(name)


MAKE = {'plus': t_plus, 'twice': t_twice, 'relu': t_relu, 'bin': t_bin,
        'mean': t_mean}


class C15(core.Check):
  id = 'C15'
  rule = ('every transform on all values around every threshold (equal, missing, '
          'infinite), every threshold container and time layout, every ordered '
          'list of up to three elementary transforms and sides, every subset of '
          'variables')
  assumptions = ('arrays carry the name of their variable; thresholds are not '
                 'missing unless stated',)

  def cases(self):
    th_alph = (-1.0, 0.0, 0.25, 1.0, 3.0)
    for k in range(1, 5):
      for th in itertools.combinations(th_alph, k):
        for cont in ('list', 'tuple', 'array', 'da', 'ds'):
          yield dict(kind='binary', th=th, cont=cont)
          if k > 1:
            for ends in ('', 'both', 'low'):
              yield dict(kind='bins', th=th, cont=cont, ends=ends)
          for right in (True, False):
            yield dict(kind='cdf', th=th, cont=cont, right=right)
    for th in (0.5, 0, -1.0):
      yield dict(kind='binary', th=th, cont='scalar')
    for th in ((1.0, 0.0), (0.0, 0.0), (0.0, 1.0, 0.5)):
      yield dict(kind='mono', th=th)
    for chunk in ('init_lead', 'valid', 'none'):
      for layout in ('valid', 'init_lead', 'doy_lead', 'doy', 'static'):
        for t in ('bins', 'cdf'):
          for c in ('da', 'ds'):
            yield dict(kind='time', chunk=chunk, layout=layout, t=t, cont=c)
    for m in range(1, 5):
      yield dict(kind='ens', m=m)
    yield dict(kind='simple')
    for t in ('binary', 'cdf'):
      yield dict(kind='nanthr', t=t)
    names = sorted(MAKE)
    tw = [(n, w) for n in names for w in ('predictions', 'targets', 'both')]
    for k in (1, 2):
      for combo in itertools.product(tw, repeat=k):
        yield dict(kind='compose', ts=combo)
    tw3 = tw if self.thorough else [
        x for x in tw if x[0] in ('plus', 'relu', 'bin') or x == ('mean', 'both')]
    for combo in itertools.product(tw3, repeat=3):
      yield dict(kind='compose', ts=combo)
    for sub in range(8):
      for m in ('RMSE', 'CSI', 'FSS', 'Wind', 'CRPS'):
        yield dict(kind='subselect', sub=sub, m=m)
    for w in ('preds', 'all', None, ''):
      yield dict(kind='badwhich', w=w)

  def run_case(self, case, rec):
    getattr(self, 'k_' + case['kind'])(case, rec)

  # ---- threshold containers ------------------------------------------------
  def container(self, th, cont, dim):
    if cont == 'scalar':
      return th, {}
    if cont == 'list':
      return list(th), {}
    if cont == 'tuple':
      return tuple(th), {}
    if cont == 'array':
      return np.array(th), {}
    kw = dict(unique_name_suffix='sfx')
    # per y: thresholds shifted by y * 0.25 (still exact in binary)
    a = np.array(th)[:, None] + np.array([0.0, 0.25])
    da = xr.DataArray(a, dims=[dim, 'y'],
                      coords={dim: np.arange(len(th)) * 1.5, 'y': [5, 6]})
    if cont == 'da':
      return da, kw
    return xr.Dataset({'w': da + 50, 'v': da}), kw

  def thr_array(self, th, cont):
    """(thr, y) array of thresholds."""
    th = np.atleast_1d(np.array(th, float))
    if cont in ('da', 'ds'):
      return th[:, None] + np.array([0.0, 0.25])
    return np.repeat(th[:, None], 2, 1)

  def labels(self, th, cont):
    th = np.atleast_1d(np.array(th, float))
    return np.arange(len(th)) * 1.5 if cont in ('da', 'ds') else th

  def k_binary(self, case, rec):
    arg, kw = self.container(case['th'], case['cont'], 'q')
    for which in ('predictions', 'targets', 'both'):
      tr = wr.ContinuousToBinary(which, arg, 'q', **kw)
      x = field()
      for da in (x, x.transpose(), x.astype('f4')):
        got = tr.transform_fn(da)
        rec.transition()
        T = self.thr_array(case['th'], case['cont'])
        want = np.where(np.isnan(x.values), NAN,
                        (x.values[None] > T[:, :, None]).astype(float))
        want = xr.DataArray(want, dims=['q', 'y', 'x'], coords={
            'q': self.labels(case['th'], case['cont']), 'y': [5, 6]})
        same_da(got, want, str(case))
        check(np.asarray(got.values).dtype.kind == 'f', 'dtype', got.dtype)
      rec.trace(outcome=str(case))
    # values next to a threshold, on any scale
    near = [float(t) for t in np.ravel(case['th']) if np.isfinite(t)]
    v = np.array([f(t) for t in near for f in (
        lambda t: np.nextafter(t, -INF), lambda t: t,
        lambda t: np.nextafter(t, INF))] + [-INF, INF, 1e300, -1e300, 5e-324])
    d = xr.DataArray(v, dims=['x'])
    w = d.expand_dims(y=[5, 6])
    T = self.thr_array(case['th'], case['cont'])
    g = wr.ContinuousToBinary('both', arg, 'q', **kw).transform_fn(
        w.rename('v')).transpose('q', 'y', 'x').values
    want = (w.values[None] > T[:, :, None]).astype(float)
    check(np.array_equal(g, want), 'values next to a threshold',
          v, g, want, case)
    # an ensemble dimension and other variables are untouched
    e = xr.concat([field(), field() + 0.25], 'number')
    g = wr.ContinuousToBinary('both', arg, 'q', **kw).transform_fn(e)
    for i in (0, 1):
      same_da(g.isel(number=i), wr.ContinuousToBinary('both', arg, 'q', **kw)
              .transform_fn(e.isel(number=i)), str(case))
    rec.state(str(case))

  def edges(self, case):
    th = list(case['th'])
    if case['cont'] in ('da', 'ds'):
      return th
    return {'': th, 'both': [-INF] + th + [INF], 'low': [-INF] + th}[case['ends']]

  def k_bins(self, case, rec):
    if case['cont'] in ('da', 'ds') and case['ends']:
      raise core.Skip()
    th = self.edges(case)
    arg, kw = self.container(th, case['cont'], 'q')
    x = field()
    got = wr.ContinuousToBins('both', arg, 'q', **kw).transform_fn(x)
    rec.transition()
    T = self.thr_array(th, case['cont'])
    lo, hi = T[:-1, :, None], T[1:, :, None]
    v = x.values[None]
    # (lo, hi]; a value at -inf lies at or below every edge
    want = np.where(np.isnan(v), NAN, ((v > lo) & (v <= hi)).astype(float))
    check(got.sizes['q'] == len(th) - 1, 'number of bins', got.sizes, case)
    lab = self.labels(th, case['cont'])
    check(close(got['q_left'].values, lab[:-1])
          and close(got['q_right'].values, lab[1:]), 'edges', case)
    check(close(got.transpose('q', 'y', 'x').values, want), 'bins differ',
          got.transpose('q', 'y', 'x').values, want, case)
    names = [str(s) for s in got['q'].values]
    for s, a, b in zip(names, lab[:-1], lab[1:]):
      check(s == f'{a:.2f} < p <= {b:.2f}', f'bin label {s}', case)
    rec.trace(outcome=str(case))
    rec.state(str(case))

  def k_cdf(self, case, rec):
    arg, kw = self.container(case['th'], case['cont'], 'q')
    x = field()
    got = wr.ContinuousToCDF('both', arg, 'q', right_inclusive=case['right'],
                             **kw).transform_fn(x)
    rec.transition()
    T = self.thr_array(case['th'], case['cont'])[:, :, None]
    v = x.values[None]
    c = (v <= T) if case['right'] else (v < T)
    want = xr.DataArray(np.where(np.isnan(v), NAN, c.astype(float)),
                        dims=['q', 'y', 'x'],
                        coords={'q': self.labels(case['th'], case['cont']),
                                'y': [5, 6]})
    same_da(got, want, str(case))
    rec.trace(outcome=str(case))
    rec.state(str(case))

  def k_nanthr(self, case, rec):
    th = xr.DataArray([[0.0, 1.0, NAN], [NAN, 0.5, 1.0]], dims=['y', 'q'],
                      coords={'y': [5, 6], 'q': [1, 2, 3]})
    x = field()
    rec.transition()
    if case['t'] == 'cdf':
      got = wr.ContinuousToCDF('both', th, 'q', 's', enforce_monotonicity=False
                               ).transform_fn(x).transpose('y', 'x', 'q').values
      v, t = x.values[:, :, None], th.values[:, None]
      want = np.where(np.isnan(v) | np.isnan(t), NAN, (v <= t).astype(float))
      check(close(got, want), 'CDF with missing thresholds', got, want)
    rec.trace(outcome=case['t'])

  def k_mono(self, case, rec):
    for cls in (wr.ContinuousToBins, wr.ContinuousToCDF):
      rec.transition()
      try:
        cls('both', list(case['th']), 'q').transform_fn(field())
      except ValueError:
        rec.trace(outcome='rejected')
        continue
      fail('non-increasing bin values accepted', case)
    for cls in (wr.ContinuousToBinary, wr.ContinuousToBins, wr.ContinuousToCDF):
      try:
        cls('both', xr.DataArray([0.0, 1.0], dims=['q']), 'q')
      except ValueError:
        continue
      fail('missing name suffix accepted')

  def k_badwhich(self, case, rec):
    rec.transition()
    for f in (lambda w: wr.ReLU(w), lambda w: wr.EnsembleMean(w),
              lambda w: wr.ContinuousToBinary(w, 0.1, 'q')):
      try:
        f(case['w'])
      except ValueError:
        rec.trace(outcome='rejected')
        continue
      fail('invalid side accepted', case)

  def k_time(self, case, rec):
    chunk, layout = case['chunk'], case['layout']
    if (chunk, layout) in {('init_lead', 'doy'), ('valid', 'init_lead'),
                           ('valid', 'doy_lead'), ('none', 'valid'),
                           ('none', 'init_lead'), ('none', 'doy_lead'),
                           ('none', 'doy')}:
      raise core.Skip()  # not a documented combination
    doy = lambda t: int((t.astype('datetime64[D]') - t.astype('datetime64[Y]')
                         ).astype(int)) + 1
    vt = np.unique((INITS[:, None] + LEADS[None]).ravel())
    base = np.array([0.0, 0.5, 1.0])
    if layout == 'valid':
      key = lambda i, l: float(np.searchsorted(vt, i + l))
      th = xr.DataArray(base[:, None] + np.arange(len(vt)) * 0.25,
                        dims=['q', 'valid_time'], coords={'valid_time': vt})
    elif layout == 'init_lead':
      key = lambda i, l: float(list(INITS).index(i) * 5 + list(LEADS).index(l))
      k = np.arange(len(INITS))[:, None] * 5 + np.arange(len(LEADS))[None]
      th = xr.DataArray(base[:, None, None] + k * 0.25,
                        dims=['q', 'init_time', 'lead_time'],
                        coords={'init_time': INITS, 'lead_time': LEADS})
    elif layout == 'doy_lead':
      key = lambda i, l: float(doy(i) + 400 * list(LEADS).index(l))
      k = np.arange(1, 367)[:, None] + 400 * np.arange(len(LEADS))[None]
      th = xr.DataArray(base[:, None, None] + k * 0.25,
                        dims=['q', 'dayofyear', 'lead_time'],
                        coords={'dayofyear': np.arange(1, 367),
                                'lead_time': LEADS})
    elif layout == 'doy':
      key = lambda i, l: float(doy(i + l))
      th = xr.DataArray(base[:, None] + np.arange(1, 367) * 0.25,
                        dims=['q', 'dayofyear'],
                        coords={'dayofyear': np.arange(1, 367)})
    else:
      key = lambda i, l: 0.0
      th = xr.DataArray(base, dims=['q'])
    th = th.assign_coords(q=[10, 20, 30])
    arg = th if case['cont'] == 'da' else xr.Dataset({'o': th - 7, 'v': th})
    for ni, nl in itertools.product((1, 3, 5), (1, 2, 4)):
      for oi in (0, 1):
        I = INITS[::-1][:ni] if oi else INITS[:ni]
        L = LEADS[::-1][:nl] if oi else LEADS[:nl]
        if chunk == 'valid':
          pairs = [(i, LEADS[0]) for i in I]
        elif chunk == 'none':
          pairs = [(INITS[0], LEADS[0])]
        else:
          pairs = [(i, l) for i in I for l in L]
        # values exactly at, just below and above each threshold
        off = np.array([-0.125, 0.0, 0.125, 0.5, 1.0, 1.125, NAN])
        x = np.stack([key(*p) * 0.25 + off for p in pairs])
        if chunk == 'valid':
          da = xr.DataArray(x, dims=['valid_time', 'x'], coords={
              'valid_time': [p[0] + p[1] for p in pairs]}, name='v')
        elif chunk == 'none':
          da = xr.DataArray(x[0], dims=['x'], name='v')
        else:
          da = xr.DataArray(x.reshape(ni, nl, -1),
                            dims=['init_time', 'lead_time', 'x'],
                            coords={'init_time': I, 'lead_time': L}, name='v')
        c = (off[:, None] <= base)
        if case['t'] == 'cdf':
          tr = wr.ContinuousToCDF('both', arg, 'q', 's')
          want = c.astype(float)
        else:
          tr = wr.ContinuousToBins('both', arg, 'q', 's')
          want = c[:, 1:].astype(float) - c[:, :-1]
        want[np.isnan(off)] = NAN
        got = tr.transform_fn(da)
        rec.transition()
        check(set(got.dims) == set(da.dims) | {'q'}, 'dims', got.dims, case)
        g = got.transpose(*da.dims, 'q').values.reshape(len(pairs), len(off), -1)
        for n, p in enumerate(pairs):
          check(close(g[n], want), f'thresholds of the wrong time at {p}', g[n],
                want, case)
        rec.trace(outcome=str(case))
        # Thresholds that lack a requested time are an error.
        dim = {'valid': 'valid_time', 'init_lead': 'init_time',
               'doy_lead': 'dayofyear', 'doy': 'dayofyear'}.get(layout)
        if dim is None or oi or ni == 3:
          continue
        i, l = pairs[-1]
        gone = {'valid_time': i + l, 'init_time': i,
                'dayofyear': doy(i if layout == 'doy_lead' else i + l)}[dim]
        less = arg.isel({dim: arg[dim].values != gone})
        cls = wr.ContinuousToCDF if case['t'] == 'cdf' else wr.ContinuousToBins
        try:
          cls('both', less, 'q', 's').transform_fn(da)
        except Exception:  # pylint: disable=broad-except
          rec.trace(outcome='rejected')
        else:
          fail(f'no thresholds of {gone}, but no error', case)

  def k_ens(self, case, rec):
    m = case['m']
    v = mu.all_assignments((0.0, 1.0, -2.5, NAN), m)
    da = xr.DataArray(v, dims=['x', 'number'], name='v')
    for sk in (False, True):
      for dim in ('number', 'realization'):
        d = da.rename(number=dim)
        for dd in (d, d.transpose()):
          got = wr.EnsembleMean('both', dim, skipna=sk).transform_fn(dd)
          with np.errstate(all='ignore'):
            n = (~np.isnan(v)).sum(1)
            want = np.nansum(v, 1) / n if sk else v.sum(1) / m
          rec.transition()
          check(close(got.values, want), 'ensemble mean', got.values, want)
    got = wr.WeibullEnsembleToProbabilistic('predictions').transform_fn(da)
    check(close(got.values, v.sum(1) / (m + 1)), 'plotting position')
    flat = xr.DataArray(v[:, 0], dims=['x'])
    same_da(wr.EnsembleMean('both', skip_if_ensemble_dim_missing=True)
            .transform_fn(flat), flat, 'ensemble mean without the dimension')
    for bad in ('targets', 'both'):
      try:
        wr.WeibullEnsembleToProbabilistic(bad)
      except (AssertionError, ValueError):
        continue
      fail('plotting position of targets accepted')
    rec.trace(len(v), outcome=m)

  def k_simple(self, case, rec):
    x = field()
    v = x.values
    got = wr.ReLU('both').transform_fn(x)
    check(close(got.values, np.where(np.isnan(v), NAN, np.maximum(v, 0))), 'ReLU',
          got.values)
    tiny = np.array([1e-300, 5e-324, -5e-324, 1e-12, -1e-12, 1e300])
    got = wr.ReLU('both').transform_fn(xr.DataArray(tiny, dims='x')).values
    check((got == np.maximum(tiny, 0)).all(), 'ReLU', got)
    same_da(wr.Inline('both', lambda d: -d, 'n').transform_fn(x), -x, 'inline')
    for sh in (1.5, [1.5], [0.0, -2.0, 3.0], (1.0, 2.0)):
      got = wr.ShiftAlongNewDim('both', sh, 's', 'n').transform_fn(x)
      s = np.atleast_1d(np.array(sh, float))
      check(close(got.transpose('s', 'y', 'x').values, v[None] + s[:, None, None])
            and close(got['s'].values, s), 'shift', sh)
    ds = xr.Dataset({'u': xr.DataArray([100.0, 100.0], dims=['s']),
                     'v': xr.DataArray([[1.0, 2.0], [3.0, 4.0]],
                                       dims=['y', 's'], coords={'y': [5, 6]})},
                    coords={'s': [0.2, 0.8]})
    got = wr.ShiftAlongNewDim('both', ds, 's', 'n').transform_fn(x)
    check(close(got.transpose('s', 'y', 'x').values,
                v[None] + ds.v.values.T[:, :, None])
          and close(got['s'].values, [0.2, 0.8]), 'shift by a dataset')
    got = wr.Rename('both', {'y': 'lat', 'lab': 'lob'}).transform_fn(x)
    same_da(got, x.rename(y='lat', lab='lob'), 'rename', coords='all',
            dim_order=True)
    y = x.assign_coords(x=np.arange(9) * 10)
    for sel, isel, sk in ((dict(y=6), None, None), (None, dict(x=[3, 1]), None),
                          (dict(x=[20, 10, 50]), dict(x=[2, 0]), None),
                          (dict(x=31), dict(y=1), dict(method='nearest')),
                          (dict(x=slice(10, 40)), None, None)):
      got = wr.Select('both', sel, isel, sk).transform_fn(y)
      # by hand: positions first derived from labels
      idx = np.arange(9)
      w = y.values
      yi = 1 if (sel and sel.get('y') == 6) or (isel and isel.get('y') == 1) else None
      if sel and 'x' in sel:
        if isinstance(sel['x'], slice):
          idx = np.array([1, 2, 3, 4])
        elif isinstance(sel['x'], list):
          idx = np.array([q // 10 for q in sel['x']])
        else:
          idx = 3
      if isel and 'x' in isel:
        idx = idx[isel['x']]
      w = w[:, idx] if yi is None else w[yi][idx]
      check(close(got.values, w), 'select', sel, isel, got.values, w)
    for dims, new in ((['y', 'x'], 'z'), (['x', 'y'], 'z'), (['y', 'x'], 'y'),
                      (['x'], 'x')):
      got = wr.StackToNewDimension('both', dims, new).transform_fn(
          y.expand_dims(k=[1, 2]))
      n = int(np.prod([y.sizes[d] for d in dims]))
      check(got.sizes[new] == n, 'stacked size', got.sizes)
      rest = [d for d in ('k', 'y', 'x') if d not in dims]
      w = y.expand_dims(k=[1, 2]).transpose(*rest, *dims).values
      w = w.reshape([*w.shape[:len(rest)], n])
      check(close(got.transpose(*rest, new).values, w), 'stack', dims, new)
      if new in got.coords:
        check(close(got[new].values, np.arange(n)), 'labels of the stack',
              got[new].values)
    rec.transition(20)
    rec.trace(20, outcome='simple')

  def k_compose(self, case, rec):
    p0 = np.array([[[-1.0, 0.5, 0.25], [2.0, 0.75, -0.5]],
                   [[0.5, 1.5, -3.0], [0.0, 0.3, 0.6]]])   # number, y, x
    t0 = np.array([[0.5, -0.25, 1.0], [-1.5, 0.75, 0.0]])
    A, an = p0, ['number', 'y', 'x']
    B, bn = t0, ['y', 'x']
    for n, w in case['ts']:
      if w in ('predictions', 'both'):
        if n == 'bin' and 'thr' in an:
          raise core.Skip()
        A, an = ref_transform(n, A, an)
      if w in ('targets', 'both'):
        if n == 'bin' and 'thr' in bn:
          raise core.Skip()
        B, bn = ref_transform(n, B, bn)
    a = xr.DataArray(A, dims=an)
    b = xr.DataArray(B, dims=bn)
    if len(case['ts']) > 1 and len({w for _, w in case['ts']}) == 1:
      conts = ('dict', 'ds')
    else:
      conts = ('ds',) if len(case['ts']) % 2 else ('dict',)
    for cont in conts:
      P = mu.as_container({'v': xr.DataArray(p0, dims=['number', 'y', 'x'],
                                             name='v')}, cont)
      T = mu.as_container({'v': xr.DataArray(t0, dims=['y', 'x'], name='v'),
                           'u': xr.DataArray(t0 + 1, dims=['y', 'x'], name='u')},
                          cont)
      ts = [MAKE[n](w) for n, w in case['ts']]
      red = ['y', 'x']
      got = mu.value({'m': wr.WrappedMetric(det.MAE(), ts),
                      'r': wr.WrappedMetric(det.RMSE(), ts, 'named')}, P, T, red)
      rec.transition()
      check(set(got.data_vars) == {'m.v', 'r.v'}, list(got.data_vars))
      for k, f, post in (('m.v', lambda d: abs(d), lambda d: d),
                         ('r.v', lambda d: d * d, np.sqrt)):
        w = post(f(a - b).mean(red))
        g = got[k]
        check(set(g.dims) == set(w.dims), f'{k} dims {g.dims}, expected {w.dims}',
              case)
        check(close(g.transpose(*w.dims).values, w.values, 1e-5, 1e-6),
              f'{k}: {g.values}, expected {w.values}', case)
    # nesting: the outer transforms are applied first
    if len(case['ts']) == 2:
      nested = wr.WrappedMetric(wr.WrappedMetric(det.MAE(), ts[1:]), ts[:1])
      g2 = mu.value(nested, P, T, red)['m.v']
      same_da(g2, got['m.v'], 'nested wrappers')
    rec.trace(outcome=tuple(np.round(np.atleast_1d(got['m.v'].values).ravel(), 4)))
    rec.state(str(case))

  def k_subselect(self, case, rec):
    names = ('a', 'b', 'c')
    sub = [n for i, n in enumerate(names) if case['sub'] >> i & 1]
    rng = np.linspace(-1, 2, 24).reshape(2, 3, 4)
    D = ['number', 'latitude', 'longitude']
    mk = lambda s: {n: xr.DataArray(np.sin(rng * (i + 2) + s), dims=D, name=n)
                    for i, n in enumerate(names)}
    P, T = mk(0.0), mk(0.7)
    m = case['m']
    if m == 'CRPS':
      metric = prob.CRPSEnsemble()
      T = {k: v.isel(number=0) for k, v in T.items()}
    elif m == 'CSI':
      metric = wr.WrappedMetric(cat.CSI(), [wr.ContinuousToBinary('both', 0.1, 'q')])
    elif m == 'FSS':
      from weatherbenchX.metrics import spatial
      metric = wr.WrappedMetric(spatial.FSS(3), [
          wr.Inline('both', lambda d: (d > 0.1).astype(float), 'b')])
    elif m == 'Wind':
      if sub and not {'a', 'b'} <= set(sub):
        raise core.Skip()
      metric = det.WindVectorRMSE('a', 'b', 'w')
    else:
      metric = det.RMSE()
    if not sub:
      raise core.Skip()
    red = ['latitude', 'longitude']
    for cont in ('dict', 'ds'):
      PP, TT = mu.as_container(P, cont), mu.as_container(T, cont)
      full = mu.value(metric, PP, TT, red)
      got = mu.value(wr.SubselectVariables(metric, sub), PP, TT, red)
      rec.transition()
      want = {'m.w'} if m == 'Wind' else {f'm.{n}' for n in sub}
      check(set(got.data_vars) == want, 'variables', list(got.data_vars), sub)
      for k in want:
        same_da(got[k], full[k], f'{case} {k}')
      hand = mu.value(metric, {k: P[k] for k in sub}, {k: T[k] for k in sub}, red)
      for k in want:
        same_da(hand[k], full[k], f'{case} {k}')
    rec.trace(outcome=(m, tuple(sub)))


CHECK = C15
