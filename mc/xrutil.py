"""Comparison and fingerprint helpers for xarray values."""

import hashlib

import numpy as np
import xarray as xr

from mc.core import Violation


def fail(msg, *ctx, key=None):
  raise Violation(msg + ''.join(f'\n  {c}' for c in ctx), key)


def check(cond, msg, *ctx):
  if not cond:
    fail(msg, *ctx)


def vals(da):
  return np.asarray(da.values if hasattr(da, 'values') else da)


def close(a, b, rtol=1e-6, atol=1e-6):
  a, b = np.asarray(a), np.asarray(b)
  if a.shape != b.shape:
    return False
  if a.dtype.kind in 'mMOSU' or b.dtype.kind in 'mMOSU':
    return bool(np.all((a == b) | ((a != a) & (b != b))))
  return bool(np.allclose(a.astype(float), b.astype(float), rtol=rtol,
                          atol=atol, equal_nan=True))


def _short(x):
  return np.array2string(np.asarray(x), threshold=60, precision=6)


def same_da(got, want, what='', rtol=1e-6, atol=1e-6, dim_order=False,
            coords='index', order=True):
  """Raises Violation unless got equals want (dims, labels, values).

  coords: 'index' compares dimension coordinates, 'all' every coordinate.
  order: whether the order of labels along dimensions matters.
  """
  if not isinstance(got, xr.DataArray):
    fail(f'{what}: expected a DataArray, got {type(got)}')
  if set(got.dims) != set(want.dims):
    fail(f'{what}: dims {got.dims} but expected {want.dims}')
  if dim_order and got.dims != want.dims:
    fail(f'{what}: dim order {got.dims} but expected {want.dims}')
  g = got.transpose(*want.dims)
  for d in want.dims:
    if (d in want.indexes) != (d in g.indexes):
      fail(f'{what}: coordinate {d} present={d in g.indexes}, expected '
           f'{d in want.indexes}')
    if d in want.indexes:
      a, b = g[d].values, want[d].values
      if not order and a.shape == b.shape:
        ga = np.argsort(a, kind='stable')
        if np.array_equal(np.sort(a), np.sort(b)):
          want = want.isel({d: np.argsort(b, kind='stable')})
          g = g.isel({d: ga})
          a, b = g[d].values, want[d].values
      if a.shape != b.shape or not close(a, b):
        fail(f'{what}: labels of {d} are {_short(a)}, expected {_short(b)}')
    elif g.sizes[d] != want.sizes[d]:
      fail(f'{what}: size of {d} is {g.sizes[d]}, expected {want.sizes[d]}')
  if not close(g.values, want.values, rtol, atol):
    fail(f'{what}: values differ', f'got      {_short(g.values)}',
         f'expected {_short(want.values)}', f'dims {want.dims}')
  if coords == 'all':
    if set(g.coords) != set(want.coords):
      fail(f'{what}: coords {sorted(map(str, g.coords))}, expected '
           f'{sorted(map(str, want.coords))}')
    for c in want.coords:
      if set(g[c].dims) != set(want[c].dims):
        fail(f'{what}: coord {c} dims {g[c].dims} vs {want[c].dims}')
      if not close(g[c].transpose(*want[c].dims).values, want[c].values):
        fail(f'{what}: coord {c} differs', _short(g[c].values),
             _short(want[c].values))


def same_map(got, want, what='', **kw):
  if set(got) != set(want):
    fail(f'{what}: names {sorted(map(str, got))}, expected '
         f'{sorted(map(str, want))}')
  for k in want:
    same_da(got[k], want[k], f'{what}[{k}]', **kw)


def same_ds(got, want, what='', **kw):
  same_map({k: got[k] for k in got.data_vars},
           {k: want[k] for k in want.data_vars}, what, **kw)


def same_tree(got, want, what='', **kw):
  if isinstance(want, xr.DataArray):
    same_da(got, want, what, **kw)
  elif want is None:
    check(got is None, f'{what}: expected None, got {type(got)}')
  else:
    if set(got) != set(want):
      fail(f'{what}: names {sorted(map(str, got))}, expected '
           f'{sorted(map(str, want))}')
    for k in want:
      same_tree(got[k], want[k], f'{what}[{k}]', **kw)


def _fp_arr(hh, a):
  a = np.asarray(a)
  hh.update(str(a.dtype).encode() + str(a.shape).encode())
  if a.dtype.kind == 'O':
    hh.update(repr(a.tolist()).encode())
  else:
    hh.update(np.ascontiguousarray(a).tobytes())


def fingerprint(obj):
  """Deep fingerprint of arrays, datasets, containers (values and labels)."""
  hh = hashlib.blake2b(digest_size=16)

  def go(o):
    if isinstance(o, xr.DataArray):
      hh.update(b'A' + repr((o.name, o.dims)).encode())
      _fp_arr(hh, o.values)
      for c in sorted(map(str, o.coords)):
        v = o.coords[c]
        hh.update(b'c' + c.encode() + repr(v.dims).encode())
        _fp_arr(hh, v.values)
      hh.update(repr(sorted((str(k), str(v)) for k, v in o.attrs.items())).encode())
    elif isinstance(o, xr.Dataset):
      hh.update(b'D' + repr(list(map(str, o.data_vars))).encode())
      for c in sorted(map(str, o.coords)):
        v = o.coords[c]
        hh.update(b'c' + c.encode() + repr(v.dims).encode())
        _fp_arr(hh, v.values)
      for k in o.data_vars:
        go(o[k])
      hh.update(repr(sorted((str(k), str(v)) for k, v in o.attrs.items())).encode())
    elif isinstance(o, np.ndarray):
      _fp_arr(hh, o)
    elif isinstance(o, dict):
      hh.update(b'M')
      for k, v in o.items():
        hh.update(repr(k).encode())
        go(v)
    elif isinstance(o, (list, tuple)):
      hh.update(b'L')
      for v in o:
        go(v)
    elif hasattr(o, '__dataclass_fields__'):
      hh.update(type(o).__name__.encode())
      for f in o.__dataclass_fields__:
        go(getattr(o, f))
    else:
      hh.update(repr(o).encode())

  go(obj)
  return hh.hexdigest()
