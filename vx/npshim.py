"""A numpy / jax.numpy look-alike whose operations also accept terms.

Attributes that are not listed here fall through to the real numpy; a
fall-through function called with symbolic data raises Unsupported (the run is
then inconclusive), it never silently drops a constraint.
"""
import math
import types

import numpy as np

from vx import arr, sym
from vx.arr import SArr, asarr, emap, has_sym, reduce, scal
from vx.sym import Unsupported, is_sym

STRUCTURAL = {
    'reshape', 'ravel', 'transpose', 'swapaxes', 'moveaxis', 'squeeze',
    'expand_dims', 'broadcast_to', 'concatenate', 'stack', 'vstack', 'hstack',
    'column_stack', 'dstack', 'roll', 'flip', 'flipud', 'fliplr', 'tile',
    'repeat', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'copy', 'take',
    'split', 'array_split', 'ndim', 'shape', 'size', 'copyto', 'delete',
    'append', 'rollaxis', 'broadcast_arrays', 'rot90', 'diag', 'insert',
    'array_repr', 'array_str', 'array2string', 'result_type', 'can_cast',
    'may_share_memory', 'shares_memory', 'meshgrid', 'zeros_like', 'tril',
    'triu', 'resize',
}


def norm_dtype(dt):
  if dt is None:
    return None
  nm = getattr(dt, '_vx_dtype', None)
  if nm is not None:
    return np.dtype(nm)
  try:
    return np.dtype(dt)
  except TypeError:
    return None


def _native(x):
  """Concrete SArr -> native ndarray when it holds only plain numbers."""
  if isinstance(x, SArr) and not any(is_sym(e) for e in
                                     x.view(np.ndarray).ravel()):
    try:
      return np.array(x.view(np.ndarray).tolist())
    except Exception:
      return x
  if isinstance(x, (list, tuple)):
    return type(x)(_native(e) for e in x) if not hasattr(
        x, '_fields') else x
  return x


def deep_sym(x):
  if is_sym(x):
    return True
  if isinstance(x, np.ndarray):
    if x.dtype == object:
      return any(is_sym(e) for e in x.view(np.ndarray).ravel())
    return False
  if isinstance(x, (list, tuple)):
    return any(deep_sym(e) for e in x)
  return False


def _filled(shape, value, dtype):
  d = norm_dtype(dtype)
  shape = _shape(shape)
  if d is not None and d.kind not in 'f':
    return np.full(shape, value, dtype=d)
  o = np.empty(shape, dtype=object)
  o.reshape(-1)[:] = [value] * o.size
  if o.ndim == 0:
    o[()] = value
  return o.view(SArr)


def _shape(shape):
  if isinstance(shape, (tuple, list)):
    return tuple(int(s.__index__()) for s in shape)
  return (int(shape.__index__()),)


def zeros(shape, dtype=None, **k):
  return _filled(shape, 0.0, dtype)


def ones(shape, dtype=None, **k):
  return _filled(shape, 1.0, dtype)


def empty(shape, dtype=None, **k):
  return _filled(shape, 0.0, dtype)


def full(shape, value, dtype=None, **k):
  if is_sym(value):
    return _filled(shape, value, None)
  if dtype is None and isinstance(value, (bool, int)):
    return np.full(_shape(shape), value)
  return _filled(shape, float(value) if norm_dtype(dtype) is None or
                 norm_dtype(dtype).kind == 'f' else value, dtype)


def _like(a, v, dtype):
  a = asarr(a)
  return _filled(a.shape, v, dtype)


def zeros_like(a, dtype=None, **k):
  if not has_sym(a) and isinstance(a, np.ndarray) and a.dtype.kind != 'f':
    return np.zeros_like(a)
  return _like(a, 0.0, dtype)


def ones_like(a, dtype=None, **k):
  if not has_sym(a) and isinstance(a, np.ndarray) and a.dtype.kind != 'f':
    return np.ones_like(a)
  return _like(a, 1.0, dtype)


def full_like(a, v, dtype=None, **k):
  return full(asarr(a).shape, v, dtype)


def _keys(x):
  """A batch of PRNG keys (vx.shims.Keys), if that is what x is."""
  t = type(x[0]) if isinstance(x, (list, tuple)) and len(x) else None
  if getattr(t, '__name__', '') == 'Key' and all(type(k) is t for k in x):
    return t.batch(list(x))
  return None


def array(x, dtype=None, copy=True, ndmin=0, **k):
  if _keys(x):
    return _keys(x)
  d = norm_dtype(dtype)
  if d is not None and d.kind in 'US' or isinstance(x, (str, bytes)):
    return np.array(x, dtype=d)
  if isinstance(x, (list, tuple)) and _is_ragged_objects(x):
    return np.array(x, dtype=object)
  if deep_sym(x):
    r = asarr(x)
    r = r.copy()
    if d is not None and d.kind in 'fiub':
      r = r.astype(d)
  elif isinstance(x, SArr):
    r = x.copy()
    if d is not None and d.kind != 'f':
      r = np.asarray(_native(r)).astype(d)
  else:
    n = np.array(_native(x) if isinstance(x, (list, tuple)) else x,
                 dtype=d)
    if n.dtype.kind == 'f':
      if n.dtype == np.float32 and d is None:
        pass
      r = asarr(n).copy()
    else:
      r = n
  while r.ndim < ndmin:
    r = r[None]
  return r


def _is_ragged_objects(x):
  for e in x:
    if isinstance(e, (list, tuple, np.ndarray)) or is_sym(e) or isinstance(
        e, sym._NUM) or hasattr(e, '__array__'):
      continue
    if isinstance(e, (str, bytes)):
      return False
    if hasattr(e, '__float__') or hasattr(e, '__iter__'):
      continue
    return True
  return False


def asarray(x, dtype=None, **k):
  if _keys(x):
    return _keys(x)
  if isinstance(x, SArr) and (dtype is None or norm_dtype(dtype).kind == 'f'):
    return x
  if isinstance(x, np.ndarray) and x.dtype != object and dtype is None:
    return x
  return array(x, dtype=dtype)


def clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
  lo = a_min if a_min is not None else min
  hi = a_max if a_max is not None else max
  if not deep_sym(a) and not deep_sym(lo) and not deep_sym(hi):
    return _wrap(np.clip(_native(a), lo, hi))
  r = emap(lambda x, l, h: sym.clip(x, None if l is NONE else l,
                                    None if h is NONE else h), a,
           arr.box(NONE) if lo is None else lo,
           arr.box(NONE) if hi is None else hi)
  return scal(r) if r.ndim == 0 else r


class _None:
  pass


NONE = _None()


def _wrap(r):
  if isinstance(r, np.ndarray) and r.dtype.kind == 'f' and r.ndim:
    return asarr(r)
  return r


def where(c, x=None, y=None):
  if x is None:
    if deep_sym(c):
      c = np.array([bool(e) for e in asarr(c).view(np.ndarray).ravel()]
                   ).reshape(np.shape(c))
    return np.where(np.asarray(_native(c)))
  if not (deep_sym(c) or deep_sym(x) or deep_sym(y)):
    return _wrap(np.where(_native(c), _native(x), _native(y)))
  r = emap(lambda c_, a, b: sym.ite(c_ if is_sym(c_) else bool(c_), a, b),
           c, x, y)
  return scal(r) if r.ndim == 0 else r


def dot(a, b, **k):
  a, b = asarr(a), asarr(b)
  if a.ndim == 0 or b.ndim == 0:
    return a * b
  if a.ndim == 1 and b.ndim == 1:
    if a.shape != b.shape:
      raise ValueError('shapes not aligned')
    acc = 0.0
    for x, y in zip(a.view(np.ndarray), b.view(np.ndarray)):
      acc = sym.add(acc, sym.mul(x, y))
    return acc
  if b.ndim == 1:
    o = np.empty(a.shape[:-1], dtype=object)
    for ix in np.ndindex(*a.shape[:-1]):
      o[ix] = dot(a[ix], b)
    return o.view(SArr)
  if a.ndim == 1:
    return dot(b.T, a) if b.ndim == 2 else _unsup('dot')
  if a.ndim == 2 and b.ndim == 2:
    if a.shape[1] != b.shape[0]:
      raise ValueError('shapes not aligned')
    o = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
      for j in range(b.shape[1]):
        o[i, j] = dot(a[i], b[:, j])
    return o.view(SArr)
  _unsup('dot')


def _unsup(n):
  raise Unsupported(f'numpy.{n} on symbolic data')


def norm(x, ord=None, axis=None, keepdims=False):  # pylint: disable=redefined-builtin
  if not deep_sym(x):
    return _wrap(np.linalg.norm(_native(x), ord=ord, axis=axis,
                                keepdims=keepdims))
  if ord not in (None, 2, 'fro'):
    _unsup('linalg.norm(ord)')
  a = asarr(x)
  s = reduce(sym.add, emap(lambda v: sym.mul(v, v), a), axis, keepdims, 0.0)
  if isinstance(s, np.ndarray):
    return emap(arr.f_sqrt, s)
  return arr.f_sqrt(s)


def _red(name, f, init):
  def g(a, axis=None, keepdims=False, out=None, dtype=None, **k):
    if not deep_sym(a):
      return _wrap(getattr(np, name)(_native(a), axis=axis,
                                     keepdims=keepdims))
    return reduce(f, a, axis, keepdims, init)
  return g


np_sum = _red('sum', sym.add, 0)
np_prod = _red('prod', sym.mul, 1)
np_max = _red('max', sym.maximum, None)
np_min = _red('min', sym.minimum, None)
np_all = _red('all', arr.s_and, True)
np_any = _red('any', arr.s_or, False)


def mean(a, axis=None, keepdims=False, **k):
  if not deep_sym(a):
    return _wrap(np.mean(_native(a), axis=axis, keepdims=keepdims))
  return asarr(a).mean(axis=axis, keepdims=keepdims)


def std(a, axis=None, **k):
  if not deep_sym(a):
    return _wrap(np.std(_native(a), axis=axis))
  return asarr(a).std(axis=axis)


def var(a, axis=None, **k):
  if not deep_sym(a):
    return _wrap(np.var(_native(a), axis=axis))
  return asarr(a).var(axis=axis)


def average(a, axis=None, weights=None):
  if weights is None:
    return mean(a, axis)
  return np_sum(asarr(a) * weights, axis) / np_sum(weights, axis)


def argmax(a, axis=None, **k):
  if not deep_sym(a):
    return np.argmax(_native(a), axis=axis)
  return arr.arg_ext(a, axis, '>')


def argmin(a, axis=None, **k):
  if not deep_sym(a):
    return np.argmin(_native(a), axis=axis)
  return arr.arg_ext(a, axis, '<')


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
  if not deep_sym(a) and not deep_sym(b):
    return np.isclose(_native(a), _native(b), rtol, atol, equal_nan)
  r = emap(lambda x, y: sym.compare('<=', sym.absolute(sym.sub(x, y)),
                                    sym.add(atol, sym.mul(
                                        rtol, sym.absolute(y)))), a, b)
  return scal(r) if r.ndim == 0 else r


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
  r = isclose(a, b, rtol, atol, equal_nan)
  return np_all(r) if isinstance(r, np.ndarray) else r


def array_equal(a, b, **k):
  a, b = asarr(a), asarr(b)
  if a.shape != b.shape:
    return False
  return np_all(emap(lambda x, y: sym.compare('==', x, y), a, b))


def linspace(start, stop, num=50, endpoint=True, dtype=None, **k):
  if not is_sym(start) and not is_sym(stop):
    return _wrap(np.linspace(start, stop, num, endpoint=endpoint,
                             dtype=norm_dtype(dtype)))
  n = int(num)
  d = (n - 1) if endpoint else n
  out = [sym.add(start, sym.div(sym.mul(sym.sub(stop, start), i), float(d)))
         for i in range(n)]
  if endpoint and n > 1:
    out[-1] = stop
  return asarr(out)


def arange(*a, dtype=None, **k):
  a = [x.__index__() if is_sym(x) and sym._isint(x) else x for x in a]
  if any(is_sym(x) for x in a):
    _unsup('arange')
  return _wrap(np.arange(*a, dtype=norm_dtype(dtype)))


def concatenate(xs, axis=0, **k):
  if axis == 0 and all(_keys(x) for x in xs):
    return _keys([k for x in xs for k in x])
  xs = list(xs)
  if not deep_sym(xs) and not any(isinstance(x, SArr) for x in xs):
    return _wrap(np.concatenate(xs, axis=axis))
  return np.concatenate([asarr(x).view(np.ndarray) for x in xs],
                        axis=axis).view(SArr)


def stack(xs, axis=0, **k):
  if axis == 0 and _keys(xs):
    return _keys(xs)
  return np.stack([asarr(x).view(np.ndarray) for x in xs],
                  axis=axis).view(SArr)


def vstack(xs, **k):
  if _keys(xs):
    return _keys(xs)
  return np.vstack([asarr(x).view(np.ndarray) for x in xs]).view(SArr)


def hstack(xs, **k):
  return np.hstack([asarr(x).view(np.ndarray) for x in xs]).view(SArr)


def append(a, v, axis=None):
  return np.append(asarr(a).view(np.ndarray), asarr(v).view(np.ndarray),
                   axis=axis).view(SArr)


def column_stack(xs):
  return np.column_stack([asarr(x).view(np.ndarray) for x in xs]).view(SArr)


def diff(a, n=1, axis=-1, **k):
  a = asarr(a)
  m = np.moveaxis(a.view(np.ndarray), axis, -1).view(SArr)
  return np.moveaxis((m[..., 1:] - m[..., :-1]).view(np.ndarray), -1,
                     axis).view(SArr)


def cumsum(a, axis=None, **k):
  a = asarr(a)
  if axis is None:
    a = a.reshape(-1)
    axis = 0
  if a.ndim != 1:
    _unsup('cumsum')
  out, acc = [], 0
  for x in a.view(np.ndarray):
    acc = sym.add(acc, x)
    out.append(acc)
  return asarr(out)


def interp(x, xp, fp, left=None, right=None, period=None):
  if period is not None:
    _unsup('interp(period)')
  xp, fp = list(asarr(xp).view(np.ndarray)), list(asarr(fp).view(np.ndarray))

  def one(v):
    r = fp[-1] if right is None else right
    for i in range(len(xp) - 1, 0, -1):
      y = sym.add(fp[i - 1], sym.mul(
          sym.sub(v, xp[i - 1]),
          sym.div(sym.sub(fp[i], fp[i - 1]), sym.sub(xp[i], xp[i - 1]))))
      r = sym.ite(sym.compare('<=' if i == len(xp) - 1 else '<', v, xp[i]),
                  y, r)
    return sym.ite(sym.compare('<', v, xp[0]),
                   fp[0] if left is None else left, r)
  r = emap(one, x)
  return scal(r) if r.ndim == 0 else r


def searchsorted(a, v, side='left', sorter=None):
  if not deep_sym(a) and not deep_sym(v):
    return np.searchsorted(_native(a), _native(v), side)
  a = list(asarr(a).view(np.ndarray))

  def one(x):
    n = 0
    for e in a:
      n = sym.add(n, sym.ite(sym.compare('<' if side == 'left' else '<=', e,
                                         x), 1, 0))
    return n
  r = emap(one, v)
  return scal(r) if r.ndim == 0 else r


def np_round(a, decimals=0, **k):
  if not deep_sym(a):
    return _wrap(np.round(_native(a), decimals))
  r = emap(lambda x: sym.to_float(sym.round_(x, decimals or None)), a)
  return scal(r) if r.ndim == 0 else r


def count_nonzero(a, **k):
  return reduce(sym.add, emap(
      lambda x: sym.ite(x if isinstance(x, sym.SymBool) else (x != 0), 1, 0)
      if is_sym(x) else int(bool(x)), a), None, False, 0)


def nan_to_num(a, **k):
  return a if deep_sym(a) else np.nan_to_num(_native(a), **k)


def sort(a, axis=-1, **k):
  if not deep_sym(a):
    return _wrap(np.sort(_native(a), axis=axis))
  a = asarr(a)
  if a.ndim != 1:
    _unsup('sort')
  return asarr(sorted(list(a.view(np.ndarray))))


def median(a, **k):
  if not deep_sym(a):
    return np.median(_native(a), **k)
  xs = sorted(list(asarr(a).view(np.ndarray).ravel()))
  n = len(xs)
  return xs[n // 2] if n % 2 else sym.div(sym.add(xs[n // 2 - 1], xs[n // 2]),
                                         2.0)


def _ufunc(name):
  real = getattr(np, name)
  f = arr.UFUNCS[name]

  def g(*args, out=None, where=True, dtype=None, **k):  # pylint: disable=redefined-outer-name
    if not any(deep_sym(a) for a in args):
      args = [_native(a) if isinstance(a, (SArr, list, tuple)) else a
              for a in args]
      r = real(*args)
      if out is not None:
        out[...] = r
        return out
      return _wrap(r)
    r = emap(f, *args)
    if out is not None:
      out[...] = r
      return out
    return scal(r) if r.ndim == 0 else r
  g.__name__ = name
  return g


def _struct(name):
  real = getattr(np, name)

  def g(a, *args, **k):
    if isinstance(a, (list, tuple)) and deep_sym(a):
      a = asarr(a)
    elif is_sym(a):
      a = asarr(a)
    if isinstance(a, SArr):
      r = real(a.view(np.ndarray), *args, **k)
      return r.view(SArr) if isinstance(r, np.ndarray) else (
          [x.view(SArr) for x in r] if isinstance(r, (list, tuple)) and r and
          isinstance(r[0], np.ndarray) else r)
    return real(a, *args, **k)
  g.__name__ = name
  return g


OVERRIDES = {
    'zeros': zeros, 'ones': ones, 'empty': empty, 'full': full,
    'zeros_like': zeros_like, 'ones_like': ones_like, 'empty_like': zeros_like,
    'full_like': full_like, 'array': array, 'asarray': asarray,
    'asanyarray': asarray, 'ascontiguousarray': asarray, 'clip': clip,
    'where': where, 'dot': dot, 'matmul': dot, 'inner': dot, 'vdot': dot,
    'sum': np_sum, 'prod': np_prod, 'max': np_max, 'min': np_min,
    'amax': np_max, 'amin': np_min, 'all': np_all, 'any': np_any,
    'nanmax': np_max, 'nanmin': np_min, 'nansum': np_sum, 'nanmean': mean,
    'mean': mean, 'std': std, 'var': var, 'average': average,
    'argmax': argmax, 'argmin': argmin, 'isclose': isclose,
    'allclose': allclose, 'array_equal': array_equal, 'linspace': linspace,
    'arange': arange, 'concatenate': concatenate, 'stack': stack,
    'vstack': vstack, 'hstack': hstack, 'append': append,
    'column_stack': column_stack, 'diff': diff, 'cumsum': cumsum,
    'interp': interp, 'searchsorted': searchsorted, 'round': np_round,
    'around': np_round, 'count_nonzero': count_nonzero,
    'nan_to_num': nan_to_num, 'sort': sort, 'median': median,
}
for _n in arr.UFUNCS:
  if hasattr(np, _n) and _n not in OVERRIDES:
    OVERRIDES[_n] = _ufunc(_n)
OVERRIDES['abs'] = OVERRIDES['absolute']
for _n, _r in (('acos', 'arccos'), ('asin', 'arcsin'), ('atan', 'arctan'),
               ('atan2', 'arctan2'), ('pow', 'power')):
  OVERRIDES[_n] = OVERRIDES[_r]
for _n in STRUCTURAL:
  if _n not in OVERRIDES and hasattr(np, _n):
    OVERRIDES[_n] = _struct(_n)


def _guard(name, real):
  def g(*args, **k):
    if any(deep_sym(a) for a in args) or any(deep_sym(a) for a in k.values()):
      _unsup(name)
    args = [_native(a) for a in args]
    for kk in ('dtype',):
      if kk in k:
        k[kk] = norm_dtype(k[kk])
    return _wrap(real(*args, **k))
  g.__name__ = name
  return g


class _ScalarMeta(type):
  """np.float32(x) etc.: usable as dtype, constructor and isinstance class."""

  def __call__(cls, x=0, *a, **k):
    if is_sym(x):
      return arr.cast_scalar(x, cls._vx_dtype)
    if isinstance(x, (np.ndarray, list, tuple)) and deep_sym(x):
      return asarr(x).astype(cls._vx_dtype)
    return cls._vx_real(_native(x), *a, **k)

  def __instancecheck__(cls, x):
    if is_sym(x):
      return False
    return isinstance(x, cls._vx_real)

  def __eq__(cls, o):
    return cls is o or o is cls._vx_real

  def __hash__(cls):
    return hash(cls._vx_real)

  def __getattr__(cls, n):
    return getattr(cls._vx_real, n)


def _scalar(name):
  real = getattr(np, name)
  # numpy accepts any object with a .dtype attribute where a dtype goes.
  return _ScalarMeta(name, (), {'_vx_real': real, '_vx_dtype': np.dtype(real),
                                'dtype': np.dtype(real)})


class _AbstractMeta(type):

  def __instancecheck__(cls, x):
    if isinstance(x, sym.Sym):
      return ('int' in cls._vx_k) == x.is_int or cls._vx_k == 'number'
    return isinstance(x, cls._vx_real)


class NpShim(types.ModuleType):

  def __init__(self, name, extra=None):
    super().__init__(name)
    d = self.__dict__
    d.update(OVERRIDES)
    for n in ('float32', 'float64', 'float16', 'int32', 'int64', 'int16',
              'int8', 'uint8', 'uint32', 'uint64'):
      d[n] = _scalar(n)
    d['floating'] = _AbstractMeta('floating', (), {
        '_vx_k': 'floating', '_vx_real': np.floating})
    d['integer'] = _AbstractMeta('integer', (), {
        '_vx_k': 'integer', '_vx_real': np.integer})
    d['number'] = _AbstractMeta('number', (), {
        '_vx_k': 'number', '_vx_real': np.number})
    d['ndarray'] = np.ndarray
    la = types.ModuleType(name + '.linalg')
    for n in dir(np.linalg):
      if not n.startswith('_'):
        o = getattr(np.linalg, n)
        la.__dict__[n] = _guard(n, o) if callable(o) and not isinstance(
            o, type) else o
    la.norm = norm
    d['linalg'] = la
    if extra:
      d.update(extra)

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    o = getattr(np, n)
    if callable(o) and not isinstance(o, type):
      o = _guard(n, o)
    self.__dict__[n] = o
    return o
