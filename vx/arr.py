"""Object arrays holding symbolic numbers, and elementwise helpers."""
import math
import operator

import numpy as np

from vx import sym
from vx.sym import (Sym, SymBool, Unsupported, is_sym)


def has_sym(x):
  if isinstance(x, (Sym, SymBool)):
    return True
  if isinstance(x, np.ndarray):
    return x.dtype == object
  if isinstance(x, (list, tuple)):
    return any(has_sym(e) for e in x)
  return False


def box(x):
  """Scalar -> 0-d object array (without numpy inspecting the object)."""
  a = np.empty((), dtype=object)
  a[()] = x
  return a


def asarr(x):
  """Anything array-like -> SArr (object)."""
  if isinstance(x, SArr):
    return x
  if isinstance(x, np.ndarray):
    if x.dtype == object:
      return x.view(SArr)
    o = np.empty(x.shape, dtype=object)
    flat = x.ravel().tolist()
    of = o.reshape(-1)
    for i, v in enumerate(flat):
      of[i] = v
    return of.reshape(x.shape).view(SArr)
  if isinstance(x, (Sym, SymBool)) or not isinstance(x, (list, tuple)):
    if hasattr(x, '__iter__') and not isinstance(x, (str, bytes, Sym,
                                                     SymBool)):
      return asarr(list(x))
    return box(x).view(SArr)
  parts = [asarr(e) for e in x]
  if not parts:
    return np.empty((0,), dtype=object).view(SArr)
  shp = parts[0].shape
  for p in parts:
    if p.shape != shp:
      raise ValueError('inhomogeneous array')
  o = np.empty((len(parts),) + shp, dtype=object)
  for i, p in enumerate(parts):
    o[i] = p if shp else p.item()
  return o.view(SArr)


def emap(f, *args):
  as_ = [asarr(a) for a in args]
  b = np.broadcast_arrays(*[np.asarray(a).view(np.ndarray) for a in as_])
  out = np.empty(b[0].shape, dtype=object)
  if out.ndim == 0:
    out[()] = f(*[x.item() for x in b])
    return out.view(SArr)
  of = out.reshape(-1)
  fl = [list(x.ravel()) for x in b]
  for i in range(of.shape[0]):
    of[i] = f(*[x[i] for x in fl])
  return of.reshape(out.shape).view(SArr)


def scal(a):
  """0-d SArr -> scalar."""
  if isinstance(a, np.ndarray) and a.ndim == 0:
    return a.item() if a.dtype == object else a[()]
  return a


def lower(a):
  """If an SArr holds no symbolic element, give numpy a native array back."""
  return a


def cast_scalar(x, dt):
  d = np.dtype(dt) if not isinstance(dt, np.dtype) else dt
  if d.kind == 'f':
    return sym.to_float(x)
  if d.kind in 'iu':
    return sym.trunc(x)
  if d.kind == 'b':
    return x if isinstance(x, SymBool) else (x != 0)
  return x


def _fn1(name):
  def f(x):
    x = sym.unwrap0(x)
    if not is_sym(x):
      return getattr(np, {'acos': 'arccos', 'asin': 'arcsin',
                          'atan': 'arctan'}.get(name, name))(x).item()
    return sym.eng().fn(name, x)
  return f


f_exp, f_log, f_sin, f_cos, f_tan = map(_fn1, ['exp', 'log', 'sin', 'cos',
                                               'tan'])
f_acos, f_asin, f_atan, f_tanh = map(_fn1, ['acos', 'asin', 'atan', 'tanh'])


def f_sqrt(x):
  x = sym.unwrap0(x)
  if not is_sym(x):
    return float(np.sqrt(x))
  return np_mode(lambda: sym.eng().fn('sqrt', x))


def np_mode(thunk):
  """numpy error semantics: nan instead of exceptions."""
  e = sym.eng()
  old = e.numpy_div
  e.numpy_div = True
  try:
    return thunk()
  finally:
    e.numpy_div = old


def np_arccos(x):
  return np_mode(lambda: f_acos(x))


def np_arcsin(x):
  return np_mode(lambda: f_asin(x))


def f_atan2(y, x):
  y, x = sym.unwrap0(y), sym.unwrap0(x)
  if not is_sym(y) and not is_sym(x):
    return math.atan2(y, x)
  return sym.eng().fn('atan2', y, x)


def f_sign(x):
  if not is_sym(x):
    return float(np.sign(x))
  return sym.ite(x > 0, 1.0, sym.ite(x < 0, -1.0, 0.0))


def s_isnan(x):
  if is_sym(x):
    return False
  return bool(np.isnan(x))


def s_isfinite(x):
  if is_sym(x):
    return True
  return bool(np.isfinite(x))


def s_isinf(x):
  return False if is_sym(x) else bool(np.isinf(x))


def s_not(x):
  return ~x if isinstance(x, SymBool) else (
      ~(x != 0) if isinstance(x, Sym) else (not x))


def s_and(a, b):
  if is_sym(a) or is_sym(b):
    return SymBool(sym.z3.And(sym.bterm(a), sym.bterm(b)))
  return bool(a) and bool(b)


def s_or(a, b):
  if is_sym(a) or is_sym(b):
    return SymBool(sym.z3.Or(sym.bterm(a), sym.bterm(b)))
  return bool(a) or bool(b)


def np_div(a, b):
  """numpy division: x/0 gives inf/nan rather than raising."""
  if is_sym(a) or is_sym(b):
    if not is_sym(b) and not isinstance(b, (int, float)):
      b = float(b)
    if not is_sym(b) and b == 0:
      if bool(sym.compare('>', a, 0)):
        return math.inf
      if bool(sym.compare('<', a, 0)):
        return -math.inf
      return math.nan
    try:
      return sym.div(a, b)
    except ZeroDivisionError:
      return np_div(a, 0.0)
  with np.errstate(all='ignore'):
    return (np.float64(a) / np.float64(b)).item()


def c_(op):
  return lambda a, b: sym.compare(op, a, b)


UFUNCS = {
    'add': sym.add, 'subtract': sym.sub, 'multiply': sym.mul,
    'true_divide': np_div, 'divide': np_div,
    'floor_divide': sym.floordiv, 'remainder': sym.mod, 'mod': sym.mod,
    'power': sym.power, 'float_power': sym.power,
    'less': c_('<'), 'less_equal': c_('<='), 'greater': c_('>'),
    'greater_equal': c_('>='), 'equal': c_('=='), 'not_equal': c_('!='),
    'negative': lambda a: -a, 'positive': lambda a: a,
    'absolute': sym.absolute, 'fabs': sym.absolute,
    'maximum': sym.maximum, 'minimum': sym.minimum,
    'fmax': sym.maximum, 'fmin': sym.minimum,
    'sqrt': f_sqrt, 'exp': f_exp, 'log': f_log, 'sin': f_sin, 'cos': f_cos,
    'tan': f_tan, 'arccos': np_arccos, 'arcsin': np_arcsin,
    'arctan': f_atan, 'arctan2': f_atan2, 'tanh': f_tanh,
    'square': lambda a: sym.mul(a, a),
    'sign': f_sign, 'isnan': s_isnan, 'isfinite': s_isfinite,
    'isinf': s_isinf, 'logical_not': s_not, 'invert': s_not,
    'logical_and': s_and, 'logical_or': s_or, 'bitwise_and': s_and,
    'bitwise_or': s_or, 'bitwise_xor': lambda a, b: a ^ b,
    'floor': lambda a: sym.to_float(sym.floor(a)),
    'ceil': lambda a: sym.to_float(sym.ceil(a)),
    'rint': lambda a: sym.to_float(sym.round_(a)),
    'trunc': lambda a: sym.to_float(sym.trunc(a)),
    'deg2rad': lambda a: sym.mul(a, math.pi / 180.0),
    'radians': lambda a: sym.mul(a, math.pi / 180.0),
    'rad2deg': lambda a: sym.mul(a, 180.0 / math.pi),
    'degrees': lambda a: sym.mul(a, 180.0 / math.pi),
    'hypot': lambda a, b: f_sqrt(sym.add(sym.mul(a, a), sym.mul(b, b))),
    'reciprocal': lambda a: np_div(1.0, a),
    'conjugate': lambda a: a,
}


class _At:

  def __init__(self, a):
    self.a = a

  def __getitem__(self, idx):
    a = self.a

    class _Set:

      def set(self, v):
        r = a.copy()
        r[idx] = v
        return r

      def add(self, v):
        r = a.copy()
        r[idx] = r[idx] + v
        return r

      def multiply(self, v):
        r = a.copy()
        r[idx] = r[idx] * v
        return r

      def get(self):
        return a[idx]

    return _Set()


class SArr(np.ndarray):
  """ndarray of objects whose ufuncs build terms instead of forking."""

  __array_priority__ = 100

  def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
    f = UFUNCS.get(ufunc.__name__)
    if method == '__call__':
      if f is None:
        raise Unsupported(f'ufunc {ufunc.__name__} on symbolic data')
      r = emap(f, *inputs)
      if out is not None:
        o = out[0]
        if isinstance(o, np.ndarray) and o.dtype == object:
          np.copyto(o.view(np.ndarray), r.view(np.ndarray))
          return o
        raise Unsupported('symbolic data written to a native array')
      return scal(r) if r.ndim == 0 else r
    if method == 'reduce' and f is not None:
      return reduce(f, inputs[0], kw.get('axis', 0), kw.get('keepdims', False),
                    kw.get('initial', None))
    if method == 'outer' and f is not None:
      a, b = asarr(inputs[0]), asarr(inputs[1])
      return emap(f, a.reshape(a.shape + (1,) * b.ndim), b)
    raise Unsupported(f'ufunc {ufunc.__name__}.{method}')

  def __array_function__(self, func, types, args, kwargs):
    from vx import npshim
    impl = npshim.OVERRIDES.get(func.__name__)
    if impl is not None:
      return impl(*args, **kwargs)
    if func.__name__ in npshim.STRUCTURAL:
      r = super().__array_function__(func, types, args, kwargs)
      return r
    raise Unsupported(f'numpy.{func.__name__} on symbolic data')

  # comparisons via ufuncs above; truth of arrays:
  def __bool__(self):
    if self.size == 1:
      return bool(self.reshape(-1).view(np.ndarray)[0])
    raise ValueError('The truth value of an array is ambiguous')

  def __float__(self):
    if self.size == 1:
      return float(self.reshape(-1).view(np.ndarray)[0])
    raise TypeError('only size-1 arrays can be converted')

  def _fix_idx(self, idx):
    if isinstance(idx, tuple):
      return tuple(self._fix_idx(i) for i in idx)
    if isinstance(idx, Sym):
      return idx.__index__()
    if isinstance(idx, SymBool):
      return bool(idx)
    if isinstance(idx, np.ndarray) and idx.dtype == object:
      flat = list(np.asarray(idx).view(np.ndarray).ravel())
      if all(isinstance(e, (bool, np.bool_, SymBool)) for e in flat):
        return np.array([bool(e) for e in flat], dtype=bool).reshape(idx.shape)
      return np.array([int(e.__index__()) for e in flat],
                      dtype=int).reshape(idx.shape)
    if isinstance(idx, list):
      return [self._fix_idx(i) for i in idx]
    return idx

  def __getitem__(self, idx):
    r = super().__getitem__(self._fix_idx(idx))
    return r

  def __setitem__(self, idx, v):
    idx = self._fix_idx(idx)
    if isinstance(v, np.ndarray) and v.ndim == 0:
      v = v.item()
    if isinstance(v, (Sym, SymBool)):
      t = idx if isinstance(idx, tuple) else (idx,)
      if len(t) != self.ndim or not all(
          isinstance(i, (int, np.integer)) for i in t):
        v = box(v)
    elif isinstance(v, (list, tuple)):
      v = asarr(v).view(np.ndarray)
    elif isinstance(v, np.ndarray):
      v = asarr(v).view(np.ndarray)
    self.view(np.ndarray).__setitem__(idx, v)

  # --- methods ---
  def item(self, *a):
    r = self.view(np.ndarray)
    if a:
      return r.item(*a)
    if r.size != 1:
      raise ValueError('can only convert an array of size 1')
    return list(r.ravel())[0]

  def tolist(self):
    return self.view(np.ndarray).tolist()

  def astype(self, dt, *a, **k):
    if dt == object:
      return self.copy()
    return emap(lambda x: cast_scalar(x, dt), self)

  def sum(self, axis=None, keepdims=False, **k):
    return reduce(sym.add, self, axis, keepdims, 0)

  def prod(self, axis=None, keepdims=False, **k):
    return reduce(sym.mul, self, axis, keepdims, 1)

  def mean(self, axis=None, keepdims=False, **k):
    n = self.size if axis is None else np.prod(
        [self.shape[i] for i in np.atleast_1d(axis)])
    return self.sum(axis=axis, keepdims=keepdims) / float(n)

  def max(self, axis=None, keepdims=False, **k):
    return reduce(sym.maximum, self, axis, keepdims, None)

  def min(self, axis=None, keepdims=False, **k):
    return reduce(sym.minimum, self, axis, keepdims, None)

  def all(self, axis=None, keepdims=False, **k):
    return reduce(s_and, self, axis, keepdims, True)

  def any(self, axis=None, keepdims=False, **k):
    return reduce(s_or, self, axis, keepdims, False)

  def std(self, axis=None, **k):
    return f_sqrt(self.var(axis=axis)) if axis is None else emap(
        f_sqrt, self.var(axis=axis))

  def var(self, axis=None, **k):
    m = self.mean(axis=axis, keepdims=axis is not None)
    d = self - m
    return (d * d).mean(axis=axis)

  def clip(self, lo=None, hi=None, **k):
    return emap(lambda x: sym.clip(x, lo, hi), self) if not (
        isinstance(lo, np.ndarray) or isinstance(hi, np.ndarray)) else emap(
            sym.clip, self, lo, hi)

  def dot(self, o):
    from vx import npshim
    return npshim.dot(self, o)

  def argmax(self, axis=None, **k):
    return arg_ext(self, axis, '>')

  def argmin(self, axis=None, **k):
    return arg_ext(self, axis, '<')

  def round(self, n=0, **k):
    return emap(lambda x: sym.to_float(sym.round_(x, n or None)), self)

  def block_until_ready(self):
    return self

  @property
  def at(self):
    return _At(self)

  def _into(self, r):
    np.copyto(self.view(np.ndarray), asarr(r).view(np.ndarray))
    return self

  def __iadd__(self, o):
    return self._into(self + o)

  def __isub__(self, o):
    return self._into(self - o)

  def __imul__(self, o):
    return self._into(self * o)

  def __itruediv__(self, o):
    return self._into(self / o)

  def __matmul__(self, o):
    from vx import npshim
    return npshim.dot(self, o)

  def __rmatmul__(self, o):
    from vx import npshim
    return npshim.dot(o, self)

  def __deepcopy__(self, memo):
    return self.copy()

  def __contains__(self, v):
    return bool((self == v).any())

  def __hash__(self):
    raise TypeError('unhashable')

  def __format__(self, spec):
    return '<symarray>'

  def __repr__(self):
    return f'SArr{self.shape}'

  __str__ = __repr__


def reduce(f, a, axis=None, keepdims=False, initial=None):
  a = asarr(a)
  n = np.asarray(a).view(np.ndarray)
  if axis is None:
    acc = initial
    for x in list(n.ravel()):
      acc = x if acc is None else f(acc, x)
    if acc is None:
      raise ValueError('zero-size array to reduction')
    if keepdims:
      return box(acc).view(SArr).reshape((1,) * n.ndim)
    return acc
  axes = [ax % n.ndim for ax in (axis if isinstance(axis, tuple) else (axis,))]
  r = n
  for ax in sorted(axes, reverse=True):
    m = np.moveaxis(r, ax, 0)
    acc = None
    if initial is not None:
      acc = asarr(np.full(m.shape[1:], 0)).view(np.ndarray)
      o = np.empty(m.shape[1:], dtype=object)
      o.reshape(-1)[:] = [initial] * o.size
      acc = o
    for i in range(m.shape[0]):
      s = m[i]
      if not isinstance(s, np.ndarray):
        s = box(s)
      acc = s if acc is None else emap(f, acc, s).view(np.ndarray)
    r = np.expand_dims(acc, ax) if keepdims else acc
  r = r.view(SArr)
  return scal(r) if r.ndim == 0 else r


def arg_ext(a, axis, op):
  """argmax/argmin, first winner, as a symbolic integer (no fork)."""
  a = asarr(a)
  n = np.asarray(a).view(np.ndarray)
  if axis is None or n.ndim == 1:
    xs = list(n.ravel())
    best, idx = xs[0], 0
    for i, x in enumerate(xs[1:], 1):
      c = sym.compare(op, x, best)
      best = sym.ite(c, x, best)
      idx = sym.ite(c, i, idx)
    return idx
  m = np.moveaxis(n, axis, -1)
  out = np.empty(m.shape[:-1], dtype=object)
  for ix in np.ndindex(*m.shape[:-1]):
    out[ix] = arg_ext(m[ix], None, op)
  return out.view(SArr)
