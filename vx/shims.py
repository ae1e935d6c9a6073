"""Stand-ins for the libraries the code under test imports.

numpy, math, datetime, jax and scipy.interpolate are modelled (they accept
symbolic terms); gin, gym, absl, flax, tensorflow... are inert stubs.
"""
import datetime as _rdt
import math as _math
import types

import numpy as np

from vx import arr, npshim, sym
from vx.arr import SArr, asarr, emap, scal
from vx.sym import Sym, SymBool, Unsupported, is_sym

# --------------------------------------------------------------------- math


def make_math():
  m = types.ModuleType('math')
  m.__dict__.update({k: v for k, v in _math.__dict__.items()
                     if not k.startswith('__')})

  def un(x):
    x = sym.unwrap0(x)
    if isinstance(x, SArr) and x.size == 1:
      x = x.item()
    return x

  def f1(name, real):
    def g(x):
      x = un(x)
      if not is_sym(x):
        return real(x)
      e = sym.eng()
      old, e.numpy_div = e.numpy_div, False
      try:
        return e.fn(name, x)
      finally:
        e.numpy_div = old
    return g
  for n in ('exp', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'tanh',
            'sqrt'):
    setattr(m, n, f1(n, getattr(_math, n)))
  log1 = f1('log', _math.log)

  def log(x, base=None):
    if base is None:
      return log1(x)
    if not is_sym(un(x)) and not is_sym(un(base)):
      return _math.log(un(x), un(base))
    return log1(x) / log1(base)
  m.log = log
  m.log10 = lambda x: _math.log10(x) if not is_sym(un(x)) else (
      log1(x) / _math.log(10))
  m.log2 = lambda x: _math.log2(x) if not is_sym(un(x)) else (
      log1(x) / _math.log(2))

  def atan2(y, x):
    y, x = un(y), un(x)
    return arr.f_atan2(y, x)
  m.atan2 = atan2

  def hypot(*xs):
    xs = [un(x) for x in xs]
    if not any(is_sym(x) for x in xs):
      return _math.hypot(*xs)
    s = 0.0
    for x in xs:
      s = sym.add(s, sym.mul(x, x))
    return m.sqrt(s)
  m.hypot = hypot
  m.dist = lambda p, q: hypot(*[a - b for a, b in zip(p, q)])
  m.floor = lambda x: sym.floor(un(x))
  m.ceil = lambda x: sym.ceil(un(x))
  m.trunc = lambda x: sym.trunc(un(x))
  m.fabs = lambda x: sym.to_float(sym.absolute(un(x)))
  m.degrees = lambda x: sym.mul(un(x), 180.0 / _math.pi) if is_sym(
      un(x)) else _math.degrees(x)
  m.radians = lambda x: sym.mul(un(x), _math.pi / 180.0) if is_sym(
      un(x)) else _math.radians(x)
  m.isnan = lambda x: False if is_sym(un(x)) else _math.isnan(x)
  m.isinf = lambda x: False if is_sym(un(x)) else _math.isinf(x)
  m.isfinite = lambda x: True if is_sym(un(x)) else _math.isfinite(x)
  m.pow = lambda x, y: sym.power(un(x), float(y) if not is_sym(y) else y
                                 ) if is_sym(un(x)) or is_sym(
      un(y)) else _math.pow(x, y)

  def fmod(a, b):
    a, b = un(a), un(b)
    if not is_sym(a) and not is_sym(b):
      return _math.fmod(a, b)
    q = sym.div(a, b)
    return sym.sub(a, sym.mul(b, sym.trunc(q)))
  m.fmod = fmod

  def copysign(a, b):
    if not is_sym(a) and not is_sym(b):
      return _math.copysign(a, b)
    aa = sym.absolute(a)
    return sym.ite(sym.compare('<', b, 0), -aa, aa)
  m.copysign = copysign

  def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if not is_sym(a) and not is_sym(b):
      return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    mx = sym.maximum(sym.absolute(a), sym.absolute(b))
    return sym.compare('<=', sym.absolute(sym.sub(a, b)),
                       sym.maximum(sym.mul(rel_tol, mx), abs_tol))
  m.isclose = isclose

  def fsum(xs):
    r = 0.0
    for x in xs:
      r = sym.add(r, x)
    return r
  m.fsum = fsum
  m.prod = lambda xs, *, start=1: _prod(xs, start)
  return m


def _prod(xs, start):
  for x in xs:
    start = start * x
  return start


# ----------------------------------------------------------------- datetime

_EPOCH = _rdt.datetime(1970, 1, 1, tzinfo=_rdt.timezone.utc)
_DAY = 86400 * 10**6


def _us_of(td):
  return (td.days * 86400 + td.seconds) * 10**6 + td.microseconds


class timedelta:  # pylint: disable=invalid-name
  __slots__ = ('us',)

  def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0,
               minutes=0, hours=0, weeks=0):
    parts = dict(days=days, seconds=seconds, microseconds=microseconds,
                 milliseconds=milliseconds, minutes=minutes, hours=hours,
                 weeks=weeks)
    parts = {k: sym.unwrap0(v) for k, v in parts.items()}
    scale = dict(days=_DAY, seconds=10**6, microseconds=1, milliseconds=1000,
                 minutes=60 * 10**6, hours=3600 * 10**6, weeks=7 * _DAY)
    conc = {k: (v.item() if isinstance(v, np.generic) else v)
            for k, v in parts.items() if not is_sym(v)}
    us = _us_of(_rdt.timedelta(**conc))
    for k, v in parts.items():
      if is_sym(v):
        us = sym.add(us, sym.mul(v, scale[k]))
    self.us = us

  @classmethod
  def _mk(cls, us):
    r = cls.__new__(cls)
    if isinstance(us, float):
      us = round(us)
    r.us = us
    return r

  def _real(self):
    return _rdt.timedelta(microseconds=self.us)

  def total_seconds(self):
    return sym.div(self.us, 10**6)

  @property
  def days(self):
    return sym.floordiv(_whole(self.us), _DAY)

  @property
  def seconds(self):
    return sym.floordiv(sym.mod(_whole(self.us), _DAY), 10**6)

  @property
  def microseconds(self):
    return sym.mod(_whole(self.us), 10**6)

  def __add__(self, o):
    if isinstance(o, timedelta):
      return self._mk(sym.add(self.us, o.us))
    return NotImplemented

  __radd__ = __add__

  def __sub__(self, o):
    if isinstance(o, timedelta):
      return self._mk(sym.sub(self.us, o.us))
    return NotImplemented

  def __neg__(self):
    return self._mk(-self.us)

  def __pos__(self):
    return self

  def __abs__(self):
    return self._mk(sym.absolute(self.us))

  def __mul__(self, o):
    o = sym.unwrap0(o)
    if not (is_sym(o) or isinstance(o, (int, float, np.generic))):
      return NotImplemented
    if is_sym(o) or is_sym(self.us):
      return self._mk(sym.mul(self.us, o))
    if isinstance(o, np.generic):
      o = o.item()
    if isinstance(o, (int, float)):
      return self._mk(_us_of(self._real() * o))
    return NotImplemented

  __rmul__ = __mul__

  def __truediv__(self, o):
    if isinstance(o, timedelta):
      return sym.div(self.us, o.us)
    o = sym.unwrap0(o)
    if not (is_sym(o) or isinstance(o, (int, float, np.generic))):
      return NotImplemented
    if is_sym(o) or is_sym(self.us):
      return self._mk(sym.div(self.us, o))
    if isinstance(o, (int, float)):
      return self._mk(_us_of(self._real() / o))
    return NotImplemented

  def __floordiv__(self, o):
    if isinstance(o, timedelta):
      return sym.floordiv(_whole(self.us), _whole(o.us))
    return self._mk(sym.floordiv(_whole(self.us), o))

  def __mod__(self, o):
    return self._mk(sym.mod(_whole(self.us), _whole(o.us)))

  def __divmod__(self, o):
    return self // o, self % o

  def _c(self, o, op):
    if not isinstance(o, timedelta):
      return NotImplemented
    return sym.compare(op, self.us, o.us)

  def __lt__(self, o):
    return self._c(o, '<')

  def __le__(self, o):
    return self._c(o, '<=')

  def __gt__(self, o):
    return self._c(o, '>')

  def __ge__(self, o):
    return self._c(o, '>=')

  def __eq__(self, o):
    return self._c(o, '==')

  def __ne__(self, o):
    return self._c(o, '!=')

  def __hash__(self):
    return hash(self.us) if not is_sym(self.us) else self.us.t.hash()

  def __bool__(self):
    return bool(self.us != 0)

  def __deepcopy__(self, memo):
    return self

  def __str__(self):
    return '<timedelta>' if is_sym(self.us) else str(self._real())

  __repr__ = __str__

  def __format__(self, spec):
    return str(self)


timedelta.min = timedelta._mk(_us_of(_rdt.timedelta.min))
timedelta.max = timedelta._mk(_us_of(_rdt.timedelta.max))
timedelta.resolution = timedelta._mk(1)


def _whole(us):
  return sym.floor(us) if is_sym(us) and not us.is_int else us


class datetime:  # pylint: disable=invalid-name
  __slots__ = ('us', 'tzinfo')

  def __init__(self, year, month, day, hour=0, minute=0, second=0,
               microsecond=0, tzinfo=None, *, fold=0):
    args = [sym.unwrap0(a) for a in (year, month, day, hour, minute, second,
                                     microsecond)]
    y, mo, d = [int(a.__index__()) if is_sym(a) else a for a in args[:3]]
    h, mi, s, u = args[3:]
    for v, hi in ((h, 24), (mi, 60), (s, 60), (u, 10**6)):
      if is_sym(v):
        if not bool(v >= 0) or not bool(v < hi):
          raise ValueError('out of range')
    conc = [0 if is_sym(v) else v for v in (h, mi, s, u)]
    base = _rdt.datetime(y, mo, d, *conc, tzinfo=_rdt.timezone.utc)
    us = _us_of(base - _EPOCH)
    for v, k in ((h, 3600 * 10**6), (mi, 60 * 10**6), (s, 10**6), (u, 1)):
      if is_sym(v):
        us = sym.add(us, sym.mul(v, k))
    self.us = us
    if tzinfo is not None and tzinfo is not _rdt.timezone.utc:
      off = tzinfo.utcoffset(None)
      self.us = sym.sub(self.us, _us_of(off))
    self.tzinfo = tzinfo

  @classmethod
  def _mk(cls, us, tz):
    r = datetime.__new__(datetime)
    r.us, r.tzinfo = us, tz
    return r

  @classmethod
  def fromtimestamp(cls, ts, tz=None):
    ts = sym.unwrap0(ts)
    if is_sym(ts):
      return cls._mk(sym.mul(ts, 10**6), tz)
    return cls._mk(_us_of(_rdt.datetime.fromtimestamp(
        ts, tz=_rdt.timezone.utc) - _EPOCH), tz)

  @classmethod
  def utcfromtimestamp(cls, ts):
    return cls.fromtimestamp(ts, None)

  @classmethod
  def now(cls, tz=None):
    return cls._mk(_us_of(_rdt.datetime.now(_rdt.timezone.utc) - _EPOCH), tz)

  def timestamp(self):
    return sym.div(self.us, 10**6)

  def _off(self):
    if self.tzinfo is None or self.tzinfo is _rdt.timezone.utc:
      return 0
    return _us_of(self.tzinfo.utcoffset(None))

  def _local(self):
    return sym.add(_whole(self.us), self._off())

  def _date(self):
    d = sym.floordiv(self._local(), _DAY)
    d = int(d.__index__()) if is_sym(d) else d
    return _rdt.date(1970, 1, 1) + _rdt.timedelta(days=d)

  year = property(lambda s: s._date().year)
  month = property(lambda s: s._date().month)
  day = property(lambda s: s._date().day)

  def _tod(self):
    return sym.mod(self._local(), _DAY)

  hour = property(lambda s: sym.floordiv(s._tod(), 3600 * 10**6))
  minute = property(lambda s: sym.floordiv(sym.mod(s._tod(), 3600 * 10**6),
                                           60 * 10**6))
  second = property(lambda s: sym.floordiv(sym.mod(s._tod(), 60 * 10**6),
                                           10**6))
  microsecond = property(lambda s: sym.mod(s._tod(), 10**6))

  def date(self):
    return self._date()

  def utcoffset(self):
    return None if self.tzinfo is None else timedelta(
        microseconds=self._off())

  def astimezone(self, tz=None):
    return self._mk(self.us, tz)

  def weekday(self):
    return self._date().weekday()

  def isoweekday(self):
    return self._date().isoweekday()

  def timetuple(self):
    return self._realdt().timetuple()

  def utctimetuple(self):
    return self._realdt().utctimetuple()

  def toordinal(self):
    return self._date().toordinal()

  def replace(self, **k):
    tz = k.pop('tzinfo', self.tzinfo)
    g = dict(year=self.year, month=self.month, day=self.day, hour=self.hour,
             minute=self.minute, second=self.second,
             microsecond=self.microsecond)
    g.update(k)
    return datetime(tzinfo=tz, **g)

  def __add__(self, o):
    if isinstance(o, timedelta):
      return self._mk(sym.add(self.us, o.us), self.tzinfo)
    return NotImplemented

  __radd__ = __add__

  def __sub__(self, o):
    if isinstance(o, timedelta):
      return self._mk(sym.sub(self.us, o.us), self.tzinfo)
    if isinstance(o, datetime):
      return timedelta._mk(sym.sub(self.us, o.us))
    return NotImplemented

  def _c(self, o, op):
    if not isinstance(o, datetime):
      return NotImplemented
    if (self.tzinfo is None) != (o.tzinfo is None):
      if op in ('==', '!='):
        return op == '!='
      raise TypeError("can't compare offset-naive and offset-aware datetimes")
    return sym.compare(op, self.us, o.us)

  def __lt__(self, o):
    return self._c(o, '<')

  def __le__(self, o):
    return self._c(o, '<=')

  def __gt__(self, o):
    return self._c(o, '>')

  def __ge__(self, o):
    return self._c(o, '>=')

  def __eq__(self, o):
    return self._c(o, '==')

  def __ne__(self, o):
    return self._c(o, '!=')

  def __hash__(self):
    return hash(self.us) if not is_sym(self.us) else self.us.t.hash()

  def __deepcopy__(self, memo):
    return self

  def _realdt(self):
    if is_sym(self.us):
      raise Unsupported('native datetime of a symbolic time')
    return _EPOCH + _rdt.timedelta(microseconds=self.us)

  def strftime(self, f):
    return '<datetime>' if is_sym(self.us) else self._realdt().strftime(f)

  def isoformat(self, *a):
    return '<datetime>' if is_sym(self.us) else self._realdt().isoformat(*a)

  def __str__(self):
    return self.isoformat()

  __repr__ = __str__

  def __format__(self, spec):
    return str(self)


def make_datetime():
  m = types.ModuleType('datetime')
  m.timedelta, m.datetime = timedelta, datetime
  m.timezone, m.tzinfo, m.date, m.time = (_rdt.timezone, _rdt.tzinfo,
                                          _rdt.date, _rdt.time)
  m.timezone = _rdt.timezone
  m.UTC = _rdt.timezone.utc
  m.MINYEAR, m.MAXYEAR = 1, 9999
  return m


# -------------------------------------------------------------------- jax


class Key:
  """A PRNG key: an opaque derivation tree.  Draws are functions of it."""

  as_array = False  # replays: pass for an array, as the real keys do

  def __init__(self, path):
    self.path = path
    self.used = 0

  @property
  def __class__(self):
    return np.ndarray if Key.as_array else Key

  shape = (2,)
  dtype = np.dtype(np.uint32)
  ndim = 1

  def __eq__(self, o):
    return isinstance(o, Key) and self.path == o.path

  def __ne__(self, o):
    return not self == o

  def __hash__(self):
    return hash(self.path)

  def __getitem__(self, i):
    # raw key words, used by code that seeds another generator with them
    return RNG.draw(self, 'word', (), i)

  def __len__(self):
    return 2

  def __iter__(self):
    return iter([self[0], self[1]])

  def __deepcopy__(self, memo):
    return self

  def __repr__(self):
    return f'Key({self.path})'

  def astype(self, *a):
    return self

  def item(self):
    return self


class Keys(list):
  """A batch of keys."""

  @property
  def shape(self):
    return (len(self), 2)

  ndim = 2

  def __getitem__(self, i):
    r = super().__getitem__(i)
    return Keys(r) if isinstance(r, list) else r


Key.batch = Keys


class Rng:
  """Draw provider.  hook(kind, key, idx, lo, hi, integer) -> value."""

  def __init__(self):
    self.hook = None
    self.log = []

  def draw(self, key, kind, extra, idx, lo=None, hi=None, integer=False):
    name = f'rng|{kind}|{key.path}|{extra}|{idx}'
    if self.hook is None:
      raise Unsupported('random draw without a random source')
    v = self.hook(name, lo, hi, integer)
    self.log.append((str(key.path), kind, str(extra), idx, v))
    return v


RNG = Rng()


def _keystr(x):
  if is_sym(x):
    return str(sym.z3.simplify(sym.term(x)))
  return str(x)


def make_random():
  r = types.ModuleType('jax.random')

  def PRNGKey(seed=0, **k):  # pylint: disable=invalid-name
    seed = sym.unwrap0(seed)
    if isinstance(seed, SArr):
      seed = seed.item()
    if seed is None or isinstance(seed, (str, float)):
      raise TypeError('PRNG key seed must be an integer')
    return Key(f'K({_keystr(seed)})')

  def split(key, num=2):
    n = int(num)
    return Keys([Key(f'S({key.path},{n},{i})') for i in range(n)])

  def fold_in(key, data):
    return Key(f'F({key.path},{_keystr(data)})')

  def _draws(key, kind, extra, shape, lo, hi, integer=False):
    shape = npshim._shape(shape) if shape not in ((), None) else ()
    if shape == ():
      return RNG.draw(key, kind, extra, 0, lo, hi, integer)
    o = np.empty(shape, dtype=object)
    for n, ix in enumerate(np.ndindex(*shape)):
      o[ix] = RNG.draw(key, kind, extra, n, lo, hi, integer)
    return o.view(SArr)

  def uniform(key, shape=(), dtype=None, minval=0.0, maxval=1.0):
    u = _draws(key, 'uniform', '', shape, 0, 1)
    return u * (maxval - minval) + minval if not (
        not is_sym(minval) and not is_sym(maxval) and minval == 0 and
        maxval == 1) else u

  def normal(key, shape=(), dtype=None):
    return _draws(key, 'normal', '', shape, None, None)

  def beta(key, a, b, shape=None, dtype=None):
    return _draws(key, 'beta', f'{_keystr(a)},{_keystr(b)}', shape or (),
                  0, 1)

  def randint(key, shape, minval, maxval, dtype=None):
    if is_sym(minval) or is_sym(maxval):
      raise Unsupported('symbolic randint range')
    return _draws(key, 'randint', f'{minval},{maxval}', shape, int(minval),
                  int(maxval) - 1, True)

  def choice(key, a, shape=(), replace=True, p=None, axis=0):
    if not replace and shape not in ((), None, (1,)):
      n = a if isinstance(a, int) else len(a)
      left, got = list(range(n)), []
      for j in range(int(np.prod(npshim._shape(shape)))):
        if not left:
          raise ValueError('Cannot take a larger sample than population when '
                           'replace=False')
        d = RNG.draw(key, 'choice', f'{n},distinct', j, 0, len(left) - 1, True)
        got.append(left.pop(d.__index__()))
      i = asarr(got).reshape(npshim._shape(shape))
      if isinstance(a, int):
        return i
      return asarr([asarr(a)[k] for k in got]).reshape(i.shape)
    n = a if isinstance(a, int) or is_sym(a) else len(a)
    i = _draws(key, 'choice', _keystr(n), shape or (), 0, sym.sub(n, 1), True)
    if isinstance(a, int) or is_sym(a):
      return i
    if isinstance(i, np.ndarray):
      return asarr([asarr(a)[k] for k in i.ravel()]).reshape(i.shape)
    return asarr(a)[i]

  def bernoulli(key, p=0.5, shape=None):
    u = _draws(key, 'uniform', 'bern', shape or (), 0, 1)
    return u < p

  def permutation(key, x, **k):
    raise Unsupported('jax.random.permutation')

  r.PRNGKey, r.key, r.split, r.fold_in = PRNGKey, PRNGKey, split, fold_in
  r.uniform, r.normal, r.beta, r.randint = uniform, normal, beta, randint
  r.choice, r.bernoulli, r.permutation = choice, bernoulli, permutation
  r.KeyArray = Key
  return r


def _tree_map(f, t, *rest):
  if isinstance(t, dict):
    return {k: _tree_map(f, v, *[r[k] for r in rest]) for k, v in t.items()}
  if isinstance(t, (list, tuple)):
    xs = [_tree_map(f, *z) for z in zip(t, *rest)]
    return type(t)(*xs) if hasattr(t, '_fields') else type(t)(xs)
  return f(t, *rest)


def _stack_tree(xs):
  x0 = xs[0]
  if isinstance(x0, (list, tuple)):
    ys = [_stack_tree([x[i] for x in xs]) for i in range(len(x0))]
    return type(x0)(*ys) if hasattr(x0, '_fields') else type(x0)(ys)
  if isinstance(x0, dict):
    return {k: _stack_tree([x[k] for x in xs]) for k in x0}
  return npshim.stack(xs)


def make_jax():
  jax = types.ModuleType('jax')
  jnp = npshim.NpShim('jax.numpy')

  def squeeze(a, axis=None):
    return asarr(a).squeeze() if axis is None else asarr(a).squeeze(axis)
  jnp.squeeze = squeeze
  jax.numpy = jnp
  jax.random = make_random()
  jax.Array = np.ndarray

  def jit(fun=None, **k):
    if fun is None:
      return lambda f: f
    return fun
  jax.jit = jit

  def vmap(fun, in_axes=0, out_axes=0, **k):
    def g(*args):
      axes = in_axes if isinstance(in_axes, (tuple, list)) else [
          in_axes] * len(args)
      n = None
      for a, ax in zip(args, axes):
        if ax is not None:
          n = len(a) if ax == 0 else a.shape[ax]
          break
      outs = []
      for i in range(n):
        cur = []
        for a, ax in zip(args, axes):
          if ax is None:
            cur.append(a)
          elif ax == 0:
            cur.append(a[i])
          else:
            cur.append(np.moveaxis(a, ax, 0)[i])
        outs.append(fun(*cur))
      r = _stack_tree(outs)
      if out_axes not in (0, (0,)):
        r = np.moveaxis(r.view(np.ndarray), 0, out_axes).view(SArr)
      return r
    return g
  jax.vmap = vmap
  jax.tree_map = _tree_map
  jax.tree_util = types.ModuleType('jax.tree_util')
  jax.tree_util.tree_map = _tree_map
  jax.tree = types.ModuleType('jax.tree')
  jax.tree.map = _tree_map
  jax.device_put = lambda x, *a, **k: x
  jax.device_get = lambda x, *a, **k: x

  def stop_gradient(x):
    return x
  lax = types.ModuleType('jax.lax')
  lax.stop_gradient = stop_gradient
  lax.cond = lambda p, t, f, *ops: t(*ops) if p else f(*ops)

  def fori_loop(lo, hi, body, v):
    for i in range(lo, hi):
      v = body(i, v)
    return v
  lax.fori_loop = fori_loop
  jax.lax = lax
  nn = types.ModuleType('jax.nn')
  nn.relu = lambda x: npshim.OVERRIDES['maximum'](x, 0.0)
  nn.sigmoid = lambda x: 1.0 / (1.0 + npshim.OVERRIDES['exp'](-x))
  nn.initializers = Stub('jax.nn.initializers')
  jax.nn = nn
  image = types.ModuleType('jax.image')
  image.resize = image_resize
  image.ResizeMethod = Stub('jax.image.ResizeMethod')
  jax.image = image
  jax.config = Stub('jax.config')
  jax.grad = jax.value_and_grad = lambda f, *a, **k: f
  jax.__path__ = []
  return jax


def image_resize(image, shape, method='linear', antialias=True, **k):
  """jax.image.resize for integer-or-larger upscaling with linear weights."""
  if isinstance(method, Stub):
    method = method._name.rsplit('.', 1)[-1].lower()
  a = asarr(image)
  if method in ('linear', 'bilinear', 'trilinear', 'triangle'):
    for ax, n in enumerate(shape):
      m = a.shape[ax]
      if n == m:
        continue
      if n < m:
        raise Unsupported('image downscaling')
      b = np.moveaxis(a.view(np.ndarray), ax, 0)
      rows = []
      for i in range(n):
        x = (i + 0.5) * m / n - 0.5
        lo = int(_math.floor(x))
        w = x - lo
        ws = {}
        for j, wt in ((lo, 1 - w), (lo + 1, w)):
          if 0 <= j < m and wt > 0:
            ws[j] = ws.get(j, 0) + wt
        t = sum(ws.values())
        acc = None
        for j, wt in ws.items():
          q = emap(lambda v, c=wt / t: sym.mul(v, c), b[j])
          acc = q if acc is None else emap(sym.add, acc, q)
        rows.append(acc.view(np.ndarray))
      a = np.moveaxis(np.stack(rows), 0, ax).view(SArr)
    return a
  if method == 'nearest':
    for ax, n in enumerate(shape):
      m = a.shape[ax]
      idx = [min(m - 1, int(_math.floor((i + 0.5) * m / n))) for i in range(n)]
      a = np.take(a.view(np.ndarray), idx, axis=ax).view(SArr)
    return a
  raise Unsupported(f'image.resize({method})')


# ------------------------------------------------------------------- scipy


def _cell(x, grid):
  """Index i with grid[i] <= x < grid[i+1] (clamped), forking on x."""
  n = len(grid)
  lo, hi = 0, n - 2
  while lo < hi:
    mid = (lo + hi + 1) // 2
    if bool(sym.compare('>=', x, grid[mid])):
      lo = mid
    else:
      hi = mid - 1
  return lo


def interpn(points, values, xi, method='linear', bounds_error=True,
            fill_value=np.nan):
  if method != 'linear':
    raise Unsupported('interpn method')
  grids = [list(asarr(p).view(np.ndarray)) for p in points]
  vals = asarr(values).view(np.ndarray)
  d = len(grids)
  if isinstance(xi, tuple):
    b = np.broadcast_arrays(*[asarr(x).view(np.ndarray) for x in xi])
    xs = np.stack(b, axis=-1)
  else:
    xs = asarr(xi).view(np.ndarray)
    if xs.ndim == 1:
      xs = xs[None] if d > 1 else xs[:, None]
  if xs.shape[-1] != d:
    raise ValueError('The requested sample points xi have dimension '
                     f'{xs.shape[-1]}, but this interpolator has dimension {d}')
  outs = []
  for row in xs.reshape(-1, d):
    oob = False
    for x, g in zip(row, grids):
      if bool(sym.compare('<', x, g[0])) or bool(sym.compare('>', x, g[-1])):
        oob = True
    if oob:
      if bounds_error:
        raise ValueError('One of the requested xi is out of bounds')
      if fill_value is not None:
        o = np.empty(vals.shape[d:], dtype=object)
        o.reshape(-1)[:] = [fill_value] * o.size
        outs.append(o)
        continue
    cells, ws = [], []
    for x, g in zip(row, grids):
      i = _cell(x, g)
      cells.append(i)
      ws.append(sym.div(sym.sub(x, g[i]), sym.sub(g[i + 1], g[i])))
    # successive linear interpolation along each axis
    sub = vals[tuple(slice(i, i + 2) for i in cells)]
    for w in ws:
      sub = emap(lambda p, q, w=w: sym.add(p, sym.mul(w, sym.sub(q, p))),
                 sub[0], sub[1]).view(np.ndarray)
    outs.append(sub if isinstance(sub, np.ndarray) and sub.ndim else
                sym.unwrap0(sub))
  if vals.ndim == d:
    return asarr(outs).reshape(xs.shape[:-1])
  return np.stack(outs).view(SArr).reshape(xs.shape[:-1] + vals.shape[d:])


class interp1d:  # pylint: disable=invalid-name
  """scipy.interpolate.interp1d, kind='linear'."""

  def __init__(self, x, y, kind='linear', axis=-1, copy=True,
               bounds_error=None, fill_value=np.nan, assume_sorted=False):
    if kind != 'linear':
      raise Unsupported('interp1d kind')
    xs = list(asarr(x).view(np.ndarray))
    ys = list(asarr(y).view(np.ndarray))
    if len(xs) != len(ys):
      raise ValueError('x and y arrays must be equal in length')
    if not assume_sorted:
      order = sorted(range(len(xs)), key=lambda i: xs[i])
      xs, ys = [xs[i] for i in order], [ys[i] for i in order]
    self.x, self.y = xs, ys
    self.extrap = isinstance(fill_value, str) and fill_value == 'extrapolate'
    self.fill = fill_value
    self.bounds_error = bounds_error if bounds_error is not None else (
        not self.extrap and isinstance(fill_value, float) and
        _math.isnan(fill_value))

  def _one(self, v):
    x, y = self.x, self.y
    if not self.extrap:
      if bool(sym.compare('<', v, x[0])) or bool(sym.compare('>', v, x[-1])):
        if self.bounds_error:
          raise ValueError('A value in x_new is outside the interpolation '
                           'range.')
        f = self.fill
        if isinstance(f, tuple):
          return f[0] if bool(sym.compare('<', v, x[0])) else f[1]
        return f
    r = None
    for i in range(len(x) - 1, 0, -1):
      s = sym.div(sym.sub(y[i], y[i - 1]), sym.sub(x[i], x[i - 1]))
      z = sym.add(sym.mul(s, sym.sub(v, x[i - 1])), y[i - 1])
      r = z if r is None else sym.ite(sym.compare('<=', v, x[i]), z, r)
    return r

  def __call__(self, v):
    # Result is a (possibly 0-d) array, like scipy's.
    if not npshim.deep_sym(v) and not npshim.deep_sym(
        self.y) and not npshim.deep_sym(self.x):
      r = emap(self._one, v)
      return r
    return emap(self._one, v)


class interp2d:  # pylint: disable=invalid-name
  """scipy.interpolate.interp2d, kind='linear', on a regular grid."""

  def __init__(self, x, y, z, kind='linear', copy=True, bounds_error=False,
               fill_value=None):
    if kind != 'linear':
      raise Unsupported('interp2d kind')
    self.x = list(asarr(x).view(np.ndarray))
    self.y = list(asarr(y).view(np.ndarray))
    z = asarr(z).view(np.ndarray)
    nx, ny = len(self.x), len(self.y)
    if z.size != nx * ny:
      raise Unsupported('interp2d on scattered points')
    if z.ndim == 2:
      if z.shape != (ny, nx):
        raise ValueError('When on a regular grid with x.size = m and y.size = '
                         'n, if z.ndim == 2, then z must have shape (n, m)')
      self.z = z
    else:  # scipy reads a flat z with y varying fastest
      self.z = z.reshape(nx, ny).T

  @staticmethod
  def _w(v, g):
    v = sym.clip(v, g[0], g[-1])
    if not is_sym(v):
      i = max(0, min(len(g) - 2, int(np.searchsorted(g, v, 'right')) - 1))
      return i, (v - g[i]) / (g[i + 1] - g[i])
    i = _cell(v, g)
    return i, sym.div(sym.sub(v, g[i]), g[i + 1] - g[i])

  def __call__(self, x, y, *a, **k):
    xs = list(asarr(x).view(np.ndarray).ravel())
    ys = list(asarr(y).view(np.ndarray).ravel())
    out = np.empty((len(ys), len(xs)), dtype=object)
    for a_, yy in enumerate(ys):
      j, v = self._w(yy, self.y)
      for b_, xx in enumerate(xs):
        i, u = self._w(xx, self.x)
        z = self.z
        p = sym.add(z[j, i], sym.mul(u, sym.sub(z[j, i + 1], z[j, i])))
        q = sym.add(z[j + 1, i], sym.mul(u, sym.sub(z[j + 1, i + 1],
                                                    z[j + 1, i])))
        out[a_, b_] = sym.add(p, sym.mul(v, sym.sub(q, p)))
    r = out.view(SArr)
    return r[0] if len(ys) == 1 else r


def _cross(p, q, r):
  """Twice the signed area of p, q, r (a sum that stays linear in any one)."""
  def d(a, b):
    return sym.sub(sym.mul(a[0], b[1]), sym.mul(a[1], b[0]))
  return sym.add(sym.add(d(p, q), d(q, r)), d(r, p))


def _hull(pts):
  """Indices of the convex hull's vertices in the plane, counterclockwise."""
  n = len(pts)
  out = []
  for i in range(n):
    for j in range(n):
      if i != j and all(bool(sym.compare('>', _cross(
          pts[i], pts[j], pts[k]), 0)) for k in range(n) if k not in (i, j)):
        out.append((i, j))
  nxt = dict(out)
  if not out or len(nxt) != len(out):
    raise Unsupported('convex hull of a degenerate set')
  order = [out[0][0]]
  while nxt.get(order[-1]) not in (order[0], None):
    order.append(nxt[order[-1]])
  if len(order) != len(out):
    raise Unsupported('convex hull of a degenerate set')
  return order


def _plane(points):
  pts = [[v for v in p] for p in points]
  if any(len(p) != 2 for p in pts):
    raise Unsupported('scipy.spatial beyond the plane')
  return pts


class ConvexHull:
  """scipy.spatial.ConvexHull in the plane, points in general position."""

  def __init__(self, points):
    self.points = points
    self._pts = _plane(points)
    self.vertices = np.array(_hull(self._pts))


class Delaunay:
  """Only the question whether points lie in some triangle."""

  def __init__(self, points):
    self.points = points
    self._pts = _plane(points)
    self.vertices = None
    self._hull = _hull(self._pts)

  def find_simplex(self, xi):
    x = [v for v in xi]
    if hasattr(x[0], '__len__'):
      raise Unsupported('find_simplex of several points')
    if len(x) != 2:
      raise ValueError('wrong dimensionality in xi')
    h = self._hull
    for i, a in enumerate(h):
      b = h[(i + 1) % len(h)]
      if not bool(sym.compare('>=', _cross(
          self._pts[a], self._pts[b], x), 0)):
        return np.int32(-1)
    return np.int32(0)


def make_scipy():
  sp = types.ModuleType('scipy')
  sp.__path__ = []
  it = types.ModuleType('scipy.interpolate')
  it.interp1d, it.interp2d, it.interpn = interp1d, interp2d, interpn

  class RegularGridInterpolator:

    def __init__(self, points, values, method='linear', bounds_error=True,
                 fill_value=np.nan):
      self.a = (points, values)
      self.k = dict(method=method, bounds_error=bounds_error,
                    fill_value=fill_value)

    def __call__(self, xi):
      return interpn(*self.a, xi, **self.k)
  it.RegularGridInterpolator = RegularGridInterpolator
  sp.interpolate = it
  sp.spatial = types.ModuleType('scipy.spatial')
  sp.spatial.ConvexHull, sp.spatial.Delaunay = ConvexHull, Delaunay
  return sp


# ------------------------------------------------------------------- stubs


class Stub(types.ModuleType):
  """Inert library: attributes are stubs, calls return stubs or decorate."""

  def __init__(self, name):
    super().__init__(name)
    self.__dict__['_name'] = name
    self.__path__ = []

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    s = Stub(f'{self._name}.{n}')
    self.__dict__[n] = s
    return s

  def __call__(self, *a, **k):
    if len(a) == 1 and not k and (isinstance(a[0], (types.FunctionType,
                                                    type))):
      return a[0]  # decorator use
    return Stub(self._name + '()')

  def __iter__(self):
    raise TypeError(f'stub {self._name} is not iterable')

  def __mro_entries__(self, bases):
    return (object,)

  def __mul__(self, o):
    return self

  __rmul__ = __add__ = __radd__ = __mul__

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False

  def __bool__(self):
    return True


def make_sklearn():
  """Exact Gaussian process regression (fixed Matern kernel)."""
  sk = Stub('sklearn')
  gp = types.ModuleType('sklearn.gaussian_process')
  gp.__path__ = []
  ks = types.ModuleType('sklearn.gaussian_process.kernels')

  class Kernel:

    def __mul__(self, o):
      return Scaled(self, o)

    __rmul__ = __mul__

  class Scaled(Kernel):

    def __init__(self, k, c):
      if isinstance(c, ConstantKernel):
        c = c.constant_value
      if isinstance(c, Kernel):
        raise Unsupported('product of kernels')
      self.k, self.c = k, c

    def pair(self, a, b):
      return sym.mul(self.c, self.k.pair(a, b))

  class ConstantKernel(Kernel):

    def __init__(self, constant_value=1.0, constant_value_bounds=None):
      self.constant_value = constant_value

    def pair(self, a, b):
      return self.constant_value

    def __mul__(self, o):
      return Scaled(o, self.constant_value)

    __rmul__ = __mul__

  class Matern(Kernel):

    def __init__(self, length_scale=1.0, length_scale_bounds=(1e-5, 1e5),
                 nu=1.5):
      self.length_scale, self.nu = length_scale, nu

    def pair(self, a, b):
      n = len(a)
      ls = list(np.broadcast_to(asarr(self.length_scale).view(np.ndarray),
                                (n,)))
      s = 0.0
      for x, y, l in zip(a, b, ls):
        d = sym.div(sym.sub(x, y), l)
        s = sym.add(s, sym.mul(d, d))
      d = arr.f_sqrt(s)
      f = npshim.OVERRIDES['exp']
      if self.nu == 0.5:
        return f(sym.mul(-1.0, d))
      c = _math.sqrt(2 * self.nu)
      t = sym.mul(c, d)
      if self.nu == 1.5:
        return sym.mul(sym.add(1.0, t), f(sym.mul(-1.0, t)))
      if self.nu == 2.5:
        return sym.mul(sym.add(sym.add(1.0, t), sym.div(sym.mul(t, t), 3.0)),
                       f(sym.mul(-1.0, t)))
      raise Unsupported('Matern nu')

  class RBF(Matern):

    def __init__(self, length_scale=1.0, length_scale_bounds=None):
      super().__init__(length_scale)

    def pair(self, a, b):
      raise Unsupported('RBF kernel')

  class Regressor:

    def __init__(self, kernel=None, *, alpha=1e-10, optimizer='fmin_l_bfgs_b',
                 n_restarts_optimizer=0, normalize_y=False, copy_X_train=True,
                 n_targets=None, random_state=None):
      if optimizer is not None or normalize_y:
        raise Unsupported('GP with optimiser or normalisation')
      self.kernel, self.alpha = kernel, alpha
      self.X_train_ = None

    def fit(self, X, y):
      X = asarr(X).view(np.ndarray)
      y = asarr(y).view(np.ndarray)
      if X.ndim != 2 or X.shape[0] == 0 or X.shape[0] != y.shape[0]:
        raise ValueError('Found array with 0 sample(s)')
      self.X_train_, self.y = X.copy(), y.copy()
      n = X.shape[0]
      K = [[self.kernel.pair(X[i], X[j]) for j in range(n)] for i in range(n)]
      for i in range(n):
        K[i][i] = sym.add(K[i][i], self.alpha)
      self.K = K
      return self

    def _solve(self, b):
      """K^-1 b by elimination (K is positive definite)."""
      n = len(self.K)
      A = [list(r) + [v] for r, v in zip(self.K, b)]
      for i in range(n):
        for j in range(i + 1, n):
          f = sym.div(A[j][i], A[i][i])
          for k in range(i, n + 1):
            A[j][k] = sym.sub(A[j][k], sym.mul(f, A[i][k]))
      x = [None] * n
      for i in reversed(range(n)):
        s = A[i][n]
        for k in range(i + 1, n):
          s = sym.sub(s, sym.mul(A[i][k], x[k]))
        x[i] = sym.div(s, A[i][i])
      return x

    def predict(self, X, return_std=False, return_cov=False):
      X = asarr(X).view(np.ndarray)
      if return_cov:
        raise Unsupported('GP covariance')
      if self.X_train_ is None:
        raise Unsupported('GP prediction before fit')
      m = X.shape[0]
      t = self.y.shape[1] if self.y.ndim == 2 else 1
      mean = np.empty((m, t), dtype=object)
      std = np.empty((m, t), dtype=object)
      for i in range(m):
        k = [self.kernel.pair(X[i], r) for r in self.X_train_]
        w = self._solve(k)
        var = self.kernel.pair(X[i], X[i])
        for a, b in zip(k, w):
          var = sym.sub(var, sym.mul(a, b))
        sd = arr.f_sqrt(sym.maximum(var, 0.0))
        for j in range(t):
          v = 0.0
          for b, r in zip(w, self.y.reshape(len(self.y), t)):
            v = sym.add(v, sym.mul(b, r[j]))
          mean[i, j], std[i, j] = v, sd
      if t == 1:
        mean, std = mean[:, 0], std[:, 0]
      mean, std = mean.view(SArr), std.view(SArr)
      return (mean, std) if return_std else mean
  ks.Matern, ks.ConstantKernel, ks.RBF = Matern, ConstantKernel, RBF
  gp.kernels, gp.GaussianProcessRegressor = ks, Regressor
  sk.gaussian_process = gp
  return sk


def make_gin():
  g = types.ModuleType('gin')
  g.__path__ = []

  def configurable(*a, **k):
    if len(a) == 1 and not k and callable(a[0]):
      return a[0]
    return lambda f: f
  g.configurable = g.register = configurable

  def external_configurable(f, *a, **k):
    return f
  g.external_configurable = external_configurable
  g.REQUIRED = object()
  g.parse_config_file = g.parse_config_files_and_bindings = (
      lambda *a, **k: None)
  g.parse_config = g.bind_parameter = lambda *a, **k: None
  g.config = Stub('gin.config')
  g.tf = Stub('gin.tf')
  return g


def make_absl():
  a = types.ModuleType('absl')
  a.__path__ = []
  lg = types.ModuleType('absl.logging')
  for n in ('info', 'warning', 'error', 'debug', 'fatal', 'vlog', 'warn',
            'log_every_n', 'log_first_n', 'exception'):
    setattr(lg, n, lambda *a, **k: None)
  lg.INFO, lg.WARNING, lg.ERROR, lg.DEBUG = 20, 30, 40, 10
  lg.set_verbosity = lambda *a: None
  a.logging = lg
  fl = types.ModuleType('absl.flags')

  class Flags:

    def __setattr__(self, n, v):
      self.__dict__[n] = v
  fl.FLAGS = Flags()

  def define(name, default=None, kind=None):
    if kind and default is not None and not isinstance(default, kind):
      raise ValueError(f'flag --{name}={default!r}')
    setattr(fl.FLAGS, name, default)
    return types.SimpleNamespace(value=default, name=name)
  for n, kind in (('string', str), ('integer', int), ('float', (int, float)),
                  ('bool', None), ('boolean', None), ('list', (list, tuple, str)),
                  ('enum', str), ('multi_string', None),
                  ('multi_integer', None), ('enum_class', None),
                  ('multi_enum', None)):
    setattr(fl, f'DEFINE_{n}', lambda name, default=None, *a, kind=kind,
            **k: define(name, default, kind))
  fl.mark_flag_as_required = lambda *a: None
  fl.mark_flags_as_required = lambda *a: None
  a.flags = fl
  a.app = Stub('absl.app')
  a.testing = Stub('absl.testing')
  return a


def make_gym():
  g = types.ModuleType('gym')
  g.__path__ = []

  class Env:
    metadata = {}

    @property
    def unwrapped(self):
      return self

    def reset(self, **k):
      pass

    def close(self):
      pass
  g.Env = Env
  sp = types.ModuleType('gym.spaces')

  class Space:

    def __init__(self, shape=None, dtype=None):
      self.shape, self.dtype = shape, dtype

  class Box(Space):

    def __init__(self, low, high, shape=None, dtype=np.float32, seed=None):
      if shape is None:
        shape = np.shape(low)
      super().__init__(tuple(shape), dtype)
      lo, hi = asarr(low), asarr(high)
      self.low = np.broadcast_to(lo.view(np.ndarray), shape).view(SArr)
      self.high = np.broadcast_to(hi.view(np.ndarray), shape).view(SArr)

    def contains(self, x):
      x = asarr(x)
      if x.shape != self.shape:
        return False
      r = True
      for v, lo, hi in zip(x.view(np.ndarray).ravel(),
                           self.low.view(np.ndarray).ravel(),
                           self.high.view(np.ndarray).ravel()):
        r = arr.s_and(r, arr.s_and(sym.compare('>=', v, lo),
                                   sym.compare('<=', v, hi)))
      return r

  class Discrete(Space):

    def __init__(self, n, seed=None, start=0):
      super().__init__((), np.int64)
      self.n = n

    def contains(self, x):
      return 0 <= x < self.n
  sp.Box, sp.Discrete, sp.Space = Box, Discrete, Space
  g.spaces = sp
  g.Space = Space
  g.envs = Stub('gym.envs')
  g.Wrapper = Env
  return g


def all_shims():
  jax = make_jax()
  absl = make_absl()
  gym = make_gym()
  sp = make_scipy()
  m = {
      'math': make_math(), 'datetime': make_datetime(),
      'numpy': npshim.NpShim('numpy'),
      'jax': jax, 'scipy': sp, 'gin': make_gin(), 'absl': absl, 'gym': gym,
  }
  for n in ('tensorflow', 'flax', 'optax', 'rlax', 'dopamine', 'sklearn',
            'opensimplex', 'tensorflow_probability', 'matplotlib',
            'mpl_toolkits', 'acme', 'haiku', 'launchpad', 'dm_env', 'chex'):
    m[n] = Stub(n)
  m['sklearn'] = make_sklearn()
  return m
