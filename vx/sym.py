"""Symbolic numbers and the path-exploring execution engine.

The code under test is executed by CPython itself, on proxy numbers whose
arithmetic builds z3 terms.  Every time the code needs the truth value of a
symbolic condition the engine asks z3 which outcomes are feasible under the
path condition, follows one, and schedules the other; so the set of executed
paths covers every input that satisfies the harness assumptions.
"""
import math
import os
import time
from fractions import Fraction

import numpy as _np
import z3

z3.set_param('model.completion', True)


class Unsupported(BaseException):
  """The encoding cannot express an operation: the run is inconclusive."""


class PathAbort(BaseException):
  """An assumption does not hold on this path."""


class Budget(BaseException):
  """A stated resource budget (paths, time) was exhausted."""


ENG = None  # current engine


def eng():
  if ENG is None:
    raise Unsupported('symbolic value used outside a symbolic run')
  return ENG


_RV = {}


def rv(fr):
  v = _RV.get(fr)
  if v is None:
    v = z3.RealVal(f'{fr.numerator}/{fr.denominator}')
    if len(_RV) < 20000:
      _RV[fr] = v
  return v


_NUM = (int, float, bool, _np.integer, _np.floating, _np.bool_, Fraction)


def is_num(x):
  return isinstance(x, _NUM)


def is_sym(x):
  return isinstance(x, (Sym, SymBool))


def unwrap0(x):
  """0-d arrays -> scalar."""
  if isinstance(x, _np.ndarray) and x.ndim == 0:
    return x[()] if x.dtype != object else x.item()
  return x


def special(x):
  return isinstance(x, (float, _np.floating)) and (math.isnan(x) or
                                                    math.isinf(x))


def term(x):
  """z3 arithmetic term of a python/numpy/symbolic number."""
  if isinstance(x, Sym):
    return x.t
  if isinstance(x, SymBool):
    return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
  if isinstance(x, (bool, _np.bool_)):
    return z3.IntVal(int(x))
  if isinstance(x, (int, _np.integer)):
    return z3.IntVal(int(x))
  if isinstance(x, (float, _np.floating)):
    if special(x):
      raise Unsupported('non-finite constant in an exact term')
    return rv(Fraction(float(x)))
  if isinstance(x, Fraction):
    return rv(x)
  if isinstance(x, _np.ndarray) and x.ndim == 0:
    return term(x.item())
  raise Unsupported(f'cannot make a term of {type(x)}')


def rterm(x):
  t = term(x)
  if t.is_int():
    if z3.is_int_value(t):
      return rv(Fraction(t.as_long()))
    return z3.ToReal(t)
  return t


def bterm(x):
  if isinstance(x, SymBool):
    return x.t
  if isinstance(x, (bool, _np.bool_)):
    return z3.BoolVal(bool(x))
  if isinstance(x, Sym):
    return x.t != 0
  if isinstance(x, _np.ndarray) and x.size == 1:
    return bterm(x.item())
  if is_num(x):
    return z3.BoolVal(bool(x))
  raise Unsupported(f'cannot make a condition of {type(x)}')


def const_of(t):
  """Fraction/int value of a constant term, else None."""
  if z3.is_int_value(t):
    return t.as_long()
  if z3.is_rational_value(t):
    return Fraction(t.numerator_as_long(), t.denominator_as_long())
  return None


class SymBool:
  __slots__ = ('t',)
  __array_ufunc__ = None

  def __init__(self, t):
    self.t = t

  def __bool__(self):
    return eng().branch(self.t)

  def _o(self, o, f):
    if isinstance(o, _np.ndarray) and o.ndim:
      return elementwise(lambda a, b: SymBool(f(bterm(a), bterm(b))), self, o)
    try:
      return SymBool(f(self.t, bterm(o)))
    except Unsupported:
      return NotImplemented

  def __and__(self, o):
    return self._o(o, lambda a, b: z3.And(a, b))

  __rand__ = __and__

  def __or__(self, o):
    return self._o(o, lambda a, b: z3.Or(a, b))

  __ror__ = __or__

  def __xor__(self, o):
    return self._o(o, lambda a, b: z3.Xor(a, b))

  __rxor__ = __xor__

  def __invert__(self):
    return SymBool(z3.Not(self.t))

  def __eq__(self, o):
    if isinstance(o, (SymBool, bool, _np.bool_)):
      return SymBool(self.t == bterm(o))
    if isinstance(o, Sym) or is_num(o):
      return self._n() == o
    return False

  def __ne__(self, o):
    r = self.__eq__(o)
    return ~r if isinstance(r, SymBool) else not r

  def __hash__(self):
    return self.t.hash()

  def _n(self):
    return Sym(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

  def __add__(self, o):
    return self._n() + o

  def __radd__(self, o):
    return o + self._n()

  def __sub__(self, o):
    return self._n() - o

  def __rsub__(self, o):
    return o - self._n()

  def __mul__(self, o):
    return self._n() * o

  def __rmul__(self, o):
    return o * self._n()

  def __truediv__(self, o):
    return self._n() / o

  def __lt__(self, o):
    return self._n() < o

  def __le__(self, o):
    return self._n() <= o

  def __gt__(self, o):
    return self._n() > o

  def __ge__(self, o):
    return self._n() >= o

  def __int__(self):
    return int(bool(self))

  def __index__(self):
    return int(bool(self))

  def __float__(self):
    return float(bool(self))

  def item(self):
    return self

  def all(self, *a, **k):
    return self

  any = all

  def astype(self, dt):
    return self._n() if not _is_bool_dtype(dt) else self

  @property
  def shape(self):
    return ()

  ndim = 0
  size = 1

  def __repr__(self):
    return 'SymBool(..)'

  def __format__(self, spec):
    return '<symbool>'


def _linear_in_one(t):
  """t as a*u + b with integers a, b and one integer term u (else u None)."""
  none = (1, None, 0)
  if not z3.is_int(t):
    return none
  b, u, a = 0, None, 1
  for e in (t.children() if z3.is_add(t) else [t]):
    if z3.is_int_value(e):
      b += e.as_long()
      continue
    if u is not None:
      return none
    if z3.is_mul(e) and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
      a, u = e.arg(0).as_long(), e.arg(1)
    else:
      u = e
  return (a, u, b) if u is not None else none


def _is_bool_dtype(dt):
  try:
    return _np.dtype(dt) == _np.dtype(bool)
  except Exception:
    return False


def elementwise(f, *args):
  """Apply f over broadcast object arrays; returns an SArr."""
  from vx import arr
  return arr.emap(f, *args)


class Sym:
  """A symbolic integer or real."""
  __slots__ = ('t',)
  __array_ufunc__ = None

  def __init__(self, t):
    self.t = t

  # --- helpers -------------------------------------------------------------
  @property
  def is_int(self):
    return self.t.is_int()

  def _coerce(self, o):
    o = unwrap0(o)
    if isinstance(o, (Sym, SymBool)) or is_num(o):
      return o
    return None

  def _arith(self, o, f, rev=False):
    if isinstance(o, _np.ndarray) and o.ndim:
      return elementwise((lambda a, b: f(b, a)) if rev else f, self, o)
    o = self._coerce(o)
    if o is None:
      return NotImplemented
    return f(o, self) if rev else f(self, o)

  def __add__(self, o):
    return self._arith(o, add)

  def __radd__(self, o):
    return self._arith(o, add, True)

  def __sub__(self, o):
    return self._arith(o, sub)

  def __rsub__(self, o):
    return self._arith(o, sub, True)

  def __mul__(self, o):
    return self._arith(o, mul)

  def __rmul__(self, o):
    return self._arith(o, mul, True)

  def __truediv__(self, o):
    return self._arith(o, div)

  def __rtruediv__(self, o):
    return self._arith(o, div, True)

  def __floordiv__(self, o):
    return self._arith(o, floordiv)

  def __rfloordiv__(self, o):
    return self._arith(o, floordiv, True)

  def __mod__(self, o):
    return self._arith(o, mod)

  def __rmod__(self, o):
    return self._arith(o, mod, True)

  def __divmod__(self, o):
    return (self // o, self % o)

  def __pow__(self, o):
    return self._arith(o, power)

  def __rpow__(self, o):
    return self._arith(o, power, True)

  def __neg__(self):
    return Sym(-self.t)

  def __pos__(self):
    return self

  def __abs__(self):
    return absolute(self)

  def _cmp(self, o, op):
    if isinstance(o, _np.ndarray) and o.ndim:
      return elementwise(lambda a, b: compare(op, a, b), self, o)
    o = self._coerce(o)
    if o is None:
      return NotImplemented
    return compare(op, self, o)

  def __lt__(self, o):
    return self._cmp(o, '<')

  def __le__(self, o):
    return self._cmp(o, '<=')

  def __gt__(self, o):
    return self._cmp(o, '>')

  def __ge__(self, o):
    return self._cmp(o, '>=')

  def __eq__(self, o):
    r = self._cmp(o, '==')
    return False if r is NotImplemented else r

  def __ne__(self, o):
    r = self._cmp(o, '!=')
    return True if r is NotImplemented else r

  def __hash__(self):
    return self.t.hash()

  def __bool__(self):
    return eng().branch(self.t != 0)

  def __float__(self):
    # C-level float(): only possible when the path pins the value.
    return float(eng().pinned_value(self))

  def __int__(self):
    return int(eng().pinned_value(trunc(self)))

  def __index__(self):
    if not self.is_int:
      raise TypeError('float used as an index')
    return int(eng().concretize(self))

  def __trunc__(self):
    return trunc(self)

  def __floor__(self):
    return floor(self)

  def __ceil__(self):
    return ceil(self)

  def __round__(self, n=None):
    return round_(self, n)

  def is_integer(self):
    if self.is_int:
      return True
    return SymBool(z3.IsInt(self.t))

  # --- numpy / jax scalar look-alike ---------------------------------------
  def item(self):
    return self

  def tolist(self):
    return self

  def copy(self):
    return self

  def astype(self, dt):
    from vx import arr
    return arr.cast_scalar(self, dt)

  @property
  def dtype(self):
    return _np.dtype(_np.int64) if self.is_int else _np.dtype(_np.float64)

  shape = ()
  ndim = 0
  size = 1

  @property
  def real(self):
    return self

  def sum(self, *a, **k):
    return self

  mean = max = min = sum

  def reshape(self, *shape):
    from vx import arr
    return arr.asarr(self).reshape(*shape)

  def ravel(self):
    return self.reshape(-1)

  def clip(self, lo=None, hi=None):
    return clip(self, lo, hi)

  def block_until_ready(self):
    return self

  def __array__(self, *a, **k):
    x = _np.empty((), dtype=object)
    x[()] = self
    return x

  def __repr__(self):
    return f'Sym({"int" if self.is_int else "real"})'

  def __format__(self, spec):
    return '<sym>'

  def __deepcopy__(self, memo):
    return self

  def __copy__(self):
    return self

  def __reduce__(self):
    raise Unsupported('pickling a symbolic value')


def mk(t):
  return Sym(t)


def _is0(x):
  return is_num(x) and x == 0


def _is1(x):
  return is_num(x) and x == 1


def _both_int(a, b):
  return _isint(a) and _isint(b)


def _isint(x):
  if isinstance(x, Sym):
    return x.is_int
  return isinstance(x, (SymBool, bool, int, _np.integer, _np.bool_))


def _nonfinite2(a, b, f):
  """a or b is inf/nan (concrete); evaluate with sign case analysis."""
  fa = a if is_num(a) else None
  fb = b if is_num(b) else None
  if fa is not None and math.isnan(fa) or fb is not None and math.isnan(fb):
    return float('nan')
  raise Unsupported('infinite operand')


def add(a, b):
  if special(a) or special(b):
    s = a if special(a) else b
    if is_sym(a) or is_sym(b) or not special(a) or not special(b):
      return float(s)
    return float(a) + float(b)
  if not is_sym(a) and not is_sym(b):
    return a + b
  if _is0(a) and not (isinstance(a, float) and _isint(b)):
    return b if isinstance(b, Sym) else b._n()
  if _is0(b) and not (isinstance(b, float) and _isint(a)):
    return a if isinstance(a, Sym) else a._n()
  if _both_int(a, b):
    return mk(term(a) + term(b))
  return mk(rterm(a) + rterm(b))


def sub(a, b):
  if special(a):
    return float(a)
  if special(b):
    return -float(b)
  if not is_sym(a) and not is_sym(b):
    return a - b
  if _is0(b) and not (isinstance(b, float) and _isint(a)):
    return a if isinstance(a, Sym) else a._n()
  if _both_int(a, b):
    return mk(term(a) - term(b))
  return mk(rterm(a) - rterm(b))


def mul(a, b):
  if special(a) or special(b):
    s, o = (a, b) if special(a) else (b, a)
    if math.isnan(s):
      return float('nan')
    if not is_sym(o):
      return s * o
    if bool(o > 0):
      return float(s)
    if bool(o < 0):
      return -float(s)
    return float('nan')
  if not is_sym(a) and not is_sym(b):
    return a * b
  if _is1(a) and not (isinstance(a, float) and _isint(b)):
    return b if isinstance(b, Sym) else b._n()
  if _is1(b) and not (isinstance(b, float) and _isint(a)):
    return a if isinstance(a, Sym) else a._n()
  if _both_int(a, b):
    return mk(term(a) * term(b))
  if _is0(a) or _is0(b):
    return 0.0
  return mk(rterm(a) * rterm(b))


def div(a, b):
  """True division with Python semantics (ZeroDivisionError)."""
  if special(b):
    if math.isnan(b):
      return float('nan')
    return 0.0
  if special(a):
    return mul(a, 1.0 if (not is_sym(b) and b > 0) or
               (is_sym(b) and bool(b > 0)) else -1.0)
  if not is_sym(a) and not is_sym(b):
    return a / b
  if is_sym(b):
    if eng().branch(bterm_eq0(b)):
      if eng().numpy_div:
        return float('nan')
      raise ZeroDivisionError('division by zero')
  elif b == 0:
    raise ZeroDivisionError('division by zero')
  if is_num(b):
    if b == 1:
      return mk(rterm(a))
    return mk(rterm(a) * rv(1 / Fraction(b if isinstance(b, (int, Fraction))
                                         else float(b))))
  return mk(rterm(a) / rterm(b))


def bterm_eq0(b):
  t = term(b)
  return t == (z3.IntVal(0) if t.is_int() else rv(Fraction(0)))


def _divguard(b):
  if is_sym(b):
    if eng().branch(bterm_eq0(b)):
      raise ZeroDivisionError('integer division or modulo by zero')
  elif b == 0:
    raise ZeroDivisionError('integer division or modulo by zero')


def floordiv(a, b):
  if not is_sym(a) and not is_sym(b):
    return a // b
  _divguard(b)
  if _both_int(a, b):
    q = eng().fixed_quotient(a, b)
    if q is not None:
      return q
    if is_num(b) and b > 0:
      return mk(term(a) / z3.IntVal(int(b)))
    return mk(z3.ToInt(rterm(a) / rterm(b)))
  return mk(z3.ToReal(z3.ToInt(term(div(a, b)))))


def mod(a, b):
  if not is_sym(a) and not is_sym(b):
    return a % b
  _divguard(b)
  if _both_int(a, b):
    q = eng().fixed_quotient(a, b)
    if q is not None:
      return sub(a, b * q)
    if is_num(b) and b > 0:
      return mk(term(a) % z3.IntVal(int(b)))
    return mk(term(a) - term(b) * z3.ToInt(rterm(a) / rterm(b)))
  q = div(a, b)
  return mk(rterm(a) - rterm(b) * z3.ToReal(z3.ToInt(rterm(q))))


def power(a, b):
  if not is_sym(a) and not is_sym(b):
    return a**b
  if is_sym(b):
    if _both_int(a, b):
      return power(a, int(eng().concretize(b)))
    return eng().fn('powxy', a, b)
  if isinstance(b, (int, _np.integer)) or float(b).is_integer():
    n = int(b)
    if abs(n) <= 8:
      r = 1
      for _ in range(abs(n)):
        r = mul(r, a)
      if n < 0:
        r = div(1.0, r)
      elif n == 0:
        r = 1 if _isint(a) and not isinstance(b, float) else 1.0
      if isinstance(r, Sym) and r.is_int and isinstance(b, float):
        r = mk(z3.ToReal(r.t))
      return r
  if float(b) == 0.5:
    return eng().fn('sqrt', a)
  return eng().fn('pow', a, float(b))


def compare(op, a, b):
  if special(a) or special(b):
    if (special(a) and math.isnan(a)) or (special(b) and math.isnan(b)):
      return op == '!='
    # finite symbolic vs infinity
    va = a if special(a) else 0.0
    vb = b if special(b) else 0.0
    return {'<': va < vb, '<=': va <= vb, '>': va > vb, '>=': va >= vb,
            '==': va == vb, '!=': va != vb}[op]
  if not is_sym(a) and not is_sym(b):
    return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b,
            '==': a == b, '!=': a != b}[op]
  if _both_int(a, b):
    x, y = term(a), term(b)
  else:
    x, y = rterm(a), rterm(b)
  if op == '<':
    return SymBool(x < y)
  if op == '<=':
    return SymBool(x <= y)
  if op == '>':
    return SymBool(x > y)
  if op == '>=':
    return SymBool(x >= y)
  if op == '==':
    return SymBool(x == y)
  return SymBool(x != y)


def ite(c, a, b):
  """If-then-else without forking; c may be concrete."""
  if isinstance(c, SymBool):
    k = eng().decided(c.t)
    if k is not None:
      return a if k else b
    if isinstance(a, (SymBool, bool, _np.bool_)) and isinstance(
        b, (SymBool, bool, _np.bool_)):
      return SymBool(z3.If(c.t, bterm(a), bterm(b)))
    if (is_sym(a) or is_num(a)) and (is_sym(b) or is_num(b)) and not special(
        a) and not special(b):
      if _both_int(a, b):
        return mk(z3.If(c.t, term(a), term(b)))
      return mk(z3.If(c.t, rterm(a), rterm(b)))
    return a if bool(c) else b
  return a if c else b


def minimum(a, b):
  if not is_sym(a) and not is_sym(b):
    return min(a, b)
  return ite(compare('<=', a, b), a, b)


def maximum(a, b):
  if not is_sym(a) and not is_sym(b):
    return max(a, b)
  return ite(compare('>=', a, b), a, b)


def clip(x, lo, hi):
  if lo is not None:
    x = maximum(x, lo)
  if hi is not None:
    x = minimum(x, hi)
  return x


def absolute(a):
  if not is_sym(a):
    return abs(a)
  t = term(a)
  z = z3.IntVal(0) if t.is_int() else rv(Fraction(0))
  return mk(z3.If(t >= z, t, -t))


def floor(a):
  if not is_sym(a):
    return math.floor(a)
  if _isint(a):
    return a
  return mk(z3.ToInt(a.t))


def ceil(a):
  if not is_sym(a):
    return math.ceil(a)
  if _isint(a):
    return a
  return mk(-z3.ToInt(-a.t))


def trunc(a):
  if not is_sym(a):
    return math.trunc(a)
  if isinstance(a, SymBool):
    return a._n()
  if _isint(a):
    return a
  return mk(z3.If(a.t >= 0, z3.ToInt(a.t), -z3.ToInt(-a.t)))


def round_(a, n=None):
  """Round half to even."""
  if not is_sym(a):
    return round(a, n) if n is not None else round(a)
  if _isint(a) and not n:
    return a
  if n:
    s = 10**n
    return div(round_(mul(a, s)), float(s))
  t = rterm(a)
  f = z3.ToInt(t)
  d = t - z3.ToReal(f)
  half = rv(Fraction(1, 2))
  r = z3.If(d < half, f, z3.If(d > half, f + 1,
                               z3.If(f % 2 == 0, f, f + 1)))
  return mk(r) if n is None else mk(z3.ToReal(r))


def to_float(a):
  if isinstance(a, SymBool):
    return mk(z3.If(a.t, rv(Fraction(1)), rv(Fraction(0))))
  if isinstance(a, Sym):
    return mk(rterm(a))
  return float(a)


# ---------------------------------------------------------------------------


class Fn:
  """Axiomatised real function: fresh result variable plus true facts."""

  def __init__(self, name, pyfn, axioms, domain=None, mono=0):
    self.name, self.py, self.axioms = name, pyfn, axioms
    self.domain, self.mono = domain, mono


def _ax_exp(x, y, E):
  z = rv(Fraction(0))
  o = rv(Fraction(1))
  return [y > z, (x > z) == (y > o), (x == z) == (y == o), y >= o + x]


def _ax_log(x, y, E):
  z = rv(Fraction(0))
  o = rv(Fraction(1))
  return [(x > o) == (y > z), (x == o) == (y == z), y <= x - o]


def _ax_unit(x, y, E):
  return [y >= -1, y <= 1]


_PI_LO = rv(Fraction(3141592653589793, 10**15))
_PI_HI = rv(Fraction(3141592653589794, 10**15))
_PI_D = rv(Fraction(math.pi))


def _ax_sin(x, y, E):
  ax = [y >= -1, y <= 1, (z3.And(x > 0, x < _PI_LO)) == z3.And(
      y > 0, x > 0, x < _PI_LO), z3.Implies(x == 0, y == 0),
        z3.Implies(z3.And(x < 0, x > -_PI_LO), y < 0),
        z3.Implies(x >= 0, y <= x), z3.Implies(x <= 0, y >= x)]
  return ax


def _ax_cos(x, y, E):
  half = _PI_LO / 2
  return [y >= -1, y <= 1, z3.Implies(x == 0, y == 1),
          z3.Implies(z3.And(x > -half, x < half), y > 0),
          y >= 1 - x * x / 2]


def _ax_acos(x, y, E):
  return [y >= 0, y <= _PI_D, z3.Implies(x == 1, y == 0),
          z3.Implies(x < 1, y > 0), z3.Implies(x > -1, y < _PI_D),
          z3.Implies(x == -1, y == _PI_D)]


def _ax_asin(x, y, E):
  h = _PI_D / 2
  return [y >= -h, y <= h, (x > 0) == (y > 0), (x == 0) == (y == 0)]


def _ax_atan(x, y, E):
  h = _PI_D / 2
  return [y >= -h, y <= h, (x > 0) == (y > 0), (x == 0) == (y == 0)]


def _ax_tan(x, y, E):
  h = _PI_LO / 2
  return [z3.Implies(z3.And(x > 0, x < h), y >= x),
          z3.Implies(z3.And(x < 0, x > -h), y <= x), z3.Implies(x == 0, y == 0)]


def _ax_tanh(x, y, E):
  return [y > -1, y < 1, (x > 0) == (y > 0), (x == 0) == (y == 0)]


def _ax_sigmoid(x, y, E):
  return [y > 0, y < 1]


FNS = {
    'exp': Fn('exp', math.exp, _ax_exp, mono=1),
    'log': Fn('log', math.log, _ax_log, mono=1),
    'sin': Fn('sin', math.sin, _ax_sin),
    'cos': Fn('cos', math.cos, _ax_cos),
    'tan': Fn('tan', math.tan, _ax_tan),
    'acos': Fn('acos', math.acos, _ax_acos, mono=-1),
    'asin': Fn('asin', math.asin, _ax_asin, mono=1),
    'atan': Fn('atan', math.atan, _ax_atan, mono=1),
    'tanh': Fn('tanh', math.tanh, _ax_tanh, mono=1),
}


def _lin1(x):
  """x as coefficient * term."""
  if z3.is_mul(x) and x.num_args() == 2:
    for i in (0, 1):
      c = const_of(x.arg(i))
      if c is not None:
        return Fraction(c), x.arg(1 - i)
  return Fraction(1), x


def _linear(t, memo=None):
  """Linear and over integers only."""
  memo = {} if memo is None else memo
  k = t.get_id()
  if k in memo:
    return memo[k]
  if z3.is_real(t) and t.num_args() == 0 and const_of(t) is None:
    r = False
  elif z3.is_mul(t) and sum(const_of(c) is None for c in t.children()) > 1:
    r = False
  elif t.decl().kind() in (z3.Z3_OP_POWER, z3.Z3_OP_DIV):
    r = const_of(t.arg(1)) is not None and t.decl().kind() == z3.Z3_OP_DIV
  else:
    r = all(_linear(c, memo) for c in t.children())
  memo[k] = r
  return r


class Near:
  """Equality of terms up to floating-point rounding of their constants.

  A term is read as a polynomial over canonical atoms (everything that is not
  +, -, * or a constant); atoms with the same operator and near-equal children
  share a canonical id.  Two polynomials are near when their coefficients
  differ by at most 1e-12 of the largest coefficient.
  """
  TOL = Fraction(1, 10**12)

  def __init__(self):
    self.cache, self.atoms, self.keep = {}, {}, []
    self.ints = set()

  def poly(self, t):
    k = t.get_id()
    p = self.cache.get(k)
    if p is None:
      p = self._poly(t)
      self.cache[k] = p
      self.keep.append(t)
    return p

  def _poly(self, t):
    c = const_of(t)
    if c is not None:
      return {(): Fraction(c)} if c else {}
    if z3.is_add(t):
      r = {}
      for ch in t.children():
        for m, v in self.poly(ch).items():
          r[m] = r.get(m, 0) + v
      return {m: v for m, v in r.items() if v}
    if z3.is_sub(t) or t.decl().kind() == z3.Z3_OP_UMINUS:
      ch = t.children()
      if len(ch) == 1:
        return {m: -v for m, v in self.poly(ch[0]).items()}
      r = dict(self.poly(ch[0]))
      for x in ch[1:]:
        for m, v in self.poly(x).items():
          r[m] = r.get(m, 0) - v
      return {m: v for m, v in r.items() if v}
    if z3.is_mul(t):
      r = {(): Fraction(1)}
      for ch in t.children():
        q = self.poly(ch)
        if len(r) * len(q) > 4000:
          return {(self.atom(t),): Fraction(1)}
        n = {}
        for m1, v1 in r.items():
          for m2, v2 in q.items():
            m = tuple(sorted(m1 + m2))
            n[m] = n.get(m, 0) + v1 * v2
        r = n
      return {m: v for m, v in r.items() if v}
    if t.decl().kind() == z3.Z3_OP_POWER:
      n = const_of(t.arg(1))
      if n is not None and n == int(n) and 0 < n <= 8:
        x = t.arg(0)
        return self._poly_pow(self.poly(x), int(n))
    if t.decl().kind() == z3.Z3_OP_DIV:
      c = const_of(t.arg(1))
      if c:
        return {m: v / Fraction(c) for m, v in self.poly(t.arg(0)).items()}
    if z3.is_to_real(t):
      return self.poly(t.arg(0))
    if z3.is_to_int(t):
      p = self.poly(t.arg(0))
      if all(v.denominator == 1 and all(i in self.ints for i in m)
             for m, v in p.items()):
        return p
    if z3.is_app_of(t, z3.Z3_OP_ITE):
      p, q = self.poly(t.arg(1)), self.poly(t.arg(2))
      if p == q:
        return p
    return {(self.atom(t),): Fraction(1)}

  def _poly_pow(self, q, n):
    r = {(): Fraction(1)}
    for _ in range(n):
      m2 = {}
      for a, va in r.items():
        for b, vb in q.items():
          m = tuple(sorted(a + b))
          m2[m] = m2.get(m, 0) + va * vb
      r = m2
    return r

  def atom(self, t):
    """Canonical id of a non-arithmetic term."""
    k = ('a', t.get_id())
    if k in self.cache:
      return self.cache[k]
    if t.num_args() == 0:
      r = t.get_id()
    else:
      kids = [self.poly(c) if z3.is_arith(c) else
              (c.get_id() if c.num_args() == 0 else self.atom(c))
              for c in t.children()]
      d = t.decl().get_id()
      r = None
      for kids2, i in self.atoms.setdefault((d, len(kids)), []):
        if all((isinstance(a, dict) and isinstance(b, dict) and self.close(a, b))
               or (not isinstance(a, dict) and a == b)
               for a, b in zip(kids, kids2)):
          r = i
          break
      if r is None:
        r = t.get_id()
        self.atoms[(d, len(kids))].append((kids, r))
    self.keep.append(t)
    self.cache[k] = r
    if z3.is_int(t):
      self.ints.add(r)
    return r

  def close(self, p, q):
    scale = max([abs(v) for v in p.values()] + [abs(v) for v in q.values()] +
                [Fraction(1, 10**6)])
    for m in set(p) | set(q):
      if abs(p.get(m, 0) - q.get(m, 0)) > self.TOL * scale:
        return False
    return True

  def near(self, a, b):
    return self.close(self.poly(a), self.poly(b))


class Engine:

  def __init__(self, name='', max_paths=4000, branch_ms=3000, check_ms=20000,
               deadline=None, seed=0):
    self.name = name
    self.max_paths = max_paths
    self.branch_ms = branch_ms
    self.check_ms = check_ms
    self.deadline = deadline
    self.numpy_div = False
    self.pin = None  # {input name: Fraction} for conformance runs
    self.stats = dict(paths=0, aborted=0, branch_queries=0, prop_queries=0,
                      unsat=0, sat=0, unknown=0, solver_s=0.0, forced=0, on_path=0,
                      exceptions=0)
    self.candidates = []
    self.inconclusive = []
    self.witness = {}
    self.fn_lemmas = []  # global CEGAR lemmas: (name, arg-values...) points
    self.seed = seed
    self.skip = {}
    self.stop = False

  # --- path control ---------------------------------------------------------
  def explore(self, fn, on_path=None):
    global ENG
    stack = [[]]
    prev = ENG
    try:
      while stack:
        if self.stats['paths'] >= self.max_paths:
          raise Budget(f'more than {self.max_paths} paths')
        self._check_deadline()
        prefix = stack.pop()
        self._begin(prefix, stack)
        ENG = self
        try:
          fn()
          self.stats['paths'] += 1
        except PathAbort:
          self.stats['aborted'] += 1
        finally:
          ENG = prev
        if on_path:
          on_path()
        if self.stop:
          break
    finally:
      ENG = prev

  def _check_deadline(self):
    if self.deadline and time.time() > self.deadline:
      raise Budget('time budget')

  def _begin(self, prefix, stack):
    self.prefix, self.stack = prefix, stack
    self.trace = []
    self.pinned = []  # (integer term, its value on this path)
    self.known = {}
    self.keep = []
    self.solver = z3.Solver()
    self.solver.set('timeout', self.branch_ms)
    self.inputs = {}
    self.fnmemo = {}
    self.fnapps = {}
    self.fnpts = {}
    self.near_cmp = []
    self.symcache, self.localmemo = {}, {}
    self.hard = []  # assumptions and branch decisions (no function axioms)
    self.apps_log = []  # (function, argument terms, result) in order
    self.merge = None  # Near(): identify terms up to rounding (opt-in)
    self.pc = []
    self.fresh_n = 0
    self.last_model = None
    self.stack_pushed = False

  def _add(self, c):
    self.pc.append(c)
    self.solver.add(c)
    self.last_model = None if self.last_model is None else self._recheck(c)

  def _recheck(self, c):
    try:
      if z3.is_true(self.last_model.eval(c, model_completion=True)):
        return self.last_model
    except z3.Z3Exception:
      pass
    return None

  def decided(self, t):
    """Truth value of t if it is already fixed on this path, else None."""
    s = z3.simplify(t)
    if z3.is_true(s):
      return True
    if z3.is_false(s):
      return False
    return self.known.get(s.get_id())

  def _learn(self, s, val):
    self.keep.append(s)
    self.known[s.get_id()] = val
    n = z3.simplify(z3.Not(s))
    self.keep.append(n)
    self.known[n.get_id()] = not val

  def _query(self, c, ms=None):
    """sat/unsat/unknown of the path condition plus c (no caching)."""
    self.stats['branch_queries'] += 1
    t0 = time.time()
    if self.deadline and t0 > self.deadline:
      raise Budget('time budget')
    self.solver.push()
    self.solver.set('timeout', int(ms or self.branch_ms))
    self.solver.add(c)
    r = self.solver.check()
    m = self.solver.model() if r == z3.sat else None
    self.solver.pop()
    self.stats['solver_s'] += time.time() - t0
    return str(r), m

  def branch(self, t):
    s = z3.simplify(t)
    if z3.is_true(s):
      return True
    if z3.is_false(s):
      return False
    k = self.known.get(s.get_id())
    if k is not None:
      return k
    if self.merge is not None and self.pin is None:
      k = self._near_known(s)
      if k is not None:
        return k
    i = len(self.trace)
    if i < len(self.prefix):
      d = self.prefix[i]
      self.trace.append(d)
      self._learn(s, d)
      self._near_learn(s, d)
      self.hard.append(s if d else z3.Not(s))
      self._add(s if d else z3.Not(s))
      return d
    # Which outcomes are feasible?
    can_t = can_f = None
    if self.last_model is not None:
      try:
        v = self.last_model.eval(s, model_completion=True)
        if z3.is_true(v):
          can_t = True
        elif z3.is_false(v):
          can_f = True
      except z3.Z3Exception:
        pass
    mt = mf = None
    if can_t is None:
      r, mt = self._query(s)
      can_t = r != 'unsat'
    if can_f is None:
      if not can_t:
        can_f = True
      else:
        r, mf = self._query(z3.Not(s))
        can_f = r != 'unsat'
    if can_t and can_f:
      self.stack.append(self.trace + [False])
      d = True
    else:
      d = bool(can_t)
      self.stats['forced'] += 1
    self.trace.append(d)
    self._learn(s, d)
    self._near_learn(s, d)
    if d and mt is not None:
      self.last_model = mt
    elif not d and mf is not None:
      self.last_model = mf
    self.hard.append(s if d else z3.Not(s))
    self._add(s if d else z3.Not(s))
    return d

  def fixed_quotient(self, a, b):
    """a // b for a positive constant b if the path fixes it (merge mode)."""
    if self.merge is None or self.pin is not None or not is_num(b) or b <= 0:
      return None
    b = int(b)
    t = z3.simplify(term(a))
    k = ('quot', t.get_id(), b)
    if k in self.fnmemo:
      return self.fnmemo[k]
    self.keep.append(t)
    q = None
    s = z3.Solver()  # the linear integer facts only
    s.set('timeout', 2000)
    for c in self.pc:
      if _linear(c):
        s.add(c)
    if s.check() == z3.sat:
      v = const_of(s.model().eval(t, model_completion=True))
      if v is not None:
        q = int(v) // b
        s.add(z3.Or(t < b * q, t >= b * (q + 1)))
        if s.check() != z3.unsat:
          q = None
    self.fnmemo[k] = q
    return q

  def _cmp_form(self, s):
    neg = False
    while z3.is_not(s):
      s, neg = s.arg(0), not neg
    if z3.is_app(s) and s.num_args() == 2 and z3.is_arith(s.arg(0)):
      k = s.decl().kind()
      sg = {z3.Z3_OP_LE: 1, z3.Z3_OP_GE: -1}.get(k)
      if sg is None:
        return None
      p = self.merge.poly(s.arg(0) - s.arg(1))
      big = max([abs(v) for v in p.values()] or [1])
      return {m: sg * v / big for m, v in p.items()}, neg
    return None

  def _near_known(self, s):
    f = self._cmp_form(s)
    if f is not None:
      p, neg = f
      for q, val in self.near_cmp:
        if self.merge.close(p, q):
          return val != neg
    return None

  def _near_learn(self, s, d):
    if self.merge is not None and self.pin is None:
      f = self._cmp_form(s)
      if f is not None:
        self.near_cmp.append((f[0], d != f[1]))

  def assume(self, c):
    t = z3.simplify(bterm(c))
    if z3.is_true(t):
      return
    if z3.is_false(t):
      raise PathAbort()
    k = self.known.get(t.get_id())
    if k is True:
      return
    if k is False:
      raise PathAbort()
    self._learn(t, True)
    self.hard.append(t)
    self._add(t)
    if self.last_model is None:
      r, m = self._query(z3.BoolVal(True))
      if r == 'unsat':
        raise PathAbort()
      self.last_model = m

  def concretize(self, x, limit=400):
    """Fork over the feasible values of an integer."""
    if not is_sym(x):
      return x
    t = z3.simplify(term(x))
    c = const_of(t)
    if c is not None:
      return int(c)
    if self.pinned:
      t = z3.simplify(z3.substitute(t, *self.pinned))
      c = const_of(t)
      if c is not None:
        return int(c)
    a, u, b = _linear_in_one(t)
    if u is not None and (a != 1 or b != 0):
      return a * self.concretize(Sym(u), limit) + b
    v = self._concretize(t, limit)
    if z3.is_int(t):
      self.pinned.append((t, z3.IntVal(v)))
    return v

  def _concretize(self, t, limit):
    for _ in range(limit):
      i = len(self.trace)
      if i < len(self.prefix):
        val, taken = self.prefix[i]
        self.trace.append((val, taken))
        self._add(t == val if taken else t != val)
        if taken:
          return int(val)
        continue
      r, m = self._query(z3.BoolVal(True))
      if r == 'unsat':
        raise PathAbort()
      if r == 'unknown':
        raise Unsupported('cannot concretise an index (solver unknown)')
      v = const_of(m.eval(t, model_completion=True))
      r, _ = self._query(t != v)
      if r != 'unsat':
        self.stack.append(self.trace + [(int(v), False)])
      self.trace.append((int(v), True))
      self._add(t == v)
      return int(v)
    raise Unsupported('index has too many feasible values')

  def pinned_value(self, x):
    if not is_sym(x):
      return x
    t = z3.simplify(term(x))
    c = const_of(t)
    if c is not None:
      return c
    r, m = self._query(z3.BoolVal(True))
    if r == 'sat':
      v = m.eval(t, model_completion=True)
      c = const_of(v)
      if c is not None:
        r2, _ = self._query(t != v)
        if r2 == 'unsat':
          return c
    raise Unsupported('a symbolic number was converted by C code')

  # --- inputs -----------------------------------------------------------------
  def real(self, name):
    v = z3.Real(name)
    self.inputs[name] = v
    self._pin(name, v)
    return Sym(v)

  def int(self, name):
    v = z3.Int(name)
    self.inputs[name] = v
    self._pin(name, v)
    return Sym(v)

  def bool(self, name):
    v = z3.Bool(name)
    self.inputs[name] = v
    if self.pin is not None and name in self.pin:
      self._add(v == bool(self.pin[name]))
    return SymBool(v)

  def _pin(self, name, v):
    if self.pin is not None and name in self.pin:
      f = Fraction(self.pin[name])
      self._add(v == (z3.IntVal(int(f)) if v.is_int() else rv(f)))

  def fresh(self, base, integer=False):
    self.fresh_n += 1
    n = f'{base}!{self.fresh_n}'
    return z3.Int(n) if integer else z3.Real(n)

  # --- functions --------------------------------------------------------------
  def fn(self, name, *args):
    args = tuple(unwrap0(a) for a in args)
    if not any(is_sym(a) for a in args):
      return self._concrete_fn(name, *args)
    if any(special(a) for a in args):
      a = args[0]
      if name == 'exp' and not math.isnan(a):
        return math.inf if a > 0 else 0.0
      return float('nan')
    if name == 'sqrt':
      return self._sqrt(args[0])
    if name == 'atan2':
      return self._atan2(*args)
    if name == 'pow':
      return self._powc(args[0], args[1])
    if name == 'powxy':
      a, b = args
      if is_sym(a):
        if self.branch(rterm(a) <= 0):
          raise Unsupported('symbolic power of a non-positive number')
        la = self.fn('log', a)
      else:
        if a <= 0:
          raise Unsupported('symbolic power of a non-positive number')
        la = math.log(a)
      return self.fn('exp', mul(b, la))
    x = z3.simplify(rterm(args[0]))
    c = const_of(x)
    if c is not None:
      return self._concrete_fn(name, float(c))
    if self.merge is not None and self.pin is None:
      for (x2, y2) in self.fnapps.get(name, ()):
        if self.merge.near(x, x2):
          self.keep.append(x)
          self.fnmemo[(name, x.get_id())] = y2
          return Sym(y2)
    if name in ('log',):
      if self.branch(x <= 0):
        raise ValueError('math domain error')
    if name in ('acos', 'asin'):
      out = z3.Or(x < -1, x > 1)
      if not self.local_unsat(out) and self.branch(out):
        if self.numpy_div:
          return float('nan')
        raise ValueError('math domain error')
    if name == 'exp':
      co, v = _lin1(x)
      if abs(co - 1) < Fraction(1, 10**12):
        for (lx, ly) in self.fnapps.get('log', ()):
          if ly.get_id() == v.get_id():
            return Sym(lx)  # exp(log z), up to rounding of the factors
    if name == 'log' and ('explog', x.get_id()) in self.fnmemo:
      return Sym(self.fnmemo[('explog', x.get_id())])
    if name in ('cos', 'sin') and ('inv', name, x.get_id()) in self.fnmemo:
      return Sym(self.fnmemo[('inv', name, x.get_id())])
    if name in ('asin', 'acos', 'atan'):
      z = self.fnmemo.get(('inv', name, x.get_id()))
      if z is not None:
        lo = -_PI_LO / 2 if name != 'acos' else rv(Fraction(0))
        hi = _PI_LO / 2 if name != 'acos' else _PI_LO
        if self.local_unsat(z3.Or(z < lo, z > hi)):
          return Sym(z)  # asin(sin z) on the principal branch
    key = (name, x.get_id())
    y = self.fnmemo.get(key)
    if y is not None:
      return Sym(y)
    f = FNS[name]
    y = self.fresh(name)
    self.keep.append(x)
    self.fnmemo[key] = y
    self.apps_log.append((name, [x], y))
    if self.pin is not None:
      self._pin_fn(f.py, y, x)
    else:
      for a in f.axioms(x, y, self):
        self._add(a)
      apps = self.fnapps.setdefault(name, [])
      for (x2, y2) in apps:
        if f.mono == 1:
          self._add((x < x2) == (y < y2))
          self._add((x == x2) == (y == y2))
        elif f.mono == -1:
          self._add((x < x2) == (y > y2))
          self._add((x == x2) == (y == y2))
        else:
          self._add(z3.Implies(x == x2, y == y2))
      apps.append((x, y))
      if name in ('sin', 'cos'):
        o = 'cos' if name == 'sin' else 'sin'
        other = self.fnmemo.get((o, x.get_id()))
        if other is None:
          other = self.fnmemo.get(('inv', o, x.get_id()))
        if other is not None:
          self._add(y * y + other * other == 1)
    if name == 'exp':
      self.fnmemo[('explog', y.get_id())] = x
    if name in ('sin', 'cos', 'tan'):
      self.fnmemo[('inv', 'a' + name, y.get_id())] = x
    if name == 'acos':
      self.fnmemo[('inv', 'cos', y.get_id())] = x
    if name == 'asin':
      self.fnmemo[('inv', 'sin', y.get_id())] = x
    return Sym(y)

  def _pin_fn(self, py, y, *xs):
    r, m = self._query(z3.BoolVal(True))
    if r != 'sat':
      raise Unsupported('pinned evaluation failed')
    vals = [model_float(m, x) for x in xs]
    self._add(y == rv(Fraction(float(py(*vals)))))

  def _concrete_fn(self, name, *args):
    if name == 'sqrt':
      return math.sqrt(args[0])
    if name == 'atan2':
      return math.atan2(*args)
    if name == 'pow' or name == 'powxy':
      return args[0]**args[1]
    return FNS[name].py(args[0])

  def _sqrt(self, a):
    x = z3.simplify(rterm(a))
    c = const_of(x)
    if c is not None:
      return math.sqrt(float(c))
    if self.branch(x < 0):
      if self.numpy_div:
        return float('nan')
      raise ValueError('math domain error')
    key = ('sqrt', x.get_id())
    y = self.fnmemo.get(key)
    if y is None:
      y = self.fresh('sqrt')
      self.keep.append(x)
      self.fnmemo[key] = y
      self.apps_log.append(('sqrt', [x], y))
      if self.pin is not None:
        self._pin_fn(lambda v: math.sqrt(max(v, 0.0)), y, x)
      else:
        self._add(y >= 0)
        self._add(y * y == x)
    return Sym(y)

  def _powc(self, a, c):
    x = z3.simplify(rterm(a))
    k = const_of(x)
    if k is not None:
      return float(k)**c
    if self.branch(x < 0):
      if self.numpy_div:
        return float('nan')
      raise Unsupported('complex power')
    if c < 0 and self.branch(x == 0):
      raise ZeroDivisionError('0.0 cannot be raised to a negative power')
    key = ('pow', x.get_id(), c)
    y = self.fnmemo.get(key)
    if y is not None:
      return Sym(y)
    # (z**c1)**c == z**(c1*c) for z >= 0
    inv = self.fnmemo.get(('powinv', x.get_id()))
    if inv is not None:
      z, c1 = inv
      cc = c1 * c
      if abs(cc - 1.0) < 1e-12:
        return Sym(z)
      return self._powc(Sym(z), cc)
    y = self.fresh('pow')
    self.keep.append(x)
    self.fnmemo[key] = y
    self.apps_log.append((('pow', c), [x], y))
    self.keep.append(y)
    self.fnmemo[('powinv', y.get_id())] = (x, c)
    if self.pin is not None:
      self._pin_fn(lambda v: v**c, y, x)
      return Sym(y)
    z = rv(Fraction(0))
    o = rv(Fraction(1))
    self._add(z3.Implies(x > z, y > z))
    self._add(z3.Implies(x == z, y == z))
    self._add((x == o) == (y == o))
    if c > 0:
      self._add((x > o) == (y > o))
    else:
      self._add((x > o) == z3.And(x > z, y < o))
    # tangent at 1 (Bernoulli): convex outside (0,1), concave inside.
    cr = rv(Fraction(c))
    if c >= 1 or c < 0:
      self._add(z3.Implies(x > z, y >= o + cr * (x - o)))
    else:
      self._add(z3.Implies(x > z, y <= o + cr * (x - o)))
    apps = self.fnapps.setdefault(('pow', c), [])
    for (x2, y2) in apps:
      if c > 0:
        self._add((x < x2) == (y < y2))
      else:
        self._add(z3.Implies(z3.And(x > z, x2 > z), (x < x2) == (y > y2)))
      self._add((x == x2) == (y == y2))
    apps.append((x, y))
    return Sym(y)

  def _atan2(self, a, b):
    y, x = z3.simplify(rterm(a)), z3.simplify(rterm(b))
    key = ('atan2', y.get_id(), x.get_id())
    r = self.fnmemo.get(key)
    if r is not None:
      return Sym(r)
    if self.merge is not None and self.pin is None:
      for (y2, x2, r2) in self.fnapps.get('atan2', ()):
        if self.merge.near(y, y2) and self.merge.near(x, x2):
          self.keep += [y, x]
          self.fnmemo[key] = r2
          return Sym(r2)
    r = self.fresh('atan2')
    self.keep += [y, x]
    self.fnmemo[key] = r
    self.apps_log.append(('atan2', [y, x], r))
    if self.pin is not None:
      self._pin_fn(math.atan2, r, y, x)
      return Sym(r)
    # sin(r), cos(r) are y/h, x/h with h = |(x, y)|; atan2(0,0) = 0.
    h = self.fresh('hyp')
    s = self.fresh('sinat')
    c = self.fresh('cosat')
    self._add(h >= 0)
    self._add(h * h == x * x + y * y)
    self._add(s * h == y)
    self._add(c * h == x)
    self._add(s * s + c * c == 1)
    self._add(r <= _PI_D)
    self._add(r >= -_PI_D)
    self._add(z3.Implies(y > 0, z3.And(r > 0, s > 0)))
    self._add(z3.Implies(y < 0, z3.And(r < 0, s < 0)))
    self._add(z3.Implies(z3.And(y == 0, x >= 0), z3.And(r == 0, s == 0,
                                                        c == 1)))
    self._add(z3.Implies(z3.And(y == 0, x < 0), z3.And(r == _PI_D, c == -1)))
    self._add(z3.Implies(h == 0, z3.And(s == 0, c == 1)))
    for (y2, x2, r2) in self.fnapps.setdefault('atan2', []):
      self._add(z3.Implies(z3.And(y == y2, x == x2), r == r2))
    self.fnapps['atan2'].append((y, x, r))
    self.keep.append(r)
    self.fnmemo[('inv', 'sin', r.get_id())] = s
    self.fnmemo[('inv', 'cos', r.get_id())] = c
    return Sym(r)

  def uf(self, name, args, pyfn=None, lo=None, hi=None, integer=False):
    """A deterministic uninterpreted function application (congruent)."""
    ts = [z3.simplify(rterm(a)) if not isinstance(a, str) else a for a in args]
    key = ('uf', name) + tuple(t if isinstance(t, str) else t.get_id()
                               for t in ts)
    y = self.fnmemo.get(key)
    if y is not None:
      return Sym(y)
    y = self.fresh(name, integer)
    self.keep += [t for t in ts if not isinstance(t, str)]
    self.fnmemo[key] = y
    apps = self.fnapps.setdefault(('uf', name, len(ts)), [])
    for (ts2, y2) in apps:
      if all(t == u for t, u in zip(ts, ts2) if isinstance(t, str)):
        eqs = [t == u for t, u in zip(ts, ts2) if not isinstance(t, str)]
        self._add(z3.Implies(z3.And(eqs) if eqs else z3.BoolVal(True),
                             y == y2))
    apps.append((ts, y))
    if lo is not None:
      self._add(y >= term(lo) if integer else y >= rterm(lo))
    if hi is not None:
      self._add(y <= term(hi) if integer else y <= rterm(hi))
    return Sym(y)

  def _symbols(self, t):
    k = t.get_id()
    r = self.symcache.get(k)
    if r is None:
      if t.num_args() == 0:
        r = frozenset() if (z3.is_rational_value(t) or z3.is_int_value(t) or
                            z3.is_true(t) or z3.is_false(t)) else frozenset(
                                [k])
      else:
        r = frozenset().union(*[self._symbols(c) for c in t.children()])
      self.symcache[k] = r
      self.keep.append(t)
    return r

  def local_unsat(self, extra, ms=250):
    """Is extra refuted by the facts about its own symbols alone?"""
    if self.pin is not None:
      return False
    s = z3.simplify(extra)
    if z3.is_false(s):
      return True
    if s.get_id() in self.localmemo:
      return self.localmemo[s.get_id()]
    self.keep.append(s)
    syms = self._symbols(s)
    facts = [c for c in self.pc if self._symbols(c) <= syms]
    t0 = time.time()
    ans = False
    for tac in (z3.Then('simplify', 'purify-arith', 'qfnra-nlsat'), None):
      sv = z3.Solver() if tac is None else tac.solver()
      sv.set('timeout', ms)
      sv.add(facts)
      sv.add(s)
      try:
        r = sv.check()
      except z3.Z3Exception:
        continue
      if r != z3.unknown:
        ans = r == z3.unsat
        break
    self.stats['solver_s'] += time.time() - t0
    self.stats['branch_queries'] += 1
    self.localmemo[s.get_id()] = ans
    return ans

  # --- property queries --------------------------------------------------------
  def decide(self, extra, ms=None):
    """Robust decision of pc /\\ extra: ('sat'|'unsat'|'unknown', model)."""
    ms = ms or self.check_ms
    t0 = time.time()
    self.stats['prop_queries'] += 1
    try:
      s = z3.simplify(extra)
      if z3.is_false(s):
        return 'unsat', None
      self.solver.push()
      self.solver.set('timeout', int(ms / 4))
      self.solver.add(s)
      r = self.solver.check()
      m = self.solver.model() if r == z3.sat else None
      self.solver.pop()
      if r == z3.sat or r == z3.unsat:
        return str(r), m
      # Ints are few: try the nlsat tactic, then a fresh default solver.
      for mk_solver in (
          lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs',
                          'purify-arith', 'qfnra-nlsat').solver(),
          lambda: z3.Then('simplify', 'solve-eqs', 'smt').solver(),
      ):
        try:
          sv = mk_solver()
          sv.set('timeout', int(ms))
          sv.add(self.pc)
          sv.add(s)
          r = sv.check()
          if r == z3.sat:
            return 'sat', sv.model()
          if r == z3.unsat:
            return 'unsat', None
        except z3.Z3Exception:
          pass
      r = cvc5_decide(self.pc + [s], int(ms))
      if r == 'unsat':
        return 'unsat', None
      return 'unknown', None
    finally:
      self.stats['solver_s'] += time.time() - t0

  # --- counterexamples ---------------------------------------------------------
  def solve(self, t, ms=None, rounds=40):
    """decide(), refining axiomatised functions at spurious model points."""
    last = None
    t0 = time.time()
    for _ in range(rounds):
      r, m = self.decide(t, ms)
      if r != 'sat':
        if last is not None and r == 'unknown':
          return 'sat', last
        return r, m
      last = m
      if self.pin is not None or not self._refine(m):
        return 'sat', m
      self.stats['refinements'] = self.stats.get('refinements', 0) + 1
      if time.time() - t0 > 2 * self.check_ms / 1000:
        break
    return 'sat', last

  def _refine(self, m):
    """Adds true point facts where the model misvalues a function."""
    added = False
    for name, apps in list(self.fnapps.items()):
      if isinstance(name, tuple) and name[0] == 'uf':
        continue
      if name in ('sin', 'cos', 'atan', 'tanh'):  # 1-Lipschitz
        vals = [(model_fraction(m, x), model_fraction(m, y)) for x, y in apps]
        for i, (x1, y1) in enumerate(vals):
          for j in range(i):
            x2, y2 = vals[j]
            if None in (x1, y1, x2, y2):
              continue
            if abs(y1 - y2) > abs(x1 - x2) * (1 + Fraction(1, 10**9)) + (
                Fraction(1, 10**14)):
              (a, b), (c, d) = apps[i], apps[j]
              dist = z3.If(a >= c, a - c, c - a)
              self._add(b - d <= dist)
              self._add(d - b <= dist)
              added = True
      for app in apps:
        if name == 'atan2':
          continue
        x, y = app
        xv, yv = model_fraction(m, x), model_fraction(m, y)
        if xv is None or yv is None:
          continue
        try:
          if isinstance(name, tuple):
            f = float(xv)**name[1]
          else:
            f = FNS[name].py(float(xv))
        except (ValueError, OverflowError, ZeroDivisionError):
          continue
        if abs(float(yv) - f) <= 1e-10 * (1e-3 + abs(f)):
          continue
        xs = Fraction(xv)
        if xs.denominator.bit_length() > 600:
          xs = Fraction(float(xv))
        near = [k for k in self.fnpts.get(name, {})
                if abs(k - xs) <= abs(xs) * Fraction(1, 10**10)]
        if xs not in self.fnpts.get(name, {}):
          self._point(name, apps, xs)
        if near:
          w = abs(xs) * Fraction(1, 10**8) + Fraction(1, 10**14)
          for z in (xs - w, xs + w):
            z = Fraction(float(z))
            try:
              if z not in self.fnpts[name]:
                self._point(name, apps, z)
            except (ValueError, OverflowError, ZeroDivisionError):
              pass
        added = True
    return added

  def _point(self, name, apps, x0):
    xf = float(x0)
    if isinstance(name, tuple):
      f0 = xf**name[1]
    else:
      f0 = FNS[name].py(xf)
    pad = abs(f0) * 1e-12 + 1e-15
    lo, hi = rv(Fraction(f0 - pad)), rv(Fraction(f0 + pad))
    xr = rv(x0)
    pts = self.fnpts.setdefault(name, {})
    pts[x0] = (f0 - pad, f0 + pad)
    for (x, y) in apps:
      cs = [z3.Implies(x == xr, z3.And(y >= lo, y <= hi))]
      if isinstance(name, tuple):
        c = name[1]
        pos = x > 0
        if c > 0:
          cs += [z3.Implies(x <= xr, y <= hi), z3.Implies(x >= xr, y >= lo)]
        else:
          cs += [z3.Implies(z3.And(pos, x <= xr), y >= lo),
                 z3.Implies(x >= xr, y <= hi)]
        if xf > 0:
          d = c * xf**(c - 1)
          if c >= 1 or c < 0:
            cs.append(z3.Implies(pos, y >= lo + rv(Fraction(d)) * (x - xr)
                                 - rv(Fraction(abs(d) * 1e-9)) *
                                 z3.If(x >= xr, x - xr, xr - x)))
          else:
            cs.append(z3.Implies(pos, y <= hi + rv(Fraction(d)) * (x - xr)
                                 + rv(Fraction(abs(d) * 1e-9)) *
                                 z3.If(x >= xr, x - xr, xr - x)))
      else:
        mono = FNS[name].mono
        if mono == 1:
          cs += [z3.Implies(x <= xr, y <= hi), z3.Implies(x >= xr, y >= lo)]
        elif mono == -1:
          cs += [z3.Implies(x <= xr, y >= lo), z3.Implies(x >= xr, y <= hi)]
        dist = z3.If(x >= xr, x - xr, xr - x)
        if name == 'exp':
          cs.append(y >= lo * (1 + x - xr) - rv(Fraction(2 * pad)) * dist)
          cs.append(z3.Implies(x <= xr, y <= hi))
        elif name == 'log':
          cs.append(y <= hi + (x - xr) / xr * rv(Fraction(1)))
        elif name in ('sin', 'cos'):
          d = math.cos(xf) if name == 'sin' else -math.sin(xf)
          dl = rv(Fraction(d)) * (x - xr)
          sl = rv(Fraction(1, 10**12)) * (1 + dist)
          cs.append(y <= hi + dl + dist * dist / 2 + sl)
          cs.append(y >= lo + dl - dist * dist / 2 - sl)
        elif name in ('atan', 'tanh'):
          cs += [y <= hi + dist, y >= lo - dist]
      # chords between neighbouring points
      conv = None
      if name == 'exp' or (isinstance(name, tuple) and
                           (name[1] >= 1 or name[1] < 0)):
        conv = 1
      elif name == 'log' or isinstance(name, tuple):
        conv = -1
      if conv:
        ks = sorted(pts)
        i = ks.index(x0)
        for a, b in ((i - 1, i), (i, i + 1)):
          if a < 0 or b >= len(ks):
            continue
          xa, xb = ks[a], ks[b]
          if isinstance(name, tuple) and xa <= 0:
            continue
          if conv == 1:
            ya, yb = Fraction(pts[xa][1]), Fraction(pts[xb][1])
          else:
            ya, yb = Fraction(pts[xa][0]), Fraction(pts[xb][0])
          line = rv(ya) + rv((yb - ya) / (xb - xa)) * (x - rv(xa))
          cs.append(z3.Implies(z3.And(x >= rv(xa), x <= rv(xb)),
                               y <= line if conv == 1 else y >= line))
      for c_ in cs:
        self._add(c_)

  def nicer_models(self, t, limit=3):
    """Further models with few-bit inputs: they survive rounding to doubles."""
    if self.pin is not None:
      return []
    out = []
    reals = [v for v in self.inputs.values() if z3.is_real(v)]
    if not reals or len(reals) > 60:
      return []
    for bits in (0, 4, 12):
      ks = [z3.Int(f'nice!{i}') for i in range(len(reals))]
      cs = [v == z3.ToReal(k) / (2**bits) for v, k in zip(reals, ks)]
      s = z3.Solver()
      s.set('timeout', 1500)
      s.add(self.pc)
      s.add(t)
      s.add(cs)
      t0 = time.time()
      try:
        r = s.check()
      except z3.Z3Exception:
        r = z3.unknown
      self.stats['solver_s'] += time.time() - t0
      if r == z3.sat:
        out.append(s.model())
        break
    return out

  def export(self, m):
    out = {}
    for n, v in self.inputs.items():
      if z3.is_bool(v):
        out[n] = '1' if z3.is_true(m.eval(v, model_completion=True)) else '0'
        continue
      f = model_fraction(m, v)
      out[n] = str(f if f is not None else 0)
    return out

  def export_ufs(self, m):
    out = []
    for key, apps in self.fnapps.items():
      if not (isinstance(key, tuple) and key[0] == 'uf'):
        continue
      for ts, y in apps:
        vals = [t if isinstance(t, str) else str(model_fraction(m, t))
                for t in ts]
        f = model_fraction(m, y)
        out.append([key[1], vals, str(f if f is not None else 0)])
    return out


def cvc5_decide(assertions, ms):
  """Second solver for queries z3 leaves undecided (unsat answers only)."""
  import subprocess
  import tempfile
  s = z3.Solver()
  s.add(assertions)
  text = '(set-logic QF_NIRA)\n' + s.sexpr() + '\n(check-sat)\n'
  try:
    p = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={ms}', '-'],
                       input=text, capture_output=True, text=True,
                       timeout=ms / 1000 + 5)
  except Exception:
    return 'unknown'
  out = p.stdout.strip().splitlines()
  if '(error' in p.stdout or '(error' in p.stderr:
    return 'unknown'
  return out[0] if out and out[0] in ('sat', 'unsat') else 'unknown'


def model_fraction(m, t):
  v = m.eval(t, model_completion=True)
  c = const_of(v)
  if c is not None:
    return Fraction(c)
  if z3.is_algebraic_value(v):
    a = v.approx(30)
    return Fraction(a.numerator_as_long(), a.denominator_as_long())
  return None


def model_float(m, t):
  f = model_fraction(m, t)
  if f is None:
    raise Unsupported('no model value')
  return float(f)
