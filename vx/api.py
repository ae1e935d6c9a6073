"""The harness interface.

A harness is a function of one argument H.  Under SymH its inputs are z3
variables and every check is decided by the solver over all their values;
under ConcH (the replay) the same harness runs the real modules of /repo on
the real numpy / jax / scipy with the values of one counterexample.
"""
import functools
import importlib
import math
import sys
import types
from fractions import Fraction

import numpy as _np

from vx import sym
from vx.sym import PathAbort, Sym, SymBool, is_sym

PKG = 'balloon_learning_environment'


class Ob:
  """One proof obligation: a harness with its bounds."""

  def __init__(self, name, fn, kw=None, bounds='', max_paths=3000, check_ms=20000,
               branch_ms=3000, budget_s=240, need=(), observe=True, known=None,
               max_cands=3):
    self.name, self.fn, self.kw = name, fn, kw or {}
    self.bounds = bounds or (fn.__doc__ or '').strip()
    self.max_paths, self.check_ms = max_paths, check_ms
    self.branch_ms, self.budget_s = branch_ms, budget_s
    self.need = need  # labels that must be reached (vacuity guard)
    self.observe = observe
    self.max_cands = max_cands


class Skip(Exception):
  """Concrete run: the values fall outside the assumptions."""


def unbox(x):
  x = sym.unwrap0(x)
  if isinstance(x, _np.ndarray) and x.size == 1:
    return unbox(x.reshape(()))
  return x


def odd(x):
  """Clearly not a number."""
  return (x is None or isinstance(x, (str, bytes, tuple, list, dict, set,
                                      types.FunctionType, types.MethodType,
                                      functools.partial, type)) or
          (isinstance(x, _np.ndarray) and x.size != 1))


class Base:
  """Shared, mode-independent helpers."""

  def __init__(self):
    self.obs = {}
    self.reached = {}
    self.fixed_draw = None  # name -> value of a random draw, or None

  def choice(self, name, options):
    """One of a finite list; forks (every option is explored)."""
    i = self.int(name, 0, len(options) - 1)
    return options[int(i.__index__())]

  def reals(self, name, n, lo=None, hi=None):
    return [self.real(f'{name}{i}', lo, hi) for i in range(n)]

  # non-forking logic
  def and_(self, *cs):
    r = True
    for c in cs:
      r = self._and(r, c)
    return r

  def or_(self, *cs):
    r = False
    for c in cs:
      r = self._or(r, c)
    return r

  def implies(self, a, b):
    return self._or(self.not_(a), b)

  def between_(self, x, lo, hi):
    return self.and_(x >= lo, x <= hi)

  def iff(self, a, b):
    return self.and_(self.implies(a, b), self.implies(b, a))

  def observe(self, name, value):
    """An output of the code, compared between encoding and real run."""
    v = unbox(value)
    if isinstance(v, _np.ndarray):
      for i, e in enumerate(v.ravel().tolist() if v.dtype != object else
                            list(v.ravel())):
        self.obs[f'{name}[{i}]'] = e
    else:
      self.obs[name] = v

  def reach(self, label):
    self.reached[label] = self.reached.get(label, 0) + 1

  def attempt(self, fn, *a, **k):
    """(True, value) or (False, exception)."""
    try:
      return True, fn(*a, **k)
    except Exception as e:  # pylint: disable=broad-except
      return False, e

  def raises(self, label, exc, fn, *a, **k):
    ok, r = self.attempt(fn, *a, **k)
    self.check(label, (not ok) and isinstance(r, exc))

  def ge(self, label, a, b, tol=1e-9):
    self.le(label, b, a, tol)

  def between(self, label, x, lo, hi, tol=1e-9):
    self.le(label, lo, x, tol)
    self.le(label, x, hi, tol)

  def eq_all(self, label, xs, ys, tol=1e-7):
    xs, ys = list(xs), list(ys)
    self.check(label + '/len', len(xs) == len(ys))
    for x, y in zip(xs, ys):
      self.eq(label, x, y, tol)

  def ns(self, **k):
    return types.SimpleNamespace(**k)


class SymH(Base):
  is_symbolic = True

  def __init__(self, eng, max_cands=3):
    super().__init__()
    from vx import loader, shims
    self.eng = eng
    self.max_cands = max_cands
    self.L = loader.Loader()
    self.shims = shims
    shims.RNG.hook = self._rng
    shims.RNG.log = []
    self.dt = self.L.mods['datetime']
    self.np = self.L.mods['numpy']
    self.math = self.L.mods['math']
    self.jax = self.L.mods['jax']
    self.undo = []
    self.keytab = {}
    self.ranges = {}

  # --- inputs
  def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
    v = self.eng.real(name)
    self.ranges[name] = (lo, hi, False)
    if lo is not None:
      self.eng.assume(v > lo if lo_open else v >= lo)
    if hi is not None:
      self.eng.assume(v < hi if hi_open else v <= hi)
    return v

  def int(self, name, lo=None, hi=None):
    v = self.eng.int(name)
    self.ranges[name] = (lo, hi, True)
    if lo is not None:
      self.eng.assume(v >= lo)
    if hi is not None:
      self.eng.assume(v <= hi)
    return v

  def bool(self, name):
    return self.eng.bool(name)

  def flag(self, name):
    """A concrete Boolean: both values are explored."""
    return bool(self.eng.bool(name))

  def merge_rounding(self):
    """Identify function arguments that differ by rounding (1e-12) only."""
    self.eng.merge = sym.Near()

  def _rng(self, name, lo, hi, integer):
    if name in self.keytab:
      return self.keytab[name]
    if self.fixed_draw is not None:
      v = self.fixed_draw(name)
      if v is not None:
        return v if is_sym(v) else (int(v) if integer else _np.float64(v))
    v = (self.eng.int if integer else self.eng.real)(name)
    if lo is not None:
      self.eng.assume(v >= lo)
    if hi is not None:
      self.eng.assume(v <= hi if (integer or 'beta' in name) else v < hi)
    self.keytab[name] = v
    return v

  def uf(self, name, args, lo=None, hi=None, integer=False):
    """An arbitrary but deterministic environment function."""
    r = self.eng.uf(name, [unbox(a) for a in args], lo=lo, hi=hi,
                    integer=integer)
    return r

  def assume(self, c):
    self.eng.assume(unbox(c))

  # --- logic
  def _and(self, a, b):
    a, b = unbox(a), unbox(b)
    if not is_sym(a):
      return b if a else False
    if not is_sym(b):
      return a if b else False
    return SymBool(sym.z3.And(sym.bterm(a), sym.bterm(b)))

  def _or(self, a, b):
    a, b = unbox(a), unbox(b)
    if not is_sym(a):
      return True if a else b
    if not is_sym(b):
      return True if b else a
    return SymBool(sym.z3.Or(sym.bterm(a), sym.bterm(b)))

  def not_(self, a):
    a = unbox(a)
    return ~a if isinstance(a, SymBool) else not a

  def ite(self, c, a, b):
    return sym.ite(unbox(c), unbox(a), unbox(b))

  def abs(self, x):
    return sym.absolute(unbox(x))

  def min(self, a, b):
    return sym.minimum(unbox(a), unbox(b))

  def max(self, a, b):
    return sym.maximum(unbox(a), unbox(b))

  def known(self, c):
    """Truth of c if decided on this path without forking, else None."""
    c = unbox(c)
    if not is_sym(c):
      return bool(c)
    return self.eng.decided(sym.bterm(c))

  # --- code under test
  def load(self, name):
    return self.L.load(f'{PKG}.{name}')

  def lib(self, name):
    return self.L.load(name)

  def fake(self, name, build, spare=False):
    """Replaces a third-party module for the code loaded afterwards; a spare only where replays have no real one."""
    import types
    parent, _, child = name.rpartition('.')
    m = types.ModuleType(name)
    m.__path__ = []
    build(m)
    if parent:
      self.L.load(parent).__dict__[child] = m
    self.L.mods[name] = m
    return m

  def patch(self, obj, name, val):
    old = getattr(obj, name, None)
    had = hasattr(obj, name)
    setattr(obj, name, val)
    self.undo.append((obj, name, old, had))

  def script_rng(self):
    pass

  def key(self, seed):
    return self.jax.random.PRNGKey(seed)

  def array(self, xs):
    return self.np.array(xs)

  # --- checks
  def check(self, label, cond):
    self.reach(label)
    cond = unbox(cond)
    e = self.eng
    if e.skip.get(label, 0) >= self.max_cands:
      return
    if not is_sym(cond):
      if cond:
        e.stats['on_path'] += 1
        return
      t = sym.z3.BoolVal(True)
    else:
      t = sym.z3.Not(sym.bterm(cond))
    self._violation(label, t)
    if is_sym(cond):
      e.assume(cond)
    else:
      raise PathAbort()

  def _propose(self, label, *targets):
    """Counterexample proposals by local search (each one is replayed)."""
    from vx import probe
    e = self.eng
    if e.fnapps and any(isinstance(k, tuple) and k[0] == 'uf'
                        for k in e.fnapps):
      return 0
    for t in targets:
      pts = probe.search(e, t, self.ranges)
      for p in pts:
        e.candidates.append(dict(label=label, ufs=[], inputs={
            n: str(int(v) if sym.z3.is_int(e.inputs[n]) else Fraction(v))
            for n, v in p.items()}))
      if pts:
        return len(pts)
    return 0

  def _violation(self, label, t):
    e = self.eng
    if e.merge is not None and e.pin is None:
      r, m = e.decide(t, ms=4000)
      if r != 'unsat':
        e.stats['sat'] += 1
        e.skip[label] = self.max_cands
        if m is not None:
          e.candidates.append(dict(label=label, inputs=e.export(m),
                                   ufs=e.export_ufs(m)))
        if not self._propose(label, t) and m is None:
          e.inconclusive.append(f'{label}: solver could not decide')
        return True
    else:
      r, m = e.solve(t)
    if r == 'unsat':
      e.stats['unsat'] += 1
      return False
    if r == 'unknown':
      e.stats['unknown'] += 1
      self._propose(label, t)
      e.inconclusive.append(f'{label}: solver could not decide')
      return True
    e.stats['sat'] += 1
    e.skip[label] = e.skip.get(label, 0) + 1
    for mm in [m] + e.nicer_models(t):
      e.candidates.append(dict(label=label, inputs=e.export(mm),
                               ufs=e.export_ufs(mm)))
    return True

  def eq(self, label, a, b, tol=1e-7):
    self.reach(label)
    a, b = unbox(a), unbox(b)
    e = self.eng
    if e.skip.get(label, 0) >= self.max_cands:
      return
    if odd(a) != odd(b):
      self._violation(label, sym.z3.BoolVal(True))
      raise PathAbort()
    if not is_sym(a) and not is_sym(b):
      ok = _close(a, b, tol)
      if not ok:
        self._violation(label, sym.z3.BoolVal(True))
        raise PathAbort()
      return
    if sym.special(a) or sym.special(b):
      self._violation(label, sym.z3.BoolVal(True))
      raise PathAbort()
    x, y = sym.rterm(a), sym.rterm(b)
    d = sym.z3.simplify(x - y)
    if sym.const_of(d) == 0:
      e.stats['unsat'] += 1
      return
    if e.merge is not None and e.pin is None:
      if e.merge.near(x, y):
        e.stats['unsat'] += 1
        return
      ad = sym.z3.If(d >= 0, d, -d)
      gap = sym.rv(Fraction(2 * tol)) * (1 + sym.z3.If(y >= 0, y, -y))
      if e.decide(ad > gap, ms=4000)[0] == 'unsat':
        e.stats['unsat'] += 1
        return
      # not shown equal: look for a counterexample among probe points
      e.stats['sat'] += 1
      e.skip[label] = self.max_cands
      big = ad > sym.rv(Fraction(1, 100)) * (1 + sym.z3.If(y >= 0, y, -y))
      if not self._propose(label, big, ad > gap):
        e.inconclusive.append(f'{label}: solver could not decide')
      return
    r, _ = e.decide(d != 0, ms=e.check_ms / 4)
    if r == 'unsat':
      e.stats['unsat'] += 1
      return
    ad = sym.z3.If(d >= 0, d, -d)
    yy = sym.z3.If(y >= 0, y, -y)
    gap = sym.rv(Fraction(2 * tol)) * (1 + yy)
    # large differences first: they survive rounding
    if self.eng.pin is None:
      r, m = e.solve(ad > sym.rv(Fraction(1, 100)) * (1 + yy), ms=e.check_ms / 2)
      if r == 'sat':
        e.stats['sat'] += 1
        e.skip[label] = e.skip.get(label, 0) + 1
        e.candidates.append(dict(label=label, inputs=e.export(m),
                                 ufs=e.export_ufs(m)))
        for mm in e.nicer_models(ad > sym.rv(Fraction(1, 100)) * (1 + yy)):
          e.candidates.append(dict(label=label, inputs=e.export(mm),
                                   ufs=e.export_ufs(mm)))
        e.assume(SymBool(ad <= gap))
        return
    self._violation(label, ad > gap)
    e.assume(SymBool(ad <= gap))

  def le(self, label, a, b, tol=1e-9):
    self.reach(label)
    a, b = unbox(a), unbox(b)
    e = self.eng
    if e.skip.get(label, 0) >= self.max_cands:
      return
    if odd(a) != odd(b):
      self._violation(label, sym.z3.BoolVal(True))
      raise PathAbort()
    if not is_sym(a) and not is_sym(b):
      if not (a <= b + 2 * tol * (1 + abs(b))):
        self._violation(label, sym.z3.BoolVal(True))
        raise PathAbort()
      return
    if sym.special(a) or sym.special(b):
      c = sym.compare('<=', a, b)
      if not c:
        self._violation(label, sym.z3.BoolVal(True))
        raise PathAbort()
      return
    x, y = sym.rterm(a), sym.rterm(b)
    d = sym.z3.simplify(x - y)
    r, _ = e.decide(d > 0, ms=e.check_ms / 4)
    if r == 'unsat':
      e.stats['unsat'] += 1
      e.assume(SymBool(d <= 0))
      return
    yy = sym.z3.If(y >= 0, y, -y)
    gap = sym.rv(Fraction(2 * tol)) * (1 + yy)
    for big in (Fraction(1, 100),):
      t = d > sym.rv(big) * (1 + yy)
      r, m = e.solve(t, ms=e.check_ms / 2)
      if r == 'sat':
        e.stats['sat'] += 1
        e.skip[label] = e.skip.get(label, 0) + 1
        for mm in [m] + e.nicer_models(t):
          e.candidates.append(dict(label=label, inputs=e.export(mm),
                                   ufs=e.export_ufs(mm)))
        e.assume(SymBool(d <= gap))
        return
    self._violation(label, d > gap)
    e.assume(SymBool(d <= gap))


def _close(a, b, tol):
  if isinstance(a, (bool, _np.bool_)) or isinstance(b, (bool, _np.bool_)):
    return bool(a) == bool(b)
  try:
    a, b = float(a), float(b)
  except (TypeError, ValueError):
    return a == b
  if math.isnan(a) or math.isnan(b):
    return False
  if math.isinf(a) or math.isinf(b):
    return a == b
  return abs(a - b) <= tol * (1 + abs(b))


class ConcH(Base):
  """The same interface on concrete values and the real code."""
  is_symbolic = False

  def merge_rounding(self):
    pass

  def __init__(self, inputs, ufs=(), repo='/repo'):
    super().__init__()
    self.inputs = inputs
    self.ufs = ufs
    self.violations = []
    import datetime
    self.dt = datetime
    self.np = _np
    self.math = math
    self.undo = []
    self.defaults = []

  @property
  def jax(self):
    import jax
    return jax

  def _get(self, name, default):
    if name in self.inputs:
      return Fraction(self.inputs[name])
    self.defaults.append(name)
    return Fraction(default)

  def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
    d = 0.0
    if lo is not None and d < lo:
      d = lo
    if hi is not None and d > hi:
      d = hi
    v = float(self._get(name, d))
    if lo is not None:
      self.assume(v > lo if lo_open else v >= lo)
    if hi is not None:
      self.assume(v < hi if hi_open else v <= hi)
    return v

  def int(self, name, lo=None, hi=None):
    d = 0
    if lo is not None and d < lo:
      d = lo
    if hi is not None and d > hi:
      d = hi
    v = int(self._get(name, d))
    if lo is not None:
      self.assume(v >= lo)
    if hi is not None:
      self.assume(v <= hi)
    return v

  def bool(self, name):
    return bool(self._get(name, 0))

  flag = bool

  def uf(self, name, args, lo=None, hi=None, integer=False):
    args = [float(a) if not isinstance(a, str) else a for a in args]
    best, bd = None, None
    for (n, vals, out) in self.ufs:
      if n != name or len(vals) != len(args):
        continue
      d = 0.0
      for v, a in zip(vals, args):
        if isinstance(a, str) or isinstance(v, str) and not _isfrac(v):
          if v != a:
            d = math.inf
        else:
          f = float(Fraction(v))
          d = max(d, abs(f - a) / (1 + abs(f)))
      if bd is None or d < bd:
        best, bd = out, d
    if best is not None and bd <= 1e-3:
      r = float(Fraction(best))
      return int(r) if integer else r
    v = 0.0
    if lo is not None and v < lo:
      v = lo
    if hi is not None and v > hi:
      v = hi
    return int(v) if integer else v

  def assume(self, c):
    if not bool(c):
      raise Skip()

  def _and(self, a, b):
    return bool(a) and bool(b)

  def _or(self, a, b):
    return bool(a) or bool(b)

  def not_(self, a):
    return not bool(a)

  def ite(self, c, a, b):
    return a if bool(c) else b

  def abs(self, x):
    return abs(x)

  def min(self, a, b):
    return min(a, b)

  def max(self, a, b):
    return max(a, b)

  def known(self, c):
    return bool(c)

  def load(self, name):
    from vx import pristine
    m = importlib.import_module(f'{PKG}.{name}')
    pristine.note(PKG)
    return m

  def lib(self, name):
    return importlib.import_module(name)

  _FAKES = {}

  def fake(self, name, build, spare=False):
    """As in symbolic runs; stays for the life of the replaying process."""
    import sys
    import types
    if spare:
      try:
        return importlib.import_module(name)
      except ImportError:
        pass
    if name not in self._FAKES:
      parent, _, child = name.rpartition('.')
      m = types.ModuleType(name)
      m.__path__ = []
      build(m)
      if parent:
        setattr(importlib.import_module(parent), child, m)
      sys.modules[name] = m
      self._FAKES[name] = m
    return self._FAKES[name]

  def patch(self, obj, name, val):
    old = getattr(obj, name, None)
    had = hasattr(obj, name)
    setattr(obj, name, val)
    self.undo.append((obj, name, old, had))

  def restore(self):
    for obj, name, old, had in reversed(self.undo):
      if had:
        setattr(obj, name, old)
      else:
        try:
          delattr(obj, name)
        except AttributeError:
          pass
    self.undo = []
    from vx import pristine
    pristine.restore()

  def script_rng(self):
    """Random draws come from the counterexample, keyed by derivation."""
    import jax
    from vx import shims
    r = shims.make_random()
    shims.RNG.log = []
    shims.Key.as_array = True

    def hook(name, lo, hi, integer):
      d = 0 if lo is None else lo
      v = self.fixed_draw(name) if self.fixed_draw else None
      if v is None:
        v = self._get(name, d)
      return int(v) if integer else _np.float64(float(v))
    shims.RNG.hook = hook
    import jax.numpy as jnp

    def wrap(f):
      def g(*a, **k):
        x = f(*a, **k)
        if isinstance(x, _np.ndarray):
          return jnp.asarray(_np.array(x.tolist()))
        return _np.asarray(x)[()] if isinstance(x, (int, float)) else x
      return g
    for n in ('uniform', 'normal', 'beta', 'randint', 'choice', 'bernoulli'):
      self.patch(jax.random, n, wrap(getattr(r, n)))
    for n in ('PRNGKey', 'split', 'fold_in'):
      self.patch(jax.random, n, getattr(r, n))

  def key(self, seed):
    import jax
    return jax.random.PRNGKey(seed)

  def array(self, xs):
    return _np.array([float(unbox(x)) for x in xs]) if all(
        _np.ndim(x) == 0 for x in xs) else _np.array(xs)

  def _fail(self, label, detail=''):
    self.violations.append((label, detail))

  def check(self, label, cond):
    self.reach(label)
    if not bool(unbox(cond)):
      self._fail(label)

  def eq(self, label, a, b, tol=1e-7):
    self.reach(label)
    a, b = unbox(a), unbox(b)
    if odd(a) != odd(b) or not _close(a, b, tol):
      self._fail(label, f'{a!r} != {b!r}')

  def le(self, label, a, b, tol=1e-9):
    self.reach(label)
    a, b = unbox(a), unbox(b)
    if odd(a) != odd(b) or not (a <= b + tol * (1 + abs(b))):
      self._fail(label, f'{a!r} > {b!r}')


def _isfrac(v):
  try:
    Fraction(v)
    return True
  except (ValueError, ZeroDivisionError):
    return False
