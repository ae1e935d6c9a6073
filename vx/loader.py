"""Loads /repo's modules onto the shims, freshly for every explored path."""
import builtins
import importlib.machinery
import importlib.util
import os
import sys
import types

import numpy as np

from vx import arr, shims, sym
from vx.arr import SArr
from vx.sym import Sym, SymBool, is_sym

REPO = os.environ.get('VX_REPO', '/repo')
VENV = '/opt/venv/lib/python3.12/site-packages'
PKG = 'balloon_learning_environment'
_CODE = {}

# ----------------------------------------------------------------- builtins


class _NumMeta(type):

  def __instancecheck__(cls, x):
    return v_isinstance(x, cls._vx_py)

  def __subclasscheck__(cls, c):
    return issubclass(c, cls._vx_py)

  def __call__(cls, *a, **k):
    return cls._vx_call(*a, **k)

  def __eq__(cls, o):
    return o is cls or o is cls._vx_py

  def __hash__(cls):
    return hash(cls._vx_py)

  def __getattr__(cls, n):
    return getattr(cls._vx_py, n)

  def __repr__(cls):
    return repr(cls._vx_py)

  def __or__(cls, o):
    import typing
    return typing.Union[cls._vx_py, o]

  __ror__ = __or__


def _fl(x=0.0):
  x = sym.unwrap0(x)
  if isinstance(x, SArr) and x.size == 1:
    x = x.item()
  if is_sym(x):
    return sym.to_float(x)
  if isinstance(x, shims.Key):
    raise TypeError('float() of a key')
  return float(x)


def _in(x=0, *a, **k):
  if a or k:
    return int(x, *a, **k)
  x = sym.unwrap0(x)
  if isinstance(x, SArr) and x.size == 1:
    x = x.item()
  if is_sym(x):
    return sym.trunc(x)
  return int(x)


def _cls(name, py, call, dtype):
  return _NumMeta(name, (), {'_vx_py': py, '_vx_call': staticmethod(call),
                             '_vx_dtype': np.dtype(dtype),
                             'dtype': np.dtype(dtype), '__doc__': None})


v_float = _cls('float', float, _fl, float)
v_int = _cls('int', int, _in, int)


def v_isinstance(x, c):
  if isinstance(c, tuple):
    return any(v_isinstance(x, e) for e in c)
  py = getattr(c, '_vx_py', None) if isinstance(c, _NumMeta) else c
  if py is None:
    py = c
  if isinstance(x, Sym):
    if py is float:
      return not x.is_int
    if py is int:
      return x.is_int
    if py in (Sym, object):
      return True
    import numbers
    if py in (numbers.Number, numbers.Real, numbers.Complex):
      return True
    if py in (numbers.Integral, numbers.Rational):
      return x.is_int
    if isinstance(py, (shims.npshim._AbstractMeta,)):
      return isinstance(x, py)
    return False
  if isinstance(x, SymBool):
    return py in (bool, int, SymBool, object)
  if isinstance(py, types.UnionType):
    return any(v_isinstance(x, e) for e in py.__args__)
  if isinstance(x, shims.Key) and py is np.ndarray:
    return True
  return isinstance(x, py)


def _nums(xs):
  return all(is_sym(x) or isinstance(x, sym._NUM) for x in xs) and any(
      is_sym(x) for x in xs)


def v_min(*a, **k):
  xs = list(a[0]) if len(a) == 1 else list(a)
  if not k and xs and _nums(xs):
    r = xs[0]
    for x in xs[1:]:
      r = sym.minimum(r, x)
    return r
  if len(a) == 1 and not isinstance(a[0], (list, tuple, dict, set, np.ndarray,
                                           str)):
    return min(xs, **k)
  return min(*a, **k)


def v_max(*a, **k):
  xs = list(a[0]) if len(a) == 1 else list(a)
  if not k and xs and _nums(xs):
    r = xs[0]
    for x in xs[1:]:
      r = sym.maximum(r, x)
    return r
  if len(a) == 1 and not isinstance(a[0], (list, tuple, dict, set, np.ndarray,
                                           str)):
    return max(xs, **k)
  return max(*a, **k)


def v_pow(a, b, *m):
  if m:
    return pow(a, b, *m)
  return a**b


def v_print(*a, **k):
  return None


def _drem(real):
  def drem(x, y):
    x, y = sym.unwrap0(x), sym.unwrap0(y)
    if not is_sym(x) and not is_sym(y):
      return real(x, y)
    return sym.sub(x, sym.mul(y, sym.round_(sym.div(x, y))))
  return drem


class Loader:
  """One import universe (fresh per explored path)."""

  def __init__(self, overrides=None):
    self.mods = {}
    self.shims = shims.all_shims()
    for n, m in list(self.shims.items()):
      self.mods[n] = m
      self._subs(n, m)
    fut = types.ModuleType('future')
    fb = types.ModuleType('future.builtins')
    fb.int, fb.range = v_int, range
    fut.builtins = fb
    fut.__path__ = []
    self.mods['future'], self.mods['future.builtins'] = fut, fb
    for n, m in (overrides or {}).items():
      self.mods[n] = m
      if '.' in n:
        p, c = n.rsplit('.', 1)
        if p in self.mods:
          setattr(self.mods[p], c, m)
    b = dict(builtins.__dict__)
    b.update({'float': v_float, 'int': v_int, 'isinstance': v_isinstance,
              'min': v_min, 'max': v_max, 'pow': v_pow, 'print': v_print,
              '__import__': self._import})
    self.builtins = b
    self.sources = {}

  def _subs(self, n, m):
    for k, v in list(m.__dict__.items()):
      if isinstance(v, types.ModuleType) and not isinstance(v, shims.Stub):
        if v.__name__ == f'{n}.{k}':
          self.mods[v.__name__] = v
          self._subs(v.__name__, v)

  # -- locating ---------------------------------------------------------------
  def _find(self, name):
    if name.split('.')[0] == PKG:
      base = os.path.join(REPO, *name.split('.'))
    elif name.split('.')[0] == 's2sphere':
      base = os.path.join(VENV, *name.split('.'))
    elif name.split('.')[0] in ('transitions', 'six'):
      base = os.path.join(VENV, *name.split('.'))
    else:
      return None
    if os.path.isdir(base):
      return os.path.join(base, '__init__.py'), True
    if os.path.exists(base + '.py'):
      return base + '.py', False
    return None

  def _own(self, name):
    r = name.split('.')[0]
    return r in (PKG, 's2sphere') or r in self.mods

  def load(self, name):
    m = self.mods.get(name)
    if m is not None:
      return m
    root = name.split('.')[0]
    if root in self.shims and root not in (PKG, 's2sphere'):
      # sub-module of a shim
      parent, _, child = name.rpartition('.')
      if not parent:
        return self.mods[root]
      p = self.load(parent)
      m = getattr(p, child)
      self.mods[name] = m
      return m
    if '.' in name:
      self.load(name.rpartition('.')[0])
    f = self._find(name)
    if f is None:
      raise ModuleNotFoundError(f'No module named {name!r}', name=name)
    path, ispkg = f
    m = types.ModuleType(name)
    m.__file__ = path
    m.__package__ = name if ispkg else name.rpartition('.')[0]
    m.__builtins__ = self.builtins
    m.__dict__['__builtins__'] = self.builtins
    if ispkg:
      m.__path__ = [os.path.dirname(path)]
    self.mods[name] = m
    if name == PKG or not os.path.exists(path):
      pass  # the package root only registers the gym id
    else:
      self._exec(m, path)
    if name == 's2sphere.sphere':
      m.drem = _drem(m.drem)
    if '.' in name:
      p, c = name.rsplit('.', 1)
      setattr(self.mods[p], c, m)
    return m

  def _exec(self, m, path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    code = _CODE.get(key)
    if code is None:
      with open(path, encoding='utf-8') as fh:
        code = compile(fh.read(), path, 'exec', dont_inherit=True)
      _CODE[key] = code
    if path.startswith(REPO):
      self.sources[m.__name__] = path
    # dataclasses / typing look modules up in sys.modules by name
    prev = sys.modules.get(m.__name__)
    sys.modules[m.__name__] = m
    try:
      exec(code, m.__dict__)  # pylint: disable=exec-used
    except BaseException:
      self.mods.pop(m.__name__, None)
      raise
    finally:
      if prev is None:
        sys.modules.pop(m.__name__, None)
      else:
        sys.modules[m.__name__] = prev

  def _import(self, name, globals=None, locals=None, fromlist=(), level=0):  # pylint: disable=redefined-builtin
    if level:
      pkg = globals.get('__package__') or globals['__name__']
      base = pkg.split('.')
      base = base[:len(base) - (level - 1)]
      name = '.'.join(base + ([name] if name else []))
    root = name.split('.')[0]
    if root in ('transitions', 'six'):
      _install_transitions()
      return __import__(name, globals, locals, fromlist, 0)
    if not self._own(name):
      return __import__(name, globals, locals, fromlist, 0)
    m = self.load(name)
    if not fromlist:
      return self.mods[root]
    for f in fromlist:
      if f == '*':
        continue
      if not hasattr(m, f):
        self.load(f'{name}.{f}')
    return m


class _Finder:
  """Exposes only transitions/six from the repository's environment."""

  def find_spec(self, name, path=None, target=None):
    if name.split('.')[0] not in ('transitions', 'six'):
      return None
    return importlib.machinery.PathFinder.find_spec(
        name, path if path is not None else [VENV])


def _install_transitions():
  if not any(isinstance(f, _Finder) for f in sys.meta_path):
    sys.meta_path.append(_Finder())
