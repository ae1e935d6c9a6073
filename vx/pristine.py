"""Puts modules of the code under test back to how they were when imported.

A replaying process runs many candidates; what an earlier one left in module
globals, class attributes, function attributes, default arguments or memo caches
must not decide a later one.
"""
import sys
import types

_BOX = (dict, list, set, bytearray)
_SEEN = {}


def _holders(m):
  yield m
  for v in list(vars(m).values()):
    if isinstance(v, type) and v.__module__ == m.__name__:
      yield v
      for f in list(vars(v).values()):
        f = getattr(f, '__func__', f)
        if isinstance(f, types.FunctionType):
          yield f
    elif isinstance(v, types.FunctionType) and v.__module__ == m.__name__:
      yield v


def _attrs(o):
  return {k: v for k, v in vars(o).items()
          if not (k.startswith('__') and k.endswith('__'))}


def _copy(v):
  """A copy two levels deep of a plain container."""
  if type(v) not in _BOX:
    return v
  if isinstance(v, dict):
    return {k: (type(x)(x) if type(x) in _BOX else x) for k, x in v.items()}
  if isinstance(v, list):
    return [type(x)(x) if type(x) in _BOX else x for x in v]
  return type(v)(v)


def _fill(v, was):
  was = _copy(was)
  if isinstance(v, dict):
    v.clear()
    v.update(was)
  elif isinstance(v, set):
    v.clear()
    v |= was
  else:
    v[:] = was


def note(prefix):
  """Remembers every module of the package imported since the last call."""
  for name, m in list(sys.modules.items()):
    if (name == prefix or name.startswith(prefix + '.')) and (
        name not in _SEEN) and isinstance(m, types.ModuleType):
      spec = getattr(m, '__spec__', None)
      if spec is None or getattr(spec, '_initializing', False):
        continue
      snap = []
      for o in _holders(m):
        at = _attrs(o)
        boxes = [(v, _copy(v)) for v in at.values() if type(v) in _BOX]
        for d in (getattr(o, '__defaults__', None) or ()) if isinstance(
            o, types.FunctionType) else ():
          if type(d) in _BOX:
            boxes.append((d, _copy(d)))
        snap.append((o, at, boxes))
      _SEEN[name] = snap


def restore():
  for snap in _SEEN.values():
    for o, at, boxes in snap:
      if isinstance(o, types.ModuleType):
        now = vars(o)
        for k in [k for k in _attrs(o) if k not in at]:
          if not isinstance(now[k], types.ModuleType):
            del now[k]
        for k, v in at.items():
          if now.get(k, o) is not v:
            now[k] = v
      else:
        for k, v in _attrs(o).items():
          try:
            if k not in at:
              delattr(o, k)
            elif at[k] is not v:
              setattr(o, k, at[k])
          except (AttributeError, TypeError):
            pass
      for v, was in boxes:
        _fill(v, was)
      for v in at.values():
        f = getattr(v, 'cache_clear', None)
        if callable(f):
          f()
