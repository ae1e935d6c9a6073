"""Development aid: runs harnesses on the real code at random inputs.

/opt/venv/bin/python tools/conc.py PROP [N] [OB]   (from /verif)
Not part of any check's verdict; it validates harnesses and shims.
"""
import os
import random
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vx import replay  # pylint: disable=g-import-not-at-top
replay.setup()
from vx import api  # pylint: disable=g-import-not-at-top


class RandH(api.ConcH):

  def __init__(self, seed):
    super().__init__({}, ())
    self.rnd = random.Random(seed)
    self.memo, self.log = {}, {}

  def _v(self, name, f):
    if name not in self.log:
      self.log[name] = f()
    return self.log[name]

  def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
    a, b = -1e3 if lo is None else lo, 1e3 if hi is None else hi
    return self._v(name, lambda: self.rnd.choice(
        [self.rnd.uniform(a, b)] * 9 + ([a] if not lo_open else []) +
        ([b] if not hi_open else [])))

  def int(self, name, lo=None, hi=None):
    return self._v(name, lambda: self.rnd.randint(
        -1000 if lo is None else lo, 1000 if hi is None else hi))

  def bool(self, name):
    return self._v(name, lambda: self.rnd.random() < .5)
  flag = bool

  def _get(self, name, d):
    if 'uniform' in name or 'beta' in name:
      return self._v(name, self.rnd.random)
    if 'normal' in name:
      return self._v(name, lambda: self.rnd.gauss(0, 1))
    return self._v(name, lambda: self.rnd.randint(0, 3))

  def uf(self, name, args, lo=None, hi=None, integer=False):
    k = (name,) + tuple(round(float(a), 5) if not isinstance(a, str) else a
                        for a in args)
    if k not in self.memo:
      a, b = -1e3 if lo is None else lo, 1e3 if hi is None else hi
      self.memo[k] = (self.rnd.randint(int(a), int(b)) if integer else
                      self.rnd.uniform(a, b))
    return self.memo[k]


def main():
  import importlib
  from checks import PROPS
  prop = sys.argv[1]
  n = int(sys.argv[2]) if len(sys.argv) > 2 else 20
  mod = importlib.import_module('checks.' + PROPS.get(prop, prop))
  for ob in mod.obligations('quick'):
    if len(sys.argv) > 3 and sys.argv[3] not in ob.name:
      continue
    ran = skip = 0
    bad = {}
    reached = {}
    for s in range(n):
      h = RandH(s)
      try:
        ob.fn(h, **ob.kw)
        ran += 1
      except api.Skip:
        skip += 1
      except Exception:  # pylint: disable=broad-except
        bad.setdefault('exception', traceback.format_exc(limit=-5))
      finally:
        h.restore()
      for k, v in h.reached.items():
        reached[k] = reached.get(k, 0) + v
      for lab, d in h.violations:
        bad.setdefault(lab, (d, {k: v for k, v in list(h.log.items())[:12]}))
    print(f'{ob.name}: ran {ran} skipped {skip} labels {len(reached)}'
          f' {"BAD" if bad else "ok"}', flush=True)
    for k, v in bad.items():
      print('   ', k, v)


if __name__ == '__main__':
  main()
