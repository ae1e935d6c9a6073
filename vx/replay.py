"""Replays counterexamples on the real code (run with /opt/venv/bin/python).

usage: python -m vx.replay FILE [--observe OUT]

Exit 1 when a recorded counterexample violates its check on the current
/repo, 0 when none does.
"""
import importlib
import json
import os
import random
import sys
import traceback
import types
import warnings
from fractions import Fraction

os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('CUDA_VISIBLE_DEVICES', '')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
warnings.filterwarnings('ignore')

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class _Z3(types.ModuleType):
  """The replay never builds terms; z3 is not installed next to jax."""

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    return lambda *a, **k: None


def setup():
  sys.path.insert(0, HERE)
  sys.path.insert(0, os.environ.get('VX_REPO', '/repo'))
  try:
    import z3  # pylint: disable=unused-import
  except ImportError:
    sys.modules['z3'] = _Z3('z3')


def find_ob(prop, name):
  from checks import PROPS
  mod = importlib.import_module('checks.' + PROPS.get(prop, prop))
  for tier in ('quick', 'thorough'):
    for ob in mod.obligations(tier):
      if ob.name == name:
        return ob
  raise SystemExit(f'unknown obligation {prop}/{name}')


def run_one(ob, cand):
  """(violations, skipped, H) of one concrete run."""
  from vx import api
  h = api.ConcH(cand['inputs'], cand.get('ufs', ()))
  try:
    ob.fn(h, **ob.kw)
  except api.Skip:  # what failed before the assumption still counts
    return h.violations, True, h
  except Exception as e:  # pylint: disable=broad-except
    h.violations.append((f'exception:{type(e).__name__}',
                         traceback.format_exc(limit=-6)))
  finally:
    h.restore()
  return h.violations, False, h


def jitters(cand, n=24):
  rnd = random.Random(1)
  keys = [k for k, v in cand['inputs'].items() if '/' in v or '.' in v or
          cand.get('reals') is None or k in cand.get('reals', ())]
  for i in range(n):
    c = dict(cand)
    mag = [1e-12, 1e-9, 1e-6, 1e-4][i % 4]
    ins = dict(cand['inputs'])
    for k in keys:
      f = Fraction(ins[k])
      if f.denominator == 1 and k not in cand.get('reals', ()):
        continue
      s = rnd.choice([-1, 0, 1]) if i >= 8 else (1 if i % 2 else -1)
      ins[k] = str(f + Fraction(s * mag) * (1 + abs(f)))
    c['inputs'] = ins
    yield c


def main(argv):
  setup()
  with open(argv[0]) as f:
    doc = json.load(f)
  if doc.get('mode') == 'observe':
    out = []
    for rec in doc['runs']:
      ob = find_ob(doc['property'], rec['obligation'])
      v, skipped, h = run_one(ob, rec)
      obs = {}
      for k, x in h.obs.items():
        try:
          obs[k] = float(x)
        except (TypeError, ValueError):
          obs[k] = str(x)
      out.append(dict(skipped=skipped, violations=[list(map(str, z)) for z in v],
                      obs=obs, reached=h.reached))
    with open(argv[1], 'w') as f:
      json.dump(out, f)
    return 0
  ob = find_ob(doc['property'], doc['obligation'])
  label = doc['label']
  hit = None
  tried = 0
  cands = list(doc['candidates'])
  more = []
  for c in cands:
    more.extend(jitters(c))
  for c in cands + more:
    tried += 1
    v, skipped, _ = run_one(ob, c)
    same = [x for x in v if x[0] == label or (label.startswith('exception:')
                                              and x[0].startswith('exception'))]
    if same:
      hit = (c, same[0])
      break
  if hit:
    c, (lab, detail) = hit
    print(f'REPRODUCED {doc["property"]} {doc["obligation"]} {lab}')
    print('inputs:', json.dumps({k: float(Fraction(v)) for k, v in
                                 c['inputs'].items()}))
    if detail:
      print(detail)
    if len(argv) > 1:
      with open(argv[1], 'w') as f:
        json.dump(dict(candidate=c, label=lab, detail=detail), f)
    return 1
  print(f'not reproduced ({tried} runs)')
  return 0


if __name__ == '__main__':
  sys.exit(main(sys.argv[1:]))
