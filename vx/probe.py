"""Local search for inputs that satisfy a path condition numerically.

Used only to propose counterexamples where the solver cannot (transcendental
functions): every proposal is replayed against the real code before it counts,
and nothing is concluded when none is found.
"""
import math
import random

import z3

from vx import sym

_K = {
    z3.Z3_OP_ADD: 'add', z3.Z3_OP_SUB: 'sub', z3.Z3_OP_MUL: 'mul',
    z3.Z3_OP_DIV: 'div', z3.Z3_OP_IDIV: 'idiv', z3.Z3_OP_MOD: 'mod',
    z3.Z3_OP_UMINUS: 'neg', z3.Z3_OP_TO_REAL: 'id', z3.Z3_OP_TO_INT: 'floor',
    z3.Z3_OP_POWER: 'pow', z3.Z3_OP_ITE: 'ite', z3.Z3_OP_LE: 'le',
    z3.Z3_OP_GE: 'ge', z3.Z3_OP_LT: 'lt', z3.Z3_OP_GT: 'gt', z3.Z3_OP_EQ: 'eq',
    z3.Z3_OP_AND: 'and', z3.Z3_OP_OR: 'or', z3.Z3_OP_NOT: 'not',
    z3.Z3_OP_IMPLIES: 'imp', z3.Z3_OP_IFF: 'eq', z3.Z3_OP_XOR: 'xor',
}


class Unknown(Exception):
  pass


class Program:
  """A straight-line float program for a set of z3 terms."""

  def __init__(self, inputs, apps, targets):
    self.code = []  # (op, operand slots) per slot
    self.slot = {}
    self.vars = {}
    self.keep = []
    self.fnof = {}
    for name, args, y in apps:
      self.fnof[y.get_id()] = (name, args)
    self.inputs = {v.get_id(): n for n, v in inputs.items()}
    self.targets = [self.emit(t) for t in targets]

  def emit(self, t):
    k = t.get_id()
    if k in self.slot:
      s = self.slot[k]
      if s is None:
        raise Unknown('cycle')
      return s
    self.keep.append(t)
    c = sym.const_of(t)
    if c is not None:
      op = ('const', float(c))
    elif z3.is_true(t) or z3.is_false(t):
      op = ('const', z3.is_true(t))
    elif k in self.inputs:
      op = ('in', self.inputs[k])
    elif k in self.fnof:
      name, args = self.fnof[k]
      op = ('fn', name, [self.emit(a) for a in args])
    elif t.num_args() == 0:
      raise Unknown(str(t))
    else:
      o = _K.get(t.decl().kind())
      if o is None:
        raise Unknown(str(t.decl()))
      op = (o, [self.emit(a) for a in t.children()])
    self.code.append(op)
    self.slot[k] = len(self.code) - 1
    return self.slot[k]

  def run(self, inp):
    """Slot values; Booleans as (truth, distance)."""
    v = []
    for op in self.code:
      o = op[0]
      if o == 'const':
        v.append(op[1])
        continue
      if o == 'in':
        v.append(inp[op[1]])
        continue
      if o == 'fn':
        v.append(_fn(op[1], [v[i] for i in op[2]]))
        continue
      a = [v[i] for i in op[1]]
      if o == 'add':
        r = math.fsum(a)
      elif o == 'mul':
        r = 1.0
        for x in a:
          r *= x
      elif o == 'sub':
        r = a[0] - sum(a[1:])
      elif o == 'div':
        r = a[0] / a[1]
      elif o == 'neg':
        r = -a[0]
      elif o == 'id':
        r = a[0]
      elif o == 'floor':
        r = math.floor(a[0])
      elif o == 'idiv':
        r = a[0] // a[1]
      elif o == 'mod':
        r = a[0] % a[1]
      elif o == 'pow':
        r = a[0]**a[1]
      elif o == 'ite':
        r = a[1] if _t(a[0]) else a[2]
      elif o == 'le' or o == 'lt':
        r = (a[0] - a[1]) if a[0] > a[1] else (0.0 if o == 'le' or
                                               a[0] < a[1] else 1e-12)
      elif o == 'ge' or o == 'gt':
        r = (a[1] - a[0]) if a[1] > a[0] else (0.0 if o == 'ge' or
                                               a[1] < a[0] else 1e-12)
      elif o == 'eq':
        if isinstance(a[0], _B) or isinstance(a[0], bool):
          r = 0.0 if _t(a[0]) == _t(a[1]) else 1.0
        else:
          r = abs(a[0] - a[1])
          if r <= 1e-9 * (1 + abs(a[0])):
            r = 0.0
      elif o == 'and':
        r = sum(_d(x) for x in a)
      elif o == 'or':
        r = min(_d(x) for x in a)
      elif o == 'not':
        r = _neg(a[0])
      elif o == 'imp':
        r = min(_neg(a[0]), _d(a[1]))
      elif o == 'xor':
        r = 0.0 if _t(a[0]) != _t(a[1]) else 1.0
      if o in _BOOL:
        r = _B(r)
        if o in ('le', 'lt', 'ge', 'gt'):
          r.slack = abs(a[0] - a[1])
      v.append(r)
    return v


_BOOL = {'le', 'lt', 'ge', 'gt', 'eq', 'and', 'or', 'not', 'imp', 'xor'}


class _B(float):
  """Distance to truth; 0 is true."""
  slack = 1.0


def _d(x):
  return (0.0 if x else 1.0) if isinstance(x, bool) else float(x)


def _t(x):
  return x if isinstance(x, bool) else x == 0.0


def _neg(x):
  if _t(x):
    return max(getattr(x, 'slack', 1.0), 1e-12)
  return 0.0


def _fn(name, a):
  if isinstance(name, tuple):
    return a[0]**name[1]
  if name == 'sqrt':
    return math.sqrt(max(a[0], 0.0))
  if name == 'atan2':
    return math.atan2(*a)
  return sym.FNS[name].py(a[0])


def search(eng, target, ranges, seconds=4.0, seed=1, want=3):
  """Input assignments (floats) under which pc and target look satisfied."""
  import time
  end = time.time() + seconds
  cons = []
  for c in list(eng.hard) + [target]:
    try:
      Program(eng.inputs, eng.apps_log, [c])
      cons.append(c)
    except Unknown:
      pass
  if not any(c is target for c in cons):
    return []
  prog = Program(eng.inputs, eng.apps_log, cons)
  free = [(n, r) for n, r in ranges.items()
          if n in eng.inputs and r[0] is not None and r[1] is not None]
  if not free or len(free) < len(eng.inputs):
    missing = set(eng.inputs) - {n for n, _ in free}
  else:
    missing = set()
  base = {n: 0.0 for n in missing}
  rnd = random.Random(seed)

  def cost(p):
    q = dict(base)
    q.update(p)
    try:
      v = prog.run(q)
    except (ArithmeticError, ValueError):
      return float('inf')
    t = 0.0
    for s in prog.targets:
      d = _d(v[s])
      t += d / (1 + d) if d > 0 else 0.0
    return t

  def draw():
    return {n: (float(rnd.randint(int(r[0]), int(r[1]))) if r[2] else
                round(r[0] + (r[1] - r[0]) * rnd.random(), 6))
            for n, r in free}

  found = []
  while time.time() < end and len(found) < want:
    best, bc = None, float('inf')
    for _ in range(40):
      p = draw()
      c = cost(p)
      if c < bc:
        best, bc = p, c
      if c == 0.0 or time.time() > end:
        break
    if best is None:
      continue
    step = {n: (r[1] - r[0]) / 4.0 for n, r in free}
    while bc > 0.0 and time.time() < end:
      moved = False
      for n, r in free:
        for s in (1, -1):
          p = dict(best)
          x = p[n] + s * step[n] * rnd.uniform(0.5, 1.0)
          if r[2]:
            x = float(round(x))
          p[n] = min(max(x, float(r[0])), float(r[1]))
          c = cost(p)
          if c < bc:
            best, bc, moved = p, c, True
            break
      if not moved:
        for n, r in free:
          step[n] *= 0.5
        if max(step.values()) < 1e-9:
          break
    if bc == 0.0:
      q = dict(base)
      q.update(best)
      found.append(q)
  return found
