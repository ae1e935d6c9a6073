#!/usr/bin/env python3
"""Plants small random changes in scratch copies of /repo and runs the checks.

    tools/mutate.py OUT.jsonl N SEED [FILE-SUBSTRING...]

Each line of OUT tells which checks anchored at the changed file reported it.
Survivors are to be read: the change keeps the behaviour, is outside every
property, or is missed.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VX_REPO', '/repo')
SCRATCH = os.environ.get('SCRATCH', '/tmp/mut')

CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'],
       ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'],
       ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'],
       ast.FloorDiv: ['/'], ast.Mod: ['*'], ast.Pow: ['*']}
NAMES = {'min': 'max', 'max': 'min', 'ceil': 'floor', 'floor': 'ceil',
         'sin': 'cos', 'cos': 'sin', 'argmax': 'argmin', 'maximum': 'minimum',
         'minimum': 'maximum', 'any': 'all', 'all': 'any'}


def mutants(src):
  tree = ast.parse(src)
  lines = src.split('\n')
  off = [0]
  for l in lines:
    off.append(off[-1] + len(l.encode()) + 1)
  raw = src.encode()

  def span(n):
    return (off[n.lineno - 1] + n.col_offset,
            off[n.end_lineno - 1] + n.end_col_offset)

  def text(n):
    a, b = span(n)
    return raw[a:b].decode()
  out = []

  def rep(n, new, why):
    a, b = span(n)
    out.append((n.lineno, why, (raw[:a] + new.encode() + raw[b:]).decode()))

  def visit(n, skip):
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
      for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
        visit(d, skip)
      for s in n.body:
        visit(s, skip)
      return
    if isinstance(n, ast.AnnAssign):
      if n.value:
        visit(n.value, skip)
      return
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
      return
    if isinstance(n, (ast.Import, ast.ImportFrom)):
      return
    if isinstance(n, ast.Raise):
      return
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
      for new in CMP.get(type(n.ops[0]), ()):
        rep(n, f'{text(n.left)} {new} {text(n.comparators[0])}', 'compare')
    if isinstance(n, ast.BinOp) and type(n.op) in BIN:
      if not (isinstance(n.left, ast.Constant) and isinstance(
          n.left.value, str)):
        for new in BIN[type(n.op)]:
          rep(n, f'(({text(n.left)}) {new} ({text(n.right)}))', 'operator')
    if isinstance(n, ast.BoolOp):
      new = ' or ' if isinstance(n.op, ast.And) else ' and '
      rep(n, '(' + new.join('(%s)' % text(v) for v in n.values) + ')', 'bool')
      for i in range(len(n.values)):
        vs = n.values[:i] + n.values[i + 1:]
        sep = ' and ' if isinstance(n.op, ast.And) else ' or '
        rep(n, '(' + sep.join('(%s)' % text(v) for v in vs) + ')', 'term')
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
      rep(n, f'({text(n.operand)})', 'unary')
    if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)):
      v = n.value
      if v is True or v is False:
        rep(n, str(not v), 'constant')
      elif isinstance(v, int):
        rep(n, str(v + 1), 'constant')
        if v > 1:
          rep(n, str(v - 1), 'constant')
      elif isinstance(v, float):
        rep(n, repr(v * 1.05 if v else 0.05), 'constant')
    if isinstance(n, ast.Name) and n.id in NAMES and isinstance(
        n.ctx, ast.Load):
      rep(n, NAMES[n.id], 'name')
    if isinstance(n, ast.Attribute) and n.attr in NAMES:
      rep(n, f'{text(n.value)}.{NAMES[n.attr]}', 'name')
    if isinstance(n, (ast.If, ast.While, ast.IfExp)):
      rep(n.test, f'(not ({text(n.test)}))', 'condition')
      if isinstance(n, ast.If):
        rep(n.test, 'False', 'condition')
    if isinstance(n, (ast.Assign, ast.AugAssign)) and skip:
      t = n.targets[0] if isinstance(n, ast.Assign) else n.target
      if isinstance(n, ast.AugAssign) or isinstance(
          t, (ast.Attribute, ast.Subscript)):
        rep(n, 'pass', 'statement')
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
      rep(n, 'pass', 'statement')
    if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(
        isinstance(a, ast.Starred) for a in n.args):
      for i in range(len(n.args) - 1):
        a, b = n.args[i], n.args[i + 1]
        s0, e0 = span(a)
        s1, e1 = span(b)
        if text(a) != text(b):
          out.append((n.lineno, 'arguments', (
              raw[:s0] + raw[s1:e1] + raw[e0:s1] + raw[s0:e0] + raw[e1:]
          ).decode()))
    for c in ast.iter_child_nodes(n):
      if isinstance(n, ast.arg) or (isinstance(n, ast.ClassDef) and c in
                                    n.decorator_list + n.bases):
        continue
      visit(c, skip)
  visit(tree, True)
  good = []
  for ln, why, new in out:
    try:
      ast.parse(new)
    except SyntaxError:
      continue
    good.append((ln, why, new))
  return good


def anchors():
  m = {}
  for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    for f in p['anchors']['files']:
      m.setdefault(f, set()).add(p['id'])
  na = {(x.get('property') or x.get('id') or x.get('property_id')) if isinstance(x, dict) else x for x in json.load(
      open(os.path.join(HERE, 'MANIFEST.json'))).get('not_applicable', [])}
  # the slow checks last
  slow = ['C24', 'C22', 'C02', 'C03', 'C05', 'C18', 'C08', 'C21']
  return {f: sorted(v - na, key=lambda i: (
      slow.index(i) + 1 if i in slow else 0, i)) for f, v in m.items()
          if v - na}


def run(job):
  k, f, ln, why, new, ids, old = job
  d = os.path.join(SCRATCH, f'm{k}')
  shutil.rmtree(d, ignore_errors=True)
  shutil.copytree(REPO, d, symlinks=True, ignore=shutil.ignore_patterns(
      '.git', 'build', '*.mp4', '*.egg-info', 'docs'))
  with open(os.path.join(d, f), 'w') as h:
    h.write(new)
  v = d + 'v'
  shutil.rmtree(v, ignore_errors=True)
  shutil.copytree(HERE, v, symlinks=True, ignore=shutil.ignore_patterns(
      '.git', 'seeded', 'replays', '__pycache__'))
  import difflib
  diff = ''.join(list(difflib.unified_diff(
      old.splitlines(1), new.splitlines(1), f, f, n=1))[2:])
  res = {}
  t0 = time.time()
  for i in ids:
    env = dict(os.environ, VX_REPO=d)
    try:
      p = subprocess.run(['python3-vt', '-m', 'vx.run', i], cwd=v, env=env,
                         capture_output=True, text=True, timeout=900)
      res[i] = dict(rc=p.returncode, und=p.stdout.count('UNDECIDED'))
      if p.returncode not in (0, 1):
        res[i]['tail'] = (p.stdout + p.stderr)[-600:]
    except subprocess.TimeoutExpired:
      res[i] = dict(rc='timeout')
    if res[i]['rc'] == 1:
      break
  killed = any(r['rc'] == 1 for r in res.values())
  tests = None
  test = f.replace('.py', '_test.py')
  if not killed and os.path.exists(os.path.join(d, test)):
    # A survivor that the module's own tests report is of less interest.
    env = dict(os.environ, PYTHONPATH='/opt/vp/pytest_plugins:' + d,
               PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu',
               TF_CPP_MIN_LOG_LEVEL='3', MPLBACKEND='Agg')
    try:
      p = subprocess.run(
          ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
           'no:cacheprovider', '-p', 'absl_flags', test], cwd=d, env=env,
          capture_output=True, text=True, timeout=300)
      tests = p.stdout.strip().split('\n')[-1][:80]
    except subprocess.TimeoutExpired:
      tests = 'timeout'
  shutil.rmtree(d, ignore_errors=True)
  shutil.rmtree(v, ignore_errors=True)
  return dict(tests=tests, k=k, file=f, line=ln, why=why, diff=diff, res=res,
              killed=killed,
              t=round(time.time() - t0))


def main(argv):
  out, n, seed, subs = argv[0], int(argv[1]), int(argv[2]), argv[3:]
  rnd = random.Random(seed)
  anc = anchors()
  jobs = []
  for f, ids in sorted(anc.items()):
    if subs and not any(s in f for s in subs):
      continue
    if not f.endswith('.py'):
      continue
    old = open(os.path.join(REPO, f)).read()
    ms = mutants(old)
    for ln, why, new in ms:
      jobs.append([f, ln, why, new, ids, old])
  per = {}
  rnd.shuffle(jobs)
  # As many of each file as fit, in turns.
  for j in jobs:
    per.setdefault(j[0], []).append(j)
  pick = []
  while len(pick) < n and any(per.values()):
    for f in sorted(per):
      if per[f] and len(pick) < n:
        pick.append(per[f].pop())
  print(len(jobs), 'mutants,', len(pick), 'run')
  os.makedirs(SCRATCH, exist_ok=True)
  tasks = [(seed * 100000 + k, *j) for k, j in enumerate(pick)]
  with ThreadPoolExecutor(int(os.environ.get('JOBS', 3))) as ex, open(
      out, 'a') as h:
    for r in ex.map(run, tasks):
      h.write(json.dumps(r) + '\n')
      h.flush()


if __name__ == '__main__':
  main(sys.argv[1:])
