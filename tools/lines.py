"""Lines of /repo that no quick check executes symbolically.

    tools/lines.py [IDS...]
"""
import ast
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VX_REPO', '/repo')
OUT = '/tmp/vx_lines'


def code_lines(path):
  seen = set()

  def walk(c):
    for _, _, n in c.co_lines():
      if n:
        seen.add(n)
    for k in c.co_consts:
      if hasattr(k, 'co_lines'):
        walk(k)
  walk(compile(open(path).read(), path, 'exec'))
  for n in ast.walk(ast.parse(open(path).read())):
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
      seen -= set(range(n.lineno, n.end_lineno + 1))
  return seen


def main(ids):
  sys.path.insert(0, HERE)
  from checks import PROPS
  if os.path.exists(OUT):
    os.remove(OUT)
  for i in ids or sorted(PROPS):
    subprocess.run(['python3-vt', '-m', 'vx.run', i], cwd=HERE,
                   env=dict(os.environ, VX_LINES=OUT), capture_output=True)
  hit = {}
  for l in open(OUT):
    f, n = l.rsplit(':', 1)
    hit.setdefault(f, set()).add(int(n))
  os.remove(OUT)
  files = subprocess.check_output(
      ['git', 'ls-files', '*.py'], cwd=REPO, text=True).split()
  for f in files:
    if f.endswith('_test.py') or not f.startswith('balloon_learning'):
      continue
    p = os.path.join(REPO, f)
    want = code_lines(p)
    miss = sorted(want - hit.get(p, set()))
    if miss:
      src = open(p).read().split('\n')
      print(f'== {f}: {len(miss)} of {len(want)}')
      for n in miss:
        print(f'  {n}: {src[n - 1]}')


if __name__ == '__main__':
  main(sys.argv[1:])
