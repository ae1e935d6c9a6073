"""Rewrites the generated section of DESIGN.md from the checks themselves."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
BEGIN, END = '<!-- generated by tools/design.py -->', '<!-- end generated -->'


def main():
  from checks import PROPS
  title = {}
  for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    title[p['id']] = p
  out = []
  for i in sorted(PROPS):
    m = importlib.import_module('checks.' + PROPS[i])
    n = [len(m.obligations(t)) for t in ('quick', 'thorough')]
    out.append(f'### {i} {title[i]["title"]}\n')
    out.append(f'`checks/{PROPS[i]}.py`, {n[0]} obligations quick, {n[1]} '
               'thorough. Anchored in ' + ', '.join(
                   f'`{f.replace("balloon_learning_environment/", "")}`'
                   for f in title[i]['anchors']['files']) + '.\n')
    seen = set()
    for tier in ('quick', 'thorough'):
      for o in m.obligations(tier):
        if o.fn in seen:
          continue
        seen.add(o.fn)
        doc = ' '.join((o.fn.__doc__ or '').split())
        out.append(f'* `{o.fn.__name__}`: {doc}' if doc else
                   f'* `{o.fn.__name__}`')
    out.append('')
  p = os.path.join(HERE, 'DESIGN.md')
  s = open(p).read()
  a, b = s.index(BEGIN) + len(BEGIN), s.index(END)
  open(p, 'w').write(s[:a] + '\n\n' + '\n'.join(out) + '\n' + s[b:])


if __name__ == '__main__':
  main()
