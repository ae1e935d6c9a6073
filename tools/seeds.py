"""Rewrites the table of planted changes in DESIGN.md from their meta.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = '<!-- planted changes -->', '<!-- end planted changes -->'


def main():
  rows = ['| id | caught by | what it breaks | what it needs |',
          '|---|---|---|---|']
  for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append('| {} | {} | {} | {} |'.format(
        f.split('/')[-2], m['property'],
        *(' '.join(m[k].split()).replace('|', '/')
          for k in ('what_it_breaks', 'needs'))))
  p = os.path.join(HERE, 'DESIGN.md')
  s = open(p).read()
  a, b = s.index(BEGIN) + len(BEGIN), s.index(END)
  open(p, 'w').write(s[:a] + '\n\n' + '\n'.join(rows) + '\n\n' + s[b:])


if __name__ == '__main__':
  main()
