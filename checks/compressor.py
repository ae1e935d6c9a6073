"""The altitude control system's compressor and the power allowed for it."""
from vx.api import Ob

RATIOS = [1.05 + 0.025 * i for i in range(13)]
POWERS = [100.0, 200.0, 300.0, 400.0]
# efficiency by power (rows) and pressure ratio (columns)
FAN = [
    [0.4, 0.4, 0.3, 0.2, 0.2, 0, 0, 0, 0, 0, 0, 0, 0],
    [0.4, 0.3, 0.3, 0.30, 0.25, 0.23, 0.20, 0.15, 0.12, 0.10, 0, 0, 0],
    [0, 0.3, 0.25, 0.25, 0.25, 0.20, 0.20, 0.20, 0.2, 0.15, 0.13, 0.12, 0.11],
    [0, 0.23, 0.23, 0.23, 0.23, 0.23, 0.20, 0.20, 0.20, 0.18, 0.16, 0.15, 0.13],
]
# the same numbers as interp2d reads them: powers vary fastest
FLAT = [x for row in FAN for x in row]
READ = [[FLAT[4 * i + j] for i in range(13)] for j in range(4)]
ROWS = 'each row of the efficiency table is one power'


def cell(v, grid):
  i = 0
  while i < len(grid) - 2 and v >= grid[i + 1]:
    i += 1
  return i


def bilinear(H, t, r, w):
  r = H.min(H.max(r, RATIOS[0]), RATIOS[-1])
  w = min(max(w, POWERS[0]), POWERS[-1])
  i, j = cell(r, RATIOS), cell(w, POWERS)
  u = (r - RATIOS[i]) / (RATIOS[i + 1] - RATIOS[i])
  v = (w - POWERS[j]) / (POWERS[j + 1] - POWERS[j])
  lo = t[j][i] + u * (t[j][i + 1] - t[j][i])
  hi = t[j + 1][i] + u * (t[j + 1][i + 1] - t[j + 1][i])
  return lo + v * (hi - lo)


def power(H):
  """Two pressure ratios free in 0.5..5."""
  acs = H.load('env.balloon.acs')
  r = H.real('ratio', 0.5, 5.0)
  p = acs.get_most_efficient_power(r).watts
  q = H.ite(r <= 1.05, 100.0, H.ite(r <= 1.2, 100.0 + (r - 1.05) * 200.0 / 0.15,
            H.ite(r <= 1.25, 300.0 + (r - 1.2) * 2000.0, 400.0)))
  H.between('power by pressure ratio', p - q, -1e-6, 1e-6)
  H.between('between 100 W and 400 W', p, 100.0, 400.0, 1e-6)
  s = H.real('higher', 0.5, 5.0)
  H.assume(s >= r)
  H.le('a higher ratio never needs less', p,
       acs.get_most_efficient_power(s).watts, 1e-6)


def efficiency(H, watts):
  """The pressure ratio free in 0.5..5; the power fixed."""
  acs = H.load('env.balloon.acs')
  un = H.load('utils.units')
  r = H.real('ratio', 0.5, 5.0)
  e = acs.get_fan_efficiency(r, un.Power(watts=watts))
  H.between('between none and 40 %', e, 0.0, 0.4, 1e-6)
  a, b = bilinear(H, FAN, r, watts), bilinear(H, READ, r, watts)
  H.check('interpolates the table, by rows or by columns', H.or_(
      H.abs(e - a) < 1e-6, H.abs(e - b) < 1e-6))


def rows(H):
  """200 W; the pressure ratio free in the middle of the table.  Known to fail."""
  acs = H.load('env.balloon.acs')
  un = H.load('utils.units')
  r = H.real('ratio', 1.05, 1.35)
  e = acs.get_fan_efficiency(r, un.Power(watts=200.0))
  H.check(ROWS, H.abs(e - bilinear(H, FAN, r, 200.0)) < 1e-6)


def corners(H):
  """Beyond the table its edge holds."""
  acs = H.load('env.balloon.acs')
  un = H.load('utils.units')
  lo, hi = H.real('lo', 0.5, 1.05), H.real('hi', 1.3501, 5.0)
  weak, strong = H.real('weak', 0.0, 100.0), H.real('strong', 400.0, 1000.0)
  H.eq('slow and weak', acs.get_fan_efficiency(lo, un.Power(watts=weak)), 0.4,
       1e-6)
  H.eq('fast and strong', acs.get_fan_efficiency(hi, un.Power(watts=strong)),
       0.13, 1e-6)


def flow(H):
  """Power free, efficiency from a list; and the other way round."""
  acs = H.load('env.balloon.acs')
  un = H.load('utils.units')
  w, e = H.real('watts', 0.0, 500.0), H.choice('e', [0.0, 0.11, 0.25, 0.4])
  H.eq('mass flow', acs.get_mass_flow(un.Power(watts=w), e), e * w / 3600.0,
       1e-9)
  e, w = H.real('efficiency', 0.0, 0.5), H.choice('w', [100.0, 237.5, 400.0])
  H.eq('mass flow', acs.get_mass_flow(un.Power(watts=w), e), e * w / 3600.0,
       1e-9)


TABLE = [  # pressure ratio up to, states of charge, powers between them
    (1.08, [0.3, 0.4, 0.5], [0, 150, 175, 200]),
    (1.11, [0.3, 0.4, 0.7], [0, 200, 200, 225]),
    (1.14, [0.3, 0.4, 0.6], [0, 225, 225, 250]),
    (1.17, [0.3, 0.4, 0.5], [0, 200, 225, 250]),
    (1.2, [0.3, 0.4, 0.5], [0, 225, 250, 275]),
    (1.23, [0.4, 0.5], [0, 275, 300]),
    (1.26, [0.5, 0.6], [0, 300, 325]),
    (9.0, [0.5, 0.6], [0, 325, 350])]


def allowed(H):
  """Pressure ratio and state of charge free."""
  pt = H.load('env.balloon.power_table')
  r, s = H.real('ratio', 0.0, 6.0), H.real('soc', 0.0, 1.0)
  ok, got = H.attempt(pt.lookup, r, s)
  H.check('only for ratios from 0.99 to 5', H.iff(
      ok, H.between_(r, 0.99, 5.0)))
  if not ok:
    return
  for top, socs, powers in TABLE:
    if r < top:
      want = powers[0]
      for c, p in zip(socs, powers[1:]):
        want = H.ite(s >= c, p, want)
      break
  H.check('the power allowed', got == want)
  if s < 0.3:
    H.check('none below 30 % charge', got == 0)
  t = H.real('fuller', 0.0, 1.0)
  H.assume(t >= s)
  H.le('a fuller battery never allows less', got, pt.lookup(r, t))


def memory(H):
  """Asking does not change the answers."""
  acs = H.load('env.balloon.acs')
  un = H.load('utils.units')
  r, q = H.real('ratio', 0.9, 1.5), H.real('other', 0.9, 1.5)
  a = acs.get_most_efficient_power(r).watts
  e = acs.get_fan_efficiency(r, un.Power(watts=150.0))
  acs.get_most_efficient_power(q)
  acs.get_fan_efficiency(q, un.Power(watts=390.0))
  H.eq('power', acs.get_most_efficient_power(r).watts, a, 1e-9)
  H.eq('efficiency', acs.get_fan_efficiency(r, un.Power(watts=150.0)), e, 1e-9)


def neighbours(H):
  """Ratios (from a list), and powers, a little apart, asked in any order: each answer is the table's own."""
  acs = H.load('env.balloon.acs')
  un = H.load('utils.units')
  r = H.choice('ratio', [1.0811, 1.1312, 1.1963, 1.2204])
  for d in (0.0, 0.00004, 0.0006, 0.004, 0.03, -0.0006, -0.004, 0.0):
    s = r + d
    want = 100.0 + (s - 1.05) * 200.0 / 0.15 if s <= 1.2 else (
        min(400.0, 300.0 + (s - 1.2) * 2000.0))
    H.eq('power', acs.get_most_efficient_power(s).watts, want, 1e-9)
    for w in (150.0, 150.004, 150.4, 153.0, 190.0, 150.0):
      e = acs.get_fan_efficiency(s, un.Power(watts=w))
      H.check('efficiency', H.or_(*[
          H.abs(e - bilinear(H, t, s, w)) < 1e-9 for t in (FAN, READ)]))


def obligations(tier):
  obs = [Ob('power', power), Ob('corners', corners), Ob('flow', flow),
         Ob('allowed', allowed), Ob('rows', rows), Ob('memory', memory),
         Ob('neighbours', neighbours)]
  ws = [0.0, 100.0, 133.0, 200.0, 266.5, 300.0, 351.0, 400.0, 450.0]
  if tier == 'thorough':
    ws = sorted(set(ws + [100.0 + 12.5 * i for i in range(25)]))
  for w in ws:
    obs.append(Ob(f'efficiency_{w:g}', efficiency, dict(watts=w)))
  return obs
