"""Standard atmosphere: the layer equations and their inverse."""
import math
from vx.api import Ob

H_TR = [-610.0, 17000.0, 21000.0, 32000.0, 47000.0, 51000.0, 71000.0, 85000.0]
LOW = [-0.007, 0.006, 0.001, 0.0028, 0.0, -0.0028, -0.002]
HIGH = [-0.0058, 0.005, 0.001, 0.0028, 0.0, -0.0028, -0.002]
G, R = 9.80665, 8.3144621 / 0.028964922481160


class Reference:
  """US Standard Atmosphere layers for one lapse mix."""

  def __init__(self, alpha):
    self.L = [(1 - alpha) * a + alpha * b for a, b in zip(LOW, HIGH)]
    self.T = [300.0]
    self.P = [108870.8213]
    for i, lapse in enumerate(self.L):
      dh = H_TR[i + 1] - H_TR[i]
      t = self.T[-1] + lapse * dh
      if lapse == 0.0:
        p = self.P[-1] * math.exp(-G * dh / (R * t))
      else:
        p = self.P[-1] * (t / self.T[-1])**(-G / (R * lapse))
      self.T.append(t)
      self.P.append(p)


def make(H, alpha):
  sa = H.load('env.balloon.standard_atmosphere')
  H.script_rng()
  # the object has served another episode before
  H.fixed_draw = lambda name: 0.8125
  atm = sa.Atmosphere(H.key(0))
  H.fixed_draw = lambda name: alpha
  atm.reset(H.key(1))
  return atm, Reference(alpha), H.load('utils.units')


def at_pressure(H, alpha, i):
  """Pressure free in layer i (1e-6 relative off its ends): temperature, density and height of the layer equations, height within the layer."""
  atm, ref, units = make(H, alpha)
  lo, hi = ref.P[i + 1], ref.P[i]
  p = H.real('p', lo * (1 + 1e-6), hi * (1 - 1e-6))
  v = atm.at_pressure(p)
  h = v.height.m
  H.eq('pressure', v.pressure, p)
  H.between('height within the layer', h, H_TR[i], H_TR[i + 1], 1e-6)
  T = ref.T[i] + ref.L[i] * (h - H_TR[i])
  H.eq('temperature', v.temperature, T, 1e-7)
  H.eq('density', v.density * R * v.temperature, p, 1e-7)
  if ref.L[i] == 0.0:
    H.eq('barometric law', h - H_TR[i], -R * ref.T[i] / G * H.math.log(
        p / ref.P[i]), 1e-7)
  else:
    ratio = (p / ref.P[i])**(-R * ref.L[i] / G)
    H.eq('barometric law', T, ratio * ref.T[i], 1e-7)
  H.observe('h', h)


def at_height(H, alpha, i):
  """Height free in layer i: temperature, density and pressure of the layer equations, pressure within the layer."""
  atm, ref, units = make(H, alpha)
  h = H.real('h', H_TR[i] + 1e-3, H_TR[i + 1] - 1e-3)
  v = atm.at_height(units.Distance(m=h))
  H.eq('height', v.height.m, h)
  T = ref.T[i] + ref.L[i] * (h - H_TR[i])
  H.eq('temperature', v.temperature, T)
  H.between('pressure within the layer', v.pressure, ref.P[i + 1], ref.P[i],
            1e-6)
  H.eq('density', v.density * R * v.temperature, v.pressure)
  if ref.L[i] == 0.0:
    want = ref.P[i] * H.math.exp(-G * (h - H_TR[i]) / (R * T))
  else:
    want = ref.P[i] * (T / ref.T[i])**(-G / (R * ref.L[i]))
  H.eq('barometric law', v.pressure, want, 1e-7)
  H.observe('p', v.pressure)


def round_trip(H, alpha, i):
  """at_height(at_pressure(p)) returns p, p free in layer i."""
  atm, ref, units = make(H, alpha)
  lo, hi = ref.P[i + 1], ref.P[i]
  p = H.real('p', lo * (1 + 1e-6), hi * (1 - 1e-6))
  a = atm.at_pressure(p)
  b = atm.at_height(a.height)
  H.eq('same pressure', b.pressure, p, 1e-6)
  H.eq('same temperature', b.temperature, a.temperature, 1e-6)


def monotone(H, alpha, i, j):
  """Higher pressure means lower height, both pressures free, in layers i and j."""
  atm, ref, units = make(H, alpha)
  p = H.real('p', ref.P[i + 1] * (1 + 1e-6), ref.P[i] * (1 - 1e-6))
  q = H.real('q', ref.P[j + 1] * (1 + 1e-6), ref.P[j] * (1 - 1e-6))
  H.assume(p > q * (1 + 1e-6))
  H.check('height falls as pressure rises',
          atm.at_pressure(p).height.m < atm.at_pressure(q).height.m)


def domain(H, alpha):
  """Heights in [-2, 100] km and pressures in [-10, 200000] Pa outside the tables are refused."""
  atm, ref, units = make(H, alpha)
  h = H.real('h', -2000.0, 100000.0)
  H.assume(H.or_(h < H_TR[0] - 1e-3, h >= H_TR[-1] + 1e-3))
  ok, _ = H.attempt(atm.at_height, units.Distance(m=h))
  H.check('height outside the table refused', not ok)
  p = H.real('p', -10.0, 200000.0)
  H.assume(H.or_(p < ref.P[-1] * (1 - 1e-6), p > ref.P[0] * (1 + 1e-6)))
  ok, _ = H.attempt(atm.at_pressure, p)
  H.check('pressure outside the table refused', not ok)


def inside(H, alpha):
  """Every height from the ground of the table up to its top is accepted, and so is every pressure, the ground pressure included."""
  atm, ref, units = make(H, alpha)
  h = H.real('h', H_TR[0], H_TR[-1] - 1e-3)
  ok, _ = H.attempt(atm.at_height, units.Distance(m=h))
  H.check('height inside the table accepted', ok)
  p = H.real('p', ref.P[-1] * (1 + 1e-6), ref.P[0])
  ok, _ = H.attempt(atm.at_pressure, p)
  H.check('pressure inside the table accepted', ok)


def seams(H, alpha):
  """On each boundary between two layers, the ground included, both lookups give the table's own values."""
  atm, ref, units = make(H, alpha)
  i = H.choice('boundary', list(range(7)))
  v = atm.at_height(units.Distance(m=H_TR[i]))
  H.eq('pressure at the boundary', v.pressure, ref.P[i], 1e-7)
  H.eq('temperature at the boundary', v.temperature, ref.T[i], 1e-9)
  w = atm.at_pressure(min(v.pressure, ref.P[i]))
  H.eq('height at the boundary', w.height.m, H_TR[i], 1e-6)
  H.eq('temperature at the boundary pressure', w.temperature, ref.T[i], 1e-7)


def mix(H):
  """The sampled lapse rates are a mix of the two extreme columns, five draws each for two atmospheres of one process, the first reset afterwards: temperature at any height of the surface layer, and temperature and pressure at any height of two more layers, are those of the atmosphere's own latest draw."""
  sa = H.load('env.balloon.standard_atmosphere')
  units = H.load('utils.units')
  H.script_rng()
  a0, a1 = [H.choice(n, [0.0, 0.125, 0.5, 0.875, 0.999]) for n in ('a', 'b')]
  i = H.choice('layer', [0, 1, 3])
  h = H.real('h', 0.0, 1.0) * (H_TR[i + 1] - H_TR[i] - 2.0) + H_TR[i] + 1.0

  def agrees(label, atm, a):
    ref = Reference(a)
    v = atm.at_height(units.Distance(m=h))
    T = ref.T[i] + ref.L[i] * (h - H_TR[i])
    H.eq(f'{label}: temperature', v.temperature, T)
    # the temperature is affine in height, so the pressure at one height of
    # the layer settles the layer
    mid = (H_TR[i] + H_TR[i + 1]) / 2
    T = ref.T[i] + ref.L[i] * (mid - H_TR[i])
    p = ref.P[i] * (T / ref.T[i])**(-G / (R * ref.L[i]))
    H.eq(f'{label}: pressure', atm.at_height(units.Distance(m=mid)).pressure,
         p, 1e-7)
    H.eq(f'{label}: height', atm.at_pressure(p).height.m, mid, 1e-6)

  def fixed(label, atm, a):
    # the same questions of every atmosphere, in 17 to 21 km
    r = Reference(a)
    v = atm.at_height(units.Distance(m=19000.0))
    T = r.T[1] + r.L[1] * 2000.0
    p = r.P[1] * (T / r.T[1])**(-G / (R * r.L[1]))
    H.eq(f'{label}: temperature at 19 km', v.temperature, T, 1e-9)
    H.eq(f'{label}: pressure at 19 km', v.pressure, p, 1e-7)
    w = atm.at_pressure(7000.0)
    T = r.T[1] * (7000.0 / r.P[1])**(-R * r.L[1] / G)
    H.eq(f'{label}: height at 70 hPa', w.height.m,
         H_TR[1] + (T - r.T[1]) / r.L[1], 1e-6)
    H.eq(f'{label}: temperature at 70 hPa', w.temperature, T, 1e-7)
  H.fixed_draw = lambda name: a0
  one = sa.Atmosphere(H.key(0))
  fixed('new atmosphere', one, a0)
  agrees('new atmosphere', one, a0)
  H.fixed_draw = lambda name: a1
  two = sa.Atmosphere(H.key(1))
  agrees('another new one', two, a1)
  fixed('another new one', two, a1)
  agrees('the first one still', one, a0)
  one.reset(H.key(2))
  agrees('after reset', one, a1)
  fixed('after reset', one, a1)


def obligations(tier):
  obs = [Ob('mix', mix)]
  alphas = [0.375] if tier == 'quick' else [0.0, 0.375, 0.75, 1.0]
  for a in alphas:
    obs += [Ob(f'{f.__name__}_{a}', f, dict(alpha=a))
            for f in (domain, inside, seams)]
    for i in range(7):
      k = dict(alpha=a, i=i)
      obs += [Ob(f'at_pressure_{a}_{i}', at_pressure, k),
              Ob(f'at_height_{a}_{i}', at_height, k),
              Ob(f'round_trip_{a}_{i}', round_trip, k)]
      for j in (i, i + 1):
        if j < 7:
          obs.append(Ob(f'monotone_{a}_{i}_{j}', monotone, dict(k, j=j)))
  return obs
