"""Attenuation, panel shadow and panel power over elevation and pressure."""
from vx.api import Ob

MIN_EL = -4.242


def attenuation(H, lo, hi):
  """Elevation free in [lo, hi] deg, pressure free in [0, 101325] Pa: the two-band exponential law of the air mass, in [0, 1], zero below the horizon."""
  solar = H.load('env.balloon.solar')
  m = H.math
  el = H.real('el', lo, hi)
  p = H.real('p', 0.0, 101325.0)
  H.assume(H.abs(el - MIN_EL) > 1e-9)
  a = solar.solar_atmospheric_attenuation(el, p)
  H.between('within [0, 1]', a, 0.0, 1.0)
  if el < MIN_EL:
    H.eq('dark below the horizon', a, 0.0)
  else:
    s = 614.0 * m.sin(el * (m.pi / 180.0))
    mass = 0.34764 * (p / 101325.0) * (m.sqrt(1229.0 + s * s) - s)
    H.eq('two-band law', a, 0.5 * (m.exp(-0.65 * mass) + m.exp(-0.95 * mass)),
         1e-6)


def monotone_p(H, el):
  """At a fixed elevation, two free pressures: more air, less light."""
  solar = H.load('env.balloon.solar')
  p, q = H.reals('p', 2, 0.0, 101325.0)
  H.assume(p < q)
  H.ge('less light through more air',
       solar.solar_atmospheric_attenuation(el, p),
       solar.solar_atmospheric_attenuation(el, q))


def rejects(H):
  """Elevation free in [-1000, 1000] deg and pressure free in [-1e6, 1e6] Pa: refused exactly outside [-90, 90] deg / [0, 101325] Pa."""
  solar = H.load('env.balloon.solar')
  el = H.real('el', -1000.0, 1000.0)
  p = H.real('p', -1e6, 1e6)
  for t in (-90.0, 90.0):
    H.assume(H.abs(el - t) > 1e-9)
  for t in (0.0, 101325.0):
    H.assume(H.abs(p - t) > 1e-6)
  ok, r = H.attempt(solar.solar_atmospheric_attenuation, el, p)
  inside = bool(H.and_(el >= -90, el <= 90, p >= 0, p <= 101325))
  H.check('refused exactly outside the domain', ok == inside)
  if not ok:
    H.check('as a value error', isinstance(r, ValueError))


def shadow(H):
  """Elevation free in [-90, 90]; panels at the two mounted heights and two others: full light below the shadow angle, 0.4392 above it."""
  import math
  solar = H.load('env.balloon.solar')
  el = H.real('el', -90.0, 90.0)
  h = H.choice('h', [3.3, 2.7, 1.0, 8.0])
  edge = math.degrees(math.atan2(math.sqrt(h * (10.41603 + h)), 8.69275))
  H.assume(H.abs(el - edge) > 1e-9)
  f = solar.balloon_shadow(el, h)
  H.eq('shadow', f, 0.4392 if el >= edge else 1.0)


def power(H, lo, hi):
  """Panel power, elevation free in [lo, hi] deg, attenuation an arbitrary function in [0, 1] of elevation and pressure that is zero below the horizon: the six-panel formula, never negative, at most 1260 W, zero at night."""
  solar = H.load('env.balloon.solar')
  m = H.math
  el = H.real('el', lo, hi)
  p = H.real('p', 0.0, 101325.0)
  H.assume(H.abs(el - MIN_EL) > 1e-9)

  def att(el_deg, pressure_altitude_pa):
    a = H.uf('att', [el_deg, pressure_altitude_pa], 0.0, 1.0)
    return H.ite(el_deg < MIN_EL, 0.0, a)
  H.patch(solar, 'solar_atmospheric_attenuation', att)
  w = solar.solar_power(el, p).watts

  def sh(h):
    import math
    edge = math.degrees(math.atan2(math.sqrt(h * (10.41603 + h)), 8.69275))
    H.assume(H.abs(el - edge) > 1e-9)
    return H.ite(el >= edge, 0.4392, 1.0)
  r = m.pi / 180.0
  want = 210.0 * att(el, p) * (4 * m.cos((el - 35) * r) * sh(3.3) +
                               2 * m.cos((el - 65) * r) * sh(2.7))
  H.eq('six-panel formula', w, want, 1e-6)
  H.between('within the panels\' rating', w, 0.0, 1260.0, 1e-6)
  if el < MIN_EL:
    H.eq('no power at night', w, 0.0)


def real_power(H, el):
  """The real panel power at a fixed elevation with the pressure free in [0, 101325] Pa: non-negative, at most 1260 W."""
  solar = H.load('env.balloon.solar')
  p = H.real('p', 0.0, 101325.0)
  w = solar.solar_power(el, p).watts
  H.between('within the panels\' rating', w, 0.0, 1260.0, 1e-6)
  if el < MIN_EL:
    H.eq('no power at night', w, 0.0)
  else:
    H.check('power by day', w > 0)


def memory(H, free):
  """Attenuation and power asked in sequence, forwards or backwards, for elevations and pressures that differ in one of the two by a little or a lot, one elevation or pressure of the sequence free: every answer follows the law for what was asked just then."""
  import math
  solar = H.load('env.balloon.solar')
  m = H.math
  seq = [(30.0, 6500.0), (30.004, 6500.0), (30.0, 6504.0), (30.4, 6500.0),
         (30.0, 9500.0), (-30.0, 6500.0), (30.0, 6500.0)]
  if free == 'p':
    seq.insert(3, (30.0, H.real('p', 0.0, 101325.0)))
  else:
    seq.insert(3, (H.real('el', 20.0, 30.0), 6500.0))
  if H.flag('backwards'):
    seq.reverse()
  r = math.pi / 180.0
  for i, (el, p) in enumerate(seq):
    a = solar.solar_atmospheric_attenuation(el, p)
    w = solar.solar_power(el, p).watts
    dark = bool(el < 0)
    if dark:
      want = 0.0
    else:
      s = 614.0 * m.sin(el * (m.pi / 180.0))
      mass = 0.34764 * (p / 101325.0) * (m.sqrt(1229.0 + s * s) - s)
      want = 0.5 * (m.exp(-0.65 * mass) + m.exp(-0.95 * mass))
    H.eq(f'attenuation, question {i}', a, want, 1e-6)
    if dark:
      H.eq(f'power, question {i}', w, 0.0)
    else:
      H.eq(f'power, question {i}', w, 210.0 * a * (
          4 * m.cos((el - 35) * r) + 2 * m.cos((el - 65) * r)), 1e-6)


def obligations(tier):
  obs = [Ob('rejects', rejects), Ob('shadow', shadow),
         Ob('memory_p', memory, dict(free='p')),
         Ob('memory_el', memory, dict(free='el'))]
  for lo, hi in ((-90.0, -4.0), (-5.0, 5.0), (5.0, 45.0), (45.0, 90.0)):
    obs.append(Ob(f'attenuation_{lo}_{hi}', attenuation, dict(lo=lo, hi=hi)))
    obs.append(Ob(f'power_{lo}_{hi}', power, dict(lo=lo, hi=hi)))
  for el in (-4.0, 0.0, 10.0, 60.0, 90.0):
    obs.append(Ob(f'monotone_p_{el}', monotone_p, dict(el=el)))
  els = (-90.0, -30.0, -4.25, -4.2, 0.0, 33.3, 59.2, 66.6, 90.0)
  if tier == 'thorough':
    els = tuple(float(e) for e in range(-90, 91, 3))
  for el in els:
    obs.append(Ob(f'real_power_{el}', real_power, dict(el=el)))
  return obs
