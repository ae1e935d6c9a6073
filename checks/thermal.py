"""The balloon's heat balance."""
import math
from vx.api import Ob

SB, R_GAS, M_AIR = 5.6704e-8, 8.3144621, 0.028964922481160
FILM, CAP = 0.0291, 1500.0


def total(absorbed, reflected):
  """The film's share of radiation after all internal reflections."""
  through = 1.0 - absorbed - reflected
  return absorbed * (1.0 + through / (1.0 - reflected))


def ir(t):
  return 0.04587 + 0.000232 * (t - 210.0)


def convective(r, tb, ta, p):
  """Free convection about a sphere (W/m^2), for positive differences."""
  mu = 1.458e-6 * ta**1.5 / (ta + 110.4)
  k = 0.0241 * (ta / 273.15)**0.9
  rho = p * M_AIR / (R_GAS * ta)
  gr = 9.80665 * rho**2 * (2 * r)**3 / (ta * mu**2) * abs(ta - tb)
  ra = (0.804 - 3.25e-4 * ta) * gr
  nu = 2 + 0.457 * ra**0.25 + (1 + 2.69e-8 * ra)**(1.0 / 12.0)
  return nu * k / (2 * r) * (ta - tb)


def balance(H, volume, ambient, pressure, tb):
  """Fixed volume, pressure and temperatures; sunlight, attenuation, earth flux and mass free."""
  thermal = H.load('env.balloon.thermal')
  solar = H.load('env.balloon.solar')
  asked = []

  def attenuation(el_deg, pressure_altitude_pa):
    asked.append((el_deg, pressure_altitude_pa))
    return H.uf('attenuation', [el_deg, pressure_altitude_pa], 0.0, 1.0)
  H.patch(solar, 'solar_atmospheric_attenuation', attenuation)
  mass = H.choice('mass', [68.5, 31.0, 120.25])
  el = H.real('el', -90.0, 90.0)
  sun = H.real('sun', 0.0, 1500.0)
  earth = H.choice('earth', [100.0, 222.25, 250.0, 333.5])
  got = thermal.d_balloon_temperature_dt(
      volume, mass, tb, ambient, pressure, el, sun, earth)
  r = (3 * volume / (4 * math.pi))**(1 / 3)
  area = 4 * math.pi * r * r
  f = H.uf('attenuation', [el, pressure], 0.0, 1.0)
  earth_t = (earth / SB)**0.25
  want = area * (
      sun * f * 0.25 * total(0.01435, FILM) +
      earth * 0.4605 * total(ir(earth_t), FILM) +
      convective(r, tb, ambient, pressure) -
      SB * tb**4 * total(ir(tb), FILM)) / (CAP * mass)
  H.eq('heat balance', got, want, 1e-9)


def free(H, vary):
  """As balance, with one more quantity free at a time."""
  v = dict(volume=1780.5, ambient=207.0, pressure=7250.0, tb=212.0)
  lo, hi = dict(volume=(600.0, 1900.0), ambient=(185.0, 240.0),
                pressure=(4500.0, 15000.0), tb=(180.0, 280.0))[vary]
  v[vary] = H.real(vary, lo, hi)
  balance(H, **v)


def emission(H):
  """Balloon temperature free in 150..330 K over fixed surroundings."""
  thermal = H.load('env.balloon.thermal')
  solar = H.load('env.balloon.solar')
  H.patch(solar, 'solar_atmospheric_attenuation',
          lambda el_deg, pressure_altitude_pa: 0.0)
  t = H.real('t', 150.0, 330.0)
  H.eq('black body flux', thermal.black_body_temperature_to_flux(t),
       SB * t * t * t * t, 1e-9)
  a = thermal.absorptivity_ir(t)
  H.eq('infrared absorptivity', a, ir(t), 1e-12)
  H.between('absorptivity is a share', a, 0.0, 1.0)


def radiation(H):
  """Film absorptivity and reflectivity free with a + r <= 1."""
  thermal = H.load('env.balloon.thermal')
  a = H.real('a', 0.0, 1.0)
  r = H.choice('r', [0.0, 0.0291, 0.25, 0.5, 0.9])
  H.assume(a + r <= 1.0)
  got = thermal.total_absorptivity(a, r)
  H.eq('total absorptivity', got, total(a, r), 1e-12)
  H.between('a share', got, 0.0, 1.0, 1e-12)
  x = H.real('x', 1.0001, 3.0)
  ok, e = H.attempt(thermal.total_absorptivity, -x, r)
  H.check('impossible films are refused',
          (not ok) and isinstance(e, ValueError))


def monotone(H):
  """Two suns, two elevations: more absorbed sunlight never cools; night ignores the sun."""
  thermal = H.load('env.balloon.thermal')
  solar = H.load('env.balloon.solar')
  H.patch(solar, 'solar_atmospheric_attenuation',
          lambda el_deg, pressure_altitude_pa: H.uf(
              'attenuation', [el_deg, pressure_altitude_pa], 0.0, 1.0))
  e1, e2 = H.real('e1', -90.0, 90.0), H.real('e2', -90.0, 90.0)
  sun = H.choice('sun', [1320.0, 1366.0, 1412.0])
  f1 = H.uf('attenuation', [e1, 6500.0], 0.0, 1.0)
  f2 = H.uf('attenuation', [e2, 6500.0], 0.0, 1.0)

  def d(el, s):
    return thermal.d_balloon_temperature_dt(
        1825.0, 68.5, 207.0, 206.0, 6500.0, el, s, 250.0)
  H.assume(f1 <= f2)
  H.le('less sun is no warmer', d(e1, sun), d(e2, sun))
  H.assume(f1 == 0)
  H.eq('no sun at all', d(e1, sun), d(e1, 0.0), 1e-12)


def convection(H, pressure):
  """Ambient temperature from a list, difference free in sign and (listed) size: heat flows towards the colder side and grows with the difference."""
  thermal = H.load('env.balloon.thermal')
  ta = H.choice('ambient', [190.0, 206.5, 230.0, 288.15])
  r = 7.5
  last = 0.0
  for d in (0.0, 0.125, 1.0, 8.0, 30.0):
    for sign in (1, -1):
      got = thermal.convective_heat_air_factor(r, ta + sign * d, ta, pressure)
      H.eq(f'{sign * d:g} K', got, convective(r, ta + sign * d, ta, pressure),
           1e-9)


def surroundings(H):
  """The radius, temperatures and pressure free: no difference, no flow; sign of the flow."""
  thermal = H.load('env.balloon.thermal')
  ta = H.real('ambient', 180.0, 300.0)
  r = H.real('radius', 1.0, 12.0)
  p = H.real('pressure', 1000.0, 101325.0)
  H.eq('no difference, no flow',
       thermal.convective_heat_air_factor(r, ta, ta, p), 0.0, 1e-9)


def memory(H, vary):
  """Asked for two other states that differ in one quantity by a little and by a lot, then for this one: the balance of this one."""
  thermal = H.load('env.balloon.thermal')
  base = dict(volume=1780.5, mass=68.5, balloon_temperature_k=212.0,
              ambient_temperature_k=207.0, pressure_altitude_pa=7250.0,
              solar_elevation=-30.0, solar_flux=1366.0, earth_flux=250.0)
  names = list(base)
  lo, hi = base[vary] - 0.004, base[vary] + 8.0

  def want(v):
    volume, mass, tb, ta, p, el, sun, earth = [v[n] for n in names]
    r = (3 * volume / (4 * math.pi))**(1 / 3)
    return 4 * math.pi * r * r * (
        earth * 0.4605 * total(ir((earth / SB)**0.25), FILM) +
        convective(r, tb, ta, p) -
        SB * tb**4 * total(ir(tb), FILM)) / (CAP * mass)
  seq = [dict(base, **{vary: x}) for x in (lo, hi)] + [base]
  if H.flag('backwards'):
    seq.reverse()
  free = dict(base, mass=H.real('mass', 20.0, 150.0))
  seq.insert(H.choice('where', [0, 1, 2]), free)
  for i, v in enumerate(seq):
    got = thermal.d_balloon_temperature_dt(*[v[n] for n in names])
    H.eq(f'question {i}', got, want(v), 1e-9)


def obligations(tier):
  obs = [Ob('emission', emission), Ob('radiation', radiation),
         Ob('monotone', monotone), Ob('surroundings', surroundings)]
  for k in ('volume', 'mass', 'balloon_temperature_k', 'ambient_temperature_k',
            'pressure_altitude_pa', 'solar_flux', 'earth_flux'):
    obs.append(Ob(f'memory_{k}', memory, dict(vary=k)))
  ps = [1000.0, 5000.0, 8250.0, 14000.0, 101325.0]
  for p in ps:
    obs.append(Ob(f'convection_{p:g}', convection, dict(pressure=p)))
  for k in ('volume', 'ambient', 'pressure', 'tb'):
    obs.append(Ob(f'free_{k}', free, dict(vary=k)))
  cases = [(1825.0, 206.0, 6500.0, 206.5), (1825.0, 206.0, 6500.0, 199.25),
           (900.0, 230.0, 9500.0, 245.0), (1200.5, 215.0, 5200.0, 215.0),
           (1804.0, 195.5, 13500.0, 260.0)]
  if tier == 'thorough':
    cases += [(v, ta, p, ta + d) for v in (600.0, 1500.0, 1900.0)
              for ta in (190.0, 206.0, 222.0) for p in (5000.0, 14000.0)
              for d in (-25.0, -2.0, 3.0, 40.0)]
  for i, c in enumerate(cases):
    obs.append(Ob(f'balance_{i}', balance, dict(
        zip(('volume', 'ambient', 'pressure', 'tb'), c))))
  return obs
