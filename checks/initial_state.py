"""Where, when and how an episode starts."""
import math
from vx.api import Ob
from checks import arena_common as ac
from checks import balloon_common as bc


def distinct_keys(H, label):
  """No random key feeds two draws (same key twice = correlated draws)."""
  from vx import shims
  keys, twice = {}, 0
  for path, kind, extra, idx, _ in shims.RNG.log:
    if (kind, extra, idx) in keys.setdefault(path, {}):
      twice += 1
    keys[path][(kind, extra, idx)] = 1
  H.check(label, twice == 0 and all(
      len({k[:2] for k in v}) == 1 for v in keys.values()))


def location(H):
  """All random draws free: the station is in the tropics away from the date line."""
  H.script_rng()
  s = H.load('utils.sampling')
  p = s.sample_location(H.key(3))
  H.between('latitude', p.lat().degrees, -10.0, 10.0)
  H.between('longitude', p.lng().degrees, -175.0, 175.0)
  q = s.sample_location(H.key(3))
  H.eq('same key, same latitude', p.lat().degrees, q.lat().degrees)
  H.eq('same key, same longitude', p.lng().degrees, q.lng().degrees)


def start_time(H, custom):
  """All random draws free; the default range (2011-2014) or a one-week range."""
  H.script_rng()
  s = H.load('utils.sampling')
  u = H.load('utils.units')
  a, b = u.datetime(2011, 1, 1), u.datetime(2014, 12, 31)
  k = {}
  if custom:
    a, b = u.datetime(2013, 3, 25, 7), u.datetime(2013, 4, 1)
    k = dict(begin_range=a, end_range=b)
  t = s.sample_time(H.key(3), **k)
  H.check('in range', H.and_(t >= a, t < b))
  H.check('aware', t.tzinfo is not None)
  secs = (t - a).total_seconds()
  H.check('whole seconds', secs == H.math.floor(secs))


def ir(H):
  """The infrared distributions are arbitrary, up to four rejected draws: the accepted value is a draw that is at least 225 W/m2, and the first such draw is taken."""
  H.script_rng()
  s = H.load('utils.sampling')
  draws = []

  class Dist:

    def __init__(self, *a, **k):
      pass

    def sample(self, seed):
      H.check('an acceptable draw is taken', H.and_(*[
          315 * d < 225.0 for _, d in draws[-1:]]))
      if len(draws) > 6:
        raise RuntimeError('draws for ever')
      v = H.real(f'draw{len(draws)}', 0.0, 0.999)
      if len(draws) == 4:
        H.assume(v >= 0.8)
      if draws:
        H.check('every attempt uses a fresh key',
                all(str(seed) != k for k, _ in draws))
      draws.append((str(seed), v))
      return v if H.is_symbolic else H.np.float64(v)
  D = H.ns(LogitNormal=Dist)
  H.patch(s, 'tfp', H.ns(distributions=D, bijectors=None))
  v = s.sample_upwelling_infrared(H.key(9))
  H.check('at least 225', v >= 225.0)
  H.eq('scaled to [0, 315)', v, 315 * draws[-1][1])
  H.check('earlier draws were too small', H.and_(*[
      315 * d < 225.0 for _, d in draws[:-1]]))
  del draws[:]
  n = []

  class Other:

    def __init__(self, *a, **k):
      pass

    def sample(self, seed):
      n.append(str(seed))
      x = H.real(f'other{len(n)}', -330.0, -100.0)
      if len(n) == 3:
        H.assume(x <= -240.0)
      other.append(x)
      return x if H.is_symbolic else H.np.float64(x)
  other = []
  D.LogNormal = D.TransformedDistribution = Other
  H.patch(s, 'tfp', H.ns(distributions=D, bijectors=H.ns(
      Chain=lambda b: b, Shift=lambda x: x, Scale=lambda x: x,
      Power=lambda x: x)))
  v = s.sample_upwelling_infrared(H.key(9), 'inverse_lognormal')
  H.check('at least 225, from the other distribution', H.and_(
      v >= 225.0, v == -other[-1], len(set(n)) == len(n)))
  ok, r = H.attempt(s.sample_upwelling_infrared, H.key(9), 'gaussian')
  H.check('unknown distribution refused', (not ok) and
          isinstance(r, ValueError))


def pressure(H, lapse):
  """All random draws free, atmosphere with a given random lapse-rate draw or none: between 6500 Pa and the pressure of the lowest permitted altitude."""
  H.script_rng()
  s = H.load('utils.sampling')
  if lapse is None:
    p = s.sample_pressure(H.key(3))
    H.between('range', p, 6500.0, 11400.0)
    return
  sa = H.load('env.balloon.standard_atmosphere')
  al = H.load('env.balloon.altitude_safety')
  H.fixed_draw = lambda name: lapse if 'uniform' in name and 'k9' in name else None
  H.fixed_draw = _lapse(H, lapse)
  atm = sa.Atmosphere(H.key(9))
  H.fixed_draw = None
  p = s.sample_pressure(H.key(3), atm)
  top = atm.at_height(al.MIN_ALTITUDE).pressure
  H.between('range', p, 6500.0, top)
  H.observe('p', p)


def _lapse(H, v):
  def f(name):
    return v
  return f


def balloon(H):
  """Every random draw of the arena's initial balloon free: within 200 km of the station in any direction, valid pressure and infrared, a fresh state at the given time."""
  H.script_rng()
  from vx import shims
  S = ac.Setup(H, sampling=False)
  S.ir = H.real('ir', 225.0, 315.0)
  shims.RNG.log = []
  a = S.arena()
  st = a.get_balloon_state()
  u = S.u
  x, y = st.x.m, st.y.m
  H.le('within 200 km', x * x + y * y, 200000.0**2, 1e-9)
  H.check('cold started once on its own state and atmosphere',
          len(S.cold_calls) == 1 and S.cold_calls[0][0] is st and
          S.cold_calls[0][1] is a.get_simulator_state().atmosphere)
  H.between('pressure', st.pressure, 6500.0, 11300.0)
  H.eq('infrared', st.upwelling_infrared, S.ir)
  H.between('latitude', st.center_latlng.lat().degrees, -10.0, 10.0)
  H.between('longitude', st.center_latlng.lng().degrees, -175.0, 175.0)
  H.check('time', H.and_(st.date_time >= u.datetime(2011, 1, 1),
                         st.date_time < u.datetime(2014, 12, 31),
                         st.time_elapsed == H.dt.timedelta(0)))
  H.check('starts in flight', st.status.name == 'OK')
  H.check('charge', H.and_(st.battery_charge.watt_hours >= 0,
                           st.battery_charge.watt_hours <=
                           st.battery_capacity.watt_hours))
  distinct_keys(H, 'independent draws')
  H.check('infrared key not shared', all(
      k != f'Key({r[0]})' for r in shims.RNG.log for k in S.ir_keys))
  H.check('every direction and distance is possible',
          len({str(r[0]) for r in shims.RNG.log}) >= 6)
  H.observe('x', x)
  H.observe('y', y)


def direction(H):
  """Radius and angle draws free: the offset is 200 km x radius at the drawn angle, so all directions are equally likely."""
  H.script_rng()
  from vx import shims
  S = ac.Setup(H)
  shims.RNG.log = []
  st = S.arena().get_balloon_state()
  draws = [r for r in shims.RNG.log]
  H.check('one beta and one uniform draw', len(draws) == 2)
  x, y = st.x.m, st.y.m
  beta = [r[4] for r in draws if r[1] == 'beta']
  unif = [r[4] for r in draws if r[1] == 'uniform']
  H.check('kinds', len(beta) == 1 and len(unif) == 1)
  H.check('beta(1.2, 2)', [r[2] for r in draws if r[1] == 'beta'] ==
          ['1.2,2.0'])
  r = 200000.0 * beta[0]
  c, s_ = H.math.cos(2 * math.pi * unif[0]), H.math.sin(2 * math.pi * unif[0])
  H.eq('x', x, r * c, 1e-6)
  H.eq('y', y, r * s_, 1e-6)


def _cold(H, k, heat):
  w = bc.World(H, el=H.real('el', -90.0, 90.0),
               flux=H.real('flux', 1300.0, 1420.0))
  calls = []

  def d(balloon_volume, balloon_mass, balloon_temperature_k,
        ambient_temperature_k, pressure_altitude_pa, solar_elevation_deg,
        solar_flux, earth_flux):
    calls.append((balloon_volume, balloon_mass, ambient_temperature_k,
                  pressure_altitude_pa, solar_elevation_deg, solar_flux,
                  earth_flux))
    return heat(balloon_temperature_k)
  H.patch(w.thermal, 'd_balloon_temperature_dt', d)
  H.load('env.balloon.stable_init')
  s = w.state(**k)
  return w, s, calls


def cold_start(H, free):
  """One or two of (pressure [4, 14] kPa, ambient temperature [180, 300] K, lift gas [4000, 8000] mol) free, affine heat balance with free root [190, 290] K and slope: floats in equilibrium at the given pressure, heat balance at its root, pressures by the gas law, nothing else touched."""
  root = H.real('root', 190.0, 290.0)
  slope = H.real('slope', 1e-3, 1.0)
  rng = dict(pressure=(4000.0, 14000.0), Ta=(180.0, 300.0),
             gas=(4000.0, 8000.0))
  v = dict(pressure=8000.0, Ta=206.0, gas=6830.0)
  for n in free:
    v[n] = H.real(n, *rng[n])
  p, Ta, gas = v['pressure'], v['Ta'], v['gas']
  w, s, calls = _cold(H, dict(pressure=p, mols_lift_gas=gas),
                      lambda T: slope * (root - T))
  stable = H.load('env.balloon.stable_init')
  atm = H.ns(at_pressure=lambda pressure: H.ns(
      height=w.units.Distance(m=15000.0), temperature=Ta, pressure=pressure))
  before, c0 = bc.snap(s), bc.consts(s)
  stable.cold_start_to_stable_params(s, atm)
  after, c1 = bc.snap(s), bc.consts(s)
  H.eq('ambient temperature', after['ambient_temperature'], Ta)
  H.eq('internal temperature balances the heat', after['internal_temperature'],
       root, 1e-5)
  mass = (s.envelope_mass + s.payload_mass + bc.M_HE * gas +
          bc.M_AIR * after['mols_air'])
  rho = p * bc.M_AIR / (bc.R_GAS * Ta)
  H.check('air is never negative', after['mols_air'] >= 0)
  H.check('floats, or is as light as it gets',
          H.or_(H.abs(rho * 1804 - mass) <= 1e-6,
                H.and_(after['mols_air'] == 0, mass >= rho * 1804)))
  V, sp = w.B.calculate_superpressure_and_volume(
      gas, after['mols_air'], after['internal_temperature'], p, 1804,
      s.envelope_volume_dv_pressure)
  H.eq('volume by the gas law', after['envelope_volume'], V)
  H.eq('superpressure by the gas law', after['superpressure'], sp)
  H.check('heat balance asked for this balloon, here and now', all(
      H.known(H.and_(c[0] == 1804, c[1] == s.envelope_mass, c[2] == Ta,
                     c[3] == p, c[4] == w.el, c[5] == w.flux,
                     c[6] == s.upwelling_infrared)) for c in calls))
  H.check('bounded work', len(calls) <= 20)
  touched = ('ambient_temperature', 'internal_temperature', 'mols_air',
             'envelope_volume', 'superpressure')
  for n in before:
    if n in touched:
      continue
    if isinstance(before[n], str):
      H.check(f'{n} untouched', before[n] == after[n])
    elif n in ('date_time',):
      H.check('clock untouched', before[n] == after[n])
    else:
      H.eq(f'{n} untouched', before[n], after[n])
  for n in c0:
    H.eq(f'{n} untouched', c0[n], c1[n])
  H.observe('air', after['mols_air'])


def flat_heat(H):
  """A constant heat balance (free value): the search terminates and keeps a finite temperature."""
  c = H.real('c', -1.0, 1.0)
  w, s, calls = _cold(H, dict(pressure=8000.0), lambda T: c)
  stable = H.load('env.balloon.stable_init')
  atm = H.ns(at_pressure=lambda pressure: H.ns(
      height=w.units.Distance(m=15000.0), temperature=206.0,
      pressure=pressure))
  stable.cold_start_to_stable_params(s, atm)
  H.eq('start value kept', s.internal_temperature, 206.0)
  H.check('bounded work', len(calls) <= 20)


def obligations(tier):
  obs = [Ob('location', location), Ob('ir', ir), Ob('balloon', balloon),
         Ob('direction', direction), Ob('flat_heat', flat_heat),
         Ob('time_default', start_time, dict(custom=False)),
         Ob('time_custom', start_time, dict(custom=True)),
         Ob('pressure_plain', pressure, dict(lapse=None))]
  for l in (0.1, 0.5, 0.9):
    obs.append(Ob(f'pressure_{l}', pressure, dict(lapse=l)))
  for f in (('pressure',), ('Ta',), ('gas',)):
    obs.append(Ob('cold_start_' + '_'.join(f), cold_start, dict(free=f)))
  if tier == 'thorough':
    obs.append(Ob('cold_start_pressure_Ta', cold_start,
                  dict(free=('pressure', 'Ta'))))
    obs.append(Ob('cold_start_pressure_gas', cold_start,
                  dict(free=('pressure', 'gas'))))
  return obs
