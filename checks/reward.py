"""The station-keeping reward."""
import math
from vx.api import Ob


def setup(H, real_state=False):
  env = H.load('env.balloon_env')
  u = H.load('utils.units')
  c = H.load('env.balloon.control').AltitudeControlCommand
  return env, u, c


def state(H, u, x, y, cmd, excess, power):
  return H.ns(balloon_state=H.ns(
      x=u.Distance(m=x), y=u.Distance(m=y), last_command=cmd,
      excess_energy=excess, acs_power=u.Power(watts=power)))


def formula(H, params):
  """Position free within 2000 km per axis, all commands, excess energy on or off, ACS power free in [0, 1000] W; default reward parameters or all three free."""
  env, u, C = setup(H)
  H.merge_rounding()
  x, y = H.reals('xy', 2, -2e6, 2e6)
  cmd = H.choice('cmd', [C.DOWN, C.STAY, C.UP])
  excess = H.flag('excess')
  w = H.real('watts', 0.0, 1000.0)
  k, R, drop, half = {}, 50.0, 0.4, 100.0
  if params:
    R = H.real('radius_km', 1.0, 500.0)
    drop = H.real('dropoff', 0.0, 1.0)
    half = H.choice('halflife', [10.0, 100.0, 350.0])
    k = dict(station_keeping_radius_km=R, reward_dropoff=drop,
             reward_halflife=half)
  r = env.perciatelli_reward_function(state(H, u, x, y, cmd, excess, w), **k)
  d = u.relative_distance(u.Distance(m=x), u.Distance(m=y)).m
  H.assume(H.abs(d - R * 1000) > 1e-3)
  inside = d <= R * 1000
  if inside:
    base = 1.0
  else:
    base = drop * H.math.exp(-math.log(2) / half * (d / 1000.0 - R))
  f = 1.0
  if cmd == C.DOWN and not excess:
    t = (w - 100.0) / 200.0
    f = 0.95 - 0.3 * H.ite(t < 0, 0.0, H.ite(t > 1, 1.0, t))
  H.eq('formula', r, base * f, 1e-6)
  H.between('range', r, 0.0, 1.0, 1e-9)
  H.observe('reward', r)


def shape(H):
  """Two positions free within 2000 km per axis, same command and power: inside the radius the reward is flat, outside it never rises with distance and stays below the dropoff."""
  env, u, C = setup(H)
  x, y = H.reals('xy', 2, -2e6, 2e6)
  x2, y2 = H.reals('ab', 2, -2e6, 2e6)
  r1 = env.perciatelli_reward_function(state(H, u, x, y, C.UP, False, 0.0))
  r2 = env.perciatelli_reward_function(state(H, u, x2, y2, C.UP, False, 0.0))
  d1, d2 = x * x + y * y, x2 * x2 + y2 * y2
  H.check('never rises with distance', H.implies(d1 <= d2, r2 <= r1 + 1e-12))
  rr = 50000.0**2
  H.check('one inside the radius', H.implies(d1 <= rr, r1 == 1.0))
  H.check('below the dropoff outside', H.implies(d1 > rr, r1 <= 0.4))
  H.check('positive', r1 > 0)


def penalty(H):
  """Going down without excess energy costs more the more power the ACS draws; both powers free."""
  env, u, C = setup(H)
  a, b = H.reals('w', 2, 0.0, 1000.0)
  H.assume(a <= b)
  ra = env.perciatelli_reward_function(state(H, u, 0.0, 0.0, C.DOWN, False, a))
  rb = env.perciatelli_reward_function(state(H, u, 0.0, 0.0, C.DOWN, False, b))
  H.check('more power, less reward', rb <= ra)
  H.between('penalty bounds', ra, 0.65, 0.95)
  for c in (C.UP, C.STAY):
    H.eq('no penalty', env.perciatelli_reward_function(
        state(H, u, 0.0, 0.0, c, False, b)), 1.0)
  H.eq('no penalty with excess energy', env.perciatelli_reward_function(
      state(H, u, 0.0, 0.0, C.DOWN, True, b)), 1.0)


def excess(H):
  """The real excess_energy: solar power (arbitrary) and charge free; true exactly when the panels out-produce the daytime load and the battery is more than 99 % full, seen from the balloon's own place and time."""
  from checks import balloon_common as bc
  w = bc.World(H, el=H.real('el', -90.0, 90.0))
  w.stub_power()
  q = H.real('charge', 0.0, 3058.56)
  load = H.real('load', 0.0, 400.0)
  p = H.real('pressure', 4000.0, 14000.0)
  x, y = H.reals('xy', 2, -1e6, 1e6)
  now = H.reals('present', 4, 0.0, 1000.0)  # present loads and powers: irrelevant
  s = w.state(power_load=now[0], acs_power=now[1], solar_charging=now[2],
              nighttime_power_load=now[3], battery_charge=q, daytime_power_load=load, pressure=p, x=x, y=y)
  w.sun_calls.clear()
  power = H.uf('solar_power', [w.el, p], 0.0, 1260.0)
  H.assume(H.abs(q / 3058.56 - 0.99) > 1e-9)
  H.check('definition', H.iff(s.excess_energy, H.and_(
      power > load, q / 3058.56 > 0.99)))
  H.check('here and now', all(H.known(H.and_(a.x.m == x, a.y.m == y,
                                             t == w.t0))
                              for a, t, _ in w.sun_calls))
  H.eq('state of charge', s.battery_soc, q / 3058.56)


def changed(H):
  """A state asked again after one thing about it has changed (free): its charge, load, pressure, place, time or capacity; then after it has changed back."""
  from checks import balloon_common as bc
  w = bc.World(H, el=30.0)
  un = w.units
  power = lambda el_deg, pressure_altitude_pa: un.Power(
      watts=H.uf('power', [el_deg, pressure_altitude_pa], 0.0, 1260.0))
  H.patch(w.solar, 'solar_power', power)


  def sun(p, time):
    return H.uf('el', [p.x.m, p.y.m, p.center.lng().degrees,
                       (time - w.t0).total_seconds()], -90.0, 90.0)
  H.patch(w.solar, 'solar_calculator', lambda latlng, time: (
      sun(latlng, time), 180.0, 1366.0))
  s = w.state(battery_charge=H.real('charge', 0.0, 3058.56), x=1e4, y=2e4,
              daytime_power_load=120.4)

  def verify(label):
    el = sun(H.ns(x=s.x, y=s.y, center=s.center_latlng), s.date_time)
    full = s.battery_charge.watt_hours / s.battery_capacity.watt_hours
    H.assume(H.abs(full - 0.99) > 1e-9)
    H.eq(f'{label}: state of charge', s.battery_soc, full)
    H.check(label, H.iff(s.excess_energy, H.and_(
        power(el, s.pressure).watts > s.daytime_power_load.watts, full > 0.99)))
  verify('first')
  what = H.choice('what', ['charge', 'capacity', 'load', 'pressure', 'x', 'y',
                           'time', 'station'])
  name, v = dict(
      charge=('battery_charge', lambda: un.Energy(
          watt_hours=H.real('charge2', 0.0, 3058.56))),
      capacity=('battery_capacity', lambda: un.Energy(
          watt_hours=H.choice('capacity2', [2900.0, 4000.0]))),
      load=('daytime_power_load', lambda: un.Power(
          watts=H.real('load2', 0.0, 400.0))),
      pressure=('pressure', lambda: H.real('pressure2', 5e3, 14e3)),
      x=('x', lambda: un.Distance(m=3e4)), y=('y', lambda: un.Distance(m=-1e4)),
      time=('date_time', lambda: w.t0 + H.dt.timedelta(seconds=180)),
      station=('center_latlng', lambda: H.lib('s2sphere').LatLng.from_degrees(
          -3.0, 100.0)))[what]
  old = getattr(s, name)
  setattr(s, name, v())
  verify(f'other {what}')
  setattr(s, name, old)
  verify('as before')


def obligations(tier):
  return [Ob('formula', formula, dict(params=False)),
          Ob('formula_params', formula, dict(params=True)),
          Ob('shape', shape), Ob('penalty', penalty), Ob('excess', excess),
          Ob('changed', changed)]
