"""Power safety layer: clock / battery histories against a reference layer."""
from vx.api import Ob

UP, STAY, DOWN = 2, 1, 0
DAY = 86400
EPS = 1e-6


class Reference:
  """Documented behaviour; times are seconds after the layer's creation."""

  def __init__(self, sunrise, sunset):
    self.sunrise, self.sunset = sunrise + 1800, sunset
    self.paused = False

  def step(self, H, action, t, load, charge, cap):
    while t > self.sunrise:
      self.sunrise = self.sunrise + DAY
    while t > self.sunset:
      self.sunset = self.sunset + DAY
    if self.sunset < self.sunrise:  # day
      if self.paused:
        soc = charge / cap
        H.assume(H.abs(soc - 0.05) > EPS)
        if soc >= 0.05:
          self.paused = False
    elif not self.paused:
      left = (charge - load * (self.sunrise - t) / 3600) / cap
      H.assume(H.abs(left - 0.025) > EPS)
      self.paused = bool(left < 0.025)
    return STAY if (self.paused and action == DOWN) else action


def history(H, k, free, gap):
  """k get_action calls on one layer, sunrise and sunset free (whole seconds) in the day after its creation, gaps between calls free up to `gap` seconds, battery charge free in [0, 6000] Wh with a common capacity in [500, 6000] Wh, night load in [0, 500] W; state of charge 1e-6 off the two thresholds; every command at the last `free` calls."""
  ps = H.load('env.balloon.power_safety')
  solar = H.load('env.balloon.solar')
  units = H.load('utils.units')
  s2 = H.lib('s2sphere')
  C = H.load('env.balloon.control').AltitudeControlCommand
  dt = H.dt
  t0 = dt.datetime(2013, 3, 25, 9, 25, 32, tzinfo=dt.timezone.utc)
  rise = H.int('sunrise', 1, DAY)
  sset = H.int('sunset', 1, DAY)
  H.assume(H.or_(rise < sset, sset < rise))
  H.assume(H.or_(rise + 1800 < sset, sset < rise + 1800))
  asked = []

  def sunrise_sunset(latlng, when):
    asked.append((latlng, when))
    return (t0 + dt.timedelta(seconds=rise), t0 + dt.timedelta(seconds=sset))
  H.patch(solar, 'get_next_sunrise_sunset', sunrise_sunset)
  where = s2.LatLng.from_degrees(1.5, 12.0)
  layer = ps.PowerSafetyLayer(where, t0)
  H.check('asks for its own place and time',
          len(asked) == 1 and asked[0][0] is where and
          bool(asked[0][1] == t0))
  H.check('starts unpaused', not layer.navigation_is_paused)
  cap = H.real('capacity', 500.0, 6000.0)
  load = H.real('load', 0.0, 500.0)
  ref = Reference(rise, sset)
  t = 0
  for i in range(k):
    a = H.choice(f'a{i}', [C.DOWN, C.STAY, C.UP]) if i >= k - free else C.DOWN
    t = t + H.int(f'gap{i}', 0, gap)
    soc = H.real(f'soc{i}', 0.0, 1.0)
    charge = soc * cap
    got = layer.get_action(a, t0 + dt.timedelta(seconds=t),
                           units.Power(watts=load),
                           units.Energy(watt_hours=charge),
                           units.Energy(watt_hours=cap))
    want = ref.step(H, int(a), t, load, charge, cap)
    H.check('action', int(got) == want)
    H.check('paused flag', bool(layer.navigation_is_paused) == ref.paused)
    if i == k - 1:
      H.observe('action', int(got))


def neighbours(H):
  """Three layers made in a row, at two places and two times, sunrise and sunset free for each: every layer goes by its own, whichever was made or asked first."""
  ps = H.load('env.balloon.power_safety')
  solar = H.load('env.balloon.solar')
  units = H.load('utils.units')
  s2 = H.lib('s2sphere')
  C = H.load('env.balloon.control').AltitudeControlCommand
  dt = H.dt
  t0 = dt.datetime(2013, 3, 25, 9, 25, 32, tzinfo=dt.timezone.utc)
  west, east = (s2.LatLng.from_degrees(1.5, x) for x in (12.0, 12.5))
  other = H.choice('other', ['place', 'time', 'minute', 'both'])
  later = t0 + dt.timedelta(minutes=2, days=0 if other == 'minute' else 31)
  cases = [(west, t0), (east if other in ('place', 'both') else west,
                        t0 if other == 'place' else later), (west, t0)]
  night = []
  for i in range(2):
    night.append(H.choice(f'night{i}', [True, False]))

  def sunrise_sunset(latlng, time, *a, **k):
    i = 0 if latlng.lng().degrees < 12.25 and time - t0 < dt.timedelta(
        minutes=1) else 1
    rise, sset = (9000, 40000) if night[i] else (40000, 9000)
    return (time + dt.timedelta(seconds=rise), time + dt.timedelta(seconds=sset))
  H.patch(solar, 'get_next_sunrise_sunset', sunrise_sunset)
  layers = [ps.PowerSafetyLayer(*c) for c in cases]
  charge = H.real('charge', 1.0, 3000.0)
  load = H.real('load', 0.0, 500.0)
  for j in H.choice('order', [(0, 1, 2), (2, 1, 0), (1, 0, 2)]):
    dark = night[1 if j == 1 else 0]
    ref = Reference(*((9000, 40000) if dark else (40000, 9000)))
    want = ref.step(H, 0, 0, load, charge, 3000.0)
    got = layers[j].get_action(
        C.DOWN, cases[j][1], units.Power(watts=load),
        units.Energy(watt_hours=charge), units.Energy(watt_hours=3000.0))
    H.check('action', int(got) == want)


def never_costlier(H):
  """The paused command for every command: DOWN becomes STAY, others pass."""
  ps = H.load('env.balloon.power_safety')
  C = H.load('env.balloon.control').AltitudeControlCommand
  for a in (C.DOWN, C.STAY, C.UP):
    got = ps.PowerSafetyLayer.get_paused_action(a)
    H.check('paused action', got == (C.STAY if a == C.DOWN else a))


def in_flight(H, k):
  """A real balloon stepped k times, every command at the last step, with free loads (night and day), capacity, and charge set to a free value before each step, sunrise and sunset free: the physics obeys the reference layer for that balloon's own clock, night load, charge and capacity."""
  from checks import balloon_common as bc
  w = bc.World(H, el=20.0)
  w.stub_power()
  w.fixed_thermal()
  C, dt, t0 = w.C, w.dt, w.t0
  rise = H.int('sunrise', 1, DAY)
  sset = H.int('sunset', 1, DAY)
  H.assume(H.or_(rise < sset, sset < rise))
  H.assume(H.or_(rise + 1800 < sset, sset < rise + 1800))
  H.patch(w.solar, 'get_next_sunrise_sunset',
          lambda latlng, time, time_delta=None: (
              t0 + dt.timedelta(seconds=rise), t0 + dt.timedelta(seconds=sset)))
  cap = H.choice('capacity', [1000.0, 3058.56])
  load = H.real('load', 0.0, 500.0)
  day = H.real('day_load', 0.0, 500.0)
  s = w.state(power_safety_layer_enabled=True, nighttime_power_load=load,
              daytime_power_load=day, battery_capacity=cap,
              battery_charge=cap)
  bal = w.B.Balloon(s)
  ref = Reference(rise, sset)
  t = 0
  for i in range(k):
    if i:
      t = H.int('later', 1, DAY)
      s.date_time = t0 + dt.timedelta(seconds=t)
    charge = H.real(f'charge{i}', 1.0, 3000.0)
    H.assume(charge < cap)
    s.pressure, s.superpressure = 7000.0, 1200.0
    s.battery_charge = w.units.Energy(watt_hours=charge)
    s.status = w.B.BalloonStatus.OK
    a = H.choice(f'a{i}', [C.DOWN, C.STAY, C.UP]) if i == k - 1 else C.DOWN
    want = ref.step(H, int(a), t, load, charge, cap)
    bal.simulate_step(w.wind(), w.atmosphere(), a,
                      dt.timedelta(seconds=10), dt.timedelta(seconds=10))
    st = bal.state
    got = DOWN if st.acs_power.watts > 0 else (
        UP if st.acs_mass_flow < 0 else STAY)
    H.check('the balloon does what its layer says', got == want)
    H.check('paused flag', bool(st.navigation_is_paused) == ref.paused)


def obligations(tier):
  obs = [Ob('one_call', history, dict(k=1, free=1, gap=2 * DAY + 3600),
            need=('action',)),
         Ob('history2', history, dict(k=2, free=1, gap=DAY + 7200)),
         Ob('in_flight1', in_flight, dict(k=1)),
         Ob('in_flight2', in_flight, dict(k=2)),
         Ob('neighbours', neighbours),
         Ob('never_costlier', never_costlier)]
  if tier == 'thorough':
    obs += [Ob('history3', history, dict(k=3, free=1, gap=DAY),
               max_paths=30000, budget_s=1500),
            Ob('one_call_week', history, dict(k=1, free=1, gap=7 * DAY),
               max_paths=30000, budget_s=600)]
  return obs
