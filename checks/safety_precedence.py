"""How simulate_step combines the three safety layers."""
from vx.api import Ob
from checks import balloon_common as bc
from checks.altitude_safety import FT


def effective(H, w, st, air0):
  """The command the physics acted on, read off the state."""
  p, f = st.acs_power.watts, st.acs_mass_flow
  if p > 0:
    return 0
  if f < 0:
    return 2
  return 1


def chain(H, power_on):
  """Recording layers that answer any command: what each layer is asked, in which order, and whose answer the physics obeys; every commanded action and every combination of layer answers."""
  w = bc.World(H, el=20.0)
  w.stub_power()
  w.fixed_thermal()
  C = w.C
  cmds = [C.DOWN, C.STAY, C.UP]
  a = H.choice('action', cmds)
  r = [H.choice(f'answer{i}', cmds) for i in range(3)]
  s = w.state(power_safety_layer_enabled=power_on)
  log = []
  at = w.atmosphere()

  class Power:
    navigation_is_paused = False

    def get_action(self, action, date_time, nighttime_power_load,
                   battery_charge, battery_capacity):
      log.append(('power', action, date_time, nighttime_power_load.watts,
                  battery_charge.watt_hours, battery_capacity.watt_hours))
      return r[0]

  class Envelope:
    navigation_is_paused = False

    def get_action(self, action, superpressure):
      log.append(('envelope', action, superpressure))
      return r[1]

  class Altitude:
    navigation_is_paused = False

    def get_action(self, action, atmosphere, pressure):
      log.append(('altitude', action, atmosphere is at, pressure))
      return r[2]
  s.power_safety_layer, s.envelope_safety_layer = Power(), Envelope()
  s.altitude_safety_layer = Altitude()
  bal = w.B.Balloon(s)
  bal.simulate_step(w.wind(), at, a, w.dt.timedelta(seconds=20),
                    w.dt.timedelta(seconds=10))
  names = [x[0] for x in log]
  H.check('each layer asked once per step, power first, altitude last',
          names == ['power', 'envelope', 'altitude'][0 if power_on else 1:])
  prev = a
  for x in log:
    if x[0] == 'power':
      H.check('power layer sees the command', x[1] == a)
      H.check('power layer sees the balloon', H.known(H.and_(
          x[2] == w.t0, x[3] == 190.0, x[4] == 2900.0, x[5] == 3058.56)))
      prev = r[0]
    elif x[0] == 'envelope':
      H.check('envelope layer sees the power layer answer', x[1] == prev)
      H.check('envelope layer sees the superpressure', x[2] == 1200.0)
      prev = r[1]
    else:
      H.check('altitude layer sees the envelope layer answer', x[1] == prev)
      H.check('altitude layer sees the balloon', x[2] and x[3] == 7000.0)
  H.check('the last answer takes effect',
          effective(H, w, bal.state, 1500.0) == int(r[2]))
  H.check('the commanded action is remembered', bal.state.last_command == a)


def dangers(H, maxsp):
  """One real step with all real layers: superpressure free in (0, 3000] Pa, altitude free in [0, 30] km (as the atmosphere reports it), battery charge free, night, every command."""
  w = bc.World(H, el=-30.0)
  w.stub_power()
  w.fixed_thermal()
  C = w.C
  sp = H.real('sp', 1.0, 3000.0)
  h = H.real('h', 0.0, 30000.0)
  charge = H.real('charge', 1.0, 3000.0)
  for t in (150.0, 250.0, 300.0, maxsp - 300, maxsp - 250, maxsp - 150):
    H.assume(H.abs(sp - t) > 1e-6)
  for f in (50000, 50500, 51000):
    H.assume(H.abs(h - f * FT) > 1e-6)
  rise = H.real('to_sunrise', 0.5, 11.0)  # hours
  t0, dt = w.t0, w.dt
  H.patch(w.solar, 'get_next_sunrise_sunset',
          lambda latlng, time, time_delta=None: (
              t0 + dt.timedelta(hours=rise), t0 + dt.timedelta(hours=13)))
  left = (charge - 190.0 * (rise + 0.5)) / 3058.56
  H.assume(H.abs(left - 0.025) > 1e-6)
  s = w.state(superpressure=sp, battery_charge=charge,
              envelope_max_superpressure=maxsp, power_safety_layer_enabled=True)
  base = 1500.0

  def at_pressure(pressure):
    return H.ns(height=w.units.Distance(m=h - (pressure - 7000.0) * 1.5),
                temperature=206.0, pressure=pressure, density=0.1)
  a = H.choice('action', [C.DOWN, C.STAY, C.UP])
  bal = w.B.Balloon(s)
  bal.simulate_step(w.wind(), H.ns(at_pressure=at_pressure), a,
                    dt.timedelta(seconds=10), dt.timedelta(seconds=10))
  eff = effective(H, w, bal.state, base)
  low = h < 50500 * FT
  must_up = H.or_(h < 50000 * FT, sp < 150, sp >= maxsp - 150)
  no_down = H.or_(low, sp < 250, sp >= maxsp - 250, left < 0.025)
  if must_up:
    H.check('critical: ascend whatever is commanded', eff == 2)
  elif no_down:
    H.check('dangerous: never descend', eff != 0)
    H.check('dangerous: other commands pass', eff == (
        1 if a == C.DOWN else int(a)))
  else:
    H.check('safe: the command passes', eff == int(a))
  H.check('paused flag', bool(bal.state.navigation_is_paused) == bool(
      H.or_(must_up, no_down)))


def flag(H):
  """navigation_is_paused of a state is the disjunction of its layers' flags: all eight combinations."""
  w = bc.World(H, el=20.0)
  s = w.state()
  f = [H.flag(f'f{i}') for i in range(3)]
  s.power_safety_layer = H.ns(navigation_is_paused=f[0])
  s.envelope_safety_layer = H.ns(navigation_is_paused=f[1])
  s.altitude_safety_layer = H.ns(navigation_is_paused=f[2])
  H.check('any paused layer pauses', bool(s.navigation_is_paused) == any(f))


def fresh_layers(H):
  """Layers of a new state: created for its own burst limit (any in [1000, 4000] Pa), place and time, and shared with no other state."""
  w = bc.World(H, el=20.0)
  asked = []
  t0, dt = w.t0, w.dt

  def rise(latlng, time, time_delta=None):
    asked.append((latlng, time))
    return (t0 + dt.timedelta(hours=20), t0 + dt.timedelta(hours=8))
  H.patch(w.solar, 'get_next_sunrise_sunset', rise)
  lim = H.real('limit', 1000.0, 4000.0)
  x, y = H.reals('pos', 2, -1e5, 1e5)
  a = w.state(envelope_max_superpressure=lim, x=x, y=y)
  b = w.state()
  H.check('own place and time', H.known(H.and_(
      asked[0][0].x.m == x, asked[0][0].y.m == y, asked[0][1] == t0)))
  sp = H.real('sp', 300.0, 4000.0)
  H.assume(H.abs(sp - (lim - 150)) > 1e-6)
  H.assume(sp > 300.001)
  got = a.envelope_safety_layer.get_action(w.C.STAY, sp)
  H.check('burst protection at its own limit',
          (got == w.C.UP) == bool(sp >= lim - 150))
  H.check('layers are not shared', not (
      a.power_safety_layer is b.power_safety_layer or
      a.envelope_safety_layer is b.envelope_safety_layer or
      a.altitude_safety_layer is b.altitude_safety_layer))
  H.check('other state unaffected', not b.navigation_is_paused)


def obligations(tier):
  return [Ob('chain_power_on', chain, dict(power_on=True)),
          Ob('chain_power_off', chain, dict(power_on=False)),
          Ob('dangers', dangers, dict(maxsp=2380.0), max_paths=6000),
          Ob('flag', flag), Ob('fresh_layers', fresh_layers)]
