"""Altitude safety layer: histories of altitudes against a reference layer."""
from vx.api import Ob

UP, STAY, DOWN = 2, 1, 0
FT = 0.3048
T_MIN, T_BUF, T_HYS = 50000 * FT, 50500 * FT, 51000 * FT
EPS = 1e-6


class Reference:
  """What the layer owes its user, written from its documentation."""

  def __init__(self):
    self.restricted = False  # navigation paused

  def region(self, h):
    if h < T_MIN:
      return 'very_low'
    if h < T_BUF:
      return 'low'
    if h < T_HYS:
      return 'hysteresis'
    return 'nominal'

  def step(self, action, h):
    r = self.region(h)
    if r in ('very_low', 'low'):
      self.restricted = True
    elif r == 'nominal':
      self.restricted = False
    if r == 'very_low':
      return UP
    if self.restricted and action == DOWN:
      return STAY
    return action


def off_threshold(H, h):
  for t in (T_MIN, T_BUF, T_HYS):
    H.assume(H.or_(h < t - EPS, h > t + EPS))


def history(H, k, free):
  """k successive get_action calls from a fresh layer, altitude free in [0, 30] km at every call and off the three thresholds by 1e-6 m, every command at every one of the last `free` calls."""
  mod = H.load('env.balloon.altitude_safety')
  control = H.load('env.balloon.control')
  units = H.load('utils.units')
  C = control.AltitudeControlCommand
  layer = mod.AltitudeSafetyLayer()
  H.check('starts unpaused', not layer.navigation_is_paused)
  ref = Reference()
  seen = []

  class Atmosphere:

    def at_pressure(self, p):
      seen.append(p)
      return H.ns(height=units.Distance(m=heights[-1]), pressure=p)

  heights = []
  for i in range(k):
    a = H.choice(f'a{i}', [C.DOWN, C.STAY, C.UP]) if i >= k - free else C.DOWN
    h = H.real(f'h{i}', 0.0, 30000.0)
    off_threshold(H, h)
    p = H.real(f'p{i}', 1000.0, 20000.0)
    heights.append(h)
    got = layer.get_action(a, Atmosphere(), p)
    want = ref.step(int(a), h)
    H.check('reads the balloon pressure', bool(seen) and H.known(seen[-1] == p))
    H.check('action', int(got) == want)
    H.check('is a command', got in (C.DOWN, C.STAY, C.UP))
    H.check('paused flag', bool(layer.navigation_is_paused) == ref.restricted)
    H.observe(f'action{i}', int(got))


def real_atmosphere(H, alpha):
  """One call with the real Atmosphere (lapse draw fixed) at a symbolic pressure in [1, 20] kPa: the verdict follows the altitude the same atmosphere reports for that pressure."""
  mod = H.load('env.balloon.altitude_safety')
  control = H.load('env.balloon.control')
  sa = H.load('env.balloon.standard_atmosphere')
  C = control.AltitudeControlCommand
  H.script_rng()
  H.fixed_draw = lambda name: alpha
  atm = sa.Atmosphere(H.key(0))
  p = H.real('p', 1000.0, 20000.0)
  h = atm.at_pressure(p).height.meters
  off_threshold(H, h)
  layer = mod.AltitudeSafetyLayer()
  got = layer.get_action(C.DOWN, atm, p)
  want = Reference().step(DOWN, h)
  H.check('action', int(got) == want)


def two_layers(H):
  """Two layers of two balloons do not influence each other (one call each, free altitudes)."""
  mod = H.load('env.balloon.altitude_safety')
  control = H.load('env.balloon.control')
  units = H.load('utils.units')
  C = control.AltitudeControlCommand

  def atm(h):
    return H.ns(at_pressure=lambda p: H.ns(height=units.Distance(m=h)))
  x, y = mod.AltitudeSafetyLayer(), mod.AltitudeSafetyLayer()
  h0, h1 = H.real('h0', 0.0, 30000.0), H.real('h1', 0.0, 30000.0)
  off_threshold(H, h0)
  off_threshold(H, h1)
  x.get_action(C.DOWN, atm(h0), 5000.0)
  got = y.get_action(C.DOWN, atm(h1), 5000.0)
  H.check('independent', int(got) == Reference().step(DOWN, h1))


def in_flight(H, k):
  """A real balloon stepped k times with every command at the last step, its pressure set to a free value in [1, 20] kPa before each step, in an atmosphere reporting any altitude for it: the physics obeys the reference layer at the altitude of that balloon, at the start of that step."""
  from checks import balloon_common as bc
  w = bc.World(H, el=20.0)
  w.stub_power()
  w.fixed_thermal()
  C = w.C
  s = w.state()
  bal = w.B.Balloon(s)
  ref = Reference()
  for i in range(k):
    p = H.real(f'p{i}', 1000.0, 20000.0)
    h = H.real(f'h{i}', 0.0, 30000.0)
    off_threshold(H, h)
    s.pressure = p
    s.superpressure = 1200.0
    s.status = w.B.BalloonStatus.OK

    def at_pressure(pressure, p=p, h=h):
      return H.ns(height=w.units.Distance(m=h - (pressure - p) * 1.5),
                  temperature=206.0, pressure=pressure, density=0.1)
    a = H.choice(f'a{i}', [C.DOWN, C.STAY, C.UP]) if i == k - 1 else C.DOWN
    bal.simulate_step(w.wind(), H.ns(at_pressure=at_pressure), a,
                      w.dt.timedelta(seconds=10), w.dt.timedelta(seconds=10))
    want = ref.step(int(a), h)
    st = bal.state
    got = DOWN if st.acs_power.watts > 0 else (
        UP if st.acs_mass_flow < 0 else STAY)
    H.check('the balloon does what its layer says', got == want)
    H.check('paused flag',
            bool(st.navigation_is_paused) == ref.restricted)


def obligations(tier):
  obs = [Ob('history3', history, dict(k=3, free=1), need=('action',)),
         Ob('history2_all_commands', history, dict(k=2, free=2)),
         Ob('in_flight1', in_flight, dict(k=1)),
         Ob('two_layers', two_layers),
         Ob('real_atmosphere', real_atmosphere, dict(alpha=0.375))]
  if tier == 'thorough':
    obs.append(Ob('in_flight2', in_flight, dict(k=2), max_paths=20000,
                  budget_s=800))
    obs += [Ob(f'real_atmosphere_{a}', real_atmosphere, dict(alpha=a))
            for a in (0.0, 0.25, 0.75, 1.0)]
    obs += [Ob('history3_all_commands', history, dict(k=3, free=3),
               max_paths=20000, budget_s=600),
            Ob('history5', history, dict(k=5, free=1), max_paths=20000,
               budget_s=600)]
  return obs
