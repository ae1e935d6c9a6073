"""Envelope safety layer: superpressure histories against a reference layer."""
from vx.api import Ob

UP, STAY, DOWN = 2, 1, 0
CRIT, BUF, HYS = 150, 250, 50
EPS = 1e-6


class Reference:

  def __init__(self, maxsp):
    self.max = maxsp
    self.state = 'nominal'

  def edges(self):
    m = self.max
    return (CRIT, BUF, BUF + HYS, m - BUF - HYS, m - BUF, m - CRIT)

  def step(self, action, sp):
    e = self.edges()
    if sp < e[0]:
      self.state = 'low_critical'
    elif sp < e[1]:
      self.state = 'low'
    elif sp < e[2]:
      self.state = 'low' if self.state in ('low', 'low_critical') else 'nominal'
    elif sp < e[3]:
      self.state = 'nominal'
    elif sp < e[4]:
      self.state = 'high' if self.state in ('high',
                                            'high_critical') else 'nominal'
    elif sp < e[5]:
      self.state = 'high'
    else:
      self.state = 'high_critical'
    if self.state in ('low_critical', 'high_critical'):
      return UP
    if self.state != 'nominal' and action == DOWN:
      return STAY
    return action


def off(H, sp, edges):
  for t in edges:
    H.assume(H.or_(sp < t - EPS, sp > t + EPS))


def history(H, k, free, sym_max):
  """k successive get_action calls from a fresh layer; superpressure free in [-500, 6000] Pa at every call (off the six region edges by 1e-6 Pa); every command at the last `free` calls; maximum superpressure 2380 Pa or any value in [700, 5000] Pa."""
  mod = H.load('env.balloon.envelope_safety')
  C = H.load('env.balloon.control').AltitudeControlCommand
  maxsp = H.real('maxsp', 700.0, 5000.0) if sym_max else 2380
  layer = mod.EnvelopeSafetyLayer(maxsp)
  ref = Reference(maxsp)
  H.check('starts unpaused', not layer.navigation_is_paused)
  for i in range(k):
    a = H.choice(f'a{i}', [C.DOWN, C.STAY, C.UP]) if i >= k - free else C.DOWN
    sp = H.real(f'sp{i}', -500.0, 6000.0)
    off(H, sp, ref.edges())
    got = layer.get_action(a, sp)
    want = ref.step(int(a), sp)
    H.check('action', int(got) == want)
    H.check('is a command', got in (C.DOWN, C.STAY, C.UP))
    H.check('paused flag',
            bool(layer.navigation_is_paused) == (ref.state != 'nominal'))
    if i == k - 1:
      H.observe('action', int(got))


def two_layers(H):
  """Two layers (of one limit or two) do not influence each other, made one after the other or in between, two calls to the first and one to the second in any order, with free superpressures."""
  mod = H.load('env.balloon.envelope_safety')
  C = H.load('env.balloon.control').AltitudeControlCommand
  limits = (2380, H.choice('limit', [2380, 1500]))
  layers, refs = {}, {}

  def make(i):
    layers[i] = mod.EnvelopeSafetyLayer(limits[i])
    refs[i] = Reference(limits[i])
  late = H.flag('late')
  make(0)
  if not late:
    make(1)
  order = H.choice('order', [(0, 1, 0), (0, 0, 1), (1, 0)])
  for n, i in enumerate(order):
    if i not in layers:
      make(i)
    sp = H.real(f'x{n}', -500.0, 6000.0)
    off(H, sp, refs[i].edges())
    got = layers[i].get_action(C.DOWN, sp)
    H.check('action', int(got) == refs[i].step(DOWN, sp))
    for j, layer in layers.items():
      H.check('flag', bool(layer.navigation_is_paused) == (
          refs[j].state != 'nominal'))


def in_flight(H, k):
  """A real balloon with any burst limit in [1000, 4000] Pa stepped k times, every command at the last step, its superpressure set to a free value in [1, 4500] Pa before each step: the physics obeys the reference layer with that balloon's limit."""
  from checks import balloon_common as bc
  w = bc.World(H, el=20.0)
  w.stub_power()
  w.fixed_thermal()
  C = w.C
  maxsp = H.real('maxsp', 1000.0, 4000.0)
  s = w.state(envelope_max_superpressure=maxsp)
  bal = w.B.Balloon(s)
  ref = Reference(maxsp)
  for i in range(k):
    sp = H.real(f'sp{i}', 1.0, 4500.0)
    off(H, sp, ref.edges())
    s.pressure, s.superpressure = 7000.0, sp
    s.status = w.B.BalloonStatus.OK
    a = H.choice(f'a{i}', [C.DOWN, C.STAY, C.UP]) if i == k - 1 else C.DOWN
    bal.simulate_step(w.wind(), w.atmosphere(), a,
                      w.dt.timedelta(seconds=10), w.dt.timedelta(seconds=10))
    want = ref.step(int(a), sp)
    st = bal.state
    got = DOWN if st.acs_power.watts > 0 else (
        UP if st.acs_mass_flow < 0 else STAY)
    H.check('the balloon does what its layer says', got == want)
    H.check('paused flag',
            bool(st.navigation_is_paused) == (ref.state != 'nominal'))


def obligations(tier):
  obs = [Ob('history3', history, dict(k=3, free=1, sym_max=False),
            need=('action',)),
         Ob('history2_any_limit', history, dict(k=2, free=2, sym_max=True)),
         Ob('in_flight1', in_flight, dict(k=1)),
         Ob('two_layers', two_layers)]
  if tier == 'thorough':
    obs.append(Ob('in_flight2', in_flight, dict(k=2), max_paths=20000,
                  budget_s=800))
    obs += [Ob('history3_any_limit', history, dict(k=3, free=3, sym_max=True),
               max_paths=20000, budget_s=800),
            Ob('history4', history, dict(k=4, free=1, sym_max=False),
               max_paths=40000, budget_s=800)]
  return obs
