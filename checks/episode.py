"""What one environment step and reset do, seen from outside."""
from vx.api import Ob
from checks import arena_common as ac
from checks import balloon_common as bc


class StubArena:
  """An arena whose answers are free."""

  def __init__(self, H, statuses=None, hours=0.0):
    self.H = H
    self.log = []
    self.n = 0
    self.B = H.load('env.balloon.balloon')
    self.status = None
    self.t = H.dt.timedelta(hours=hours)
    self.states = []
    self.feature_constructor = H.ns(observation_space='space')

  def reset(self, seed=None):
    self.log.append(('reset', str(seed)))
    self.n += 1
    self.make(self.B.BalloonStatus.OK)
    return self.H.np.array([float(self.n), 0.0])

  def make(self, status):
    self.state = self.H.ns(balloon_state=self.H.ns(
        status=status, time_elapsed=self.t, tag=self.n))
    self.states.append(self.state)

  def step(self, action):
    self.log.append(('step', action))
    self.n += 1
    self.make(self.status)
    return self.H.np.array([float(self.n), 1.0])

  def get_simulator_state(self):
    return self.state


class Renderer:
  render_modes = ['human', 'rgb_array']

  def __init__(self, log):
    self.log = log

  def reset(self):
    self.log.append(('render_reset',))

  def step(self, state):
    self.log.append(('render_step', state))

  def render(self, mode):
    return ('frame', mode)


def make_env(H, arena, renderer=None, **k):
  env = H.load('env.balloon_env')
  rewards = []

  def reward(simulator_state):
    r = H.uf('reward', [float(simulator_state.balloon_state.tag)], 0.0, 1.0)
    rewards.append((simulator_state, r))
    return r
  e = env.BalloonEnv(arena=arena, reward_function=reward, renderer=renderer,
                     **k)
  return e, rewards


def env_step(H, n):
  """n steps, every status and command at each, elapsed time free: the arena is stepped once with the commanded action; the observation, the reward of the new state, the terminal flag (status is not OK) and the info flags and elapsed time of the new state are returned; a renderer sees the new state once."""
  B = H.load('env.balloon.balloon')
  C = H.load('env.balloon.control').AltitudeControlCommand
  arena = StubArena(H)
  with_renderer = H.flag('renderer')
  r = Renderer(arena.log) if with_renderer else None
  e, rewards = make_env(H, arena, r, seed=3)
  S = B.BalloonStatus
  for i in range(n):
    arena.status = H.choice(f'status{i}', [S.OK, S.OUT_OF_POWER, S.BURST,
                                           S.ZEROPRESSURE])
    arena.t = H.dt.timedelta(seconds=H.int(f's{i}', 0, 10**6))
    a = H.choice(f'a{i}', [0, 1, 2])
    del arena.log[:], rewards[:]
    obs, reward, done, info = e.step(a)
    steps = [x for x in arena.log if x[0] == 'step']
    H.check('one arena step', len(steps) == 1)
    H.check('the commanded action', steps[0][1] is C(a))
    H.check('no reset', not [x for x in arena.log if x[0] == 'reset'])
    H.eq('observation of this step', obs[0], float(arena.n))
    H.check('reward of the new state', len(rewards) >= 1 and
            rewards[-1][0] is arena.state)
    H.eq('reward', reward, rewards[-1][1])
    H.check('terminal iff not OK', bool(done) == (arena.status is not S.OK))
    H.check('out_of_power', bool(info['out_of_power']) ==
            (arena.status is S.OUT_OF_POWER))
    H.check('envelope_burst', bool(info['envelope_burst']) ==
            (arena.status is S.BURST))
    H.check('zeropressure', bool(info['zeropressure']) ==
            (arena.status is S.ZEROPRESSURE))
    H.check('time_elapsed', info['time_elapsed'] == arena.t)
    if with_renderer:
      seen = [x for x in arena.log if x[0] == 'render_step']
      H.check('rendered once', len(seen) == 1 and seen[0][1] is arena.state)


def bad_action(H):
  """Any integer outside {0, 1, 2} in [-20, 20] is refused before the arena is touched."""
  arena = StubArena(H)
  e, _ = make_env(H, arena, seed=3)
  arena.status = arena.B.BalloonStatus.OK
  a = H.int('a', -20, 20)
  H.assume(H.or_(a < 0, a > 2))
  del arena.log[:]
  a = int(a.__index__())
  ok, r = H.attempt(e.step, a)
  H.check('refused', (not ok) and isinstance(r, ValueError))
  H.check('arena untouched', not arena.log)


def env_reset(H):
  """A reset with a free seed, then unseeded resets: the observation is the arena's, info (when asked for) that of the new state, every reset of the arena gets its own key, and reseeding replays the same keys."""
  arena = StubArena(H)
  r = Renderer(arena.log)
  e, _ = make_env(H, arena, r, seed=3)
  arena.status = arena.B.BalloonStatus.OK
  seed = H.choice('seed', [0, 1, 5, 2**31 - 1])
  want = H.flag('info')
  keys = []
  out = None
  for k in range(4):
    del arena.log[:]
    kw = dict(seed=seed) if k == 0 else {}
    if want:
      kw['return_info'] = True
    out = e.reset(**kw)
    resets = [x for x in arena.log if x[0] == 'reset']
    H.check('one arena reset', len(resets) == 1)
    keys.append(resets[0][1])
    ob = out[0] if want else out
    H.eq('observation', ob[0], float(arena.n))
    if want:
      H.check('info', not out[1]['out_of_power'] and
              not out[1]['envelope_burst'] and not out[1]['zeropressure'] and
              out[1]['time_elapsed'] == arena.t)
    rs = [x[0] for x in arena.log if x[0].startswith('render')]
    H.check('renderer reset, then shown the first state',
            rs == ['render_reset', 'render_step'] and
            arena.log[-1][-1] is arena.state)
    e.step(1)
  H.check('all keys differ', len(set(keys)) == 4)
  again = []
  for k in range(4):
    del arena.log[:]
    e.reset(**(dict(seed=seed) if k == 0 else {}))
    again.append([x for x in arena.log if x[0] == 'reset'][0][1])
  H.check('same seed, same keys', again == keys)
  e.reset(seed=seed + 1)
  H.check('another seed, another key',
          [x for x in arena.log if x[0] == 'reset'][-1][1] not in keys)


def spaces(H):
  """Three discrete actions, rewards in [0, 1], the feature constructor's observation space, rendering delegated; with no arena, the arena is built from the given factories."""
  arena = StubArena(H)
  e, _ = make_env(H, arena, Renderer(arena.log), seed=3)
  H.check('three actions', e.action_space.n == 3)
  H.check('reward range', tuple(e.reward_range) == (0.0, 1.0))
  H.check('observation space', e.observation_space == 'space')
  H.check('render', e.render('human') == ('frame', 'human') and
          e.render('rgb_array') == ('frame', 'rgb_array'))
  H.check('no wrapper around it', e.unwrapped is e)
  with e as inside:
    H.check('usable in a with statement', inside is e)

  def fails():
    with e:
      raise KeyError('x')
  ok, r = H.attempt(fails)
  H.check('errors inside it are not swallowed', (not ok) and
          isinstance(r, KeyError))
  H.check('render modes advertised', list(
      e.metadata['render.modes']) == ['human', 'rgb_array'])
  e2, _ = make_env(H, StubArena(H), seed=3)
  H.check('no renderer, no frame', e2.render() is None)
  S = ac.Setup(H)
  env = H.load('env.balloon_env')
  winds = []

  def factory():
    winds.append(S.wind())
    return winds[-1]
  e3 = env.BalloonEnv(wind_field_factory=factory, seed=3,
                      feature_constructor_factory=S.factory)
  H.check('one wind field', len(winds) == 1)
  st = e3.get_simulator_state()
  H.check('the arena flies in it', st.wind_field is winds[0])
  H.check('features observe that wind field and atmosphere',
          S.log[-1][1].forecast is winds[0] and
          S.log[-1][1].atmosphere is st.atmosphere)


def arena_step(H, n):
  """n arena steps from a balloon at a free place, wind an arbitrary function of place and time, every command: each step flies 180 s in the wind at the position and time where it started, then the features observe the new state with the wind at the new position, and the observation returned is made after that."""
  S = ac.Setup(H)
  w = S.w
  w.stub_power()
  w.fixed_thermal()
  a = S.arena()
  x, y = H.reals('p', 2, -3e5, 3e5)
  s = w.no_layers(w.state(x=x, y=y, battery_charge=2000.0))
  s.time_elapsed = H.dt.timedelta(seconds=H.int('t0', 0, 10**6))
  s.date_time = w.t0
  a.set_balloon_state(s)
  H.check('state in place', a.get_balloon_state() is s)
  C = w.C
  for i in range(n):
    b = bc.snap(s)
    pos = [b['x'], b['y'], b['pressure'], b['time_elapsed']]
    u = H.uf('wu', pos, -80.0, 80.0)
    v = H.uf('wv', pos, -80.0, 80.0)
    cmd = H.choice(f'a{i}', [C.DOWN, C.STAY, C.UP])
    del S.log[:]
    obs = a.step(cmd)
    s = a.get_balloon_state()
    c = bc.snap(s)
    H.check('still flying', s.status.name == 'OK')
    H.eq('x', c['x'], b['x'] + 180.0 * u)
    H.eq('y', c['y'], b['y'] + 180.0 * v)
    H.check('clock', H.and_(c['date_time'] == b['date_time'] +
                            H.dt.timedelta(seconds=180),
                            c['time_elapsed'] == b['time_elapsed'] + 180))
    H.check('command recorded', s.last_command is cmd)
    kinds = [e[0] for e in S.log]
    H.check('observes once, before the features', kinds == ['observe',
                                                            'features'])
    o = S.log[0][2]
    now = [c['x'], c['y'], c['pressure'], c['time_elapsed']]
    H.eq('observed x', o['x'], c['x'])
    H.eq('observed y', o['y'], c['y'])
    H.eq('observed pressure', o['pressure'], c['pressure'])
    H.eq('observed wind u', o['u'], H.uf('wu', now, -80.0, 80.0))
    H.eq('observed wind v', o['v'], H.uf('wv', now, -80.0, 80.0))
    H.eq('returns the features', obs[0], float(S.log[0][1].n))


def arena_state(H):
  """Getting and setting the simulator state: the state handed out is the balloon, wind field and atmosphere in use, and after setting another one the next step flies that balloon in that wind and atmosphere."""
  S = ac.Setup(H)
  w = S.w
  w.stub_power()
  w.fixed_thermal()
  wf1 = S.wind('w')
  a = S.arena(wind=wf1)
  sd = H.load('env.simulator_data')
  st = a.get_simulator_state()
  H.check('in use', st.balloon_state is a.get_balloon_state() and
          st.wind_field is wf1 and isinstance(st.atmosphere, S.Atmosphere))
  x, y = H.reals('p', 2, -3e5, 3e5)
  s = w.no_layers(w.state(x=x, y=y, battery_charge=2000.0))
  wf2 = S.wind('q')
  seen = []

  class Atm2(S.Atmosphere):

    def at_pressure(self, pressure):
      seen.append(pressure)
      return S.Atmosphere.at_pressure(self, pressure)
  atm2 = Atm2(H.key(8))
  a.set_simulator_state(sd.SimulatorState(s, wf2, atm2))
  st = a.get_simulator_state()
  H.check('round trip', st.balloon_state is s and st.wind_field is wf2 and
          st.atmosphere is atm2)
  m = a.get_measurements()
  H.check('measures it', m.balloon_observation is s)
  pos = [x, y, s.pressure, 0.0]
  u, v = H.uf('qu', pos, -80.0, 80.0), H.uf('qv', pos, -80.0, 80.0)
  H.eq('wind u measured', m.wind_at_balloon.u.mps, u)
  H.eq('wind v measured', m.wind_at_balloon.v.mps, v)
  a.step(w.C.STAY)
  s = a.get_balloon_state()
  H.eq('flies in the new wind', s.x.m, x + 180.0 * u)
  H.eq('flies in the new wind, y', s.y.m, y + 180.0 * v)
  H.check('and in the new atmosphere', len(seen) > 0)


def arena_reset(H):
  """Every random draw free: a reset draws the atmosphere, the start, the balloon and the wind from distinct keys, starts the wind field at the balloon's start time, builds a fresh feature constructor over that wind and atmosphere, and lets it observe the initial state once before the first features."""
  H.script_rng()
  from vx import shims
  S = ac.Setup(H, sampling=False)
  wind = S.wind()
  a = S.arena(wind=wind)
  k1 = wind.keys[-1]
  for seed in (5, 6):
    shims.RNG.log = []
    del S.log[:], S.cold_calls[:]
    obs = a.reset(seed)
    st = a.get_balloon_state()
    H.check('wind reset once, from the start time', len(
        [e for e in S.log if e[0] == 'wind_reset']) == 1 and H.known(
            wind.keys[-1][1] == st.date_time))
    H.check('atmosphere drawn once', len(
        [e for e in S.log if e[0] == 'atmosphere']) == 1)
    tail = [e for e in S.log if e[0] in ('new', 'observe', 'features')]
    H.check('fresh features observe once', [e[0] for e in tail] ==
            ['new', 'observe', 'features'])
    f = tail[0][1]
    H.check('over this wind and atmosphere', f.forecast is wind and
            f.atmosphere is a.get_simulator_state().atmosphere)
    o = tail[1][2]
    pos = [st.x.m, st.y.m, st.pressure, 0.0]
    H.eq('wind at the start', o['u'], H.uf('wu', pos, -80.0, 80.0))
    H.check('observes the new balloon', o['state'] is st)
    H.eq('first observation', obs[0], 1.0)
    order = [e[0] for e in S.log]
    H.check('wind before the first observation',
            order.index('wind_reset') < order.index('observe'))
    H.check('initialised once', len(S.cold_calls) == 1)
    used = {f'Key({r[0]})' for r in shims.RNG.log}
    extra = [wind.keys[-1][0], [e for e in S.log if e[0] == 'atmosphere'][0][
        2]] + S.ir_keys[-1:]
    H.check('no key feeds two consumers', len(set(extra)) == 3 and
            not (set(extra) & used))
    kinds = {}
    for path, kind, ex, idx, _ in shims.RNG.log:
      kinds.setdefault(path, []).append((kind, ex, idx))
    H.check('no key drawn from twice', all(
        len(v) == len(set(v)) and len({z[:2] for z in v}) == 1
        for v in kinds.values()))
  H.check('another seed, another wind', wind.keys[-1] != k1)


def obligations(tier):
  n = 1 if tier == 'quick' else 2
  return [Ob('env_step', env_step, dict(n=n)),
          Ob('bad_action', bad_action), Ob('env_reset', env_reset),
          Ob('spaces', spaces), Ob('arena_step', arena_step, dict(n=n)),
          Ob('arena_state', arena_state), Ob('arena_reset', arena_reset)]
