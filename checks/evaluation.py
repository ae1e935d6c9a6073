"""Evaluating an agent on a suite of seeds."""
import datetime as dt
import json

from vx.api import Ob


class Env:
  """Free rewards and positions; each flight ends where the plan says."""

  def __init__(self, H, radius, plan):
    self.H, self.radius, self.plan = H, radius, plan
    self.log, self.flight, self.i = [], -1, 0
    self.rewards, self.states, self.flags = {}, {}, {}

  def seed(self, seed=None):
    self.log.append(('seed', seed))
    self.flight += 1
    self.i = 0

  def reset(self):
    self.log.append(('reset',))
    return ('obs', self.flight, 0)

  def step(self, action):
    H, k = self.H, self.flight
    self.i += 1
    i = self.i
    self.log.append(('step', action))
    r = self.rewards[k, i] = H.real(f'r{k}_{i}', -1.0, 1.0)
    un = H.load('utils.units')
    # on the x axis or off it by a known distance: distances stay exact
    self.states[k, i] = H.ns(
        x=un.Distance(m=H.real(f'x{k}_{i}', -90000.0, 90000.0)),
        y=un.Distance(m=0.0), pressure=H.real(f'p{k}_{i}', 5000.0, 14000.0),
        superpressure=H.real(f's{k}_{i}', 0.0, 2000.0),
        time_elapsed=dt.timedelta(minutes=3 * i),
        battery_soc=H.real(f'b{k}_{i}', 0.0, 1.0))
    done = self.plan(k) == i
    why = ('out_of_power', 'envelope_burst', 'zeropressure')
    # the flags of steps that do not end the flight are not the flight's
    flag = H.choice(f'why{k}', [None, *why]) if done else why[0]
    self.flags[k, i] = {w: w == flag or not done for w in why}
    if done and flag is None:
      self.flags[k, i] = {}
    return ('obs', k, i), r, done, self.flags[k, i]

  def get_simulator_state(self):
    return self.H.ns(balloon_state=self.states[self.flight, self.i])

  def render(self, mode='human'):
    self.log.append(('render', self.i))


class Agent:

  def __init__(self):
    self.log, self.n = [], 0

  def get_name(self):
    return 'stub'

  def set_mode(self, mode):
    self.log.append(('mode', mode.value))

  def act(self):
    self.n += 1
    return (self.n * 5) % 3

  def begin_episode(self, observation):
    self.log.append(('begin', observation, self.act()))
    return self.log[-1][-1]

  def step(self, reward, observation):
    self.log.append(('step', reward, observation, self.act()))
    return self.log[-1][-1]

  def end_episode(self, reward, terminal=True):
    self.log.append(('end', reward, terminal))


def flights(H, limit, seeds, period):
  """Rewards, positions and states free; where each flight ends by choice."""
  el = H.load('eval.eval_lib')
  su = H.load('eval.suites')
  un = H.load('utils.units')
  ends = {}

  def plan(k):
    if k not in ends:
      ends[k] = H.choice(f'end{k}', [None] + list(range(1, limit + 1)))
    return ends[k]
  radius = 50000.0
  env, agent = Env(H, un.Distance(m=radius), plan), Agent()
  paths = H.flag('paths')
  suite = su.EvaluationSuite(list(seeds), limit)
  res = el.eval_agent(agent, env, suite, render_period=period,
                      calculate_flight_path=paths)
  H.check('one result per seed, in order', [r.seed for r in res] ==
          list(seeds))
  H.check('the suite is untouched', suite.seeds == list(seeds) and
          suite.max_episode_length == limit)
  H.check('evaluates in evaluation mode', agent.log[0] == ('mode', 'eval') and
          sum(e[0] == 'mode' for e in agent.log) == 1)
  elog, alog = list(env.log), agent.log[1:]
  for k, (seed, r) in enumerate(zip(seeds, res)):
    n = ends[k] if ends[k] is not None else limit
    H.check('seeded, then reset', elog[:2] == [('seed', seed), ('reset',)])
    elog = elog[2:]
    b = alog.pop(0)
    H.check('the agent sees the first observation', b[:2] == (
        'begin', ('obs', k, 0)))
    act, total, near = b[2], 0.0, 0
    for i in range(1, n + 1):
      H.check('the agent\'s action is taken', elog.pop(0) == ('step', act))
      if (i - 1) % period == 0:
        H.check('rendered on time', elog.pop(0) == ('render', i))
      a = alog.pop(0)
      H.check('the agent sees each observation', a[0] == 'step' and
              a[2] == ('obs', k, i))
      H.eq('and its reward', a[1], env.rewards[k, i])
      act = a[3]
      total = total + env.rewards[k, i]
      x = env.states[k, i].x.meters
      near = near + H.ite(H.and_(x <= radius, x >= -radius), 1, 0)
    e = alog.pop(0)
    H.check('the agent is told how the flight ended', e[0] == 'end' and
            bool(e[2]) == (ends[k] is not None))
    H.eq('its last reward', e[1], env.rewards[k, n])
    H.check('final timestep', r.final_timestep == n)
    H.between('cumulative reward', r.cumulative_reward, total - 1e-6,
              total + 1e-6)
    H.between('time within radius', r.time_within_radius * n, near - 1e-6,
              near + 1e-6)
    H.between('a proportion', r.time_within_radius, 0, 1)
    f = env.flags[k, n] if ends[k] is not None else {}
    H.check('why the flight ended', all(
        bool(getattr(r, name)) == bool(f.get(name, False)) for name in (
            'out_of_power', 'envelope_burst', 'zeropressure')))
    H.check('flight path length', len(r.flight_path) == (n if paths else 0))
    for i, p in enumerate(r.flight_path, 1):
      s = env.states[k, i]
      H.check('flight path', H.and_(
          p.x.meters == s.x.meters, p.y.meters == s.y.meters,
          p.pressure == s.pressure, p.superpressure == s.superpressure,
          p.battery_soc == s.battery_soc))
      H.check('flight path times', p.time_elapsed == dt.timedelta(
          minutes=3 * i))
  H.check('nothing else happens', not elog and not alog)


def radius(H):
  """The radius is the environment's; a flight of one step, off both axes."""
  el = H.load('eval.eval_lib')
  su = H.load('eval.suites')
  un = H.load('utils.units')
  r = H.real('radius', 1000.0, 200000.0)
  env = Env(H, un.Distance(m=r), lambda k: None)
  d = H.real('d', 0.0, 60000.0)
  sx, sy = H.choice('side', [(1, 1), (-1, 1), (1, -1), (-1, -1)])
  real_step = env.step

  def step(action):
    out = real_step(action)
    s = env.states[env.flight, env.i]
    s.x, s.y = un.Distance(m=3 * d * sx), un.Distance(m=4 * d * sy)
    return out
  env.step = step
  gap = 5 * d - r
  H.assume(H.or_(gap > 1e-3, gap < -1e-3))
  res = el.eval_agent(Agent(), env, su.EvaluationSuite([3], 1))
  H.check('within the radius or not', res[0].time_within_radius == H.ite(
      gap < 0, 1, 0))


def encode(H):
  """Results as JSON: every number free."""
  el = H.load('eval.eval_lib')
  un = H.load('utils.units')
  x, y = H.real('x', -1e6, 1e6), H.real('y', -1e6, 1e6)
  p, s, b = H.real('p', 0, 2e5), H.real('s', -5e3, 5e3), H.real('b', 0, 1)
  secs = H.choice('secs', [0, 180, 172800])
  st = H.ns(x=un.Distance(m=x), y=un.Distance(m=y), pressure=p,
            superpressure=s, time_elapsed=dt.timedelta(seconds=secs),
            battery_soc=b, date_time='unused')
  st = el.SimpleBalloonState.from_balloon_state(st)
  enc = el.EvalResultEncoder()
  d = enc.default(st)
  H.check('state: fields', sorted(d) == [
      'elapsed_seconds', 'power', 'pressure', 'superpressure', 'x', 'y'])
  H.between('state: x in kilometres', d['x'] * 1000 - x, -1e-6, 1e-6)
  H.between('state: y in kilometres', d['y'] * 1000 - y, -1e-6, 1e-6)
  H.check('state: the rest', H.and_(
      d['pressure'] == p, d['superpressure'] == s, d['power'] == b,
      d['elapsed_seconds'] == secs))
  c, t = H.real('c', -1e3, 1e3), H.real('t', 0, 1)
  flags = [H.flag(f'f{i}') for i in range(3)]
  n = H.int('n', 1, 960)
  r = el.EvaluationResult(
      seed=17, cumulative_reward=c, time_within_radius=t,
      out_of_power=flags[0], envelope_burst=flags[1], zeropressure=flags[2],
      final_timestep=n, flight_path=[st])
  d = enc.default(r)
  H.check('result', sorted(d) == [
      'cumulative_reward', 'envelope_burst', 'final_timestep', 'flight_path',
      'out_of_power', 'seed', 'time_within_radius', 'zeropressure'] and
          d['seed'] == 17 and [d['out_of_power'], d['envelope_burst'],
                               d['zeropressure']] == flags and
          list(d['flight_path']) == [st])
  H.check('result: numbers', H.and_(
      d['cumulative_reward'] == c, d['time_within_radius'] == t,
      d['final_timestep'] == n))
  np, jnp = H.lib('numpy'), H.lib('jax.numpy')
  one = H.choice('one', [0.25, -3.0, 17.0])
  for label, a in (('numpy', np.array([one])), ('jax', jnp.array([[one]])),
                   ('scalar', np.array(one))):
    H.check(f'an array of one number is that number: {label}',
            enc.default(a) == one)
  ok, _ = H.attempt(enc.default, np.array([one, one]))
  H.check('longer arrays are refused', not ok)
  text = str(r)
  H.check('text: whose result', 'seed=17' in text and
          f'out_of_power={flags[0]}' in text)
  ok, _ = H.attempt(enc.default, object())
  H.check('anything else is refused', not ok)


def suites(H):
  """A suite asked for is the caller's to change; which suite by choice."""
  su = H.load('eval.suites')
  names = ['big_eval', 'medium_eval', 'small_eval', 'tiny_eval', 'micro_eval']
  strata = [f'{s}_strata' for s in ('hardest', 'hard', 'mid', 'easy',
                                    'easiest')]
  H.check('the suites', set(names + strata + ['all_strata']) <= set(
      su.available_suites()))
  name = H.choice('name', names + strata + ['all_strata'])
  a = su.get_eval_suite(name)
  before = list(a.seeds)
  H.check('two-day flights', a.max_episode_length == 960)
  if name in names:
    H.check('seeds from zero', before == list(range(dict(zip(
        names, (10000, 1000, 100, 10, 1)))[name])))
  elif name == 'all_strata':
    H.check('all strata, each once', sorted(before) == sorted(
        s for n in strata for s in su.get_eval_suite(n).seeds))
  H.check('no seed twice', len(set(before)) == len(before))
  H.check('seeds are natural numbers', all(
      type(s) is int and s >= 0 for s in before))
  i = H.choice('i', [0, -1])
  a.seeds[i] = H.int('junk', -5, 10**6)
  a.seeds.append(7)
  del a.seeds[1:]
  a.max_episode_length = 3
  for n in names + strata + ['all_strata']:
    b = su.get_eval_suite(n)
    H.check('suites do not change', b.max_episode_length == 960 and
            (n != name or b.seeds == before))
  ok, e = H.attempt(su.get_eval_suite, H.choice('bad', ['', 'huge_eval',
                                                        None]))
  H.check('unknown suites are refused', not ok and isinstance(e, ValueError))


def refuse(H):
  """A suite of empty flights is refused before anything happens."""
  el = H.load('eval.eval_lib')
  su = H.load('eval.suites')
  un = H.load('utils.units')
  n = H.int('n', -5, 5)
  env = Env(H, un.Distance(m=50000.0), lambda k: 1)
  agent = Agent()
  ok, _ = H.attempt(el.eval_agent, agent, env, su.EvaluationSuite([1], n))
  H.check('refused exactly when there is no step', H.iff(ok, n > 0))
  if not ok:
    H.check('nothing happened', not env.log and not agent.log)


def obligations(tier):
  obs = [Ob('radius', radius), Ob('encode', encode), Ob('suites', suites),
         Ob('refuse', refuse)]
  shapes = [(2, (5, 5), 1), (3, (8,), 2)]
  if tier == 'thorough':
    shapes += [(1, (4, 0, 9), 10), (3, (9, 2), 2), (6, (1,), 4)]
  for a, b, c in shapes:
    obs.append(Ob(f'flights_{a}_{len(b)}', flights, dict(
        limit=a, seeds=b, period=c)))
  return obs
