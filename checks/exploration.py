"""Exploration policies: the random walk and MarcoPolo's phases."""
from vx.api import Ob

LO, HI = 5000.0, 14000.0


class Draws:
  """Every random draw is a free number, one per key."""

  def __init__(self, H, lo, hi):
    self.H, self.lo, self.hi = H, lo, hi
    self.seen = {}
    self.order = []
    H.script_rng()
    H.fixed_draw = self.draw

  def draw(self, name):
    if name not in self.seen:
      self.seen[name] = self.H.real(f'z{len(self.seen)}', self.lo, self.hi)
    self.order.append(name)
    return self.seen[name]


def observation(H, pressure):
  v = [(pressure - LO) / (HI - LO), 0.9, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.0, 1.0,
       0.0, 1.0, 0.0, 0.0, 0.2, 0.1]
  return H.array(v + [0.5] * 1083)


BAND = 'climbs from below the band, sinks from above it, else stays'


def fits(H, act, p, target):
  """The action for a pressure and a target: a 100 Pa dead band."""
  return H.and_(H.iff(act == 2, p - 100.0 > target),
                H.iff(act == 0, p + 100.0 < target))


def band(H, act, p, target):
  H.check('action', act in (0, 1, 2))
  H.check(BAND, fits(H, act, p, target))


def walk(H, steps, episodes, part='walk'):
  """Pressures, targets and Gaussian draws free; the draws after the first of an episode are zero ("walk") or free ("scale")."""
  d = Draws(H, -3.0, 3.0)
  sampling = H.load('utils.sampling')
  targets = []

  def sample(key, *a, **k):
    targets.append((key, H.real(f'target{len(targets)}', 5000.0, 14000.0)))
    return targets[-1][1]
  H.patch(sampling, 'sample_pressure', sample)
  rw = H.load('agents.random_walk_agent')
  agent = rw.RandomWalkAgent(3, (1099,), seed=5)
  for episode in range(episodes):
    n = len(targets)
    p = H.real(f'p{episode}_0', 4000.0, 15000.0)
    act = agent.begin_episode(observation(H, p))
    H.check('one new target per episode', len(targets) == n + 1)
    target = targets[-1][1]
    keep(H, p, target)
    band(H, act, p, target)
    for i in range(steps):
      m = len(d.order)
      p = H.real(f'p{episode}_{i + 1}', 4000.0, 15000.0)
      act = agent.step(H.real('r', -1.0, 1.0) if i == 0 and episode == 0
                       else 0.5, observation(H, p))
      H.check('one draw per step', len(d.order) == m + 1)
      z = d.seen[d.order[-1]]
      if i and part == 'walk':
        H.assume(z == 0)
      since_start = target + (i + 1) * 180.0 * 0.1666 * z
      target = target + 180.0 * 0.1666 * z
      keep(H, p, target)
      if i and part == 'scale':
        # known: the variance grows with the time since the episode began
        keep(H, p, since_start)
        H.check('a later step walks for the time of the step or the episode',
                H.or_(fits(H, act, p, target), fits(H, act, p, since_start)))
        H.check('a later step moves the target no further than three minutes '
                'of walking', fits(H, act, p, target))
      else:
        band(H, act, p, target)
    agent.end_episode(0.0, True)
  H.check('no randomness is used twice',
          len(set(d.order)) == len(d.order) and
          len({str(k) for k, _ in targets}) == len(targets))


def keep(H, p, target):
  for s in (-100.0, 100.0):
    H.assume(H.abs(p - target - s) > 1e-6)


class Other:
  """The exploratory agent: remembers what it was told."""

  def __init__(self, num_actions, observation_shape):
    self.made = (num_actions, observation_shape)
    self.log = []

  def begin_episode(self, observation):
    self.log.append(('begin', observation))
    return 77

  def step(self, reward, observation):
    self.log.append(('step', reward, observation))
    return 50 + len(self.log)


def phases(H, first, second):
  """Episode probability and draws free; two episodes of the given lengths."""
  d = Draws(H, 0.0, 1.0)
  mp = H.load('agents.marco_polo_exploration')
  prob = H.real('p', 0.0, 1.0)
  others = []

  def make(num_actions, observation_shape):
    others.append(Other(num_actions, observation_shape))
    return others[-1]
  e = mp.MarcoPoloExploration(
      3, (1099,), exploratory_episode_probability=prob,
      exploratory_agent_constructor=make, seed=3)
  o = others[0]
  H.check('one exploratory agent with the environment\'s shape',
          len(others) == 1 and o.made == (3, (1099,)))
  for ep, length in enumerate((first, second)):
    m = len(d.order)
    obs = ('obs', ep)
    n = len(o.log)
    H.check('an episode starts with the agent\'s own action',
            e.begin_episode(obs, 40 + ep) == 40 + ep)
    H.check('the exploratory agent is told of the episode',
            o.log[n:] == [('begin', obs)])
    H.check('one draw per episode', len(d.order) == m + 1)
    u = d.seen[d.order[-1]]
    H.assume(H.abs(u - prob) > 1e-6)
    explores = bool(u < prob)
    ok = True
    for i in range(1, length + 1):
      n = len(o.log)
      got = e.step(0.25 * i, ('obs', ep, i), i % 3)
      if explores and i % 120 >= 80:  # 4 h of policy, 2 h of exploration
        ok = ok and o.log[n:] == [('step', 0.25 * i, ('obs', ep, i))]
        ok = ok and got == 50 + len(o.log)
      else:
        ok = ok and got == i % 3 and len(o.log) == n
    H.check('phases: 4 h of the policy, then 2 h of exploration', ok)
  H.check('no randomness is used twice', len(set(d.order)) == len(d.order))


def seeds(H):
  """Two episodes of both explorers: a seed decides every draw, other seeds share none, and without one the clock decides."""
  d = Draws(H, 0.0, 1.0)
  sampling = H.load('utils.sampling')
  keys = []

  def sample(key, *a, **k):
    keys.append(key)
    return 9000.0
  H.patch(sampling, 'sample_pressure', sample)
  rw = H.load('agents.random_walk_agent')
  mp = H.load('agents.marco_polo_exploration')
  clock = [1e9]

  def now():
    clock[0] += 0.5
    return clock[0]
  H.patch(rw, 'time', H.ns(time=now))
  H.patch(mp, 'time', H.ns(time=now))
  obs = observation(H, 9000.0)

  def walker(seed):
    n, m = len(keys), len(d.order)
    a = rw.RandomWalkAgent(3, (1099,), seed=seed)
    for _ in range(2):
      a.begin_episode(obs)
      a.step(0.0, obs)
    return [str(k) for k in keys[n:]] + [str(x) for x in d.order[m:]]

  def polo(seed):
    m = len(d.order)
    e = mp.MarcoPoloExploration(
        3, (1099,), exploratory_episode_probability=0.5,
        exploratory_agent_constructor=Other, seed=seed)
    for _ in range(2):
      e.begin_episode(obs, 1)
    return [str(x) for x in d.order[m:]]
  for name, f in (('random walk', walker), ('MarcoPolo', polo)):
    r = [f(q) for q in (5, 5, 0, None, None, 0)]
    H.check(f'{name}: a seed decides', r[0] == r[1] and r[2] == r[5])
    H.check(f'{name}: other seeds, other draws', all(
        not set(r[i]) & set(r[j])
        for i, j in ((0, 2), (0, 3), (2, 3), (3, 4))))


def passive(H):
  """The default wrapper never changes an action."""
  ex = H.load('agents.exploration')
  e = ex.Exploration(3, (1099,))
  a = H.int('a', 0, 2)
  H.eq('begin', e.begin_episode('x', a), a)
  H.eq('step', e.step(H.real('r', -1.0, 1.0), 'x', a), a)


def obligations(tier):
  n = 5 if tier == 'thorough' else 3
  obs = [Ob('passive', passive), Ob('seeds', seeds),
         Ob('walk_twice', walk, dict(steps=1, episodes=2)),
         Ob('walk', walk, dict(steps=n, episodes=1)),
         Ob('scale', walk, dict(steps=2, episodes=1, part='scale'))]
  lengths = [(85, 130), (200, 81), (0, 320), (79, 960)]
  if tier == 'thorough':
    lengths += [(i, 250) for i in range(60, 260, 7)]
  for a, b in lengths:
    obs.append(Ob(f'phases_{a}_{b}', phases, dict(first=a, second=b)))
  return obs
