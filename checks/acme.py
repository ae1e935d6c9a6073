"""Acme: environments, actors, agents and runs built for it.

Acme, Haiku, RLax, dm_env and Launchpad are not installed here: stand-ins take
their places in symbolic runs and in replays alike.  What is checked is the
repository's own code between them and the environment.
"""
import collections

from vx.api import Ob
from checks import shards


class Rec:
  """Anything of theirs: keeps what it was made from."""

  def __init__(self, *a, **k):
    self.a, self.k = a, k


class Having:
  """Their module, with some things replaced."""

  def __init__(self, old, **k):
    self.__dict__.update(old=old, **k)

  def __getattr__(self, n):
    return getattr(self.__dict__['old'], n)


class State:
  """Forgotten between runs; the stand-ins themselves stay."""

  def reset(self):
    self.log = []
    self.actors, self.learners = [], []
    self.greedy = []
    self.linears = []
    self.newest = '/runs/learner/ckpt-400'
    self.loops = []


S = State()


def auto(m):
  """A module in which every name is a class."""

  def get(n):
    if n.startswith('__'):
      raise AttributeError(n)
    t = type(n, (Rec,), {})
    setattr(m, n, t)
    return t
  m.__getattr__ = get


def dqn(m):

  class DQNConfig:

    def __init__(self, **k):
      for n, v in k.items():
        if n in ('marco_polo_exploration', 'adaptive_learning_rate', 'seed'):
          raise TypeError(f'unexpected keyword argument {n!r}')
        setattr(self, n, v)

  class DQNBuilder:

    def __init__(self, config, loss_fn):
      self.config, self.loss_fn = config, loss_fn

    def make_actor(self, random_key, policy, environment_spec=None,
                   variable_source=None, adder=None):
      a = Actor(policy, environment_spec, variable_source, adder)
      S.actors.append(a)
      return a

    def make_learner(self, random_key, networks, dataset, logger_fn,
                     environment_spec=None, replay_client=None, counter=None):
      S.learners.append(networks)
      return ('learner', len(S.learners))

  class QrDqn:

    def __init__(self, num_atoms=0, huber_param=0.0):
      self.num_atoms, self.huber_param = num_atoms, huber_param
  m.DQNConfig, m.DQNBuilder, m.QrDqn = DQNConfig, DQNBuilder, QrDqn


class Actor:

  def __init__(self, policy=None, spec=None, source=None, adder=None):
    self.policy, self.spec, self.source = policy, spec, source
    self.adder = adder
    self.seen = []

  def select_action(self, observation):
    self.seen.append(('select', observation))
    return self.action(observation) if hasattr(self, 'action') else 2

  def observe_first(self, timestep):
    self.seen.append(('first', timestep))

  def observe(self, action, next_timestep):
    self.seen.append(('observe', action, next_timestep))

  def update(self, wait=False):
    self.seen.append(('update', wait))


def savers(m):

  class Checkpointer:
    """Like the real one: numbered files, the newest restored when made."""

    def __init__(self, objects_to_save, *, directory='~/acme',
                 subdirectory='default', time_delta_minutes=10.0,
                 enable_checkpointing=True, add_uid=True, max_to_keep=1,
                 **k):
      S.log.append(('checkpointer', objects_to_save, directory, subdirectory,
                    add_uid, max_to_keep))
      self.objects = objects_to_save

      def restore(path):
        S.log.append(('restore', path))
        return collections.namedtuple('R', 'expect_partial')(
            lambda: S.log.append(('partial',)))
      self._checkpoint = collections.namedtuple('C', 'restore')(restore)
      self._checkpoint_manager = collections.namedtuple(
          'M', 'latest_checkpoint')(S.newest)
      self.restore()

    def restore(self):
      self._checkpoint.restore(self._checkpoint_manager.latest_checkpoint)
  m.Checkpointer = Checkpointer


def haiku(m):
  auto(m)

  class Module:

    def __init__(self, name=None):
      self.name = name

  class Linear:

    def __init__(self, n):
      self.n = n

    def __call__(self, x):
      S.linears.append(self.n)
      return x * 2.0 - 1.0

  class Sequential:

    def __init__(self, layers):
      self.layers = list(layers)

    def __call__(self, x):
      for f in self.layers:
        x = f(x)
      return x

  class LSTM:

    def __init__(self, n):
      S.log.append(('lstm', n))

    def __call__(self, x, s):
      return x + 3.0 * s, x - s

    def initial_state(self, batch_size):
      return ('zeros', batch_size)

  def static_unroll(core, xs, state):
    out = []
    for x in xs:
      o, state = core(x, state)
      out.append(o)
    return out, state
  m.Module, m.RNNCore, m.Linear = Module, Module, Linear
  m.Sequential, m.LSTM, m.static_unroll = Sequential, LSTM, static_unroll
  m.BatchApply = lambda f: lambda xs: [f(x) for x in xs]


def rlax(m):

  class Greedy:

    def __init__(self, epsilon):
      self.epsilon = epsilon

    def sample(self, key, q):
      S.greedy.append((self.epsilon, key, q))
      return 'sampled'
  m.epsilon_greedy = Greedy


def wrap(kind):
  class Wrapper:

    def __init__(self, env, *a, **k):
      self.env, self.kind, self.a, self.k = env, kind, a, k
      self.action_space = getattr(env, 'action_space', None)
  return Wrapper


def wrappers(m):
  m.gym_wrapper = Rec()
  m.gym_wrapper.GymWrapper = m.GymWrapper = wrap('gym')
  m.step_limit = Rec()
  m.step_limit.StepLimitWrapper = m.StepLimitWrapper = wrap('limit')
  m.SinglePrecisionWrapper = wrap('single')
  m.ObservationActionRewardWrapper = wrap('oar')


def chex(m):
  import dataclasses
  auto(m)
  m.dataclass = lambda frozen=False, mappable_dataclass=True: (
      dataclasses.dataclass(frozen=frozen))


def optax(m):
  auto(m)
  m.linear_schedule = lambda init_value, end_value, transition_steps: (
      lambda n: init_value + (end_value - init_value) * min(
          n, transition_steps) / transition_steps)


def linen(m):
  import dataclasses

  class Module:

    def __init_subclass__(cls, **k):
      super().__init_subclass__(**k)
      dataclasses.dataclass(cls)

    def apply(self, params, *a, **k):
      return self(*a, **k)

    def init(self, key, *a, **k):
      self(*a, **k)
      return {}
  m.Module = Module
  m.compact = lambda f: f
  none = lambda *a, **k: None
  m.initializers = type('I', (), dict(
      variance_scaling=none, glorot_uniform=none, zeros=none))


def world(H):
  S.reset()
  H.fake('flax.linen', linen, spare=True)
  for n in ('acme', 'acme.adders', 'acme.core'):
    H.fake(n, auto)

  def specs(m):
    auto(m)
    m.EnvironmentSpec = collections.namedtuple(
        'EnvironmentSpec', 'observations actions rewards discounts')
  H.fake('acme.specs', specs)
  H.fake('acme.wrappers', wrappers)
  for n in ('acme.wrappers.observation_action_reward', 'acme.agents',
            'acme.agents.jax'):
    H.fake(n, auto)
  H.fake('acme.agents.jax.dqn', dqn)
  for n in ('acme.agents.jax.r2d2', 'acme.jax'):
    H.fake(n, auto)

  def nets(m):
    auto(m)
    m.FeedForwardNetwork = collections.namedtuple('FeedForwardNetwork',
                                                  'init apply')
    m.make_unrollable_network = lambda spec, make: ('unrollable', spec, make)
  H.fake('acme.jax.networks', nets)
  H.fake('acme.jax.networks.base', auto)

  def duelling(m):
    m.DuellingMLP = lambda num_actions, hidden_sizes: S.log.append(
        ('duelling', num_actions, hidden_sizes)) or (lambda x: 5.0 * x)
  H.fake('acme.jax.networks.duelling', duelling)

  def embedding(m):
    m.OAREmbedding = lambda torso, num_actions: S.log.append(
        ('embedding', type(torso).__name__, num_actions)) or (
            lambda x: 2.0 * x + 1.0)
  H.fake('acme.jax.networks.embedding', embedding)

  def utils(m):
    m.zeros_like = lambda spec: ('zeros', spec)
    m.tile_nested = lambda x, n: ('tile', x, n)
  H.fake('acme.jax.utils', utils)
  H.fake('acme.tf', auto)
  H.fake('acme.tf.savers', savers)
  H.fake('dm_env', auto)
  H.fake('haiku', haiku)
  H.fake('rlax', rlax)
  H.fake('chex', chex, spare=True)
  H.fake('optax', optax, spare=True)
  return shards.load(H, 'acme_utils')


def score(H):
  """Position and radius free (3-4-5 directions), episode lengths by choice."""
  au = world(H)
  u = H.load('utils.units')
  d, r = H.real('d', 0.0, 400.0), H.real('r', 1.0, 90.0)
  sx, sy = H.choice('direction', [(3, 4), (-3, 4), (3, -4), (0, -5)])
  n = H.choice('length', [1, 40, 960])
  state = H.ns(balloon_state=H.ns(x=u.Distance(km=sx * d), y=u.Distance(
      km=sy * d)))
  H.assume(abs(5 * d - r) > 1e-6)
  got = au._balloon_is_within_radius(state, u.Distance(km=r), n)
  H.eq('a share of the episode while within the radius', got * n,
       H.ite(5 * d < r, 1, 0), 1e-9)


def environment(H):
  """Training or assessment, lengths free."""
  au = world(H)
  u = H.load('utils.units')
  made = []
  R = u.Distance(km=H.choice('radius', [50.0, 20.0]))

  def env(*a, **k):
    made.append((a, k))
    return H.ns(radius=R, action_space='gym')
  H.patch(au, 'balloon_env', H.ns(BalloonEnv=env))
  ev, oar = H.flag('eval'), H.flag('oar')
  n = H.choice('length', [960, 7])
  e = au.create_env(ev, n, oar) if oar else au.create_env(ev, n)
  kinds, top = [], e
  while hasattr(e, 'kind'):
    kinds.append(e.kind)
    if e.kind == 'limit':
      H.check('ends after so many steps', (e.a or (e.k.get('step_limit'),))[
          0] == n)
    e = e.env
  H.check('wrapped', sorted(kinds) == sorted(
      ['gym', 'limit', 'single'] + ['oar'] * oar) and kinds[-1] == 'gym')
  if oar:
    H.check('last action and reward outermost', top.kind == 'oar')
  k = made[-1][1]
  H.check('nothing else is set', not made[-1][0] and set(k) <= {
      'reward_function'})
  if not ev:
    H.check('the usual reward while training', 'reward_function' not in k)
    return
  d = H.real('d', 0.0, 100.0)
  H.assume(abs(d - R.km) > 1e-6)
  got = k['reward_function'](H.ns(balloon_state=H.ns(
      x=u.Distance(km=0.0), y=u.Distance(km=-d))))
  H.eq('scored within the radius', got * n, H.ite(d < R.km, 1, 0), 1e-9)


def actor(H, horizon):
  """Histories of given length; exploring actions free, phases by choice."""
  au = world(H)
  made = []

  class Explorer:

    def __init__(self, **k):
      made.append(k)
      self.log = []

    def begin_episode(self, observation, action):
      self.log.append(('begin', observation))
      return action

    def step(self, reward, observation, action):
      self.log.append(('step', observation, action))
      self.own = H.int(f'own{len(self.log)}', 0, 2).__index__()
      return self.own if H.flag(f'explores{len(self.log)}') else action
  H.patch(au, 'marco_polo_exploration', H.ns(MarcoPoloExploration=Explorer))
  base = Actor()

  def make(random_key, policy, environment_spec, variable_source=None,
           adder=None):
    S.log.append((random_key, policy, environment_spec, variable_source,
                  adder))
    return base
  m = au.marco_polo_actor(make)
  H.check('no exploration when assessing', m('k', 'p', 's', 'v') is base and
          not made)
  a = m('k', 'p', 's', 'v', adder='replay')
  H.check('made alike', S.log == [('k', 'p', 's', 'v', None),
                                  ('k', 'p', 's', 'v', 'replay')])
  H.check('explores while training', a is not base and len(made) == 1)
  H.check('for this environment', made[0]['num_actions'] == 3 and tuple(
      made[0]['observation_shape']) == (1099,))
  H.check('in most episodes, by random walks', made[0][
      'exploratory_episode_probability'] == 0.8 and made[0][
          'exploratory_agent_constructor'] is H.load(
              'agents.random_walk_agent').RandomWalkAgent)
  ex = a._exploration_actor
  for ep in range(2):
    episode(H, base, ex, a, ep, horizon if not ep else 1)


def episode(H, base, ex, a, ep, horizon):
  heard, asked = len(base.seen), len(ex.log)
  a.observe_first(H.ns(observation=f'o{ep}'))
  H.check('both hear of a new episode', [e[0] for e in base.seen[heard:]] == [
      'first'] and base.seen[-1][1].observation == f'o{ep}' and
          ex.log[asked:] == [('begin', f'o{ep}')])
  for i in range(horizon):
    learned = (i + 1) % 3
    base.action = lambda o, learned=learned: learned
    got = int(a.select_action(f'o{ep}{i}'))
    H.check('both are asked about this observation', base.seen[-1] == (
        'select', f'o{ep}{i}') and ex.log[-1] == (
            'step', f'o{ep}{i}', learned))
    want = ex.own if H.flag(f'explores{len(ex.log)}') else learned
    H.check('the explorer decides', got == want)
    a.observe(got, ('ts', i))
    H.check('what was flown is remembered', base.seen[-1] == (
        'observe', got, ('ts', i)))
    w = i == 1
    a.update(w)
    H.check('learns when due', base.seen[-1] == ('update', w))
  H.check('asked once per step', len(ex.log) == asked + 1 + horizon)


def crews(H):
  """Two actors made by one wrapper explore each for itself."""
  au = world(H)
  made = []

  class Explorer:

    def __init__(self, **k):
      made.append(self)
      self.n = len(made)
      self.log = []

    def begin_episode(self, observation, action):
      self.log.append(('begin', observation))
      return action

    def step(self, reward, observation, action):
      self.log.append(('step', observation, action))
      return (action + self.n) % 3
  H.patch(au, 'marco_polo_exploration', H.ns(MarcoPoloExploration=Explorer))
  m = au.marco_polo_actor(lambda *a, **k: Actor())
  two = [m('k', 'p', 's', 'v', adder=f'replay{i}') for i in range(2)]
  H.check('an explorer each', len(made) == 2 and two[0] is not two[1])
  logs = [[], []]
  for i in range(4):
    k = int(H.flag(f'second{i}'))
    if not logs[k] or H.flag(f'new{i}'):
      two[k].observe_first(H.ns(observation=i))
      logs[k].append(('begin', i))
    else:
      H.check('its own explorer', int(two[k].select_action(i)) == (3 + k) % 3)
      logs[k].append(('step', i, 2))
    for j in range(2):
      H.check('hears its own flight only', made[j].log == logs[j])


def settings(H):
  """The options by choice; other settings are passed on."""
  au = world(H)
  mp = H.choice('marco polo', [None, False, True])
  al = H.choice('adaptive', [None, False, True])
  params = {'num_sgd_steps_per_step': 2}
  if mp is not None:
    params['marco_polo_exploration'] = mp
  if al is not None:
    params['adaptive_learning_rate'] = al
  agent, c, *_ = au.create_dqn(params)
  H.check('others are passed on', c.num_sgd_steps_per_step == 2 and
          agent.config is c)
  H.check('discount and returns', (c.discount, c.n_step) == (0.993, 5))
  H.check('replay', (c.min_replay_size, c.max_replay_size, c.batch_size,
                     c.prefetch_size) == (500, 2000000, 32, 0))
  H.check('an update every four steps', c.samples_per_insert == 8.0)
  H.check('a new target every hundred', c.target_update_period == 25)
  H.check('optimizer', c.adam_eps == 2e-5)
  rate = c.learning_rate
  if al:
    H.check('falling rate', abs(rate(0) - 2e-6) < 1e-12 and abs(
        rate(156250) - 4e-7) < 1e-12 and abs(rate(78125) - 1.2e-6) < 1e-12 and
            abs(rate(10 ** 7) - 4e-7) < 1e-12)
  else:
    H.check('fixed rate', rate == 2e-6)
  H.check('loss', (agent.loss_fn.num_atoms, agent.loss_fn.huber_param) == (
      51, 1))
  got = agent.make_actor('k', 'p', 's', 'v', adder='replay')
  H.check('explores only if asked', (got is not S.actors[-1]) == bool(mp))
  H.check('never when assessing', agent.make_actor(
      'k', 'p', 's', 'v') is S.actors[-1])


def policies(H):
  """Observation free, linear values; exploration rate free."""
  au = world(H)
  jnp = H.lib('jax.numpy')
  nets = []
  Out = collections.namedtuple('Out', 'logits q_values')

  def net(*a):
    nets.append(a)
    return lambda x: Out(
        logits=jnp.stack([x[:1] + x[1:], x[:1] - x[1:], x[:1] * 0.5]),
        q_values=jnp.stack([x[0] + x[1], x[0] - x[1], 2.0 * x[1]]))
  H.patch(au, 'networks', H.ns(QuantileNetwork=net))
  H.patch(au, 'utils', H.ns(
      zeros_like=lambda s: jnp.zeros(s), tile_nested=lambda x, n: jnp.stack(
          [x] * n)))
  _, _, make, behave, assess = au.create_dqn({})
  n = make(H.ns(observations=(2,)))
  n.init(H.key(0))
  H.check('three actions, 8 layers of 600 units, 51 quantiles', nets[0][
      :4] == (3, 8, 600, 51))
  o = H.reals('o', 4, -5.0, 5.0)
  r = n.apply({}, jnp.array(H.array(o)).reshape((2, 2)))
  for i in range(2):
    x, y = o[2 * i], o[2 * i + 1]
    for k, v in enumerate((x + y, x - y, 2 * y)):
      H.eq('values of each observation', r['q_values'][i, k], v, 1e-4)
    H.eq('quantiles of each observation', r['q_dist'][i, 1, 0], x - y, 1e-4)
  eps = H.real('epsilon', 0.0, 1.0)
  one = jnp.array(H.array(o[:2]))
  H.check('sampled', behave(n)({}, 'k1', one, eps) == 'sampled' == assess(n)(
      {}, 'k2', one, eps))
  H.eq('explores as told', S.greedy[0][0], eps, 1e-9)
  H.eq('greedy when assessed', S.greedy[1][0], 0, 1e-12)
  H.check('the randomness given', [g[1] for g in S.greedy] == ['k1', 'k2'])
  for g in S.greedy:
    H.check('one value per action', tuple(g[2].shape) == (3,))
    for k, v in enumerate((o[0] + o[1], o[0] - o[1], 2 * o[1])):
      H.eq('of this observation', g[2][k], v, 1e-4)


def recurrent(H):
  """Inputs and state free, linear layers; sequences of three."""
  au = world(H)
  jnp = H.lib('jax.numpy')
  u = au.make_r2d2_net2work(H.ns(actions=H.ns(num_values=3)))
  net = u[2]()
  H.check('parts', sorted(S.log) == [
      ('duelling', 3, [512]), ('embedding', 'BLETorso', 3), ('lstm', 512)])
  x, s0 = H.reals('x', 3, -5.0, 5.0), H.real('s', -5.0, 5.0)
  got, end = net.unroll(list(x), s0)
  s = s0
  for i in range(3):
    q, s = net(x[i], s)
    H.eq('stepwise or unrolled', got[i], q, 1e-9)
    H.eq('value', q, 5 * ((2 * x[i] + 1) + 3 * (
        s0 if i == 0 else prev)), 1e-9)
    prev = s
  H.eq('state', end, s, 1e-9)
  H.check('starts empty', net.initial_state(6) == ('zeros', 6))
  t = au.BLETorso()
  v = jnp.array(H.array([0.25, 0.75]))
  S.linears[:] = []
  a = t(v)
  H.check('eight layers of 600', S.linears == [600] * 8)
  b = t(v.reshape((1, 2)))
  H.check('with or without a batch', tuple(a.shape) == (2,) and tuple(
      b.shape) == (1, 2))
  w = [0.25, 0.75]
  for i in range(8):
    w = [2 * y - 1 for y in w]
    w = [max(y, 0.0) for y in w] if i < 7 else w
  for i in range(2):
    H.between('rectified between layers', a[i] - w[i], -1e-5, 1e-5)
  H.raises('other shapes are refused', ValueError, t, v.reshape((1, 1, 2)))


def assessor(H):
  """The evaluation agent: any checkpoint number, steps in any order."""
  world(H)
  ea = H.load('agents.acme_eval_agent')
  reg = H.load('agents.agent_registry')
  H.check('by name', reg.agent_constructor(
      'acme_eval_agent') is ea.AcmeEvalAgent and reg.get_default_gin_config(
          'acme_eval_agent') is None)
  mode = H.load('agents.agent').AgentMode
  a = ea.AcmeEvalAgent(3, (4,))
  for m in ('train', mode.TRAIN):
    H.raises('only for assessment', ValueError, a.set_mode, m)
  a.set_mode('eval')
  a.set_mode(mode.EVAL)
  n = H.choice('checkpoint', [None, 0, 7, 400])
  if n is not None:
    a.load_checkpoint('/runs', n)
    c = [e for e in S.log if e[0] == 'checkpointer']
    H.check('the learner in that directory', len(c) == 1 and c[0][1] == {
        'learner': ('learner', 2)} and c[0][2:5] == (
            '/runs', 'learner', False))
    H.check('only the checkpoint asked for', [
        e for e in S.log if e[0] != 'checkpointer'] == [
            ('restore', f'/runs/learner/ckpt-{n}'), ('partial',)])
  act = S.actors[-1]
  H.check('acts with what was loaded', act.source == (
      'learner', 1 if n is None else 2) and len(S.actors) == len(
          S.learners) == (1 if n is None else 2))
  H.check('never explores', act.adder is None and a._actor._state.epsilon == 0)
  spec = S.actors[0].spec
  obs, acts = spec.observations.k, spec.actions.k
  H.check('of this environment', tuple(obs['shape']) == (4,) and acts[
      'num_values'] == 3)
  got = {}
  act.action = lambda o: got[o]
  for i in range(3):
    got[i] = H.int(f'a{i}', 0, 2).__index__()
  H.check('first', a.begin_episode(0) == got[0])
  H.check('then', a.step(1.0, 1) == got[1] and a.step(0.0, 2) == got[2])
  a.end_episode(1.0, True)
  H.check('asked once per observation', [e for e in act.seen] == [
      ('select', 0), ('select', 1), ('select', 2)])


def run(H):
  """The local entry point: number of episodes free."""
  au = world(H)

  class Counter:

    def __init__(self, parent=None, prefix='', time_delta=1.0):
      self.parent, self.prefix = parent, prefix
  for n in ('acme.jax.deprecated', 'acme.utils'):
    H.fake(n, auto)
  H.fake('acme.jax.deprecated.local_layout', auto)
  H.fake('acme.utils.counting', auto)
  H.fake('acme.utils.loggers', auto)
  tr = shards.load(H, 'train_acme_qrdqn')
  H.patch(tr, 'counting', H.ns(Counter=Counter))
  H.patch(tr, 'loggers', H.ns(make_default_logger=lambda n: n))
  made = []
  H.patch(au, 'create_env', lambda is_eval, max_episode_length,
          oar_wrapper=False: made.append(
              ('env', is_eval, max_episode_length)) or made[-1])
  actors = []

  def make_actor(random_key, policy, environment_spec, variable_source=None,
                 adder=None):
    actors.append((policy, environment_spec, variable_source, adder))
    return 'assessor'
  b = H.ns(make_actor=make_actor)
  H.patch(au, 'create_dqn', lambda params: (
      b, H.ns(batch_size=32), lambda spec: ('net', spec),
      lambda n: ('behave', n), lambda n: ('assess', n)))
  layouts = []

  def layout(**k):
    layouts.append(k)
    return 'agent'
  H.patch(tr, 'local_layout', H.ns(LocalLayout=layout))

  class Loop:

    def __init__(self, env, actor, counter=None, logger=None, **k):
      self.env, self.actor, self.logger = env, actor, logger

    def run(self, num_episodes=None, num_steps=None):
      S.loops.append((self.env[1], self.actor, num_episodes))
  H.patch(tr, 'acme', H.ns(
      make_environment_spec=lambda env: ('spec', env), EnvironmentLoop=Loop))
  n = H.int('episodes', 0, 3).__index__()
  H.patch(tr, 'FLAGS', H.ns(num_episodes=n, max_episode_length=77, seed=5))
  tr.main(['x'])
  H.check('one environment to train in, one to be assessed in', sorted(
      made) == [('env', False, 77), ('env', True, 77)])
  H.check('turn by turn', S.loops == [
      (False, 'agent', 1), (True, 'assessor', 1)] * n)
  k = layouts[0]
  spec = ('spec', ('env', False, 77))
  H.check('trains on its own behaviour', len(layouts) == 1 and k[
      'policy_network'] == ('behave', ('net', spec)) and k[
          'networks'] == ('net', spec) and k['environment_spec'] == spec and k[
              'builder'] is b and k['seed'] == 5 and k['batch_size'] == 32)
  H.check('assessed greedily on what was learned', actors == [
      (('assess', ('net', spec)), spec, 'agent', None)])


def program(H):
  """The distributed entry point: sizes free, seed given or not."""
  au = world(H)
  for n in ('acme.environment_loop', 'acme.jax.experiments', 'acme.jax.types',
            'acme.utils', 'acme.utils.counting', 'acme.utils.loggers',
            'acme.utils.lp_utils', 'launchpad'):
    H.fake(n, auto)
  di = shards.load(H, 'distributed_train_acme_qrdqn')
  made, cfgs = [], []
  H.patch(au, 'create_env', lambda is_eval, max_episode_length,
          oar_wrapper=False: made.append(
              ('env', is_eval, max_episode_length)) or made[-1])
  given = []
  H.patch(au, 'create_dqn', lambda params: given.append(dict(params)) or (
      'builder', None, lambda spec: ('net', spec), lambda n: ('behave', n),
      lambda n: ('assess', n)))
  H.patch(di, 'experiments', Having(
      di.experiments,
      ExperimentConfig=lambda **k: cfgs.append(k) or H.ns(**k),
      CheckpointingConfig=lambda **k: k,
      make_distributed_experiment=lambda c, num_actors: ('program', c,
                                                         num_actors)))
  loggers = []
  H.patch(di, 'loggers', Having(di.loggers, make_default_logger=lambda label, **k: (
      loggers.append((label, k)) or ('logger', label))))
  H.patch(di, 'specs', Having(di.specs, make_environment_spec=lambda e: ('spec', e)))
  H.patch(di, 'counting', Having(di.counting, Counter=lambda parent, prefix: ('counter',
                                                               parent, prefix)))
  H.patch(di, 'environment_loop', Having(di.environment_loop, EnvironmentLoop=lambda env, actor,
                                       counter=None, logger=None: (
                                           'loop', env, actor, counter,
                                           logger)))
  e, m, w = H.int('episodes', 1, 20000), H.int('length', 1, 2000), H.int(
      'actors', 1, 200)
  m = H.choice('lengths', [960, 11])
  H.patch(di, 'FLAGS', H.ns(num_episodes=e, max_episode_length=m, num_actors=w,
                            base_dir='/base'))
  seed = H.choice('seed', [None, 0, 9])
  p = {'num_sgd_steps_per_step': 2}
  if seed is not None:
    p['seed'] = seed
  kind, c, n = di.get_program(p)
  H.check('a program', kind == 'program' and len(cfgs) == 1)
  H.eq('as many actors as asked', n, w)
  H.eq('as many steps as asked', c.max_num_actor_steps, e * m)
  H.check('seeded', c.seed == (seed or 0))
  H.check('other settings are passed on', given == [
      {'num_sgd_steps_per_step': 2}])
  H.check('learner', c.builder == 'builder' and c.network_factory(
      's') == ('net', 's') and c.policy_network_factory('n') == (
          'behave', 'n'))
  H.check('trains in the training environment', c.environment_factory(
      seed=3) == ('env', False, m))
  H.check('checkpoints', c.checkpointing['directory'] == '/base')
  H.check('one assessor', len(c.evaluator_factories) == 1)

  class A:
    pass
  a = A()
  calls = []

  def make_actor(random_key, policy, environment_spec, variable_source=None,
                 adder=None):
    calls.append((random_key, policy, environment_spec, variable_source,
                  adder))
    return a
  got = c.evaluator_factories[0](random_key='k', variable_source='v',
                                 counter='c', make_actor=make_actor)
  env = ('env', True, m)
  H.check('greedy, on what was learned', calls == [
      ('k', ('assess', ('net', ('spec', env))), ('spec', env), 'v', None)])
  H.check('in the assessment environment', got[:3] == ('loop', env, a))
  H.check('reports for itself', got[3] == ('counter', 'c', 'evaluator') and
          got[4] == ('logger', 'evaluator'))
  for label in ('actor', 'learner'):
    c.logger_factory(label)
    H.check('only actors keep no data', loggers[-1][0] == label and loggers[
        -1][1]['save_data'] == (label != 'actor') and loggers[-1][1][
            'steps_key'] == label + '_steps')


def obligations(tier):
  return [Ob('score', score), Ob('environment', environment),
          Ob('actor', actor, dict(horizon=2 if tier == 'quick' else 4)),
          Ob('crews', crews), Ob('settings', settings), Ob('policies', policies),
          Ob('recurrent', recurrent), Ob('assessor', assessor),
          Ob('run', run), Ob('program', program)]
