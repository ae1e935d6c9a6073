"""The learning agents: what they act, remember, learn from and restore."""
from vx.api import Ob

NAMES = ('state', 'action', 'next_state', 'reward', 'terminal')


def base_class(kind):
  """A stand-in for the Dopamine agent: records what it is told."""

  class Base:

    def __init__(self, num_actions, **kw):
      self.init = dict(kw, num_actions=num_actions)
      self.told = []
      self.eval_mode = False
      self.action = None

    def begin_episode(self, observation):
      self.told.append(('begin', observation))
      self.action = 100 + len(self.told)
      return self.action

    def step(self, reward, observation):
      # dopamine stores the transition of self.action here
      self.told.append(('step', reward, observation, self.action))
      self.action = 100 + len(self.told)
      return self.action

    def end_episode(self, reward, terminal=True):
      self.told.append(('end', reward, terminal, self.action))

    def bundle_and_checkpoint(self, checkpoint_dir, iteration_number):
      return ('bundle', kind, self.init['num_actions'], checkpoint_dir,
              iteration_number)

    def unbundle(self, checkpoint_dir, iteration_number, bundle_dictionary):
      self.told.append(('unbundle', checkpoint_dir, iteration_number,
                        bundle_dictionary))
      return True

    def _sample_from_replay_buffer(self):
      self.told.append(('sample',))
      self.replay_elements = dict(self.batch)

    def _sync_weights(self):
      self.told.append(('sync',))
  return Base


def modules(H):
  """The agents' modules over the stand-ins."""

  def quantile(m):
    m.JaxQuantileAgent = base_class('quantile')
    m.train = lambda *a, **k: None

  def dqn(m):
    m.JaxDQNAgent = base_class('dqn')
    m.train = lambda *a, **k: None
  fq = H.fake('dopamine.jax.agents.quantile.quantile_agent', quantile)
  fd = H.fake('dopamine.jax.agents.dqn.dqn_agent', dqn)
  qa, da = H.load('agents.quantile_agent'), H.load('agents.dqn_agent')
  return qa, da, fq, fd


class Wrapper:

  def __init__(self, num_actions, observation_shape):
    self.made = (num_actions, observation_shape)
    self.log = []

  def begin_episode(self, observation, a):
    self.log.append(('begin', observation, a))
    return 500 + len(self.log)

  def step(self, reward, observation, a):
    self.log.append(('step', reward, observation, a))
    return 500 + len(self.log)


def make(H, kind, duration=7):
  qa, da, _, _ = modules(H)
  if kind == 'dqn':
    return da.DQNAgent(3, (5,), seed=1, network=lambda **k: k,
                       checkpoint_duration=duration), None
  ws = []

  def wrap(num_actions, observation_shape):
    ws.append(Wrapper(num_actions, observation_shape))
    return ws[-1]
  a = qa.QuantileAgent(3, (5,), seed=1, network='net',
                       exploration_wrapper_constructor=wrap,
                       checkpoint_duration=duration, reload_perciatelli=False)
  return a, ws[0]


def acting(H, kind):
  """Any change of mode between steps; rewards free: the action returned is the one the replay buffer will get."""
  a, w = make(H, kind)
  H.check('the environment\'s sizes', a.init['num_actions'] == 3 and tuple(
      a.init['observation_shape']) == (5,) and a.init['stack_size'] == 1)
  H.check('the explorer gets them too', w is None or (
      w.made[0] == 3 and tuple(w.made[1]) == (5,)))
  mode_type = H.load('agents.agent').AgentMode
  for ep in range(2):
    mode = H.choice(f'mode{ep}', ['train', 'eval', None])
    if mode:
      a.set_mode(mode if H.flag(f'string{ep}') else mode_type(mode))
      evaluating = mode == 'eval'
    elif not ep:
      evaluating = False  # agents start out training
    got = None
    for i in range(3):
      n, m = len(a.told), len(w.log) if w else 0
      obs = ('obs', ep, i)
      if not i:
        got2 = a.begin_episode(obs)
        H.check('asks the learner once', a.told[n:] == [('begin', obs)])
        said = ('begin', obs)
      else:
        r = H.real(f'r{ep}{i}', -1.0, 1.0)
        got2 = a.step(r, obs)
        t = a.told[n:]
        H.check('asks the learner once', len(t) == 1 and t[0][0] == 'step' and
                t[0][2] == obs)
        H.eq('the learner gets the reward', t[0][1], r)
        H.check('the action it remembers is the one that was taken',
                t[0][3] == got)
        said = ('step', r, obs)
      own = 100 + len(a.told)
      if w is None or evaluating:
        H.check('the learner decides', got2 == own)
        H.check('no exploration', w is None or len(w.log) == m)
      else:
        H.check('exploration decides while training',
                got2 == 500 + len(w.log) and len(w.log) == m + 1)
        e = w.log[-1]
        H.check('exploration is told the learner\'s action',
                e[0] == said[0] and e[-1] == own and e[-2] == obs)
      H.check('remembered action', a.action == got2)
      got = got2
    r, terminal = H.real(f'end{ep}', -1.0, 1.0), H.flag(f'terminal{ep}')
    n = len(a.told)
    a.end_episode(r, terminal)
    t = a.told[n:]
    H.check('the end is reported', len(t) == 1 and t[0][0] == 'end' and
            t[0][2] == terminal and t[0][3] == got)
    H.eq('final reward', t[0][1], r)


def modes(H, kind):
  """Unknown modes are refused and change nothing."""
  a, _ = make(H, kind)
  for m in ('train', 'eval'):
    a.set_mode(m)
    ok, e = H.attempt(a.set_mode, 'training')
    H.check('unknown mode refused', (not ok) and isinstance(e, ValueError))
    H.check('mode kept', bool(a.eval_mode) == (m == 'eval'))


def saving(H, kind):
  """Checkpoint number and duration free; the newest one found is free too."""
  qa, da, _, _ = modules(H)
  log = []
  du = H.load('agents.dopamine_utils')
  newest = H.int('newest', -1, 100)
  fails = H.flag('fails')

  def save(checkpoint_dir, iteration_number, bundle_fn):
    log.append(('save', checkpoint_dir, iteration_number,
                bundle_fn(checkpoint_dir, iteration_number)))

  def clean(checkpoint_dir, episode_number, checkpoint_duration=50):
    log.append(('clean', checkpoint_dir, episode_number, checkpoint_duration))

  def load(checkpoint_dir, iteration_number, unbundle_fn):
    log.append(('load', checkpoint_dir, iteration_number))
    if fails:
      raise ValueError('bad checkpoint')
    unbundle_fn(checkpoint_dir, iteration_number, 'b')
  H.patch(du, 'save_checkpoint', save)
  H.patch(du, 'clean_up_old_checkpoints', clean)
  H.patch(du, 'load_checkpoint', load)
  H.patch(du, 'get_latest_checkpoint', lambda checkpoint_dir: newest)
  duration = H.int('duration', 0, 500) if H.flag('limited') else None
  a, _ = make(H, kind, duration)
  n = H.int('n', 0, 1000)
  a.save_checkpoint('/c', n)
  s = log[0]
  H.check('saves its own state', s[:2] == ('save', '/c') and s[3][:4] == (
      'bundle', kind, 3, '/c'))
  H.eq('for this iteration', s[2], n)
  H.eq('bundled for this iteration', s[3][4], n)
  if duration is None:
    H.check('no clean-up without a duration', len(log) == 1)
  else:
    H.check('clean-up follows', len(log) == 2 and log[1][:2] == ('clean', '/c'))
    H.eq('clean-up counts from this iteration', log[1][2], n)
    H.eq('clean-up duration', log[1][3], duration)
  del log[:]
  told = len(a.told)
  got = a.reload_latest_checkpoint('/c')
  if newest < 0:
    H.check('nothing to restore', H.and_(got == -1, not log))
  else:
    H.check('restores one checkpoint', len(log) == 1 and
            log[0][:2] == ('load', '/c'))
    H.eq('the newest one', log[0][2], newest)
    if fails:
      H.check('a broken checkpoint means a fresh start', got == -1)
    else:
      H.eq('its number is reported', got, newest)
      t = a.told[told:]
      H.check('into this agent', len(t) == 1 and t[0][0] == 'unbundle' and
              t[0][3] == 'b')


def trainer(kind, calls, *answer):
  """Dopamine's update, with its parameters, recording its arguments."""

  def quantile(network_def, online_params, target_params, optimizer,
               optimizer_state, states, actions, next_states, rewards,
               terminals, kappa, num_atoms, cumulative_gamma):
    calls.append(dict(locals()))
    return answer

  def dqn(network_def, online_params, target_params, optimizer, optimizer_state,
          states, actions, next_states, rewards, terminals, cumulative_gamma,
          loss_type='mse'):
    calls.append(dict(locals()))
    return answer
  return quantile if kind == 'quantile' else dqn


def learning(H, kind, update, sync):
  """Replay size, history bound, counters and losses free."""
  _, _, fq, fd = modules(H)
  a, _ = make(H, kind)
  f = fq if kind == 'quantile' else fd
  calls = []
  loss = H.real('loss', 0.0, 5.0)
  count, least = H.int('count', 0, 1000), H.int('least', 0, 1000)
  at = H.int('at', 0, 24)
  every = 3

  H.patch(f, 'train', trainer(kind, calls, 'opt2', 'par2', *(
      (loss, loss) if kind == 'quantile' else (loss,))))
  a.batch = {n: (n,) for n in NAMES}
  written = []
  for k, v in dict(
      _replay=H.ns(add_count=count), min_replay_history=least,
      training_steps=at, update_period=update, network_def='net',
      online_params='par', target_network_params='tgt', optimizer='optimizer',
      optimizer_state='opt', _kappa=1.0, _num_atoms=51, cumulative_gamma=0.97,
      _loss_type='huber', _replay_scheme='uniform',
      summary_writer=H.ns(scalar=lambda tag, value, step: written.append(
          (tag, value, step)), flush=lambda: written.append('flush'))
      if H.flag('writer') else None,
      summary_writing_frequency=every, target_update_period=sync).items():
    setattr(a, k, v)
  n = len(a.told)
  a._train_step()
  t = [x[0] for x in a.told[n:]]
  if count > least:
    learns = bool(at % update == 0)
    H.check('syncs the target network on time',
            t.count('sync') == int(bool(at % sync == 0)))
  else:
    learns = False
    H.check('nothing before enough history', not t and not calls)
  H.check('one update, when due', len(calls) == int(learns) and
          t.count('sample') == int(learns))
  if learns:
    c = calls[0]
    H.check('learns from the sampled transitions, in their roles', [
        c[n + 's'] for n in NAMES] == [(n,) for n in NAMES])
    H.check('from the current and target parameters',
            c['online_params'] == 'par' and c['target_params'] == 'tgt')
    H.check('with its network, optimiser and discount',
            c['network_def'] == 'net' and c['optimizer'] == 'optimizer' and
            c['optimizer_state'] == 'opt' and c['cumulative_gamma'] == 0.97)
    H.check('with its loss', (c['kappa'], c['num_atoms']) == (1.0, 51)
            if kind == 'quantile' else c['loss_type'] == 'huber')
    H.check('keeps what it learnt',
            a.online_params == 'par2' and a.optimizer_state == 'opt2')
    due = bool(H.and_(at > 0, at % every == 0)) and (
        a.summary_writer is not None)
    H.check('loss logged when due', len(written) == 2 * int(due))
    if due:
      H.check('under its name, then flushed', isinstance(written[0][0], str)
              and written[1] == 'flush')
      H.eq('the loss', written[0][1], loss)
      H.eq('for this step', written[0][2], at)
  else:
    H.check('parameters unchanged', a.online_params == 'par' and not written)
  H.eq('one more training step', a.training_steps, at + 1)


def priorities(H):
  """Prioritised replay of the quantile agent: losses and probabilities from lists, counters by choice."""
  _, _, fq, _ = modules(H)
  a, _ = make(H, 'quantile')
  np = H.lib('jax.numpy')
  losses = [H.choice('l0', [0.0, 0.25, 2.0]), 0.75, H.choice('l2', [1e-4, 4.0])]
  probs = [H.choice('p0', [0.5, 1e-6]), H.choice('p1', [0.125, 1.0]), 0.25]
  at = H.choice('at', [0, 1, 3, 4, 6, 8, 12])
  H.patch(fq, 'train', trainer('quantile', [], 'opt2', 'par2', np.array(losses),
                               99.0))
  a.batch = {n: (n,) for n in NAMES}
  a.batch['sampling_probabilities'] = np.array(probs)
  a.batch['indices'] = 'indices'
  written, set_ = [], []
  for k, v in dict(
      _replay=H.ns(add_count=10, set_priority=lambda i, p: set_.append((i, p))),
      min_replay_history=5, training_steps=at, update_period=2,
      network_def='net', online_params='par', target_network_params='tgt',
      optimizer='optimizer', optimizer_state='opt', _kappa=1.0, _num_atoms=51,
      cumulative_gamma=0.97, _replay_scheme='prioritized',
      summary_writer=H.ns(scalar=lambda tag, value, step: written.append(
          (tag, value, step)), flush=lambda: None),
      summary_writing_frequency=3, target_update_period=8).items():
    setattr(a, k, v)
  a._train_step()
  if at % 2:
    H.check('no update', not set_ and not written)
    return
  H.check('priorities of the sampled transitions', len(set_) == 1 and
          set_[0][0] == 'indices')
  for i in range(3):
    H.eq(f'priority {i}: root of its loss', set_[0][1][i],
         (losses[i] + 1e-10)**0.5, 1e-6)
  if at and at % 3 == 0:
    w = [(1.0 / (p + 1e-10))**0.5 for p in probs]
    mean = sum(x / max(w) * l for x, l in zip(w, losses)) / 3
    H.check('logged once, for this step', len(written) == 1 and
            written[0][2] == at)
    H.eq('loss, weighted by rarity', written[0][1], mean, 1e-5)
  else:
    H.check('not logged', not written)


def sarsa(H):
  """The MLP agent: rewards free, mode and episode structure by choice."""
  mlp = H.load('agents.mlp_agent')
  nets = H.load('agents.networks')
  acts, trained = [], []

  def select(network_def, network_params, state):
    acts.append((network_params, state))
    return 10 + len(acts)

  def train(network_def, network_params, optimizer, optimizer_state, state,
            action, reward, next_state, next_action, gamma):
    trained.append((network_params, optimizer_state, state, action, reward,
                    next_state, next_action, gamma))
    return 0.5, ('par', len(trained)), ('opt', len(trained))
  H.patch(mlp, 'select_action', select)
  H.patch(mlp, 'train', train)
  H.patch(nets, 'MLPNetwork', lambda num_actions: H.ns(
      init=lambda rng, x: ('par', 0)))
  H.patch(mlp, 'create_optimizer', lambda: H.ns(init=lambda p: ('opt', 0)))
  g = H.real('gamma', 0.0, 1.0)
  a = mlp.MLPAgent(3, (5,), gamma=g, seed=4)
  for ep in range(2):
    mode = H.choice(f'mode{ep}', ['train', 'eval'])
    a.set_mode(mode)
    prev = ('o', ep, 0)
    act = a.begin_episode(prev)
    H.check('greedy action of the network', act == 10 + len(acts) and
            acts[-1] == (('par', len(trained)), prev))
    for i in (1, 2):
      n = len(trained)
      r = H.real(f'r{ep}{i}', -1.0, 1.0)
      obs = ('o', ep, i)
      act2 = a.step(r, obs)
      H.check('greedy action of the network', act2 == 10 + len(acts) and
              acts[-1][1] == obs)
      if mode == 'train':
        H.check('one update per step', len(trained) == n + 1)
        t = trained[-1]
        H.check('of the latest parameters',
                t[:2] == (('par', n), ('opt', n)))
        H.check('on this transition', t[2:4] == (prev, act) and
                t[5:7] == (obs, act2))
        H.eq('with its reward', t[4], r)
        H.eq('and the discount', t[7], g)
      else:
        H.check('no learning in evaluation', len(trained) == n)
      prev, act = obs, act2
    a.end_episode(0.0, True)


def seeds(H):
  """Initial weights: a seed decides them, and without one the clock does."""
  mlp = H.load('agents.mlp_agent')
  nets = H.load('agents.networks')
  made = []

  def init(rng, x):
    made.append((rng, tuple(x.shape)))
    return 'par'
  H.patch(nets, 'MLPNetwork', lambda num_actions: H.ns(init=init))
  H.patch(mlp, 'create_optimizer', lambda: H.ns(init=lambda p: ('opt', p)))
  clock = [1e9]

  def now():
    clock[0] += 0.5
    return clock[0]
  H.patch(mlp, 'time', H.ns(time=now))
  for seed in (4, 4, 0, None, None, 0):
    a = mlp.MLPAgent(3, (5,), seed=seed)
    H.check('for the observations it will see', made[-1][1] == (5,))
    H.check('kept', a.network_params == 'par' and
            a.optimizer_state == ('opt', 'par'))
  u = [same_key(H, made[i][0], made[j][0]) for i, j in (
      (0, 1), (0, 2), (0, 3), (2, 3), (3, 4))]
  H.check('a seed decides the weights', u[0] and not u[1] and same_key(
      H, made[2][0], made[5][0]))
  H.check('without a seed the clock does', not any(u[2:]))


def same_key(H, a, b):
  return bool(H.lib('numpy').all(H.lib('numpy').array(a) == H.lib(
      'numpy').array(b))) if not H.is_symbolic else a == b


def update(H):
  """The MLP agent's update: values of both states and the reward free, actions and discount by choice; derivatives and the optimiser are given."""
  mlp = H.load('agents.mlp_agent')
  jax, optax = H.lib('jax'), H.lib('optax')
  seen = []

  def value_and_grad(f, *a, **k):
    def g(p, *b):
      seen.append((p, f(p, *b)))
      return seen[-1][1], ('gradient', p)
    return g

  def apply_updates(params, updates):
    return ('new', params, updates)
  H.patch(jax, 'value_and_grad', value_and_grad)
  H.patch(jax, 'grad', lambda f, *a, **k: lambda *b: value_and_grad(f)(*b)[1])
  H.patch(optax, 'apply_updates', apply_updates)
  q = {'now': H.reals('q', 3, -50.0, 50.0), 'next': H.reals('n', 3, -50.0, 50.0)}
  r = H.real('r', -1.0, 1.0)
  a, b = H.choice('a', [0, 1, 2]), H.choice('b', [0, 1, 2])
  gamma = H.choice('gamma', [0.9, 0.0, 0.993])
  asked = []

  def apply(params, state):
    asked.append(params)
    return H.array(q[state])
  net = H.ns(apply=apply)
  opt = H.ns(update=lambda grads, state, params=None: (
      ('updates', grads, state), ('state', state)))
  train = getattr(mlp.train, '__wrapped__', mlp.train)
  loss, params, state = train(
      network_def=net, network_params='p', optimizer=opt, optimizer_state='s',
      state='now', action=a, reward=r, next_state='next', next_action=b,
      gamma=gamma)
  e = q['now'][a] - (r + gamma * q['next'][b])
  H.eq('loss: squared distance to reward plus discounted next value',
       loss, e * e, 1e-5)
  H.check('one loss, of the parameters given', len(seen) == 1 and
          seen[0][0] == 'p' and asked and set(asked) == {'p'})
  H.eq('the loss that is descended', seen[0][1], e * e, 1e-5)
  H.check('its gradient reaches the optimiser, whose step is taken', params == (
      'new', 'p', ('updates', ('gradient', 'p'), 's')))
  H.check('the optimiser remembers', state == ('state', 's'))


def greedy(H):
  """Three free values: the action is the one the network values most."""
  mlp = H.load('agents.mlp_agent')
  q = H.reals('q', 3, -50.0, 50.0)
  H.assume(H.and_(H.abs(q[0] - q[1]) > 1e-3, H.abs(q[0] - q[2]) > 1e-3,
                  H.abs(q[1] - q[2]) > 1e-3))
  asked = []

  def apply(params, state):
    asked.append((params, state))
    return H.lib('jax.numpy').array(H.array(q))
  select = getattr(mlp.select_action, '__wrapped__', mlp.select_action)
  a = select(H.ns(apply=apply), 'p', 'obs').__index__()
  H.check('asked once, of this observation', asked == [('p', 'obs')])
  H.check('an action', 0 <= a < 3)
  for v in q:
    H.le('no action is valued more', v, q[a])


def obligations(tier):
  obs = [Ob('sarsa', sarsa), Ob('seeds', seeds), Ob('update', update), Ob('greedy', greedy),
         Ob('priorities', priorities)]
  for k in ('quantile', 'dqn'):
    obs += [Ob(f'acting_{k}', acting, dict(kind=k)),
            Ob(f'modes_{k}', modes, dict(kind=k)),
            Ob(f'saving_{k}', saving, dict(kind=k))]
    for u, s in ((1, 8), (4, 6)):
      obs.append(Ob(f'learning_{k}_{u}', learning, dict(
          kind=k, update=u, sync=s)))
  return obs
