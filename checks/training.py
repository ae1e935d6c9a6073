"""The training loop and what its collectors report."""
import pickle

from vx.api import Ob
from checks import checkpoints

TWICE = 'the reported reward counts the last transition once'


class Env:

  def __init__(self, H, plan):
    self.plan = plan  # per episode: the step that is terminal, or None
    self.H, self.log = H, []
    self.action_space = H.ns(n=3)
    self.ep, self.i = -1, 0
    self.rewards = {}

  def reset(self):
    self.ep += 1
    self.i = 0
    self.log.append(('reset',))
    return ('obs', self.ep, 0)

  def step(self, action):
    self.i += 1
    self.log.append(('step', action))
    r = self.H.real(f'r{self.ep}_{self.i}', -1.0, 1.0)
    self.rewards[self.ep, self.i] = r
    end = self.plan(self.ep)
    return ('obs', self.ep, self.i), r, self.i == end, {}

  def render(self, *a, **k):
    self.log.append(('render', self.i))


class Agent:

  def __init__(self, env, resume):
    self.env, self.resume, self.log = env, resume, []
    self.n = 0

  def act(self):
    self.n += 1
    return (self.n * 7) % 3

  def set_mode(self, mode):
    self.log.append(('mode', getattr(mode, 'value', mode)))

  def set_summary_writer(self, summary_writer):
    self.log.append(('writer', summary_writer))

  def reload_latest_checkpoint(self, checkpoint_dir):
    self.log.append(('reload', checkpoint_dir))
    return self.resume

  def save_checkpoint(self, checkpoint_dir, iteration_number):
    self.log.append(('save', checkpoint_dir, iteration_number, self.env.ep))

  def begin_episode(self, observation):
    a = self.act()
    self.log.append(('begin', observation, a))
    return a

  def step(self, reward, observation):
    a = self.act()
    self.log.append(('step', reward, observation, a))
    return a

  def end_episode(self, reward, terminal=True):
    self.log.append(('end', reward, terminal))


WRITERS = []  # what the first collector of a run offers


class Listener:
  """A collector that remembers every call."""

  def __init__(self, base_dir, num_actions, current_episode):
    self.args = (base_dir, num_actions, current_episode)
    self.log = []
    # TensorBoard's collector has one
    self.summary_writer = WRITERS[0] if WRITERS else None

  def has_summary_writer(self):
    return self.summary_writer is not None

  def pre_training(self):
    self.log.append(('pre',))

  def begin_episode(self):
    self.log.append(('begin',))

  def step(self, statistics):
    s = statistics
    self.log.append(('step', s.step, s.action, s.reward, s.terminal))

  def end_episode(self, statistics):
    s = statistics
    self.log.append(('end', s.step, s.action, s.reward, s.terminal))

  def end_training(self):
    self.log.append(('post',))


def loop(H, longest, per, iterations):
  """Rewards free; where each episode ends, how far training got before, and the number of collectors by choice."""
  tl = H.load('train_lib')
  ends = {}

  def plan(ep):
    if ep not in ends:
      ends[ep] = H.choice(f'end{ep}', [None] + list(range(1, longest + 1))
                          ) if ep < 2 else longest
    return ends[ep]
  env = Env(H, plan)
  resume = H.choice('resume', [-1, 0, iterations - 2, iterations - 1,
                               iterations + 3])
  agent = Agent(env, resume)
  ls = []

  def make(base_dir, num_actions, current_episode):
    # only the second collector has a summary writer
    WRITERS[:] = ['writer'] if ls else []
    ls.append(Listener(base_dir, num_actions, current_episode))
    return ls[-1]
  count = H.choice('collectors', [0, 1, 2])
  tl.run_training_loop('/base', env, agent, iterations, longest, [make] * count,
                       render_period=2, episodes_per_iteration=per)
  start = max(resume + 1, 0)
  episodes = max(iterations - start, 0) * per
  H.check('episodes run', env.ep + 1 == episodes)
  first = [x for x in agent.log if x[0] in ('begin', 'step', 'end', 'save')]
  H.check('resumes from the checkpoints of this run', agent.log[0] == (
      'reload', '/base/checkpoints'))
  before = agent.log[:agent.log.index(first[0])] if first else agent.log
  H.check('trains in training mode', [x for x in agent.log if x[0] == 'mode'
                                      ] == [('mode', 'train')] and
          ('mode', 'train') in before)
  H.check('one collector per constructor', len(ls) == count)
  H.check('the agent gets the collectors\' writer, if there is one', [
      x[1] for x in agent.log if x[0] == 'writer'] == [
          'writer' if count > 1 else None])
  for l in ls:
    H.check('collectors know where training resumes',
            l.args == ('/base', 3, start * per))
  # replay the protocol
  at = 0  # into first
  pos = [1] * count
  elog = list(env.log)
  for l in ls:
    H.check('before training', l.log[0] == ('pre',))
  for ep in range(episodes):
    end = ends.get(ep)
    steps = end if end is not None else longest
    H.check('one reset per episode', elog.pop(0) == ('reset',))
    b = first[at]
    at += 1
    H.check('the agent sees the first observation',
            b[:2] == ('begin', ('obs', ep, 0)))
    act = b[2]
    for k in range(count):
      H.check('collectors: episode begins', ls[k].log[pos[k]] == ('begin',))
      pos[k] += 1
    for i in range(1, steps + 1):
      r = env.rewards[ep, i]
      last = i == steps
      H.check('the agent\'s action is taken', elog.pop(0) == ('step', act))
      if (i - 1) % 2 == 0:
        H.check('renders on time', elog.pop(0) == ('render', i))
      for k in range(count):
        e = ls[k].log[pos[k]]
        pos[k] += 1
        H.check('each transition is reported once', e[:3] == (
            'step', i - 1, act) and e[4] == (end == i))
        H.eq('with its reward', e[3], r)
      if not (last and end is not None):
        e = first[at]
        at += 1
        H.check('the agent sees the transition', e[0] == 'step' and
                e[2] == ('obs', ep, i))
        H.eq('agent: reward', e[1], r)
        act = e[3]
    e = first[at]
    at += 1
    H.check('the agent is told how the episode ended',
            e[0] == 'end' and e[2] == (end is not None))
    H.eq('agent: last reward', e[1], env.rewards[ep, steps])
    for k in range(count):
      e = ls[k].log[pos[k]]
      pos[k] += 1
      H.check('collectors: length and ending', e[:2] == ('end', steps) and
              e[4] == (end is not None))
      H.eq('collectors: last reward', e[3], env.rewards[ep, steps])
    if (ep + 1) % per == 0:
      e = first[at]
      at += 1
      H.check('a checkpoint after each iteration', e == (
          'save', '/base/checkpoints', start + ep // per, ep))
  H.check('nothing else happens', not elog and at == len(first) and all(
      l.log[p:] == [('post',)] for l, p in zip(ls, pos)))


class Writer:

  def __init__(self, log_dir):
    self.dir, self.log, self.flushed = log_dir, [], 0

  def scalar(self, tag, value, step):
    self.log.append((tag, value, step))

  def flush(self):
    self.flushed = len(self.log)


def reports(H, steps, terminal, start):
  """Pickle and TensorBoard collectors behind the dispatcher; rewards free."""
  cd = H.load('metrics.collector_dispatcher')
  si = H.load('metrics.statistics_instance')
  pc = H.load('metrics.pickle_collector')
  tc = H.load('metrics.tensorboard_collector')
  col = H.load('metrics.collector')
  disk = checkpoints.Disk(H)
  for m in (pc, col):
    H.patch(m, 'tf', disk.tf)
  ws = []

  def writer(log_dir, *a, **k):
    ws.append(Writer(log_dir))
    return ws[-1]
  H.patch(tc, 'tensorboard', H.ns(SummaryWriter=writer))
  kept = {}

  def dump(obj, file, protocol=None):
    kept[file.name] = list(obj)
  H.patch(pc, 'pickle', H.ns(dump=dump, HIGHEST_PROTOCOL=5))
  fine = H.flag('fine')

  def tensorboard(base_dir, num_actions, current_episode):
    return tc.TensorboardCollector(base_dir, num_actions, current_episode,
                                   fine_grained_logging=fine,
                                   fine_grained_frequency=2)
  d = cd.CollectorDispatcher('/base', 3, [pc.PickleCollector, tensorboard],
                             start)
  H.check('the agent shares TensorBoard\'s writer',
          len(ws) == 1 and d.get_summary_writer() is ws[0])
  H.check('each collector has its own directory',
          ws[0].dir == '/base/metrics/tensorboard')
  d.pre_training()
  g = 0
  for ep in range(2):
    d.begin_episode()
    n = len(ws[0].log)
    total, sent = 0.0, []
    fines = []
    for i in range(steps):
      r = H.real(f'r{ep}_{i}', -1.0, 1.0)
      total = total + r
      s = si.StatisticsInstance(step=i, action=(i + ep) % 3, reward=r,
                                terminal=terminal and i == steps - 1)
      d.step(s)
      sent.append(s)
      if fine and g % 2 == 0:
        fines.append((r, g))
      g += 1
    s = si.StatisticsInstance(step=steps, action=(steps - 1 + ep) % 3, reward=r,
                              terminal=terminal)
    d.end_episode(s)
    g += 1
    got = kept.get(f'/base/metrics/pickle/pickle_{start + ep}.pkl')
    H.check('one pickle per episode, numbered from the start',
            got is not None and len(kept) == ep + 1)
    H.check('every transition in order, then the summary',
            len(got) == steps + 1 and all(a is b for a, b in zip(
                got, sent + [s])))
    new = ws[0].log[n:]
    f = [x for x in new if x[0] == 'Train/FineGrainedReward']
    H.check('fine-grained rewards at their steps',
            [x[2] for x in f[:len(fines)]] == [x[1] for x in fines] and
            len(f) == len(fines) + int(fine))
    for a, b in zip(f, fines):
      H.eq('fine-grained reward', a[1], b[0])
    e = [x for x in new if x[0] == 'Train/EpisodeReward']
    l = [x for x in new if x[0] == 'Train/EpisodeLength']
    H.check('one summary per episode', len(e) == len(l) == 1 and
            e[0][2] == l[0][2] == start + ep and l[0][1] == steps)
    H.check('flushed', ws[0].flushed == len(ws[0].log))
    H.check('the reported reward is the episode\'s, give or take the last',
            H.or_(H.abs(e[0][1] - total) < 1e-7,
                  H.abs(e[0][1] - total - r) < 1e-7))
    if ep == 1:
      H.check(TWICE, H.abs(e[0][1] - total) < 1e-7)
  d.end_training()


def console(H):
  """The console collector: rewards free, actions by choice."""
  cc = H.load('metrics.console_collector')
  si = H.load('metrics.statistics_instance')
  c = cc.ConsoleCollector(None, 3, 12)
  c.pre_training()
  c.begin_episode()
  a = H.int('a', -3, 6)
  s = si.StatisticsInstance(step=0, action=a.__index__(), reward=0.25,
                            terminal=False)
  ok, e = H.attempt(c.step, s)
  H.check('actions outside the action space are refused', H.iff(
      ok, H.between_(a, 0, 2)))
  if not ok:
    H.check('refused with ValueError', isinstance(e, ValueError))
    return
  c.end_episode(si.StatisticsInstance(step=1, action=a.__index__(), reward=0.5,
                                      terminal=True))
  H.check('episodes are counted', c.current_episode == 13)
  c.end_training()


def transcript(H):
  """The console collector's file and log: rewards free, logging frequency, length and place by choice."""
  cc = H.load('metrics.console_collector')
  si = H.load('metrics.statistics_instance')
  col = H.load('metrics.collector')
  wrote, said, made = [], [], []

  class File:

    def __init__(self, name, mode='r'):
      wrote.append([name, mode, [], False])
      self.to = wrote[-1]

    def write(self, text):
      H.check('the file is open', not self.to[3])
      self.to[2].append(str(text))

    def close(self):
      self.to[3] = True
  tf = H.ns(io=H.ns(gfile=H.ns(GFile=File, makedirs=made.append)),
            errors=H.ns(PermissionDeniedError=checkpoints.Denied))
  for m in (cc, col):
    H.patch(m, 'tf', tf)
  H.patch(cc, 'logging', H.ns(info=lambda s, *a: said.append(s % a if a else s)))
  base = H.choice('base', [None, '/base'])
  fine, save = H.flag('fine'), H.flag('save')
  every = H.choice('every', [1, 2, 3])
  start = H.choice('start', [0, 12])
  c = cc.ConsoleCollector(base, 3, start, fine_grained_logging=fine,
                          fine_grained_frequency=every, save_to_file=save)
  H.check('its name', c.get_name() == 'console')
  c.pre_training()
  filed = base is not None and save
  H.check('one log file, where it belongs', [x[:2] for x in wrote] == (
      [['/base/metrics/console/console.log', 'w']] if filed else []))
  H.check('the directory exists', base is None or
          made == ['/base/metrics/console'])
  n = H.choice('n', [1, 4])
  for ep in range(2):
    c.begin_episode()
    for i in range(n):
      del said[:]
      k = len(wrote[0][2]) if filed else 0
      c.step(si.StatisticsInstance(step=i, action=(i + ep) % 3, reward=0.25,
                                   terminal=False))
      new = wrote[0][2][k:] if filed else []
      due = fine and i % every == 0
      H.check('steps are logged when due', len(said) == int(due) and
              len(new) == int(due and filed))
      if due:
        H.check('with the step and its action', f'Step: {i},' in said[0] and
                f'action: {(i + ep) % 3},' in said[0])
        H.check('the same to the file', not filed or new[0] == said[0])
    del said[:]
    k = len(wrote[0][2]) if filed else 0
    c.end_episode(si.StatisticsInstance(step=n, action=(n - 1 + ep) % 3,
                                        reward=0.25, terminal=True))
    new = wrote[0][2][k:] if filed else []
    H.check('one line per episode', len(said) == 1 and len(new) == int(filed))
    H.check('with its number and length', f'Episode {start + ep}:' in said[0]
            and f'episode length: {n},' in said[0])
    H.check('the same to the file', not filed or new[0] == said[0])
  c.end_training()
  H.check('the file is closed', not filed or wrote[0][3])


def choose(H):
  """Collector names: the known ones, in order; unknown ones are skipped."""
  tl = H.load('train_lib')
  cd = H.load('metrics.collector_dispatcher')
  names = H.choice('names', [[], ['console'], ['pickle', 'nope', 'console'],
                             ['tensorboard', 'pickle'], ['x', 'y']])
  H.check('chosen collectors', tl.get_collector_data(names) == [
      cd.AVAILABLE_COLLECTORS[n] for n in names
      if n in ('console', 'pickle', 'tensorboard')])
  H.check('directories are required', all(
      not H.attempt(cd.AVAILABLE_COLLECTORS[n], None, 3, 0)[0]
      for n in ('pickle', 'tensorboard')))


def obligations(tier):
  obs = [Ob('console', console), Ob('transcript', transcript), Ob('choose', choose)]
  shapes = [(3, 1, 3), (2, 2, 2)]
  if tier == 'thorough':
    shapes += [(4, 3, 2), (5, 1, 4), (1, 1, 5)]
  for a, b, c in shapes:
    obs.append(Ob(f'loop_{a}_{b}_{c}', loop, dict(
        longest=a, per=b, iterations=c)))
  for n, t, s in ((1, True, 0), (3, False, 100), (4, True, 7)):
    obs.append(Ob(f'reports_{n}_{s}', reports, dict(
        steps=n, terminal=t, start=s)))
  return obs
