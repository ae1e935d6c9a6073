"""Agents that do not learn: random, Perciatelli44, and what agents default to."""
import types

from vx.api import Ob
from checks import learners


def random_any(H):
  """Number of actions and every draw free: never an action that does not exist."""
  ag = H.load('agents.agent')
  n = H.int('n', 1, 50)
  draws = []

  def randint(low, high=None, size=None, dtype=int):
    lo, hi = (0, low) if high is None else (low, high)
    d = H.int(f'd{len(draws)}', 0, 49)
    H.assume(H.and_(lo <= d, d < hi))
    draws.append(d)
    return d
  H.patch(H.lib('numpy').random, 'randint', randint)
  a = ag.RandomAgent(n, (5,))
  x = a.begin_episode('o')
  H.between('first action exists', x, 0, n - 1)
  y = a.step(0.5, 'o')
  H.between('later action exists', y, 0, n - 1)
  H.check('a new draw each time', len(draws) == 2)


def random_all(H):
  """Number of actions by choice: every action is as likely as any other."""
  ag = H.load('agents.agent')
  n = H.choice('n', [1, 2, 3, 7])
  k = [0]

  def randint(low, high=None, size=None, dtype=int):
    lo, hi = (0, low) if high is None else (low, high)
    k[0] += 1
    return lo + (k[0] - 1) % (hi - lo)
  H.patch(H.lib('numpy').random, 'randint', randint)
  a = ag.RandomAgent(n, (5,))
  got = [a.begin_episode('o')]
  while len(got) < 3 * n:
    got.append(a.step(0.0, 'o'))
  H.check('equally often', sorted(int(x) for x in got) == sorted(
      list(range(n)) * 3))
  H.check('ends without complaint', a.end_episode(0.0) is None)


class Session:
  """Stand-in for a TensorFlow session on the graph that was imported."""

  def __init__(self, tf):
    self.tf = tf
    self.graph = self

  def get_tensor_by_name(self, name):
    return ('tensor', name)

  def as_graph_def(self):
    return types.SimpleNamespace(node=[
        types.SimpleNamespace(name=n) for n in self.tf.nodes])

  def run(self, fetches, feed_dict=None):
    return self.tf.run(fetches, feed_dict)


class Tf:

  def __init__(self, H):
    self.parsed, self.imported, self.runs = [], [], []
    self.nodes = []
    tf = self

    class GraphDef:

      def ParseFromString(self, b):
        self.b = b
        tf.parsed.append(b)

    def import_graph_def(graph_def, *a, **k):
      tf.imported.append(graph_def.b)
    self.module = H.ns(compat=H.ns(v1=H.ns(
        Session=lambda *a, **k: Session(tf), GraphDef=GraphDef,
        import_graph_def=import_graph_def)))


def flown(H):
  """Three free values per observation: the action is the one of the highest value for this observation."""
  mo = H.load('models.models')
  pe = H.load('agents.perciatelli44')
  np = H.lib('numpy')
  tf = Tf(H)
  H.patch(pe, 'tf', tf.module)
  loads = []

  def load(*a, **k):
    loads.append(a)
    return b'the model'
  H.patch(mo, 'load_perciatelli44', load)
  shape = H.choice('shape', [(1099,), [1099]])
  agent = pe.Perciatelli44(3, shape)
  H.check('the published model', tf.parsed == [b'the model'] == tf.imported)
  qs, seen = [], []

  def run(fetches, feed_dict):
    H.check('asks for the values of the actions',
            fetches == ('tensor', 'q_values:0'))
    H.check('of one observation', list(feed_dict) == [
        ('tensor', 'observation:0')])
    seen.append(feed_dict[('tensor', 'observation:0')])
    q = H.reals(f'q{len(qs)}_', 3, -50.0, 50.0)
    H.assume(H.and_(H.abs(q[0] - q[1]) > 1e-3, H.abs(q[0] - q[2]) > 1e-3,
                    H.abs(q[1] - q[2]) > 1e-3))
    qs.append(q)
    return np.array(H.array(q)).reshape((1, 3))
  tf.run = run
  x = H.reals('x', 2, -1.0, 1.0)
  one_array = H.flag('one array for all observations')
  shown = H.array([x[0]] + [0.25] * 1097 + [x[1]])
  for k in range(3):
    obs = H.array([x[0] + k] + [0.25] * 1097 + [x[1] - k])
    if one_array:
      shown[:] = obs
      obs = shown
    act = agent.step(H.real(f'r{k}', -1.0, 1.0), obs) if k else (
        agent.begin_episode(obs))
    act = act.__index__()
    H.check('an action', act in (0, 1, 2))
    H.check('looks once', len(qs) == k + 1)
    H.check('as a batch of one', tuple(seen[-1].shape) == (1, 1099))
    H.eq('this observation', seen[-1][0, 0], x[0] + k)
    H.eq('this observation', seen[-1][0, 1098], x[1] - k)
    for v in qs[-1]:
      H.le('no action is valued more', v, qs[-1][act])
  agent.end_episode(0.0)
  H.check('the model is loaded once', len(loads) == 1)


def refuses(H):
  """Sizes it was not trained for: refused before the model is loaded."""
  pe = H.load('agents.perciatelli44')
  tf = Tf(H)
  H.patch(pe, 'tf', tf.module)
  H.patch(H.load('models.models'), 'load_perciatelli44', lambda *a: b'm')
  n = H.int('n', 0, 10)
  shape = H.choice('shape', [(1099,), (1098,), (1100,), (1099, 1), ()])
  ok, e = H.attempt(pe.Perciatelli44, n, shape)
  fits = H.and_(n == 3, shape == (1099,))
  H.check('only 3 actions and 1099 features', H.iff(ok, fits))
  if not ok:
    H.check('refused with ValueError', isinstance(e, ValueError))
    H.check('before anything is loaded', not tf.parsed)


def weights(H):
  """A graph of free numbers, its nodes in any of three orders: each layer gets its own kernel and bias."""
  qa, _, _, _ = learners.modules(H)
  pe = H.load('agents.perciatelli44')
  np = H.lib('numpy')
  tf = Tf(H)
  name = lambda i: 'Online/fully_connected' + (f'_{i}' if i else '')
  val = {}
  for i in range(8):
    w, b = H.real(f'w{i}', -1.0, 1.0), H.real(f'b{i}', -1.0, 1.0)
    val[name(i) + '/weights'], val[name(i) + '/biases'] = w, b
  nodes = list(val)
  for x in list(val):
    nodes += [x + '/read', x.replace('Online', 'Target')]
  nodes += ['observation', 'q_values', 'Online/Reshape', 'Online/flatten']
  order = H.choice('order', [0, 1, 2])
  nodes = [nodes, nodes[::-1], sorted(nodes, key=lambda s: s[::-1])][order]
  tf.nodes = nodes
  asked = []

  def run(fetches, feed_dict=None):
    one = not isinstance(fetches, (list, dict))
    H.check('one tensor at a time', one)
    n = fetches[1].split(':')[0]
    asked.append(n)
    if n.split('/')[-1] in ('observation', 'q_values', 'Reshape', 'flatten'):
      raise ValueError('You must feed a value for placeholder observation')
    return np.array(H.array([val[n] if n in val else 99.0]))
  tf.run = run
  H.patch(pe, 'load_perciatelli_session', lambda: Session(tf))
  H.patch(qa, 'flax', H.ns(core=H.ns(FrozenDict=lambda d: d, freeze=lambda d: d)))
  p = qa.QuantileAgent.load_perciatelli_weights()
  H.check('eight layers', list(p) == ['params'] and sorted(p['params']) == [
      f'Dense_{i}' for i in range(8)])
  for i in range(8):
    d = p['params'][f'Dense_{i}']
    H.check('a kernel and a bias each', sorted(d) == ['bias', 'kernel'])
    H.eq('kernel of this layer', d['kernel'][0], val[name(i) + '/weights'])
    H.eq('bias of this layer', d['bias'][0], val[name(i) + '/biases'])


def finetune(H):
  """Starting from Perciatelli44, or not, as asked."""
  qa, _, _, _ = learners.modules(H)
  start = H.flag('reload')
  made = []

  def load():
    made.append(object())
    return made[-1]
  H.patch(qa.QuantileAgent, 'load_perciatelli_weights', staticmethod(load))
  a = qa.QuantileAgent(3, (5,), seed=1, network='net', checkpoint_duration=4,
                       exploration_wrapper_constructor=learners.Wrapper,
                       reload_perciatelli=start)
  H.check('loads only when asked', len(made) == (1 if start else 0))
  if start:
    H.check('both networks start there', a.online_params is made[0] and
            a.target_network_params is made[0])
  else:
    H.check('starts afresh', not hasattr(a, 'online_params'))


def defaults(H):
  """What an agent need not define: no checkpoints, no modes, a name."""
  ag = H.load('agents.agent')
  n = H.int('n', 1, 9)

  class Mine(ag.Agent):

    def begin_episode(self, observation):
      return 0

    def step(self, reward, observation):
      return 1

    def end_episode(self, reward, terminal=True):
      pass
  modes = []

  class Watching(Mine):

    def set_mode(self, mode):
      modes.append(mode)
  a = Mine(n, (5,))
  H.check('its name', a.get_name() == 'Mine' and ag.RandomAgent(
      3, (5,)).get_name() == 'RandomAgent')
  k = H.int('k', 0, 1000)
  H.check('saves and loads nothing', a.save_checkpoint('/none', k) is None and
          a.load_checkpoint('/none', k) is None)
  H.check('no checkpoint to go on from', a.reload_latest_checkpoint(
      '/none') == -1)
  w = object()
  a.set_summary_writer(w)
  H.check('its writer', a.summary_writer is w)
  a.set_summary_writer(None)
  H.check('or none', a.summary_writer is None)
  for m in ('train', 'eval', ag.AgentMode.TRAIN, ag.AgentMode.EVAL):
    a.set_mode(m)
  H.check('modes by name', ag.AgentMode('train') is ag.AgentMode.TRAIN and
          ag.AgentMode('eval') is ag.AgentMode.EVAL)
  Watching(n, (5,))
  H.check('agents start out training', modes == [ag.AgentMode.TRAIN])
  ok, e = H.attempt(ag.Agent, 3, (5,))
  H.check('an agent has to act', not ok and isinstance(e, TypeError))


def obligations(tier):
  return [Ob('random_any', random_any), Ob('random_all', random_all),
          Ob('flown', flown), Ob('refuses', refuses), Ob('weights', weights),
          Ob('finetune', finetune), Ob('defaults', defaults)]
