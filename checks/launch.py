"""Starting runs: agents and settings by name, model files, the trainer."""
import io
import os

from vx.api import Ob
from checks import checkpoints
from checks import shards

AGENTS = {
    'random': ('RandomAgent', None), 'mlp': ('MLPAgent', 'mlp'),
    'dqn': ('DQNAgent', 'dqn'), 'perciatelli44': ('Perciatelli44', None),
    'quantile': ('QuantileAgent', 'quantile'),
    'finetune_perciatelli': ('QuantileAgent', 'finetune_perciatelli'),
    'station_seeker': ('StationSeekerAgent', None),
    'random_walk': ('RandomWalkAgent', None)}
CONFIGS = 'balloon_learning_environment/agents/configs/'


def names(H):
  """The name by choice; sizes free."""
  rh = H.load('utils.run_helpers')
  reg = H.load('agents.agent_registry')
  name = H.choice('name', sorted(AGENTS) + ['', 'DQN', 'no_such_agent'])
  own = H.choice('gin', [None, '/mine.gin'])
  if name not in AGENTS:
    for f, a in ((reg.agent_constructor, (name,)),
                 (reg.get_default_gin_config, (name,)),
                 (rh.create_agent, (name, 3, (5,)))):
      ok, e = H.attempt(f, *a)
      H.check('unknown agents are refused', not ok and isinstance(
          e, ValueError))
    return
  cls, gin = AGENTS[name]
  H.check('the agent of that name', reg.agent_constructor(
      name).__name__ == cls)
  want = gin and CONFIGS + gin + '.gin'
  H.check('its default settings', reg.get_default_gin_config(name) == want)
  got = rh.get_agent_gin_file(name, own)
  H.check('own settings go first', got == (own or want))
  made = []

  def construct(num_actions, observation_shape):
    made.append((num_actions, observation_shape))
    return 'the agent'
  H.patch(reg, 'REGISTRY', {**reg.REGISTRY, name: (construct, None)})
  n = H.int('n', 1, 9)
  H.check('made', rh.create_agent(name, n, (7,)) == 'the agent')
  H.check('with the environment\'s sizes', len(made) == 1 and
          made[0][1] == (7,))
  H.eq('number of actions', made[0][0], n)


def winds(H):
  """Wind fields by name."""
  rh = H.load('utils.run_helpers')
  wf = H.load('env.wind_field')
  gw = H.load('env.generative_wind_field')
  name = H.choice('name', ['simple', 'generative', '', 'Simple', None])
  ok, f = H.attempt(rh.get_wind_field_factory, name)
  H.check('unknown winds are refused', ok == (name in (
      'simple', 'generative')))
  if name == 'simple':
    H.check('simple', isinstance(f(), wf.SimpleStaticWindField))
    H.check('a new one each time', f() is not f())
  elif name == 'generative':
    made = []
    H.patch(gw, 'GenerativeWindFieldSampler', lambda: made.append(1) or H.ns(
        field_shape=H.load('generative.vae').FieldShape()))
    g = f()
    H.check('generative', len(made) == 1 and isinstance(g, H.load(
        'env.grid_based_wind_field').GridBasedWindField))
  else:
    H.check('refused with ValueError', isinstance(f, ValueError))


def settings(H):
  """Which files and bindings apply, and in what order."""
  rh = H.load('utils.run_helpers')
  log = []

  def parse(config_files=None, bindings=None, finalize_config=True,
            skip_unknown=False, **k):
    log.append(('parse', list(config_files), list(bindings), skip_unknown))
  H.patch(rh, 'gin', H.ns(
      add_config_file_search_path=lambda path: log.append(('search', path)),
      parse_config_files_and_bindings=parse))
  name = H.choice('name', sorted(AGENTS))
  own = H.choice('own', [None, '/mine.gin'])
  more = H.choice('more', [(), ('/a.gin', '/b.gin'), ('/a.gin', '/mine.gin'),
                           ('/b.gin', '/a.gin', '/b.gin')])
  binds = H.choice('bindings', [(), ['x = 1', 'y = 2']])
  k = {}
  if more or H.flag('explicit'):
    k['additional_gin_files'] = more
  rh.bind_gin_variables(name, own, binds, **k)
  H.check('searched first', [e[0] for e in log] == ['search', 'parse'])
  gin = AGENTS[name][1]
  base = own or (gin and CONFIGS + gin + '.gin')
  H.check('the agent\'s file, then the others; bindings last', log[1] == (
      'parse', ([base] if base else []) + list(more), list(binds), False))
  if gin:
    H.check('the default file is found from there', os.path.exists(
        os.path.join(log[0][1], CONFIGS + gin + '.gin')))


def files(H, which):
  """Any subset of the three places may hold the model."""
  mo = H.load('models.models')
  disk = checkpoints.Disk(H)
  name = dict(offlineskies22='offlineskies22_decoder.msgpack',
              perciatelli44='perciatelli44.pb')[which]
  asked = H.flag('asked')
  package = H.flag('package')
  for place, there in (('/mine', H.flag('there')),
                       ('balloon_learning_environment/models/' + name,
                        H.flag('source'))):
    if there:
      disk.files[place] = place.encode()

  def open_binary(pkg, resource):
    if package and pkg == 'balloon_learning_environment.models' and (
        resource == name):
      return io.BytesIO(b'package')
    raise FileNotFoundError(resource)
  H.patch(mo, 'tf', disk.tf)
  H.patch(mo, 'resources', H.ns(open_binary=open_binary))
  load = getattr(mo, 'load_' + which)
  ok, got = H.attempt(load, '/mine') if asked else H.attempt(load)
  if asked:
    H.check('a given path is the only one tried', ok == ('/mine' in disk.files))
    H.check('what it holds', (ok and got == b'/mine') or (
        not ok and isinstance(got, ValueError)))
  elif package:
    H.check('the installed package first', ok and got == b'package')
  elif len(disk.files) - ('/mine' in disk.files):
    H.check('then the source tree', ok and got == (
        b'balloon_learning_environment/models/' + name.encode()))
  else:
    H.check('nowhere: RuntimeError', not ok and isinstance(got, RuntimeError))


def trainer(H):
  """train.main: numbers free, the rest by choice."""
  tr = shards.load(H, 'train')
  log = []
  frame = H.choice('frame', [None, 'rows'])
  img = None if frame is None else H.lib('numpy').array([[1.0, 2.0]])

  def render(mode='human'):
    log.append(('render', mode))
    return img
  env = H.ns(action_space=H.ns(n=3), observation_space=H.ns(shape=(4,)),
             render=render)
  agent = object()
  rh = H.ns(
      bind_gin_variables=lambda agent, agent_gin_file=None, gin_bindings=(),
      additional_gin_files=(): log.append(
          ('gin', agent, agent_gin_file, gin_bindings)),
      get_wind_field_factory=lambda wind_field_name: 'wf ' + wind_field_name,
      create_agent=lambda agent_name, num_actions, observation_shape: log.append(
          ('agent', agent_name, num_actions, observation_shape)) or agent)

  def run_training_loop(base_dir, env, agent, num_iterations,
                        max_episode_length, collector_constructors, *,
                        render_period=10, episodes_per_iteration=50):
    log.append(('run', base_dir, env, agent, num_iterations,
                max_episode_length, collector_constructors, render_period,
                episodes_per_iteration))
  H.patch(tr, 'run_helpers', rh)
  H.patch(tr, 'train_lib', H.ns(
      get_collector_data=lambda collectors=None: ('data', collectors),
      run_training_loop=run_training_loop))
  ren = []
  H.patch(tr, '_RENDERERS', {'matplotlib': lambda: ren.append(
      object()) or ren[-1]})
  H.patch(tr, 'gym', H.ns(make=lambda name, wind_field_factory=None,
                          renderer=None: log.append(
                              ('env', name, wind_field_factory,
                               renderer)) or env))
  saved = []
  H.patch(tr, 'matplotlib', H.ns(image=H.ns(
      imsave=lambda fname, arr: saved.append((fname, arr)))))
  r = H.choice('renderer', [None, 'matplotlib'])
  number = H.choice('run', [7, 0, 1, 12])
  n, m = H.int('iterations', 0, 1000), H.int('length', 1, 2000)
  p, q = H.int('period', 1, 50), H.int('per', 1, 100)
  H.patch(tr, 'FLAGS', H.ns(
      agent='mlp', env_name='E-v0', num_iterations=n, max_episode_length=m,
      base_dir='/base', run_number=number, wind_field='simple',
      agent_gin_file=None, collectors=['console'], gin_bindings=['a=1'],
      renderer=r, render_period=p, episodes_per_iteration=q))
  tr.main(['train'])
  ev = [e[0] for e in log]
  H.check('settings are bound before anything is built', [
      x for x in ev if x != 'render'][0] == 'gin' and log[ev.index('gin')] == (
          'gin', 'mlp', None, ['a=1']))
  H.check('the environment asked for', log[ev.index('env')] == (
      'env', 'E-v0', 'wf simple', ren[0] if r else None) and len(ren) == bool(
          r))
  H.check('the agent asked for', log[ev.index('agent')] == (
      'agent', 'mlp', 3, (4,)))
  H.check('each thing once', sorted(x for x in ev if x != 'render') == [
      'agent', 'env', 'gin', 'run'])
  run = log[ev.index('run')]
  H.check('a directory per agent and run', run[1] == f'/base/mlp/{number}')
  H.check('trains them, with the collectors asked for', run[2] is env and
          run[3] is agent and run[6] == ('data', ['console']))
  H.check('for as long as asked', H.and_(run[4] == n, run[5] == m,
                                         run[7] == p, run[8] == q))
  if img is None:
    H.check('no frame, no picture', not saved)
  else:
    H.check('the last frame is kept', len(saved) == 1 and
            saved[0][0] == '/base/balloon_path.png' and saved[0][1] is img)


def registration(H):
  """However often the package is loaded, whatever is registered already: the environment is registered exactly once."""
  g = H.load('env.gym')
  envs = H.lib('gym.envs')
  ours = 'BalloonLearningEnvironment-v0'
  specs, calls, spaces = {'CartPole-v1': 1}, [], []
  if H.flag('alike'):
    specs.update({'My' + ours: 1, ours[:-1] + '1': 1, ours + '1': 1,
                  ours[:-3]: 1, ours.lower(): 1, 'ns/' + ours: 1})
  before = H.flag('registered')
  if before:
    specs[ours] = 'spec'

  class Namespace:

    def __init__(self, ns):
      self.ns = ns

    def __enter__(self):
      spaces.append(self.ns)

    def __exit__(self, *a):
      spaces.pop()

  def register(id, entry_point=None, **k):
    calls.append((id, entry_point, k, list(spaces)))
    specs[id] = 'spec'
  class Registry(dict):
    env_specs = property(lambda self: self)
  specs = Registry(specs)
  old = H.flag('namespaces')
  fake = H.ns(registry=specs, register=register)
  if old:
    fake.namespace = Namespace
  H.patch(envs, 'registration', fake)
  for _ in range(H.choice('times', [1, 2, 3])):
    g.register_env()
  if before:
    H.check('not registered again', not calls)
  else:
    H.check('registered once', len(calls) == 1)
    H.check('under its name, without restrictions', calls[0][:3] == (
        ours, 'balloon_learning_environment.env.balloon_env:BalloonEnv', {}))
    H.check('in the root namespace', calls[0][3] == ([None] if old else []))
  H.check('the namespace is left again', not spaces)
  module, cls = 'env.balloon_env', 'BalloonEnv'
  H.check('the entry point exists', hasattr(H.load(module), cls))


def obligations(tier):
  return [Ob('registration', registration), Ob('names', names), Ob('winds', winds), Ob('settings', settings),
          Ob('trainer', trainer)] + [
              Ob('files_' + w, files, dict(which=w))
              for w in ('offlineskies22', 'perciatelli44')]
