"""Sharded evaluation: who flies which seed, and putting results together."""
import copy
import datetime as dt
import json
import os
import shutil
import tempfile

from vx.api import Ob


class Seeds(list):
  """A list whose slices may have symbolic bounds; slicing is recorded."""

  cuts = ()

  def __getitem__(self, i):
    if not isinstance(i, slice):
      return list.__getitem__(self, i)
    if i.step is not None or isinstance(i.start, int) and isinstance(
        i.stop, int):
      return list.__getitem__(self, i)
    return Cut(self, i.start, i.stop)


class Cut:

  def __init__(self, seeds, start, stop):
    self.seeds, self.start, self.stop = seeds, start, stop

  def all(self):
    a = 0 if self.start is None else self.start.__index__()
    b = len(self.seeds) if self.stop is None else self.stop.__index__()
    return list.__getitem__(self.seeds, slice(a, b))

  def __len__(self):
    return len(self.all())

  def __iter__(self):
    return iter(self.all())

  def __getitem__(self, i):
    return self.all()[i]


def load(H, name):
  """Both scripts define the flag pretty_json; only one can at a time."""
  try:
    from absl import flags
    for f in list(flags.FLAGS):
      d = flags.FLAGS[f]
      if 'balloon_learning_environment' in str(
          flags.FLAGS.find_module_defining_flag(f)):
        delattr(flags.FLAGS, f)
    flags.FLAGS.unparse_flags()
  except Exception:  # pylint: disable=broad-except
    pass
  return H.load(name)


FLAGS = dict(agent='dqn', suite='s', wind_field='simple', agent_gin_file=None,
             gin_bindings=[], output_dir='/nowhere', num_shards=1, shard_idx=0,
             pretty_json=False, checkpoint_dir=None, checkpoint_idx=None,
             name_override=None, renderer=None, render_period=10)


class Launch:
  """eval.main with everything but the choice of seeds replaced."""

  def __init__(self, H, suite):
    self.H, self.ev = H, load(H, 'eval.eval')
    self.log = []
    log = self.log.append
    agent = H.ns(load_checkpoint=lambda checkpoint_dir, iteration_number: log(
        ('load', checkpoint_dir, iteration_number)))
    env = H.ns(action_space=H.ns(n=3), observation_space=H.ns(shape=(4,)))

    def create_agent(agent_name, num_actions, observation_shape):
      log(('agent', agent_name, num_actions, observation_shape))
      return agent

    def bind_gin_variables(agent, agent_gin_file=None, gin_bindings=(),
                           additional_gin_files=()):
      log(('gin', agent, agent_gin_file, gin_bindings))

    def make(name, wind_field_factory=None, renderer=None):
      log(('env', name, wind_field_factory, renderer))
      return env

    def get_eval_suite(name):
      log(('suite', name))
      return suite

    def eval_agent(agent_, env_, eval_suite, *, render_period=10,
                   calculate_flight_path=True):
      log(('eval', agent_ is agent and env_ is env, eval_suite, render_period,
           calculate_flight_path))
      return self.results(eval_suite)
    self.results = lambda eval_suite: []
    H.patch(self.ev, 'run_helpers', H.ns(
        create_agent=create_agent, bind_gin_variables=bind_gin_variables,
        get_wind_field_factory=lambda wind_field_name: 'wf ' +
        wind_field_name))
    H.patch(self.ev, 'gym', H.ns(make=make))
    H.patch(self.ev.suites, 'get_eval_suite', get_eval_suite)
    H.patch(self.ev.eval_lib, 'eval_agent', eval_agent)

  def flags(self, **k):
    assert set(k) <= set(FLAGS)
    self.H.patch(self.ev, 'FLAGS', self.H.ns(**{**FLAGS, **k}))

  def run(self):
    del self.log[:]
    self.ev.main(['eval'])
    return list(self.log)


def ends(H, seeds, got):
  """Which seeds a shard was given, as positions."""
  if isinstance(got, Cut):
    return (0 if got.start is None else got.start,
            len(seeds) if got.stop is None else got.stop)
  got = list(got)
  if not got:
    return None
  H.check('a run of consecutive seeds', got == list.__getitem__(
      seeds, slice(got[0], got[0] + len(got))))
  return got[0], got[0] + len(got)


def partition(H, seeds, shards):
  """The shard is a free integer."""
  su = H.load('eval.suites')
  s = Seeds(range(seeds))
  L = Launch(H, su.EvaluationSuite(s, 9))
  sent = []

  def write_result(result):
    sent.append(result)
  H.patch(L.ev, 'write_result', write_result)
  token = [object()]
  L.results = lambda eval_suite: token
  i = H.int('shard', 0, shards - 1)

  def given(k):
    L.log[:] = []
    suite = su.EvaluationSuite(s, 9)
    H.patch(L.ev.suites, 'get_eval_suite', lambda name: suite)
    L.flags(num_shards=shards, shard_idx=k)
    e = [x for x in L.run() if x[0] == 'eval']
    H.check('evaluated once, on the agent and environment made',
            len(e) == 1 and e[0][1])
    H.check('episodes as long as the suite says',
            e[0][2].max_episode_length == 9)
    return ends(H, s, e[0][2].seeds)
  a = given(i)
  H.check('what was measured is written', len(sent) == 1 and
          sent[0] is token)
  n, m = seeds, shards
  if a is None:
    H.check('no seeds only with more shards than seeds', n < m)
  else:
    lo, hi = a
    H.check('within the suite', H.and_(lo >= 0, lo <= hi, hi <= n))
    H.between('fair shares', (hi - lo) * m, n - m + 1, n + m - 1)
    H.check('the first starts at the first seed', H.implies(i == 0, lo == 0))
    H.check('the last ends at the last seed', H.implies(i == m - 1, hi == n))
    if m > 1 and bool(i < m - 1):
      b = given(i + 1)
      if b is not None:
        H.check('the next shard continues', b[0] == hi)


def launch(H):
  """What eval.main sets up: flags by choice, the checkpoint index free."""
  su = H.load('eval.suites')
  s = su.EvaluationSuite([4, 2], 9)
  L = Launch(H, s)
  H.patch(L.ev, 'write_result', lambda result: None)
  ren = []

  def renderer():
    ren.append(object())
    return ren[-1]
  H.patch(L.ev, '_RENDERERS', {'matplotlib': renderer})
  k = H.flag('index') and H.int('k', 0, 10**6) or None
  idx = k if H.flag('given') else None
  d = H.choice('dir', [None, '/ckpt'])
  r = H.choice('renderer', [None, 'matplotlib'])
  p = H.int('period', 1, 50)
  L.flags(agent='quantile', suite='tiny_eval', wind_field='generative',
          agent_gin_file='/a.gin', gin_bindings=['x=1'], checkpoint_dir=d,
          checkpoint_idx=idx, renderer=r, render_period=p)
  log = L.run()
  ev = [x[0] for x in log]
  H.check('settings are bound before anything is built',
          ev.count('gin') == 1 and ev[0] == 'gin' and
          log[0] == ('gin', 'quantile', '/a.gin', ['x=1']))
  H.check('the environment asked for', [x for x in log if x[0] == 'env'] == [
      ('env', 'BalloonLearningEnvironment-v0', 'wf generative',
       ren[0] if ren else None)] and len(ren) == (r is not None))
  H.check('the agent asked for', [x for x in log if x[0] == 'agent'] == [
      ('agent', 'quantile', 3, (4,))])
  H.check('the suite asked for', [x for x in log if x[0] == 'suite'] == [
      ('suite', 'tiny_eval')])
  lo = [x for x in log if x[0] == 'load']
  if d is None or idx is None:
    H.check('no checkpoint without both its place and number', not lo)
  else:
    H.check('the checkpoint asked for, before evaluating', len(lo) == 1 and
            lo[0][1] == d and ev.index('load') < ev.index('eval'))
    H.check('its number', lo[0][2] == idx)
  e = log[-1]
  H.check('every seed of the suite', e[0] == 'eval' and e[1] and
          list(e[2].seeds) == [4, 2] and e[2].max_episode_length == 9)
  H.check('render period', e[3] == p)
  H.check('with flight paths', e[4] is True)
  ok, _ = H.attempt(L.ev.main, ['eval', 'junk'])
  H.check('stray arguments are refused', not ok)


class Json:
  """json, whose numbers may be symbolic: files hold references."""

  def __init__(self):
    self.kept = []
    self.indents = []

  def __getattr__(self, name):
    return getattr(json, name)

  def enc(self, o, cls):
    if isinstance(o, dict):
      return {k: self.enc(v, cls) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
      return [self.enc(v, cls) for v in o]
    if o is None or isinstance(o, (str, int, float)) or hasattr(o, 't') or (
        type(o).__module__.startswith('vx')):
      return o
    return self.enc(cls().default(o), cls)

  def dumps(self, obj, cls=None, indent=None, **k):
    self.kept.append(self.enc(obj, cls))
    self.indents.append(indent)
    return f'"@{len(self.kept) - 1}"'

  def dump(self, obj, fp, cls=None, indent=None, **k):
    fp.write(self.dumps(obj, cls, indent))

  def loads(self, s, **k):
    return copied(self.kept[int(s.strip()[2:-1])])

  def load(self, fp, **k):
    return self.loads(fp.read())


def copied(o):
  if isinstance(o, dict):
    return {k: copied(v) for k, v in o.items()}
  if isinstance(o, list):
    return [copied(v) for v in o]
  return o


def combine(H, sizes, flight, pool=None):
  """Seeds and rewards free (seeds in every order, or in every order of given numbers); names by choice."""
  d = tempfile.mkdtemp(prefix='vx_shards_')
  try:
    _combine(H, sizes, flight, d, pool)
  finally:
    shutil.rmtree(d, ignore_errors=True)


def _combine(H, sizes, flight, d, pool):
  el = H.load('eval.eval_lib')
  un = H.load('utils.units')
  js = Json()
  other, ckpt, override = (None, None, None) if pool else H.choice('names', [
      (None, None, None), ('dqn_big', None, None), ('dqn_1', 3, None),
      ('dqn_3_x', 3, None), ('d', None, None), ('dqn', None, 'mine'),
      ('dqn.b', None, None), ('adqn', 12, None)])
  name = override or ('dqn' if ckpt is None else f'dqn_{ckpt}')
  su = H.load('eval.suites')
  L = Launch(H, su.EvaluationSuite([], 9))
  symbolic = not hasattr(H, 'repo')
  if symbolic:
    H.patch(L.ev, 'json', js)
  total = sum(sizes)
  want, taken = {}, set()

  def shard(agent, k, n, ids, ck, ov, tag):
    res = []
    for j in ids:
      seed = H.int(f'seed{tag}{j}', 0, 10**6) if pool is None else H.choice(
          f'seed{tag}{j}', [q for q in pool if (tag, q) not in taken])
      taken.add((tag, seed) if pool else None)
      for q in want:
        if q[0] == tag:
          H.assume(H.not_(want[q][0] == seed))
      rew = H.real(f'rew{tag}{j}', -1e3, 1e3)
      x = H.real(f'x{tag}{j}', -1e6, 1e6)
      st = el.SimpleBalloonState(
          x=un.Distance(m=x), y=un.Distance(m=5.0), pressure=9e3,
          superpressure=600.0, time_elapsed=dt.timedelta(minutes=3),
          battery_soc=0.5)
      want[tag, j] = seed, rew, x
      res.append(el.EvaluationResult(
          seed=seed, cumulative_reward=rew, time_within_radius=0.5,
          out_of_power=bool(j % 2), envelope_burst=False, zeropressure=False,
          final_timestep=j + 1, flight_path=[st] * (j % 3)))
    L.flags(agent=agent, suite='s', output_dir=d, num_shards=n, shard_idx=k,
            checkpoint_idx=ck, name_override=ov)
    L.ev.write_result(res)
    return res
  at = 0
  files = set()
  for k, size in enumerate(sizes):
    shard('dqn', k, len(sizes), range(at, at + size), ckpt, override, 'a')
    at += size
    files.add(f'{name}_{k}.json' if len(sizes) > 1 else f'{name}.json')
  if other is not None:
    for k in range(2):
      shard(other, k, 2, [k], None, None, 'b')
      files.add(f'{other}_{k}.json')
  H.check('one file per shard, in the suite\'s directory', sorted(
      os.listdir(os.path.join(d, 's'))) == sorted(files) and
          os.listdir(d) == ['s'])
  cb = load(H, 'eval.combine_eval_shards')
  if symbolic:
    H.patch(cb, 'json', js)
  H.patch(cb, 'FLAGS', H.ns(path=os.path.join(d, 's'), models=[name],
                            pretty_json=H.flag('pretty'), flight_paths=flight))
  cb.main(['combine'])
  H.check('one more file', set(os.listdir(os.path.join(d, 's'))) == files | {
      f'{name}.json'})
  with open(os.path.join(d, 's', f'{name}.json')) as f:
    out = (js if symbolic else json).load(f)
  H.check('as many flights as were flown', len(out) == total)
  for a, b in zip(out, out[1:]):
    H.check('in the order of their seeds', a['seed'] < b['seed'])
  for o in out:
    H.check('every flight is one that was flown, unchanged', H.or_(*[
        H.and_(o['seed'] == s, o['cumulative_reward'] == r,
               o['final_timestep'] == q[1] + 1,
               o['out_of_power'] == bool(q[1] % 2))
        for q, (s, r, x) in want.items() if q[0] == 'a']))
    if not flight:
      H.check('flight paths are left out', o['flight_path'] == [])
    else:
      H.check('flight paths are kept', len(o['flight_path']) == (
          o['final_timestep'] - 1) % 3 and all(
              H.known(H.abs(p['x'] * 1000 - want['a', o['final_timestep'] - 1][
                  2]) < 1e-3) is not False for p in o['flight_path']))


def single(H):
  """An unsharded evaluation is a combined one already."""
  d = tempfile.mkdtemp(prefix='vx_shards_')
  try:
    su = H.load('eval.suites')
    L = Launch(H, su.EvaluationSuite([], 9))
    ck, ov, name = H.choice('names', [
        (None, None, 'dqn'), (0, None, 'dqn_0'), (42, None, 'dqn_42'),
        (None, 'mine', 'mine'), (42, 'mine', 'mine')])
    pretty = H.flag('pretty')
    L.flags(agent='dqn', suite='s', output_dir=d, checkpoint_idx=ck,
            name_override=ov, pretty_json=pretty)
    L.ev.write_result([])
    L.ev.write_result([{'seed': 3}])
    H.check('one file, named after the agent', os.listdir(
        os.path.join(d, 's')) == [name + '.json'])
    with open(os.path.join(d, 's', name + '.json')) as f:
      text = f.read()
    H.check('rewritten', json.loads(text) == [{'seed': 3}])
    H.check('indented on request', ('\n' in text) == pretty)
  finally:
    shutil.rmtree(d, ignore_errors=True)


def obligations(tier):
  obs = [Ob('launch', launch), Ob('single', single)]
  pairs = [(10, 1), (10, 3), (10, 7), (3, 5), (100, 7), (1000, 32),
           (10000, 150), (0, 2), (97, 64)]
  if tier == 'thorough':
    pairs += [(n, m) for n in (1, 2, 10, 13, 100, 1000, 10000)
              for m in (2, 3, 4, 8, 11, 64, 100, 999)]
  for n, m in pairs:
    obs.append(Ob(f'partition_{n}_{m}', partition, dict(seeds=n, shards=m)))
  sizes = [(2, 1), (1, 0, 1), (2,)]
  if tier == 'thorough':
    sizes += [(2, 2), (1, 1, 1)]
  for z in sizes:
    if len(z) > 1:
      for f in (False, True):
        obs.append(Ob(f'combine_{"".join(map(str, z))}_{int(f)}', combine, dict(
            sizes=z, flight=f)))
  obs.append(Ob('combine_digits', combine, dict(
      sizes=(2, 1), flight=False, pool=(9, 10, 100))))
  return obs
