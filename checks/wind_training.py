"""Training the wind generator: schedules, losses, one update, the loop.

The script needs flax.optim, which the installed flax no longer has: a
stand-in takes its place in symbolic runs and in replays alike.  Derivatives
are jax's own; the stand-in for value_and_grad evaluates the script's loss and
hands back given gradients.
"""
import math

from vx.api import Ob
from checks import shards


def load(H):
  H.fake('flax.optim', lambda m: setattr(m, 'Adam', None))
  return shards.load(H, 'generative.learn_wind_field_generator')


def tree(f, t):
  if isinstance(t, dict):
    return {k: tree(f, v) for k, v in t.items()}
  return f(t)


def cat(H, xs):
  x = xs[0]
  if isinstance(x, dict):
    return {k: cat(H, [y[k] for y in xs]) for k in x}
  if isinstance(x, (tuple, list)):
    return tuple(cat(H, [y[i] for y in xs]) for i in range(len(x)))
  return H.lib('jax.numpy').stack([H.lib('jax.numpy').array(y) for y in xs])


def jax_like(H, lg, grads):
  """jax with its own keys; gradients are the ones given, in order."""
  real = H.lib('jax')
  given = iter(grads)
  seen = []

  def value_and_grad(fun, argnums=0, has_aux=False):
    def g(*args):
      r = fun(*args)
      seen.append((args, r))
      return r, next(given)
    H.check('with respect to the parameters', argnums == 0)
    H.check('losses kept', has_aux)
    return g

  def vmap(fun, in_axes=0, out_axes=0):
    def g(*args):
      axes = in_axes if isinstance(in_axes, (tuple, list)) else [
          in_axes] * len(args)
      n = [len(a) for a, x in zip(args, axes) if x == 0]
      if len(set(n)) != 1:
        raise ValueError('sizes differ')
      return cat(H, [fun(*[a if x is None else a[i] for a, x in zip(
          args, axes)]) for i in range(n[0])])
    return g
  H.patch(lg, 'jax', H.ns(
      random=real.random, vmap=vmap, value_and_grad=value_and_grad,
      tree_map=tree, tree=H.ns(map=tree), jit=lambda f, *a, **k: f,
      tree_util=H.ns(tree_map=tree), device_put=lambda x: x))
  return seen


def name_of(key):
  """Keys compare by how they were derived, or by their bits."""
  return getattr(key, 'path', None) or tuple(int(x) for x in key)


def schedules(H):
  """Start value, increment, cap free; epochs up to 12 and periods 1 to 4."""
  lg = load(H)
  i, f = H.int('epoch', 0, 12).__index__(), H.int('every', 1, 4).__index__()
  a, c = H.real('start', 0.001, 50.0), H.real('cap', 0.001, 400.0)
  inc = H.choice('increment', [0.5, 1.0, 2.0, 3.0])
  got = lg.step_schedule(i, start_value=a, increment=inc, frequency=f,
                         max_val=c)
  want = a * inc ** (i // f)
  H.eq('a step every so many epochs, up to the cap', got,
       H.ite(want > c, c, want), 1e-9)
  H.eq('the constant', lg.constant_schedule(i, value=a), a, 1e-12)


def losses(H):
  """Means, log-variances and fields of three values free."""
  lg = load(H)
  jnp = H.lib('jax.numpy')
  m, v = H.reals('m', 3, -3.0, 3.0), H.reals('v', 3, -3.0, 3.0)
  k = lg.kl_divergence(jnp.array(H.array(m)), jnp.array(H.array(v)))
  H.eq('divergence from the unit normal', k, sum(
      0.5 * (a * a + H.math.exp(b) - 1 - b) for a, b in zip(m, v)), 1e-3)
  e = lg.mean_square_error(jnp.array(H.array(m)), jnp.array(H.array(v)))
  H.eq('squared error', e, sum((a - b) * (a - b) for a, b in zip(m, v)), 1e-3)


class Optimizer:
  """Remembers what it was given, as the immutable ones of flax do."""

  def __init__(self, log, target='params', step=0):
    self.log, self.target = log, target
    self.state = type('S', (), {'step': step})()

  def apply_gradient(self, grad):
    self.log.append(grad)
    return Optimizer(self.log, self.target, self.state.step + 1)


def update(H):
  """Two fields of two values, their reconstructions, KL weight and gradients free; encodings by choice."""
  lg = load(H)
  vae = H.load('generative.vae')
  jnp = H.lib('jax.numpy')
  x, y = H.reals('x', 4, -3.0, 3.0), H.reals('y', 4, -3.0, 3.0)
  w = H.real('kl_weight', 0.0, 900.0)
  sigma = H.choice('sigma', [1.0, 0.5, 2.0])
  enc = H.choice('encodings', [((0.5, 1.0), (0.0, -1.0)),
                               ((-2.0, 0.25), (0.5, 1.5))])
  grads = [dict(a=H.array(H.reals(f'ga{i}', 2, -1.0, 1.0)),
                b=dict(c=H.array(H.reals(f'gb{i}', 1, -1.0, 1.0))))
           for i in range(2)]
  calls = []

  def apply(params, field, rng):
    i = len(calls)
    calls.append((params, field, name_of(rng)))
    return vae.VAEOutput(
        jnp.array(H.array(y[2 * i:2 * i + 2])), vae.EncoderOutput(
            jnp.array(H.array([enc[0][i]])), jnp.array(H.array([enc[1][i]]))),
        sigma)
  H.patch(lg, 'vae', H.ns(model=lambda: H.ns(apply=apply),
                          WindFieldVAE=lambda: H.ns(apply=apply)))
  seen = jax_like(H, lg, grads)
  log = []
  step = getattr(lg.train_step, '__wrapped__', lg.train_step)
  out, loss, mse, kld, s = step(
      Optimizer(log), jnp.array(H.array(x)).reshape((2, 2)), H.key(5), w)
  H.check('each field once, in order', len(calls) == 2 and len(seen) == 2)
  H.check('the current weights', all(c[0] == 'params' for c in calls))
  H.check('own randomness for each field', len(set(
      c[2] for c in calls) | {name_of(H.key(5))}) == 3)
  ls, ms, ks = [], [], []
  for i in range(2):
    H.between('the field itself', abs(calls[i][1][0] - x[2 * i]) + abs(
        calls[i][1][1] - x[2 * i + 1]), -1e-5, 1e-5)
    ms.append(sum((a - b) * (a - b) for a, b in zip(
        x[2 * i:2 * i + 2], y[2 * i:2 * i + 2])))
    m, v = enc[0][i], enc[1][i]
    ks.append(0.5 * (m * m + math.exp(v) - 1 - v))
    ls.append(0.5 / sigma ** 2 * ms[-1] + math.log(
        sigma * math.sqrt(2 * math.pi)) + w * ks[-1])
  H.eq('mean squared error', mse, (ms[0] + ms[1]) / 2, 1e-2)
  H.between('mean divergence', kld - (ks[0] + ks[1]) / 2, -1e-3, 1e-3)
  H.eq('mean loss', loss, (ls[0] + ls[1]) / 2, 1e-1)
  H.between('the spread', sum(s[i] for i in range(2)) / 2 - sigma, -1e-5, 1e-5)
  H.check('one update of the weights', len(log) == 1 and out.state.step == 1)
  for i in range(2):
    H.eq('by the mean gradient', 2 * log[0]['a'][i],
         grads[0]['a'][i] + grads[1]['a'][i], 1e-5)
  H.eq('of every weight', 2 * log[0]['b']['c'][0],
       grads[0]['b']['c'][0] + grads[1]['b']['c'][0], 1e-5)


def assessed(H):
  """Two fields, their reconstructions and mean speeds free."""
  lg = load(H)
  vae = H.load('generative.vae')
  jnp = H.lib('jax.numpy')
  x, y = H.reals('x', 4, -3.0, 3.0), H.reals('y', 4, -3.0, 3.0)
  calls = []

  def apply(params, field, rng):
    i = len(calls) % 2
    calls.append((params, name_of(rng)))
    return vae.VAEOutput(
        jnp.array(H.array(y[2 * i:2 * i + 2])), vae.EncoderOutput(
            jnp.array(H.array([0.5 + i])), jnp.array(H.array([0.0]))), 1.0)
  H.patch(lg, 'vae', H.ns(model=lambda: H.ns(apply=apply),
                          WindFieldVAE=lambda: H.ns(apply=apply)))
  H.patch(lg, 'wind', H.ns(mean_speed_in_wind_field=lambda f: f[0] + 2 * f[1]))
  jax_like(H, lg, [])
  run = getattr(lg.evaluation, '__wrapped__', lg.evaluation)
  fields = jnp.array(H.array(x)).reshape((2, 2))
  met, rec, lat = run(Optimizer([]), fields)
  run(Optimizer([]), fields)
  H.check('the current weights', all(c[0] == 'params' for c in calls))
  H.check('own randomness for each field', calls[0][1] != calls[1][1])
  H.check('the same randomness at every assessment', calls[:2] == calls[2:])
  H.check('figures', sorted(met) == [
      'kld', 'mean_speed_differential', 'mean_speed_original',
      'mean_speed_reconstructed', 'mse'])
  H.eq('squared error', 2 * met['mse'], sum(
      (a - b) * (a - b) for a, b in zip(x, y)), 1e-3)
  H.between('divergence', met['kld'] - 0.25 * (0.25 + 2.25), -1e-4, 1e-4)

  def speed(f):
    return (f[0] + 2 * f[1] + f[2] + 2 * f[3]) / 2
  H.eq('speed of the fields', met['mean_speed_original'], speed(x), 1e-4)
  H.eq('speed of their reconstructions', met['mean_speed_reconstructed'],
       speed(y), 1e-4)
  H.eq('the difference', met['mean_speed_differential'], speed(x) - speed(y),
       1e-4)
  for i in range(4):
    H.eq('reconstructions', rec[i // 2][i % 2], y[i], 1e-5)
  H.between('latents', lat[1][0] - lat[0][0], 1 - 1e-5, 1 + 1e-5)


def loop(H):
  """Where earlier runs stopped, directories and epochs by choice; figures of every batch free."""
  lg = load(H)
  jnp = H.lib('jax.numpy')
  per, epochs = H.choice('size', [(2, 3), (3, 2), (1, 4)])
  dirs = H.choice('directories', [('', ''), ('/run', ''), ('/run', '/boot'),
                                  ('', '/boot')])
  step = H.int('done', 0, 5).__index__()
  done = {'/run': step, '/boot': 2 * per}
  log, batches, keys = [], [], []
  made = []

  def create(params):
    made.append(params)
    return Optimizer(log, ('weights', 0), 0)
  H.patch(lg, 'optim', H.ns(Adam=lambda learning_rate=None: H.ns(
      create=lambda p: (log.append(('rate', learning_rate)), create(p))[1])))

  def restore(ckpt_dir, target, *a, **k):
    log.append(('restore', ckpt_dir))
    n = done[ckpt_dir]
    return Optimizer(log, (ckpt_dir, n), n) if n else target
  saved = []
  H.patch(lg, 'checkpoints', H.ns(
      restore_checkpoint=restore,
      save_checkpoint=lambda ckpt_dir, target, step, prefix='checkpoint_',
      keep=1, overwrite=False, **k: saved.append(
          (ckpt_dir, target.target, step, keep))))
  written = []
  H.patch(lg, 'tensorboard', H.ns(SummaryWriter=lambda log_dir: H.ns(
      scalar=lambda tag, value, step: written.append(
          (log_dir, tag, value, step)))))

  class Reservoir:

    def __init__(self, data, eval_batch_size=10, rng_seed=0):
      H.check('the dataset asked for', data == '/data')

    def get_batch(self, batch_size):
      batches.append(batch_size)
      return [('batch', len(batches))]

    def get_eval_batch(self):
      log.append(('eval batch',))
      return 'held out'
  H.patch(lg, 'dataset_wind_field_reservoir',
          H.ns(DatasetWindFieldReservoir=Reservoir))
  inits = []
  H.patch(lg, 'vae', H.ns(
      model=lambda: H.ns(init=lambda *a: inits.append(a) or 'fresh'),
      FieldShape=H.load('generative.vae').FieldShape))
  H.patch(lg, 'wind', H.ns(mean_speed_in_wind_field=lambda f: jnp.array(
      float(f[1]))))
  H.patch(lg, 'time', H.ns(time=lambda: 1234.5))
  jax_like(H, lg, [])
  H.patch(lg, 'FLAGS', H.ns(
      checkpoint_directory=dirs[0], bootstrap_directory=dirs[1],
      offline_winds_dataset_path='/data', gin_bindings=[]))
  steps, evals, fig = [], [], []

  def train_step(optimizer, batch, rng, kl_weight=512.0):
    keys.append(name_of(rng))
    v = H.reals(f's{len(steps)}_', 4, 0.0, 9.0)
    steps.append((optimizer.target, batch, kl_weight))
    fig.append(v)
    where, n = optimizer.target
    return (Optimizer(log, (where, n + 1), n + 1), jnp.array(v[0]),
            jnp.array(v[1]), jnp.array(v[2]), jnp.array(
                H.array([v[3], v[3]])))

  def evaluation(optimizer, fields, prng_initial_seed=0):
    evals.append((optimizer.target, fields))
    n = 10.0 * len(evals)
    return dict(kld=n, mse=n + 1, mean_speed_reconstructed=n + 2,
                mean_speed_original=n + 3, mean_speed_differential=n + 4
               ), None, None
  H.patch(lg, 'train_step', train_step)
  H.patch(lg, 'evaluation', evaluation)
  lg.train(num_batches_per_epoch=per, num_epochs=epochs, learning_rate=0.25,
           kl_schedule=lambda e: 100.0 * e)
  H.check('weights for fields of the published grid', len(inits) == 1 and
          tuple(inits[0][1].shape) == (2 * 21 * 21 * 10 * 9,))
  n0, src = 0, 'weights'
  if dirs[0] and step:
    n0, src = step, dirs[0]
  if dirs[1] and not n0:
    n0, src = done[dirs[1]], dirs[1]
  H.check('fresh weights first', len(made) == 1 and made[0] == 'fresh' and log[
      [e[0] for e in log].index('rate')] == ('rate', 0.25))
  H.check('restored from its own run; else from the other', [
      e[1] for e in log if e[0] == 'restore'] == [
          d for d in (dirs[0], dirs[1] if not (dirs[0] and step) else '') if d])
  todo = list(range(n0 // per + 1, epochs))
  H.check('the epochs left', len(evals) == len(todo))
  H.check('batches of each epoch', len(steps) == per * len(todo) == len(
      batches))
  for i, s in enumerate(steps):
    H.check('the weights so far', s[0] == (src, n0 + i))
    H.check('every batch once', s[1] == [('batch', i + 1)])
    H.check('the weight of its epoch', s[2] == 100.0 * todo[i // per])
  H.check('randomness is never used twice', len(set(keys)) == len(keys))
  for i, e in enumerate(evals):
    H.check('assessed after each epoch on the held-out fields', e == (
        (src, n0 + per * (i + 1)), 'held out'))
  H.check('the held-out fields are drawn once', [
      e for e in log if e[0] == 'eval batch'] == [('eval batch',)])
  H.check('saved after each epoch, only the last kept', saved == [
      (dirs[0], (src, n0 + per * (i + 1)), e, 1)
      for i, e in enumerate(todo)] if dirs[0] else not saved)
  H.check('reported only beside checkpoints', bool(written) == bool(
      dirs[0] and todo))
  if not dirs[0]:
    return
  H.check('a report per figure and epoch', len(written) == 11 * len(todo) ==
          len(set((w[1], w[3]) for w in written)))
  for where, tag, v, e in written:
    H.check('its epoch', where == '/run' and e in todo)
    i = todo.index(e)
    f = fig[i * per:(i + 1) * per]
    mean = {'loss': 0, 'mse': 1, 'kld': 2, 'sigma': 3}
    kind, name = tag.split('/')
    if kind == 'eval':
      H.between('assessment', v - 10.0 * (i + 1) - [
          'kld', 'mse', 'mean_speed_reconstructed', 'mean_speed_original',
          'mean_speed_differential'].index(name), -1e-4, 1e-4)
    elif name in mean:
      H.between('mean ' + name + ' of the epoch', v * per - sum(
          x[mean[name]] for x in f), -1e-3, 1e-3)
    elif name == 'kl_coefficient':
      H.between('weight', v - 100.0 * e, -1e-4, 1e-4)
    else:
      H.between('mean speed', v * per - sum(
          range(i * per + 1, (i + 1) * per + 1)), -1e-3, 1e-3)


def obligations(tier):
  return [Ob('schedules', schedules), Ob('losses', losses),
          Ob('update', update), Ob('assessed', assessed), Ob('loop', loop)]
