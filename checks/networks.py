"""Networks: the generative wind field's flow model and the agents' heads."""
import collections
import dataclasses
import math

from vx.api import Ob


class Layers:
  """Stand-in for flax.linen: what each dense layer puts out is given."""

  def __init__(self):
    self.log = []  # (features, name, input)
    self.out = None  # features, index, input -> output

  def build(self, m):
    layers = self

    class Module:

      def __init_subclass__(cls, **k):
        super().__init_subclass__(**k)
        dataclasses.dataclass(cls)

      def setup(self):
        pass

      def apply(self, params, *a, **k):
        return self(*a, **k)

    class Dense:

      def __init__(self, features, *a, name=None, **k):
        self.features, self.name = features, name

      def __call__(self, x):
        layers.log.append((self.features, self.name, x))
        return layers.out(self.features, len(layers.log), x)
    m.Module, m.Dense = Module, Dense
    m.compact = lambda f: f
    m.relu = lambda x: ('relu', x)
    m.softmax = lambda x, *a, **k: ('softmax', x)
    none = lambda *a, **k: None
    m.initializers = type('I', (), dict(
        variance_scaling=none, glorot_uniform=none, zeros=none))


def linen(H):
  """One stand-in per run of a harness; H.fake keeps the first module."""
  L = Layers()
  m = H.fake('flax.linen', L.build)
  if getattr(m, 'layers', None) is None:
    m.layers = L
  L = m.layers
  L.log[:] = []
  return L


def grow(x, n):
  """Linear interpolation of samples at pixel centres; its edge holds."""
  m = len(x)
  out = []
  for i in range(n):
    s = (i + 0.5) * m / n - 0.5
    s = min(max(s, 0.0), m - 1.0)
    a = min(int(math.floor(s)), m - 2) if m > 1 else 0
    f = s - a
    out.append([(a, 1 - f), (a + 1, f)] if m > 1 else [(0, 1.0)])
  return out


def decoder(H, slices, width, pressures, times, layers):
  """Every output of the last dense layer free: any weights, any latents."""
  L = linen(H)
  vae = H.load('generative.vae')
  np = H.lib('numpy')
  shape = vae.FieldShape(latlng_slices=slices, flow_field_width=width,
                         pressure_slices=pressures, time_slices=times)
  units = width * width * pressures * times
  psi = H.reals('psi', units, -50.0, 50.0)

  def out(features, n, x):
    if n == layers + 1:
      return H.array(psi)
    return ('dense', n)
  L.out = out
  d = vae.Decoder(num_hidden_layers=layers, hidden_layer_network_width=17,
                  field_shape=shape)
  z = ('latents',)
  field = d(z)
  H.check('dense layers', [e[0] for e in L.log] == [17] * layers + [units])
  H.check('a rectifier after each hidden layer', [e[2] for e in L.log] == [
      z] + [('relu', ('dense', i + 1)) for i in range(layers)])
  full = (slices, slices, pressures, times, 2)
  H.check('a wind at every grid point', tuple(field.shape) == full ==
          tuple(shape.grid_shape()))
  w = grow(range(width), slices + 2)
  k = pressures * times

  def stream(i, j, c):
    t = 0.0
    for a, f in w[i]:
      for b, g in w[j]:
        t = t + f * g * psi[(a * width + b) * k + c]
    return t
  F = [[[stream(i, j, c) for c in range(k)] for j in range(slices + 2)]
       for i in range(slices + 2)]
  for i in range(slices):
    for j in range(slices):
      for p in range(pressures):
        for t in range(times):
          c = p * times + t
          H.between('u is the slope of the flow field along the first axis',
                    field[i, j, p, t, 0] -
                    (F[i + 2][j + 1][c] - F[i][j + 1][c]) / 2, -1e-3, 1e-3)
          H.between('v is minus its slope along the second',
                    field[i, j, p, t, 1] +
                    (F[i + 1][j + 2][c] - F[i + 1][j][c]) / 2, -1e-3, 1e-3)
          if 0 < i < slices - 1 and 0 < j < slices - 1:
            H.between('no wind appears or disappears',
                      (field[i, j + 1, p, t, 0] - field[i, j - 1, p, t, 0]) +
                      (field[i + 1, j, p, t, 1] - field[i - 1, j, p, t, 1]),
                      -1e-2, 1e-2)


def whole(H, slices):
  """The autoencoder passes its shape on and decodes what it encoded."""
  L = linen(H)
  vae = H.load('generative.vae')
  shape = vae.FieldShape(latlng_slices=slices, flow_field_width=2,
                         pressure_slices=1, time_slices=2)
  units = 8
  psi = H.reals('psi', units, -50.0, 50.0)
  x = H.reals('x', 4, -200.0, 200.0)
  mean, logvar = H.reals('m', 5, -3.0, 3.0), [0.0] * 5
  noise = H.flag('reparameterize')
  H.script_rng()
  H.fixed_draw = lambda name: 1.0

  def out(features, n, x):
    last = L.log[-1]
    if last[1] == 'mean':
      return H.array(mean)
    if last[1] == 'logvar':
      return H.array(logvar)
    return H.array(psi) if features == units else ('dense', n)
  L.out = out
  v = vae.WindFieldVAE(num_latents=5, reparameterize_latents=noise,
                       field_shape=shape)
  v.variable = lambda c, name, init, *a: type('V', (), dict(value=init(*a)))
  v.setup()
  r = v(H.array(x), H.key(1))
  H.check('decoded onto the grid asked for',
          tuple(r.reconstruction.shape) == tuple(shape.grid_shape()))
  H.check('as many latents as asked', [e[0] for e in L.log if e[1]] == [5, 5])
  H.check('spread starts at one', r.sigma == 1)
  z = [e[2] for e in L.log if e[1] is None][4 - 1]
  H.check('one latent vector decoded', len(z) == 5)
  for a, b, c in zip(z, mean, r.encoder_output.mean):
    H.eq('encoded mean', c, b, 1e-6)
    H.eq('decoded latent', a, b + (1.0 if noise else 0.0), 1e-5)
  first = len(L.log)
  g = v.generate(H.array(mean))
  H.check('generated fields too', tuple(g.shape) == tuple(shape.grid_shape()))
  for a, b in zip(L.log[first][2], mean):
    H.eq('generated from the latents given', a, b, 1e-6)


def encoder(H):
  """Any winds."""
  L = linen(H)
  vae = H.load('generative.vae')
  x = H.reals('x', 6, -200.0, 200.0)
  n = H.choice('n', [1, 3])

  def out(features, k, x):
    return ('out', features, k)
  L.out = out
  e = vae.Encoder(num_latents=4, num_hidden_layers=n,
                  hidden_layer_network_width=11)
  r = e(H.array(x).reshape((2, 3)))
  H.check('dense layers', [a[:2] for a in L.log] == [(11, None)] * n + [
      (4, 'mean'), (4, 'logvar')])
  first = list(L.log[0][2])
  H.check('every wind, in order', len(first) == 6)
  for a, b in zip(first, x):
    H.eq('squashed', a * (50.0 + H.abs(b)), b, 1e-4)
    H.between('to less than one', a, -1.0, 1.0)
  H.check('mean and log variance of the last layer', L.log[-1][2] == (
      L.log[-2][2]) == ('relu', ('out', 11, n)) and r.mean == (
          'out', 4, n + 1) and r.logvar == ('out', 4, n + 2))


def latent(H):
  """Means and draws free; log variances from a list."""
  linen(H)
  vae = H.load('generative.vae')
  H.script_rng()
  drawn = []

  def draw(name):
    drawn.append((name, H.real(f'z{len(drawn)}', -4.0, 4.0)))
    return drawn[-1][1]
  H.fixed_draw = draw
  mean = H.reals('m', 3, -5.0, 5.0)
  lv = [0.0, -2.5, H.choice('lv', [1.0, -30.0])]
  z = vae.WindFieldVAE._reparameterize(H.key(3), H.array(mean), H.array(lv))
  H.check('one draw per latent', len(drawn) == 3)
  for a, m, v, (_, e) in zip(z, mean, lv, drawn):
    H.eq('drawn from the encoded Gaussian', a, m + math.exp(v / 2) * e, 1e-5)


def shapes(H):
  """Extents free, counts by choice: the grid agrees with itself."""
  linen(H)
  vae = H.load('generative.vae')
  n, p, t, w = (H.choice('n', [2, 5, 21]), H.choice('p', [2, 10]),
                H.choice('t', [2, 5, 9]), H.choice('w', [3, 7]))
  r = H.real('r', 1.0, 1000.0)
  lo, up = H.real('lo', 1000.0, 9000.0), H.real('up', 10.0, 20000.0)
  s = vae.FieldShape(latlng_slices=n, pressure_slices=p, time_slices=t,
                     flow_field_width=w, latlng_displacement_km=r,
                     min_pressure_pa=lo, max_pressure_pa=lo + up,
                     time_horizon_hours=48)
  H.check('sizes', s.direction_grid_shape() == (n, n, p, t) and
          s.grid_shape() == (n, n, p, t, 2) and
          s.num_grid_points() == n * n * p * t and
          s.output_length() == 2 * n * n * p * t and
          s.num_flow_fields() == p * t and
          s.num_flow_field_units() == w * w * p * t)
  for name, got, k, a, b in (
      ('places', s.latlng_grid_points(), n, -r, r),
      ('pressures', s.pressure_grid_points(), p, lo, lo + up)):
    H.check(f'{name}: as many', len(got) == k)
    for i in range(k):
      H.eq(f'{name}: evenly spaced', got[i], a + (b - a) * i / (k - 1), 1e-6)
  for k in (2, 3, 4, 5, 7, 8, 9, 11, 13, 25, 30, 49):
    got = [int(x) for x in vae.FieldShape(time_slices=k, time_horizon_hours=48).time_grid_points()]
    H.check('times: as many hours as asked', len(got) == k)
    H.check('times: from now to the horizon', got[0] == 0 and got[-1] == 48)
    H.check('times: evenly spaced hours', all(
        abs(x - 48 * i / (k - 1)) < 1 and (48 * i % (k - 1) or
                                           x == 48 * i // (k - 1))
        for i, x in enumerate(got)))
  d = vae.FieldShape()
  H.check('the published grid', (
      d.grid_shape() == (21, 21, 10, 9, 2), d.latlng_displacement_km,
      d.min_pressure_pa, d.max_pressure_pa, d.time_horizon_hours,
      d.num_flow_field_units()) == (True, 500.0, 5000.0, 14000.0, 48, 4410))


def heads(H, kind):
  """Outputs of the last layer free."""
  L = linen(H)
  DQN = collections.namedtuple('DQN', ['q_values'])
  Rainbow = collections.namedtuple('Rainbow', ['q_values', 'logits',
                                               'probabilities'])

  def atari(m):
    m.DQNNetworkType, m.RainbowNetworkType = DQN, Rainbow
  at = H.fake('dopamine.discrete_domains.atari_lib', atari)
  nets = H.load('agents.networks')
  jnp = H.lib('jax.numpy')
  layers = H.choice('layers', [1, 3])
  atoms = 4 if kind == 'quantile' else 1
  q = H.reals('q', 3 * atoms, -9.0, 9.0)

  def out(features, n, x):
    return H.array(q) if n == layers else ('dense', n)
  L.out = out
  obs = H.reals('o', 4, -1.0, 1.0)
  x = jnp.array(H.array(obs)).reshape((2, 2, 1))
  if kind == 'quantile':
    r = nets.QuantileNetwork(3, layers, 7, num_atoms=4)(x)
    H.check('actions by atoms', tuple(r.logits.shape) == (3, 4))
    for a in range(3):
      for k in range(4):
        H.eq('quantiles of each action', r.logits[a, k], q[4 * a + k], 1e-5)
      H.eq('value: mean of the action\'s quantiles', r.q_values[a] * 4,
           q[4 * a] + q[4 * a + 1] + q[4 * a + 2] + q[4 * a + 3], 1e-4)
    H.check('one value per action', len(r.q_values) == 3)
    H.check('probabilities of the quantiles', r.probabilities[0] == (
        'softmax') and r.probabilities[1] is r.logits)
  else:
    dop = H.flag('dopamine')
    r = nets.MLPNetwork(3, layers, 7, is_dopamine=dop)(x)
    v = r.q_values if dop else r
    H.check('wrapped for Dopamine', isinstance(r, at.DQNNetworkType) == dop)
    H.check('one value per action', len(v) == 3)
    for a in range(3):
      H.eq('value', v[a], q[a], 1e-5)
  H.check('dense layers', [e[0] for e in L.log] == [7] * (layers - 1) + [
      3 * atoms])
  H.check('a rectifier after each hidden layer', [
      e[2] for e in L.log[1:]] == [
          ('relu', ('dense', i + 1)) for i in range(layers - 1)])
  first = list(L.log[0][2])
  H.check('the whole observation', len(first) == 4)
  for a, b in zip(first, obs):
    H.eq('in order', a, b, 1e-5)


def speeds(H):
  """Wind components multiples of (3, 4) by free factors."""
  wind = H.load('utils.wind')
  d = H.reals('d', 4, 0.0, 40.0)
  signs = H.choice('signs', [(1, 1), (-1, 1), (1, -1), (-1, -1)])
  f = H.array([v for x in d for v in (3 * signs[0] * x, 4 * signs[1] * x)])
  f = H.lib('jax.numpy').array(f).reshape((2, 1, 1, 2, 1, 2))[:, 0]
  s = wind.wind_field_speeds(f)
  H.check('a speed per point', tuple(s.shape) == (2, 1, 2, 1))
  for i in range(2):
    for t in range(2):
      a = s[i, 0, t, 0]
      H.between('speed', a - 5 * d[2 * i + t], -1e-3, 1e-3)
  m = wind.mean_speed_in_wind_field(f)
  H.between('mean speed', m * 4 - 5 * (d[0] + d[1] + d[2] + d[3]), -1e-2, 1e-2)


def feasible(H):
  """One wind of the column free, the others by choice: station keeping is possible exactly if the calm lies within the winds' hull, however the column is ordered."""
  wind = H.load('utils.wind')
  fixed = H.choice('others', [
      [(3.0, 1.0), (-2.0, 4.0)], [(3.0, 1.0), (2.5, 7.0)],
      [(5.0, -1.0), (1.0, 6.0), (-4.0, 0.5)],
      [(5.0, -1.0), (1.0, 6.0), (-4.0, 0.5), (0.25, 1.5)],
      [(1.0, 2.0), (2.0, 5.0), (3.0, 1.5), (4.0, 6.0)]])
  w = (H.real('u', -20.0, 20.0), H.real('v', -20.0, 20.0))
  pts = fixed[:1] + [w] + fixed[1:]

  def area(p, q, r):
    def d(a, b):
      return a[0] * b[1] - a[1] * b[0]
    return d(p, q) + d(q, r) + d(r, p)
  n = len(pts)
  inside = []
  for i in range(n):
    for j in range(i + 1, n):
      for k in range(j + 1, n):
        t = (pts[i], pts[j], pts[k])
        a = area(*t)
        H.assume(H.abs(a) > 1e-3)
        s = [area(t[x], t[(x + 1) % 3], (0.0, 0.0)) for x in range(3)]
        for x in s:
          H.assume(H.abs(x) > 1e-3)
        inside.append(H.or_(H.and_(*[x > 0 for x in s]),
                            H.and_(*[x < 0 for x in s])))
  got = wind.is_station_keeping_winds(H.lib('numpy').array(H.array(
      [c for p in pts for c in p])).reshape((n, 2)))
  H.check('feasible iff calm air is a mix of the winds',
          H.iff(bool(got), H.or_(*inside)))


def shards(H):
  """A dataset read from disk: all its shards, in order."""
  ds = H.load('generative.dataset_wind_field_reservoir')
  jnp = H.lib('jax.numpy')
  opened = []

  class File:

    def __init__(self, name, mode='r'):
      self.name = name
      opened.append((name, mode))

    def __enter__(self):
      return self

    def __exit__(self, *a):
      return False
  H.patch(ds, 'tf', H.ns(io=H.ns(gfile=H.ns(GFile=File))))
  base = '/data/winds/batch'

  def load(f):
    H.check('a shard of this dataset', f.name.startswith(base) and
            f.name.endswith('.pickle') and len(f.name) == len(base) + 11)
    i = int(f.name[len(base):-7])
    return jnp.array([[2.0 * i], [2.0 * i + 1]])
  H.patch(ds, 'pickle', H.ns(load=load))
  held = H.choice('held', [1, 10])
  r = ds.DatasetWindFieldReservoir('/data/winds', eval_batch_size=held)
  H.check('each shard once', [n for n, _ in opened] == [
      f'{base}{i:04d}.pickle' for i in range(200)])
  H.check('in binary', all(m == 'rb' for _, m in opened))
  e = [float(x) for x in r.get_eval_batch().reshape((-1,))]
  H.check('the last fields are held out', e == [
      float(i) for i in range(400 - held, 400)])


def reservoir(H, rows, held, batch):
  """Any distinct draws: training batches never show the held-out fields."""
  ds = H.load('generative.dataset_wind_field_reservoir')
  H.script_rng()
  names = []

  def draw(name):
    names.append(name)
    return H.int(f'd{len(names)}', 0, rows - held - 1 -
                 (len(names) - 1) % batch)
  H.fixed_draw = draw
  data = H.lib('jax.numpy').array(H.array([float(i) for i in range(rows)])
                                  ).reshape((rows, 1))
  r = ds.DatasetWindFieldReservoir(data, eval_batch_size=held, rng_seed=5)
  seen = []
  for k in range(2):
    e = [int(x) for x in r.get_eval_batch().reshape((-1,))]
    H.check('held-out fields are always the same', e == list(
        range(rows - held, rows)))
    b = [int(x) for x in r.get_batch(batch).reshape((-1,))]
    H.check('as many as asked', len(b) == batch)
    H.check('no field twice', len(set(b)) == batch)
    H.check('no held-out field', all(0 <= x < rows - held for x in b))
    seen.append(b)
    fresh = names[batch * k:]
    H.check('fresh randomness for each batch', len(names) == batch * (
        k + 1) and not set(fresh) & set(names[:batch * k]))


def obligations(tier):
  obs = [Ob('encoder', encoder), Ob('whole_3', whole, dict(slices=3)),
         Ob('whole_6', whole, dict(slices=6)), Ob('latent', latent), Ob('shapes', shapes),
         Ob('heads_quantile', heads, dict(kind='quantile')),
         Ob('heads_mlp', heads, dict(kind='mlp')), Ob('speeds', speeds),
         Ob('feasible', feasible), Ob('shards', shards),
         Ob('reservoir_4', reservoir, dict(rows=4, held=1, batch=2)),
         Ob('reservoir_6', reservoir, dict(rows=6, held=3, batch=1)),
         Ob('reservoir_all', reservoir, dict(rows=4, held=1, batch=3)),
         Ob('reservoir_most', reservoir, dict(rows=5, held=1, batch=3)),
         Ob('reservoir_none_held', reservoir, dict(rows=3, held=0, batch=2))]
  cases = [(3, 2, 2, 1, 1), (5, 3, 1, 2, 3), (4, 3, 2, 3, 2)]
  if tier == 'thorough':
    cases += [(7, 4, 2, 2, 3), (9, 7, 1, 2, 1), (21, 7, 1, 1, 3)]
    obs += [Ob('reservoir_7', reservoir, dict(rows=7, held=2, batch=2))]
  for c in cases:
    obs.append(Ob('decoder_' + '_'.join(map(str, c)), decoder, dict(zip(
        ('slices', 'width', 'pressures', 'times', 'layers'), c))))
  return obs
