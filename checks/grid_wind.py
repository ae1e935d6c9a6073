"""Grid-based wind fields: interpolation, clamping, time reflection."""
from vx.api import Ob

HOR, XY, P0, P1 = 48, 500.0, 5000.0, 14000.0


def fields(H, u, which, nx=3, npr=3, nt=3, horizon=HOR, lib=None, vals=None):
  """A wind field over a small grid with pseudo-random values."""
  vae = H.load('generative.vae')
  shape = vae.FieldShape(latlng_slices=nx, pressure_slices=npr,
                         time_slices=nt, time_horizon_hours=horizon)
  r = 12345

  def nxt():
    nonlocal r
    r = (r * 1103515245 + 12345) % 2**31
    return (r >> 8) % 4001 / 50.0 - 40.0
  import numpy as np
  data = np.array([nxt() for _ in range(nx * nx * npr * nt * 2)]).reshape(
      (nx, nx, npr, nt, 2))
  log = []
  if which == 'grid':
    g = H.load('env.grid_based_wind_field')
    base = H.load('env.grid_wind_field_sampler').GridWindFieldSampler

    class Sampler(base):

      @property
      def field_shape(self):
        return shape

      def sample_field(self, key, date_time):
        log.append((str(key), date_time))
        return data.copy()
    f = g.GridBasedWindField(Sampler())
  else:
    m = H.load('models.models')
    g = H.load('env.generative_wind_field')
    H.patch(m, 'load_offlineskies22', lambda: b'params')
    fl = H.lib('flax')
    if H.is_symbolic:
      fl.serialization.msgpack_restore = lambda b: {'p': b}
    else:
      import flax.serialization as ser
      H.patch(ser, 'msgpack_restore', lambda b: {'p': b})

    class Decoder:

      def __init__(self, *a, **k):
        pass

      def apply(self, params, latents):
        log.append((params, latents))
        return data.copy()
    H.patch(vae, 'Decoder', Decoder)
    real = vae.FieldShape
    H.patch(vae, 'FieldShape', lambda *a, **k: shape if not (a or k) else
            real(*a, **k))
    f = g.GenerativeWindField()
  return f, data, shape, log


def grid(lo, hi, n):
  return [lo + (hi - lo) * i / (n - 1) for i in range(n)]


def reference(H, data, xk, yk, p, t, nx=3, npr=3, nt=3, horizon=HOR):
  """Multilinear interpolation by hat functions (independent of cells)."""
  def clamp(v, a, b):
    return H.max(a, H.min(v, b))

  def hats(v, g):
    out = []
    for i, c in enumerate(g):
      w = None
      if i > 0:
        w = (v - g[i - 1]) / (c - g[i - 1])
      if i + 1 < len(g):
        w2 = (g[i + 1] - v) / (g[i + 1] - c)
        w = w2 if w is None else H.min(w, w2)
      out.append(H.max(0.0, w))
    return out
  W = [hats(clamp(xk, -XY, XY), grid(-XY, XY, nx)),
       hats(clamp(yk, -XY, XY), grid(-XY, XY, nx)),
       hats(clamp(p, P0, P1), grid(P0, P1, npr)),
       hats(t, grid(0.0, float(horizon), nt))]
  res = [0.0, 0.0]
  for i, a in enumerate(W[0]):
    for j, b in enumerate(W[1]):
      for m, c in enumerate(W[2]):
        for n, d in enumerate(W[3]):
          w = a * b * c * d
          for q in (0, 1):
            res[q] = res[q] + w * float(data[i, j, m, n, q])
  return res


T0 = (2013, 3, 25)


def forecast(H, which, free, at=(130.0, -270.0, 8200.0, 17), n=3):
  """One or two of (x, y in [-3000, 3000] km, pressure in [0, 30] kPa, time in whole seconds within 14 days) free, the others fixed off the grid: the forecast is the multilinear interpolation of the sampled field, held constant beyond its edges and reflected in time."""
  u = H.load('utils.units')
  f, data, shape, log = fields(H, u, which, nx=n, npr=n, nt=n)
  t0 = H.dt.datetime(*T0, tzinfo=H.dt.timezone.utc)
  f.reset_forecast(H.key(4), t0)
  x = H.real('x', -3000.0, 3000.0) if 'x' in free else at[0]
  y = H.real('y', -3000.0, 3000.0) if 'y' in free else at[1]
  p = H.real('p', 0.0, 30000.0) if 'p' in free else at[2]
  period = HOR * 3600
  k = H.choice('cycle', [0, 1, 2, 3, 4, 5, 6]) if 't' in free else 0
  s = H.int('s', 0, period) if 't' in free else at[3] * 3600
  el = H.dt.timedelta(seconds=k * period + s)
  w = f.get_forecast(u.Distance(km=x), u.Distance(km=y), p, el)
  ref = reference(H, data, x, y, p,
                  (s if k % 2 == 0 else period - s) / 3600, n, n, n)
  H.eq('u', w.u.mps, ref[0], 1e-4)
  H.eq('v', w.v.mps, ref[1], 1e-4)


def column(H, which):
  """Three free pressures, free place: the column equals the single forecasts."""
  u = H.load('utils.units')
  f, data, shape, log = fields(H, u, which, nx=2, npr=2, nt=2)
  f.reset_forecast(H.key(4), H.dt.datetime(*T0, tzinfo=H.dt.timezone.utc))
  x = u.Distance(km=H.real('x', -499.0, 499.0))
  y = u.Distance(km=77.0)
  ps = H.reals('p', 3, 3000.0, 16000.0)
  el = H.dt.timedelta(hours=31)
  col = f.get_forecast_column(x, y, ps, el)
  H.check('one wind per pressure', len(col) == 3)
  for p, w in zip(ps, col):
    e = f.get_forecast(x, y, p, el)
    H.eq('u', w.u.mps, e.u.mps, 1e-5)
    H.eq('v', w.v.mps, e.v.mps, 1e-5)


def memory(H, which):
  """Pressures free, after other questions (single and column, at the same place and time for other pressures, at other places, other times, before and after a second reset): the answers are those of the present field, place, pressures and time."""
  u = H.load('utils.units')
  f, data, shape, log = fields(H, u, which, nx=2, npr=2, nt=2)
  t0 = H.dt.datetime(*T0, tzinfo=H.dt.timezone.utc)
  f.reset_forecast(H.key(4), t0)
  D, td = u.Distance, H.dt.timedelta
  p = H.real('p', P0 + 1, P1 - 1)
  here = (130.0, 77.0)

  def ask(x, y, ps, hours):
    at = (D(km=x), D(km=y))
    return ([f.get_forecast(*at, q, td(hours=hours)) for q in ps],
            f.get_forecast_column(*at, list(ps), td(hours=hours)))

  def check(label, x, y, ps, hours, data=None):
    single, col = ask(x, y, ps, hours)
    for q, a, b in zip(ps, single, col):
      ref = reference(H, data, x, y, q, hours, 2, 2, 2)
      for n, w in (('single', a), ('column', b)):
        H.eq(f'{label}: {n} u', w.u.mps, ref[0], 1e-4)
        H.eq(f'{label}: {n} v', w.v.mps, ref[1], 1e-4)
  check('first', *here, (p, 9000.0), 31, data)
  check('other pressures', *here, (9500.0, p), 31, data)
  check('other time', *here, (p, 9000.0), 32, data)
  check('other place', 130.0, -40.0, (p, 9000.0), 31, data)
  check('other place again', -10.0, 77.0, (p, 9000.0), 31, data)
  check('more pressures', *here, (p, 9000.0, 5500.0), 31, data)
  data[...] = data[::-1, :, ::-1] * 0.5 + 3.0  # what the next reset samples
  f.reset_forecast(H.key(5), t0)
  check('after a reset', *here, (p, 9000.0), 31, data)


def kinds(H, which):
  """Wind field use before reset is refused; a reset hands the key and start time to the sampler and replaces the field."""
  u = H.load('utils.units')
  f, data, shape, log = fields(H, u, which)
  el = H.dt.timedelta(hours=3)
  a = (u.Distance(km=1.0), u.Distance(km=2.0))
  H.raises('forecast before reset', RuntimeError, f.get_forecast, *a, 9000.0,
           el)
  H.raises('column before reset', RuntimeError, f.get_forecast_column, *a,
           [9000.0], el)
  t0 = H.dt.datetime(*T0, tzinfo=H.dt.timezone.utc)
  f.reset_forecast(H.key(4), t0)
  H.check('one sample per reset', len(log) == 1)
  if which == 'grid':
    H.check('key and time', log[0] == (str(H.key(4)), t0))
  else:
    H.check('loaded parameters decoded', log[0][0] == {'p': b'params'})
    H.check('64 latents', tuple(log[0][1].shape) == (64,))
  w0 = f.get_forecast(*a, 9000.0, el)
  data[...] = data + 1.0
  f.reset_forecast(H.key(5), t0)
  w1 = f.get_forecast(*a, 9000.0, el)
  H.eq('new field after a reset', w1.u.mps - w0.u.mps, 1.0, 1e-4)


def latents(H):
  """All 64 latent draws free: what the decoder sees are the key's normal draws, one per latent."""
  H.script_rng()
  u = H.load('utils.units')
  for which in ('gen', 'sampler'):
    if which == 'gen':
      f, data, shape, log = fields(H, u, 'gen')
      f.reset_forecast(H.key(4), H.dt.datetime(*T0, tzinfo=H.dt.timezone.utc))
    else:
      f, data, shape, log = fields(H, u, 'gen')
      s = H.load('env.generative_wind_field').GenerativeWindFieldSampler()
      out = s.sample_field(H.key(4), H.dt.datetime(
          *T0, tzinfo=H.dt.timezone.utc))
      H.check('the decoded field', out.shape == data.shape and bool(
          (H.np.asarray(out) == data).all()))
    z = list(log[-1][1])
    H.check('64 latents', len(z) == 64)
    from vx import shims
    drawn = [r for r in shims.RNG.log if r[1] == 'normal'][-64:]
    for a, r in zip(z, drawn):
      H.eq('latent', a, r[4], 1e-5)
    H.check('distinct draws', len({(r[0], r[3]) for r in drawn}) == 64)


def layout(H):
  """The default grid: 21 x 21 places within 500 km, 10 pressures from 5 to 14 kPa, 9 times over 48 h; all shape queries agree, for free slice counts."""
  vae = H.load('generative.vae')
  s = vae.FieldShape()
  H.eq_all('latlng', list(s.latlng_grid_points()), grid(-500.0, 500.0, 21),
           1e-6)
  H.eq_all('pressure', list(s.pressure_grid_points()),
           grid(5000.0, 14000.0, 10), 1e-6)
  H.eq_all('time', list(s.time_grid_points()), grid(0.0, 48.0, 9), 1e-6)
  a, b, c, w = (H.int(n, 2, 50) for n in 'abcw')
  s = vae.FieldShape(latlng_slices=a, flow_field_width=w, pressure_slices=b,
                     time_slices=c)
  H.check('direction grid', H.and_(*[x == y for x, y in zip(
      s.direction_grid_shape(), (a, a, b, c))]))
  H.check('grid', H.and_(*[x == y for x, y in zip(
      s.grid_shape(), (a, a, b, c, 2))]))
  H.check('points', s.num_grid_points() == a * a * b * c)
  H.check('outputs', s.output_length() == 2 * a * a * b * c)
  H.check('flow fields', s.num_flow_fields() == b * c)
  H.check('flow units', s.num_flow_field_units() == w * w * b * c)


def obligations(tier):
  obs = []
  pairs = ['x', 'y', 'p', 't']
  if tier == 'thorough':
    pairs += ['xy', 'xp', 'yp', 'xt', 'yt', 'pt']
  for which in ('grid', 'gen'):
    for free in pairs:
      obs.append(Ob(f'forecast_{which}_{free}', forecast, dict(
          which=which, free=free, n=2 if len(free) > 1 else 3)))
    obs.append(Ob(f'column_{which}', column, dict(which=which)))
    obs.append(Ob(f'memory_{which}', memory, dict(which=which)))
    obs.append(Ob(f'kinds_{which}', kinds, dict(which=which)))
  obs += [Ob('latents', latents), Ob('layout', layout)]
  return obs
