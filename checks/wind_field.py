"""Winds: forecast, noise, and their sum."""
import math
from vx.api import Ob

# The published noise model: weight, then spacing in km, km, Pa, h.
TABLE = dict(
    u=[(0.1445, 702.269, 2116.987, 2587.802, 245.0),
       (0.2766, 1483.570, 752.124, 646.208, 16.39),
       (0.2627, 276.810, 147.040, 587.702, 3.836),
       (0.2137, 10214.525, 1512.216, 965.629, 41.780),
       (0.1025, 181.286, 420.942, 8500.0, 245.0)],
    v=[(0.2716, 1974.228, 2028.814, 713.697, 26.435),
       (0.2684, 699.738, 541.845, 632.116, 9.530),
       (0.2348, 217.750, 196.522, 686.825, 3.546),
       (0.1186, 47.500, 43.048, 66.553, 8.424),
       (0.1066, 3663.291, 232.023, 7499.741, 225.0)])
MAG = math.sqrt(1.02 / 0.0569)


def point(H, u, x=None, y=None, p=None, hours=None):
  x = H.real('x', -2000.0, 2000.0) if x is None else x
  y = H.real('y', -2000.0, 2000.0) if y is None else y
  p = H.real('p', 1000.0, 20000.0) if p is None else p
  s = H.int('seconds', 0, 10**7) if hours is None else hours * 3600
  return u.Distance(km=x), u.Distance(km=y), p, H.dt.timedelta(seconds=s)


class Simplex:
  """OpenSimplex as an arbitrary function per seed."""

  def __init__(self, H):
    self.H, self.made, self.calls = H, [], []
    outer = self

    class OpenSimplex:

      def __init__(self, seed=0):
        self.seed = seed
        outer.made.append(seed)

      def noise4d(self, x, y, z, w):
        v = H.uf('simplex', [float(self.seed) if not H.is_symbolic else
                             self.seed, x, y, z, w], -1.0, 1.0)
        outer.calls.append((self.seed, x, y, z, w, v))
        return v
      noise4 = noise4d
    lib = H.lib('opensimplex')
    H.patch(lib, 'OpenSimplex', OpenSimplex)


def noise(H, which):
  """One component at a free place, pressure and time, all random draws free: five harmonics of the published weights and scales around random offsets in [-1, 1], scaled to unit variance ratio."""
  H.script_rng()
  lib = Simplex(H)
  m = H.load('env.simplex_wind_noise')
  H.patch(m, 'opensimplex', H.lib('opensimplex'))
  u = H.load('utils.units')
  c = m.NoisyWindComponent(which)
  c.reset(H.key(7))
  x, y, p, t = point(H, u)
  got = c.get_noise(x, y, p, t)
  calls = list(lib.calls)
  H.check('five harmonics', len(calls) == 5 and len(lib.made) == 5)
  hours = t.total_seconds() / 3600
  tab = list(TABLE[which])
  w = [r[0] for r in tab]
  H.check('seeds', H.and_(*[H.and_(s >= 0, s < 1634753849)
                            for s in lib.made]))
  base = c.get_noise(*zero(H, u))
  calls0 = lib.calls[5:]
  ref = 0.0
  for (wt, sx, sy, sp, st), a, b in zip(tab, calls, calls0):
    H.check('same generator', a[0] == b[0] if not H.is_symbolic else
            H.and_(a[0] == b[0]))
    for i, (v, sc) in enumerate(((x.km, sx), (y.km, sy), (p, sp),
                                 (hours, st))):
      H.between('offset within one cell', b[1 + i], -1.0, 1.0, 1e-6)
      H.eq('scale', a[1 + i] - b[1 + i], v / sc, 1e-5)
    ref = ref + wt * a[5]
  s1, s2 = sum(w), sum(z * z for z in w)
  H.eq('weighted sum', got, MAG * ref / s1 * math.sqrt(s1 / s2), 1e-5)
  again = c.get_noise(x, y, p, t)
  H.eq('same point, same noise', again, got, 1e-12)
  del base


def moves(H, which):
  """A component asked at a free place, pressure and time, then a little away in one of them, then at the first again: the answers are those of a component of the same seed asked there first."""
  H.script_rng()
  Simplex(H)
  m = H.load('env.simplex_wind_noise')
  H.patch(m, 'opensimplex', H.lib('opensimplex'))
  u = H.load('utils.units')

  def new():
    c = m.NoisyWindComponent(which)
    c.reset(H.key(7))
    return c
  c = new()
  x, y, p, t = point(H, u)
  km, dt = (lambda v: u.Distance(km=v)), H.dt.timedelta
  step = H.choice('step', ['s', 'm', 'ten', 'h', 'x', 'xx', 'y', 'yy', 'p',
                           'pp'])
  q = dict(s=(x, y, p, t + dt(seconds=1)), m=(x, y, p, t + dt(minutes=3)),
           ten=(x, y, p, t + dt(minutes=10)), h=(x, y, p, t + dt(hours=1)),
           x=(x + km(0.003), y, p, t), xx=(x + km(0.6), y, p, t),
           y=(x, y + km(0.003), p, t), yy=(x, y + km(0.6), p, t),
           p=(x, y, p + 0.01, t), pp=(x, y, p + 7.0, t))[step]
  first = c.get_noise(x, y, p, t)
  H.eq('a little away', c.get_noise(*q), new().get_noise(*q), 1e-9)
  H.eq('back', c.get_noise(x, y, p, t), first, 1e-9)


def zero(H, u):
  return u.Distance(km=0.0), u.Distance(km=0.0), 0.0, H.dt.timedelta(0)


def keys(H):
  """All ten harmonics and the forecast draw from different random keys; the same seed gives the same noise."""
  H.script_rng()
  Simplex(H)
  m = H.load('env.simplex_wind_noise')
  H.patch(m, 'opensimplex', H.lib('opensimplex'))
  wf = H.load('env.wind_field')
  from vx import shims
  seen = []

  class Field(wf.WindField):

    def reset_forecast(self, key, date_time):
      seen.append((str(key), date_time))

    def get_forecast(self, x, y, pressure, elapsed_time):
      return None
  f = Field()
  t0 = H.dt.datetime(2013, 3, 25, tzinfo=H.dt.timezone.utc)
  f.reset(H.key(5), t0)
  paths = {}
  for path, kind, extra, idx, _ in shims.RNG.log:
    paths.setdefault((kind, extra, idx), []).append(path)
  H.check('ten harmonics, ten keys', len(paths) > 0 and all(
      len(v) == 10 and len(set(v)) == 10 for v in paths.values()))
  H.check('forecast reset with the start time', len(seen) == 1 and
          seen[0][1] == t0)
  used = {p for v in paths.values() for p in v}
  H.check('forecast has its own key', all(
      seen[0][0] != f'Key({p})' for p in used) and
          seen[0][0] != str(H.key(5)))


def unreset(H):
  """Noise before any reset is refused with ValueError; unknown components with RuntimeError."""
  m = H.load('env.simplex_wind_noise')
  u = H.load('utils.units')
  c = m.NoisyWindComponent('u')
  H.raises('refused before reset', ValueError, c.get_noise, *point(H, u))
  H.raises('unknown component', RuntimeError, m.NoisyWindComponent, 'w')


def ground_truth(H, cls):
  """Place, pressure and time free; forecast and noise arbitrary functions of all four: the ground truth is their vector sum, the forecast column the forecasts at each pressure, and querying changes nothing."""
  wf = H.load('env.wind_field')
  u = H.load('utils.units')
  V = u.Velocity

  def uf(n, x, y, pressure, elapsed_time):
    return H.uf(n, [x.m, y.m, pressure, elapsed_time.total_seconds()],
                -80.0, 80.0)

  class Noise:

    def reset_wind_noise(self, key, date_time):
      pass

    def get_wind_noise(self, x, y, pressure, elapsed_time):
      return wf.WindVector(V(mps=uf('nu', x, y, pressure, elapsed_time)),
                           V(mps=uf('nv', x, y, pressure, elapsed_time)))
  H.patch(wf, 'SimplexWindNoise', Noise)

  class Field(wf.WindField):

    def reset_forecast(self, key, date_time):
      pass

    def get_forecast(self, x, y, pressure, elapsed_time):
      return wf.WindVector(V(mps=uf('fu', x, y, pressure, elapsed_time)),
                           V(mps=uf('fv', x, y, pressure, elapsed_time)))
  f = Field() if cls == 'any' else wf.SimpleStaticWindField()
  x, y, p, t = point(H, u)
  g = f.get_ground_truth(x, y, p, t)
  c = f.get_forecast(x, y, p, t)
  H.eq('u', g.u.mps, c.u.mps + uf('nu', x, y, p, t))
  H.eq('v', g.v.mps, c.v.mps + uf('nv', x, y, p, t))
  p2 = H.real('p2', 1000.0, 20000.0)
  col = f.get_forecast_column(x, y, [p, p2, p], t)
  H.check('one wind per pressure', len(col) == 3)
  for q, w in zip([p, p2, p], col):
    e = f.get_forecast(x, y, q, t)
    H.eq('column u', w.u.mps, e.u.mps)
    H.eq('column v', w.v.mps, e.v.mps)


def simplex_noise(H):
  """The noise model: u and v components at the queried point, in m/s, as a wind vector."""
  wf = H.load('env.wind_field')
  u = H.load('utils.units')

  class Comp:

    def __init__(self, which):
      self.which = which

    def reset(self, key):
      pass

    def get_noise(self, x, y, pressure, elapsed_time):
      return H.uf('c' + self.which, [x.m, y.m, pressure,
                                     elapsed_time.total_seconds()],
                  -50.0, 50.0)
  sw = H.load('env.simplex_wind_noise')
  H.patch(sw, 'NoisyWindComponent', Comp)
  n = wf.SimplexWindNoise()
  x, y, p, t = point(H, u)
  w = n.get_wind_noise(x, y, p, t)
  args = [x.m, y.m, p, t.total_seconds()]
  H.eq('u', w.u.mps, H.uf('cu', args, -50.0, 50.0))
  H.eq('v', w.v.mps, H.uf('cv', args, -50.0, 50.0))


def vectors(H):
  """Wind vectors add componentwise (four free components) and refuse anything else."""
  wf = H.load('env.wind_field')
  V = H.load('utils.units').Velocity
  a, b, c, d = H.reals('w', 4, -100.0, 100.0)
  s = wf.WindVector(V(mps=a), V(mps=b)).add(wf.WindVector(V(mps=c), V(mps=d)))
  H.eq('u', s.u.mps, a + c)
  H.eq('v', s.v.mps, b + d)
  w = wf.WindVector(V(mps=a), V(mps=b))
  for o in (1.0, (V(mps=a), V(mps=b)), None, V(mps=c)):
    ok, r = H.attempt(w.add, o)
    H.check('refuses', (not ok) and isinstance(r, NotImplementedError))


def static(H):
  """Pressure free in [0, 20] kPa, place and time free: four cardinal 10 m/s bands split at 8, 10 and 12 kPa, whatever the place and time."""
  wf = H.load('env.wind_field')
  u = H.load('utils.units')
  f = wf.SimpleStaticWindField()
  x, y, p, t = point(H, u, p=H.real('p', 0.0, 20000.0))
  w = f.get_forecast(x, y, p, t)
  eu = H.ite(p < 8000.0, 10.0, H.ite(H.and_(p >= 10000.0, p < 12000.0),
                                     -10.0, 0.0))
  ev = H.ite(H.and_(p >= 8000.0, p < 10000.0), 10.0,
             H.ite(p >= 12000.0, -10.0, 0.0))
  H.eq('u', w.u.mps, eu)
  H.eq('v', w.v.mps, ev)


def obligations(tier):
  obs = [Ob('noise_u', noise, dict(which='u')),
         Ob('noise_v', noise, dict(which='v')),
         Ob('moves_u', moves, dict(which='u')),
         Ob('moves_v', moves, dict(which='v')),
         Ob('keys', keys), Ob('unreset', unreset),
         Ob('ground_truth_any', ground_truth, dict(cls='any')),
         Ob('ground_truth_static', ground_truth, dict(cls='static')),
         Ob('simplex_noise', simplex_noise), Ob('vectors', vectors),
         Ob('static', static)]
  return obs
