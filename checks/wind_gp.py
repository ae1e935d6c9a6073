"""Wind predictions from the forecast and the winds measured."""
from vx.api import Ob

L = (357000.0, 357000.0, 326.0, 34560.0)
S2, NOISE, HORIZON = 3.6**2, 0.05, 6 * 3600


class Setup:
  """Forecast: an arbitrary function of place, pressure and time."""

  def __init__(self, H, uf=True):
    self.H = H
    self.m = H.load('env.wind_gp')
    self.wf = H.load('env.wind_field')
    self.u = H.load('utils.units')
    self.uf = uf
    self.calls = []
    outer = self

    class Forecast(self.wf.WindField):

      def reset_forecast(self, key, date_time):
        raise AssertionError

      def get_forecast(self, x, y, pressure, elapsed_time):
        outer.calls.append('single')
        return outer.wind(*outer.at(x.m, y.m, pressure,
                                    elapsed_time.total_seconds()))
    self.forecast = Forecast()
    self.gp = self.m.WindGP(self.forecast)

  def at(self, x, y, p, t):
    """The forecast at a point."""
    if self.uf:
      a = [x, y, p, t]
      return self.H.uf('fu', a, -80.0, 80.0), self.H.uf('fv', a, -80.0, 80.0)
    return 0.5 + x * 1e-5 - p * 1e-3, -2.0 + y * 1e-5 + t * 1e-4

  def wind(self, u, v):
    V = self.u.Velocity
    return self.wf.WindVector(V(mps=u), V(mps=v))

  def tell(self, q, u, v):
    D, td = self.u.Distance, self.H.dt.timedelta
    self.gp.observe(D(m=q[0]), D(m=q[1]), q[2], td(seconds=q[3]),
                    self.wind(u, v))

  def ask(self, q):
    D, td = self.u.Distance, self.H.dt.timedelta
    m, d = self.gp.query(D(m=q[0]), D(m=q[1]), q[2], td(seconds=q[3]))
    return m[0], m[1], d


def dist(H, a, b):
  s = 0.0
  for x, y, l in zip(a, b, L):
    s = s + ((x - y) / l) * ((x - y) / l)
  return H.math.sqrt(s)


def unmeasured(H):
  """Nothing measured, query free: the prediction is the forecast there."""
  S = Setup(H)
  q = H.reals('q', 2, -5e5, 5e5) + [H.real('p', 5000.0, 14000.0),
                                    H.int('t', 0, 200000)]
  u, v, d = S.ask(q)
  fu, fv = S.at(*q)
  H.eq('u', u, fu)
  H.eq('v', v, fv)
  H.between('uncertainty', d, 0.0, 1.0)


def one(H, free):
  """One measurement (place, wind), one query point, both free in the coordinates named: the forecast error measured is carried over with the published Matern weight, uncertainty 1 minus the explained part, both within bounds."""
  S = Setup(H)
  base = [1e5, -2e5, 9000.0, 7200.0]
  a, q = list(base), list(base)
  rng = dict(x=(0, -5e5, 5e5), y=(1, -5e5, 5e5), p=(2, 5000.0, 14000.0))
  for c in free:
    if c == 't':
      a[3] = H.int('ta', 0, 100000)
      q[3] = H.int('tq', 0, 100000)
      H.assume(H.abs(a[3] - q[3]) < HORIZON)
      continue
    i, lo, hi = rng[c]
    a[i], q[i] = H.real('a' + c, lo, hi), H.real('q' + c, lo, hi)
  mu, mv = H.reals('m', 2, -80.0, 80.0)
  S.tell(a, mu, mv)
  u, v, d = S.ask(q)
  fu, fv = S.at(*q)
  eu, ev = mu - S.at(*a)[0], mv - S.at(*a)[1]
  e = H.math.exp(-dist(H, a, q))
  w = S2 * e / (S2 + NOISE)
  H.eq('u', u, fu + w * eu, 1e-6)
  H.eq('v', v, fv + w * ev, 1e-6)
  H.eq('uncertainty', d, 1.0 - w * e, 1e-6)
  H.between('uncertainty in [0, 1]', d, 0.0, 1.0, 1e-9)


def here(H):
  """A measurement anywhere at any wind, asked again at the same point: almost the measured wind, with almost no uncertainty."""
  S = Setup(H)
  q = H.reals('q', 2, -5e5, 5e5) + [H.real('p', 5000.0, 14000.0),
                                    H.int('t', 0, 200000)]
  mu, mv = H.reals('m', 2, -80.0, 80.0)
  S.tell(q, mu, mv)
  u, v, d = S.ask(q)
  fu, fv = S.at(*q)
  k = S2 / (S2 + NOISE)
  H.eq('u', u, fu + k * (mu - fu), 1e-6)
  H.eq('v', v, fv + k * (mv - fv), 1e-6)
  H.eq('uncertainty', d, 1.0 - k, 1e-6)


PTS = [[1e5, -2e5, 9000.0, 7000.0], [1.2e5, -1e5, 9300.0, 7200.0],
       [-3e4, 2e4, 8700.0, 3600.0]]


def several(H, n):
  """n fixed places, all winds measured free, three queries at several pressures: the exact regression (solved independently), in any order of measurement."""
  import numpy as np
  S = Setup(H, uf=False)
  pts = PTS[:n]
  ms = [H.reals(f'm{i}', 2, -80.0, 80.0) for i in range(n)]
  order = list(range(n))
  if H.flag('reversed'):
    order.reverse()
  for i in order:
    S.tell(pts[i], *ms[i])
  cols = [6000.0, 9000.0, 13000.0]
  loc = np.array([[9e4, -1.5e5, p, 7200.0] for p in cols])
  means, dev = S.gp.query_batch(loc)
  for j, p in enumerate(cols):
    q = [9e4, -1.5e5, p, 7200.0]
    w, unc = regress(pts, q)
    for c in (0, 1):
      want = S.at(*q)[c]
      for i in range(n):
        want = want + w[i] * (ms[i][c] - S.at(*pts[i])[c])
      H.eq('uv'[c], means[j, c], want, 1e-6)
    H.eq('uncertainty', dev[j], unc, 1e-6)


def regress(pts, q):
  """Weights of the measurements and the uncertainty at q."""
  import numpy as np

  def k(a, b):
    return S2 * np.exp(-np.sqrt(sum(((x - y) / l)**2
                                    for x, y, l in zip(a, b, L))))
  if not pts:
    return [], 0.0
  K = np.array([[k(a, b) for b in pts] for a in pts]) + NOISE * np.eye(len(pts))
  kq = np.array([k(a, q) for a in pts])
  w = np.linalg.solve(K, kq)
  return [float(x) for x in w], float(1.0 - kq @ w / S2)


def stale(H):
  """Age of the one measurement free within 14 hours (either side): it counts exactly when less than six hours from the time asked about; with none that counts the forecast remains."""
  S = Setup(H, uf=False)
  tq = 60000
  age = H.int('age', -50000, 50000)
  mu, mv = H.reals('m', 2, -80.0, 80.0)
  a, q = [0.0, 0.0, 6000.0, tq - age], [0.0, 0.0, 6000.0, tq]
  S.tell(a, mu, mv)
  u, v, d = S.ask(q)
  fu, fv = S.at(*q)
  if bool(H.abs(age) < HORIZON):
    e = H.math.exp(-dist(H, a, q))
    w = S2 * e / (S2 + NOISE)
    H.eq('fresh u', u, fu + w * (mu - S.at(*a)[0]), 1e-6)
    H.eq('fresh v', v, fv + w * (mv - S.at(*a)[1]), 1e-6)
    H.eq('uncertainty', d, 1.0 - w * e, 1e-6)
  else:
    H.eq('old news, u', u, fu, 1e-9)
    H.eq('old news, v', v, fv, 1e-9)


def stale_many(H, n):
  """n measurements at ages around zero and six hours (either side), all winds free: the prediction is the exact regression over those less than six hours away; older ones count again when asked about the past."""
  S = Setup(H, uf=False)
  tq = 60000
  ages = [H.choice(f'age{i}', [0, 21599, 21600, 40000, -21599, -21600][
      :6 if i < 2 else 3]) for i in range(n)]
  ms = [H.reals(f'm{i}', 2, -80.0, 80.0) for i in range(n)]
  pts = [[2e4 * i, 0.0, 9000.0 + 150.0 * i, tq - ages[i]] for i in range(n)]
  for p, m in zip(pts, ms):
    S.tell(p, *m)
  for t in (tq, tq - 30000, tq):
    q = [1e4, 0.0, 9100.0, t]
    u, v, d = S.ask(q)
    fresh = [i for i in range(n) if abs(pts[i][3] - t) < HORIZON]
    w, unc = regress([pts[i] for i in fresh], q)
    want = list(S.at(*q))
    for wi, i in zip(w, fresh):
      for c in (0, 1):
        want[c] = want[c] + wi * (ms[i][c] - S.at(*pts[i])[c])
    H.eq('u', u, want[0], 1e-6)
    H.eq('v', v, want[1], 1e-6)
    if fresh:
      H.eq('uncertainty', d, unc, 1e-6)


def pure(H):
  """Asking changes nothing: the same question later gives the same answer, a single question agrees with a column, and after a reset to another forecast no measurement is left."""
  S = Setup(H, uf=False)
  for p in PTS[:2]:
    S.tell(p, H.real(f'm{p[2]}', -80.0, 80.0), 3.0)
  q = [9e4, -1.5e5, 9100.0, 7200.0]
  r1 = S.ask(q)
  loc = H.np.array([[9e4, -1.5e5, p, 7200.0] for p in (6000.0, 9100.0)])
  m, d = S.gp.query_batch(loc)
  H.eq_all('column agrees', [m[1, 0], m[1, 1], d[1]], r1, 1e-9)
  H.eq('locations left alone', loc[1, 2], 9100.0)
  H.eq_all('again', S.ask(q), r1, 1e-9)
  S2_ = Setup(H, uf=False)
  S.gp.reset(S2_.forecast)
  u, v, _ = S.ask(q)
  fu, fv = S.at(*q)
  H.eq('reset u', u, fu)
  H.eq('reset v', v, fv)
  g2 = Setup(H, uf=False)
  u, v, _ = g2.ask(q)
  H.eq('own measurements only', u, fu)


def together(H):
  """Two models of one forecast or two, told in turn, asked in turn: each predicts from what it was told itself, winds free."""
  S = [Setup(H, uf=False)]
  S.append(Setup(H, uf=False))
  if H.flag('one forecast'):
    S[1].gp.reset(S[0].forecast)
  q = [9e4, -1.5e5, 9100.0, 7200.0]
  told = ([], [])

  def verify():
    for k in (0, 1):
      u, v, d = S[k].ask(q)
      w, unc = regress([p for p, _ in told[k]], q) if told[k] else ([], 1.0)
      for c, got in ((0, u), (1, v)):
        want = S[k].at(*q)[c]
        for wi, (p, m) in zip(w, told[k]):
          want = want + wi * (m[c] - S[k].at(*p)[c])
        H.between('its own measurements', got - want, -1e-6, 1e-6)
      if told[k]:
        H.eq('its own uncertainty', d, unc, 1e-6)
  for n, (k, i) in enumerate(((0, 0), (1, 1), (0, 1), (1, 0))):
    m = H.reals(f'm{n}', 2, -80.0, 80.0)
    told[k].append((PTS[i], m))
    S[k].tell(PTS[i], *m)
    verify()


def retold(H, when):
  """Two measurements, then a reset (or a reset to the same forecast, or one measurement more); then the same places and times told again with other free winds, or other places at the same times: the prediction is the exact regression over what was told since the reset."""
  S = Setup(H, uf=False)
  q = [9e4, -1.5e5, 9100.0, 7200.0]
  told = []

  def tell(p, m):
    told.append((p, m))
    S.tell(p, *m)

  def verify(label):
    w, unc = regress([p for p, _ in told], q)
    got = S.ask(q)
    for c in (0, 1):
      want = S.at(*q)[c]
      for wi, (p, m) in zip(w, told):
        want = want + wi * (m[c] - S.at(*p)[c])
      H.between(f'{label}: {"uv"[c]}', got[c] - want, -1e-6, 1e-6)
    H.eq(f'{label}: uncertainty', got[2], unc, 1e-6)
  for i, p in enumerate(PTS[:2]):
    tell(p, H.reals(f'm{i}', 2, -80.0, 80.0))
  verify('first')
  if when == 'more':
    tell(PTS[1], H.reals('m2', 2, -80.0, 80.0))
    verify('the same place again')
    tell([5e4, -1e5, 9100.0, PTS[1][3]], H.reals('m3', 2, -80.0, 80.0))
    verify('the same time again')
    return
  S.gp.reset(S.forecast if when == 'same' else Setup(H, uf=False).forecast)
  told.clear()
  moved = 3e4 if H.flag('moved') else 0.0
  for i, p in enumerate(PTS[:2]):
    tell([p[0] + moved] + p[1:], H.reals(f'n{i}', 2, -80.0, 80.0))
  verify('after a reset')


def obligations(tier):
  q = tier == 'quick'
  frees = [('p',), ('t',), ('x',)] + ([] if q else [
      ('y',), ('x', 'y'), ('p', 't'), ('x', 'y', 'p', 't')])
  return [Ob('unmeasured', unmeasured), Ob('here', here)] + [
      Ob('one/' + ''.join(f), one, dict(free=f)) for f in frees] + [
          Ob(f'several/{n}', several, dict(n=n)) for n in (
              (2, 3))] + [
                  Ob('stale', stale)] + [
                      Ob(f'stale/{n}', stale_many, dict(n=n)) for n in (
                          (2,) if q else (2, 3))] + [Ob('pure', pure), Ob('together', together)] + [
                              Ob(f'retold/{w}', retold, dict(when=w))
                              for w in ('more', 'same', 'other')]
