"""The Perciatelli observation vector, and what reading it back gives."""
import math

from vx.api import Ob
from checks import balloon_common as bc

N = 181  # pressure levels
LO, HI = 5000.0, 14000.0
GRID = [LO + i * (HI - LO) / (N - 1) for i in range(N)]
TABLE = [  # power to use: pressure ratio up to, (state of charge from, watts)
    (1.08, [(0, 0), (0.3, 150), (0.4, 175), (0.5, 200)]),
    (1.11, [(0, 0), (0.3, 200), (0.4, 200), (0.7, 225)]),
    (1.14, [(0, 0), (0.3, 225), (0.4, 225), (0.6, 250)]),
    (1.17, [(0, 0), (0.3, 200), (0.4, 225), (0.5, 250)]),
    (1.2, [(0, 0), (0.3, 225), (0.4, 250), (0.5, 275)]),
    (1.23, [(0, 0), (0.4, 275), (0.5, 300)]),
    (1.26, [(0, 0), (0.5, 300), (0.6, 325)]),
    (5.0, [(0, 0), (0.5, 325), (0.6, 350)])]


class Gp:
  """Wind predictions of our choosing; remembers what it was told and asked."""

  def __init__(self, H, rows):
    self.H, self.rows = H, rows
    self.seen, self.asked = [], []

  def observe(self, x, y, pressure, elapsed_time, measurement):
    self.seen.append((x, y, pressure, elapsed_time, measurement))

  def query_batch(self, locations):
    self.asked.append(locations)
    n = locations.shape[0]
    means = self.H.np.zeros((n, 2))
    dev = self.H.np.zeros(n)
    for i in range(n):
      u, v, d = self.rows(i)
      means[i, 0], means[i, 1] = u, v
      dev[i] = d
    return means, dev


class Setup:

  def __init__(self, H, rows=lambda i: (0.0, 0.0, 0.5), prange=(5000.0, 14000.0),
               el='el'):
    self.H = H
    w = self.w = bc.World(H, el=el)
    w.stub_power()
    self.f = H.load('env.features')
    gpm = H.load('env.wind_gp')
    prb = H.load('env.balloon.pressure_range_builder')
    sd = H.load('env.simulator_data')
    self.forecasts, self.gps, self.ranges = [], [], []

    def gp(forecast):
      self.forecasts.append(forecast)
      self.gps.append(Gp(H, rows))
      return self.gps[-1]
    H.patch(gpm, 'WindGP', gp)

    def get_pressure_range(b, atmosphere):
      self.ranges.append((b, atmosphere))
      return prb.AccessiblePressureRange(*prange)
    H.patch(prb, 'get_pressure_range', get_pressure_range)
    self.atm = w.atmosphere()
    self.fc = self.f.PerciatelliFeatureConstructor('forecast', self.atm)
    self.sd = sd

  def look(self, s, u=0.0, v=0.0):
    self.m = self.sd.SimulatorObservation(balloon_observation=s,
                                          wind_at_balloon=self.w.wind(u, v))
    self.fc.observe(self.m)
    return self.fc.get_features()


def ambient(H, parts):
  """State free (place, pressure, superpressure, charge, load, sun, last command, layers paused or not): the first sixteen numbers are the documented ones, all within the observation space, and reading them back gives the state."""
  sun = 'sun' in parts
  S = Setup(H, el='el' if sun else 20.0)
  w, f = S.w, S.f
  C = w.C
  k = {}
  if 'place' in parts:
    k['x'], k['y'] = H.reals('p', 2, -4e5, 4e5)
  else:
    k['x'], k['y'] = H.choice('xy', [(3e4, -4e4), (0.0, 0.0), (-1e5, 0.0)]
                              if 'layers' in parts else [(3e4, -4e4)])
  p, sp = 9010.0, 1200.0
  if 'pressure' in parts:
    base = H.choice('base', [4000.0, 5000.0, 9510.0, 14000.0, 16000.0])
    p = base + H.real('dp', -20.0, 20.0)
  if 'ratio' in parts:
    sp = H.real('sp', -200.0, 3000.0)
  if 'battery' in parts:
    k['battery_charge'] = H.real('charge', 0.0, 3058.56)
  else:
    k['battery_charge'] = 2000.0
  s = w.state(pressure=p, superpressure=sp, **k)
  if sun:
    s.time_elapsed = H.dt.timedelta(seconds=H.int('t', 0, 10**6))
    s.daytime_power_load = w.units.Power(watts=H.real('load', 0.0, 1500.0))
  cmd = H.choice('cmd', [C.DOWN, C.STAY, C.UP]
                 if 'layers' in parts else [C.UP])
  s.last_command = cmd
  pe = pa = False
  if 'layers' in parts:
    pe, pa = H.flag('pe'), H.flag('pa')
  ns = H.ns
  s.envelope_safety_layer = ns(navigation_is_paused=pe)
  s.altitude_safety_layer = ns(navigation_is_paused=pa)
  v = S.look(s)
  H.check('1099 numbers', len(v) == 1099 and H.np.asarray(v).ndim == 1)
  t = 2e-6
  H.eq('pressure', v[0], H.min(H.max((p - LO) / (HI - LO), 0.0), 1.0), t)
  soc = k['battery_charge'] / 3058.56
  H.eq('charge', v[1], soc, t)
  el = w.sun_calls[-1][2] if sun else 20.0
  H.eq('sun', v[2], (el + 90.0) / 180.0, t)
  d = H.math.sqrt(k['x'] * k['x'] + k['y'] * k['y'])
  # heading to the station: d * (sin, cos) = -(x, y)
  if 'place' not in parts:
    H.eq('heading, sine', v[5] * d, -k['x'], 1e-5)
    if d != 0:
      H.eq('heading, cosine', v[6] * d, -k['y'], 1e-5)
  else:
    th = H.math.atan2(-k['x'] / 1000.0, -k['y'] / 1000.0)
    H.eq('heading, sine', v[5], H.math.sin(th), 1e-5)
    H.eq('heading, cosine', v[6], H.math.cos(th), 1e-5)
  H.eq('distance', v[7], d / (d + 250000.0), t)
  for i, c in ((8, C.UP), (9, C.STAY), (10, C.DOWN)):
    H.eq(f'one-hot {i}', v[i], 1.0 if cmd is c else 0.0, t)
  stop = pe or pa
  H.eq('paused', v[11], 1.0 if stop else 0.0, t)
  H.eq('not paused', v[12], 0.0 if stop else 1.0, t)
  H.eq('excess', v[13], 1.0 if bool(s.excess_energy) else 0.0, t)
  if 'ratio' in parts or 'battery' in parts:
    r = 1.0 + H.max(sp, 0.0) / p
    H.assume(H.and_(*[H.abs(r - q) > 1e-7 for q, _ in TABLE]))
    H.assume(H.and_(*[H.abs(soc - q) > 1e-7
                      for q in (0.3, 0.4, 0.5, 0.6, 0.7)]))
    want = 0.0
    below = 0.0
    for hi, steps in TABLE:
      for frm, watts in steps:
        want = H.ite(H.and_(r >= below, r < hi, soc >= frm),
                     min(max((watts - 100.0) / 200.0, 0.0), 1.0), want)
      below = hi
    H.eq('power to use', v[14], want, t)
  H.eq('pressure ratio', v[15], 1.0 + H.max(sp, 0.0) / p, t)
  box = S.fc.observation_space
  H.check('shape of the space', tuple(box.shape) == (1099,))
  for i in range(16):
    H.between(f'in the space {i}', v[i], box.low[i], box.high[i], 1e-6)
  n = f.NamedPerciatelliFeatures(v)
  inside = H.min(H.max(p, LO), HI)
  H.eq('read back: pressure', n.balloon_pressure, inside, 1e-5)
  H.eq('read back: charge', n.battery_charge, soc, t)
  H.check('read back: command', n.last_command is cmd)
  for name, i in (('solar_elevation', 2), ('sin_normalized_solar_cycle', 3),
                  ('cos_normalized_solar_cycle', 4),
                  ('sin_heading_to_station', 5),
                  ('cos_heading_to_station', 6), ('distance_to_station', 7),
                  ('navigation_enabled', 11), ('navigation_paused', 12),
                  ('has_excess_energy', 13), ('descent_cost', 14),
                  ('internal_pressure_ratio', 15)):
    H.eq(f'read back: {name}', getattr(n, name), v[i], t)


def cycle(H):
  """Now, next sunrise and next sunset free within a day of each other: day maps linearly onto [0, pi], night onto [pi, 2 pi], and features 3 and 4 are its sine and cosine."""
  S = Setup(H, el=20.0)
  w, f, dt = S.w, S.f, H.dt
  s = w.state(pressure=9010.0)
  rise = H.int('rise', 1, 86399)
  sset = H.int('set', 1, 86399)
  H.assume(H.or_(rise < sset - 60, rise > sset + 60))
  a, b = w.t0 + dt.timedelta(seconds=rise), w.t0 + dt.timedelta(seconds=sset)
  seen = []

  def nxt(latlng, time, time_delta=None):
    seen.append(time)
    return a, b
  H.patch(w.solar, 'get_next_sunrise_sunset', nxt)
  c = f.compute_sunrise_time(s)
  H.check('asked about now', seen[-1] == s.date_time)
  pi = math.pi
  day = sset < rise
  want_day = pi * (86400 - rise) / (sset + 86400 - rise)
  want_night = pi + pi * (86400 - sset) / (rise + 86400 - sset)
  H.eq('normalised cycle', c, H.ite(day, want_day, want_night), 1e-9)
  H.between('range', c, 0.0, 2 * pi)
  v = S.look(s)
  H.eq('sine', v[3], H.math.sin(c), 2e-6)
  H.eq('cosine', v[4], H.math.cos(c), 2e-6)


def crand(i, k):
  """Fixed pseudo-random numbers in [-1, 1]."""
  x = math.sin(i * 12.9898 + k * 78.233) * 43758.5453
  return 2 * (x - math.floor(x)) - 1


def triple(u, v, dev, x, y):
  """Uncertainty, bearing error and magnitude as documented."""
  m = math.hypot(u, v)
  d = math.hypot(x, y)
  if d < 1e-5:
    b = 0.0
  elif m < 1e-5:
    b = 1.0
  else:
    b = abs(math.atan2(u * -y - v * -x, u * -x + v * -y)) / math.pi
  return dev, b, m / (m + 30.0)


def column(H, bases):
  """Balloon pressure within 60 Pa of several levels and beyond both ends, reachable range with free ends within such windows, fixed winds at every level: the column is centred on the level nearest the balloon, pressures increase along it, reachable levels carry (uncertainty, bearing error / pi, magnitude / (magnitude + 30)), all others (0, 1, 1)."""
  x, y = H.choice('xy', [(3e4, -4e4), (0.0, 0.0), (-1e5, 2e3)])

  def rows(i):
    if i % 17 == 3:
      return 0.0, 0.0, 0.25
    return 60 * crand(i, 1), 60 * crand(i, 2), abs(crand(i, 3))
  p = H.choice('base', bases) + H.real('dp', -60.0, 60.0)
  ends = H.choice('ends', [(4990.0, 9040.0), (7060.0, 14010.0)])
  lo = ends[0] + H.real('dlo', -20.0, 20.0)
  hi = ends[1] + H.real('dhi', -20.0, 20.0)
  for g in GRID:  # away from ties
    H.assume(H.abs(p - g - 25.0) > 1e-3)
  S = Setup(H, rows, (lo, hi), el=20.0)
  s = S.w.state(pressure=p, x=x, y=y)
  s.time_elapsed = H.dt.timedelta(seconds=7200)
  v = S.look(s, 3.0, 4.0)
  gp = S.gps[-1]
  H.check('one wind model over the forecast', S.forecasts == ['forecast'])
  H.check('observed once', len(gp.seen) == 1)
  ox, oy, op, ot, om = gp.seen[0]
  H.check('told where and when', ox is s.x and oy is s.y and ot ==
          s.time_elapsed and om is S.m.wind_at_balloon)
  H.eq('told the pressure', op, p)
  q = gp.asked[-1]
  H.check('one query per level', q.shape == (N, 4))
  for i in (0, 1, 57, 180):
    H.eq('query x', q[i, 0], x)
    H.eq('query y', q[i, 1], y)
    H.eq('query pressure', q[i, 2], GRID[i])
    H.eq('query time', q[i, 3], 7200.0)
  H.check('reach asked for this balloon and air',
          S.ranges[-1][0] is s and S.ranges[-1][1] is S.atm)
  pc = H.min(H.max(p, LO), HI)
  n = S.f.NamedPerciatelliFeatures(v)
  H.check('361 levels', n.num_pressure_levels == 2 * N - 1)
  c = n.wind_column_center()
  H.check('centre', c == N - 1)
  own = None
  for i, g in enumerate(GRID):
    b = bases[0]
    if own is None and abs(min(max(b, LO), HI) - g) < 111 and bool(
        H.abs(pc - g) < 25.0):
      own = i
  H.check('a nearest level', own is not None)
  for e in range(2 * N - 1):
    lev = e - c + own
    got = v[16 + 3 * e], v[17 + 3 * e], v[18 + 3 * e]
    want = (0.0, 1.0, 1.0)
    reach = False
    if 0 <= lev < N:
      g = GRID[lev]
      r = reach = bool(lo <= g if g < 8000 else g <= hi) if min(
          abs(g - e) for e in ends) < 25 else ends[0] < g < ends[1]
      if r:
        u, vv, dev = rows(lev)
        want = triple(u, vv, dev, x, y)
    for what, a, b in zip(('uncertainty', 'bearing', 'magnitude'), got, want):
      H.eq(f'{what}, {"reachable" if reach else "unreachable"}', a, b, 2e-4)
    if e % 5 == 0:
      w = n.wind_at(e)
      H.eq('wind_at', w.uncertainty, got[0], 2e-6)
      H.eq('wind_at, bearing', w.bearing, got[1], 2e-6)
      H.eq('wind_at, magnitude', w.magnitude, got[2], 2e-6)
      H.eq('magnitude()', n.magnitude(e), got[2], 2e-6)
      H.eq('bearing()', n.bearing(e), got[1], 2e-6)
      H.eq('uncertainty()', n.uncertainty(e), got[0], 2e-6)
      H.check('valid iff reachable', bool(n.level_is_valid(e)) == reach)


def one_wind(H):
  """The wind at one reachable level free (80 m/s each way), place free within a window: its triple is the documented one, and lies in the observation space."""
  u, v = H.reals('w', 2, -80.0, 80.0)
  dev = H.real('dev', 0.0, 1.0)
  mode = H.choice('mode', ['towards', 'away', 'across', 'any'])
  x, y = 3e4, -4e4
  if mode == 'any':
    H.assume(u * u + v * v >= 1.0)
  else:
    k = H.real('k', 1.0, 80.0)
    dx, dy = {'towards': (-0.6, 0.8), 'away': (0.6, -0.8),
              'across': (0.8, 0.6)}[mode]
    u, v = k * dx, k * dy
  S = Setup(H, lambda i: (u, v, dev) if i == 80 else (1.0, 2.0, 0.5), el=20.0)
  s = S.w.state(pressure=GRID[60] + 3.0, x=x, y=y)
  f = S.look(s)
  j = 16 + 3 * (180 - 60 + 80)
  H.eq('uncertainty', f[j], dev, 2e-6)
  b = f[j + 1]
  if mode == 'any':
    H.between('bearing in [0, 1]', b, 0.0, 1.0, 1e-6)
    m = H.math.sqrt(u * u + v * v)
    H.eq('magnitude', f[j + 2], m / (m + 30.0), 2e-6)
    H.between('magnitude in [0, 1]', f[j + 2], 0.0, 1.0, 1e-6)
  else:
    H.eq(f'bearing, {mode}', b, {'towards': 0.0, 'away': 1.0,
                                 'across': 0.5}[mode], 2e-3)
    H.eq('magnitude', f[j + 2], k / (k + 30.0), 2e-6)


def named(H):
  """A vector of free wind triples: levels outside 0..360 are refused (free level in [-400, 800]), a vector of another length too, a level is invalid exactly when it is (0, 1, 1), and the real wind undoes the scaling."""
  f = H.load('env.features')
  t = H.reals('t', 3, 0.0, 1.0)
  xs = [0.5] * 1099
  xs[16 + 3 * 200:19 + 3 * 200] = t
  n = f.NamedPerciatelliFeatures(H.array(xs))
  w = n.wind_at(200)
  H.eq('uncertainty', w.uncertainty, t[0])
  H.eq('bearing', w.bearing, t[1])
  H.eq('magnitude', w.magnitude, t[2])
  H.check('valid', H.iff(n.level_is_valid(200), H.not_(H.and_(
      t[0] == 0.0, t[1] == 1.0, t[2] == 1.0))))
  if H.flag('conv'):
    H.assume(t[2] <= 0.999)
    r = f.convert_wind_feature_to_real_wind(w)
    H.eq('same uncertainty', r.uncertainty, t[0])
    H.eq('bearing in radians', r.bearing, t[1] * math.pi)
    H.eq('m/s', r.magnitude, 30.0 * t[2] / (1 - t[2]), 1e-6)
  lev = H.int('lev', -400, 800)
  H.assume(H.or_(lev < 0, lev > 360))
  for g in (n.wind_at, n.level_is_valid, n.magnitude, n.bearing,
            n.uncertainty):
    ok, r = H.attempt(g, lev)
    H.check('refused', (not ok) and isinstance(r, ValueError))
  size = H.choice('size', [0, 16, 1096, 1098, 1100, 1102])
  ok, r = H.attempt(f.NamedPerciatelliFeatures, H.array([0.5] * size))
  H.check('wrong length refused', not ok)


def repeat(H):
  """Features of two observations: asking twice gives the same vector, the first vector is not altered by later ones, and only the latest state shows."""
  S = Setup(H, lambda i: (60 * crand(i, 1), 60 * crand(i, 2), 0.5), el=20.0)
  s = S.w.state(pressure=9010.0, x=3e4, y=-4e4)
  v1 = S.look(s)
  keep = [v1[i] for i in range(1099)]
  v2 = S.fc.get_features()
  H.eq_all('same again', list(v2), keep, 1e-6)
  x, y = H.choice('xy', [(0.0, 7e4), (-3e5, 1e4)])
  charge = H.real('charge', 0.0, 1000.0)
  s2 = S.w.state(pressure=9010.0, x=x, y=y, battery_charge=charge)
  v3 = S.look(s2)
  H.eq_all('earlier vector kept', list(v1), keep, 1e-9)
  d = H.math.sqrt(x * x + y * y)
  H.eq('latest state', v3[7], d / (d + 250000.0), 2e-6)
  H.eq('latest charge', v3[1], charge / 3058.56, 2e-6)
  H.check('both observed', len(S.gps) == 1 and len(S.gps[0].seen) == 2)


def renewed(H):
  """Two observations that differ in one thing (the predicted winds, the uncertainty, the place, the reach, the time, nothing): the second vector is the one of a feature constructor that only saw the second."""
  what = H.choice('what', ['winds', 'uncertainty', 'place', 'reach', 'time',
                           'pressure', 'nothing'])
  now = [0]
  du, dd = H.real('du', 1.0, 20.0), H.real('dd', 0.05, 0.4)

  def rows(i):
    k = now[0]
    if i % 20 != 5:
      return 3.0, 4.0, 0.5
    return (3.0 + (du if k and what == 'winds' else 0.0), -4.0,
            0.5 + (dd if k and what == 'uncertainty' else 0.0))

  def new():
    return Setup(H, rows, el=20.0)
  S = new()
  prb = H.load('env.balloon.pressure_range_builder')
  H.patch(prb, 'get_pressure_range', lambda b, atmosphere: (
      prb.AccessiblePressureRange(5000.0 + (
          1525.0 if now[0] and what == 'reach' else 0.0), 14000.0)))
  xy = dict(x=3e4, y=-4e4)
  s = S.w.state(pressure=9010.0, **xy)
  s.time_elapsed = H.dt.timedelta(seconds=7200)
  S.look(s)
  S.fc.get_features()
  now[0] = 1
  if what == 'place':
    xy = dict(x=-1e5, y=2e3)
  p = 9010.0 + (H.real('dp', 60.0, 70.0) if what == 'pressure' else 0.0)

  def second(T):
    t = T.w.state(pressure=p, **xy)
    t.time_elapsed = H.dt.timedelta(
        seconds=7380 if what == 'time' else 7200)
    return T.look(t)
  got = second(S)
  q = S.gps[-1].asked[-1]
  H.eq('asked for this time', q[7, 3], 7380.0 if what == 'time' else 7200.0)
  H.eq('asked for this place', q[7, 0], xy['x'])
  fc, gps = S.fc, S.gps
  S.fc = S.f.PerciatelliFeatureConstructor('forecast', S.atm)
  want = second(S)
  H.check('one wind model each', len(S.gps) == 2)
  for i in range(1099):
    if not (H.is_symbolic and got[i] is want[i]):
      H.eq(f'feature {i if i < 16 else 16 + (i - 16) % 3}', got[i], want[i],
           2e-6)


def expected(H):
  """Pressure free: expected exactly within the levels' range; the vector of any pressure stays legal."""
  S = Setup(H, el=20.0)
  p = H.real('p', 3000.0, 17000.0)
  H.check('expected pressures', H.iff(bool(S.fc.is_valid_pressure(p)),
                                      H.between_(p, LO, HI)))


def obligations(tier):
  q = tier == 'quick'
  obs = [Ob('ambient/' + '+'.join(p), ambient, dict(parts=p)) for p in (
      ('place',), ('pressure', 'ratio'), ('battery', 'ratio'), ('sun',),
      ('layers',))]
  if not q:
    obs += [Ob('ambient/' + '+'.join(p), ambient, dict(parts=p), budget_s=600)
            for p in (('place', 'pressure'), ('pressure', 'battery', 'ratio'),
                      ('sun', 'battery', 'layers'))]
  bases = [4900.0, 5000.0, 9500.0, 14100.0]
  obs += [Ob(f'column/{b:.0f}', column, dict(bases=[b])) for b in bases]
  if not q:
    obs += [Ob(f'column/{b:.0f}', column, dict(bases=[float(b)]), budget_s=600)
            for b in range(5100, 14100, 600)]
  return obs + [Ob('cycle', cycle), Ob('one_wind', one_wind),
                Ob('named', named), Ob('repeat', repeat), Ob('renewed', renewed),
                Ob('expected', expected)]
