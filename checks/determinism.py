"""Same seed, same episode: nothing else matters."""
from vx.api import Ob
from checks import arena_common as ac
from checks import balloon_common as bc


class Physics:
  """An arena over cheap physics whose randomness is all still there."""

  def __init__(self, H):
    H.script_rng()
    self.H = H
    S = self.S = ac.Setup(H, sampling=False, cold=True)
    self.C = S.w.C
    H.patch(S.w.solar, 'solar_power',
            lambda el_deg, pressure_altitude_pa: S.u.Power(
                watts=300.0 + pressure_altitude_pa * 0.01))
    S.w.fixed_thermal()
    t0, dt = S.w.t0, H.dt

    def when(key, begin_range=None, end_range=None):
      # a whole number of hours, different for every key
      return t0 + dt.timedelta(hours=self.num('start', key, 0, 200))
    H.patch(S.sampling, 'sample_time', when)
    H.patch(S.sampling, 'sample_pressure', lambda key, atmosphere=None: (
        9000.0 + self.num('pressure', key, 0, 10)))
    H.patch(S.sampling, 'sample_upwelling_infrared', lambda key, distribution_type='logit_normal': (
        230.0 + self.num('ir', key, 0, 10)))
    H.patch(S.sampling, 'sample_location', lambda key: H.lib(
        's2sphere').LatLng.from_degrees(float(self.num('lat', key, -9, 9)),
                                        2.0))

  def num(self, what, key, lo, hi):
    """A number that depends on nothing but the key."""
    import hashlib
    h = int(hashlib.sha256(f'{what}{key}'.encode()).hexdigest(), 16)
    return lo + h % (hi - lo + 1)

  def wind(self):
    """Wind: an arbitrary function of the key it was reset with, place, time."""
    H, S = self.H, self.S
    wf, V = S.wf_m, S.u.Velocity

    class Wind(wf.WindField):
      key = 'none'

      def reset(self, key, date_time):
        self.key = str(key)

      def reset_forecast(self, key, date_time):
        pass

      def get_forecast(self, x, y, pressure, elapsed_time):
        return wf.WindVector(V(mps=0.0), V(mps=0.0))

      def get_ground_truth(self, x, y, pressure, elapsed_time):
        a = [x.m, y.m, pressure, elapsed_time.total_seconds()]
        return wf.WindVector(V(mps=H.uf('u' + self.key, a, -80.0, 80.0)),
                             V(mps=H.uf('v' + self.key, a, -80.0, 80.0)))
    return Wind()

  def arena(self, seed):
    return self.S.arena(seed, self.wind())


def trace(H, a, cmds, first, between=lambda: None):
  """Everything observable of an episode."""
  out = [('obs', first)]
  for c in [None] + list(cmds):
    if c is not None:
      o = a.step(c)
      out.append(('obs', o))
    between()
    s = a.get_balloon_state()
    m = a.get_measurements()
    out.append(('state', bc.snap(s)))
    out.append(('consts', bc.consts(s)))
    out.append(('where', dict(lat=s.center_latlng.lat().degrees,
                              lng=s.center_latlng.lng().degrees)))
    out.append(('wind', dict(u=m.wind_at_balloon.u.mps,
                             v=m.wind_at_balloon.v.mps)))
  return out


def same(H, label, t1, t2):
  H.check(f'{label}: as many steps', len(t1) == len(t2))
  for (k1, a), (k2, b) in zip(t1, t2):
    if isinstance(a, dict):
      for n in a:
        if isinstance(a[n], str) or n == 'date_time':
          H.check(f'{label}: {k1} {n}', H.known(a[n] == b[n]))
        else:
          H.eq(f'{label}: {k1} {n}', a[n], b[n], 1e-9)
    else:
      H.eq_all(f'{label}: {k1}', list(a), list(b), 1e-9)


def plan_of(H, P, n):
  return [H.choice(f'c{i}', [P.C.DOWN, P.C.STAY, P.C.UP]) for i in range(n)]


def fresh(H, n):
  """All placement draws free, wind an arbitrary function of its key, place and time: two arenas built from one seed fly the same episode under every command sequence of length n, whatever flew in between."""
  P = Physics(H)
  plan = plan_of(H, P, n)
  seed = H.choice('seed', [0, 1, 12345, 2**31 - 1])
  t1 = trace(H, P.arena(seed), plan, [0.0])
  other = P.arena(9)
  other.step(P.C.UP)
  t2 = trace(H, P.arena(seed), plan, [0.0])
  same(H, 'same seed', t1, t2)


def history(H, n):
  """As above: an arena that has flown another episode of any two commands, then is reset to a seed or to that seed's key, flies what a new arena flies from that seed."""
  P = Physics(H)
  plan = plan_of(H, P, n)
  a = P.arena(5)
  t1 = trace(H, a, plan, a.reset(5))
  b = P.arena(9)
  for i in range(2):
    b.step(H.choice(f'before{i}', [P.C.DOWN, P.C.UP]))
  t2 = trace(H, b, plan, b.reset(5))
  same(H, 'after another episode', t1, t2)
  same(H, 'key instead of seed', t1, trace(H, b, plan, b.reset(H.key(5))))


def interleaved(H, n):
  """As above: two arenas with different seeds, stepped alternately under every pair of command sequences: each flies as if alone."""
  P = Physics(H)
  plan = plan_of(H, P, n)
  t1 = trace(H, P.arena(5), plan, [0.0])
  a, b = P.arena(5), P.arena(6)
  d = H.choice('d', [P.C.DOWN, P.C.UP])
  s0 = bc.snap(a.get_balloon_state())
  b.step(d)
  s1 = bc.snap(a.get_balloon_state())
  for k in s0:
    if not isinstance(s0[k], str) and k != 'date_time':
      H.eq(f'other arena leaves {k}', s1[k], s0[k], 1e-12)
  t2 = trace(H, a, plan, [0.0], lambda: b.step(d))
  same(H, 'alone or not', t1, t2)


# apart by one, by powers of two, by powers of ten; the ends of the range
SEEDS = [5, 6, 5 + 2**8, 5 + 2**16, 5 + 2**20, 5 + 2**30, 0, 1, 10005,
         1000005, 2**31 - 1]


def seeds_differ(H):
  """Different seeds start different episodes: every random draw of the start (place, direction, pressure, infrared, time, wind) comes from a key derived from the seed."""
  from vx import shims
  P = Physics(H)
  paths = []
  for seed in SEEDS:
    shims.RNG.log = []
    a = P.arena(seed)
    used = {r[0] for r in shims.RNG.log}
    used |= {a.get_simulator_state().wind_field.key}
    H.check('some draws', len(used) >= 3)
    paths.append(used)
  for i, a in enumerate(paths):
    for b in paths[:i]:
      H.check('no key shared between seeds', not (a & b))


def layers(H):
  """Two balloons in one process: safety layers, charges and places are not shared between states built from defaults."""
  P = Physics(H)
  w = P.S.w
  a, b = w.state(), w.state()
  H.check('own layers', a.envelope_safety_layer is not b.envelope_safety_layer
          and a.altitude_safety_layer is not b.altitude_safety_layer
          and a.power_safety_layer is not b.power_safety_layer)
  v = H.real('sp', -100.0, 3000.0)
  a.envelope_safety_layer.get_action(P.C.STAY, v)
  H.check('other layer untouched',
          not b.envelope_safety_layer.navigation_is_paused)
  c0 = b.battery_charge.watt_hours
  a.battery_charge = a.battery_charge - w.units.Energy(watt_hours=100.0)
  H.eq('other charge untouched', b.battery_charge.watt_hours, c0)


def env(H):
  """Environments seeded alike (constructor or reset): same first states, and the unseeded resets that follow agree too, whatever was flown before."""
  P = Physics(H)
  E = H.load('env.balloon_env').BalloonEnv
  reward = lambda simulator_state: 0.5

  def make(seed):
    return E(arena=P.arena(77), seed=seed, reward_function=reward)

  def state(e):
    st = e.get_simulator_state()
    s = st.balloon_state
    return [('state', bc.snap(s)),
            ('where', dict(lat=s.center_latlng.lat().degrees)),
            ('wind', dict(key=st.wind_field.key))]
  a, b, c = make(3), make(3), make(4)
  same(H, 'constructor seed', state(a), state(b))
  c.step(H.choice('a', [0, 1, 2]))
  for seed in (3, None, None, 0, None):
    if seed == 0:
      c.reset()
    for e in (a, b, c):
      e.step(1)
      e.reset(**({} if seed is None else dict(seed=seed)))
    same(H, f'reset {seed}', state(a), state(b))
    same(H, f'reset {seed}, other start', state(a), state(c))
  same(H, 'constructor seed zero', state(make(0)), state(make(0)))


def parts(H):
  """The real wind noise of a static field (over an arbitrary simplex function per seed) the real atmosphere and the real wind regression of an episode, draws from every key fixed but arbitrary, place, pressure and time free: what they answer depends on the key of their last reset alone, whether they are new, reused after other keys and queries, or one of several in the process."""
  import hashlib
  from checks import wind_field as wfc
  H.script_rng()

  def draw(name):
    n = name.rsplit('|', 1)[0].split('|')
    h = int(hashlib.sha256('|'.join(n).encode()).hexdigest(), 16)
    return (h % 1024) / 1024.0 if 'uniform' in name else h % 10**6
  H.fixed_draw = draw
  wfc.Simplex(H)
  m = H.load('env.simplex_wind_noise')
  H.patch(m, 'opensimplex', H.lib('opensimplex'))
  wf, u = H.load('env.wind_field'), H.load('utils.units')
  sa = H.load('env.balloon.standard_atmosphere')
  t0 = H.dt.datetime(2013, 3, 25, tzinfo=H.dt.timezone.utc)
  q = wfc.point(H, u)
  h = H.real('height', -600.0, 16900.0)
  gp = H.load('env.wind_gp')
  V, z, dt = u.Velocity, u.Distance(m=0.0), H.dt.timedelta
  w = H.real('measured', -30.0, 30.0)

  class Calm:

    def get_forecast(self, x, y, pressure, elapsed_time):
      return wf.WindVector(V(mps=0.0), V(mps=0.0))

    def get_forecast_column(self, x, y, pressures, elapsed_time):
      return [self.get_forecast(x, y, p, elapsed_time) for p in pressures]

  class Part:

    def __init__(self, key):
      self.field = wf.SimpleStaticWindField()
      self.atm = sa.Atmosphere(H.key(key))
      self.field.reset(H.key(key), t0)
      self.gp, self.measured = gp.WindGP(Calm()), False

    def reset(self, key):
      self.field.reset(H.key(key), t0)
      self.atm.reset(H.key(key))
      self.gp.reset(Calm())
      self.measured = False

    def ask(self):
      n = self.field.get_ground_truth(*q)
      a = self.atm.at_height(u.Distance(m=h))
      return [n.u.mps, n.v.mps, a.temperature,
              self.atm.at_height(u.Distance(m=18000.0)).pressure,
              self.atm.at_pressure(9000.0).height.m] + self.predict()

    def predict(self):
      """The predicted wind with one measurement of this one's own."""
      if not self.measured:
        self.measured = True
        self.gp.observe(z, z, 9000.0, dt(hours=1), wf.WindVector(V(mps=w), V(
            mps=1.0)))
      (a, b), c = self.gp.query(z, z, 9100.0, dt(hours=2))
      return [a, b, c]
  names = ('wind u', 'wind v', 'temperature', 'pressure', 'height',
           'predicted u', 'predicted v', 'uncertainty')

  def agree(label, a, b):
    for n, x, y in zip(names, a, b):
      H.eq(f'{label}: {n}', x, y, 1e-12)
  one = Part(5)
  first = one.ask()
  two = Part(6)
  second = two.ask()
  agree('another one in the process', one.ask(), first)
  agree('a third of the same seed', Part(5).ask(), first)
  two.reset(5)
  agree('reset', two.ask(), first)
  two.reset(6)
  agree('reset back', two.ask(), second)


def obligations(tier):
  n = 2 if tier == 'quick' else 3
  return [Ob('fresh', fresh, dict(n=n)), Ob('history', history, dict(n=n)),
          Ob('interleaved', interleaved, dict(n=n)),
          Ob('seeds_differ', seeds_differ), Ob('layers', layers),
          Ob('parts', parts),
          Ob('env', env)]
