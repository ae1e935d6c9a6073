"""A real BalloonArena over stub wind, features and atmosphere."""
from checks import balloon_common as bc


class Fc:
  """Feature constructor that records what it observes."""

  def __init__(self, H, forecast, atmosphere, log):
    self.H, self.forecast, self.atmosphere, self.log = (
        H, forecast, atmosphere, log)
    self.n = 0

  def observe(self, observation):
    b = observation.balloon_observation
    self.n += 1
    self.log.append(('observe', self, dict(
        x=b.x.m, y=b.y.m, pressure=b.pressure, t=b.time_elapsed,
        u=observation.wind_at_balloon.u.mps,
        v=observation.wind_at_balloon.v.mps, state=b)))

  def get_features(self):
    self.log.append(('features', self))
    return self.H.np.array([float(self.n), 7.0])

  @property
  def observation_space(self):
    return None


class Setup:
  """Builds arenas; random draws are free unless `draws` fixes them."""

  def __init__(self, H, el=20.0, sampling=True, cold=False, world=True):
    self.H = H
    self.w = bc.World(H, el=el) if world else None
    self.arena_m = H.load('env.balloon_arena')
    self.wf_m = H.load('env.wind_field')
    self.u = H.load('utils.units')
    self.sa = H.load('env.balloon.standard_atmosphere')
    self.stable = H.load('env.balloon.stable_init')
    self.sampling = H.load('utils.sampling')
    self.log = []
    self.cold_calls = []
    self.ir_keys = []
    outer = self

    class Atmosphere:
      """Arbitrary atmosphere; remembers the keys it was drawn from."""

      def __init__(self, key):
        self.keys = [str(key)]

      def reset(self, key):
        self.keys.append(str(key))
        outer.log.append(('atmosphere', self, str(key)))

      def at_height(self, height):
        return H.ns(pressure=11300.0, height=height, temperature=206.0)

      def at_pressure(self, pressure):
        return H.ns(height=outer.u.Distance(m=30000.0 - pressure * 1.5),
                    temperature=206.0, pressure=pressure, density=0.1)
    self.Atmosphere = Atmosphere
    H.patch(self.sa, 'Atmosphere', Atmosphere)
    if not cold:
      H.patch(self.stable, 'cold_start_to_stable_params', self._cold)
    self.ir = 250.0
    H.patch(self.sampling, 'sample_upwelling_infrared', self._ir)
    if sampling:
      t0 = self.w.t0
      H.patch(self.sampling, 'sample_location', lambda key: H.lib(
          's2sphere').LatLng.from_degrees(1.0, 2.0))
      H.patch(self.sampling, 'sample_pressure', lambda key, atmosphere=None: 8000.0)
      H.patch(self.sampling, 'sample_time',
              lambda key, begin_range=None, end_range=None: t0)

  def _cold(self, balloon_state, atmosphere):
    self.cold_calls.append((balloon_state, atmosphere))
    balloon_state.superpressure = 1200.0
    balloon_state.envelope_volume = 1825.0
    balloon_state.mols_air = 1500.0
    balloon_state.internal_temperature = 210.0

  def _ir(self, key, distribution_type='logit_normal'):
    self.ir_keys.append(str(key))
    return self.ir

  def wind(self, name='w'):
    """Ground truth wind: an arbitrary function of place and time."""
    H, wf, V, log = self.H, self.wf_m, self.u.Velocity, self.log

    class Wind(wf.WindField):

      def __init__(self):
        self.keys = []

      def reset(self, key, date_time):
        self.keys.append((str(key), date_time))
        log.append(('wind_reset', self, str(key), date_time))

      def reset_forecast(self, key, date_time):
        raise AssertionError('reset() resets noise and forecast')

      def get_forecast(self, x, y, pressure, elapsed_time):
        return wf.WindVector(V(mps=0.0), V(mps=0.0))

      def get_ground_truth(self, x, y, pressure, elapsed_time):
        a = [x.m, y.m, pressure, elapsed_time.total_seconds()]
        return wf.WindVector(V(mps=H.uf(name + 'u', a, -80.0, 80.0)),
                             V(mps=H.uf(name + 'v', a, -80.0, 80.0)))
    return Wind()

  def factory(self, wind_field, atmosphere):
    f = Fc(self.H, wind_field, atmosphere, self.log)
    self.log.append(('new', f))
    return f

  def arena(self, seed=5, wind=None):
    return self.arena_m.BalloonArena(self.factory,
                                     self.wind() if wind is None else wind,
                                     seed)
