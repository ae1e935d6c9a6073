"""Shared set-up for harnesses that step the real Balloon."""

R_GAS, M_AIR, M_HE, G = 8.3144621, 0.028964922481160, 0.004002602, 9.80665
UP, STAY, DOWN = 2, 1, 0
MIN_EL = -4.242


class World:
  """The balloon's environment: arbitrary but deterministic functions."""

  def __init__(self, H, el='el', flux=1366.0, height='affine'):
    self.H = H
    self.B = H.load('env.balloon.balloon')
    self.units = H.load('utils.units')
    self.control = H.load('env.balloon.control')
    self.solar = H.load('env.balloon.solar')
    self.thermal = H.load('env.balloon.thermal')
    self.sphere = H.load('utils.spherical_geometry')
    self.s2 = H.lib('s2sphere')
    self.dt = H.dt
    self.C = self.control.AltitudeControlCommand
    self.t0 = self.dt.datetime(2013, 3, 25, 9, 25, 32,
                               tzinfo=self.dt.timezone.utc)
    self.sun_calls = []
    self.el, self.flux = el, flux
    self.height = height
    t0, dt = self.t0, self.dt

    def at_offset(center_latlng, x, y):
      return H.ns(x=x, y=y, center=center_latlng)

    def sun(latlng, time):
      where, when = latlng, time
      e = self.el
      if e == 'el':
        e = H.uf('el', [where.x.m, where.y.m, (when - t0).total_seconds()],
                 -90.0, 90.0)
      self.sun_calls.append((where, when, e))
      return e, 180.0, self.flux
    H.patch(self.sphere, 'calculate_latlng_from_offset', at_offset)
    H.patch(self.solar, 'solar_calculator', sun)
    H.patch(self.solar, 'get_next_sunrise_sunset',
            lambda latlng, time, time_delta=None: (
                t0 + dt.timedelta(hours=20), t0 + dt.timedelta(hours=8)))

  def stub_power(self):
    H = self.H
    H.patch(self.solar, 'solar_power', lambda el_deg, pressure_altitude_pa: (
        self.units.Power(watts=H.uf('solar_power', [
            el_deg, pressure_altitude_pa], 0.0, 1260.0))))

  def stub_thermal(self):
    H = self.H

    def d(balloon_volume, balloon_mass, balloon_temperature_k,
          ambient_temperature_k, pressure_altitude_pa, solar_elevation_deg,
          solar_flux, earth_flux):
      return H.uf('dT', [
          balloon_volume, balloon_mass, balloon_temperature_k,
          ambient_temperature_k, pressure_altitude_pa, solar_elevation_deg,
          solar_flux, earth_flux], -1.0, 1.0)
    H.patch(self.thermal, 'd_balloon_temperature_dt', d)

  def fixed_thermal(self):
    self.H.patch(self.thermal, 'd_balloon_temperature_dt',
                 lambda balloon_volume, balloon_mass, balloon_temperature_k,
                 ambient_temperature_k, pressure_altitude_pa,
                 solar_elevation_deg, solar_flux, earth_flux: (
                     ambient_temperature_k - balloon_temperature_k) * 0.001)

  def atmosphere(self):
    H, units = self.H, self.units

    def at_pressure(pressure):
      p = pressure
      if self.height == 'affine':
        h, t = 30000.0 - p * 1.5, 206.0
      else:
        h = H.uf('height', [p], -600.0, 80000.0)
        t = H.uf('temp', [p], 150.0, 330.0)
      return H.ns(height=units.Distance(m=h), temperature=t, pressure=p,
                  density=0.1)
    return H.ns(at_pressure=at_pressure)

  def wind(self, u=0.0, v=0.0):
    wf = self.H.load('env.wind_field')
    V = self.units.Velocity
    return wf.WindVector(V(mps=u), V(mps=v))

  def state(self, **k):
    """A state in flight; keyword values override (plain numbers)."""
    u = self.units
    wrap = dict(x=lambda v: u.Distance(m=v), y=lambda v: u.Distance(m=v),
                battery_charge=lambda v: u.Energy(watt_hours=v),
                battery_capacity=lambda v: u.Energy(watt_hours=v),
                nighttime_power_load=lambda v: u.Power(watts=v),
                daytime_power_load=lambda v: u.Power(watts=v),
                power_load=lambda v: u.Power(watts=v),
                solar_charging=lambda v: u.Power(watts=v),
                acs_power=lambda v: u.Power(watts=v),
                acs_valve_hole_diameter=lambda v: u.Distance(m=v))
    # every number differs from the defaults and from every other, so that
    # reading the wrong one shows
    d = dict(superpressure=1200.0, envelope_volume=1825.0, pressure=7000.0,
             mols_air=1500.0, internal_temperature=210.0,
             ambient_temperature=207.0, power_load=313.0, solar_charging=555.0,
             acs_power=41.0, acs_mass_flow=0.011, upwelling_infrared=251.5,
             nighttime_power_load=190.0, daytime_power_load=125.0,
             battery_capacity=3058.56, battery_charge=2900.0,
             power_safety_layer_enabled=False)
    d.update(k)
    d = {n: (wrap[n](v) if n in wrap else v) for n, v in d.items()}
    s = self.B.BalloonState(
        center_latlng=self.s2.LatLng.from_degrees(0.0, 0.0),
        date_time=self.t0, **d)
    return s

  def no_layers(self, s):
    ns = self.H.ns
    s.envelope_safety_layer = ns(get_action=lambda action, superpressure: action,
                                 navigation_is_paused=False)
    s.altitude_safety_layer = ns(get_action=lambda action, atmosphere, pressure: action,
                                 navigation_is_paused=False)
    return s


def snap(s):
  """Observable numbers of a state."""
  return dict(
      x=s.x.m, y=s.y.m, pressure=s.pressure,
      ambient_temperature=s.ambient_temperature,
      internal_temperature=s.internal_temperature,
      envelope_volume=s.envelope_volume, superpressure=s.superpressure,
      mols_lift_gas=s.mols_lift_gas, mols_air=s.mols_air,
      acs_power=s.acs_power.watts, acs_mass_flow=s.acs_mass_flow,
      solar_charging=s.solar_charging.watts, power_load=s.power_load.watts,
      battery_charge=s.battery_charge.watt_hours, status=s.status.name,
      date_time=s.date_time, time_elapsed=s.time_elapsed.total_seconds())


CONSTANT = ('envelope_volume_base', 'envelope_volume_dv_pressure',
            'envelope_mass', 'envelope_max_superpressure', 'envelope_cod',
            'payload_mass', 'mols_lift_gas', 'upwelling_infrared')
CONSTANT_UNITS = (('nighttime_power_load', 'watts'),
                  ('daytime_power_load', 'watts'),
                  ('battery_capacity', 'watt_hours'),
                  ('acs_valve_hole_diameter', 'm'))


def consts(s):
  d = {n: getattr(s, n) for n in CONSTANT}
  for n, u in CONSTANT_UNITS:
    d[n] = getattr(getattr(s, n), u)
  return d
