"""Next noon, midnight, sunrise and sunset under any well-behaved sun."""
import math
from vx.api import Ob

HORIZON = -4.242


class Sun:
  """A sun that sinks strictly from noon to midnight and mirrors it back."""

  def __init__(self, H, away, shape, hours, sinusoid):
    """away: seconds from the previous noon to now."""
    self.H = H
    self.solar = H.load('env.balloon.solar')
    self.s2 = H.lib('s2sphere')
    dt = self.dt = H.dt
    self.now = dt.datetime(2013, 3, 25, 9, 25, 30, tzinfo=dt.timezone.utc)
    self.away = away
    self.places = []
    if sinusoid:
      mean = H.real('mean', -40.0, 40.0)
      swing = H.real('swing', 10.0, 90.0)
      H.assume(mean + swing > HORIZON + 0.01)
      H.assume(mean - swing < HORIZON - 0.01)
      self.g = lambda s: mean + swing * math.cos(math.pi * s / 43200.0)
    else:
      top = H.real('top', HORIZON + 0.001, 90.0)
      drops = [H.real(f'drop{k}', 0.01, 40.0) for k in range(shape)]
      e = [top]
      for d in drops:
        e.append(e[-1] - d)
      H.assume(e[-1] < HORIZON - 0.001)
      node = 43200.0 / shape

      def g(s):
        k = min(int(s / node), shape - 1)
        f = (s - k * node) / node
        return e[k] * (1 - f) + e[k + 1] * f
      self.g = g
    self.step = dt.timedelta(hours=hours)
    where = self.where = self.s2.LatLng.from_degrees(12.25, -50.5)

    def sun(latlng, time):
      self.places.append(latlng)
      return self.at((time - self.now).total_seconds()), 180.0, 1366.0
    H.patch(self.solar, 'solar_calculator', sun)
    # day and night last more than four steps
    H.assume(self.g(hours * 7200.0) > HORIZON + 0.001)
    H.assume(self.g(43200.0 - hours * 7200.0) < HORIZON - 0.001)
    for k in range(-1, 26):  # no sample falls exactly on the horizon
      H.assume(H.abs(self.at(k * hours * 3600.0) - HORIZON) > 1e-7)

  def at(self, s):
    """Elevation s seconds from now."""
    off = (self.away + s) % 86400.0
    return self.g(min(off, 86400.0 - off))

  def since(self, when):
    return (when - self.now).total_seconds()


def extremes(H, away, shape, hours, sinusoid=False):
  """Next solar noon and midnight."""
  u = Sun(H, away, shape, hours, sinusoid)
  step = hours * 3600.0
  for name, find, ahead in (
      ('noon', u.solar.get_next_solar_noon, 86400.0 - away),
      ('midnight', u.solar.get_next_solar_midnight,
       (43200.0 - away) % 86400.0)):
    when, el = find(u.where, u.now, u.step)
    s = u.since(when)
    H.check(f'{name} within one step', abs(s - ahead) <= step + 1e-6)
    H.eq(f'elevation at {name}', el, u.at(s), 1e-7)
  afternoon = away < 43200.0
  H.check('afternoon iff midnight comes first',
          bool(u.solar.is_solar_afternoon(u.where, u.now)) == afternoon)
  H.check('the sun of this place', all(p is u.where for p in u.places))


def rises(H, away, shape, hours, sinusoid=False):
  """Next sunrise and sunset, and the steps to sunrise."""
  u = Sun(H, away, shape, hours, sinusoid)
  step = hours * 3600.0
  up, down = u.solar.get_next_sunrise_sunset(u.where, u.now, u.step)
  for name, when, sign in (('sunrise', up, 1.0), ('sunset', down, -1.0)):
    s = u.since(when)
    H.check(f'{name} is ahead, within a day', 0 <= s <= 86400.0 + step)
    H.le(f'{name}: dark on one side', sign * (u.at(s - step) - HORIZON), 0.0)
    H.le(f'{name}: light on the other', sign * (HORIZON - u.at(s + step)), 0.0)
  steps = u.solar.calculate_steps_to_sunrise(u.where, u.now, u.step)
  if u.at(0.0) >= HORIZON:
    H.check('no steps by day', steps == 0)
  else:
    n = int(steps)
    H.check('steps are a number of steps within a day',
            n == steps and 0 <= n * step <= 86400.0 + step)
    H.check('steps: first step from which sunrise is over', math.ceil(
        u.since(up) / step - 1e-9) == n)
  H.check('the sun of this place', all(p is u.where for p in u.places))


def places(H):
  """Three questions in a row under a sun that depends on time and longitude (sinusoids of several means and swings): the same place twice, and two places (or two times, or two resolutions) in any order: every answer is the one for the place, time and resolution asked for."""
  solar = H.load('env.balloon.solar')
  s2 = H.lib('s2sphere')
  dt = H.dt
  now = dt.datetime(2013, 3, 25, 9, 25, 30, tzinfo=dt.timezone.utc)
  swing = H.choice('swing', [20.0, 45.0, 80.0])
  mean = H.choice('mean', [-3.0, 8.0])

  def at(lng, s):  # solar noon of longitude 0 at 12:00
    noon = (2.5 * 3600 + 270.0) - lng * 240.0  # seconds from now
    return mean + swing * math.cos(2 * math.pi * (s - noon) / 86400.0)

  def sun(latlng, time):
    return at(latlng.lng().degrees, (time - now).total_seconds()), 180., 1366.
  H.patch(solar, 'solar_calculator', sun)
  one = (5.0, 10.0, 0.0, 0.05)
  other = dict(lng=(5.0, 100.0, 0.0, 0.05), near=(5.0, 14.0, 0.0, 0.05),
               later=(5.0, 10.0, 3600.0, 0.05), day=(5.0, 10.0, 86400.0, 0.05),
               coarse=(5.0, 10.0, 0.0, 1.0))[H.choice('other', [
                   'lng', 'near', 'later', 'day', 'coarse'])]
  order = [other, one, other] if H.flag('other first') else [one, one, other]
  for la, ln, late, hours in order:
    p, t = s2.LatLng.from_degrees(la, ln), now + dt.timedelta(seconds=late)
    step = dt.timedelta(hours=hours)
    up, down = solar.get_next_sunrise_sunset(p, t, step)
    for name, when, sign in (('sunrise', up, 1.0), ('sunset', down, -1.0)):
      s, k = (when - now).total_seconds(), hours * 3600.0
      H.check(f'{name} is ahead, within a day', -1e-6 <= s - late <= 86400 + k)
      H.le(f'{name}: dark on one side', sign * (at(ln, s - k) - HORIZON), 0.0)
      H.le(f'{name}: light on the other', sign * (HORIZON - at(ln, s + k)), 0.0)
    for name, find, top in (('noon', solar.get_next_solar_noon, 1.0),
                            ('midnight', solar.get_next_solar_midnight, -1.0)):
      when, el = find(p, t, step)
      s = (when - now).total_seconds()
      H.eq(f'elevation at {name}', el, at(ln, s), 1e-9)
      H.check(f'{name} ahead', -hours * 3600.0 <= s - late <= (
          24 + hours) * 3600.0)
      H.le(f'{name} within a step', top * (mean - el) + swing * math.cos(
          2 * math.pi * hours / 24.0), 0.0, 1e-6)


def high_latitudes(H):
  """Latitudes of 60 degrees and more (free in 60..90) are refused."""
  u = Sun(H, 3600.0 * 5, 4, 1.0, False)
  lat = H.real('lat', -90.0, 90.0)
  H.assume(H.abs(H.abs(lat) - 60.0) > 1e-6)
  where = u.s2.LatLng.from_degrees(lat, 3.0)
  ok, r = H.attempt(u.solar.get_next_sunrise_sunset, where, u.now, u.step)
  if H.abs(lat) > 60.0:
    H.check('refused', (not ok) and isinstance(r, AssertionError))
  else:
    H.check('accepted', ok)


def obligations(tier):
  obs = [Ob('high_latitudes', high_latitudes), Ob('places', places)]
  thorough = tier == 'thorough'
  # fully free shapes on a coarse search grid
  hours = 0.5 if thorough else 1.0
  for i in range(48 if thorough else 8):
    away = i * (1800.0 if thorough else 10800.0) + 612.0 + 95.0 * (i % 7)
    kw = dict(away=away, shape=24 if thorough else 12, hours=hours)
    obs.append(Ob(f'extremes_free_{i}', extremes, kw))
    obs.append(Ob(f'rises_free_{i}', rises, kw))
  # sinusoids of free mean and swing at the default resolution
  for i in range(24 if thorough else 4):
    away = i * (3600.0 if thorough else 21600.0) + 1000.0 + 77.0 * (i % 5)
    kw = dict(away=away, shape=0, hours=0.05, sinusoid=True)
    obs.append(Ob(f'extremes_sine_{i}', extremes, kw))
    obs.append(Ob(f'rises_sine_{i}', rises, kw))
  return obs
