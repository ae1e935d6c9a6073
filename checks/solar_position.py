"""Sun position: the NOAA algorithm over places and times."""
import datetime
import math
from vx.api import Ob

# (year, month, day, julian day number at 0h UTC)
DAYS = [(2013, 3, 25, 2456376.5), (2011, 1, 1, 2455562.5),
        (2014, 7, 2, 2456840.5), (2012, 2, 29, 2455986.5),
        (2013, 12, 31, 2456657.5), (2012, 10, 15, 2456215.5),
        (2011, 6, 21, 2455733.5)]


def noaa(H, lat, lng_deg, day, sec):
  """(elevation, azimuth or None, flux) after NOAA's solar calculator."""
  m = H.math
  r = math.pi / 180.0

  def rad(x):
    return x * r

  frac = sec / 86400
  T = (day[3] + frac - 2451545.0) / 36525.0
  L0 = rad(280.46646 + T * (36000.76983 + T * 0.0003032))
  M = rad(357.52911 + T * (35999.05029 - 0.0001537 * T))
  e = 0.016708634 - T * (0.000042037 + 0.0000001267 * T)
  omega = rad(125.04 - 1934.136 * T)
  eps = rad(23.0 + (26.0 + (21.448 - T * (46.815 + T * (
      0.00059 - T * 0.001813))) / 60.0) / 60.0) + rad(0.00256 * m.cos(omega))
  y = m.tan(eps / 2.0)**2
  eot = 4.0 / r * (y * m.sin(2.0 * L0) - 2.0 * e * m.sin(M) +
                   4.0 * e * y * m.sin(M) * m.cos(2.0 * L0) -
                   0.5 * y * y * m.sin(4.0 * L0) -
                   1.25 * e * e * m.sin(2.0 * M))  # minutes
  C = rad(m.sin(M) * (1.914602 - T * (0.004817 + 0.000014 * T)) +
          m.sin(2.0 * M) * (0.019993 - 0.000101 * T) +
          m.sin(3.0 * M) * 0.000289)
  lam = L0 + C - rad(0.00569 - 0.00478 * m.sin(omega))
  dec = m.asin(m.sin(eps) * m.sin(lam))
  tst = m.fmod(1440.0 * frac + eot + 4.0 * lng_deg, 1440.0)  # true solar time
  ha = rad(tst) / 4.0
  ha = ha + math.pi if ha < 0 else ha - math.pi
  cz = m.sin(lat) * m.sin(dec) + m.cos(lat) * m.cos(dec) * m.cos(ha)
  # excludes only a sun within 0.03 degrees of the zenith or nadir
  H.assume(H.between_(cz, -1 + 1e-7, 1 - 1e-7))
  zen = m.acos(cz)
  el = 90.0 - zen * (180.0 / math.pi)
  flux = 1366.0 * (1 + 0.5 * (((1 + e) / (1 - e))**2 - 1) * m.cos(M))
  return el, flux, ha, zen, dec


def refraction(H, el):
  if el > 85.0:
    return 0.0
  if el > 5.0:
    t = H.math.tan(el * (math.pi / 180.0))
    return 58.1 / t - 0.07 / t**3 + 0.000086 / t**5
  if el > -0.575:
    return 1735.0 + el * (-518.2 + el * (103.4 + el * (-12.79 + el * 0.711)))
  return -20.772 / H.math.tan(el * (math.pi / 180.0))


def compare(H, lat, lng, day, sec, zone=0):
  solar = H.load('env.balloon.solar')
  s2 = H.lib('s2sphere')
  dt = H.dt
  y, mo, d, _ = day
  H.merge_rounding()
  # the hours and minutes of day a clock `zone` minutes east of UTC shows
  when = dt.datetime(y, mo, d, tzinfo=datetime.timezone(
      datetime.timedelta(minutes=zone))) + dt.timedelta(
          seconds=sec + 60 * zone)
  where = s2.LatLng.from_degrees(lat, lng)
  if H.is_symbolic:
    when.year
  el, flux, ha, zen, dec = noaa(H, where.lat().radians, where.lng().degrees,
                                day, sec)
  H.assume(H.between_(zen, 1e-3, math.pi - 1e-3))
  for t in (85.0, 5.0, -0.575):
    H.assume(H.abs(el - t) > 1e-6)
  got = solar.solar_calculator(where, when)
  H.eq('elevation', got[0], el + refraction(H, el) / 3600.0, 1e-6)
  H.eq('flux', got[2], flux, 1e-6)
  return got, el, ha, zen, dec, where


def anywhere(H, day, lo, hi):
  """A fixed day; the second, the latitude and the longitude all free."""
  sec = H.int('sec', lo, hi)
  got, el, ha, zen, dec, where = compare(
      H, H.real('lat', -89.9, 89.9), H.real('lng', -179.9, 179.9), day, sec)
  H.assume(H.abs(ha) > 1e-4)
  H.eq('azimuth', got[1], true_azimuth(H, ha, zen, dec, where), 1e-5)


def true_azimuth(H, ha, zen, dec, where):
  m = H.math
  phi = where.lat().radians
  c = ((m.sin(phi) * m.cos(zen) - m.sin(dec)) / (m.cos(phi) * m.sin(zen)))
  a = m.acos(H.max(-1.0, H.min(1.0, c))) * (180.0 / math.pi)
  return a + 180.0 if ha > 0 else 180.0 - a


def memory(H):
  """Two places and two instants: after the same place was asked for five other times, and other places for this time, the answer is still that of this place and time."""
  solar = H.load('env.balloon.solar')
  s2 = H.lib('s2sphere')
  dt = H.dt
  la, ln = H.choice('place', [(5.0, 11.0), (-7.5, -120.25)])
  day = DAYS[0]
  sec = H.choice('second', [9 * 3600 + 25 * 60 + 30, 70001])
  t = dt.datetime(*day[:3], tzinfo=dt.timezone.utc) + dt.timedelta(seconds=sec)
  for d in (dt.timedelta(seconds=20), dt.timedelta(minutes=7),
            dt.timedelta(hours=3), dt.timedelta(days=1),
            dt.timedelta(days=365)):
    solar.solar_calculator(s2.LatLng.from_degrees(la, ln), t + d)
  for a, b in ((la, ln + 0.004), (la, ln + 0.3), (la + 0.004, ln),
               (la + 0.3, ln), (-la, ln), (la, -ln)):
    solar.solar_calculator(s2.LatLng.from_degrees(a, b), t)
  got, el, ha, zen, dec, where = compare(H, la, ln, day, sec)
  H.eq('azimuth', got[1], true_azimuth(H, ha, zen, dec, where), 1e-5)


ASIDE = ['20 s', '7 min', '3 h', '1 d', '31 d', '365 d', '366 d', '1461 d',
         'east 0.004', 'east 0.3', 'east 90', 'north 0.004', 'north 0.3', 'south',
         'west', 'pole', 'east 90', '9 min']


def aside(H):
  """As `memory`, asked just one other question first: another second, hour, day, month or year (the same day of another year too) at the same place, or another place at the same time."""
  solar = H.load('env.balloon.solar')
  s2 = H.lib('s2sphere')
  dt = H.dt
  la, ln, day, sec = 5.0, 11.0, DAYS[0], 9 * 3600 + 25 * 60 + 30
  t = dt.datetime(*day[:3], tzinfo=dt.timezone.utc) + dt.timedelta(seconds=sec)
  what = H.choice('what', ASIDE)
  a = dict(south=(-la, ln), west=(la, -ln), pole=(80.0, ln)).get(what, (la, ln))
  w = what.split()
  if w[0] in ('east', 'north'):
    k = float(w[1])
    a = (la, ln + k) if w[0] == 'east' else (la + k, ln)
  elif len(w) == 2:
    k = float(w[0])
    t = t + dict(s=dt.timedelta(seconds=k), min=dt.timedelta(minutes=k),
                 h=dt.timedelta(hours=k), d=dt.timedelta(days=k))[w[1]]
  solar.solar_calculator(s2.LatLng.from_degrees(*a), t)
  got, el, ha, zen, dec, where = compare(H, la, ln, day, sec)
  H.eq('azimuth', got[1], true_azimuth(H, ha, zen, dec, where), 1e-5)


def zones(H, day, minutes):
  """An instant named in another time zone is the same instant: second, latitude and longitude free."""
  sec = H.int('sec', 0, 86399)
  got, el, ha, zen, dec, where = compare(
      H, H.real('lat', -89.9, 89.9), H.real('lng', -179.9, 179.9), day, sec,
      minutes)
  H.assume(H.abs(ha) > 1e-4)
  H.eq('azimuth', got[1], true_azimuth(H, ha, zen, dec, where), 1e-5)


def corners(H, day, lat):
  """A latitude; the longitude, the day and the time from a grid."""
  sec = H.choice('second', [0, 21600 + 17, 43200, 64800 - 301, 86399])
  lng = H.choice('lng', [-179.5, -120.25, -60.0, -0.5, 0.0, 45.75, 90.0, 171.0])
  got, el, ha, zen, dec, where = compare(H, lat, lng, day, sec)
  H.assume(H.abs(ha) > 1e-4)
  H.eq('azimuth', got[1], true_azimuth(H, ha, zen, dec, where), 1e-5)


def azimuth(H, day, sec, lat, lng):
  """A fixed instant and longitude free: azimuth in [0, 360], afternoon sun in the west, and the spherical-triangle law."""
  m = H.math
  la = H.real('lat', *lat) if isinstance(lat, tuple) else lat
  ln = H.real('lng', *lng) if isinstance(lng, tuple) else lng
  solar = H.load('env.balloon.solar')
  s2 = H.lib('s2sphere')
  dt = H.dt
  y, mo, d, _ = DAYS[day]
  where = s2.LatLng.from_degrees(la, ln)
  _, _, ha, zen, dec = noaa(H, where.lat().radians, where.lng().degrees,
                            DAYS[day], sec)
  H.assume(H.abs(ha) > 1e-4)
  H.assume(H.abs(ha) < math.pi - 1e-4)
  H.assume(H.between_(zen, 1e-2, math.pi - 1e-2))
  for t in (85.0, 5.0, -0.575):
    H.assume(H.abs(90.0 - zen * (180.0 / math.pi) - t) > 1e-6)
  got = solar.solar_calculator(where, dt.datetime(
      y, mo, d, tzinfo=dt.timezone.utc) + dt.timedelta(seconds=sec))
  az = got[1]
  H.between('azimuth range', az, 0.0, 360.0, 1e-9)
  H.check('sun in the west after noon, in the east before',
          H.ite(ha > 0, az >= 180.0 - 1e-6, az <= 180.0 + 1e-6))


def rejects(H):
  """Naive datetimes and invalid positions (latitude free in [-1000, 1000] deg) are refused."""
  solar = H.load('env.balloon.solar')
  s2 = H.lib('s2sphere')
  dt = H.dt
  lat = H.real('lat', -1000.0, 1000.0)
  H.assume(H.abs(lat) > 90.001)
  t = dt.datetime(2013, 3, 25, tzinfo=dt.timezone.utc)
  ok, r = H.attempt(solar.solar_calculator, s2.LatLng.from_degrees(lat, 0.0),
                    t)
  H.check('invalid latitude refused', (not ok) and isinstance(r, ValueError))
  ok, r = H.attempt(solar.solar_calculator, s2.LatLng.from_degrees(1.0, 2.0),
                    dt.datetime(2013, 3, 25))
  H.check('naive time refused', (not ok) and isinstance(r, ValueError))


def obligations(tier):
  obs = [Ob('rejects', rejects), Ob('memory', memory), Ob('aside', aside),
         Ob('zones_0', zones, dict(day=DAYS[0], minutes=-720), branch_ms=60),
         Ob('zones_4', zones, dict(day=DAYS[4], minutes=840), branch_ms=60)]
  for d, s in ((0, 43200), (2, 30000), (4, 80000)):
    obs.append(Ob(f'azimuth_{d}_{s}', azimuth, dict(
        day=d, sec=s, lat=5.0, lng=(-175.0, 175.0))))
  for lat in (-62.0, -9.5, 0.0, 4.25, 51.0):
    for day in (DAYS[0], DAYS[6]):
      obs.append(Ob('corners_%g_%d' % (lat, day[1]), corners, dict(
          day=day, lat=lat)))
  days = list(DAYS)
  if tier == 'thorough':
    d0 = datetime.date(2011, 1, 1)
    for i in range(0, 1461, 9):  # every ninth day of 2011-2014
      d = d0 + datetime.timedelta(days=i)
      days.append((d.year, d.month, d.day, d.toordinal() + 1721424.5))
  for day in days:
    obs.append(Ob('anywhere_%d_%d_%d' % day[:3], anywhere, dict(
        day=day, lo=0, hi=86399), branch_ms=60))
  return obs
