"""Great-circle offsets from the station."""
import copy
import math
from vx.api import Ob

R = 6371000.0


def offset(H, far):
  """Station anywhere (latitude free in [-85, 85], longitude in [-179, 179]), offset free within a box of up to `far` km per axis: the destination formula for bearing atan2(east, north) and central angle |(x, y)| / Earth radius."""
  g = H.load('utils.spherical_geometry')
  u = H.load('utils.units')
  s2 = H.lib('s2sphere')
  H.merge_rounding()
  m = H.math
  # normalisation of the result is decided by `wrap` and `range`
  H.patch(s2.LatLng, 'normalized', lambda self: self)
  x, y = H.reals('xy', 2, -far, far)
  H.assume(H.abs(x) + H.abs(y) > 1e-3)
  la, ln = H.real('lat', -85.0, 85.0), H.real('lng', -179.0, 179.0)
  c = s2.LatLng.from_degrees(la, ln)
  X, Y = u.Distance(km=x), u.Distance(km=y)
  bearing = m.atan2(x, y)
  ang = u.relative_distance(X, Y).km / 6371.0
  phi = c.lat().radians
  sin2 = (m.sin(phi) * m.cos(ang) +
          m.cos(phi) * m.sin(ang) * m.cos(bearing))
  H.assume(H.between_(sin2, -1 + 1e-9, 1 - 1e-9))
  lat2 = m.asin(sin2)
  dl = m.atan2(m.sin(bearing) * m.sin(ang) * m.cos(phi),
               m.cos(ang) - m.sin(phi) * sin2)
  p = g.calculate_latlng_from_offset(c, X, Y)
  H.eq('latitude', p.lat().radians, lat2, 1e-7)
  H.eq('longitude', p.lng().radians, c.lng().radians + dl, 1e-7)
  H.check('station untouched', H.and_(H.abs(c.lat().degrees - la) < 1e-9,
                                      H.abs(c.lng().degrees - ln) < 1e-9))


def valid(H):
  """Station and offset (5000 km per axis) free, real normalisation: the result is a valid position."""
  g = H.load('utils.spherical_geometry')
  u = H.load('utils.units')
  s2 = H.lib('s2sphere')
  x, y = H.reals('xy', 2, -5000.0, 5000.0)
  la, ln = H.real('lat', -85.0, 85.0), H.real('lng', -180.0, 180.0)
  ok, p = H.attempt(g.calculate_latlng_from_offset,
                    s2.LatLng.from_degrees(la, ln), u.Distance(km=x),
                    u.Distance(km=y))
  # rounding may push sin(latitude) past 1 next to a pole: outside the model
  H.assume(ok)
  H.between('latitude', p.lat().degrees, -90.0, 90.0)
  H.between('longitude', p.lng().degrees, -180.0, 180.0)
  H.check('is_valid', p.is_valid() or H.abs(H.abs(
      p.lng().degrees) - 180.0) < 1e-9)


def still(H):
  """Zero offset, station anywhere (latitude free in [-80, 80], longitude in [-179, 179]): the station itself."""
  g = H.load('utils.spherical_geometry')
  u = H.load('utils.units')
  s2 = H.lib('s2sphere')
  la, ln = H.real('lat', -80.0, 80.0), H.real('lng', -179.0, 179.0)
  c = s2.LatLng.from_degrees(la, ln)
  p = g.calculate_latlng_from_offset(c, u.Distance(m=0.0), u.Distance(m=0.0))
  H.eq('latitude', p.lat().degrees, la, 1e-7)
  H.eq('longitude', p.lng().degrees, ln, 1e-7)


def wrap(H):
  """Eastward drift of 500 km across the date line, latitude free: the longitude stays in (-180, 180]."""
  g = H.load('utils.spherical_geometry')
  u = H.load('utils.units')
  s2 = H.lib('s2sphere')
  ln = H.real('lng', 176.0, 180.0)
  c = s2.LatLng.from_degrees(0.0, ln)
  p = g.calculate_latlng_from_offset(c, u.Distance(km=500.0),
                                     u.Distance(km=0.0))
  H.between('valid', p.lng().degrees, -180.0, 180.0)
  want = ln + 500000.0 / R * 180 / math.pi
  H.eq('wraps', p.lng().degrees, H.ite(want > 180, want - 360, want), 1e-6)


def pickle(H):
  """Positions survive copying, and through pickle's reducer (latitude, longitude free)."""
  g = H.load('utils.spherical_geometry')
  s2 = H.lib('s2sphere')
  la, ln = H.real('lat', -90.0, 90.0), H.real('lng', -180.0, 180.0)
  f, args = g.pickle_latlng(s2.LatLng.from_degrees(la, ln))
  q = f(*args)
  H.eq('latitude', q.lat().degrees, la, 1e-9)
  H.eq('longitude', q.lng().degrees, ln, 1e-9)
  q = copy.copy(s2.LatLng.from_degrees(la, ln))
  H.eq('copied latitude', q.lat().degrees, la, 1e-9)
  H.eq('copied longitude', q.lng().degrees, ln, 1e-9)


def memory(H):
  """Offsets asked in sequence, forwards or backwards, for stations and offsets that differ a little, a lot, or by swapped axes: every answer is the one for what was asked just then."""
  g = H.load('utils.spherical_geometry')
  u = H.load('utils.units')
  s2 = H.lib('s2sphere')
  seq = [(5.0, 11.0, 100.0, 40.0), (5.004, 11.0, 100.0, 40.0),
         (5.0, 11.004, 100.0, 40.0), (5.0, 11.0, 100.4, 40.0),
         (5.0, 11.0, 100.0, 40.4), (5.0, 11.0, 40.0, 100.0),
         (11.0, 5.0, 100.0, 40.0), (5.0, 11.0, -100.0, 40.0),
         (5.0, 11.0, 100.0, -40.0), (-5.0, 11.0, 100.0, 40.0),
         (5.0, -11.0, 100.0, 40.0), (5.0, 11.0, 100.0, 40.0),
         # more than a quarter and more than half of the way round
         (5.0, 11.0, 11000.0, 40.0), (5.0, 11.0, -13000.0, 2500.0),
         (-40.0, 11.0, 300.0, 9000.0), (70.0, 11.0, 100.0, 4000.0)]
  if H.flag('backwards'):
    seq.reverse()
  # a station of a free longitude in between: the answer turns with it
  seq.insert(H.choice('where', [0, 4, 12]),
             (5.0, H.real('lng', -170.0, 170.0), 100.0, 40.0))
  for i, (la, ln, x, y) in enumerate(seq):
    p = g.calculate_latlng_from_offset(
        s2.LatLng.from_degrees(la, ln), u.Distance(km=x), u.Distance(km=y))
    phi, ang, b = math.radians(la), math.hypot(x, y) / 6371.0, math.atan2(x, y)
    lat2 = math.asin(math.sin(phi) * math.cos(ang) +
                     math.cos(phi) * math.sin(ang) * math.cos(b))
    dl = math.atan2(math.sin(b) * math.sin(ang) * math.cos(phi),
                    math.cos(ang) - math.sin(phi) * math.sin(lat2))
    H.eq(f'latitude, question {i}', p.lat().degrees, math.degrees(lat2), 1e-7)
    lng = ln + math.degrees(dl)
    if isinstance(lng, float):  # not free
      lng = (lng + 180.0) % 360.0 - 180.0
    H.eq(f'longitude, question {i}', p.lng().degrees, lng, 1e-7)


def obligations(tier):
  obs = [Ob('still', still), Ob('pickle', pickle), Ob('wrap', wrap),
         Ob('valid', valid, branch_ms=500), Ob('memory', memory)]
  for far in (10.0, 600.0, 5000.0):
    obs.append(Ob(f'offset_{far}', offset, dict(far=far), branch_ms=300))
  return obs
