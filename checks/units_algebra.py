"""Physical quantities: conversions, arithmetic laws, refusal to mix kinds."""
from vx.api import Ob


def distance(H):
  """Two distances and a factor, free in [-1e7, 1e7] m / [-1e3, 1e3]; a duration free in whole microseconds within a year."""
  u = H.load('utils.units')
  D = u.Distance
  a, b = H.reals('d', 2, -1e7, 1e7)
  k = H.real('k', -1e3, 1e3)
  for got, want in ((D(m=a).m, a), (D(meters=a).meters, a),
                    (D(km=a).m, a * 1000), (D(kilometers=a).meters, a * 1000),
                    (D(feet=a).m, a * 0.3048), (D(m=a).km, a / 1000),
                    (D(m=a).kilometers, a / 1000), (D(feet=a).feet, a),
                    (D(m=a).feet, a / 0.3048)):
    H.eq('length conversion', got, want)
  H.eq('parts add up', D(m=a, km=b, feet=k).m, a + 1000 * b + 0.3048 * k)
  x, y = D(m=a), D(m=b)
  H.eq('sum', (x + y).m, a + b)
  H.eq('difference', (x - y).m, a - b)
  H.eq('scaling', (x * k).m, a * k)
  H.eq('scaling from the left', (k * x).m, a * k)
  H.assume(H.abs(k) > 1e-3)
  H.eq('division by a number', (x / k).m, a / k)
  H.assume(H.abs(b) > 1e-3)
  H.eq('ratio', x / y, a / b)
  H.check('order <', H.iff(x < y, a < b))
  H.check('order <=', H.iff(x <= y, a <= b))
  H.check('order >', H.iff(x > y, a > b))
  H.check('order >=', H.iff(x >= y, a >= b))
  H.assume(H.or_(a == b, H.abs(a - b) > 1e-6))
  H.check('equality', H.iff(x == y, a == b))
  H.check('inequality', H.iff(x != y, a != b))
  us = H.int('us', 1, 365 * 86400 * 10**6)
  t = H.dt.timedelta(microseconds=us)
  H.eq('speed', (x / t).mps * (us / 1e6), a, 1e-6)
  H.check('operands untouched', H.and_(x.m == a, y.m == b))


def norm(H):
  """Coordinates free in [-1e7, 1e7] m: relative_distance is the Euclidean norm."""
  u = H.load('utils.units')
  a, b = H.reals('d', 2, -1e7, 1e7)
  r = u.relative_distance(u.Distance(m=a), u.Distance(m=b)).m
  H.check('not negative', r >= 0)
  H.eq('squared norm', r * r, a * a + b * b, 1e-6)
  H.eq('degrees', u.distance_to_degrees(u.Distance(m=a)) * 111000, a)


def velocity(H):
  """Two speeds free in [-1e4, 1e4] m/s and a duration free in whole microseconds within a year."""
  u = H.load('utils.units')
  V = u.Velocity
  a, b = H.reals('v', 2, -1e4, 1e4)
  k = H.real('k', 0.01, 1e3)
  us = H.int('us', 0, 365 * 86400 * 10**6)
  t = H.dt.timedelta(microseconds=us)
  for got, want in ((V(mps=a).mps, a), (V(meters_per_second=a).mps, a),
                    (V(kmph=a).mps, a / 3.6), (V(kilometers_per_hour=a).mps,
                                               a / 3.6),
                    (V(mps=a).kmph, a * 3.6), (V(mps=a).meters_per_second, a),
                    (V(mps=a).kilometers_per_hour, a * 3.6)):
    H.eq('speed conversion', got, want)
  x, y = V(mps=a), V(mps=b)
  H.eq('sum', (x + y).mps, a + b)
  H.eq('difference', (x - y).mps, a - b)
  H.eq('division', (x / k).mps, a / k)
  H.eq('distance travelled', (x * t).m, a * (us / 1e6), 1e-6)
  H.eq('distance travelled (reversed)', (t * x).m, a * (us / 1e6), 1e-6)
  H.assume(H.or_(a == b, H.abs(a - b) > 1e-6))
  H.check('equality', H.iff(x == y, a == b))


def energy_power(H):
  """Two energies/powers free in [-1e6, 1e6], a factor, and a duration free in whole microseconds within a year."""
  u = H.load('utils.units')
  E, P = u.Energy, u.Power
  a, b = H.reals('e', 2, -1e6, 1e6)
  k = H.real('k', -1e3, 1e3)
  us = H.int('us', 0, 365 * 86400 * 10**6)
  t = H.dt.timedelta(microseconds=us)
  x, y = E(watt_hours=a), E(watt_hours=b)
  H.eq('energy sum', (x + y).watt_hours, a + b)
  H.eq('energy difference', (x - y).watt_hours, a - b)
  H.eq('energy scaling', (x * k).watt_hours, a * k)
  H.eq('energy scaling (left)', (k * x).watt_hours, a * k)
  H.check('energy >', H.iff(x > y, a > b))
  H.check('energy <', H.iff(x < y, a < b))
  H.check('energy >=', H.iff(x >= y, a >= b))
  H.check('energy ==', H.iff(x == y, a == b))
  p, q = P(watts=a), P(watts=b)
  H.eq('power sum', (p + q).watts, a + b)
  H.eq('power difference', (p - q).watts, a - b)
  H.check('power >', H.iff(p > q, a > b))
  H.check('power <', H.iff(p < q, a < b))
  H.check('power ==', H.iff(p == q, a == b))
  H.eq('power times time', (p * t).watt_hours, a * (us / 3.6e9), 1e-6)
  H.eq('time times power', (t * p).watt_hours, a * (us / 3.6e9), 1e-6)
  H.eq('hours', u.timedelta_to_hours(t), us / 3.6e9)
  H.eq('seconds to hours', u.seconds_to_hours(a), a / 3600)
  H.assume(H.abs(b) > 1e-3)
  H.eq('energy ratio', x / y, a / b)


def mixing(H):
  """Every binary operator on every pair of different kinds (distance, speed, energy, power, number, duration, none): the dimensionally meaningless ones raise."""
  u = H.load('utils.units')
  a = H.real('a', 1.0, 10.0)
  kinds = dict(D=u.Distance(m=a), V=u.Velocity(mps=a), E=u.Energy(watt_hours=a),
               P=u.Power(watts=a), n=a, t=H.dt.timedelta(seconds=5), x=None)
  import operator as op
  sound = {('*', 'D', 'n'), ('*', 'n', 'D'), ('/', 'D', 'n'), ('/', 'D', 't'),
           ('*', 'V', 't'), ('*', 't', 'V'), ('/', 'V', 'n'),
           ('*', 'E', 'n'), ('*', 'n', 'E'), ('*', 'P', 't'), ('*', 't', 'P')}
  ops = {'+': op.add, '-': op.sub, '*': op.mul, '/': op.truediv, '<': op.lt,
         '<=': op.le, '>': op.gt, '>=': op.ge}
  for o, f in ops.items():
    for k1, v1 in kinds.items():
      for k2, v2 in kinds.items():
        if k1 == k2 or (k1 not in 'DVEP' and k2 not in 'DVEP'):
          continue
        if k1 == 'n' and k2 in 'DVEP' or (k1 in 'tx'):
          if o not in '*+-':
            continue
        ok, r = H.attempt(f, v1, v2)
        if (o, k1, k2) in sound:
          H.check(f'{k1} {o} {k2} is defined', ok)
        else:
          H.check(f'{k1} {o} {k2} is refused', not ok)
  for k in 'VEP':
    for k2 in kinds:
      if k2 != k:
        ok, r = H.attempt(op.eq, kinds[k], kinds[k2])
        H.check(f'{k} == {k2} is refused', (not ok) and isinstance(r, ValueError))


def clock(H):
  """A UTC second free in 2000-2030: datetime helpers are time-zone aware and consistent."""
  u = H.load('utils.units')
  n = H.int('n', 946684800, 1893456000)
  t = u.datetime_from_timestamp(n)
  H.check('aware', t.tzinfo is not None)
  H.eq('round trip', t.timestamp(), n)
  base = u.datetime(2000, 1, 1)
  H.check('utc by default', base.tzinfo is not None)
  H.check('difference', (t - base) == H.dt.timedelta(seconds=n - 946684800))
  full = u.datetime(2013, 3, 25, 9, 25, 32, 17)
  H.check('fields', (full.year, full.month, full.day, full.hour, full.minute,
                     full.second, full.microsecond) == (2013, 3, 25, 9, 25, 32,
                                                        17))


def obligations(tier):
  return [Ob(f.__name__, f) for f in (distance, norm, velocity, energy_power,
                                      mixing, clock)]
