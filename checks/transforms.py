"""Feature scalings: formula, range, inverse, domain errors."""
from vx.api import Ob


def linear(H):
  """x, vmin, vmax free in [-1e6, 1e6] with vmax - vmin > 1e-3."""
  t = H.load('utils.transforms')
  x, lo, hi = H.reals('v', 3, -1e6, 1e6)
  H.assume(hi - lo > 1e-3)
  y = t.linear_rescale_with_extrapolation(x, lo, hi)
  H.eq('formula', y * (hi - lo), x - lo, 1e-6)
  H.eq('inverse', t.undo_linear_rescale_with_extrapolation(y, lo, hi), x, 1e-6)
  z = t.undo_linear_rescale_with_extrapolation(x, lo, hi)
  H.eq('inverse formula', z, lo + x * (hi - lo), 1e-6)
  s = t.linear_rescale_with_saturation(x, lo, hi)
  H.between('saturated range', s, 0.0, 1.0, 1e-12)
  H.check('saturation', H.ite(x <= lo, s == 0, H.ite(x >= hi, s == 1,
                                                     s == y)))


def monotone(H):
  """Two inputs, free: scalings preserve order."""
  t = H.load('utils.transforms')
  a, b = H.reals('v', 2, -1e6, 1e6)
  H.assume(a < b)
  lo = H.real('lo', -1e3, 1e3)
  hi = lo + H.real('w', 1e-2, 1e3)
  f = t.linear_rescale_with_saturation
  H.check('saturated order', f(a, lo, hi) <= f(b, lo, hi))
  g = t.linear_rescale_with_extrapolation
  H.check('linear order', g(a, lo, hi) < g(b, lo, hi))
  H.assume(a >= 0)
  c = H.real('c', 1e-2, 1e4)
  q = t.squash_to_unit_interval
  H.check('squash order', q(a, c) < q(b, c))


def squash(H):
  """x in [0, 1e9], constant in [1e-3, 1e6], both free."""
  t = H.load('utils.transforms')
  x = H.real('x', 0.0, 1e9)
  c = H.real('c', 1e-3, 1e6)
  y = t.squash_to_unit_interval(x, c)
  H.check('range', H.and_(y >= 0, y < 1))
  H.eq('formula', y * (x + c), x, 1e-6)
  H.eq('inverse', t.undo_squash_to_unit_interval(y, c), x, 1e-5)
  z = H.real('z', 0.0, 0.999999)
  w = t.undo_squash_to_unit_interval(z, c)
  H.check('inverse not negative', w >= 0)
  H.eq('inverse formula', w * (1 - z), z * c, 1e-6)


def domains(H):
  """Arguments outside the domain, free: ValueError, never a number."""
  t = H.load('utils.transforms')
  x, lo, hi = H.reals('v', 3, -1e6, 1e6)
  bad = hi <= lo
  for n in ('linear_rescale_with_extrapolation', 'linear_rescale_with_saturation',
            'undo_linear_rescale_with_extrapolation'):
    ok, r = H.attempt(getattr(t, n), x, lo, hi)
    H.check(f'{n}: empty interval refused', H.iff(ok, H.not_(bad)))
    H.check(f'{n}: error kind', ok or isinstance(r, ValueError))
  c = H.real('c', -10.0, 10.0)
  ok, r = H.attempt(t.squash_to_unit_interval, x, c)
  H.check('squash refuses negatives', H.iff(ok, H.and_(c > 0, x >= 0)))
  H.check('squash error kind', ok or isinstance(r, ValueError))
  ok, r = H.attempt(t.undo_squash_to_unit_interval, x, c)
  H.check('undo refuses values outside [0, 1)', H.iff(
      ok, H.and_(c > 0, H.and_(x >= 0, x < 1))))
  H.check('undo error kind', ok or isinstance(r, ValueError))


def arrays(H):
  """Vectors of length 3, entries free: elementwise, same formulas and refusals."""
  t = H.load('utils.transforms')
  xs = H.reals('x', 3, -1e3, 1e3)
  lo = H.real('lo', -10.0, 10.0)
  hi = lo + H.real('w', 1e-2, 100.0)
  y = t.linear_rescale_with_extrapolation(H.array(xs), lo, hi)
  for a, b in zip(xs, list(y)):
    H.eq('linear elementwise', b * (hi - lo), a - lo, 1e-6)
  ok, r = H.attempt(t.squash_to_unit_interval, H.array(xs), 250.0)
  H.check('any negative refused', H.iff(ok, H.and_(*[a >= 0 for a in xs])))
  if ok:
    for a, b in zip(xs, list(r)):
      H.eq('squash elementwise', b * (a + 250.0), a, 1e-6)


def obligations(tier):
  return [Ob(f.__name__, f) for f in (linear, monotone, squash, domains,
                                      arrays)]
