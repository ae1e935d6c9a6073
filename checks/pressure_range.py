"""Which pressures a balloon can reach."""
from vx.api import Ob
from checks import balloon_common as bc

BUF = 250.0  # envelope safety buffer [Pa]
R, MA, MHE = 8.3144621, 0.028964922481160, 0.004002602


class Setup:
  """Stable superpressure and the atmosphere are functions of our choosing."""

  def __init__(self, H, sp, temperature, floor=11500.0):
    self.H = H
    self.w = w = bc.World(H, el=20.0)
    self.m = H.load('env.balloon.pressure_range_builder')
    st = H.load('env.balloon.stable_init')
    self.calls = []

    def stable(pressure, envelope_volume_base, envelope_volume_dv_pressure,
               envelope_mass, payload_mass, mols_lift_gas, latlng, date_time,
               upwelling_infrared, atmosphere):
      self.calls.append((pressure, envelope_volume_base,
                         envelope_volume_dv_pressure, envelope_mass,
                         payload_mass, mols_lift_gas, date_time,
                         upwelling_infrared, atmosphere))
      return H.ns(superpressure=sp(pressure))
    H.patch(st, 'calculate_stable_params_for_pressure', stable)
    self.heights = []

    def at_height(height):
      self.heights.append(height)
      return H.ns(pressure=floor, height=height, temperature=206.0)
    self.atm = H.ns(
        at_height=at_height,
        at_pressure=lambda pressure: H.ns(
            pressure=pressure, temperature=temperature(pressure),
            height=w.units.Distance(m=30000.0 - pressure)))


COL = [1000.0 + i * 10500.0 / 19 for i in range(20)]


def bounds(H, a, k, T):
  """Superpressure linear in pressure from a free value at a given rate, air at a given temperature, amount of gas free: the range runs from the pressure where the balloon floats without ballast air, or, when that is unsafe, from where the superpressure interpolated between grid points crosses the safety buffer, up to the altitude floor, or to such a crossing; both ends inside the buffers."""
  a = H.real('a', *a)  # superpressure at 7000 Pa

  def sp(p):
    return a - k * (p - 7000.0)
  S = Setup(H, sp, lambda p: T)
  maxsp = H.choice('max', [2380.0, 1500.0])
  lift = H.real('lift', 6000.0, 7500.0)
  s = S.w.state(pressure=9000.0, mols_lift_gas=lift,
                envelope_max_superpressure=maxsp)
  mass = s.payload_mass + s.envelope_mass + lift * MHE
  top = mass * R / (MA * s.envelope_volume_base) * T
  H.assume(top >= 1000.0)
  H.assume(top <= 11000.0)
  ok, r = H.attempt(S.m.get_pressure_range, s, S.atm)
  lo_sp, hi_sp = BUF, maxsp - BUF

  def inside(p):
    return H.and_(sp(p) >= lo_sp, sp(p) <= hi_sp)
  if not ok:
    H.check('refusal is a ValueError', isinstance(r, ValueError))
    H.check('only when nothing in reach is safe', H.not_(H.and_(
        inside(top), inside(11500.0))))

    def well(p):  # inside by more than rounding
      return H.between_(sp(p), lo_sp + 1e-6, hi_sp - 1e-6)
    # a refusal needs one direction without a safe grid point
    up = H.or_(well(top), *[H.and_(well(p), p >= top + 1e-6) for p in COL])
    down = H.or_(well(11500.0), *[well(p) for p in COL])
    H.check('no safe pressure', H.not_(H.and_(up, down)))
    return
  # the linear atmosphere makes interpolation exact
  e_lo, e_hi = r.min_pressure, r.max_pressure
  H.check('floor asked for', len(S.heights) >= 1)
  H.eq('altitude floor', S.heights[0].feet, 50000.0, 1e-6)
  H.between('top is safe', sp(e_lo), lo_sp, hi_sp, 1e-6)
  H.between('bottom is safe', sp(e_hi), lo_sp, hi_sp, 1e-6)
  H.le('at or below the unballasted height', top, e_lo, 1e-6)
  H.le('at or above the floor', e_hi, 11500.0, 1e-6)
  if bool(inside(top)):
    H.eq('unballasted height reachable', e_lo, top, 1e-6)
  else:
    H.check('safe limit, top', H.or_(H.abs(sp(e_lo) - lo_sp) <= 1e-3,
                                     H.abs(sp(e_lo) - hi_sp) <= 1e-3))
  if bool(inside(11500.0)):
    H.eq('floor reachable', e_hi, 11500.0, 1e-6)
  else:
    H.check('safe limit, bottom', H.or_(H.abs(sp(e_hi) - lo_sp) <= 1e-3,
                                        H.abs(sp(e_hi) - hi_sp) <= 1e-3))


def curved(H, a, bend, lift):
  """Superpressure a curve in pressure (rising or falling on both sides of 7 kPa) shifted by a free amount: each end is the unballasted height or the floor when that is safe, and otherwise lies, as linear interpolation between neighbouring grid pressures says, where the curve enters the safety buffers; nothing safe is left out beyond it."""
  a = H.real('a', *a)

  def sp(p):
    return a + bend * (p - 7000.0)**2 / 10000.0
  S = Setup(H, sp, lambda p: 206.0)
  s = S.w.state(pressure=9000.0, mols_lift_gas=lift)
  mass = s.payload_mass + s.envelope_mass + lift * MHE
  top = mass * R / (MA * s.envelope_volume_base) * 206.0
  lo_sp, hi_sp = BUF, s.envelope_max_superpressure - BUF

  def inside(p):
    return H.and_(sp(p) >= lo_sp, sp(p) <= hi_sp)
  ok, r = H.attempt(S.m.get_pressure_range, s, S.atm)
  grid = [p for p in COL if top <= p]
  if not ok:
    H.check('refusal is a ValueError', isinstance(r, ValueError))

    def well(p):
      return H.between_(sp(p), lo_sp + 1e-6, hi_sp - 1e-6)
    H.check('no safe pressure', H.not_(H.and_(
        H.or_(well(top), *[well(p) for p in grid]),
        H.or_(well(COL[-1]), *[well(p) for p in COL]))))
    return

  def end(label, e, first, column):
    """column: grid pressures met going inwards from the end `first`."""
    if bool(inside(first)):
      H.eq(f'{label}: reachable', e, first, 1e-6)
      return
    last = first
    for p in column:
      if bool(inside(p)):
        break
      last = p
    else:
      H.check(f'{label}: something was safe', False)
      return
    bad, good = sp(last), sp(p)
    lim = lo_sp if bool(bad < lo_sp) else hi_sp
    H.eq(f'{label}: on the chord', (e - last) * (good - bad),
         (lim - bad) * (p - last), 1e-6)
    H.between(f'{label}: between the neighbours', e, min(last, p),
              max(last, p), 1e-6)
  end('top', r.min_pressure, top, [p for p in COL if p > top])
  end('bottom', r.max_pressure, COL[-1], COL[::-1][1:])


def inputs(H):
  """Gas, masses, volume coefficients and infrared free: the superpressure is computed for this balloon, air and time."""
  S = Setup(H, lambda p: 1000.0, lambda p: 206.0)
  v = H.real('v', 1500.0, 2000.0)
  dv = H.real('dv', 0.01, 0.03)
  m, q = H.real('m', 50.0, 80.0), H.real('q', 80.0, 100.0)
  lift, ir = H.real('lift', 6000.0, 7500.0), H.real('ir', 220.0, 320.0)
  s = S.w.state(envelope_volume_base=v, envelope_volume_dv_pressure=dv,
                envelope_mass=m, payload_mass=q, mols_lift_gas=lift,
                upwelling_infrared=ir)
  r = S.m.get_pressure_range(s, S.atm)
  top = (m + q + lift * MHE) * R / (MA * v) * 206.0
  H.eq('top', r.min_pressure, top, 1e-6)
  H.eq('bottom', r.max_pressure, 11500.0)
  H.check('asked', len(S.calls) > 0)
  for c in S.calls:
    for name, x, y in zip(('volume', 'dv', 'mass', 'payload', 'gas'), c[1:6],
                          (v, dv, m, q, lift)):
      H.eq(name, x, y)
    H.eq('infrared', c[7], ir)
    H.check('now', c[6] == s.date_time)
    H.check('this air', c[8] is S.atm)


BASE = dict(envelope_volume_base=1804.0, envelope_volume_dv_pressure=0.0199,
            envelope_mass=68.5, payload_mass=92.5, mols_lift_gas=6830.0,
            upwelling_infrared=250.0)


def another(H):
  """Asked first for a balloon (another object, or the same one before it changed) that differs in one attribute, the place, the time, the air or the greatest superpressure, the superpressure depending on each: the range is the one of this balloon, air and time."""
  what = H.choice('what', list(BASE) + ['time', 'air', 'place', 'most', 'none'])
  step = H.choice('step', [1e-4, 0.02])
  same = H.flag('same')
  S = Setup(H, None, lambda p: 206.0)
  w, st = S.w, H.load('env.balloon.stable_init')
  dt = H.dt
  t0 = w.state().date_time
  here, there = w.units.Distance(m=0.0), w.units.Distance(km=30.0)

  def air(shift, floor):
    return H.ns(shift=shift, at_height=lambda height: H.ns(
        pressure=floor, height=height, temperature=206.0),
                at_pressure=lambda pressure: H.ns(
                    pressure=pressure, temperature=206.0,
                    height=w.units.Distance(m=30000.0 - pressure)))

  def at7k(kw, latlng, date_time, atmosphere):
    return (1000.0 + atmosphere.shift + sum(
        (kw[k] / BASE[k] - 1.0) * 100.0 for k in BASE) + (
            0.0 if date_time == t0 else 3.0) + (7.0 if latlng.x == there else 0.0))

  def stable(pressure, envelope_volume_base, envelope_volume_dv_pressure,
             envelope_mass, payload_mass, mols_lift_gas, latlng, date_time,
             upwelling_infrared, atmosphere):
    kw = dict(envelope_volume_base=envelope_volume_base,
              envelope_volume_dv_pressure=envelope_volume_dv_pressure,
              envelope_mass=envelope_mass, payload_mass=payload_mass,
              mols_lift_gas=mols_lift_gas,
              upwelling_infrared=upwelling_infrared)
    return H.ns(superpressure=at7k(kw, latlng, date_time, atmosphere) -
                0.25 * (pressure - 7000.0))
  H.patch(st, 'calculate_stable_params_for_pressure', stable)

  def case(other):
    kw = dict(BASE)
    if other and what in BASE:
      kw[what] *= 1.0 + step
    most = 1250.0 + (500.0 * step if other and what == 'most' else 0.0)
    where = there if other and what == 'place' else here
    t = t0 + (dt.timedelta(minutes=3) if other and what == 'time' else
              dt.timedelta(0))
    a = air(5.0, 11490.0) if other and what == 'air' else plain
    return dict(kw, envelope_max_superpressure=most, x=where,
                date_time=t), a

  def expect(kw, a):
    s7 = at7k(kw, H.ns(x=kw['x']), kw['date_time'], a)
    return (7000.0 + (s7 - (kw['envelope_max_superpressure'] - BUF)) / 0.25,
            7000.0 + (s7 - BUF) / 0.25)
  plain = air(H.real('shift', -2.0, 2.0), 11500.0)
  s = None
  for other in (True, False, True):
    kw, a = case(other)
    if s is None or not same:
      s = w.state(pressure=9000.0)
    for k, v in kw.items():
      setattr(s, k, v)
    top, bottom = expect(kw, a)
    r = S.m.get_pressure_range(s, a)
    H.eq('top', r.min_pressure, top, 1e-9)
    H.eq('bottom', r.max_pressure, bottom, 1e-9)


def crossing(H):
  """Two points free: the crossing lies between them where the line through them meets the level; a level outside, or points in the wrong order or of equal value, is refused."""
  m = H.load('env.balloon.pressure_range_builder')
  if not hasattr(m, '_compute_x_crossing'):
    H.reach('gone')
    return
  x1, x2 = H.reals('x', 2, 0.0, 2e4)
  y1, y2, y = H.reals('y', 3, -3e3, 3e3)
  ok, r = H.attempt(m._compute_x_crossing, x1, y1, x2, y2, y)
  if ok:
    H.check('legal', H.and_(x1 < x2, y1 != y2, H.between_(
        y, H.min(y1, y2), H.max(y1, y2))))
    H.between('between', r, x1, x2)
    H.eq('on the line', (r - x1) * (y2 - y1), (y - y1) * (x2 - x1), 1e-6)
  else:
    H.check('ValueError', isinstance(r, ValueError))
    H.check('illegal', H.not_(H.and_(x1 < x2, y1 != y2, H.between_(
        y, H.min(y1, y2), H.max(y1, y2)))))


def obligations(tier):
  q = tier == 'quick'
  # superpressure at 7 kPa, fall per Pa, temperature
  cases = [((600.0, 1800.0), 0.05, 206.0), ((-200.0, 3000.0), 0.25, 206.0),
           ((-200.0, 1500.0), -0.2, 206.0), ((0.0, 3000.0), 0.0, 206.0)]
  if not q:
    cases += [((-1000.0, 4000.0), k, T) for k in (0.9, 0.5, 0.1, -0.1, -0.5)
              for T in (195.0, 225.0)]
  curves = [((0.0, 3000.0), b, 6830.0) for b in (-2.0, 1.0)]
  if not q:
    curves += [((-1000.0, 5000.0), b, l) for b in (-4.0, -1.0, 0.5, 3.0)
               for l in (6200.0, 7400.0)]
  return [Ob(f'curved/{i}', curved, dict(a=a, bend=b, lift=l))
          for i, (a, b, l) in enumerate(curves)] + [
              Ob(f'bounds/{i}', bounds, dict(a=a, k=k, T=T), budget_s=240 if q
             else 700, max_paths=6000)
          for i, (a, k, T) in enumerate(cases)] + [
              Ob('inputs', inputs), Ob('another', another), Ob('crossing', crossing)]
