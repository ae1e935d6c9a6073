"""One physics stride of the real Balloon against the model equations."""
from vx.api import Ob
from checks import balloon_common as bc
from checks.balloon_common import DOWN, G, M_AIR, M_HE, MIN_EL, R_GAS, UP


def step(H, w, s, action, seconds=10, wind=(0.0, 0.0), stride=10):
  dt = w.dt
  bal = w.B.Balloon(s)
  bal.simulate_step(w.wind(*wind), w.atmosphere(), action,
                    dt.timedelta(seconds=seconds),
                    dt.timedelta(seconds=stride))
  return bal


def frame(H, before, after, but):
  """Everything not listed in `but` keeps its value."""
  for k, v in before.items():
    if k in but:
      continue
    if isinstance(v, str):
      H.check(f'{k} unchanged', v == after[k])
    else:
      H.eq(f'{k} unchanged', after[k], v)


def motion(H, stride):
  """One stride: position x, y free within 500 km, wind free within 80 m/s per axis, sun position an arbitrary function of place and time."""
  w = bc.World(H, el=20.0)
  w.stub_power()
  w.stub_thermal()
  x, y = H.reals('pos', 2, -5e5, 5e5)
  u, v = H.reals('wind', 2, -80.0, 80.0)
  s = w.no_layers(w.state(x=x, y=y))
  c0 = bc.consts(s)
  bal = step(H, w, s, w.C.STAY, seconds=stride, stride=stride, wind=(u, v))
  H.eq('x drifts with the wind', bal.state.x.m, x + u * stride)
  H.eq('y drifts with the wind', bal.state.y.m, y + v * stride)
  H.check('clock', H.and_(bal.state.date_time == w.t0 + w.dt.timedelta(
      seconds=stride), bal.state.time_elapsed == w.dt.timedelta(
          seconds=stride)))
  H.check('sun seen from the old position and time', all(
      H.known(H.and_(a.x.m == x, a.y.m == y, t == w.t0))
      for a, t, _ in w.sun_calls))
  H.observe('x', bal.state.x.m)
  c1 = bc.consts(bal.state)
  for k in c0:
    H.eq(f'constant {k}', c1[k], c0[k])


def buoyancy(H, free, action=None):
  """One stride: two of (pressure [3, 20] kPa, volume [500, 2200] m3, ambient temperature [180, 300] K, air [0, 6000] mol, lift gas [3000, 8000] mol) free, the others fixed; height an arbitrary strictly decreasing function of pressure."""
  w = bc.World(H, el=20.0, height='uf')
  w.stub_power()
  w.stub_thermal()
  rng = dict(pressure=(3000.0, 20000.0), envelope_volume=(500.0, 2200.0),
             ambient_temperature=(180.0, 300.0), mols_air=(0.0, 6000.0),
             mols_lift_gas=(3000.0, 8000.0))
  k = dict(pressure=7000.0, envelope_volume=1825.0, ambient_temperature=207.0,
           mols_air=1500.0, mols_lift_gas=6830.0)
  for n in free:
    k[n] = H.real(n, *rng[n])
  s = w.no_layers(w.state(**k))
  p, V, T = k['pressure'], k['envelope_volume'], k['ambient_temperature']
  rho = p * M_AIR / (R_GAS * T)
  mass = (M_HE * k['mols_lift_gas'] + M_AIR * k['mols_air'] + s.envelope_mass +
          s.payload_mass)
  excess = rho * V - mass
  H.assume(H.abs(excess) > 1e-3)
  d = 1.0 if excess > 0 else -1.0
  at = w.atmosphere().at_pressure
  h0, h1 = at(p).height.m, at(p + d).height.m
  # height falls as pressure rises, at a plausible local slope
  H.assume(H.between_(d * (h0 - h1), 0.05, 20.0))
  bal = step(H, w, s, w.C.STAY)
  rate2 = 2 * G * H.abs(excess) / (rho * s.envelope_cod * V**(2.0 / 3.0))
  dp = (bal.state.pressure - p) / 10.0
  slope = (h1 - h0) / d
  dh = dp * slope
  H.check('moves the way buoyancy pushes', H.ite(excess > 0, dh > 0, dh < 0))
  H.eq('terminal velocity', dh * dh, rate2, 1e-6)
  H.observe('pressure', bal.state.pressure)


def heat(H, stride):
  """One stride: all nine inputs of the heat balance free over their physical ranges, the heat balance itself and the atmosphere's temperature arbitrary functions."""
  w = bc.World(H, el=H.real('el', -90.0, 90.0),
               flux=H.real('flux', 1300.0, 1420.0), height='uf')
  w.stub_power()
  w.stub_thermal()
  k = dict(envelope_volume=H.real('V', 500.0, 2200.0),
           internal_temperature=H.real('Ti', 180.0, 300.0),
           ambient_temperature=H.real('Ta', 180.0, 300.0),
           upwelling_infrared=H.real('ir', 100.0, 350.0))
  s = w.no_layers(w.state(**k))
  em, p = s.envelope_mass, s.pressure
  at = w.atmosphere().at_pressure
  H.assume(H.between_(H.abs(at(p + 1).height.m - at(p).height.m), 0.05, 20.0))
  H.assume(H.between_(H.abs(at(p - 1).height.m - at(p).height.m), 0.05, 20.0))
  want = k['internal_temperature'] + stride * H.uf(
      'dT', [k['envelope_volume'], em, k['internal_temperature'],
             k['ambient_temperature'], p, w.el, w.flux,
             k['upwelling_infrared']], -1.0, 1.0)
  bal = step(H, w, s, w.C.STAY, seconds=stride, stride=stride)
  H.eq('internal temperature follows the heat balance',
       bal.state.internal_temperature, want)
  H.eq('ambient temperature comes from the atmosphere at the old pressure',
       bal.state.ambient_temperature, at(p).temperature)
  H.observe('Ti', bal.state.internal_temperature)


def gas_law(H, free):
  """One stride: two or three of (lift gas [3000, 8000] mol, air [0, 6000] mol, internal temperature [180, 300] K, pressure [3, 20] kPa) free; the resulting envelope obeys the gas law and the elastic volume model."""
  w = bc.World(H, el=20.0)
  w.stub_power()
  w.stub_thermal()
  rng = dict(mols_lift_gas=(3000.0, 8000.0), mols_air=(0.0, 6000.0),
             internal_temperature=(180.0, 300.0), pressure=(3000.0, 16000.0))
  k = dict(mols_lift_gas=6830.0, mols_air=1500.0, internal_temperature=210.0,
           pressure=7000.0)
  for n in free:
    k[n] = H.real(n, *rng[n])
  s = w.no_layers(w.state(**k))
  nrt = (k['mols_lift_gas'] + k['mols_air']) * R_GAS * k[
      'internal_temperature']
  p = k['pressure']
  v0, dv = s.envelope_volume_base, s.envelope_volume_dv_pressure
  maxsp = s.envelope_max_superpressure
  H.assume(H.abs(nrt - v0 * p) > 1.0)
  bal = step(H, w, s, w.C.STAY)
  V, sp = bal.state.envelope_volume, bal.state.superpressure
  H.check('volume positive', V > 0)
  if nrt <= v0 * p:
    H.eq('slack envelope: no superpressure', sp, 0.0)
    H.eq('slack envelope: ambient gas law', V * p, nrt)
    H.check('slack envelope is terminal',
            bal.state.status == w.B.BalloonStatus.ZEROPRESSURE)
  else:
    H.eq('gas law', (p + sp) * V, nrt, 1e-6)
    H.eq('elastic volume', V, v0 + dv * sp, 1e-6)
    H.check('taut envelope has superpressure', sp > 0)
    H.assume(H.abs(sp - maxsp) > 1e-3)
    H.check('bursts exactly above the limit',
            (bal.state.status == w.B.BalloonStatus.BURST) == bool(sp > maxsp))


def gas_law_elsewhere(H):
  """Two of (air, temperature) free in turn: the balloon class's own (deprecated) form of the gas law gives what the module's gives."""
  w = bc.World(H, el=20.0)
  k = dict(mols_lift_gas=6830.0, mols_air=1500.0, internal_temperature=210.0,
           pressure=7000.0)
  n, lo, hi = H.choice('free', [('mols_air', 0.0, 6000.0),
                                ('internal_temperature', 180.0, 300.0)])
  k[n] = H.real(n, lo, hi)
  old = getattr(w.B.Balloon, 'calculate_superpressure_and_volume', None)
  if old is None:
    H.reach('gone')
    return
  a = list(k.values()) + [1804.0, 0.0199]
  got = old(*a)
  want = w.B.calculate_superpressure_and_volume(*a)
  for x, y in zip(got, want):
    H.eq('the same', x, y, 1e-9)


def acs_up(H, free):
  """One venting stride: superpressure [0, 2380] Pa, pressure, internal temperature, ballonet air [0, 6000] mol and valve diameter, `free` ones free."""
  w = bc.World(H, el=20.0)
  w.stub_power()
  w.stub_thermal()
  rng = dict(superpressure=(0.0, 2380.0), pressure=(5000.0, 14000.0),
             internal_temperature=(180.0, 300.0), mols_air=(0.0, 6000.0),
             acs_valve_hole_diameter=(0.0, 0.2))
  k = dict(superpressure=1200.0, pressure=7000.0, internal_temperature=210.0,
           mols_air=1500.0, acs_valve_hole_diameter=0.04)
  for n in free:
    k[n] = H.real(n, *rng[n])
  s = w.no_layers(w.state(**k))
  sp, p, T, d = (k['superpressure'], k['pressure'],
                 k['internal_temperature'], k['acs_valve_hole_diameter'])
  bal = step(H, w, s, w.C.UP)
  flow = bal.state.acs_mass_flow
  H.eq('venting uses no power', bal.state.acs_power.watts, 0.0)
  H.check('venting never adds air', flow <= 0)
  area = H.math.pi * d * d / 4.0
  dens = (sp + p) * M_AIR / (R_GAS * T)
  H.eq('orifice flow', flow * flow, (0.62 * area)**2 * 2.0 * sp * dens, 1e-7)
  air = k['mols_air'] + flow / M_AIR * 10.0
  H.eq('ballonet air', bal.state.mols_air, H.max(air, 0.0))
  H.check('air never negative', bal.state.mols_air >= 0)
  H.observe('air', bal.state.mols_air)


def acs_other(H):
  """One STAY or DOWN stride: superpressure free in [-100, 3500] Pa, pressure fixed, ballonet air free; the compressor (power, efficiency) functions are the real ones."""
  w = bc.World(H, el=20.0)
  w.stub_power()
  w.stub_thermal()
  acs = H.load('env.balloon.acs')
  sp = H.real('sp', -100.0, 3500.0)
  air = H.real('air', 0.0, 6000.0)
  p = 7000.0
  s = w.no_layers(w.state(superpressure=sp, mols_air=air, pressure=p))
  down = H.flag('down')
  bal = step(H, w, s, w.C.DOWN if down else w.C.STAY)
  if not down:
    H.eq('idle: no power', bal.state.acs_power.watts, 0.0)
    H.eq('idle: no flow', bal.state.acs_mass_flow, 0.0)
    H.eq('idle: air kept', bal.state.mols_air, air)
  else:
    ratio = (p + H.max(sp, 0.0)) / p
    power = acs.get_most_efficient_power(ratio)
    H.eq('compressor power', bal.state.acs_power.watts, power.watts)
    eff = acs.get_fan_efficiency(ratio, power)
    H.eq('compressor flow', bal.state.acs_mass_flow,
         acs.get_mass_flow(power, eff))
    H.check('compressing never removes air', bal.state.mols_air >= air)
    H.eq('ballonet air', bal.state.mols_air,
         air + bal.state.acs_mass_flow / M_AIR * 10.0)
    H.ge('compressor draws power', bal.state.acs_power.watts, 100.0)
  H.observe('air', bal.state.mols_air)


def energy(H, stride):
  """One stride of every command: solar elevation free in [-90, 90], solar power an arbitrary function in [0, 1260] W, battery capacity free in [100, 6000] Wh with any charge in it, day and night loads free in [0, 500] W."""
  w = bc.World(H, el=H.real('el', -90.0, 90.0))
  w.stub_power()
  w.stub_thermal()
  cap = H.real('cap', 100.0, 6000.0)
  charge = H.real('charge', 0.0, None)
  H.assume(charge <= cap)
  day = H.real('day', 0.0, 500.0)
  night = H.real('night', 0.0, 500.0)
  H.assume(H.abs(w.el - MIN_EL) > 1e-9)
  s = w.no_layers(w.state(battery_capacity=cap, battery_charge=charge,
                          daytime_power_load=day, nighttime_power_load=night))
  a = H.choice('action', [w.C.DOWN, w.C.STAY, w.C.UP])
  bal = step(H, w, s, a, seconds=stride, stride=stride)
  st = bal.state
  sun = H.uf('solar_power', [w.el, 7000.0], 0.0, 1260.0)
  is_day = w.el > MIN_EL
  H.eq('solar charging', st.solar_charging.watts, H.ite(is_day, sun, 0.0))
  H.eq('power load', st.power_load.watts,
       H.ite(is_day, day, night) + st.acs_power.watts)
  net = charge + (st.solar_charging.watts - st.power_load.watts) * stride / 3600
  H.eq('battery', st.battery_charge.watt_hours, H.min(H.max(net, 0.0), cap))
  H.check('battery within capacity', H.and_(
      st.battery_charge.watt_hours >= 0, st.battery_charge.watt_hours <= cap))
  H.between('state of charge', st.battery_soc, 0.0, 1.0)
  H.assume(H.abs(net) > 1e-6)
  H.check('out of power exactly when empty',
          (st.status == w.B.BalloonStatus.OUT_OF_POWER) ==
          bool(st.battery_charge.watt_hours <= 0))
  H.observe('charge', st.battery_charge.watt_hours)


def status(H):
  """One stride of every command over free envelope fill (lift gas) and battery charge: the status of every combination of burst / zero pressure / empty battery."""
  w = bc.World(H, el=-30.0)
  w.stub_power()
  w.stub_thermal()
  lift = H.real('lift', 2000.0, 12000.0)
  charge = H.real('charge', 0.0, 3000.0)
  s = w.no_layers(w.state(mols_lift_gas=lift, battery_charge=charge))
  a = H.choice('action', [w.C.DOWN, w.C.STAY, w.C.UP])
  bal = step(H, w, s, a)
  st = bal.state
  sp, maxsp = st.superpressure, s.envelope_max_superpressure
  H.assume(H.abs(sp - maxsp) > 1e-3)
  H.assume(H.or_(sp == 0, sp > 1e-3))
  wh = st.battery_charge.watt_hours
  H.assume(H.or_(wh == 0, wh > 1e-9))
  if wh <= 0:
    want = 'OUT_OF_POWER'
  elif sp > maxsp:
    want = 'BURST'
  elif sp <= 0:
    want = 'ZEROPRESSURE'
  else:
    want = 'OK'
  H.check('status', st.status.name == want)


def composition(H, n, stride):
  """simulate_step over n strides equals n single-stride steps, stopping at the stride where the balloon fails: free charge, burst limit and wind; every command."""
  w = bc.World(H, el=-30.0)
  w.fixed_thermal()
  charge = H.real('charge', 0.0, 4.0)
  limit = H.real('limit', 500.0, 2500.0)
  u = H.real('u', -80.0, 80.0)
  a = H.choice('action', [w.C.DOWN, w.C.STAY, w.C.UP])
  s1 = w.no_layers(w.state(battery_charge=charge,
                          envelope_max_superpressure=limit))
  s2 = w.no_layers(w.state(battery_charge=charge,
                          envelope_max_superpressure=limit))
  one = step(H, w, s1, a, seconds=n * stride, wind=(u, 0.5), stride=stride)
  many = w.B.Balloon(s2)
  for _ in range(n):
    if many.state.status == w.B.BalloonStatus.OK:
      many.simulate_step(w.wind(u, 0.5), w.atmosphere(), a,
                         w.dt.timedelta(seconds=stride),
                         w.dt.timedelta(seconds=stride))
  x, y = bc.snap(one.state), bc.snap(many.state)
  for k in x:
    if k == 'status':
      H.check('same status', x[k] == y[k])
    elif k == 'date_time':
      H.check('same clock', x[k] == y[k])
    else:
      H.eq(f'same {k}', x[k], y[k])
  if x['status'] == 'OK':
    H.check('all strides simulated',
            one.state.date_time == w.t0 + w.dt.timedelta(seconds=n * stride))


def terminal(H):
  """A balloon in any terminal status refuses to step, whatever the command, and keeps its physical state."""
  w = bc.World(H, el=-30.0)
  w.stub_power()
  w.stub_thermal()
  S = w.B.BalloonStatus
  charge = H.real('charge', 0.0, 3000.0)
  s = w.no_layers(w.state(battery_charge=charge))
  s.status = H.choice('status', [S.OUT_OF_POWER, S.BURST, S.ZEROPRESSURE])
  before = bc.snap(s)
  a = H.choice('action', [w.C.DOWN, w.C.STAY, w.C.UP])
  bal = w.B.Balloon(s)
  ok, _ = H.attempt(bal.simulate_step, w.wind(3.0, 4.0), w.atmosphere(), a,
                    w.dt.timedelta(minutes=3))
  H.check('refused', not ok)
  after = bc.snap(bal.state)
  H.check('clock untouched', before.pop('date_time') == after['date_time'])
  frame(H, before, after, ())


def bad_stride(H):
  """A step whose duration (1 to 240 s) is not a multiple of the stride (1 to 20 s) is refused; otherwise the clock advances by exactly the duration."""
  w = bc.World(H, el=20.0)
  w.fixed_thermal()
  s = w.no_layers(w.state())
  stride = H.choice('stride', [7, 10, 20, 60])
  total = H.choice('total', [10, 14, 20, 25, 60, 70, 120, 130])
  bal = w.B.Balloon(s)
  ok, _ = H.attempt(bal.simulate_step, w.wind(), w.atmosphere(), w.C.STAY,
                    w.dt.timedelta(seconds=total),
                    w.dt.timedelta(seconds=stride))
  H.check('accepts exactly multiples', ok == (total % stride == 0))
  if ok:
    H.check('clock', bal.state.time_elapsed == w.dt.timedelta(seconds=total))


def pair(names):
  return '_'.join(n.replace('envelope_', '').replace('_temperature', 'T')
                  for n in names)


def obligations(tier):
  obs = [Ob('motion_10s', motion, dict(stride=10)),
         Ob('motion_60s', motion, dict(stride=60)),
         Ob('heat', heat, dict(stride=10)),
         Ob('heat_30s', heat, dict(stride=30)),
         Ob('acs_other', acs_other),
         Ob('energy', energy, dict(stride=10)),
         Ob('energy_60s', energy, dict(stride=60)),
         Ob('status', status),
         Ob('composition2', composition, dict(n=2, stride=10)),
         Ob('composition3', composition, dict(n=3, stride=20)),
         Ob('terminal', terminal),
         Ob('gas_law_elsewhere', gas_law_elsewhere), Ob('bad_stride', bad_stride)]
  for f in (('pressure', 'mols_air'), ('envelope_volume',),
            ('ambient_temperature', 'mols_lift_gas')):
    obs.append(Ob('buoyancy_' + pair(f), buoyancy, dict(free=f)))
  for f in (('mols_lift_gas', 'mols_air'), ('internal_temperature',
                                            'mols_air'), ('pressure',)):
    obs.append(Ob('gas_' + pair(f), gas_law, dict(free=f)))
  for f in (('superpressure', 'mols_air'), ('pressure', 'mols_air'),
            ('internal_temperature',), ('acs_valve_hole_diameter',
                                        'mols_air')):
    obs.append(Ob('vent_' + pair(f), acs_up, dict(free=f)))
  return obs
