"""Property metadata.  `python3-vt tools/props.py` writes properties.jsonl and
MANIFEST.json."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
B = 'balloon_learning_environment/'
P = []
NA = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(),
      note='', thorough=True):
  assert len(title) <= 80, title
  P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                quantifier=dict(over=over, text=' '.join(text.split())),
                why_tests_cant=' '.join(why.split()),
                anchors=dict(files=[B + f for f in files],
                             state=[dict(name=a, meaning=b, where=B + c)
                                    for a, b, c in state],
                             mechanism=[dict(name=a, where=B + b)
                                        for a, b in mech],
                             observe_at=list(observe), hook_needed=None),
                note=' '.join(note.split())))


def na(id, reason):
  NA.append(dict(property=id, reason=' '.join(reason.split())))


p('C01', 'Altitude safety forbids descending below the minimum, with hysteresis',
  '''Below the minimum altitude (50,000 ft) the altitude safety layer answers
  every command with UP; within the 500 ft buffer above it, and after having
  been low until the balloon has climbed a further 500 ft of hysteresis, it
  turns DOWN into STAY. Every other command, and every command when not low,
  passes unchanged, and navigation is reported as paused exactly while the layer
  is active. Its state depends only on the altitudes this one layer has
  seen.''',
  ['inputs', 'histories'],
  '''every sequence of altitudes (hence of pressures and atmospheres) and
  commands shown to one layer''',
  '''the unit tests try single altitudes at each threshold; hysteresis is a
  property of whole altitude histories and of every command at each point.''',
  ['env/balloon/altitude_safety.py'],
  [('AltitudeSafetyLayer.get_action / _transition_state',
    'env/balloon/altitude_safety.py')],
  [('_state_machine', 'nominal / low / very low',
    'env/balloon/altitude_safety.py')],
  ['AltitudeSafetyLayer.get_action', 'AltitudeSafetyLayer.navigation_is_paused'],
  note='''Histories of 3 (quick) / 5 (thorough) calls from a fresh layer; since
  the reference automaton has three states, all state-to-state transitions are
  reached.''')

p('C02', 'Envelope safety keeps superpressure away from zero and from bursting',
  '''When superpressure is within 150 Pa of zero or of the maximum the layer was
  created with, every command becomes UP; within 250 Pa of either, DOWN becomes
  STAY, and that restriction is lifted only 50 Pa further inside. Otherwise
  commands pass unchanged, and navigation is reported as paused exactly while
  the layer is not in its nominal region. Its state depends only on the
  superpressures this one layer has seen.''',
  ['inputs', 'histories'],
  'every sequence of superpressures and commands, every maximum superpressure',
  '''the tests sample a few superpressures per region; the regions' hysteresis
  is a property of every superpressure history.''',
  ['env/balloon/envelope_safety.py'],
  [('EnvelopeSafetyLayer.get_action / _transition_state',
    'env/balloon/envelope_safety.py')],
  [('_state_machine', 'five superpressure regions',
    'env/balloon/envelope_safety.py')],
  ['EnvelopeSafetyLayer.get_action'],
  note='Histories of 3 (quick) / 4-5 (thorough) calls from a fresh layer.')

p('C03', 'Power safety keeps the night load powered until the next sunrise',
  '''At night the power safety layer turns DOWN (the only command that draws
  compressor power) into STAY from the moment the charge would no longer carry
  the night-time load to 30 minutes after the next sunrise with 2.5 percent of
  capacity to spare, until it is day and the charge has reached 5 percent; other
  commands always pass and a balloon not paused at night is never paused by
  day. It rolls sunrise and sunset forward as the clock passes them, and its
  verdict depends only on the times and charges this layer has seen.''',
  ['inputs', 'histories'],
  '''every clock / battery-charge history, every sunrise and sunset, capacity
  and night load''',
  '''the tests sample a handful of times and charges; what matters is every
  charge at every time relative to sunrise, over successive calls.''',
  ['env/balloon/power_safety.py'],
  [('PowerSafetyLayer.get_action', 'env/balloon/power_safety.py')],
  [('next_sunrise_sunset', 'cached sun events', 'env/balloon/power_safety.py')],
  ['PowerSafetyLayer.get_action'],
  note='''Sun events are arbitrary whole seconds within the day after creation;
  thresholds are approached up to 1e-6 of charge.''')

p('C04', 'Safety layers filter every command, in order, before it takes effect',
  '''Every commanded action passes the power, then the envelope, then the
  altitude safety layer before it affects the physics, each layer seeing the
  previous layer's answer and the balloon's present state, and the physics obeys
  the last answer. With power safety disabled by configuration only that layer
  is skipped. A state reports navigation as paused exactly when one of its
  layers does, and every balloon state has safety layers of its own, built for
  its own place, time and burst limit.''',
  ['inputs', 'configurations', 'histories'],
  'every command, every answer of the layers, every dangerous state',
  '''the tests exercise each layer alone and one or two whole steps; the
  composition must hold for every combination of dangers.''',
  ['env/balloon/balloon.py', 'env/balloon/altitude_safety.py',
   'env/balloon/envelope_safety.py', 'env/balloon/power_safety.py'],
  [('Balloon.simulate_step safety pipeline', 'env/balloon/balloon.py'),
   ('BalloonState.navigation_is_paused', 'env/balloon/balloon.py')],
  observe=['Balloon.simulate_step', 'BalloonState.navigation_is_paused'],
  note='One step; every command, layer answer and layer combination.')

p('C05', 'Every physics step obeys the balloon model and its failure rules',
  '''A physics stride moves the balloon with the wind for the stride's duration,
  changes pressure by the buoyancy-minus-drag terminal velocity, internal
  temperature by the heat balance, ballonet air by venting or compressing
  according to the command, and the battery by solar charge minus load, never
  below zero or above capacity. Envelope volume and superpressure always satisfy
  the gas law and the elastic envelope model; the balloon fails as burst, zero
  pressure or out of power exactly when the superpressure exceeds its limit,
  falls to zero or the battery empties, and a failed balloon refuses to fly on.
  A step is the composition of its strides, stops at the stride where the
  balloon fails, and refuses a duration that is not a whole number of
  strides.''',
  ['inputs', 'histories'],
  '''every balloon state within physical ranges, every wind, command and sun, all
  strides of 1 to 20 s''',
  '''the tests check signs and a few point values of single steps; the laws must
  hold for every state.''',
  ['env/balloon/balloon.py', 'env/balloon/acs.py', 'env/balloon/thermal.py'],
  [('Balloon.simulate_step', 'env/balloon/balloon.py'),
   ('_simulate_step_internal', 'env/balloon/balloon.py'),
   ('calculate_superpressure_and_volume', 'env/balloon/balloon.py')],
  [('BalloonState', 'the whole physical state', 'env/balloon/balloon.py')],
  ['Balloon.simulate_step', 'BalloonState'],
  note='''The update is polynomial/transcendental in 15+ reals, so each
  obligation frees two to nine state variables over their whole physical range
  and fixes the others; compositions of 2 (quick) / 3 strides.''')

p('C06', 'The atmosphere is one consistent monotone profile from 0 to 35 km',
  '''Temperature, density and height reported at a pressure, and temperature,
  density and pressure reported at a height, follow the standard atmosphere's
  layer equations for the lapse rates drawn for the episode, and the two
  directions are inverse to each other. Higher pressure always means lower
  height. Pressures and heights outside the tables are refused, and the lapse
  rates drawn are always a mix of the two extreme profiles.''',
  ['inputs', 'configurations'],
  'every pressure, every height and every lapse-rate draw',
  'the tests compare a handful of pressures with table values.',
  ['env/balloon/standard_atmosphere.py'],
  [('Atmosphere.at_pressure / at_height', 'env/balloon/standard_atmosphere.py'),
   ('Atmosphere.reset', 'env/balloon/standard_atmosphere.py')],
  observe=['Atmosphere.at_pressure', 'Atmosphere.at_height'],
  note='''Layer by layer, pressure or height free; lapse-rate draws sampled at
  three (quick) / more values because two free exponents are out of reach;
  the mix itself is decided for every draw.''')

p('C07', 'Solar power follows elevation and air mass, is bounded and dark at night',
  '''Attenuation of sunlight depends only on solar elevation and pressure by the
  two-band air-mass law, lies in [0, 1], never grows with pressure and is zero
  below the horizon. The panels' power is the sum over the six mounted panels of
  incidence, shadowing and attenuation: never negative, at most 1260 W and zero
  at night. Elevations outside [-90, 90] degrees and pressures outside
  [0, 101325] Pa are refused.''',
  ['inputs'],
  'every solar elevation and pressure',
  'the tests evaluate a few elevations at one pressure.',
  ['env/balloon/solar.py'],
  [('solar_atmospheric_attenuation', 'env/balloon/solar.py'),
   ('balloon_shadow', 'env/balloon/solar.py'),
   ('solar_power', 'env/balloon/solar.py')],
  observe=['solar.solar_power', 'solar.solar_atmospheric_attenuation'],
  note='Elevation free by intervals; power with attenuation as an arbitrary function.')

p('C08', 'The sun is where the NOAA algorithm puts it, for every place and second',
  '''For every position and instant, in whatever time zone it is given, the
  reported solar elevation, azimuth and irradiance are those of the published NOAA algorithm including atmospheric
  refraction: elevation within [-90, 90] degrees, azimuth within [0, 360] and on
  the western side in the afternoon, irradiance following the Earth-Sun
  distance. Naive datetimes and invalid positions are refused.''',
  ['inputs'],
  'every latitude, longitude and second of a day',
  'the tests compare about a dozen places and times with reference values.',
  ['env/balloon/solar.py'],
  [('solar_calculator', 'env/balloon/solar.py')],
  observe=['solar.solar_calculator'],
  note='''Latitude, longitude and second of the day all free; days: seven (quick)
  / every ninth day of 2011-2014 (thorough). Positions at most 80 degrees from
  the equator.''')

p('C09', 'Physical quantities convert consistently and refuse to mix kinds',
  '''Distances, velocities, energies and powers keep the same physical value in
  every unit they are constructed from or read in, and addition, subtraction,
  scaling, ratios, and speed x duration or power x duration obey the usual
  algebra exactly. Combining or comparing quantities of different kinds raises
  instead of giving a number. Time helpers are time-zone aware and mutually
  inverse.''',
  ['inputs'],
  'every pair of quantities and every factor and duration',
  'the tests use a few literal values per operator.',
  ['utils/units.py'],
  [('Distance, Velocity, Energy, Power', 'utils/units.py'),
   ('timedelta_to_hours, datetime helpers', 'utils/units.py')],
  observe=['units.Distance', 'units.Velocity', 'units.Energy', 'units.Power'])

p('C10', 'Feature scalings are order-preserving, in range, invertible, and guarded',
  '''Linear rescaling maps [min, max] onto [0, 1] and inverts exactly, with and
  without extrapolation, and the squashing transform maps [0, inf) into [0, 1)
  and inverts exactly. Both preserve order, work elementwise on arrays, and
  raise ValueError on arguments outside their domain.''',
  ['inputs'],
  'every argument, range and constant',
  'the tests sample a few points of each function.',
  ['utils/transforms.py'],
  [('linear_rescale_with_saturation / _extrapolation', 'utils/transforms.py'),
   ('squash_to_unit_interval / undo_*', 'utils/transforms.py')],
  observe=['utils.transforms'])

p('C11', 'Every episode starts in a valid, equilibrated state near the station',
  '''Whatever the random draws, an episode's station lies in the tropics away
  from the date line, its start time within the requested range, its upwelling
  infrared at or above 225 W/m2, and the balloon within 200 km of the station,
  in a direction drawn uniformly, at a pressure between 6500 Pa and that of the
  lowest permitted altitude. The balloon starts intact, with the charge, volume,
  superpressure, temperature and gas amounts that make it float in equilibrium
  at that pressure and that sun.''',
  ['inputs', 'configurations'],
  'every value of every random draw, every start pressure and atmosphere',
  'the tests draw a few seeds; the claim is over all draws.',
  ['utils/sampling.py', 'env/balloon/stable_init.py', 'env/balloon_arena.py'],
  [('sampling.sample_location / _time / _pressure / _upwelling_infrared',
    'utils/sampling.py'),
   ('stable_init.cold_start_to_stable_params', 'env/balloon/stable_init.py'),
   ('BalloonArena._initialize_balloon', 'env/balloon_arena.py')],
  observe=['sampling', 'stable_init.cold_start_to_stable_params',
           'BalloonArena.reset'],
  note='''Each random draw is a free variable over its documented support; the
  heat balance of the cold start is an arbitrary affine function.''')

p('C12', 'A balloon offset from its station is the right great-circle position',
  '''The position at an offset from a station is the one reached by travelling
  the offset's length along the great circle in the offset's direction: zero
  offset is the station itself, the result is always a valid latitude and
  longitude, and crossing the date line wraps the longitude. Positions survive
  copying.''',
  ['inputs'],
  'every station and every offset',
  'the tests check four compass directions from one station.',
  ['utils/spherical_geometry.py', 'env/balloon/balloon.py'],
  [('calculate_latlng_from_offset', 'utils/spherical_geometry.py')],
  observe=['spherical_geometry.calculate_latlng_from_offset',
           'BalloonState.latlng'])

p('C13', 'The reward is the published station-keeping reward, monotone and bounded',
  '''The reward is 1 inside the station-keeping radius and outside it the dropoff
  times an exponential decay with the distance beyond the radius, so it never
  rises with distance and always lies in [0, 1]. Descending without excess
  energy is penalised by at least 5 percent and more the more compressor power
  it draws, and nothing else is. Energy is in excess exactly when the panels
  out-produce the daytime load and the battery is more than 99 percent full.''',
  ['inputs', 'configurations'],
  'every position, command, power draw, charge and reward parameter',
  'the tests evaluate a handful of distances and powers.',
  ['env/balloon_env.py', 'env/balloon/balloon.py'],
  [('perciatelli_reward_function', 'env/balloon_env.py'),
   ('BalloonState.excess_energy', 'env/balloon/balloon.py')],
  observe=['balloon_env.perciatelli_reward_function'])


p('C14', 'The wind flown is the forecast plus noise, both pure functions of query',
  '''The ground-truth wind at any place, pressure and time is the vector sum of
  the forecast and the wind noise there, and asking for any wind changes
  nothing. The noise is a fixed sum of five harmonics per component around
  random offsets, decided by the key the field was last reset with, each
  harmonic and the forecast drawing from its own key; using noise before a reset
  is refused. Wind vectors add componentwise, and the static field gives the
  four documented bands at every place and time.''',
  ['inputs', 'configurations'],
  'every place, pressure, time and random draw',
  '''the tests query single points; purity and additivity are claims over the
  whole domain and over query histories.''',
  ['env/wind_field.py', 'env/simplex_wind_noise.py'],
  [('WindField.get_ground_truth / reset', 'env/wind_field.py'),
   ('SimplexWindNoise / NoisyWindComponent / NoisyWindHarmonic',
    'env/simplex_wind_noise.py')],
  observe=['WindField.get_ground_truth', 'SimplexWindNoise.get_wind_noise'],
  note='''OpenSimplex is an arbitrary function of its seed and arguments.''')

p('C15', 'Grid winds interpolate, hold at the edges and reflect in time',
  '''A wind field over a grid returns at every place, pressure and time the
  multilinear interpolation of the sampled grid, held constant beyond its edges
  in space and pressure and reflected in time beyond its last hour, so every
  component lies within the range of the grid. A forecast column agrees with
  single forecasts at each of its pressures. A reset samples a new grid from
  the given key and start time; asking before a reset is refused.''',
  ['inputs', 'configurations'],
  'every place, pressure and elapsed time, any grid values',
  '''the tests query grid points and a few points outside; interpolation,
  clamping and reflection are claims over a continuum.''',
  ['env/grid_based_wind_field.py', 'env/generative_wind_field.py',
   'generative/vae.py'],
  [('GridBasedWindField.get_forecast / get_forecast_column / _prepare_*',
    'env/grid_based_wind_field.py'),
   ('GenerativeWindFieldSampler', 'env/generative_wind_field.py'),
   ('FieldShape', 'generative/vae.py')],
  observe=['GridBasedWindField.get_forecast',
           'GridBasedWindField.get_forecast_column'],
  note='''Grid of a few points per axis; up to two of the four coordinates free
  at once in the quick tier. The decoder network is an arbitrary function of
  the latents.''')

p('C16', 'A step flies 180 s in the local wind and reports exactly the new state',
  '''One environment step applies the commanded action (0, 1, 2; anything else is
  refused) for 180 s in the ground-truth wind at the place and time the step
  began, then observes once and returns that observation, the reward of the new
  state, a terminal flag that is set exactly when the balloon is out of power,
  burst or at zero pressure, and info naming which. A reset draws atmosphere,
  start, balloon and wind from distinct keys, starts the wind at the balloon's
  start time, and observes the initial state once with fresh features. Setting a
  simulator state puts exactly that balloon, wind and atmosphere in use.''',
  ['inputs', 'histories', 'configurations'],
  '''every command sequence, every place, every wind function, every status and
  every random draw''',
  '''the tests step a few times in one wind; the order of wind lookup, flight,
  observation and reward matters for every wind and history.''',
  ['env/balloon_env.py', 'env/balloon_arena.py', 'env/simulator_data.py'],
  [('BalloonEnv.step / reset', 'env/balloon_env.py'),
   ('BalloonArena.step / reset / set_simulator_state',
    'env/balloon_arena.py')],
  observe=['BalloonEnv.step', 'BalloonEnv.reset', 'BalloonArena.step'],
  note='''1 (quick) / 2 (thorough) steps; the wind is an arbitrary function; an
  arena's answers are arbitrary in the environment obligations.''')

p('C17', 'Same seed, same episode, whatever else the process flew',
  '''Two simulations given the same seed (or that seed's key) and the same commands
  go through the same states, winds and observations, whether new or reused
  after another episode, alone or interleaved with a simulation of another seed.
  Environments seeded alike agree also on the unseeded resets that follow.
  Different seeds share no random key, and two balloons share no safety layer,
  charge or other mutable state.''',
  ['histories', 'schedules', 'inputs'],
  '''every command sequence, every earlier episode and interleaving within the
  bounds, every value of the random draws''',
  '''the tests compare one seed twice; leakage between episodes or instances
  depends on what ran before.''',
  ['env/balloon_arena.py', 'env/balloon_env.py', 'env/balloon/balloon.py'],
  [('BalloonArena.reset / _initialize_balloon', 'env/balloon_arena.py'),
   ('BalloonEnv.reset / seeding', 'env/balloon_env.py'),
   ('BalloonState defaults', 'env/balloon/balloon.py')],
  observe=['BalloonArena.reset', 'BalloonArena.step', 'BalloonEnv.reset'],
  note='''2 (quick) / 3 (thorough) commands per episode; start pressure, time,
  infrared and station are opaque functions of their key, the wind an arbitrary
  function of its key, place and time.''')


p('C18', 'The observation vector is the documented encoding of the current state',
  '''The Perciatelli vector always has 1099 numbers: the sixteen ambient ones are
  the documented functions of the latest state (pressure, charge, sun, normalised
  solar cycle, heading and distance to the station, one-hot last command,
  navigation flags, excess energy, compressor power, pressure ratio), all within
  the observation space. The rest is a wind column centred on the pressure level
  nearest the balloon, giving (uncertainty, bearing error, squashed magnitude) of
  the predicted wind at each reachable level and (0, 1, 1) at every other. Reading
  a vector back by name returns those values and refuses levels outside the
  column.''',
  ['inputs', 'configurations'],
  '''every position, pressure, superpressure, charge, sun, command, set of
  paused layers, predicted wind and reachable range''',
  '''the tests compare a few entries for a few states; an encoding that agents
  were trained on must hold at every state, including beyond the pressure
  range.''',
  ['env/features.py', 'env/balloon/power_table.py'],
  [('PerciatelliFeatureConstructor', 'env/features.py'),
   ('NamedPerciatelliFeatures', 'env/features.py'),
   ('compute_sunrise_time', 'env/features.py'),
   ('power_table.lookup', 'env/balloon/power_table.py')],
  observe=['PerciatelliFeatureConstructor.get_features',
           'NamedPerciatelliFeatures'],
  note='''A few state components are free at a time; balloon pressure and range
  ends free in windows around several levels; winds fixed except at one level,
  where the wind is free.''')

p('C19', 'The reachable pressure range is safe and as wide as safety allows',
  '''The accessible range of a balloon runs from the pressure at which it floats
  with no air ballast to that of the lowest permitted altitude, each end pulled in
  to where the stable superpressure crosses the envelope safety buffers if it is
  unsafe there. Stable superpressure is computed for this balloon, atmosphere and
  time; when no safe pressure exists in a direction the request is refused with
  ValueError.''',
  ['inputs', 'configurations'],
  '''every amount of lift gas, mass and volume, and superpressure profiles linear
  in pressure with free offset''',
  'the tests try a handful of balloons.',
  ['env/balloon/pressure_range_builder.py'],
  [('get_pressure_range', 'env/balloon/pressure_range_builder.py')],
  observe=['pressure_range_builder.get_pressure_range'],
  note='''Superpressure profiles linear in pressure with slope from a list of 4
  (quick) / 14 (thorough), isothermal air.''')

p('C20', 'Predicted winds are the exact regression on recent measurements',
  '''The predicted wind is the forecast plus a Gaussian-process regression of the
  measured forecast errors with the published Matern weights over place, pressure
  and time, and the uncertainty is the unexplained share of the prior variance,
  always in [0, 1]. Only measurements less than six hours from the time asked
  about count; with none that counts the forecast remains. Asking changes nothing,
  the order of measurements does not matter, and a reset forgets them all.''',
  ['inputs', 'histories'],
  '''every measurement place, time and wind, every query, any forecast
  function''',
  '''the tests make one or two measurements; the claim covers every history,
  including one where all measurements have expired.''',
  ['env/wind_gp.py'],
  [('WindGP.observe / query_batch / reset', 'env/wind_gp.py')],
  observe=['WindGP.query', 'WindGP.query_batch'],
  note='''Up to 3 measurements; places free for one measurement, fixed for
  several. The regression library is modelled by exact elimination.''')

p('C21', 'Next noon, midnight, sunrise and sunset are found to within one step',
  '''For any sun whose elevation falls steadily from noon to midnight and rises
  back, at any moment of the day: the next solar noon and midnight are found to
  within one search step, with the elevation at the time reported; the next
  sunrise and sunset lie within a day ahead and the elevation crosses the horizon
  (-4.242 degrees) within one step of them, in the right direction; it is
  afternoon exactly when midnight comes before noon; the steps to sunrise are 0
  by day and otherwise the number of steps until sunrise is over. Latitudes above
  60 degrees are refused.''',
  ['inputs'],
  '''every elevation profile that is piecewise linear over 12 (thorough: 24)
  pieces of half a day, or sinusoidal with any mean and swing, with a day and a
  night of more than four steps; several moments of the day; every latitude for
  the refusal''',
  '''the tests look at a few real days at a few places; the searches must work for
  every shape of day, and did discard the wrong half for asymmetric ones.''',
  ['env/balloon/solar.py'],
  [('get_next_solar_noon / get_next_solar_midnight / get_next_sunrise_sunset',
    'env/balloon/solar.py'),
   ('_find_solar_elevation, calculate_steps_to_sunrise, is_solar_afternoon',
    'env/balloon/solar.py')],
  observe=['solar.get_next_sunrise_sunset', 'solar.get_next_solar_noon',
           'solar.get_next_solar_midnight', 'solar.calculate_steps_to_sunrise'],
  note='''The moment asked about is concrete (8 moments quick, 48 thorough); step
  1 h (thorough 30 min) for free shapes, the default 3 min for sinusoids.''')

p('C22', 'The balloon warms and cools by one exact heat balance',
  '''The internal temperature changes at the rate (absorbed sunlight + absorbed
  earth infrared + convection - emission) / (mass x heat capacity): sunlight is
  attenuated for the sun's elevation at the balloon's pressure and falls on a
  quarter of the area, earth flux on the 0.4605 view factor, absorptivities
  include all internal reflections, and infrared absorptivity follows the
  temperature of the emitter. More attenuated sunlight never cools the balloon,
  no sunlight means the sun is ignored, equal temperatures exchange no heat by
  convection and otherwise heat flows to the colder side; films that absorb or
  reflect more than everything are refused.''',
  ['inputs'],
  '''every elevation, solar flux and attenuation, and one of volume, ambient
  temperature, pressure and balloon temperature at a time over its flight
  range''',
  '''the tests compare a handful of states to recorded numbers or signs.''',
  ['env/balloon/thermal.py'],
  [('d_balloon_temperature_dt', 'env/balloon/thermal.py'),
   ('total_absorptivity / convective_heat_air_factor',
    'env/balloon/thermal.py')],
  observe=['thermal.d_balloon_temperature_dt', 'thermal.total_absorptivity',
           'thermal.convective_heat_air_factor'],
  note='''Convection's powers of temperature are decided at listed temperatures
  and, for one free quantity at a time, up to uninterpreted powers with bounds;
  mass and earth flux from lists.''')

p('C23', 'StationSeeker flies towards the best-scoring reachable wind',
  '''StationSeeker scores every reachable pressure level by its bearing, speed and
  uncertainty with the published weights (distance-dependent mix of bearing and
  speed, optimism for uncertain winds, a small preference for staying near the
  current level), and its action goes towards the level with the highest score: up
  if that is above the balloon, down if below, stay if it is the current level.
  Unreachable levels never attract it and no past observation matters.''',
  ['inputs'],
  '''every uncertainty, bearing and speed (one or two free per level) at up to
  four reachable levels, at several distances''',
  '''the tests check a few hand-made columns with one obvious winner.''',
  ['agents/station_seeker_agent.py', 'env/features.py'],
  [('StationSeekerAgent.pick_action', 'agents/station_seeker_agent.py')],
  observe=['StationSeekerAgent.begin_episode', 'StationSeekerAgent.step'],
  note='''Scores at least 1e-5 apart; distances from a list.''')

p('C24', 'Exploration walks and phases as specified, and never reuses randomness',
  '''The random-walk agent draws one target pressure per episode, moves it once
  per step by a Gaussian of 0.1666 Pa per second, and climbs, sinks or stays
  according to a 100 Pa dead band around it. MarcoPolo explores in an episode with
  the given probability, then in the last 2 h of every 6 h takes the exploratory
  agent's action and otherwise the agent's own; outside those it changes nothing.
  No random key is used twice, and a seed decides every draw.''',
  ['inputs', 'histories'],
  '''every pressure, target, Gaussian or uniform draw and probability''',
  '''the tests fix a seed; they cannot tell a wrong scale or phase from luck.''',
  ['agents/random_walk_agent.py', 'agents/marco_polo_exploration.py',
   'agents/exploration.py'],
  [('RandomWalkAgent.begin_episode / step', 'agents/random_walk_agent.py'),
   ('MarcoPoloExploration.step', 'agents/marco_polo_exploration.py')],
  [('_target_pressure', 'the pressure walked to', 'agents/random_walk_agent.py'),
   ('_exploratory_episode / _phase', 'whether and where in its phases an episode '
    'explores', 'agents/marco_polo_exploration.py')],
  ['RandomWalkAgent.step', 'MarcoPoloExploration.step'],
  note='''Three (thorough: five) steps of the walk; two episodes of MarcoPolo of
  up to 960 steps. Known finding: later steps of the walk are too long.''')

p('C25', 'Checkpoints are found, restored and cleaned up exactly',
  '''What is saved for an iteration is exactly what is restored for it; the latest
  checkpoint is the highest-numbered complete checkpoint file of the directory, or
  -1; cleaning up removes exactly the checkpoints older than the duration
  allows, and no other file; an agent with nothing to save leaves no file; a
  missing checkpoint restores nothing.''',
  ['inputs', 'histories'],
  '''every iteration number and duration up to 200000, any subset of checkpoint
  files next to foreign and malformed names, listed in any order''',
  '''the tests use a few low numbers in a clean directory; names change width at
  100000 and directories hold other files.''',
  ['agents/dopamine_utils.py'],
  [('clean_up_old_checkpoints / get_latest_checkpoint',
    'agents/dopamine_utils.py'),
   ('save_checkpoint / load_checkpoint', 'agents/dopamine_utils.py')],
  observe=['dopamine_utils.save_checkpoint', 'dopamine_utils.load_checkpoint',
           'dopamine_utils.get_latest_checkpoint',
           'dopamine_utils.clean_up_old_checkpoints'],
  note='''File names from lists spanning 0 to 123456; the file system is an
  in-memory one with the gfile interface. Crashes during a save are outside.''')

p('C26', 'Learning agents remember what was done and learn when due',
  '''The DQN and quantile agents hand every reward and observation to the learner
  once; the action returned (the explorer's while training, the learner's own in
  evaluation) is the action stored with the transition. They learn only past the
  minimum history, from the sampled batch in its roles, at their update period,
  and sync the target network at its own. They restore the newest checkpoint, or
  start afresh if it is broken. The MLP agent acts greedily, learns one transition
  per training step by the squared SARSA error, and nothing in evaluation. Unknown
  modes are refused and change nothing.''',
  ['inputs', 'histories'],
  '''every reward, counter, replay size, bound, checkpoint number and duration,
  and every mode per episode''',
  '''the tests check one step or a smoke run; off-policy bookkeeping errors leave
  them green.''',
  ['agents/dqn_agent.py', 'agents/quantile_agent.py', 'agents/mlp_agent.py'],
  [('QuantileAgent.step / _train_step', 'agents/quantile_agent.py'),
   ('DQNAgent._train_step', 'agents/dqn_agent.py'),
   ('MLPAgent.step / train / select_action', 'agents/mlp_agent.py')],
  [('action / eval_mode', 'what the replay buffer will store, and the mode',
    'agents/quantile_agent.py')],
  ['QuantileAgent.step', 'DQNAgent.step', 'MLPAgent.step'],
  note='''Dopamine's base classes and the jitted updates are stand-ins that
  record their arguments; two episodes of three steps.''')

p('C27', 'Training resumes where it stopped and reports every transition once',
  '''The training loop runs exactly the iterations after the newest checkpoint,
  with the set number of episodes each and one checkpoint after each; every action
  of the agent is taken, every reward and observation reaches the agent once, and
  the agent is told whether the episode ended or was cut off. Collectors see every
  transition once with its reward, then a summary with the episode's length and
  ending; pickles and TensorBoard scalars are numbered from the resumed episode,
  and the episode reward is the sum of its rewards.''',
  ['inputs', 'histories'],
  '''every reward, every place an episode may end within the bounds, every number
  of collectors and resumption point''',
  '''the tests stub most of the loop and sample one schedule.''',
  ['train_lib.py', 'metrics/collector_dispatcher.py',
   'metrics/pickle_collector.py', 'metrics/tensorboard_collector.py',
   'metrics/console_collector.py', 'metrics/collector.py'],
  [('run_training_loop', 'train_lib.py'),
   ('CollectorDispatcher', 'metrics/collector_dispatcher.py')],
  observe=['train_lib.run_training_loop', 'CollectorDispatcher.step',
           'TensorboardCollector.end_episode', 'PickleCollector.end_episode'],
  note='''Up to 3 steps per episode, 2 episodes whose end is free. Known finding:
  the episode reward counts the last reward twice.''')

p('C28', 'An evaluation reports exactly the flights that were flown',
  '''Evaluation flies each seed of the suite once, in order, seeding then resetting
  the environment, with the agent in evaluation mode and its every action taken.
  The result gives the sum of the rewards, the share of steps that ended within
  the environment's radius, the number of steps, why the flight ended (only if it
  did), and the flight path of every step when asked for. Results are encoded
  with positions in kilometres and all their values. Suites have the documented
  seeds without repetition, and what a caller does with one never changes
  another. Empty flights are refused before anything happens.''',
  ['inputs', 'histories'],
  '''every reward, position, pressure and radius, every place and reason a flight
  may end''',
  '''the tests fly one stub agent and compare a few fields.''',
  ['eval/eval_lib.py', 'eval/suites.py'],
  [('eval_agent', 'eval/eval_lib.py'),
   ('EvalResultEncoder', 'eval/eval_lib.py'),
   ('get_eval_suite', 'eval/suites.py')],
  observe=['eval_lib.eval_agent', 'EvalResultEncoder.default',
           'suites.get_eval_suite'],
  note='''Up to 3 steps and 2 seeds (thorough: 6 steps, 3 seeds).''')

p('C29', 'Sharded evaluation covers every seed once and combines without loss',
  '''For any number of shards, consecutive shards are given consecutive, fair runs
  of the suite's seeds that start at the first and end at the last. Each shard
  writes one file of its own in the suite's directory; combining the shards of an
  agent yields every flight of that agent exactly once, unchanged, in order of
  seeds, with flight paths only on request, and nothing of other agents whose
  names are similar. A run binds its settings first, loads a checkpoint exactly
  when both directory and number are given, and refuses stray arguments.''',
  ['inputs'],
  '''every shard index for each listed suite size and shard count; every seed
  order and every reward; similar agent names''',
  '''there are no tests of sharding at all; losing or doubling seeds would only
  show in aggregate numbers.''',
  ['eval/eval.py', 'eval/combine_eval_shards.py'],
  [('main (shard bounds)', 'eval/eval.py'), ('write_result', 'eval/eval.py'),
   ('main', 'eval/combine_eval_shards.py')],
  observe=['eval.main', 'eval.write_result', 'combine_eval_shards.main'],
  note='''Suite sizes up to 10000 with up to 150 (thorough: 999) shards from a
  list; up to four flights combined.''')

p('C30', 'The compressor follows its tables and never exceeds the power allowed',
  '''The most efficient compressor power interpolates the published points of
  pressure ratio and power, stays within 100 to 400 W, and never falls as the
  ratio grows; fan efficiency interpolates its table, stays within 0 and 40 %, and
  beyond the table keeps the value at its edge; mass flow is efficiency times power
  over 3600. The power table allows exactly the published power for a pressure
  ratio between 0.99 and 5 and a state of charge, nothing below 30 % charge, never
  less for a fuller battery, and refuses other ratios. No query changes the answer
  to a later one.''',
  ['inputs'],
  '''every pressure ratio from 0.5 to 5, state of charge and power''',
  '''tables are tested at a few points; a boundary or an interpolation that is off
  between them goes unseen.''',
  ['env/balloon/acs.py', 'env/balloon/power_table.py'],
  [('get_most_efficient_power / get_fan_efficiency / get_mass_flow',
    'env/balloon/acs.py'), ('lookup', 'env/balloon/power_table.py')],
  observe=['acs.get_most_efficient_power', 'acs.get_fan_efficiency',
           'acs.get_mass_flow', 'power_table.lookup'],
  note='''Fan efficiency at powers from a list. Known finding: the efficiency table
  is read transposed between its corners.''')

p('C31', 'Names, files and settings start exactly the run that was asked for',
  '''Agent and wind field names give exactly the registered agents and wind fields,
  built with the environment's sizes, and unknown names are refused. The agent's
  settings file (its own or the one given) applies before additional files, and
  bindings last. Model files are looked for in the package, then in the source
  tree; a path given is the only one tried; a missing model is reported as
  documented. The trainer binds the settings before it builds anything, builds the
  environment and agent asked for, and trains them for as long as asked, in a
  directory per agent and run. The environment is registered exactly once, under
  its published name.''',
  ['inputs', 'configurations'],
  '''every agent and wind name, every combination of model files that exist, any
  number of iterations, steps, episodes and periods''',
  '''the entry points have no tests, and the tests that load models have them.''',
  ['utils/run_helpers.py', 'agents/agent_registry.py', 'models/models.py',
   'train.py', 'env/gym.py'],
  [('bind_gin_variables / get_wind_field_factory / create_agent',
    'utils/run_helpers.py'), ('agent_constructor', 'agents/agent_registry.py'),
   ('load_offlineskies22 / load_perciatelli44', 'models/models.py'),
   ('main', 'train.py'), ('register_env', 'env/gym.py')],
  observe=['run_helpers.create_agent', 'run_helpers.bind_gin_variables',
           'models.load_offlineskies22', 'models.load_perciatelli44',
           'train.main'],
  note='''gin and the file system are recording stand-ins.''')

p('C32', 'The renderer draws the flight that was flown, in every mode',
  '''After any number of steps, looked at or not in between, the drawing shows every
  position of the flight in kilometres, its altitude, and the state of charge in
  percent over time, with the balloon at the end of the path and the station
  circled at 50 km; after a reset it shows the new flight only. Frames are three-colour arrays of what was last drawn
  which later drawing does not change, TensorBoard images are written once at the
  step given and only to a given writer, only people are shown windows, and other
  modes are refused.''',
  ['inputs', 'histories'],
  '''every position, pressure and charge, and every choice of when to look''',
  '''the tests mock the plotting library and check that calls were made, not what
  is drawn.''',
  ['env/rendering/matplotlib_renderer.py'],
  [('MatplotlibRenderer.step / render / reset',
    'env/rendering/matplotlib_renderer.py')],
  [('_trajectory / _charge', 'what has been flown so far',
    'env/rendering/matplotlib_renderer.py')],
  ['MatplotlibRenderer.render'],
  note='''matplotlib is a recording stand-in; up to 3 steps (thorough: 5).''')

p('C33', 'Wind generation and value networks compute what their papers state',
  '''For any weights and latents, the decoder's winds are the central-difference
  rotation of the flow fields (interpolated linearly between pixel centres), one
  per grid point, so that no air appears or disappears; the encoder squashes every
  wind into (-1, 1) in order; latents are the encoded Gaussian's, and the autoencoder
  decodes onto the grid it was asked for. Grid points are
  evenly spaced between their extents and all sizes agree. Value networks use the
  whole observation with a rectifier after each hidden layer, and quantile values
  are the mean of an action's quantiles. Training batches never contain held-out
  fields or one twice, with new randomness for each. A column of winds allows
  station keeping exactly if calm air lies in the hull of its winds.''',
  ['inputs'],
  '''every output of the last layer, wind, latent and grid extent, every draw;
  several grid shapes''',
  '''the tests check shapes and one divergence sample for random weights.''',
  ['generative/vae.py', 'agents/networks.py', 'utils/wind.py',
   'generative/dataset_wind_field_reservoir.py'],
  [('Decoder / Encoder / FieldShape', 'generative/vae.py'),
   ('is_station_keeping_winds', 'utils/wind.py'),
   ('MLPNetwork / QuantileNetwork', 'agents/networks.py'),
   ('wind_field_speeds', 'utils/wind.py'),
   ('get_batch', 'generative/dataset_wind_field_reservoir.py')],
  observe=['Decoder', 'Encoder', 'FieldShape.grid_shape', 'QuantileNetwork',
           'DatasetWindFieldReservoir.get_batch'],
  note='''Dense layers are stand-ins whose outputs are free; grid shapes up to 5 by
  5 places (thorough: 21 by 21).''')


p('C34', 'Ready-made agents act legally on what they are shown',
  '''The random agent takes only actions that exist, each equally often. Perciatelli44
  loads the published model once, refuses other sizes, and takes the action its
  network values most for the observation just shown. Fine-tuning starts both
  networks from Perciatelli44's weights exactly when asked, every layer with its own
  kernel and bias. An agent that defines no checkpoints saves and loads nothing and
  reports none to go on from; agents start out training; an agent that cannot act
  cannot be made.''',
  ['inputs', 'histories'],
  '''every number of actions and draw, every value of every action, every weight, and
  several orders of the model's nodes''',
  '''the model file is not part of the tests, and the random agent is only run.''',
  ['agents/agent.py', 'agents/perciatelli44.py', 'agents/quantile_agent.py'],
  [('RandomAgent / Agent', 'agents/agent.py'),
   ('Perciatelli44.step', 'agents/perciatelli44.py'),
   ('load_perciatelli_weights', 'agents/quantile_agent.py')],
  observe=['Agent.step', 'Perciatelli44.step', 'QuantileAgent.online_params'],
  note='''TensorFlow is a recording stand-in; the values of the model itself are
  outside the claim. Three steps.''')


p('C35', 'The wind generator is trained on the documented objective',
  '''A training step updates the autoencoder once, by the mean over its batch of the
  gradients of each field's loss: squared error over twice the squared spread, plus
  the log of the spread times sqrt(2 pi), plus the given weight times the
  Kullback-Leibler divergence of its encoding from the unit normal; it reports the
  batch means. Every field and every batch has randomness of its own. The KL weight
  comes from a schedule: constant, or stepping every so many epochs up to a cap. A
  run goes on from its own checkpoint, else from the run it is bootstrapped from,
  else afresh; it does the epochs left, each on fresh batches, assesses each on the
  same held-out fields with the same randomness, keeps the last checkpoint, and
  reports averages over the epoch.''',
  ['inputs', 'histories', 'configurations'],
  '''every field, reconstruction, gradient, KL weight and batch figure; several
  directories, run lengths and earlier checkpoints''',
  '''there is no test of the training script.''',
  ['generative/learn_wind_field_generator.py'],
  [('train_step / evaluation / train',
    'generative/learn_wind_field_generator.py'),
   ('step_schedule', 'generative/learn_wind_field_generator.py')],
  observe=['train_step', 'evaluation', 'step_schedule', 'kl_divergence'],
  note='''flax.optim is gone from the installed flax: a stand-in optimizer takes its
  place, in replays too; derivatives are given. Two fields of two values; up to four
  epochs of up to three batches.''')

p('C36', 'Acme agents train and are evaluated in the same environment',
  '''The environment made for Acme is the usual one, limited to the episode length
  asked for; assessed, it scores each step within its radius one share of the episode.
  Agents explore, by random walks, only while training and only if asked: the actor
  takes the explorer's action, both hear of every episode, and what was flown is what
  is remembered; when assessed, agents are greedy, from the newest learned weights.
  The evaluation agent acts with exactly the checkpoint asked for, or the fresh
  learner, and refuses to train. The recurrent network computes the same stepwise and
  unrolled. The local and the distributed run train and assess in turn in their own
  environments, as many episodes as asked.''',
  ['inputs', 'histories', 'configurations'],
  '''every position, radius, observation, recurrent state, exploring action and run
  size; several options, checkpoints and seeds''',
  '''acme is not installed; none of these modules is imported by the tests that
  run here.''',
  ['acme_utils.py', 'agents/acme_eval_agent.py', 'train_acme_qrdqn.py',
   'distributed_train_acme_qrdqn.py'],
  [('create_env / create_dqn / CombinedActor', 'acme_utils.py'),
   ('AcmeEvalAgent', 'agents/acme_eval_agent.py'),
   ('get_program', 'distributed_train_acme_qrdqn.py')],
  observe=['create_env', 'CombinedActor.select_action', 'AcmeEvalAgent.step',
           'R2D2Network.unroll'],
  note='''Acme, Haiku, RLax, dm_env and Launchpad are stand-ins, in replays too: what
  they do themselves is outside the claim. Two steps (thorough: four).''')

TECH = ('bounded symbolic execution of the repository source into z3 terms; '
        'solver verdict per path; counterexamples replayed on the real code')


def main():
  from checks import PROPS
  na_ids = {n['property'] for n in NA}
  with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for q in P:
      f.write(json.dumps({k: v for k, v in q.items() if k != 'note'}) + '\n')
  checks = []
  for q in P:
    if q['id'] in na_ids:
      continue
    checks.append(dict(
        property=q['id'],
        quick_cmd=f'python3-vt -m vx.run {q["id"]} --tier quick',
        thorough_cmd=f'python3-vt -m vx.run {q["id"]} --tier thorough',
        technique=TECH, level='other',
        level_note=(
            'Solver-decided for every value of the symbolic inputs within the '
            'bounds listed per obligation in the evidence; outside: float '
            'rounding, library models (vx/shims.py, vx/npshim.py), and the '
            'bounds themselves. ' + q['note']).strip()))
  m = dict(version=1, setup_cmd='python3-vt -c "import z3, numpy"',
           checks=checks, not_applicable=NA,
           hooks=dict(guard='none', enable='no hooks: the checks load the '
                      'unmodified source', source_commits=[]),
           notes='See DESIGN.md. Fixed defects: known_findings.json.')
  with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
  import jsonschema
  sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
  for line in open(os.path.join(ROOT, 'properties.jsonl')):
    jsonschema.validate(json.loads(line), sch)
  jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
  print(len(P), 'properties', len(checks), 'checks', len(NA), 'not applicable')


if __name__ == '__main__':
  main()
