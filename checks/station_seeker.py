"""The StationSeeker controller flies towards the best-scoring wind."""
import math
from vx.api import Ob

MID = 180


class Setup:

  def __init__(self, H, distance):
    self.H = H
    ss = H.load('agents.station_seeker_agent')
    self.agent = ss.StationSeekerAgent(3, (1099,))
    self.d = distance

  def obs(self, winds):
    """winds: {level: (uncertainty, bearing, magnitude)}."""
    v = [0.3, 0.7, 0.4, 0.1, 0.9, 0.6, 0.8, self.d, 0.0, 1.0, 0.0, 1.0, 0.0,
         0.0, 0.2, 0.5]
    for l in range(361):
      v.extend(winds.get(l, (0.0, 1.0, 1.0)))
    return self.H.array(v)

  def score(self, level, wind):
    """StationSeeker's score after Bellemare et al. (2020)."""
    m = self.H.math
    u, b, g = wind
    km = self.d * 250.0 / (1 - self.d)
    w = 0.6 + min(max((km - 250.0) / 250.0, 0.0), 1.0) * (0.45 - 0.6)
    alpha = math.exp(-km / 35.0)
    wind_score = ((1 - alpha) * m.exp(-w * (b * math.pi)) +
                  alpha * m.exp(-0.07 * (g * 30.0 / (1 - g))))
    hysteresis = 0.05 * math.exp(-0.001 * abs(level - MID))
    return (1 - u + 0.01) * wind_score + u * 0.5 + hysteresis


def pick(H, distance, levels, free):
  """A few reachable levels; at each, one or more of uncertainty, bearing and magnitude are free."""
  s = Setup(H, distance)
  winds = {}
  fixed = [(0.35, 0.6, 0.25), (0.7, 0.15, 0.1), (0.1, 0.4, 0.55),
           (0.5, 0.9, 0.3)]
  for i, l in enumerate(levels):
    u, b, g = fixed[i % 4]
    if 'u' in free[i]:
      u = H.real(f'u{l}', 0.0, 1.0)
    if 'b' in free[i]:
      b = H.real(f'b{l}', 0.0, 1.0)
    if 'g' in free[i]:
      g = H.real(f'g{l}', 0.0, 0.95)
    winds[l] = (u, b, g)
  sc = {l: s.score(l, winds[l]) for l in levels}
  for i, a in enumerate(levels):
    for b in levels[:i]:
      H.assume(H.abs(sc[a] - sc[b]) > 1e-5)
  o = s.obs(winds)
  before = H.choice('before', ['nothing', 'others', 'alike', 'same array'])
  if before == 'nothing':
    act = s.agent.begin_episode(o)
  elif before == 'alike':  # the same levels, each with the winds of the next
    s.agent.begin_episode(s.obs({
        l: fixed[(i + 1) % 4] for i, l in enumerate(levels)}))
    act = s.agent.step(0.5, o)
  elif before == 'same array':  # what was shown is overwritten in place
    shown = s.obs({40: (0.1, 0.1, 0.1), 260: (0.9, 1.0, 0.9)})
    s.agent.begin_episode(shown)
    shown[:] = o
    act = s.agent.step(0.5, shown)
  else:
    s.agent.begin_episode(s.obs({40: (0.1, 0.1, 0.1), 260: (0.9, 1.0, 0.9)}))
    s.agent.step(1.0, s.obs({300: (0.1, 0.1, 0.1)}))
    act = s.agent.step(0.5, o)
  H.check('one of the three actions', act in (0, 1, 2))
  side = {2: [l for l in levels if l < MID], 1: [l for l in levels if l == MID],
          0: [l for l in levels if l > MID]}[int(act)]
  H.check('moves towards a reachable level', bool(side))
  best = sc[side[0]]
  for l in side[1:]:
    best = H.max(best, sc[l])
  for l in levels:
    if l not in side:
      H.le(f'level {l} scores no better', sc[l], best, 1e-9)


def one(H):
  """A single reachable level anywhere in the column: fly to it."""
  s = Setup(H, H.choice('d', [0.0, 0.3, 0.9]))
  l = H.choice('level', [0, 1, 90, 179, 180, 181, 182, 300, 360])
  o = s.obs({l: (H.real('u', 0.0, 1.0), 0.999, 0.5)})
  act = int(s.agent.begin_episode(o))
  H.check('flies to the only level',
          act == (2 if l < MID else 0 if l > MID else 1))


def close(H):
  """Two reachable levels whose scores are close (free uncertainty within a window), in two observations in a row, either ahead by more than 1e-6 each time: the choice is that of the last observation, and that of an agent that has seen no other."""
  s = Setup(H, 0.5)
  lo, hi = H.choice('levels', [(170, 195), (150, 180), (181, 183)])
  base = (0.5, 0.3, 0.25)
  for k in range(2):
    d = H.real(f'd{k}', -0.03, 0.03)
    winds = {lo: (0.5 + d, 0.3, 0.25), hi: base}
    a, b = (s.score(l, winds[l]) for l in (lo, hi))
    H.assume(H.abs(a - b) > 1e-6)
    o = s.obs(winds)
    act = s.agent.step(0.5, o) if k else s.agent.begin_episode(o)
    to = lo if bool(a > b) else hi
    H.check('towards the better', int(act) == (
        2 if to < MID else 0 if to > MID else 1))


def obligations(tier):
  obs = [Ob('one', one), Ob('close', close)]
  far = [0.0, 0.12, 0.5, 0.6, 0.75]
  if tier == 'thorough':
    far += [0.02, 0.3, 0.55, 0.66, 0.9, 0.99]
  cases = [((170, 180, 200), ('u', 'u', 'u')),
           ((179, 181), ('ub', 'u')), ((150, 180, 181, 359), ('u', '', 'b', 'u')),
           ((20, 180), ('g', 'u')), ((180, 250), ('b', 'g'))]
  for d in far:
    for i, (l, f) in enumerate(cases):
      obs.append(Ob(f'pick_{d:g}_{i}', pick, dict(
          distance=d, levels=l, free=f)))
  return obs
