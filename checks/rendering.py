"""What the matplotlib renderer draws."""
import datetime as dt

from vx.api import Ob


class Axis:
  """Records what is drawn since it was last cleared."""

  def __init__(self, H):
    pane = H.ns(set_edgecolor=lambda *a, **k: None)
    fmt = lambda *a, **k: None
    self.xaxis = H.ns(pane=pane, set_major_formatter=fmt)
    self.yaxis = H.ns(pane=pane, set_major_formatter=fmt)
    self.zaxis = H.ns(pane=pane, set_major_formatter=fmt)
    self.drawn = []

  def clear(self):
    self.drawn = []

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)

    def draw(*a, **k):
      self.drawn.append((name, a, k))
    return draw

  def lines(self):
    return [a for n, a, _ in self.drawn if n in ('plot', 'plot3D')]

  def points(self):
    return [a for n, a, _ in self.drawn if n in ('scatter', 'scatter3D')]


class Setup:

  def __init__(self, H):
    self.H = H
    mr = H.load('env.rendering.matplotlib_renderer')
    self.np = H.lib('numpy')
    self.axes, self.shown, self.shots = [], [], []

    def axis(*a, **k):
      self.axes.append(Axis(H))
      return self.axes[-1]

    def buffer_rgba():
      """The canvas reuses its buffer."""
      return self.canvas

    def draw():
      self.shots.append(1)
      self.canvas[0, 0, 0] = len(self.shots)
    self.canvas = self.np.array([[[i, j, i + j, 255] for j in range(3)]
                                 for i in range(2)])
    fig = H.ns(add_subplot=axis, canvas=H.ns(
        draw=draw, buffer_rgba=buffer_rgba,
        get_width_height=lambda *a, **k: (3, 2)))
    H.patch(mr, 'plt', H.ns(
        figure=lambda *a, **k: fig,
        Circle=lambda xy, radius=5, **k: ('circle', xy, radius),
        pause=lambda *a: self.shown.append(a), cla=lambda: None,
        clf=lambda: None, close=lambda *a: None, draw=lambda: None,
        show=lambda *a, **k: self.shown.append(a)))
    H.patch(mr, 'gridspec', H.ns(GridSpec=lambda *a, **k: [None]))
    H.patch(mr, 'inset_axes', axis)
    H.patch(mr, 'art3d', H.ns(pathpatch_2d_to_3d=lambda *a, **k: None))
    H.patch(mr, 'mdates', H.ns(DateFormatter=lambda *a, **k: None))
    self.r = mr.MatplotlibRenderer()
    self.states = []

  def step(self, tag, sky='height'):
    """Position, pressure (and so altitude) and charge free."""
    H = self.H
    un = H.load('utils.units')
    x, y = H.real(f'x{tag}', -5e5, 5e5), H.real(f'y{tag}', -5e5, 5e5)
    p, s = H.real(f'p{tag}', 5e3, 2e4), H.real(f's{tag}', 0.0, 1.0)
    atm = H.ns(at_pressure=lambda pressure: H.ns(height=un.Distance(
        m=H.uf(sky, [pressure], 0.0, 3e4))))
    when = dt.datetime(2020, 5, 6, tzinfo=dt.timezone.utc) + dt.timedelta(
        minutes=3 * len(self.states))
    b = H.ns(x=un.Distance(m=x), y=un.Distance(m=y), pressure=p, battery_soc=s,
             date_time=when)
    self.r.step(H.ns(balloon_state=b, atmosphere=atm))
    self.states.append((x / 1000.0, y / 1000.0,
                        H.uf(sky, [p], 0.0, 3e4) / 1000.0, s * 100.0,
                        when))

  def same(self, label, got, col, times=False):
    want = [q[col] for q in self.states]
    got = list(got)
    self.H.check(label + ': as many as were flown', len(got) == len(want))
    for a, b in zip(got, want):
      if times:
        self.H.check(label, a == b)
      else:
        self.H.eq(label, a, b)

  def drawn(self):
    H = self.H
    full, power, inset = self.axes
    paths = [l for l in full.lines() if len(list(l[0])) == len(self.states) or
             len(list(l[0])) != 2]
    H.check('the path is drawn', len(paths) >= 1)
    self.same('eastward, km', paths[0][0], 0)
    self.same('northward, km', paths[0][1], 1)
    self.same('altitude, km', paths[0][2], 2)
    flat = inset.lines()
    H.check('the map shows the path', len(flat) == 1)
    self.same('map: eastward, km', flat[0][0], 0)
    self.same('map: northward, km', flat[0][1], 1)
    soc = power.lines()
    H.check('the battery is drawn', len(soc) == 1)
    self.same('times', soc[0][0], 4, True)
    self.same('charge, percent', soc[0][1], 3)
    for ax, name in ((full, 'station'), (inset, 'map: station')):
      c = [x[0] for n, x, _ in ax.drawn if n in ('add_patch', 'add_artist')]
      H.check(name + ' is circled at 50 km', [
          (x[0], tuple(x[1]), x[2]) for x in c] == [
              ('circle', (0.0, 0.0), 50.0)])
    last = self.states[-1]
    for l in full.lines():
      x, y = list(l[0]), list(l[1])
      if len(x) == 2 and l is not paths[0]:
        for k in range(2):
          H.eq('the stem stands under the balloon', x[k], last[0])
          H.eq('the stem stands under the balloon', y[k], last[1])
    for ax, dims, name in ((full, 3, 'balloon'), (inset, 2, 'map: balloon')):
      at = ax.points()
      H.check(name + ' is drawn', bool(at))
      for k in range(dims):
        H.eq(name + ' is where the path ends', at[-1][k], last[k])


def draw(H, steps):
  """Every position, pressure and charge free; what is asked for by choice."""
  s = Setup(H)
  for i in range(steps):
    s.step(f'{i}')
    if H.flag(f'look{i}'):
      s.r.render('human')
      s.drawn()
  mode = H.choice('mode', ['human', 'rgb_array', 'tensorboard'])
  shown = len(s.shown)
  if mode == 'tensorboard':
    log = []
    writer = H.ns(image=lambda tag, image, step, max_outputs=3: log.append(
        (image, step)), flush=lambda: log.append('flush'))
    s.r.render(mode, writer, 17)
    H.check('written once, at its step', len(log) == 2 and
            log[0][1] == 17 and log[1] == 'flush')
    s.r.render(mode)
    s.r.render(mode, None, 18)
    H.check('nothing without a writer', len(log) == 2)
    frame = log[0][0]
  else:
    frame = s.r.render(mode)
  s.drawn()
  H.check('shown to people only', (len(s.shown) > shown) == (mode == 'human'))
  if mode == 'human':
    H.check('no frame returned', frame is None)
  else:
    H.check('a frame of three colours', tuple(frame.shape) == (2, 3, 3))
    n = int(frame[0, 0, 0])
    H.check('of what was drawn', n == 1 and all(
        int(frame[i, j, c]) == (i, j, i + j)[c] for i in range(2)
        for j in range(3) for c in range(3) if (i, j, c) != (0, 0, 0)))
    s.r.render('rgb_array')
    H.check('frames are kept', int(frame[0, 0, 0]) == n)
  ok, e = H.attempt(s.r.render, 'ansi')
  H.check('other modes are refused', not ok and isinstance(e, ValueError))


def reset(H):
  """A new flight, under another sky, forgets the old one."""
  s = Setup(H)
  s.step('a')
  s.step('b')
  s.r.render('human')
  s.r.reset()
  del s.states[:]
  s.step('c', 'next_height')
  s.r.render('human')
  s.drawn()
  s.step('d', 'next_height')
  s.r.render('human')
  s.drawn()


def together(H):
  """Two renderers, whose flights may start in turn, keep to their own."""
  a, b = Setup(H), Setup(H)
  for k in range(2):
    a.step(f'a{k}')
    if H.flag(f'again{k}'):
      b.r.reset()
      del b.states[:]
    b.step(f'b{k}', 'other_height')
  a.r.render('human')
  a.drawn()
  b.r.render('human')
  b.drawn()


def obligations(tier):
  obs = [Ob('reset', reset), Ob('together', together)]
  for n in (1, 3) + ((5,) if tier == 'thorough' else ()):
    obs.append(Ob(f'draw_{n}', draw, dict(steps=n)))
  return obs
