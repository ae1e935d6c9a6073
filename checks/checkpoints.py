"""Saving, finding, loading and cleaning up checkpoints."""
import fnmatch
import pickle

from vx.api import Ob


class Missing(Exception):
  pass


class Denied(Exception):
  pass


class Disk:
  """A file system in memory with tensorflow's gfile interface."""

  def __init__(self, H, order=1):
    self.H = H
    self.files = {}  # full path -> bytes
    self.dirs = set()
    self.log = []
    self.order = order
    disk = self

    class GFile:

      def __init__(self, name, mode='r'):
        self.name, self.mode, self.pos = str(name), mode, 0
        if 'r' in mode and self.name not in disk.files:
          raise Missing(name)
        if 'w' in mode:
          disk.files[self.name] = b''
          disk.log.append(('write', self.name))

      def write(self, data):
        disk.files[self.name] += bytes(data)

      def read(self, n=-1):
        d = disk.files[self.name]
        e = len(d) if n is None or n < 0 else self.pos + n
        r = d[self.pos:e]
        self.pos = min(len(d), e)
        return r

      def readline(self):
        d = disk.files[self.name]
        e = d.find(b'\n', self.pos)
        e = len(d) if e < 0 else e + 1
        r = d[self.pos:e]
        self.pos = e
        return r

      def readinto(self, b):
        r = self.read(len(b))
        b[:len(r)] = r
        return len(r)

      def close(self):
        pass

      flush = close

      def __enter__(self):
        return self

      def __exit__(self, *a):
        return False
    gfile = H.ns(GFile=GFile, Open=GFile, makedirs=self.makedirs,
                 exists=self.exists, listdir=self.listdir, glob=self.glob,
                 remove=self.remove, isdir=lambda path: str(path) in self.dirs)
    self.tf = H.ns(io=H.ns(gfile=gfile), errors=H.ns(
        PermissionDeniedError=Denied, NotFoundError=Missing))

  def makedirs(self, path):
    self.dirs.add(str(path).rstrip('/'))

  def exists(self, path):
    return str(path) in self.files or str(path).rstrip('/') in self.dirs

  def names(self, path):
    path = str(path).rstrip('/') + '/'
    return sorted({f[len(path):].split('/')[0] for f in self.files
                   if f.startswith(path)})[::self.order]

  def listdir(self, path):
    if not self.exists(path):
      raise Missing(path)
    return self.names(path)

  def glob(self, pattern):
    return [f for f in sorted(self.files)[::self.order]
            if fnmatch.fnmatchcase(f, str(pattern)) and
            f.count('/') == str(pattern).count('/')]

  def remove(self, path):
    self.log.append(('remove', str(path)))
    if str(path) not in self.files:
      raise Missing(path)
    del self.files[str(path)]


def setup(H):
  du = H.load('agents.dopamine_utils')
  disk = Disk(H, H.choice('order', [1, -1]))
  H.patch(du, 'tf', disk.tf)
  return du, disk


OTHERS = ('checkpoint_00004_best.pkl', 'checkpoint_abcde.pkl', 'notes.txt',
          'checkpoint_00003.pkl.tmp', 'model_00001.pkl', 'checkpoint.pkl')


def cleanup(H, files):
  """The episode number and how long checkpoints last are free integers."""
  du, disk = setup(H)
  for n in files:
    disk.files[f'/run/ckpt/checkpoint_{n:05d}.pkl'] = b'x'
  for o in OTHERS:
    disk.files['/run/ckpt/' + o] = b'y'
  disk.files['/run/checkpoint_00000.pkl'] = b'z'
  disk.makedirs('/run/ckpt')
  episode = H.int('episode', 0, 200000)
  last = H.int('duration', 0, 200000)
  if H.flag('default'):
    H.assume(last == 50)
    du.clean_up_old_checkpoints('/run/ckpt', episode)
  else:
    du.clean_up_old_checkpoints('/run/ckpt', episode, checkpoint_duration=last)
  for n in files:
    H.check('kept exactly if young enough', H.iff(
        f'/run/ckpt/checkpoint_{n:05d}.pkl' in disk.files,
        n >= episode - last))
  H.check('other files are left alone',
          all('/run/ckpt/' + o in disk.files for o in OTHERS) and
          '/run/checkpoint_00000.pkl' in disk.files)


def latest(H, files):
  """Any subset of the files: the newest complete name wins, -1 if none."""
  du, disk = setup(H)
  have = [n for n in files if H.flag(f'has{n}')]
  others = H.choice('others', [(), OTHERS[:1], OTHERS[1:3], OTHERS])
  for n in have:
    disk.files[f'/run/ckpt/checkpoint_{n:05d}.pkl'] = b'x'
  for o in others:
    disk.files['/run/ckpt/' + o] = b'y'
  disk.files['/run/other/checkpoint_77777.pkl'] = b'z'
  H.check('the newest checkpoint', du.get_latest_checkpoint(
      '/run/ckpt') == max(have, default=-1))


def round_trip(H, number):
  """A bundle holding free numbers comes back as it was saved."""
  du, disk = setup(H)
  asked, given = [], []
  older = {'older': 1}
  bundle = {'state': {'steps': 1234, 'params': [1.5, (2, 'x')]}, 'n': number}

  def make(checkpoint_dir, iteration_number):
    asked.append((checkpoint_dir, iteration_number))
    return bundle

  def take(checkpoint_dir, iteration_number, bundle_dictionary):
    given.append((checkpoint_dir, iteration_number, bundle_dictionary))
    return H.flag('restores')
  du.save_checkpoint('/run/ckpt', 2, lambda *a: older)
  du.save_checkpoint('/run/ckpt', number, make)
  H.check('bundled for this directory and iteration',
          asked == [('/run/ckpt', number)])
  H.check('found again', du.get_latest_checkpoint('/run/ckpt') == number)
  du.load_checkpoint('/run/ckpt', number, take)
  H.check('what was saved is what is restored',
          given == [('/run/ckpt', number, bundle)])
  du.load_checkpoint('/run/ckpt', number + 1, take)
  du.load_checkpoint('/elsewhere', number, take)
  H.check('a missing checkpoint restores nothing', len(given) == 1)
  du.load_checkpoint('/run/ckpt', 2, take)
  H.check('older checkpoints stay loadable',
          given[1:] == [('/run/ckpt', 2, older)])


def nothing(H):
  """An agent that has nothing to save leaves no file behind."""
  du, disk = setup(H)
  du.save_checkpoint('/run/ckpt', 5, lambda *a: None)
  H.check('no file', not disk.files)
  H.check('nothing to resume', du.get_latest_checkpoint('/run/ckpt') == -1)


def obligations(tier):
  sets = [(0, 1, 49, 50, 51, 120), (3, 99999, 100000, 123456), (7,)]
  if tier == 'thorough':
    sets += [tuple(range(0, 200, 13)), tuple(range(99990, 100010, 3))]
  obs = [Ob('nothing', nothing)]
  for i, s in enumerate(sets):
    obs.append(Ob(f'cleanup_{i}', cleanup, dict(files=s)))
  for i, s in enumerate([(0, 9, 10, 123), (99999, 100000, 5)]):
    obs.append(Ob(f'latest_{i}', latest, dict(files=s)))
  for n in (3, 10, 99999, 100000):
    obs.append(Ob(f'round_trip_{n}', round_trip, dict(number=n)))
  return obs
