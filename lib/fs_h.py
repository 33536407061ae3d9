"""In-memory file system standing in for tensorflow.io.gfile, with crash points."""
import contextlib
import fnmatch
import os
import types as pytypes


class Crash(BaseException):
  """The process dies here."""


class NotFound(Exception):
  pass


class AlreadyExists(Exception):
  pass


class FS:

  def __init__(self):
    self.files = {}
    self.dirs = set()
    self.tick = lambda what: None   # called before every effect
    self.log = []
    self.ghost = None               # optional callable path -> bool (symbolic presence)

  # gfile API
  def exists(self, path):
    return path in self.files or path in self.dirs

  def isdir(self, path):
    return path in self.dirs

  def makedirs(self, path):
    self.tick('makedirs')
    self.dirs.add(path)

  mkdir = makedirs

  def stat(self, path):
    if path not in self.files:
      raise NotFound(path)
    return pytypes.SimpleNamespace(length=len(self.files[path]))

  def glob(self, pattern):
    pats = pattern if isinstance(pattern, (list, tuple)) else [pattern]
    return [f for f in self.files if any(self._match(f, p) for p in pats)]

  @staticmethod
  def _match(f, p):
    d, b = os.path.split(p)
    fd, fb = os.path.split(f)
    return d == fd and fnmatch.fnmatchcase(fb, b)

  def listdir(self, path):
    return [os.path.basename(f) for f in self.files if os.path.dirname(f) == path.rstrip('/')]

  def rename(self, src, dst, overwrite=False):
    self.tick('rename')
    if src not in self.files:
      raise NotFound(src)
    if dst in self.files and not overwrite:
      raise AlreadyExists(dst)
    self.log.append(('rename', src, dst))
    self.files[dst] = self.files.pop(src)

  def copy(self, src, dst, overwrite=False):
    if dst in self.files and not overwrite:
      raise AlreadyExists(dst)
    data = self.files[src]
    self.tick('copy')
    self.log.append(('write', dst))
    self.files[dst] = data[:max(0, len(data) - 1)]
    self.tick('copy-end')
    self.files[dst] = data

  def remove(self, path):
    self.tick('remove')
    if path not in self.files:
      raise NotFound(path)
    self.log.append(('remove', path))
    del self.files[path]

  def rmtree(self, path):
    self.tick('rmtree')
    for f in [f for f in self.files if f.startswith(path.rstrip('/') + '/')]:
      self.log.append(('remove', f))
      del self.files[f]

  def Open(self, path, mode='r'):
    return GFile(self, path, mode)

  @property
  def GFile(self):
    return lambda path, mode='r': GFile(self, path, mode)


class GFile:

  def __init__(self, fs, path, mode='r'):
    self.fs, self.path, self.mode = fs, path, mode
    self.opened = False

  def _open(self):
    if self.opened:
      return
    self.opened = True
    if 'r' in self.mode:
      if self.path not in self.fs.files:
        raise NotFound(self.path)
    else:
      if os.path.dirname(self.path) not in self.fs.dirs:
        raise NotFound(os.path.dirname(self.path))
      self.fs.tick('open')
      self.fs.log.append(('write', self.path))
      if 'w' in self.mode or self.path not in self.fs.files:
        self.fs.files[self.path] = b''

  def __enter__(self):
    self._open()
    return self

  def __exit__(self, *a):
    return False

  def read(self, n=-1):
    self._open()
    return self.fs.files[self.path]

  def write(self, data):
    self._open()
    self.fs.tick('write')
    self.fs.files[self.path] += data[:len(data) // 2]
    self.fs.tick('write-mid')
    self.fs.files[self.path] += data[len(data) // 2:]
    self.fs.tick('write-end')

  def flush(self):
    pass

  def size(self):
    return len(self.fs.files[self.path])

  def close(self):
    self._open()


@contextlib.contextmanager
def use(fs, *modules):
  saved = [(m, m.gfile) for m in modules]
  for m in modules:
    m.gfile = fs
  try:
    yield fs
  finally:
    for m, g in saved:
      m.gfile = g
