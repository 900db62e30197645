"""In-memory fsspec file system whose every operation is a controllable step.

Semantics are the harshest the property allows: a file opened for writing is
truncated and visible at once, grows with each part of each write, and a move
is one atomic step.  `hook(op, *args)` is called before each step and may raise
(a fault or a crash) or hand control to another thread.
"""

import io

import fsspec
from fsspec.spec import AbstractFileSystem


class Disk:

  def __init__(self):
    self.files = {}
    self.dirs = {'', '/'}
    self.hook = lambda op, *a: None
    self.log = []


DISK = Disk()


def reset():
  DISK.files = {}
  DISK.dirs = {''}
  DISK.hook = lambda op, *a: None
  DISK.log = []
  DISK.moved = {}
  return DISK


class _Writer(io.RawIOBase):

  def __init__(self, path, append):
    super().__init__()
    self.path = path
    if not append:
      DISK.files[path] = b''
    else:
      DISK.files.setdefault(path, b'')

  def writable(self):
    return True

  def _put(self, data):
    if self.path in DISK.files:  # otherwise unlinked or moved: data is lost
      DISK.files[self.path] += data
    # A handle of a moved file keeps writing to it on POSIX systems.
    elif self.path in DISK.moved:
      p = DISK.moved[self.path]
      if p in DISK.files:
        DISK.files[p] += data

  def write(self, data):
    data = bytes(data)
    step = max(1, (len(data) + 1) // 2)
    parts = [data[i:i + step] for i in range(0, len(data), step)]
    for p in parts:
      DISK.hook('write', self.path, len(p))
      self._put(p)
    return len(data)

  def flush(self):
    pass

  def close(self):
    if not self.closed:
      try:
        DISK.hook('close', self.path)
      finally:
        super().close()

  def discard(self):
    if not self.closed:
      super().close()

  def __exit__(self, *a):
    self.close()

  def __del__(self):
    try:
      super().close()
    except BaseException:  # pylint: disable=broad-except
      pass


def _parents(path):
  parts = path.strip('/').split('/')[:-1]
  return ['/'.join(parts[:i + 1]) for i in range(len(parts))]


class MCFileSystem(AbstractFileSystem):
  protocol = 'mcfs'
  cachable = False
  root_marker = ''

  @classmethod
  def _strip_protocol(cls, path):
    path = super()._strip_protocol(path)
    return path.strip('/') if isinstance(path, str) else path

  def _n(self, path):
    return self._strip_protocol(path)

  def _need_parent(self, path):
    ps = _parents(path)
    if ps and ps[-1] not in DISK.dirs:
      raise FileNotFoundError(path)

  def makedirs(self, path, exist_ok=False):
    path = self._n(path)
    DISK.hook('makedirs', path)
    if path in DISK.dirs and not exist_ok:
      raise FileExistsError(path)
    if path in DISK.files:
      raise FileExistsError(path)
    for p in _parents(path) + [path]:
      DISK.dirs.add(p)

  def mkdir(self, path, create_parents=True, **kw):
    path = self._n(path)
    DISK.hook('makedirs', path)
    if path in DISK.dirs:
      raise FileExistsError(path)
    for p in _parents(path) + [path]:
      DISK.dirs.add(p)

  def info(self, path, **kw):
    path = self._n(path)
    if path in DISK.files:
      return dict(name=path, size=len(DISK.files[path]), type='file')
    if path in DISK.dirs:
      return dict(name=path, size=0, type='directory')
    raise FileNotFoundError(path)

  def exists(self, path, **kw):
    DISK.hook('exists', self._n(path))
    path = self._n(path)
    return path in DISK.files or path in DISK.dirs

  def ls(self, path, detail=True, **kw):
    path = self._n(path)
    if path in DISK.files:
      names = [path]
    elif path in DISK.dirs:
      pre = path + '/' if path else ''
      names = [p for p in list(DISK.files) + list(DISK.dirs)
               if p and p.startswith(pre) and '/' not in p[len(pre):] and p != path]
    else:
      raise FileNotFoundError(path)
    return [self.info(p) for p in names] if detail else names

  def _open(self, path, mode='rb', **kw):
    path = self._n(path)
    if 'r' in mode:
      DISK.hook('open_r', path)
      if path not in DISK.files:
        raise FileNotFoundError(path)
      return io.BytesIO(DISK.files[path])
    DISK.hook('open', path)
    self._need_parent(path)
    if 'x' in mode and path in DISK.files:
      raise FileExistsError(path)
    return _Writer(path, 'a' in mode)

  def open(self, path, mode='rb', **kw):
    kw.pop('compression', None)
    return self._open(path, mode, **kw)

  def pipe_file(self, path, value, mode='overwrite', **kw):
    with self.open(path, 'wb') as f:
      f.write(value)

  def cat_file(self, path, start=None, end=None, **kw):
    with self.open(path, 'rb') as f:
      return f.read()[start:end]

  def touch(self, path, truncate=True, **kw):
    with self.open(path, 'wb' if truncate else 'ab'):
      pass

  def rm_file(self, path):
    path = self._n(path)
    DISK.hook('rm', path)
    if path not in DISK.files:
      raise FileNotFoundError(path)
    del DISK.files[path]

  def rm(self, path, recursive=False, maxdepth=None):
    if isinstance(path, (list, tuple)):
      for p in path:
        self.rm_file(p)
    else:
      self.rm_file(path)

  _rm = rm_file

  def mv(self, path1, path2, recursive=False, maxdepth=None, **kw):
    a, b = self._n(path1), self._n(path2)
    DISK.hook('mv', a, b)
    if a not in DISK.files:
      raise FileNotFoundError(a)
    self._need_parent(b)
    DISK.files[b] = DISK.files.pop(a)
    DISK.moved[a] = b
    DISK.hook('mv_done', a, b)

  def mv_file(self, a, b, **kw):
    self.mv(a, b)

  def cp_file(self, path1, path2, **kw):
    a, b = self._n(path1), self._n(path2)
    DISK.hook('cp_open', a, b)
    if a not in DISK.files:
      raise FileNotFoundError(a)
    data = DISK.files[a]
    with self.open(b, 'wb') as f:
      f.write(data)

  def copy(self, path1, path2, **kw):
    self.cp_file(path1, path2)


DISK.moved = {}
fsspec.register_implementation('mcfs', MCFileSystem, clobber=True)
