"""Controlled scheduler for real threads (one runs at a time)."""

import threading


class Abort(BaseException):
  """Unwinds a thread whose execution is abandoned."""


class Scheduler:
  """Runs bodies in threads; switches only at point()."""

  def __init__(self, bodies, chooser, after_step=None):
    self.chooser = chooser
    self.after_step = after_step
    self.n = len(bodies)
    self.sems = [threading.Semaphore(0) for _ in bodies]
    self.main = threading.Semaphore(0)
    self.done = [False] * self.n
    self.results = [None] * self.n
    self.cur = None
    self.aborting = False
    self.trace = []
    self.local = threading.local()
    self.threads = [
        threading.Thread(target=self._body, args=(i, b), daemon=True)
        for i, b in enumerate(bodies)]

  def _body(self, i, body):
    self.local.i = i
    self.sems[i].acquire()
    try:
      if not self.aborting:
        self.results[i] = ('ok', body())
    except Abort:
      self.results[i] = ('aborted', None)
    except BaseException as e:  # pylint: disable=broad-except
      self.results[i] = ('raised', e)
    self.done[i] = True
    self.main.release()

  def point(self, label):
    """Called by the thread that is running, before its next operation."""
    i = getattr(self.local, 'i', None)
    if i is None:
      return
    if self.aborting:  # still unwinding
      raise Abort()
    self.trace.append((i, label))
    self.main.release()
    self.sems[i].acquire()
    if self.aborting:
      raise Abort()

  def run(self):
    for t in self.threads:
      t.start()
    err = None
    try:
      while True:
        enabled = [i for i in range(self.n) if not self.done[i]]
        if not enabled:
          break
        cur_ok = self.cur in enabled
        if cur_ok:
          order = [self.cur] + [i for i in enabled if i != self.cur]
        else:
          order = enabled
        if len(order) > 1:
          c = self.chooser.choose(len(order), 'thread', 1 if cur_ok else 0)
        else:
          c = 0
        self.cur = order[c]
        self.sems[self.cur].release()
        self.main.acquire()
        if self.after_step is not None:
          self.after_step(self)
    except BaseException as e:  # pylint: disable=broad-except
      err = e
      self.aborting = True
      for i in range(self.n):
        if not self.done[i]:
          self.sems[i].release()
          self.main.acquire()
    for t in self.threads:
      t.join(30)
      if t.is_alive():
        raise RuntimeError('a thread of the controlled schedule hangs')
    if err is not None:
      raise err
    return self.results
