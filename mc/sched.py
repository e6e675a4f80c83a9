"""A controlled scheduler for two Python threads.

Every line executed in a file of the library is a scheduling point.  A schedule
is a first thread and the numbers of points after which the baton moves to the
other thread; a thread that ends passes the baton on.  Exactly one thread runs
at a time, so a schedule determines the execution.

If the running thread makes no progress because it waits for something the
suspended thread holds (a lock), the suspended thread is resumed; if nothing
moves any more, the execution is deadlocked.
"""

import sys
import time
import threading

ROOT = '/repo/ocnn/'
STALL = 0.1
DEAD = 30.0


class Deadlock(Exception):
  pass


class _Run:

  def __init__(self, funcs, first, switches, opcodes):
    self.funcs, self.opcodes = funcs, opcodes
    self.steps = [0, 0]             # points passed by each thread
    self.total = 0
    self.switches = list(switches)
    self.left = self.switches.pop(0) if self.switches else None
    self.baton = [threading.Semaphore(0) for _ in funcs]
    self.ended = [False] * len(funcs)
    self.out = [None] * len(funcs)
    self.err = [None] * len(funcs)
    self.waiting = [True] * len(funcs)
    self.free = False
    self.done = threading.Event()
    self.first = first
    self.where = []

  def _tracer(self, me):
    def local(frame, event, arg):
      if event == 'line' or event == 'opcode':
        self._point(me, frame)
      return local

    def glob(frame, event, arg):
      if frame.f_code.co_filename.startswith(ROOT):
        if self.opcodes:
          frame.f_trace_opcodes = True
        return local
      return None
    return glob

  def _point(self, me, frame):
    self.steps[me] += 1
    self.total += 1
    if self.free or self.left is None:
      return
    if self.left == 0:
      other = 1 - me
      if self.ended[other]:
        self.left = None
        return
      self.where.append('%s:%d' % (frame.f_code.co_filename[len(ROOT):], frame.f_lineno))
      self.left = self.switches.pop(0) if self.switches else None
      self._pass(me, other)
    if self.left is not None:
      self.left -= 1

  def _pass(self, me, other):
    self.waiting[me] = True
    self.waiting[other] = False
    self.baton[other].release()
    self.baton[me].acquire()
    self.waiting[me] = False

  def _body(self, me):
    self.baton[me].acquire()
    sys.settrace(self._tracer(me))
    try:
      self.out[me] = self.funcs[me]()
    except BaseException as e:
      self.err[me] = e
    finally:
      sys.settrace(None)
      self.ended[me] = True
      if all(self.ended):
        self.done.set()
      else:
        for o in range(len(self.funcs)):
          if not self.ended[o]:
            self.left = None
            self.waiting[o] = False
            self.baton[o].release()

  def go(self):
    ts = [threading.Thread(target=self._body, args=(i,), daemon=True)
          for i in range(len(self.funcs))]
    for t in ts:
      t.start()
    self.waiting[self.first] = False
    self.baton[self.first].release()
    last, moved = -1, time.time()
    while not self.done.wait(STALL):
      now = (self.total, tuple(self.ended))
      if now != last:
        last, moved = now, time.time()
        continue
      if not self.free:
        # the running thread may wait for a lock of the suspended one
        self.free = True
        for o in range(len(self.funcs)):
          if self.waiting[o] and not self.ended[o]:
            self.baton[o].release()
        continue
      if time.time() - moved > DEAD:
        raise Deadlock()
    for t in ts:
      t.join()
    return self


def run(funcs, first=0, switches=(), opcodes=False):
  """ Executes two functions under a schedule; returns the run. """
  return _Run(funcs, first, switches, opcodes).go()


def length(func, opcodes=False):
  """ Number of scheduling points of a function executed alone. """
  def nothing():
    return None
  r = run([func, nothing], 0, (), opcodes)
  if r.err[0] is not None:
    raise r.err[0]
  return r.steps[0]
