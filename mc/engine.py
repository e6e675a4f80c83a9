"""Bounded exhaustive exploration engine.

A check module defines

  ID        the property
  BOUNDS    one line describing the enumerated space
  cases(tier)          -> list of JSON-serialisable cases, simplest first
  run(case, ctx)       -> explores the case on the real code, raises through ctx

Every case is executed; nothing is sampled.  Cases are cut into contiguous
chunks, each chunk runs in a freshly forked process (torch and ocnn imported,
nothing executed yet), so no case depends on what another chunk did.
"""

import os
import sys
import json
import time
import mmap
import errno
import struct
import signal
import select
import pickle
import hashlib
import traceback
import importlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


class Violation(Exception):
  """ The explored execution breaks the property. """

  def __init__(self, msg, key=None):
    super().__init__(msg)
    self.key = key


class HarnessError(Exception):
  """ The machinery cannot decide (environment trouble, never the code). """


class CaseTimeout(BaseException):
  pass


def load_library():
  """ Imports torch and then the library from /repo's current tree. """
  os.environ['TQDM_DISABLE'] = '1'
  sys.path[:] = [p for p in sys.path if p not in ('', REPO)]
  sys.path.insert(0, REPO)
  sys.path.append(VERIF)
  import torch
  import numpy  # noqa
  torch.set_num_threads(1)
  # Never reuse byte code of another state of the tree
  sys.dont_write_bytecode = True
  sys.pycache_prefix = os.path.join(VERIF, 'out', 'no-such-pycache')
  import ocnn
  if not os.path.realpath(ocnn.__file__).startswith(REPO + '/'):
    raise HarnessError('ocnn is not imported from /repo: ' + ocnn.__file__)
  return ocnn


def _own_nondeterminism():
  import torch
  import random
  import warnings
  import numpy as np
  warnings.simplefilter('ignore')
  torch.set_num_threads(1)
  torch.manual_seed(0)
  random.seed(0)
  np.random.seed(0)
  # uninitialised tensors are filled with NaN / max instead of left-overs
  torch.use_deterministic_algorithms(True, warn_only=True)
  torch.utils.deterministic.fill_uninitialized_memory = True


def digest(obj):
  """ 64-bit digest of a canonical state. """
  h = hashlib.blake2b(digest_size=8)
  _feed(h, obj)
  return int.from_bytes(h.digest(), 'little')


def _feed(h, obj):
  import numpy as np
  import torch
  if isinstance(obj, torch.Tensor):
    obj = obj.detach().contiguous().cpu()
    if obj.dtype == torch.bfloat16:
      obj = obj.float()
    obj = obj.numpy()
  if isinstance(obj, np.ndarray):
    h.update(str((obj.dtype.str, obj.shape)).encode())
    h.update(np.ascontiguousarray(obj).tobytes())
  elif isinstance(obj, (list, tuple)):
    h.update(b'(')
    for o in obj:
      _feed(h, o)
    h.update(b')')
  elif isinstance(obj, dict):
    h.update(b'{')
    for k in sorted(obj, key=repr):
      _feed(h, k)
      _feed(h, obj[k])
    h.update(b'}')
  else:
    h.update(repr(obj).encode() + b';')


class Ctx:
  """ What one chunk of the exploration observed. """

  def __init__(self, tier):
    self.tier = tier
    self.states = set()
    self.transitions = 0
    self.traces = 0
    self.outcomes = {}
    self.notes = {}
    self.max_samples = 2
    self.samples = []

  # -- counters
  def state(self, *obj):
    d = digest(obj)
    new = d not in self.states
    self.states.add(d)
    return new

  def trans(self, n=1):
    self.transitions += n

  def trace(self, n=1):
    self.traces += n

  def outcome(self, *obj):
    d = digest(obj)
    self.outcomes[d] = self.outcomes.get(d, 0) + 1

  def note(self, name, n=1):
    self.notes[name] = self.notes.get(name, 0) + n

  def sample(self, obj):
    if len(self.samples) < self.max_samples:
      self.samples.append(obj)

  # -- oracles
  def fail(self, msg, key=None):
    raise Violation(msg, key)

  def check(self, cond, msg, key=None):
    if not cond:
      raise Violation(msg() if callable(msg) else msg, key)

  def equal(self, got, want, msg, dtype=False, key=None):
    """ Exact equality of shape and values (and dtype if asked). """
    g, w = _np(got), _np(want)
    if g.shape != w.shape:
      raise Violation('%s: shape %s, expected %s' % (_s(msg), g.shape, w.shape), key)
    if dtype and g.dtype != w.dtype:
      raise Violation('%s: type %s, expected %s' % (_s(msg), g.dtype, w.dtype), key)
    import numpy as np
    same = (g == w)
    if g.dtype.kind in 'fc' and w.dtype.kind in 'fc':
      same = same | (np.isnan(g) & np.isnan(w))
    if not np.all(same):
      i = np.argwhere(~np.atleast_1d(same))[0]
      gi = np.atleast_1d(g)[tuple(i)]
      wi = np.atleast_1d(w)[tuple(i)]
      raise Violation('%s: %r at %s, expected %r (%d of %d differ)' % (
          _s(msg), gi.item(), i.tolist(), wi.item(),
          int((~same).sum()), g.size), key)

  def close(self, got, want, msg, tol=1e-5, key=None):
    """ |got - want| <= tol * (1 + |want|), shapes equal, no NaN. """
    g, w = _np(got), _np(want)
    if g.shape != w.shape:
      raise Violation('%s: shape %s, expected %s' % (_s(msg), g.shape, w.shape), key)
    import numpy as np
    g = g.astype(np.float64)
    w = w.astype(np.float64)
    bad = ~(np.abs(g - w) <= tol * (1 + np.abs(w)))
    if np.any(bad):
      i = np.argwhere(np.atleast_1d(bad))[0]
      gi = np.atleast_1d(g)[tuple(i)]
      wi = np.atleast_1d(w)[tuple(i)]
      raise Violation('%s: %r at %s, expected %r (%d of %d differ)' % (
          _s(msg), gi.item(), i.tolist(), wi.item(), int(bad.sum()), g.size), key)

  def raises(self, func, msg, exc=Exception):
    try:
      func()
    except exc:
      return
    raise Violation(_s(msg) + ': accepted')


def _s(msg):
  return msg() if callable(msg) else msg


def _np(x):
  import torch
  import numpy as np
  if isinstance(x, torch.Tensor):
    x = x.detach().cpu()
    if x.dtype == torch.bfloat16:
      x = x.float()
    return x.numpy()
  return np.asarray(x)


# ---------------------------------------------------------------- children

def _hard(limit):
  """ Wall-clock limit of a case that gets little processor time. """
  return max(limit, min(3 * limit, 760))


def _run_case(mod, case, ctx, limit):
  """ Returns None or a violation record. """
  wall, cpu = time.monotonic(), time.process_time()

  def alarm(signum, frame):
    # a busy machine is no reason to call an execution endless
    if time.process_time() - cpu < limit / 2 and \
        time.monotonic() - wall < _hard(limit):
      return
    raise CaseTimeout()

  signal.signal(signal.SIGALRM, alarm)
  signal.setitimer(signal.ITIMER_REAL, limit, 5)
  try:
    mod.run(case, ctx)
    return None
  except Violation as e:
    return {'what': str(e), 'key': e.key}
  except HarnessError:
    raise
  except CaseTimeout:
    return {'what': 'the execution did not finish within %d s' % limit, 'key': None}
  except MemoryError:
    raise HarnessError('out of memory')
  except RuntimeError as e:
    if "can't allocate memory" in str(e) or 'not enough memory' in str(e):
      raise HarnessError(str(e))
    return _exc_record(e)
  except OSError as e:
    if e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE,
                   errno.EROFS, errno.EAGAIN):
      raise HarnessError(repr(e))
    return _exc_record(e)
  except Exception as e:
    return _exc_record(e)
  finally:
    signal.setitimer(signal.ITIMER_REAL, 0)


def _exc_record(e):
  tb = traceback.extract_tb(e.__traceback__)
  where = ['%s:%d %s' % (f.filename, f.lineno, f.name) for f in tb][-6:]
  return {'what': 'unexpected %s: %s' % (type(e).__name__, str(e)[:300]),
          'key': None, 'where': where}


class Child:

  def __init__(self, mod, cases, indices, tier, limit, known):
    self.indices = indices
    self.limit = limit
    self.shm = mmap.mmap(-1, 16)
    self._mark(-1)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
      code = 0
      try:
        os.close(r)
        out = self._body(mod, cases, tier, known)
        with os.fdopen(w, 'wb') as f:
          pickle.dump(out, f)
      except BaseException:
        traceback.print_exc()
        code = 99
      finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)
    os.close(w)
    self.pid, self.fd, self.buf = pid, r, b''
    self.status = None

  def _mark(self, i):
    self.shm[0:16] = struct.pack('qd', i, time.time())

  def current(self):
    return struct.unpack('qd', self.shm[0:16])

  def _body(self, mod, cases, tier, known):
    _own_nondeterminism()
    # the library may print; keep our stdout clean
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    sys.stdout = open(os.devnull, 'w')
    ctx = Ctx(tier)
    done, viol, error, found = 0, None, None, []
    for i in self.indices:
      self._mark(i)
      t = time.time()
      try:
        rec = _run_case(mod, cases[i], ctx, self.limit)
      except HarnessError as e:
        error = 'case %d: %s' % (i, e)
        break
      done += 1
      if os.environ.get('MC_PROFILE'):
        sys.stderr.write('%8.3f %s\n' % (time.time() - t, json.dumps(cases[i])[:150]))
      if rec is not None:
        if rec.get('key') is not None and rec['key'] in known:
          found.append(rec['key'])
          continue
        viol = (i, rec)
        break
    return {'done': done, 'viol': viol, 'error': error, 'found': found,
            'states': ctx.states, 'transitions': ctx.transitions,
            'traces': ctx.traces, 'outcomes': ctx.outcomes,
            'notes': ctx.notes, 'samples': ctx.samples}

  def finish(self):
    """ Called at end of file: the child's result. """
    os.close(self.fd)
    _, status = os.waitpid(self.pid, 0)
    cur, _ = self.current()
    self.shm.close()
    if os.WIFSIGNALED(status):
      sig = os.WTERMSIG(status)
      if sig == signal.SIGKILL and not getattr(self, 'killed', False):
        return {'error': 'case %d: the process was killed' % cur}
      what = ('the execution did not finish within %d s' % (_hard(self.limit) + 60)
              if getattr(self, 'killed', False) else
              'the process died with signal %d' % sig)
      return {'viol': (cur, {'what': what, 'key': None})}
    if os.WEXITSTATUS(status) != 0 or not self.buf:
      return {'error': 'worker failed with status %d' % status}
    return pickle.loads(self.buf)


def _collect(children, timeout=0.5):
  """ Waits until at least one child ended; returns the ended ones. """
  ended = []
  fds = [c.fd for c in children]
  ready, _, _ = select.select(fds, [], [], timeout)
  for c in list(children):
    if c.fd in ready:
      data = os.read(c.fd, 1 << 20)
      if data:
        c.buf += data
      else:
        ended.append(c)
    else:
      cur, t = c.current()
      if cur >= 0 and time.time() - t > _hard(c.limit) + 60:
        c.killed = True
        os.kill(c.pid, signal.SIGKILL)
  return ended


def run_indices(mod, cases, indices, tier, limit, known):
  c = Child(mod, cases, indices, tier, limit, known)
  while not _collect([c]):
    pass
  return c.finish()


# ------------------------------------------------------------------ parent

def known_findings(prop):
  """ key -> description of the committed, unrepaired findings. """
  out = {}
  path = os.path.join(VERIF, 'known_findings.txt')
  if os.path.exists(path):
    with open(path) as f:
      for line in f:
        line = line.strip()
        if line.startswith('finding: property=%s ' % prop):
          rest = line.split(' ', 2)[2]
          key, _, desc = rest.partition(' ')
          out[key[len('key='):]] = desc
  return out


def load_check(prop):
  return importlib.import_module('mc.checks.' + prop.lower())


def main(prop):
  t0 = time.time()
  tier = os.environ.get('VERIF_TIER', 'quick')
  if tier not in ('quick', 'thorough'):
    tier = 'quick'
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  load_library()
  mod = load_check(prop)
  cases = mod.cases(tier)
  limit = getattr(mod, 'CASE_LIMIT', 200) * (1 if tier == 'quick' else 10)
  cap = float(os.environ.get('VERIF_CAP', 660 if tier == 'quick' else 6 * 3600))
  known = known_findings(prop)
  ncpu = max(1, min(8, os.cpu_count() or 1))

  nchunk = min(len(cases), getattr(mod, 'CHUNKS', 240))
  # contiguous chunks; interleaving start order keeps simple cases first
  bounds = [len(cases) * k // nchunk for k in range(nchunk + 1)]
  chunks = [list(range(bounds[k], bounds[k + 1])) for k in range(nchunk)]

  tot = dict(states=set(), transitions=0, traces=0, done=0)
  outcomes, notes, samples = {}, {}, []
  found, viols, errors = {}, [], []
  running, queue, capped = [], chunks, False
  while queue or running:
    stop = viols or errors
    while queue and len(running) < ncpu and not stop:
      if time.time() - t0 > cap:
        capped = True
        queue = []
        break
      running.append(Child(mod, cases, queue.pop(0), tier, limit, known))
    if stop:
      queue = []
    if not running:
      break
    for c in _collect(running):
      running.remove(c)
      r = c.finish()
      if r.get('error'):
        errors.append(r['error'])
      if r.get('viol'):
        viols.append((r['viol'][0], r['viol'][1], c.indices))
      if 'states' in r:
        tot['states'] |= r['states']
        for k in ('transitions', 'traces', 'done'):
          tot[k] += r[k]
        for k, v in r['outcomes'].items():
          outcomes[k] = outcomes.get(k, 0) + v
        for k, v in r['notes'].items():
          notes[k] = notes.get(k, 0) + v
        for k in r['found']:
          found[k] = found.get(k, 0) + 1
        if len(samples) < 6:
          samples += r['samples'][:6 - len(samples)]

  path = None
  if viols:
    viols.sort(key=lambda v: v[0])
    index, rec, chunk = viols[0]
    path = _save_replay(mod, prop, cases, index, rec, chunk, tier, limit, known)

  cov = {
      'states': len(tot['states']), 'transitions': tot['transitions'],
      'traces_validated_against_impl': tot['traces'],
      'cases': tot['done'], 'cases_total': len(cases),
      'distinct_outcomes': len(outcomes),
      'exhaustive': bool(not capped and not viols and not errors
                         and tot['done'] == len(cases)),
      'bounds': getattr(mod, 'BOUNDS', ''),
      'samples': samples or [cases[0] if cases else None],
  }
  if notes:
    cov['notes'] = notes
  if capped:
    cov['capped'] = 'time cap of %d s reached after %d of %d cases' % (
        cap, tot['done'], len(cases))
  if found:
    cov['known_findings_seen'] = found
  evidence = {
      'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
      'coverage': cov,
      'assumptions': getattr(mod, 'ASSUMPTIONS', []),
      'wall_s': round(time.time() - t0, 3), 'violations': len(viols)}
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
    json.dump(evidence, f, indent=1)

  print('%s %s: %d/%d cases, %d states, %d transitions, %d traces, '
        '%d distinct outcomes, %.1f s' % (
            prop, tier, tot['done'], len(cases), len(tot['states']),
            tot['transitions'], tot['traces'], len(outcomes), time.time() - t0))
  if capped:
    print('NOTE: ' + cov['capped'])
  for k in sorted(found):
    print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
  if viols:
    print('  ' + viols[0][1]['what'])
    for w in viols[0][1].get('where', []):
      print('    ' + w)
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1
  if errors:
    print('ERROR: ' + '; '.join(errors[:3]))
    return 3
  if not cases:
    print('ERROR: nothing to explore')
    return 3
  return 0


def _save_replay(mod, prop, cases, index, rec, chunk, tier, limit, known):
  """ The shortest of {the case alone, the chunk up to it} that fails again. """
  history = [index]
  again = run_indices(mod, cases, history, tier, limit, known).get('viol')
  reproducible = bool(again)
  if not again and chunk[0] != index:
    history = [i for i in chunk if i <= index]
    again = run_indices(mod, cases, history, tier, limit, known).get('viol')
    reproducible = bool(again)
  out = os.path.join(VERIF, 'out', prop)
  os.makedirs(out, exist_ok=True)
  path = os.path.join(out, 'violation.json')
  with open(path, 'w') as f:
    json.dump({'property': prop, 'tier': tier, 'what': rec['what'],
               'where': rec.get('where', []), 'reproducible': reproducible,
               'cases': [cases[i] for i in history]}, f, indent=1)
  return path


def replay(path):
  """ Replays a recorded violation; exit 1 if it still fails. """
  with open(path) as f:
    rec = json.load(f)
  load_library()
  mod = load_check(rec['property'])
  _own_nondeterminism()
  ctx = Ctx(rec['tier'])
  for case in rec['cases']:
    print('case', json.dumps(case)[:500])
    res = _run_case(mod, case, ctx, 3600)
    if res:
      print(res['what'])
      for w in res.get('where', []):
        print('  ' + w)
      return 1
  print('no violation')
  return 0
