"""C28: interleavings of two threads give the sequential results."""

import os
import pickle
import numpy as np
from mc import ref, ops, sched
from mc.cloud import Cloud
from mc.checks import c27

ID = 'C28'
TECHNIQUE = ('stateless exploration of the real library under a controlled two-thread '
             'scheduler (every library line is a scheduling point), all schedules up to '
             'the preemption bound, results compared with the sequential ones')
BOUNDS = ('pairs of operations on shared objects: 20 modules each used by two threads on '
          'different octrees and with different features on the same octree (forward and '
          'backward), 106 ordered pairs of 14 core operations '
          '(thorough: all 196), 14 further pairs, and 7 first-use scenarios in a process '
          'where nothing was executed before; every schedule with 1 preemption (2 preemptions for the short '
          'operations; thorough: opcode-level points with 1 preemption and 2 preemptions '
          'for all pairs up to 250000 schedules)')
ASSUMPTIONS = ['a thread switch happens between source lines of the library (thorough: '
               'between byte codes); code of torch itself is atomic with respect to it',
               'stochastic operations get their draws from the harness']
CASE_LIMIT = 800
CHUNKS = 1000

CORE = ['keys', 'build A', 'merge', 'grow', 'neigh A', 'search', 'features', 'export',
        'conv A', 'direct', 'deconvn', 'unpool', 'interp A', 'construct']


def cases(tier):
  out = []
  for scene in sorted(COLD):
    for i, j in ((0, 1),) if tier == 'quick' else ((0, 1), (1, 0), (0, 0), (1, 1)):
      for part in range(4):
        out.append({'kind': 'cold', 'scene': scene, 'i': i, 'j': j, 'part': part})
  for lay in sorted(c27.SPEC):
    out.append({'kind': 'module', 'layer': lay, 'i': 0, 'j': 1})
    out.append({'kind': 'module', 'layer': lay, 'i': 1, 'j': 0})
    out.append({'kind': 'module', 'layer': lay, 'i': 0, 'j': 0})
  for a, b in (('segnet A', 'segnet B'), ('buffer', 'buffer B'), ('drop A', 'drop B'),
               ('global', 'global B'), ('build A', 'build B'), ('gnorm A', 'gnorm B'),
               ('collate', 'merge'), ('transform', 'build A'), ('device', 'conv A'),
               ('points', 'build A'), ('pad', 'align'), ('col', 'unpool'),
               ('utils', 'avgpool'), ('neigh B', 'neigh A')):
    out.append({'kind': 'ops', 'a': a, 'b': b})
    if tier != 'quick':
      out.append({'kind': 'ops', 'a': b, 'b': a})
  for a in CORE:
    for b in CORE:
      if tier == 'quick' and abs(CORE.index(a) - CORE.index(b)) > 4:
        continue
      out.append({'kind': 'ops', 'a': a, 'b': b})
  return out


def run(case, ctx):
  if case['kind'] == 'cold':
    return cold(case, ctx)
  env = ops.Env()
  env.freeze()
  if case['kind'] == 'ops':
    names = (case['a'], case['b'])
    funcs = [lambda n=n: ops.result(ops.OPS[n](env)) for n in names]
  else:
    lay = case['layer']
    inst = [c27.SPEC[lay][case['i']], c27.SPEC[lay][case['j']]]
    names = tuple('%s%s' % (lay, s) for s in inst)
    xs = [None, None]
    if case['i'] == case['j']:       # the same shapes with different features
      xs[1] = (3 - env.x[inst[1]].detach()).requires_grad_()
    funcs = [lambda s=s, x=x: module(env, lay, *s, x=x) for s, x in zip(inst, xs)]
  explore(ctx, funcs, [f() for f in funcs], names,
          lambda what: changed(env, ctx, what))


def module(env, lay, name, d, ne, x=None):
  y = c27.forward(env, lay, name, d, ne, x)
  return ops.result(y + c27.backward(env, lay, name, d, ne, y, x=x))


def changed(env, ctx, what):
  if env.changed():
    c27.blame(ctx, env, what)


def schedules(na, nb, ctx):
  """ First thread 0; every schedule up to the preemption bound. """
  for k in range(na):
    yield (k,)
  if na * nb <= (250000 if ctx.tier == 'thorough' else 900):
    for k in range(1, na):
      for l in range(1, nb):
        yield (k, l)


def explore(ctx, funcs, want, names, after):
  modes = (False, True) if ctx.tier == 'thorough' else (False,)
  for opcodes in modes:
    n = [sched.length(f, opcodes) for f in funcs]
    plan = schedules(n[0], n[1], ctx) if not opcodes else ((k,) for k in range(n[0]))
    for sw in plan:
      verify(ctx, funcs, want, names, sw, opcodes)
      after('schedule %s of %s' % (list(sw), list(names)))
  ctx.sample({'threads': list(names), 'points': n})


def verify(ctx, funcs, want, names, sw, opcodes=False):
  try:
    r = sched.run(funcs, 0, sw, opcodes)
  except sched.Deadlock:
    ctx.fail('threads %s, switches %s: no thread can continue' % (list(names), list(sw)))
  for i in range(2):
    what = lambda: 'thread %d of %s, switches at %s' % (i, list(names), r.where)
    ctx.check(r.err[i] is None,
              lambda: '%s: %s: %s' % (what(), type(r.err[i]).__name__, r.err[i]))
    w = ops.agree(r.out[i], want[i])
    ctx.check(w is None, lambda: '%s: result %s' % (what(), w))
    ctx.outcome(names[i], want[i])
  ctx.trace()
  ctx.trans(r.total)
  ctx.state(names, sw, opcodes)


# ---------------------------------------------------------- first use

def _c_keys(i):
  import ocnn
  import torch
  t = torch.tensor([[i, 0, 3], [1, 2, 3], [7, 6 + i, 7], [300, 500, 511]])
  k = ocnn.octree.xyz2key(t[:, 0], t[:, 1], t[:, 2], torch.tensor([0, 1, i, 2]), 10)
  return [k, list(ocnn.octree.key2xyz(k, 10))]


def _c_build(i):
  import ocnn
  c = Cloud([[[0, 0, 0], [3, 1, 2 + i], [3, 3, 3]]], 2, i, True, 2)
  o = ocnn.octree.Octree(2, 1)
  o.build_octree(c.points())
  o.construct_all_neigh()
  return [o, o.get_neigh(2, '311', 1), o.get_neigh(2, '222', 2, True)]


def _c_full(i):
  import ocnn
  o = ocnn.octree.init_octree(2 + i, 2, 2 - i)
  o.construct_all_neigh()
  return [o, o.xyzb(2), o.get_neigh(2, '131', 1)]


def _x(o, d, ne=False):
  return ops.tens(int(o.nnum_nempty[d] if ne else o.nnum[d]), 2, d, grad=False)


def _c_conv(i):
  import ocnn
  import torch
  o = ocnn.octree.init_octree(2, 2, 1)
  o.construct_all_neigh()
  conv = ocnn.nn.OctreeConv(2, 3, [3, 1, 1] if i else [3], nempty=True)
  with torch.no_grad():
    for p in conv.parameters():
      p.copy_(torch.arange(p.numel()).view(p.shape) % 5 - 2)
  x = _x(o, 2).requires_grad_()
  y = conv(x, o, 2)
  y.sum().backward()
  return [y, x.grad, conv.weights.grad]


def _c_pool(i):
  import ocnn
  o = ocnn.octree.init_octree(2, 2, 1)
  o.construct_all_neigh()
  x = _x(o, 2)
  return [ocnn.nn.octree_max_pool(x, o, 2),
          ocnn.nn.octree_avg_pool(x, o, 2, '222', 2),
          ocnn.nn.OctreeInterp('linear' if i else 'nearest')(
              x, o, 2, ops.tens(3, 4, 1, grad=False) / 16)]


def _c_norm(i):
  import ocnn
  o = ocnn.octree.init_octree(2, 2, 2)
  o.construct_all_neigh()
  x = _x(o, 2)
  return [ocnn.nn.OctreeGroupNorm(2, 1 + i)(x, o, 2),
          ocnn.nn.OctreeGlobalPool()(x, o, 2)]


def _c_deconv(i):
  import ocnn
  import torch
  o = ocnn.octree.init_octree(2, 2, 1)
  o.construct_all_neigh()
  m = ocnn.nn.OctreeDeconv(2, 3, [2], 2) if i else ocnn.nn.OctreeDWConv(2, [3])
  with torch.no_grad():
    for p in m.parameters():
      p.copy_(torch.arange(p.numel()).view(p.shape) % 5 - 2)
  x = _x(o, 1 if i else 2).requires_grad_()
  y = m(x, o, 1 if i else 2)
  y.sum().backward()
  return [y, x.grad]


COLD = {'keys': _c_keys, 'build': _c_build, 'full': _c_full, 'conv': _c_conv,
        'pool': _c_pool, 'norm': _c_norm, 'deconv': _c_deconv}


def forked(f):
  """ f() in a fresh copy of this process, in which nothing was executed. """
  from mc.engine import HarnessError
  r, w = os.pipe()
  pid = os.fork()
  if pid == 0:
    try:
      os.close(r)
      try:
        v = ('ok', f())
      except Exception as e:
        v = (type(e).__name__, str(e))
      with os.fdopen(w, 'wb') as h:
        pickle.dump(v, h)
    finally:
      os._exit(0)
  os.close(w)
  with os.fdopen(r, 'rb') as h:
    data = h.read()
  os.waitpid(pid, 0)
  if not data:
    raise HarnessError('a forked execution gave no result')
  return pickle.loads(data)


def cold(case, ctx):
  scene = COLD[case['scene']]
  lengths = {}
  want = {}
  for i in (0, 1):
    v = forked(lambda: ops.result(scene(i)))
    ctx.check(v[0] == 'ok', lambda: 'first use of %s alone: %s' % (case['scene'], v))
    want[i] = v[1]
    v = forked(lambda: sched.length(lambda: ops.result(scene(i))))
    lengths[i] = v[1]
  for i, j in ((case['i'], case['j']),):
    for k in range(case['part'], lengths[i], 4):
      funcs = [lambda: ops.result(scene(i)), lambda: ops.result(scene(j))]

      def go():
        try:
          r = sched.run(funcs, 0, (k,))
        except sched.Deadlock:
          return 'no thread can continue', None, None, 0
        err = [None if e is None else '%s: %s' % (type(e).__name__, e) for e in r.err]
        return err, r.out, r.where, r.total
      v = forked(go)
      ctx.check(v[0] == 'ok', lambda: 'first use of %s: %s' % (case['scene'], v))
      err, out, where, total = v[1]
      what = lambda: 'first use of %s by two threads, switch at %s' % (case['scene'], where)
      ctx.check(err == [None, None], lambda: '%s: %s' % (what(), err))
      for a, b in ((0, i), (1, j)):
        w = ops.agree(out[a], want[b])
        ctx.check(w is None, lambda: '%s: result of thread %d: %s' % (what(), a, w))
      ctx.trace()
      ctx.trans(total)
      ctx.state(case['scene'], i, j, k)
  ctx.outcome(case['scene'], want[0])
  ctx.sample({'first use': case['scene'], 'points': lengths})
