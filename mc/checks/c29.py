"""C29: copies and device moves preserve the whole content."""

import io
import copy
import pickle
import itertools
import numpy as np
from mc import ref, shapes, oct, ops
from mc.cloud import Cloud

ID = 'C29'
TECHNIQUE = ('exhaustive enumeration of octrees, clouds and copy routes on the real '
             'objects; every operation is executed on original and copy and compared, '
             'all fields before and after are compared, every field of one side is '
             'modified and the other side compared')
BOUNDS = ('10 copy routes (device move by name / object / non-blocking, copy, deep copy, 3 '
          'pickle protocols, torch serialisation, meta device) and chains of two routes, '
          'over 30 octrees (batched, merged, grown, empty samples, deep, without '
          'neighbours, partial, double precision, with and without signals) and all 32 '
          'attribute combinations of clouds; 62 operations behave identically for 4 '
          'routes (thorough: 8)')
ASSUMPTIONS = ['`cpu:0` is the second device (a real copy), `meta` the third; no '
               'accelerator is present',
               'copy.copy is shallow by convention: only its content is compared']
CASE_LIMIT = 300


def r_dev(x):
  return x.to('cpu:0')


def r_obj(x):
  import torch
  return x.to(torch.device('cpu:0'))


def r_async(x):
  return x.to('cpu:0', non_blocking=True)


def r_deep(x):
  return copy.deepcopy(x)


def r_shallow(x):
  return copy.copy(x)


def r_pickle(proto):
  def f(x):
    return pickle.loads(pickle.dumps(x, proto))
  return f


def r_save(x):
  import torch
  b = io.BytesIO()
  torch.save(x, b)
  b.seek(0)
  return torch.load(b, weights_only=False)


ROUTES = {'to name': r_dev, 'to object': r_obj, 'to async': r_async,
          'deep copy': r_deep, 'copy': r_shallow, 'pickle 2': r_pickle(2),
          'pickle 4': r_pickle(4), 'pickle 5': r_pickle(5), 'save': r_save}
NAMES = list(ROUTES)
BEHAVE = {'to name': r_dev, 'deep copy': r_deep, 'pickle 4': r_pickle(4),
          'copy': r_shallow}


def back(x):
  """ To another device and back. """
  return x.to('cpu:0').to('cpu')


def cases(tier):
  out = [{'kind': 'octree', 'i': i} for i in range(len(octrees()))]
  out += [{'kind': 'cloud', 'bits': b} for b in range(32)]
  routes = sorted(BEHAVE) + ['back']
  if tier == 'thorough':
    routes += ['save', 'to async', 'pickle 2']
  for r in routes:
    for part in range(4):
      out.append({'kind': 'behave', 'route': r, 'part': part})
  return out


def run(case, ctx):
  globals()[case['kind']](case, ctx)


# ----------------------------------------------------------------- octrees

L1 = [[[0, 0, 0], [3, 1, 2], [7, 7, 7], [7, 0, 6], [4, 4, 4]]]
L2 = L1 + [[[1, 6, 5], [1, 6, 4], [0, 0, 1]]]
L3 = [[]] + L2 + [[]]


def octrees():
  out = []
  for leaves in ('L1', 'L2', 'L3'):
    for full in (1, 2, 3):
      for how in ('batch', 'merge'):
        out.append(dict(leaves=leaves, full=full, how=how, neigh=(full != 2)))
  for normals, width in ((False, 0), (True, 0), (False, 2)):
    out.append(dict(leaves='L2', full=2, how='batch', neigh=True, normals=normals,
                    width=width))
  out.append(dict(leaves='L2', full=1, how='merge', neigh=True, dtype='float64'))
  for how in ('init', 'grow', 'partial', 'reset', 'new', 'layers', 'signals'):
    out.append(dict(leaves='L2', full=1, how=how, neigh=(how == 'grow')))
  out.append(dict(leaves='deep', full=2, how='batch', neigh=True))
  out.append(dict(leaves='none', full=2, how='batch', neigh=True))
  return out


def make(c):
  import torch
  import ocnn
  table = {'L1': L1, 'L2': L2, 'L3': L3, 'deep': [[[0, 0, 0], [511, 3, 255]]],
           'none': [[], []]}
  leaves = table[c['leaves']]
  depth = 9 if c['leaves'] == 'deep' else 3
  how = c['how']
  if how in ('batch', 'merge'):
    cl = Cloud(leaves, depth, 1, c.get('normals', True), c.get('width', 3))
    return cl.octree(c['full'], how, c['neigh'],
                     getattr(torch, c.get('dtype', 'float32')))
  if how == 'init':
    return ocnn.octree.init_octree(4, 2, 3)
  if how == 'new':
    return ocnn.octree.Octree(5, 2, 3)
  if how == 'grow':
    o = shapes.build_grow(leaves, depth, 1)
    o.construct_all_neigh()
    return o
  if how == 'partial':
    o = ocnn.octree.init_octree(4, 1, 2)
    o.octree_split(torch.tensor([1, 0, 0, 1] * 4), 1)
    o.octree_grow(2)
    return o
  if how == 'layers':
    o = Cloud(leaves, depth, 1, True, 3).octree(1, 'batch', False)
    o.construct_neigh(1)
    o.construct_neigh(2)
    return o
  if how == 'signals':      # signals at every layer, of different kinds
    o = Cloud(leaves, depth, 1, True, 3).octree(1, 'batch', True)
    for d in range(depth):
      n = int(o.nnum_nempty[d])
      o.features[d] = torch.tensor(ref.idata(n, 1 + d, d), dtype=torch.float32)
      if d != 1:
        o.normals[d] = torch.tensor(ref.idata(n, 3, d + 1), dtype=torch.float64)
      if d != 2:
        o.points[d] = torch.tensor(ref.idata(n, 3, d + 2), dtype=torch.float32)
    return o
  if how == 'reset':
    o = Cloud(leaves, depth, 1, True, 3).octree(1, 'batch', True)
    o.reset()
    return o


def fields(x):
  """ Every tensor of the documented content, by attribute path. """
  import torch
  out = {}

  def walk(path, v):
    if isinstance(v, torch.Tensor):
      out[path] = v
    elif isinstance(v, (list, tuple)):
      for i, w in enumerate(v):
        walk('%s[%d]' % (path, i), w)
    elif isinstance(v, dict):
      for k in v:
        walk('%s[%r]' % (path, k), v[k])
  for k in snap(x):
    walk(k, getattr(x, k))
  return out


def touch(t):
  """ Modifies a tensor in place. """
  import torch
  if t.dtype == torch.bool:
    t.logical_not_()
  else:
    t.add_(1)


def snap(x):
  return oct.snapshot(x) if hasattr(x, 'keys') else oct.psnapshot(x)


def whole(x):
  """ Public content and its tensors. """
  return [snap(x), {k: v.clone() for k, v in fields(x).items()}]


def compare(ctx, got, want, what):
  oct.same(ctx, snap(got), snap(want), what)


def copies(ctx, build, what, changes):
  """ All routes and chains of two routes. """
  for name in NAMES + [a + ' + ' + b for a in NAMES for b in ('to name', 'deep copy',
                                                              'pickle 4')]:
    def go(x):
      for r in name.split(' + '):
        x = ROUTES[r](x)
      return x
    w = '%s of %s' % (name, what)
    x = build()
    before = whole(x)
    y = go(x)
    ctx.check(type(y) is type(x), w + ': type')
    compare(ctx, y, x, w)
    oct.same(ctx, whole(x), before, w + ': original')
    ctx.trans()
    ctx.state(what, name)
    if name.startswith('copy'):
      continue
    ctx.check(y is not x, w + ' returns the object itself')
    # every field of the copy, then of the original
    want = snap(y)
    for k, t in fields(y).items():
      touch(t)
      now = whole(x)
      oct.same(ctx, now, before, '%s: original after changing %s of the copy' % (w, k))
    y = go(x)
    for k, t in fields(x).items():
      touch(t)
      oct.same(ctx, snap(y), want, '%s: copy after changing %s of the original' % (w, k))
    # replacing entries and updating methods
    for cname, change in changes:
      x = build()
      y = go(x)
      change(y)
      oct.same(ctx, whole(x), before, '%s: original after %s of the copy' % (w, cname))
      y = go(x)
      want = snap(y)
      change(x)
      oct.same(ctx, snap(y), want, '%s: copy after %s of the original' % (w, cname))
      ctx.trans()
    ctx.trace()
  ctx.outcome(before[0])


def octree(case, ctx):
  import torch
  c = octrees()[case['i']]
  x = make(c)
  changes = [('reset', lambda o: o.reset()), ('replacing', replace)]
  if c['how'] in ('batch', 'merge', 'grow') and c['full'] >= 1 and c['leaves'] != 'none':
    changes.append(('constructing neighbours', lambda o: o.construct_all_neigh()))
  if c['how'] == 'init':
    changes.append(('splitting', lambda o: (
        o.octree_split(torch.ones(int(o.nnum[2]), dtype=torch.int32), 2),
        o.octree_grow(3))))
  copies(ctx, lambda: make(c), 'octree %s' % c, changes)
  same_device(ctx, lambda: make(c), 'octree %s' % c)
  # whatever device: types, sizes and counts
  m = x.to('meta')
  compare_meta(ctx, m, x, 'octree %s' % c)
  ctx.sample(c)


def replace(o):
  import torch
  for l in (o.keys, o.children, o.neighs, o.features, o.normals, o.points):
    for i in range(len(l)):
      l[i] = torch.zeros(1)
  o.depth += 1
  o.full_depth += 1
  o.batch_size += 1
  o.nnum = o.nnum_nempty = None


def same_device(ctx, build, what):
  import torch
  x = build()
  before = whole(x)
  for name, f in (('to(cpu)', lambda: x.to('cpu')), ('cpu()', lambda: x.cpu()),
                  ('to(device)', lambda: x.to(torch.device('cpu'))),
                  ('to(own device)', lambda: x.to(x.device)),
                  ('to(cpu, True)', lambda: x.to('cpu', True))):
    ctx.check(f() is x, lambda: '%s of %s is another object' % (name, what))
    oct.same(ctx, whole(x), before, '%s of %s' % (name, what))
    ctx.trans()
  y = x.to('cpu:0')
  ctx.check(y.device == torch.device('cpu:0') or not hasattr(x, 'keys'),
            lambda: 'device of the moved ' + what)


def compare_meta(ctx, m, x, what):
  import torch
  a, b = snap(m), snap(x)

  def walk(p, u, v):
    if isinstance(v, torch.Tensor):
      ctx.check(isinstance(u, torch.Tensor) and u.shape == v.shape and
                u.dtype == v.dtype, lambda: '%s on meta: %s' % (what, p))
      counts = 'nnum' in p or 'npt' in p
      ctx.check(counts or u.device.type == 'meta', lambda: '%s on meta: %s is on %s' % (
          what, p, u.device))
      if counts and u.device.type != 'meta':
        ctx.equal(u, v, '%s on meta: %s' % (what, p), dtype=True)
    elif isinstance(v, (list, tuple)):
      ctx.check(len(u) == len(v), lambda: '%s on meta: %s' % (what, p))
      for i in range(len(v)):
        walk('%s[%d]' % (p, i), u[i], v[i])
    else:
      ctx.check(u == v, lambda: '%s on meta: %s is %r' % (what, p, u))
  for k in b:
    walk(k, a[k], b[k])
  ctx.check(m.device.type == 'meta', lambda: 'device of %s on meta' % what)
  ctx.trans()


# ------------------------------------------------------------------ clouds

def cloud(case, ctx):
  import torch
  from ocnn.octree import Points, merge_points
  bits = [(case['bits'] >> k) & 1 for k in range(5)]
  has_n, has_f, has_l, has_b, dbl = bits
  t = torch.float64 if dbl else torch.float32
  n = 5

  def single(salt, b=None):
    def d(k, s):
      return torch.tensor(ref.idata(n, k, salt + s) / 8.0, dtype=t)
    return Points(d(3, 0), d(3, 1) if has_n else None, d(2, 2) if has_f else None,
                  d(1, 3) if has_l else None,
                  torch.tensor([0, 0, 1, 1, 2]).view(-1, 1) if b else None,
                  batch_size=3 if b else 1)
  kinds = [('cloud', lambda: single(1, has_b))]
  if not has_b:
    kinds.append(('merged cloud', lambda: merge_points([single(1), single(2), single(9)])))
  else:
    kinds.append(('empty cloud', lambda: single(1, True)[torch.zeros(n, dtype=torch.bool)]))
  changes = [('flip', lambda p: p.flip('xz')),
             ('translate', lambda p: p.translate(torch.tensor([1., 2, 3], dtype=t))),
             ('scale', lambda p: p.scale(torch.tensor([1., 2, 3], dtype=t))),
             ('clip', lambda p: p.clip(-.5, .5)),
             ('replacing', preplace)]
  if not dbl:
    changes.append(('rotate', lambda p: p.rotate(torch.tensor([.1, .2, .3]))))
  if has_n:
    changes.append(('orienting', lambda p: p.orient_normal('x')))
  for name, build in kinds:
    what = '%s %s' % (name, bits)
    ch = changes if name == 'cloud' else changes[:3] + changes[4:5]
    copies(ctx, build, what, ch)
    same_device(ctx, build, what)
    compare_meta(ctx, build().to('meta'), build(), what)
    # equal behaviour of original and copy
    for r in NAMES:
      for cname, change in ch:
        if cname == 'replacing':
          continue
        x, y = build(), ROUTES[r](build())
        a, b = change(x), change(y)
        oct.same(ctx, snap(y), snap(x), '%s of a %s of %s' % (cname, r, what))
        if isinstance(a, torch.Tensor):
          ctx.equal(b, a, 'result of %s' % cname)
        ctx.trans()
  ctx.sample({'attributes': bits})


def preplace(p):
  import torch
  p.points = torch.zeros(1, 3)
  p.normals = p.features = p.labels = p.batch_id = None
  p.batch_size += 1


# -------------------------------------------------------------- behaviour

def behave(case, ctx):
  names = ops.NAMES[case['part']::4]
  route = back if case['route'] == 'back' else ROUTES[case['route']]
  plain = ops.alone(names)
  moved = ops.alone(names, prepare=route)
  for n in names:
    w = ops.agree(moved[n], plain[n], 1e-6)
    ctx.check(w is None, lambda: 'operation %s on a %s: %s' % (n, case['route'], w))
    ctx.trans()
    ctx.state(n, case['route'])
    ctx.outcome(n, plain[n])
  ctx.trace()
  ctx.sample({'route': case['route'], 'operations': names[:4]})
