"""C40: what does not fit is rejected, and a rejection leaves no trace."""

import contextlib
import io
import itertools
import os
import shutil
import tempfile
import numpy as np
from mc import ref, shapes, oct
from mc.cloud import Cloud

ID = 'C40'
TECHNIQUE = ('exhaustive enumeration of arguments that do not fit (and of those that do) on '
             'the real functions and layers, with the state of all objects compared before '
             'and after each rejection')
BOUNDS = ('all numbers of rows from 0 to 2 n + 8 (around all layer sizes when n > 120) and '
          'of channels from 0 to 9 for 40 operations x layers x node modes on a family of '
          'octrees; all kernels of three digits 0-4 x strides 0-3; all lists of 2 and 3 '
          'octrees out of 6 kinds; all batch sizes 1-4 x 1-4; all depths of full layers; '
          'all lengths 0-3 x widths 1-4 of the members of a cloud; all groupings up to 6 '
          'channels; the networks with every number of rows and channels up to a bound')
ASSUMPTIONS = ['a single row (of a pooled or padded layer) or channel (of an instance norm) is broadcast as in '
               'torch, which is not rejected',
               'the kind of the exception is not specified',
               'pooling, padding, sampling and other operations without parameters take '
               'any number of channels']
CASE_LIMIT = 300


def cases(tier):
  out = []
  fams = [([[[0, 0, 0], [1, 1, 0], [3, 3, 3]]], 2, 1),
          ([[[0, 1, 2]], [], [[0, 0, 0], [0, 0, 1], [3, 0, 0]]], 2, 1),
          ([[[7, 7, 7], [0, 0, 0], [4, 3, 4]]], 3, 1),
          ([[[1, 1, 1], [3, 2, 1]], [[0, 0, 0], [2, 2, 2]]], 2, 2),
          ([[[5, 0, 2], [5, 1, 2], [2, 7, 7], [6, 6, 6]], [[0, 0, 7]]], 3, 2)]
  if tier == 'thorough':
    for m in range(1, 256, 7):
      fams.append(([shapes.subset([1, 0, 1], m), [[0, 0, 0]]], 2, 1 + m % 2))
    for i, p in enumerate(shapes.pairs(2)[::25]):
      fams.append(([p, [[3, 1, 2]]], 2, 1 + i % 2))
  for i, (leaves, depth, full) in enumerate(fams):
    for d in range(1, depth + 1):
      for ne in (False, True):
        for part in range(4):
          out.append({'kind': 'rows', 'leaves': leaves, 'depth': depth, 'full': full,
                      'd': d, 'nempty': ne, 'part': part})
    out.append({'kind': 'kernels', 'leaves': leaves, 'depth': depth, 'full': full})
  for n in (2, 3) if tier == 'quick' else (2, 3, 4):
    for first in range(len(KINDS)):
      out.append({'kind': 'merge', 'n': n, 'first': first})
  out += [{'kind': 'batch'}, {'kind': 'grow'}, {'kind': 'groups'}, {'kind': 'misc'},
          {'kind': 'collate'}]
  for n in range(4):
    out.append({'kind': 'points', 'n': n})
  for net in NETS:
    for ne in (False, True):
      out.append({'kind': 'nets', 'net': net, 'nempty': ne})
  return out


def run(case, ctx):
  globals()['do_' + case['kind']](case, ctx)
  ctx.trace()


def outcome(func):
  """ What a call does: its result, or that it is rejected. """
  import warnings
  try:
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      return 'ok', func()
  except Exception:
    return 'rejected', None


class Judge:
  """ Calls a function with fitting and with other arguments, and watches objects. """

  def __init__(self, ctx, look):
    self.ctx, self.look = ctx, look
    self.before = look()

  def fits(self, func, what):
    ok, out = outcome(func)
    if ok != 'ok':
      func()   # shows the error
    self.ctx.trans()
    oct.same(self.ctx, self.look(), self.before, what + ': the state')
    return out

  def rejects(self, func, what):
    ok, out = outcome(func)
    self.ctx.trans()
    self.ctx.check(ok == 'rejected', lambda: what + ': accepted')
    oct.same(self.ctx, self.look(), self.before, what + ', rejected: the state')


def data(n, c, salt=1):
  import torch
  return torch.tensor(ref.idata(n, c, salt), dtype=torch.float32).reshape(n, c)


# ------------------------------------------------------------------ operations

def operations(octree, tree, d, ne, C):
  """ (name, call(data), kinds of rows, rows that are broadcast, fixed channels) """
  import torch
  import ocnn.nn as nn
  q = torch.tensor([[.3, -.7, .1, 0], [.99, .99, .99, 0], [-1, -1, -1, 0]])
  out, mods = [], []

  def mod(name, m, few=(), channels=True):
    mods.append(m)
    with torch.no_grad():
      for i, p in enumerate(m.parameters()):
        p.copy_(torch.tensor(ref.idata(p.numel(), 1, i)).reshape(p.shape))
    out.append((name, lambda x, m=m: m(x, octree, d), few, channels))

  def fun(name, f, few=(), channels=False):
    out.append((name, f, few, channels))

  last = d == octree.depth
  kern = ([3], [2], [3, 1, 1], [1, 3, 3], [3, 1, 3])
  for direct in (False, True):
    for i, st in itertools.product(range(5), (1, 2)):
      if st == 2 and i not in (0, 1):
        continue
      mod('OctreeConv %s stride %d direct=%s' % (kern[i], st, direct),
          nn.OctreeConv(C, 2, kern[i], st, ne, direct, bool(i % 2)))
    mod('OctreeDeconv direct=%s' % direct, nn.OctreeDeconv(C, 2, [3], 1, ne, direct))
    if not last:
      mod('OctreeDeconv stride 2 direct=%s' % direct,
          nn.OctreeDeconv(C, 2, [2], 2, ne, direct, True))
  mod('OctreeConv in pieces', nn.OctreeConv(C, 2, [3], 1, ne, max_buffer=60 * C))
  mod('OctreeDWConv', nn.OctreeDWConv(C, [3], 1, ne))
  mod('OctreeDWConv stride 2', nn.OctreeDWConv(C, [2], 2, ne, True))
  mod('OctreeGroupConv', nn.OctreeGroupConv(C, 4, [3], 1, ne, group=2))
  mod('OctreeGroupConv of one group', nn.OctreeGroupConv(C, 3, [3], 2, ne, group=1))
  mod('OctreeGroupNorm', nn.OctreeGroupNorm(C, 2, ne))
  mod('OctreeInstanceNorm', nn.OctreeInstanceNorm(C, ne))
  mod('OctreeMaxPool', nn.OctreeMaxPool(ne), (1,) if ne else (8,), False)
  mod('OctreeMaxPool with indices', nn.OctreeMaxPool(ne, True), (1,) if ne else (8,), False)
  for k, st in (([3], 1), ([2], 2), ([3], 2), ([1, 3, 1], 1)):
    mod('OctreeAvgPool %s stride %d' % (k, st), nn.OctreeAvgPool(k, st, ne), (), False)
  mod('OctreeGlobalPool', nn.OctreeGlobalPool(ne), (), False)
  drop = nn.OctreeDropPath(.5, ne)
  drop.train()
  mod('OctreeDropPath', drop, (1,), False)
  mod('Octree2Voxel', nn.Octree2Voxel(ne), (1,), False)
  for method in ('nearest', 'linear'):
    interp = nn.OctreeInterp(method, ne)
    mods.append(interp)
    fun('OctreeInterp ' + method, lambda x, m=interp: m(x, octree, d, q))
    if not last:
      mod('OctreeUpsample ' + method, nn.OctreeUpsample(method, ne), (), False)
  if not last:
    rows = tree.layer(d).nnum_nempty
    idx = torch.tensor(ref.idata(rows, C, 3, 0, 7))
    fun('octree_max_unpool', lambda x: nn.octree_max_unpool(x, idx, octree, d, ne),
        (1,), True)
    fun('octree_max_unpool, indices', lambda x: nn.octree_max_unpool(
        data(tree.layer(d).nnum_nempty if ne else tree.layer(d).nnum, C), x.long() % 8,
        octree, d, ne), (1,), True)
  for kernel in ('333', '222', '311', '313'):
    fun('octree2col ' + kernel, lambda x, k=kernel: nn.octree2col(x, octree, d, k, 1, ne))
  fun('octree2col stride 2', lambda x: nn.octree2col(x, octree, d, '333', 2, ne))
  fun('col2octree', lambda x: nn.col2octree(x.unsqueeze(1).repeat(1, 27, 1), octree, d,
                                            '333', 1, ne), ())
  fun('octree_align', lambda x: nn.octree_align(x, octree, octree, d, ne))
  if ne:
    fun('octree_pad', lambda x: nn.octree_pad(x, octree, d), (1,))
  else:
    fun('octree_depad', lambda x: nn.octree_depad(x, octree, d))
  return out, mods


def do_rows(case, ctx):
  import torch
  d, ne, C = case['d'], case['nempty'], 4
  octree, tree = shapes.build(dict(case, fam='leaves', build='batch'))
  octree.construct_all_neigh()
  layer = tree.layer(d)
  n = layer.nnum_nempty if ne else layer.nnum
  sizes = sorted(set(s for e in range(tree.depth + 1) for s in
                     (tree.layer(e).nnum, tree.layer(e).nnum_nempty)))
  if n <= 120:
    rows = range(2 * n + 9)
  else:
    rows = set(range(10)) | set(range(n - 9, n + 10)) | {2 * n, 8 * n, n // 2, n // 8}
    for s in sizes:
      rows |= {s - 1, s, s + 1}
    rows = sorted(r for r in rows if r >= 0)
  ops, mods = operations(octree, tree, d, ne, C)

  def look():
    return [oct.snapshot(octree), [{k: v.clone() for k, v in m.state_dict().items()}
                                   for m in mods],
            [[p.grad is None for p in m.parameters()] for m in mods]]
  judge = Judge(ctx, look)
  for j, (name, call, few, channels) in enumerate(ops):
    if j % 4 != case['part']:
      continue
    what = '%s, layer %d, nempty=%s, %d nodes' % (name, d, ne, n)
    want = n
    if name == 'octree_max_unpool, indices':
      want = layer.nnum_nempty
    x = data(want, C)
    torch.manual_seed(5)
    first = judge.fits(lambda: call(x), what)
    ctx.state(name, d, ne, case['leaves'])
    for r in rows:
      if r == want or r in few:
        continue
      bad = data(r, C)
      judge.rejects(lambda: call(bad), '%s: %d rows' % (what, r))
    for c in range(10):
      if c == C:
        continue
      if c == 1 and name.startswith(('octree_max_unpool', 'OctreeInstanceNorm')):
        continue
      bad = data(want, c) if c else torch.zeros(want, 0)
      if channels:
        judge.rejects(lambda: call(bad), '%s: %d channels' % (what, c))
      elif c:
        judge.fits(lambda: call(bad), '%s: %d channels' % (what, c))
    torch.manual_seed(5)
    again = judge.fits(lambda: call(x), what)
    flat = lambda v: list(v) if isinstance(v, tuple) else [v]
    oct.same(ctx, [v.detach() for v in flat(again)], [v.detach() for v in flat(first)],
             what + ', after the rejections: the result')
    ctx.outcome(name, len(first) if isinstance(first, tuple) else tuple(first.shape))


def do_kernels(case, ctx):
  import torch
  import ocnn.nn as nn
  octree, tree = shapes.build(dict(case, fam='leaves', build='batch'))
  octree.construct_all_neigh()
  d = tree.depth
  judge = Judge(ctx, lambda: oct.snapshot(octree))
  good = set(ref.KERNELS)
  for digits in itertools.product('01234', repeat=3):
    k = ''.join(digits)
    for stride in range(4):
      for ne in (False, True):
        what = 'kernel %s, stride %d, nempty=%s' % (k, stride, ne)
        call = lambda: octree.get_neigh(d, k, stride, ne)
        if k in good and stride in (1, 2):
          oct.check_neigh(ctx, octree, tree, d, k, stride, ne, what + ': ')
        else:
          judge.rejects(call, 'get_neigh, ' + what)
        n = tree.layer(d).nnum_nempty if ne else tree.layer(d).nnum
        x = data(n, 2)
        ks = [int(v) for v in digits]
        if stride not in (1, 2) or k not in good:
          for name, make in (
              ('OctreeConv', lambda: nn.OctreeConv(2, 2, ks, stride, ne)),
              ('OctreeConv direct', lambda: nn.OctreeConv(2, 2, ks, stride, ne, True)),
              ('OctreeDeconv', lambda: nn.OctreeDeconv(2, 2, ks, stride, ne)),
              ('OctreeDWConv', lambda: nn.OctreeDWConv(2, ks, stride, ne)),
              ('OctreeGroupConv', lambda: nn.OctreeGroupConv(2, 2, ks, stride, ne, group=2)),
              ('OctreeAvgPool', lambda: nn.OctreeAvgPool(ks, stride, ne))):
            judge.rejects(lambda: make()(x, octree, d), '%s, %s' % (name, what))
  for ks in ([], [3, 3, 3, 3], (3,), 3, '3', None):
    judge.rejects(lambda: nn.OctreeConv(2, 2, ks), 'OctreeConv, kernel %r' % (ks,))
  for e in range(1, d + 1):
    for target in range(-1, e):
      n = tree.layer(e).nnum
      judge.rejects(lambda: nn.OctreeUpsample('nearest')(data(n, 2), octree, e, target),
                    'OctreeUpsample from layer %d to %d' % (e, target))
  ctx.state(case['leaves'])


# ------------------------------------------------------------------ structures

# (depth, full depth, device)
KINDS = [(2, 1, 'cpu'), (2, 2, 'cpu'), (3, 1, 'cpu'), (3, 2, 'cpu'), (2, 1, 'meta'),
         (3, 2, 'cpu')]


def one_tree(i):
  import torch
  depth, full, device = KINDS[i]
  c = Cloud([[[0, 0, 0], [1, 3 - i % 2, 2]]], depth, i, True, 2)
  o = c.octree(full)
  if i == 5:
    o.construct_all_neigh()
  if device != 'cpu':
    o = o.to(device)
  return o


def do_merge(case, ctx):
  from ocnn.octree import merge_octrees
  trees = [one_tree(i) for i in range(len(KINDS))]

  def look():
    out = []
    for (_, _, dev), o in zip(KINDS, trees):
      out.append([oct.snapshot(o) if dev == 'cpu' else
                  [o.depth, o.full_depth, o.batch_size, len(o.keys)]])
    return out
  judge = Judge(ctx, look)
  for rest in itertools.product(range(len(KINDS)), repeat=case['n'] - 1):
    pick = [case['first'], *rest]
    what = 'merging octrees of (depth, full depth, device) %s' % [KINDS[i] for i in pick]
    call = lambda: merge_octrees([trees[i] for i in pick])
    if len(set(KINDS[i] for i in pick)) > 1:
      judge.rejects(call, what)
    elif KINDS[pick[0]][2] == 'cpu':
      out = judge.fits(call, what)
      ctx.check(out.batch_size == len(pick) and
                int(out.nnum[-1]) == sum(int(trees[i].nnum[-1]) for i in pick),
                what + ': wrong result')
    ctx.state(pick)
  judge.rejects(lambda: merge_octrees([]), 'merging no octree')


def do_batch(case, ctx):
  import torch
  from ocnn.octree import Octree, Points
  for depth, full in ((2, 1), (2, 2), (3, 2)):
    for want, have in itertools.product(range(1, 5), repeat=2):
      c = Cloud([[[b % 2, 0, 1], [3, b % 4, 2]] for b in range(have)], depth, have, True, 2)
      p = c.points()
      octree = Octree(depth, full, want)
      judge = Judge(ctx, lambda: [oct.psnapshot(p)] + (
          [oct.snapshot(octree)] if want != have else []))
      what = 'building an octree of batch size %d from %d samples' % (want, have)
      if want == have:
        judge.fits(lambda: octree.build_octree(p), what)
      else:
        judge.rejects(lambda: octree.build_octree(p), what)
        good = Cloud([[[b % 2, 0, 1], [3, b % 4, 2]] for b in range(want)], depth, want,
                     True, 2)
        octree.build_octree(good.points())
        fresh = good.octree(full)
        oct.same(ctx, oct.snapshot(octree), oct.snapshot(fresh),
                 what + ', rejected, then from a fitting cloud')
      ctx.state(depth, full, want, have)


def do_grow(case, ctx):
  from ocnn.octree import Octree
  for depth, full, size in itertools.product((2, 3, 4), (0, 1, 2), (1, 2)):
    for update in (False, True):
      octree = Octree(depth, full, size)
      for d in range(full + 1):
        octree.octree_grow_full(d, update)
      judge = Judge(ctx, lambda: oct.snapshot(octree))
      for d in range(full + 1, depth + 3):
        judge.rejects(lambda: octree.octree_grow_full(d, update),
                      'growing layer %d in full, depth %d, full depth %d' % (d, depth, full))
      ctx.state(depth, full, size, update)


def do_groups(case, ctx):
  import ocnn.nn as nn
  judge = Judge(ctx, lambda: 0)
  for i, o, g in itertools.product(range(1, 7), range(1, 7), range(1, 8)):
    for k in ([3], [2]):
      call = lambda: nn.OctreeGroupConv(i, o, k, 1, group=g)
      what = 'OctreeGroupConv of %d -> %d channels in %d groups' % (i, o, g)
      if i % g == 0 and o % g == 0:
        judge.fits(call, what)
      else:
        judge.rejects(call, what)
    ctx.state(i, o, g)
  for i, g in itertools.product(range(1, 13), range(1, 14)):
    what = 'OctreeGroupNorm of %d channels in %d groups' % (i, g)
    call = lambda: nn.OctreeGroupNorm(i, g)
    judge.fits(call, what) if i % g == 0 else judge.rejects(call, what)
    ctx.state('norm', i, g)


def do_points(case, ctx):
  import torch
  from ocnn.octree import Points
  n = case['n']
  judge = Judge(ctx, lambda: 0)
  parts = {'normals': 3, 'features': None, 'labels': None, 'batch_id': 1}
  for dim in range(1, 5):
    xyz = torch.zeros(n, dim)
    if dim != 3:
      judge.rejects(lambda: Points(xyz), 'points with %d coordinates' % dim)
  judge.rejects(lambda: Points(torch.zeros(3 * n)), 'points as one vector')
  judge.rejects(lambda: Points(torch.zeros(n, 3, 1)), 'points as a volume')
  xyz = torch.zeros(n, 3)
  for name, width in parts.items():
    for m in range(5):
      flat = name in ('labels', 'batch_id')
      what = '%d points with %d %s' % (n, m, name)
      call = lambda: Points(xyz, **{name: torch.zeros(m)})
      judge.fits(call, what + ' in a vector') if flat and m == n else \
          judge.rejects(call, what + ' in a vector')
      for c in range(1, 5):
        call = lambda: Points(xyz, **{name: torch.zeros(m, c)})
        fit = m == n and (width is None or width == c)
        judge.fits(call, what) if fit else judge.rejects(
            call, what + ' of %d columns' % c)
        ctx.state(n, name, m, c)
      judge.rejects(lambda: Points(xyz, **{name: torch.zeros(m, width or 1, 1)}),
                    what + ' in three dimensions')
  # one member that does not fit among others that do
  for bad in parts:
    for others in itertools.product((False, True), repeat=3):
      kw = {k: torch.zeros(n, w or 2) for (k, w), on in
            zip([v for v in parts.items() if v[0] != bad], others) if on}
      judge.fits(lambda: Points(xyz, **kw), 'members %s' % sorted(kw))
      kw[bad] = torch.zeros(n + 1, parts[bad] or 2)
      judge.rejects(lambda: Points(xyz, **kw),
                    'members %s, one more row of %s' % (sorted(kw), bad))


def do_misc(case, ctx):
  import torch
  import ocnn
  from ocnn.octree import Points
  # scales with a zero
  for f in itertools.product((0.0, -0.0, 1.0, 2.0, -1.0, 1e-30), repeat=3):
    p = Points(data(5, 3), data(5, 3, 2), data(5, 2, 3), data(5, 1, 4))
    judge = Judge(ctx, lambda: oct.psnapshot(p))
    if 0.0 in f:
      judge.rejects(lambda: p.scale(torch.tensor(f)), 'scaling by %s' % (f,))
    else:
      p.scale(torch.tensor(f))
      ctx.equal(p.points, data(5, 3) * torch.tensor(f), 'scaled by %s' % (f,))
    ctx.state(f)
  for axis in 'abcwXYZ0123':
    p = Points(data(5, 3), data(5, 3, 2))
    judge = Judge(ctx, lambda: oct.psnapshot(p))
    judge.rejects(lambda: p.flip(axis), 'flipping the axis %r' % axis)
  scratch = tempfile.mkdtemp(prefix='mc40')
  try:
    p = Points(data(5, 3), data(5, 3, 2))
    judge = Judge(ctx, lambda: [oct.psnapshot(p), sorted(os.listdir(scratch))])
    for ext in ('ply', 'obj', 'txt', 'np', 'XYZ', 'pts'):
      judge.rejects(lambda: p.save(os.path.join(scratch, 'a.' + ext), 'PN'),
                    'saving a cloud as .' + ext)
    for info in ('Q', 'PX', 'P N'):
      judge.rejects(lambda: p.save(os.path.join(scratch, 'a.npz'), info),
                    'saving the members %r' % info)
  finally:
    shutil.rmtree(scratch)
  judge = Judge(ctx, lambda: 0)
  for n in range(-2, 8):
    call = lambda: ocnn.utils.build_example_octree(3, 2, n)
    what = 'example octree of %d points' % n
    judge.fits(call, what) if 1 <= n <= 3 else judge.rejects(call, what)
  for n in range(8):
    for num in range(1, 5):
      call = lambda: ocnn.utils.resize_with_last_val(list(range(n)), num)
      what = 'a list of %d values resized to %d' % (n, num)
      if 1 <= n <= num:
        out = judge.fits(call, what)
        ctx.equal(out, list(range(n)) + [n - 1] * (num - n), what)
      else:
        judge.rejects(call, what)


def do_collate(case, ctx):
  import torch
  from ocnn.dataset import CollateBatch
  a = [one_tree(i) for i in (0, 1, 2, 3)]
  for merge in (False, True):
    collate = CollateBatch(merge)
    samples = [{'octree': o, 'points': Cloud([[[0, 0, 0], [1, 2, 3]]], 2, i).points(),
                'label': i} for i, o in enumerate(a)]
    judge = Judge(ctx, lambda: [[oct.snapshot(o) for o in a],
                                [oct.psnapshot(s['points']) for s in samples],
                                [sorted(s) for s in samples]])
    for i, j in itertools.product(range(4), repeat=2):
      call = lambda: collate([samples[i], samples[j]])
      what = 'a batch of octrees %d and %d' % (i, j)
      judge.fits(call, what) if i == j else judge.rejects(call, what)
      ctx.state(merge, i, j)
    for batch in (tuple(samples[:1]), samples[0], {0: samples[0]}, iter(samples[:1]), None,
                  []):
      judge.rejects(lambda: collate(batch), 'a batch in a %s' % type(batch).__name__)
    judge.rejects(lambda: collate([samples[0], {'octree': a[0]}]),
                  'a batch whose second sample lacks keys')


# ------------------------------------------------------------------ networks

NETS = ('lenet', 'resnet', 'segnet', 'unet', 'hrnet', 'ae', 'ounet')


def network(name, ne):
  import ocnn
  m = ocnn.models
  if name == 'lenet':
    return m.LeNet(4, 3, 1, ne)
  if name == 'resnet':
    return m.ResNet(4, 3, 1, 2, ne)
  if name == 'segnet':
    return m.SegNet(4, 3, 1, 'linear', ne)
  if name == 'unet':
    net = m.UNet(4, 3, 'linear', ne)
    return net
  if name == 'hrnet':
    return m.HRNet(4, 3, 1, nempty=ne)
  if name == 'ae':
    return m.AutoEncoder(4, 4, 3, 2, 'ND', 8)
  return m.OUNet(4, 4, 3, 2, 'ND')


def do_nets(case, ctx):
  import torch
  name, ne = case['net'], case['nempty']
  depth = 5 if name == 'unet' else 3
  torch.manual_seed(1)
  own = name in ('ae', 'ounet')
  if own and ne:
    return
  net = network(name, ne)
  net.eval()
  scale = 1 << (depth - 3)
  leaves = [[[v * scale for v in p] for p in s] for s in (
      [[0, 0, 0], [7, 1, 6], [4, 4, 4]], [[1, 2, 3], [7, 7, 7]])]
  octree = Cloud(leaves, depth, 1).octree(2, 'batch', True)
  n = int(octree.nnum_nempty[depth] if ne else octree.nnum[depth])
  q = torch.tensor([[.3, -.7, .1, 0], [.99, .99, .99, 1], [-1, -1, -1, 0]])

  def look():
    return [oct.snapshot(octree), {k: v.clone() for k, v in net.state_dict().items()}]
  judge = Judge(ctx, look)

  def call(x, o=None):
    o = octree if o is None else o
    with torch.no_grad():
      if name in ('segnet', 'unet'):
        return net(x, o, depth, q)
      if name == 'hrnet':
        return net(x, o, depth)
      if own:
        return net.octree_encoder(x, o) if name == 'ae' else net.octree_encoder(o)
      return net(x, o, depth)
  what = '%s, nempty=%s, %d nodes' % (name, ne, n)
  if own:
    return do_own(ctx, name, octree)
  first = judge.fits(lambda: call(data(n, 4)), what)
  rows = sorted((set(range(12)) | set(range(n - 9, n + 10)) | {2 * n, 8 * n, n // 2}) - {n})
  for r in rows:
    judge.rejects(lambda: call(data(r, 4)), '%s: %d rows' % (what, r))
    ctx.state(r)
  for c in range(1, 10):
    if c != 4:
      judge.rejects(lambda: call(data(n, c)), '%s: %d channels' % (what, c))
  again = judge.fits(lambda: call(data(n, 4)), what)
  oct.same(ctx, again if torch.is_tensor(again) else list(again.values()) if
           isinstance(again, dict) else list(again),
           first if torch.is_tensor(first) else list(first.values()) if
           isinstance(first, dict) else list(first), what + ', after the rejections')


def do_own(ctx, name, octree):
  """ The networks that read their input from the octree: other channels do not fit. """
  import torch
  from ocnn import models
  kind = models.OUNet if name == 'ounet' else models.AutoEncoder
  for f in ('ND', 'P', 'N', 'D', 'L', 'NP', 'NDP', 'NDLP', 'F', 'FN', 'LD'):
    torch.manual_seed(1)
    net = kind(4, 4, 3, 2, f)
    net.eval()
    judge = Judge(ctx, lambda: [oct.snapshot(octree), {k: v.clone() for k, v in
                                                       net.state_dict().items()}])
    width = sum({'N': 3, 'D': 1, 'L': 3, 'P': 3, 'F': 2}[v] for v in f)
    if name == 'ounet':
      call = lambda: net(octree, octree, update_octree=False)
    else:
      call = lambda: net(octree, update_octree=False)
    what = '%s of 4 channels with the features %s' % (name, f)
    judge.fits(call, what) if width == 4 else judge.rejects(call, what)
    ctx.state(f)
