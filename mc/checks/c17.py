"""C17: padding, alignment and voxel conversion move values without loss."""

import itertools
import numpy as np
from mc import ref, shapes

ID = 'C17'
TECHNIQUE = ('bounded exhaustive exploration of the real functions over pairs of '
             'shapes, against cell-wise copying')
BOUNDS = ('padding, its inverse and voxels: the shape families of C08 x every layer '
          'x 7 fill values x 6 data types; alignment: all ordered pairs of 24 '
          'shapes (thorough: all 255 octant subsets x 24) at depths 1-4, 10, 16, '
          'single samples and batches, every layer, both modes, 6 data types; '
          'search by key with queries beyond both ends; gradients'
          '; octrees with more than 65536 nodes; memory layouts and 1 to 257 channels rotate')
ASSUMPTIONS = ['CPU tensors']
DT = ('float32', 'float64', 'int64', 'int32', 'float16', 'uint8')


def alphabet(depth):
  n = 1 << depth
  if depth == 1:
    return [shapes.subset([0, 0, 0], m) for m in
            (1, 128, 255, 254, 127, 0x55, 0xAA, 0x0F, 0xF0, 24, 66, 36,
             3, 192, 17, 136, 2, 64, 8, 16, 0x3C, 0xC3, 0x99)] + [[]]
  h = n // 2
  base = [[[0, 0, 0]], [[n - 1] * 3], [[0, 0, n - 1]], [[h, h - 1, h]], [[h - 1, h, h]],
          [[0, 0, 0], [n - 1] * 3], [[0, 0, 1]], [[1, 0, 0], [0, 1, 0]], [],
          shapes.subset([0, 0, 0], 0x96), shapes.subset([h - 1] * 3, 255),
          shapes.subset([0, h - 1, 0], 0x7F)]
  base += [base[i] + base[(i * 5 + 1) % 12] for i in range(12)]
  return [sorted(map(list, {tuple(c) for c in s})) for s in base]


def cases(tier):
  out = []
  for i, c in enumerate(shapes.op_cases(tier, builds=('batch', 'merge', 'grow')) +
                        shapes.deep_cases(tier)):
    out.append(dict(c, kind='pad', salt=i))
  for i, c in enumerate(shapes.wide_cases()):
    out.insert(0, dict(c, kind='pad', salt=i))
  for depth, full in ((1, 1), (1, 0), (2, 1), (2, 2), (3, 1), (4, 2), (10, 1), (16, 2)):
    for first in range(0, 24, 2):
      out.append({'kind': 'align', 'depth': depth, 'full': full, 'first': first})
    out.append({'kind': 'align batch', 'depth': depth, 'full': full})
  if tier == 'thorough':
    for first in range(0, 255, 8):
      out.append({'kind': 'align all', 'depth': 2, 'full': 1, 'first': first})
  out.append({'kind': 'search'})
  return out


def run(case, ctx):
  globals()['_' + case['kind'].replace(' ', '_')](case, ctx)
  ctx.trace()


def values(n, c, salt, name):
  import torch
  dt = getattr(torch, name)
  lo, hi = (0, 200) if name == 'uint8' else (-100, 100)
  x = torch.tensor(ref.idata(n, c, salt, lo, hi)).to(dt)
  if name in ('int64', 'float64'):
    x = x * (2 ** 40 + 1)       # lost by a detour over float32
  return shapes.layout(x, salt)


def _pad(case, ctx):
  import torch
  import ocnn
  octree, tree = shapes.build(case, neigh=False)
  i = case['salt']
  for d in range(tree.depth + 1):
    lay = tree.layer(d)
    for name in DT:
      i += 1
      c = shapes.channels(i, lay.nnum)
      x = values(lay.nnum_nempty, c, i, name)
      if x.dtype.is_floating_point and i % 3 == 0 and len(x):
        x[0, 0], x[-1, -1] = float('inf'), float('nan')     # stay where they are
      for val in ((0.0, 1, -1.5, float('-inf'), float('nan'), 1e30, 7)
                  if x.dtype.is_floating_point else (0, 1, 7)):
        if name == 'float16' and val == 1e30:
          continue
        got = ocnn.nn.octree_pad(x, octree, d, val)
        want = torch.full((lay.nnum, c), val, dtype=x.dtype)
        want[torch.tensor(lay.nempty)] = x
        ctx.equal(got, want, lambda: 'padding layer %d with %s, %s' % (d, val, name),
                  dtype=True)
        back = ocnn.nn.octree_depad(got, octree, d)
        ctx.equal(back, x, lambda: 'padding and removing it, layer %d' % d, dtype=True)
        ctx.trans(2)
      ctx.equal(ocnn.nn.octree_pad(x, octree, d), ocnn.nn.octree_pad(x, octree, d, 0.0),
                'default fill value')
      # voxels
      if tree.batch_size * 8 ** d <= 20000:
        for nempty in (False, True):
          v = values(lay.num(nempty), c, i + 1, name)
          want = np.moveaxis(tree.volume(v.double().numpy(), d, nempty), 1, -1)
          got = ocnn.nn.octree2voxel(v, octree, d, nempty) if i % 2 else \
              ocnn.nn.Octree2Voxel(nempty)(v, octree, d)
          ctx.equal(got.double(), want, lambda: 'voxels of layer %d, nempty=%s' % (d, nempty))
          ctx.check(got.dtype == v.dtype, lambda: 'data type of the voxels')
          ctx.trans()
    # gradients
    for nempty in (False, True):
      v = values(lay.num(nempty), 2, i, 'float64').requires_grad_()
      if tree.batch_size * 8 ** d <= 20000 and len(v):
        out = ocnn.nn.octree2voxel(v, octree, d, nempty)
        g = values(out.numel(), 1, i + 3, 'float64').view(out.shape)
        out.backward(g)
        b, xyz = lay.nodes(nempty)
        ctx.equal(v.grad, g[b, xyz[:, 0], xyz[:, 1], xyz[:, 2]], 'gradient of voxels')
      if len(v):
        v.grad = None
        f = ocnn.nn.octree_pad if nempty else ocnn.nn.octree_depad
        out = f(v, octree, d)
        g = values(len(out), 2, i + 4, 'float64')
        out.backward(g)
        if nempty:
          want = g[torch.tensor(lay.nempty)]
        else:
          want = torch.zeros_like(v)
          want[torch.tensor(lay.nempty)] = g
        ctx.equal(v.grad, want, 'gradient of padding')
        ctx.trans(2)
    ctx.state(d, lay.code, lay.nempty)
    ctx.outcome(lay.nnum, lay.nnum_nempty)
  ctx.sample({'depth': tree.depth, 'batch': tree.batch_size,
              'nodes': [l.nnum for l in tree.layers]})


def align(ctx, oa, ta, ob, tb, salt, names):
  import torch
  import ocnn
  for d in range(ta.depth + 1):
    la, lb = ta.layer(d), tb.layer(d)
    for nempty in (False, True):
      name = names[(salt + d) % len(names)]
      x = values(la.num(nempty), 2, salt + d, name)
      if x.dtype.is_floating_point:
        x.requires_grad_()
      out = ocnn.nn.octree_align(x, oa, ob, d, nempty)
      b, xyz = lb.nodes(nempty)
      idx = la.remap(la.find(b, xyz), nempty)
      want = torch.zeros(len(b), 2, dtype=x.dtype)
      hit = idx >= 0
      want[torch.tensor(hit)] = x.detach()[torch.tensor(idx[hit])]
      ctx.equal(out, want, lambda: 'alignment in layer %d, nempty=%s, %s' % (
          d, nempty, name), dtype=True)
      ctx.trans()
      if x.requires_grad and len(b) and len(x):
        g = values(len(b), 2, salt + 5, name)
        out.backward(g)
        w = torch.zeros_like(x)
        w[torch.tensor(idx[hit])] = g[torch.tensor(hit)]
        ctx.equal(x.grad, w, 'gradient of the alignment')
      ctx.outcome(int(hit.sum()), len(b), len(x))
    ctx.state(d, la.code, lb.code)


def _align(case, ctx):
  depth, full, first = case['depth'], case['full'], case['first']
  alpha = alphabet(depth)
  made = [(shapes.build_one(s, depth, full), ref.tree_from_leaves([s], depth, full))
          for s in alpha]
  for i in (first, first + 1):
    for j in range(24):
      align(ctx, *made[i], *made[j], i + j, DT)
  ctx.sample({'depth': depth, 'from': alpha[first][:3]})


def _align_all(case, ctx):
  alpha = alphabet(2)
  made = [(shapes.build_one(s, 2, 1), ref.tree_from_leaves([s], 2, 1)) for s in alpha]
  for m in range(case['first'] + 1, min(case['first'] + 9, 256)):
    s = shapes.subset([0, 1, 1], m)
    one = shapes.build_one(s, 2, 1), ref.tree_from_leaves([s], 2, 1)
    for j in range(24):
      align(ctx, *one, *made[j], m + j, DT)
      align(ctx, *made[j], *one, m + j, DT)


def _align_batch(case, ctx):
  depth, full = case['depth'], case['full']
  a = alphabet(depth)
  batches = [[a[0], a[1]], [a[1], a[0]], [a[8], a[5]], [a[5], a[8]], [a[10], a[9]],
             [a[8], a[8]], [a[0], a[1], a[5]], [a[11]], [a[23], a[14], a[8], a[13]]]
  made = [(shapes.build_batch(s, depth, full), ref.tree_from_leaves(s, depth, full))
          for s in batches]
  for i in range(len(made)):
    for j in range(len(made)):
      align(ctx, *made[i], *made[j], i + j, DT)
  # many samples, most of them without points
  e = [[]]
  batches = [[a[0]] + e * 19, e * 8 + [a[0]] + e * 11, e * 9 + [a[1], a[0]] + e * 9,
             e * 16 + [a[0], a[1], a[0], a[8]], (a[:5] + e * 5) * 2]
  made = [(shapes.build_batch(s, depth, full), ref.tree_from_leaves(s, depth, full))
          for s in batches]
  for i in range(len(made)):
    for j in range(len(made)):
      align(ctx, *made[i], *made[j], i + j, DT)


def _search(case, ctx):
  import torch
  from ocnn.nn import search_value
  keys = [0, 3, 8, 9, (1 << 48) | 2, (5 << 48) | 7]
  queries = [0, 1, 3, 4, 8, 10, 1 << 47, (1 << 48) | 2, (1 << 48) | 3, (5 << 48) | 7,
             (5 << 48) | 8, 1 << 62]
  for k in range(0, len(keys) + 1):
    for sub in itertools.combinations(keys, k):
      v = values(k, 2, k, 'float32')
      for qs in [queries, queries[::-1], queries[3:4] * 3, []]:
        want = [v[sub.index(q)].tolist() if q in sub else [0, 0] for q in qs]
        got = search_value(v, torch.tensor(sub, dtype=torch.long),
                           torch.tensor(qs, dtype=torch.long))
        ctx.equal(got, np.array(want).reshape(-1, 2), lambda: 'values of keys %s' % (sub,))
        ctx.trans(len(qs))
      for q in queries:
        got = search_value(v, torch.tensor(sub, dtype=torch.long), torch.tensor([q]))
        ctx.equal(got[0], v[sub.index(q)] if q in sub else [0, 0], 'value of one key')
        ctx.trans()
      ctx.state('search', sub)
