"""C14: average and global pooling are exact means over their support."""

import numpy as np
from mc import ref, shapes, dense

ID = 'C14'
TECHNIQUE = ('bounded exhaustive exploration of the real functions over shapes x '
             'configurations, against means over the reference neighbours')
BOUNDS = ('the shape families of C08 and batches of up to 300 samples with and '
          'without points; every layer x 8 kernels x 2 strides x 2 node modes for '
          'average pooling, every layer x 2 modes for global pooling; 1-3 channels, '
          'float32/float64, function and module interfaces, values and gradients'
          '; octrees with more than 65536 nodes; magnitudes 2^-40 to 2^30, memory layouts and 1 to 257 channels rotate'
          ' over the configurations')
ASSUMPTIONS = ['means are compared with a tolerance of 3e-6 (float32) / 1e-7 '
               '(float64, the implementation adds 1e-8 to the count)']


def cases(tier):
  out = []
  for i, c in enumerate(shapes.op_cases(tier, builds=('batch', 'merge', 'grow')) +
                        shapes.deep_cases(tier)):
    out.append(dict(c, salt=i))
  for i, c in enumerate(shapes.wide_cases()):
    out.insert(0, dict(c, salt=i))
  for depth, full in ((1, 1), (2, 1), (3, 2)):
    out.append({'fam': 'leaves', 'leaves': [[], []], 'depth': depth, 'full': full,
                'build': 'batch', 'salt': 0})
  e = shapes.lattice(shapes.edge_values(3))
  for size in (33, 300):
    s = [[e[(i * 7) % len(e)], e[(i * 11 + 3) % len(e)]][:i % 3] for i in range(size)]
    out.append({'fam': 'leaves', 'leaves': s, 'depth': 3, 'full': 1, 'build': 'batch',
                'salt': size})
  return out


def run(case, ctx):
  import torch
  octree, tree = shapes.build(case)
  i = case['salt'] * 3
  for d in range(0, tree.depth + 1):
    for nempty in (False, True):
      i += 1
      global_pool(ctx, octree, tree, d, nempty, i)
  for stride in (1, 2):
    for d in range(1, tree.depth + 1):
      if d > tree.full_depth + 2 and d < tree.depth - 1 and ctx.tier == 'quick':
        continue
      for nempty in (False, True):
        neigh27 = tree.neigh(d, '333', stride, nempty)
        offs27 = [tuple(o) for o in ref.offsets('333').tolist()]
        for kernel in ref.KERNELS:
          i += 1
          if shapes.skip(case, tree, d, kernel):
            continue
          neigh = neigh27[:, [offs27.index(tuple(o))
                              for o in ref.offsets(kernel).tolist()]]
          avg_pool(ctx, octree, tree, d, kernel, stride, nempty, neigh, i)
  ctx.trace()


def avg_pool(ctx, octree, tree, d, kernel, stride, nempty, neigh, i):
  import torch
  import ocnn
  lay = tree.layer(d)
  n = lay.num(nempty)
  c = shapes.channels(i, n)
  dt = torch.float32 if i % 3 else torch.float64
  tol = 3e-6 if dt == torch.float32 else 2e-8
  x = ref.idata(n, c, i) * float(shapes.fine(dt))
  xz = np.concatenate([x, np.zeros((1, c))])
  valid = neigh >= 0
  cnt = np.maximum(valid.sum(1), 1)
  want = xz[np.where(valid, neigh, n)].sum(1) / cnt[:, None]
  s = shapes.scales(i)[0]
  rows = None
  if stride == 2 and not nempty:
    par = tree.layer(d - 1)
    rows = np.nonzero(par.nempty)[0]
    w = np.zeros((par.nnum, c))
    w[rows] = want
    want = w
  xt = shapes.layout(torch.tensor(x * s, dtype=dt), i // 2).requires_grad_()
  if i % 2:
    size = list(dense.KSIZE[kernel][i % len(dense.KSIZE[kernel])])
    out = ocnn.nn.OctreeAvgPool(size, stride, nempty)(xt, octree, d)
  elif i % 4 == 0 and stride == 2:
    out = ocnn.nn.octree_avg_pool(xt, octree, d, kernel, nempty=nempty)
  else:
    out = ocnn.nn.octree_avg_pool(xt, octree, d, kernel, stride, nempty)
  what = 'layer %d, kernel %s, stride %d, nempty=%s, %s' % (d, kernel, stride, nempty, dt)
  ctx.close(out / s, want, lambda: 'average pooling, %s, times %g' % (what, s), tol)
  ctx.check(out.dtype == dt, lambda: 'data type, ' + what)
  g = ref.idata(len(want), c, i + 1).astype(float)
  if n and len(want):
    out.backward(shapes.layout(torch.tensor(g, dtype=dt), i // 3))
    gr = g if rows is None else g[rows]
    gx = np.zeros((n, c))
    r, k = np.nonzero(valid)
    np.add.at(gx, neigh[r, k], gr[r] / cnt[r][:, None])
    ctx.close(xt.grad, gx, lambda: 'gradient of average pooling, ' + what,
              max(tol * 3, 3e-7))
  ctx.trans(2)
  ctx.state(d, kernel, stride, nempty, lay.code, lay.nempty)
  ctx.outcome(np.bincount(valid.sum(1)))
  ctx.sample({'pooling': what, 'rows': len(want)})


def global_pool(ctx, octree, tree, d, nempty, i):
  import torch
  import ocnn
  b, _ = tree.layer(d).nodes(nempty)
  c = shapes.channels(i, len(b))
  dt = torch.float32 if i % 3 else torch.float64
  x = ref.idata(len(b), c, i + 7) * float(shapes.fine(dt))
  cnt = np.maximum(np.bincount(b, minlength=tree.batch_size), 1)[:, None]
  want = np.zeros((tree.batch_size, c))
  np.add.at(want, b, x)
  want /= cnt
  s = shapes.scales(i)[0]
  xt = shapes.layout(torch.tensor(x * s, dtype=dt), i // 2).requires_grad_()
  if i % 2:
    out = ocnn.nn.OctreeGlobalPool(nempty)(xt, octree, d)
  else:
    out = ocnn.nn.octree_global_pool(xt, octree, d, nempty)
  what = 'layer %d, nempty=%s' % (d, nempty)
  tol = 3e-6 if dt == torch.float32 else 1e-12
  ctx.close(out / s, want, lambda: 'global pooling, %s, times %g' % (what, s), tol)
  ctx.check(out.dtype == dt, lambda: 'data type, ' + what)
  g = ref.idata(tree.batch_size, c, i + 2).astype(float)
  if len(b):
    out.backward(shapes.layout(torch.tensor(g, dtype=dt), i // 3))
    ctx.close(xt.grad, (g / cnt)[b], lambda: 'gradient of global pooling, ' + what, tol)
  ctx.trans(2)
  ctx.state('global', d, nempty, b)
