"""C13: max pooling takes the maximum of the children, unpooling returns it there."""

import itertools
import numpy as np
from mc import ref, shapes, dense

ID = 'C13'
TECHNIQUE = ('exhaustive exploration of child patterns x positions of the maximum on '
             'the real functions, against a direct maximum')
BOUNDS = ('all 255 child patterns at depth 1 and under every parent at depth 2 x all '
          '8 positions of the maximum, 28 pairs of equal maxima, all equal, negative '
          'and positive and huge values (one channel each); the shape '
          'families of C08 x every layer x 2 node modes; all 8 index values and their '
          'products over channels for unpooling; function and module interfaces'
          '; octrees with more than 65536 nodes; magnitudes 2^-40 to 2^30, memory layouts and 1 to 257 channels rotate'
          ' over the configurations')
ASSUMPTIONS = ['a parent without any non-empty child (possible above the full depth) '
               'has no maximum in non-empty mode and is not compared']


def cases(tier):
  out = []
  out.append({'kind': 'patterns', 'fam': 'subsets', 'parent': [0, 0, 0], 'depth': 1,
              'full': 1, 'build': 'batch'})
  for parent in shapes.OCT:
    for full in (1, 2):
      out.append({'kind': 'patterns', 'fam': 'subsets', 'parent': list(parent),
                  'depth': 2, 'full': full, 'build': 'batch'})
  for i, c in enumerate(shapes.op_cases(tier, builds=('batch', 'merge', 'grow')) +
                        shapes.deep_cases(tier)):
    out.append(dict(c, kind='shape', salt=i))
  for i, c in enumerate(shapes.wide_cases()):
    out.insert(0, dict(c, kind='shape', salt=i))
  for full in (1, 2):
    out.append({'kind': 'unpool', 'fam': 'leaves', 'build': 'batch', 'depth': 3,
                'full': full, 'leaves': [[[0, 0, 0], [7, 7, 7], [7, 7, 6], [2, 2, 5]],
                                         [], [[4, 3, 4]]]})
  return out


def variants():
  """ Per channel the eight child values. """
  out = []
  for p in range(8):
    neg = [-(k + 2.0) for k in range(8)]
    neg[p] = -0.5
    out.append(neg)
    pos = [(3 * k) % 8 * 1.0 - 2 for k in range(8)]
    pos[p] = 9.0
    out.append(pos)
  for p, q in itertools.combinations(range(8), 2):
    v = [-1.0 - k for k in range(8)]
    v[p] = v[q] = 0.25
    out.append(v)
  out.append([-3.0] * 8)
  out.append([0.0] * 8)
  out.append([-float(2 ** 100) * (k + 1) for k in range(8)])
  return np.array(out).T      # (8, channels)


def run(case, ctx):
  octree, tree = shapes.build(case)
  if case['kind'] == 'unpool':
    return unpool(ctx, octree, tree)
  import torch
  for d in range(1, tree.depth + 1):
    lay = tree.layer(d)
    for nempty in (False, True):
      if case['kind'] == 'patterns' and d == tree.depth:
        v = variants()
        k = ref.morton(lay.xyz) & 7
        data = v[k]
        if nempty:
          data = data[lay.nempty]
        one(ctx, octree, tree, d, nempty, data, torch.float32, d % 2 == 0)
        one(ctx, octree, tree, d, nempty, data[:, ::-1].copy(), torch.float64, True)
      else:
        n = lay.num(nempty)
        salt = case.get('salt', 0) + d
        for lo, hi, dt in ((-3, 3, torch.float32), (-9, -1, torch.float64)):
          one(ctx, octree, tree, d, nempty,
              ref.idata(n, shapes.channels(salt + nempty, n) + 2, salt, lo, hi) * (shapes.scales(salt + nempty)[0] * shapes.fine(dt)), dt,
              salt % 2 == 0)
  ctx.trace()
  ctx.sample({'depth': tree.depth, 'batch': tree.batch_size, 'kind': case['kind']})


def one(ctx, octree, tree, d, nempty, data, dt, module):
  """ data: features of the nodes (all or non-empty) of layer d. """
  import torch
  import ocnn
  lay, par = tree.layer(d), tree.layer(d - 1)
  c = data.shape[1]
  full = np.full((lay.nnum, c), -np.inf)
  if nempty:
    full[lay.nempty] = data
  else:
    full = data
  groups = full.reshape(-1, 8, c)
  best = groups.max(1)
  ok = np.isfinite(best).all(1)        # parents with a maximum
  how = d * 2 + nempty + len(data) + data.shape[1]
  x = shapes.layout(torch.tensor(data, dtype=dt), how).requires_grad_()
  if module:
    out, idx = ocnn.nn.OctreeMaxPool(nempty, return_indices=True)(x, octree, d)
    alone = ocnn.nn.OctreeMaxPool(nempty)(x, octree, d)
  else:
    out, idx = ocnn.nn.octree_max_pool(x, octree, d, nempty, True)
    alone = ocnn.nn.octree_max_pool(x, octree, d, nempty)
  what = 'layer %d, nempty=%s' % (d, nempty)
  ctx.equal(alone, out, 'pooling without indices, ' + what)
  rows = out.detach().numpy()
  if nempty:
    ctx.check(rows.shape == best.shape, 'shape of the pooled features, ' + what)
    ctx.equal(rows[ok], best[ok].astype(rows.dtype), 'maximum, ' + what)
  else:
    want = np.zeros((par.nnum, c))
    want[par.nempty] = best
    ctx.equal(rows, want.astype(rows.dtype), 'maximum, ' + what)
  ctx.check(out.dtype == dt, 'data type')
  # the indices name a child holding the maximum
  i = idx.numpy()
  ctx.check(i.shape == best.shape, 'shape of the indices, ' + what)
  ctx.check(((i >= 0) & (i < 8))[ok].all(), 'range of the indices, ' + what)
  i = np.where(ok[:, None], i, 0)
  r, k = np.meshgrid(np.arange(len(i)), np.arange(c), indexing='ij')
  ctx.equal(groups[r, i, k][ok], best[ok], 'child named by the index, ' + what)
  # unpooling
  if not ok.all():
    # give the undefined parents a neutral value
    keep = torch.tensor(ok).unsqueeze(1)
    idx = torch.where(keep, idx, torch.zeros_like(idx))
  v = ref.idata(par.nnum if not nempty else len(best), c, 17, 1, 9) * float(shapes.fine(dt))
  vt = shapes.layout(torch.tensor(v, dtype=dt), how + 1).requires_grad_()
  idx = shapes.layout(idx, how + 2)
  if module:
    up = ocnn.nn.OctreeMaxUnpool(nempty)(vt, idx, octree, d - 1)
  else:
    up = ocnn.nn.octree_max_unpool(vt, idx, octree, d - 1, nempty)
  vp = v if nempty else v[par.nempty]
  want = np.zeros((len(best), 8, c))
  want[r, i, k] = vp
  want = want.reshape(-1, c)
  if nempty:
    want = want[lay.nempty]
  ctx.equal(up, want, 'unpooled features, ' + what)
  ctx.check(up.dtype == dt, 'data type')
  # gradients
  g = ref.idata(len(rows), c, 23, 1, 5) * float(shapes.fine(dt))
  gp = g if nempty else g[par.nempty]
  want = np.zeros((len(best), 8, c))
  want[r, i, k] = gp
  want = want.reshape(-1, c)
  sel = np.repeat(ok, 8)
  if nempty:
    want, sel = want[lay.nempty], sel[lay.nempty]
  out.backward(shapes.layout(torch.tensor(g, dtype=dt), how + 3))
  ctx.equal(x.grad.numpy()[sel], want[sel], 'gradient of pooling, ' + what)
  g = ref.idata(len(up), c, 29, 1, 5).astype(float)
  up.backward(shapes.layout(torch.tensor(g, dtype=dt), how + 4))
  gf = np.zeros((lay.nnum, c))
  gf[lay.nempty if nempty else slice(None)] = g
  want = gf.reshape(-1, 8, c)[r, i, k]
  if not nempty:
    w = np.zeros((par.nnum, c))
    w[par.nempty] = want
    want = w
  ctx.equal(vt.grad, want, 'gradient of unpooling, ' + what)
  ctx.trans(6)
  ctx.state(d, nempty, lay.code, lay.nempty, data)
  ctx.outcome(np.bincount(i.reshape(-1), minlength=8))


def unpool(ctx, octree, tree):
  """ All index values, independently per channel. """
  import torch
  import ocnn
  for d in range(0, tree.depth):
    lay, par = tree.layer(d + 1), tree.layer(d)
    n = par.nnum_nempty
    for i0, i1 in itertools.product(range(8), repeat=2):
      i = np.stack([(np.arange(n) * 3 + i0) % 8, np.full(n, i1)], 1)
      for nempty in (False, True):
        v = ref.idata(par.num(nempty), 2, i0, 1, 9)
        up = ocnn.nn.octree_max_unpool(shapes.layout(torch.tensor(v).float(), i0),
                                       shapes.layout(torch.tensor(i), i1),
                                       octree, d, nempty)
        want = np.zeros((n, 8, 2))
        vp = v if nempty else v[par.nempty]
        want[np.arange(n)[:, None], i, [[0, 1]]] = vp
        want = want.reshape(-1, 2)
        ctx.equal(up, want[lay.nempty] if nempty else want,
                  'unpooling layer %d, nempty=%s' % (d, nempty))
        ctx.trans()
        ctx.state('unpool', d, nempty, i0, i1)
  ctx.trace()
