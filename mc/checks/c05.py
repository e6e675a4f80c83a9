"""C05: looking up a cell finds exactly the node that exists there."""

import itertools
import numpy as np
from mc import ref, shapes

ID = 'C05'
BOUNDS = ('bounded shapes as in C04; queries: every cell of the grid of every layer '
          'up to depth 3 in every sample and in batch slots beyond the batch, at '
          'greater depths all cells of the nodes, their face/edge/corner neighbours '
          'inside the cube and a border lattice; fractional offsets 0, .25, .5, .984; '
          'all orders of 4 queries, repeated, reversed, single and no queries; '
          'int64/int32/float32/float64 queries; both node modes'
          '; octrees with more than 65536 nodes')
ASSUMPTIONS = ['query cells lie in the cube of the layer']


def cases(tier):
  out = [dict(c, kind='shape') for c in
         shapes.op_cases(tier, builds=('batch', 'merge', 'grow')) +
         shapes.deep_cases(tier)]
  for c in shapes.wide_cases():
    out.insert(0, dict(c, kind='shape'))
  for depth, full in ((1, 1), (2, 1), (3, 0), (3, 2), (4, 4)):
    out.append({'kind': 'shape', 'fam': 'leaves', 'leaves': [[]], 'depth': depth,
                'full': full, 'build': 'batch'})
    out.append({'kind': 'orders', 'fam': 'leaves', 'depth': depth, 'full': full,
                'leaves': [[[0, 0, 0]], [], [[1, 1, 1], [0, 1, 0]]],
                'build': 'batch'})
  return out


def queries(tree, d):
  n = 1 << d
  nb = tree.batch_size
  lay = tree.layer(d)
  if n ** 3 * (nb + 2) <= 4096:
    xyz = np.array(list(itertools.product(range(n), repeat=3)))
    b = np.repeat(np.arange(nb + 2), len(xyz))
    return np.tile(xyz, (nb + 2, 1)), b
  step = max(1, lay.nnum // (2600 if lay.nnum > 50000 else 400))
  base = lay.xyz[::step]
  bb = lay.b[::step]
  q = (base[:, None] + ref.offsets('333')[None]).reshape(-1, 3)
  b = np.repeat(bb, 27)
  e = np.array(shapes.lattice(shapes.edge_values(d)))
  slots = np.array(sorted({0, 1, nb - 1, nb, nb + 1, 32767}))
  q = np.concatenate([q, np.tile(e, (len(slots), 1))])
  b = np.concatenate([b, np.repeat(slots, len(e))])
  ok = np.all((q >= 0) & (q < n), axis=1)
  return q[ok], b[ok]


def run(case, ctx):
  import torch
  octree, tree = shapes.build(case, neigh=False)
  if case['kind'] == 'orders':
    return orders(ctx, octree, tree)
  for d in range(tree.depth + 1):
    lay = tree.layer(d)
    q, b = queries(tree, d)
    found = lay.find(b, q)
    for nempty in (False, True):
      want = lay.remap(found, nempty)
      for i, (dt, off) in enumerate(((torch.int64, 0), (torch.float32, 0.25),
                                     (torch.float64, 0.984375), (torch.int32, 0),
                                     (torch.float32, 0.5))):
        if i >= 3 and case['fam'] not in ('named', 'deep'):
          continue
        if dt == torch.float32 and d > 14:
          dt = torch.float64
        pts = torch.cat([torch.tensor(q, dtype=dt) + off,
                         torch.tensor(b, dtype=dt).view(-1, 1)], dim=1).to(dt)
        got = octree.search_xyzb(pts, d, nempty)
        ctx.equal(got, want, lambda: 'search_xyzb in layer %d, nempty=%s, %s + %s' % (
            d, nempty, dt, off))
      key = torch.tensor(ref.code(b, q))
      ctx.equal(octree.search_key(key, d, nempty), want,
                lambda: 'search_key in layer %d, nempty=%s' % (d, nempty))
      ctx.equal(octree.search_key(key.flip(0), d, nempty), want[::-1],
                lambda: 'search_key in layer %d in reversed order' % d)
      # keys of the nodes find the nodes in order
      ctx.equal(octree.search_key(octree.key(d, nempty), d, nempty),
                np.arange(lay.num(nempty)), 'own keys')
      ctx.trans(len(q) * 5)
      ctx.outcome(int((want >= 0).sum()), len(want))
    ctx.state(d, lay.code, lay.nempty)
  ctx.trace()
  ctx.sample({'depth': tree.depth, 'full': tree.full_depth,
              'queries in the last layer': len(q)})


def orders(ctx, octree, tree):
  """ Orders, repetition, none. """
  import torch
  for d in range(tree.depth + 1):
    n = 1 << d
    lay = tree.layer(d)
    pool = [(0, 0, 0, 0), (n - 1, n - 1, n - 1, 0), (n - 1, 0, 0, 1),
            (min(1, n - 1),) * 3 + (2,), (0, n - 1, 0, 2), (0, 0, 0, 3),
            (n - 1, n - 1, n - 1, 40)]
    for nempty in (False, True):
      for k in range(0, 5):
        for t in itertools.product(pool, repeat=k) if k < 4 else \
                itertools.permutations(pool, 4):
          q = np.array(t, dtype=np.int64).reshape(-1, 4)
          want = lay.remap(lay.find(q[:, 3], q[:, :3]), nempty)
          keep = torch.tensor(q)
          got = octree.search_xyzb(keep, d, nempty)
          ctx.equal(got, want, lambda: 'queries %s in layer %d, nempty=%s' % (
              t, d, nempty))
          key = torch.tensor(ref.code(q[:, 3], q[:, :3]))
          ctx.equal(octree.search_key(key, d, nempty), want, 'keys')
          ctx.trans(2)
          ctx.state(d, nempty, q)
    # queries from non-contiguous storage
    q = np.array(pool)
    t = torch.tensor(q.T.copy()).t()
    ctx.equal(octree.search_xyzb(t, d, False), lay.find(q[:, 3], q[:, :3]), 'strided')
  ctx.trace()
