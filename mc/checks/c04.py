"""C04: neighbour tables list exactly the adjacent nodes of the same sample."""

import numpy as np
from mc import ref, shapes
from mc.oct import check_neigh

ID = 'C04'
BOUNDS = ('all 255 octant subsets at depth 1 and under every parent at depth 2 and '
          'selected (thorough: all 64) parents at depth 3, all pairs (thorough: '
          'triples) of depth-2 leaves, border pairs at depths 3-4, named shapes and '
          'deep few-leaf shapes to depth 16, batches with empty samples; octrees '
          'built, merged and grown; neighbours constructed at once, layer by layer '
          'or while growing; every layer, 8 kernels, strides 1-2, both node modes'
          '; octrees with more than 65536 nodes')
ASSUMPTIONS = ['neighbours are defined for layers 1..depth and a full depth >= 1']


def cases(tier):
  out = []
  for i, c in enumerate(shapes.op_cases(tier, builds=('batch', 'merge', 'grow'))
                        + shapes.deep_cases(tier)):
    if c['fam'] == 'deep' and i % 3 == 0:
      c['build'] = 'grow'
    out.append(dict(c, how=('all', 'layers', 'twice')[i % 3]))
  for depth, full in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2)):
    out.append({'fam': 'leaves', 'leaves': [[]], 'depth': depth, 'full': full,
                'build': 'batch', 'how': 'all'})
    out.append({'fam': 'leaves', 'leaves': [[], [], []], 'depth': depth,
                'full': full, 'build': 'merge', 'how': 'all'})
  for size in (17, 300):
    e = shapes.lattice(shapes.edge_values(3))
    s = [[e[(i * 7) % len(e)], e[(i * 11 + 3) % len(e)]] if i % 5 else []
         for i in range(size)]
    for full in (1, 2):
      for how in ('batch', 'merge'):
        out.append({'fam': 'leaves', 'leaves': s, 'depth': 3, 'full': full,
                    'build': how, 'fast': False, 'how': 'all'})
  for c in shapes.wide_cases():
    out.insert(0, dict(c, how='all'))
  # every full depth of deeper shells
  for full in range(1, 6):
    out.append({'fam': 'named', 'names': ['shell', 'diag'], 'depth': 5,
                'full': full, 'build': 'batch', 'how': 'all'})
  return out


def construct(octree, how):
  if how == 'all':
    octree.construct_all_neigh()
  elif how == 'layers':
    for d in range(1, octree.depth + 1):
      octree.construct_neigh(d)
  else:
    octree.construct_all_neigh()
    octree.construct_all_neigh()


def run(case, ctx):
  octree, tree = shapes.build(case, neigh=False)
  if case['build'] != 'grow':
    construct(octree, case['how'])
  check_all(ctx, octree, tree)
  # asked in the opposite order, the answers stay the same
  for d in range(1, tree.depth + 1):
    for nempty in (True, False):
      check_neigh(ctx, octree, tree, d, '222', 2, nempty)
      check_neigh(ctx, octree, tree, d, '333', 1, nempty)


def check_all(ctx, octree, tree, layers=None):
  offs = {k: ref.offsets(k) for k in ref.KERNELS}
  row27 = {tuple(o): i for i, o in enumerate(offs['333'].tolist())}
  for d in layers or range(tree.depth, 0, -1):
    lay = tree.layer(d)
    for stride in (2, 1):
      for nempty in (False, True):
        want = tree.neigh(d, '333', stride, nempty)
        for k in ref.KERNELS:
          got = octree.get_neigh(d, k, stride, nempty)
          cols = [row27[tuple(o)] for o in offs[k].tolist()]
          ctx.equal(got, want[:, cols], lambda: 'neighbours of layer %d, kernel %s, '
                    'stride %d, nempty=%s' % (d, k, stride, nempty))
          ctx.trans(len(want))
      ctx.outcome(np.bincount((want >= 0).sum(1)))
    # the default arguments
    if stride == 1:
      ctx.equal(octree.get_neigh(d), tree.neigh(d), 'default neighbours')
    ctx.state(d, lay.code, lay.nempty)
  ctx.trace()
  ctx.sample({'depth': tree.depth, 'full': tree.full_depth, 'batch': tree.batch_size,
              'nodes': [l.nnum for l in tree.layers]})
