"""C02: a built octree contains exactly the cells its points occupy."""

import itertools
import numpy as np
from mc import ref, shapes
from mc.oct import check_structure

ID = 'C02'
BOUNDS = ('all 255 octant subsets at depth 1 and under 8/64 parents at depths 2-3, '
          'all pairs (thorough: triples) of depth-2 leaves, border pairs at depths '
          '3-4, named shapes, deep few-leaf shapes to depth 16, every full depth '
          '0..depth; the half-cell lattice of the closed cube (cell/cube '
          'boundaries) at depths 1-3 (5,10,16 on an edge alphabet); batches with '
          'empty samples, interleaved samples, 300 samples; float16 to float64, '
          'integer/float and 1-d/2-d batch indices, strided inputs')
ASSUMPTIONS = ['point coordinates are dyadic so cell membership is exact']


def cases(tier):
  out = []
  for c in shapes.op_cases(tier) + shapes.deep_cases(tier):
    c = dict(c, kind='shape')
    if c.get('build') == 'merge':
      c['build'] = 'batch'
    out.append(c)
  # every full depth for all-single-leaf and subset shapes
  for depth in (1, 2, 3):
    for full in range(0, depth + 1):
      out.append({'kind': 'singles', 'depth': depth, 'full': full})
  for depth in (1, 2):
    for full in range(0, depth + 1):
      for mask in range(1, 256, 1 if tier == 'thorough' else 3):
        out.append({'kind': 'alone', 'depth': depth, 'full': full, 'mask': mask})
  for depth in (1, 2, 3, 5, 10, 16):
    for full in (0, 1, 2):
      if full <= depth:
        for part in range(4):
          out.append({'kind': 'lattice', 'depth': depth, 'full': full,
                      'part': part})
  for depth, full in ((1, 1), (2, 1), (3, 2), (3, 0), (4, 4)):
    out.append({'kind': 'layout', 'depth': depth, 'full': full})
    for size in (2, 33, 300):
      out.append({'kind': 'large', 'depth': depth, 'full': full, 'size': size})
  out.append({'kind': 'many', 'depth': 5, 'full': 2})
  out.append({'kind': 'many', 'depth': 6, 'full': 3})
  return out


def run(case, ctx):
  kind, depth, full = case['kind'], case['depth'], case['full']
  if kind == 'shape':
    octree, tree = shapes.build(case, neigh=False)
    _done(ctx, octree, tree)
    # the same leaves under every other full depth
    for f in range(0, min(depth, 4) + 1):
      if f != full and sum(map(len, shapes.samples(case))) < 2000 and \
          len(shapes.samples(case)) * 8 ** f < 40000:
        o, t = shapes.build(dict(case, full=f), neigh=False)
        _done(ctx, o, t)
  elif kind == 'singles':
    for leaf in shapes.cells(depth):
      octree = shapes.build_one([leaf], depth, full)
      _done(ctx, octree, ref.tree_from_leaves([[leaf]], depth, full))
  elif kind == 'alone':
    parents = [[0, 0, 0]] if depth == 1 else [list(o) for o in shapes.OCT]
    for p in parents:
      s = shapes.subset(p, case['mask'])
      octree = shapes.build_one(s, depth, full)
      _done(ctx, octree, ref.tree_from_leaves([s], depth, full))
  elif kind == 'lattice':
    _lattice(ctx, depth, full, case['part'])
  elif kind == 'layout':
    _layout(ctx, depth, full)
  elif kind == 'large':
    size = case['size']
    e = shapes.lattice(shapes.edge_values(depth))
    s = [[e[(i * 7) % len(e)], e[(i * 11 + 3) % len(e)]] if i % 5 else []
         for i in range(size)]
    _done(ctx, shapes.build_batch(s, depth, full),
          ref.tree_from_leaves(s, depth, full))
  elif kind == 'many':
    # dense shells with all cells, in shuffled order
    c = [p for p in shapes.cells(depth) if (p[0] * p[1] + p[2]) % 3 == 0]
    _done(ctx, shapes.build_one(c[::-1], depth, full),
          ref.tree_from_leaves([c], depth, full))


def _done(ctx, octree, tree):
  check_structure(ctx, octree, tree)
  ctx.state(tree.depth, tree.full_depth, [l.nempty for l in tree.layers],
            tree.layers[-1].code)
  ctx.outcome([l.nnum_nempty for l in tree.layers])
  ctx.trace()
  ctx.sample({'depth': tree.depth, 'full_depth': tree.full_depth,
              'batch': tree.batch_size,
              'nodes': [l.nnum for l in tree.layers]})


def _cell(v, depth):
  """ The cell of a dyadic coordinate in [-1, 1], upper face closed. """
  n = 1 << depth
  return np.minimum(np.floor((np.asarray(v, np.float64) + 1) * n / 2), n - 1).astype(int)


def _build(xyz, depth, full, bid=None, size=1, dtype=None, bdtype=None, b1=False):
  import torch
  from ocnn.octree import Points, Octree
  pts = torch.tensor(np.asarray(xyz).reshape(-1, 3), dtype=dtype or torch.float32)
  b = None
  if bid is not None:
    b = torch.tensor(np.asarray(bid), dtype=bdtype or torch.float32)
    b = b if b1 else b.view(-1, 1)
  pts = shapes.layout(pts, len(pts))
  octree = Octree(depth, full, batch_size=size)
  octree.build_octree(Points(pts, batch_id=b, batch_size=size))
  return octree


def _lattice(ctx, depth, full, part):
  """ Points on cell faces, edges, corners and on the cube surface. """
  n = 1 << depth
  if depth <= 2:
    vals = np.arange(0, 2 * n + 1) / n - 1.0         # half-cell lattice
  elif depth == 3:
    vals = np.array([-1, -0.875, -0.5, -0.125, 0, 0.25, 0.9375, 1])
  else:
    h = 1.0 / n
    vals = np.array([-1, -1 + h, -2 * h, -h, 0, h, 2 * h, 1 - 2 * h, 1 - h, 1])
    if depth > 5 or ctx.tier == 'quick':
      vals = np.array([-1, -h, 0, 1 - h, 1])
  pts = np.array(list(itertools.product(vals, repeat=3)))
  cell = np.stack([_cell(pts[:, i], depth) for i in range(3)], 1)
  # each point alone
  for p, c in zip(pts[part::4], cell[part::4]):
    tree = ref.tree_from_leaves([[c]], depth, full)
    check_structure(ctx, _build([p], depth, full), tree,
                    what='point %s: ' % p.tolist())
    ctx.state(depth, full, p)
  ctx.trace(len(pts))
  # all points as the samples of one batch, and as one cloud
  import torch
  if part:
    return
  for dt in (torch.float32, torch.float64):
    o = _build(pts, depth, full, np.arange(len(pts)), len(pts), dt)
    _done(ctx, o, ref.tree_from_leaves([[c] for c in cell], depth, full))
    o = _build(pts, depth, full, dtype=dt)
    _done(ctx, o, ref.tree_from_leaves([cell], depth, full))
  # half precision: the boundary and some inner planes, all exact
  pts = np.array(list(itertools.product([-1, -0.5, 0, 0.25, 1], repeat=3)))
  cell = np.stack([_cell(pts[:, i], depth) for i in range(3)], 1)
  for dt in (torch.float16, torch.bfloat16):
    if dt == torch.float16 and depth > 15:
      continue                     # 2 ** 16 is beyond the range of the type
    o = _build(pts, depth, full, dtype=dt)
    _done(ctx, o, ref.tree_from_leaves([cell], depth, full))
    ctx.state('half', depth, full, str(dt))


def _layout(ctx, depth, full):
  """ Orders, batch index formats, strided tensors, attribute mixes. """
  import torch
  from ocnn.octree import Points, Octree
  e = shapes.lattice(shapes.edge_values(depth))[:8]
  lists = list(itertools.product([[], e[:1], e[-1:], [e[0], e[-1]], e[2:6]], repeat=3))
  for s in lists:
    tree = ref.tree_from_leaves(s, depth, full)
    pts = shapes.centers([l for x in s for l in x], depth)
    bid = np.array([b for b, x in enumerate(s) for _ in x])
    n = len(pts)
    orders = [np.arange(n), np.arange(n)[::-1], np.argsort(np.arange(n) % 3, kind='stable')]
    for i, o in enumerate(orders):
      fmt = [(torch.float32, False), (torch.int64, True), (torch.int32, False)][i]
      octree = _build(pts[o], depth, full, bid[o], 3, None, fmt[0], fmt[1])
      check_structure(ctx, octree, tree)
    ctx.state(depth, full, s)
    ctx.trace(3)
  # strided coordinates
  big = torch.zeros(len(e), 6)
  big[:, ::2] = torch.tensor(shapes.centers(e, depth), dtype=torch.float32)
  octree = Octree(depth, full)
  octree.build_octree(Points(big[:, ::2]))
  _done(ctx, octree, ref.tree_from_leaves([e], depth, full))
  # keyword construction, default full depth 2
  if depth >= 2:
    octree = Octree(depth)
    octree.build_octree(Points(torch.tensor(shapes.centers(e, depth)).float()))
    _done(ctx, octree, ref.tree_from_leaves([e], depth, 2))
  # no point at all
  octree = _build(np.zeros((0, 3)), depth, full)
  _done(ctx, octree, ref.tree_from_leaves([[]], depth, full))
  octree = _build(np.zeros((0, 3)), depth, full, np.zeros(0), 2)
  _done(ctx, octree, ref.tree_from_leaves([[], []], depth, full))
