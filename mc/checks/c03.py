"""C03: leaf signals average exactly the points of the leaf."""

import itertools
import numpy as np
from mc import ref, shapes

ID = 'C03'
BOUNDS = ('all assignments of up to 5 (6 thorough) points to 4 leaves at depths '
          '1-3, 7, 12 and 16; all orders of 5 points; whole clouds repeated 2-3 times; '
          'batches of 3 samples with every assignment of 5 points to samples; all '
          'attribute subsets, feature widths 1-4, float32/float64; leaves with up '
          'to 257 points; normals and their sums of lengths 2^-30 to 2^30; points on cell and cube boundaries')
ASSUMPTIONS = ['mean values are compared with a relative tolerance of 4 ulp-scale '
               '(2e-6 in float32, 1e-12 in float64)']

DEPTHS = (1, 2, 3, 7, 12, 16)


def leaves_of(depth):
  n = 1 << depth
  if depth == 1:
    return [[0, 0, 0], [0, 0, 1], [1, 0, 0], [1, 1, 1]]
  return [[0, 0, 0], [0, 1, 1], [n // 2, n // 2 - 1, 1], [n - 1, n - 1, n - 1]]


def cases(tier):
  out = []
  kmax = 6 if tier == 'thorough' else 5
  for depth in DEPTHS:
    for k in range(1, kmax + 1):
      parts = max(1, 4 ** k // 128)
      for part in range(parts):
        out.append({'kind': 'dist', 'depth': depth, 'k': k, 'part': [part, parts],
                    'full': 1 if depth < 3 else 1 + (k + part) % 3})
    for part in range(4):
      out.append({'kind': 'perm', 'depth': depth, 'part': part,
                  'full': min(2, depth)})
    out.append({'kind': 'dup', 'depth': depth, 'full': min(2, depth)})
    for part in range(6):
      out.append({'kind': 'batch', 'depth': depth, 'full': 1, 'part': [part, 6]})
    out.append({'kind': 'attrs', 'depth': depth, 'full': 1})
    out.append({'kind': 'crowd', 'depth': depth, 'full': 1})
    out.append({'kind': 'faces', 'depth': depth, 'full': 1})
  return out


SUB = np.array(list(itertools.product((0, 1, 2, 3), repeat=3)))


def coords(leaf, depth, salt, dtype):
  """ Dyadic positions inside the cells, half-open, lower faces included. """
  leaf = np.asarray(leaf, dtype=np.float64).reshape(-1, 3)
  s = SUB[(np.arange(len(leaf)) * 23 + salt * 7) % len(SUB)] / 4.0
  if depth > 14:
    s = np.round(s) * 0.5          # representable next to -1/1 in float32
  return (leaf + s) * 2.0 ** (1 - depth) - 1.0


def attributes(n, salt, which, dtype, width):
  import torch
  nrm = fea = None
  if 'n' in which:
    v = ref.idata(n, 3, salt, -3, 3).astype(np.float64)
    v[np.abs(v).sum(1) == 0] = [0, 0, 1]
    v /= np.linalg.norm(v, axis=1, keepdims=True)
    nrm = torch.tensor(v, dtype=dtype)
  if 'f' in which:
    fea = torch.tensor(ref.idata(n, width, salt + 1), dtype=dtype)
  return nrm, fea


def build(pts, nrm, fea, depth, full, bid=None, size=1, labels=None):
  import torch
  from ocnn.octree import Points, Octree
  b = None if bid is None else torch.tensor(np.asarray(bid)).view(-1, 1)
  octree = Octree(depth, full, batch_size=size)
  a = [None if v is None else shapes.layout(v, len(pts) + j)
       for j, v in enumerate((pts, nrm, fea))]
  idx = octree.build_octree(Points(*a, labels, b, size))
  return octree, idx


def check(ctx, octree, idx, pts, nrm, fea, leaf, depth, bid=None):
  """ leaf: the cell of each point. """
  import torch
  tol = 2e-6 if pts.dtype == torch.float32 else 1e-12
  n = len(leaf)
  b = np.zeros(n, dtype=np.int64) if bid is None else np.asarray(bid)
  c = ref.code(b, leaf)
  order, inv, cnt = np.unique(c, return_inverse=True, return_counts=True)
  ctx.equal(idx, inv, 'leaf of each point')
  ctx.equal(octree.key(depth, True), order, 'keys of the leaves')

  def mean(x):
    out = np.zeros((len(order), x.shape[1]))
    np.add.at(out, inv, x.numpy().astype(np.float64))
    return out / cnt[:, None]
  want = mean((pts.double() + 1.0) * 2.0 ** (depth - 1))
  if depth > 10 and pts.dtype == torch.float32:
    tol = 1e-5
  ctx.close(octree.points[depth], want, 'mean position of the leaves', tol)
  if nrm is None:
    ctx.check(octree.normals[depth] is None, 'normals of a cloud without normals')
  else:
    s = mean(nrm) * cnt[:, None]
    ln = np.linalg.norm(s, axis=1, keepdims=True)
    # directions of (nearly) cancelling sums are not defined
    ok = ln[:, 0] > 1e-3
    ctx.close(octree.normals[depth][torch.tensor(ok)], (s / np.maximum(ln, 1e-12))[ok],
              'normalised sum of the normals', tol * 20)
  if fea is None:
    ctx.check(octree.features[depth] is None, 'features of a cloud without features')
  else:
    ctx.close(octree.features[depth], mean(fea), 'mean features', tol)
  for name in ('points', 'normals', 'features'):
    v = getattr(octree, name)
    ctx.check(all(v[d] is None for d in range(depth)),
              name + ' stored in a layer that has no signal')
    if v[depth] is not None:
      ctx.check(v[depth].dtype == pts.dtype, name + ': data type of the leaf signal')
  ctx.trans(n)
  ctx.trace()
  ctx.state(depth, b, leaf, pts, nrm is None, fea is None)
  ctx.outcome(cnt)
  ctx.sample({'depth': depth, 'points': n, 'per leaf': cnt.tolist()})


def run(case, ctx):
  import torch
  kind, depth, full = case['kind'], case['depth'], case['full']
  cells = np.array(leaves_of(depth))
  dts = (torch.float32, torch.float64)
  if kind == 'dist':
    k = case['k']
    i, n = case['part']
    every = list(itertools.product(range(4), repeat=k))
    for s, a in enumerate(every[len(every) * i // n:len(every) * (i + 1) // n]):
      dt = dts[s % 5 == 4]
      leaf = cells[list(a)]
      pts = torch.tensor(coords(leaf, depth, s, dt), dtype=dt)
      nrm, fea = attributes(k, s, ('nf', 'f', 'n', '')[s % 7 % 4], dt, 1 + s % 3)
      octree, idx = build(pts, nrm, fea, depth, full)
      check(ctx, octree, idx, pts, nrm, fea, leaf, depth)
  elif kind == 'perm':
    for s, a in enumerate(((0, 0, 0, 0, 1), (0, 0, 1, 1, 2), (3, 0, 3, 1, 3))):
      leaf = cells[list(a)]
      pts = torch.tensor(coords(leaf, depth, s, None), dtype=dts[s % 2])
      nrm, fea = attributes(5, s, 'nf', dts[s % 2], 2)
      base = None
      perms = list(itertools.permutations(range(5)))
      for j, p in enumerate([perms[0]] + perms[case['part']::4]):
        p = list(p)
        octree, idx = build(pts[p], nrm[p], fea[p], depth, full)
        check(ctx, octree, idx, pts[p], nrm[p], fea[p], leaf[p], depth)
        now = (octree.points[depth], octree.normals[depth], octree.features[depth])
        if base is None:
          base = now
        for x, y in zip(now, base):
          ctx.close(x, y, 'leaf signals depend on the order of the points', 1e-5)
  elif kind == 'dup':
    for s, a in enumerate(((0,), (0, 1), (3, 3, 2), (0, 1, 2, 3), (1, 1, 1, 2, 0))):
      leaf = cells[list(a)]
      pts = torch.tensor(coords(leaf, depth, s, None), dtype=dts[s % 2])
      nrm, fea = attributes(len(a), s, 'nf', dts[s % 2], 3)
      one, _ = build(pts, nrm, fea, depth, full)
      for r in (2, 3, 17):
        args = (pts.repeat(r, 1), nrm.repeat(r, 1), fea.repeat(r, 1))
        octree, idx = build(*args, depth, full)
        check(ctx, octree, idx, *args, np.tile(leaf, (r, 1)), depth)
        for name in ('points', 'normals', 'features'):
          ctx.close(getattr(octree, name)[depth], getattr(one, name)[depth],
                    'repeating the cloud changes the ' + name, 1e-5)
  elif kind == 'batch':
    i, n = case['part']
    every = list(itertools.product(range(3), repeat=5))
    for s, bid in enumerate(every[len(every) * i // n:len(every) * (i + 1) // n]):
      leaf = cells[[(s + j * j) % 4 for j in range(5)]]
      dt = dts[s % 2]
      pts = torch.tensor(coords(leaf, depth, s, dt), dtype=dt)
      nrm, fea = attributes(5, s, ('nf', 'f', 'n', '')[s % 4], dt, 1 + s % 2)
      octree, idx = build(pts, nrm, fea, depth, full, bid, 3)
      check(ctx, octree, idx, pts, nrm, fea, leaf, depth, bid)
  elif kind == 'attrs':
    leaf = cells[[0, 1, 1, 3]]
    for which in ('', 'n', 'f', 'nf'):
      for width in (1, 2, 4):
        for lab in (None, 1, 2):
          for dt in dts:
            pts = torch.tensor(coords(leaf, depth, 1, dt), dtype=dt)
            nrm, fea = attributes(4, 3, which, dt, width)
            labels = None if lab is None else torch.arange(4.).view(-1, 1).repeat(1, lab)
            octree, idx = build(pts, nrm, fea, depth, full, labels=labels)
            check(ctx, octree, idx, pts, nrm, fea, leaf, depth)
            bid = [1, 0, 1, 3]
            octree, idx = build(pts, nrm, fea, depth, full, bid, 4, labels)
            check(ctx, octree, idx, pts, nrm, fea, leaf, depth, bid)
  elif kind == 'crowd':
    for m in (2, 3, 7, 8, 64, 255, 257) + ((70000,) if depth == 3 else ()):
      leaf = cells[[0] * m + [2] + [1] * (m // 2)]
      for dt in dts:
        pts = torch.tensor(coords(leaf, depth, m, dt), dtype=dt)
        nrm, fea = attributes(len(leaf), m, 'nf', dt, 2)
        octree, idx = build(pts, nrm, fea, depth, full)
        check(ctx, octree, idx, pts, nrm, fea, leaf, depth)
    # opposite normals cancel to a finite vector
    pts = torch.tensor(coords(cells[[0, 0, 1]], depth, 0, None), dtype=torch.float32)
    nrm = torch.tensor([[1., 0, 0], [-1., 0, 0], [0, 0, -1.]])
    octree, idx = build(pts, nrm, None, depth, full)
    ctx.equal(octree.normals[depth], [[0, 0, 0], [0, 0, -1.]], 'cancelling normals')
    # normals that are not unit length count with their length
    nrm = torch.tensor([[3., 0, 0], [0, 4., 0], [0, 0, -7.]])
    octree, idx = build(pts, nrm, None, depth, full)
    ctx.close(octree.normals[depth], [[.6, .8, 0], [0, 0, -1.]], 'weighted normals', 1e-6)
    # sums of any length, exact in float32
    for e in range(-30, 31, 2):
      s = 2.0 ** e
      for dt in dts:
        for nrm in ([[3 * s, 0, 0], [0, 4 * s, 0], [0, 0, -7 * s]],
                    [[1., 0, 0], [-1. + 3 * s, 4 * s, 0], [0, 0, -s]],
                    [[.6, s, -.8], [-.6, -s - 3 * s, .8 + 4 * s], [0, 0, -s]]):
          nrm = torch.tensor(nrm, dtype=dt)
          octree, idx = build(pts.to(dt), nrm, None, depth, full)
          v = nrm[:2].double().sum(0)
          if (nrm[0] + nrm[1]).double().sub(v).abs().sum() > 1e-3 * v.norm() or \
              v.norm() < 1e-9:
            continue
          ctx.close(octree.normals[depth], [(v / v.norm()).tolist(), [0, 0, -1.]],
                    lambda: 'normalised sum of %s' % (nrm.tolist(),), 2e-3)
          ctx.trans()
    ctx.trans(2)
  elif kind == 'faces':
    n = 1 << depth
    vals = np.array([-1., 0., 1.])
    grid = np.array(list(itertools.product(vals, repeat=3)))
    cell = np.minimum(((grid + 1) * n / 2).astype(int), n - 1)
    for k in (1, 2):
      for a in itertools.combinations_with_replacement(range(len(grid)), k):
        a = list(a)
        pts = torch.tensor(grid[a], dtype=dts[sum(a) % 2])
        nrm, fea = attributes(k, sum(a), 'nf', pts.dtype, 1)
        octree, idx = build(pts, nrm, fea, depth, full)
        check(ctx, octree, idx, pts, nrm, fea, cell[a], depth)
