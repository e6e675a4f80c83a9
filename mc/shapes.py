"""Bounded families of shapes and the ways to build an octree from them."""

import itertools
import numpy as np

OCT = list(itertools.product((0, 1), repeat=3))


def subset(parent, mask):
  """ The leaves below `parent` selected by an 8-bit mask. """
  p = [2 * v for v in parent]
  return [[p[0] + o[0], p[1] + o[1], p[2] + o[2]]
          for i, o in enumerate(OCT) if mask >> i & 1]


def octant_subsets(parent):
  return [subset(parent, m) for m in range(1, 256)]


def cells(depth):
  return [list(c) for c in itertools.product(range(1 << depth), repeat=3)]


def pairs(depth, alphabet=None):
  a = alphabet or cells(depth)
  return [[a[i], a[j]] for i in range(len(a)) for j in range(i + 1, len(a))]


def triples(depth, alphabet=None):
  a = alphabet or cells(depth)
  return [list(t) for t in itertools.combinations(a, 3)]


def lattice(values):
  return [list(c) for c in itertools.product(values, repeat=3)]


def edge_values(depth):
  """ First, last and middle cells: where carries and borders happen. """
  n = 1 << depth
  return sorted(set([0, n // 2 - 1, n // 2, n - 1]) - {-1})


def named(depth):
  """ Shapes with a name: full, boards, slabs, shells, lines. """
  n = 1 << depth
  c = cells(depth)
  out = {
      'full': c,
      'board': [p for p in c if sum(p) % 2 == 0],
      'slab': [p for p in c if p[2] in (0, n - 1)],
      'shell': [p for p in c if min(p) == 0 or max(p) == n - 1],
      'diag': [p for p in c if p[0] == p[1] == p[2]],
      'anti': [p for p in c if p[0] + p[1] == n - 1 and p[2] == p[0]],
      'wall': [p for p in c if p[0] in (n // 2 - 1, n // 2)],
      'corner': [p for p in c if max(p) < n // 2],
      'first': [[0, 0, 0]],
      'last': [[n - 1, n - 1, n - 1]],
      'most': [p for p in c if 8 * p[0] < 5 * n and sum(p) % 7],
  }
  return out


# --------------------------------------------------------------- families
# A family case is a dict; `samples(case)` lists the leaf sets of its batch.

def _f(**kw):
  return kw


def op_cases(tier, maxnodes=60000, builds=('batch', 'merge')):
  """ The shape space shared by the checks of per-node operations. """
  out = []
  deep = tier == 'thorough'
  # single-sample octrees
  for name in ('first', 'last', 'full', 'diag', 'board', 'anti'):
    for depth, full in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3)):
      out.append(_f(fam='named', names=[name], depth=depth, full=full))
  # batches with empty samples at every position, and uneven ones
  for names in (['full', None, 'first'], [None, 'diag', 'last'],
                ['shell', 'first', None], ['first', 'full'], ['last', 'last']):
    for depth, full in ((2, 1), (2, 2), (3, 1), (3, 2)):
      out.append(_f(fam='named', names=names, depth=depth, full=full))
  # all octant subsets in every parent position
  out.append(_f(fam='subsets', parent=[0, 0, 0], depth=1, full=1))
  for parent in OCT:
    for full in (1, 2):
      out.append(_f(fam='subsets', parent=list(parent), depth=2, full=full))
  pos = lattice((0, 1, 2, 3)) if deep else \
      [[0, 0, 0], [3, 3, 3], [1, 2, 3], [0, 3, 1], [2, 1, 0], [1, 1, 2]]
  for i, parent in enumerate(pos):
    out.append(_f(fam='subsets', parent=parent, depth=3, full=1 + i % 2))
  # all pairs of leaves
  for part in range(4):
    out.append(_f(fam='pairs', depth=2, full=1, part=[part, 4]))
  for part in range(2):
    out.append(_f(fam='pairs', depth=2, full=2, part=[part, 2]))
  # pairs at carries and borders
  for depth, full in ((3, 2), (4, 2), (4, 1)):
    for part in range(4 if depth == 3 else 8):
      if depth == 4 and not deep and part % 4:
        continue
      out.append(_f(fam='edgepairs', depth=depth, full=full,
                    part=[part, 4 if depth == 3 else 8]))
  for names in (['full', 'shell', 'wall', 'diag'], ['anti', 'slab', 'corner']):
    out.append(_f(fam='named', names=names, depth=4, full=2))
    out.append(_f(fam='named', names=names, depth=3, full=3))
  if deep:
    for part in range(64):
      out.append(_f(fam='triples', depth=2, full=1 + part % 2, part=[part, 64]))
    for names in (['full'], ['shell', 'board'], ['wall', 'anti', None]):
      for full in (1, 2, 3, 4):
        out.append(_f(fam='named', names=names, depth=4, full=full))
      out.append(_f(fam='named', names=names, depth=5, full=3))
  for i, c in enumerate(out):
    c['build'] = builds[i % len(builds)]
  return out


def deep_cases(tier):
  """ Deep octrees with few leaves at borders and carries. """
  out = []
  for depth in ((6, 8, 9, 11, 16) if tier == 'quick' else range(5, 17)):
    for full in (1, 2, 3):
      out.append(_f(fam='deep', depth=depth, full=full,
                    build=('batch', 'merge')[(depth + full) % 2]))
  return out


def wide_cases():
  """ More nodes than 16-bit indices can count, with and without the empty ones. """
  return [_f(fam='named', names=['most'], depth=6, full=2, build='batch', wide=True),
          _f(fam='named', names=['full'] * 80 + [None] + ['full'] * 60, depth=3, full=3,
             build='batch', wide=True)]


def skip(case, tree, d, kernel=None):
  """ Wide cases only explore the last layer with two kernels. """
  return bool(case.get('wide')) and (d < tree.depth or kernel not in
                                     (None, '333', '222'))


SCALES = ((1, 1, 1), (1, 1, 1), (2.0 ** 30, 2.0 ** -20, 2.0 ** -30),
          (2.0 ** -40, 2.0 ** 30, 1), (2.0 ** -30, 2.0 ** -20, 2.0 ** 10),
          (2.0 ** 20, 2.0 ** 24, 2.0 ** -40))


def scales(i):
  """ Powers of two for features, parameters and incoming gradients: all results
  stay exact. """
  return SCALES[i % len(SCALES)]


def fine(dt):
  """ A factor which float32 cannot represent, for values of wider types: integers
  of 8 bits times it, and their sums, are exact there and only there. """
  return {'torch.float64': 1 + 3 * 2.0 ** -26, 'torch.int64': 2 ** 40 + 1}.get(str(dt), 1)


PAIRS = ((64, 33), (17, 130), (1, 257), (128, 1), (96, 96), (8, 16), (5, 40))


def channels(i, n):
  """ 1 to 3 channels, many of them now and then. """
  if n <= 300 and i % 11 == 5:
    return (16, 33, 64, 130, 257, 8, 1024)[i // 11 % 7]
  return 1 + i % 3


def pair(i, tree, d, default):
  """ Numbers of input and output channels; many now and then on small layers. """
  if tree.batch_size * 8 ** d <= 2000 and i % 11 == 5:
    return PAIRS[i // 11 % 7]
  return default


def layout(x, i):
  """ The same values with another memory layout: transposed storage, columns of a
  wider array, every second row, an offset, rows far apart, or contiguous. """
  import torch
  i = i % 7
  if i in (0, 6) or x.dim() != 2:
    return x
  n, c = x.shape
  if i == 1:
    return x.t().contiguous().t()
  if i == 2:
    buf = torch.full((n, c + 3), 7, dtype=x.dtype)
    v = buf[:, 1:c + 1]
  elif i == 3:
    buf = torch.full((2 * n, c), 7, dtype=x.dtype)
    v = buf[1::2]
  elif i == 4:
    buf = torch.full((n + 5, c), 7, dtype=x.dtype)
    v = buf[3:n + 3]
  else:
    buf = torch.full((n, c, 2), 7, dtype=x.dtype)
    v = buf[..., 1]
  v.copy_(x)
  return v


def strided(x, i):
  """ A vector that is a column of a matrix, or every second entry. """
  import torch
  if i % 3 == 0:
    return x
  return torch.stack([x + 1, x, x * 0], 1)[:, 1] if i % 3 == 1 else \
      torch.stack([x, x + 1], 0)[0] if i % 2 else x.repeat_interleave(2)[1::2]


def samples(case):
  fam, depth = case['fam'], case['depth']
  if fam == 'named':
    table = named(depth)
    return [table[n] if n else [] for n in case['names']]
  if fam == 'subsets':
    return octant_subsets(case['parent'])
  if fam == 'deep':
    e = edge_values(depth)
    a = lattice([e[0], e[-1]]) + lattice([e[1], e[2]])
    return [[p] for p in a] + [[], a[:4], a, []] + [
        [a[i], a[-1 - i]] for i in range(len(a) // 2)]
  if fam == 'leaves':
    return case['leaves']
  all_ = {'pairs': lambda: pairs(depth),
          'triples': lambda: triples(depth),
          'edgepairs': lambda: pairs(depth, lattice(edge_values(depth))),
          }[fam]()
  i, n = case['part']
  return all_[len(all_) * i // n:len(all_) * (i + 1) // n]


# --------------------------------------------------- building with the library

def centers(leaves, depth):
  """ Exact cell centres in [-1, 1]. """
  c = np.asarray(leaves, dtype=np.float64).reshape(-1, 3)
  return (c + 0.5) * 2.0 ** (1 - depth) - 1.0


def points(leaves, depth, normals=False, features=0, batch_id=None,
           batch_size=1, dtype=None):
  import torch
  from ocnn.octree import Points
  dtype = dtype or torch.float32
  xyz = torch.tensor(centers(leaves, depth), dtype=dtype)
  nrm = fea = None
  n = len(xyz)
  if normals:
    from mc.ref import idata
    nrm = torch.tensor(idata(n, 3, 5, 1, 6), dtype=dtype)
  if features:
    from mc.ref import idata
    fea = torch.tensor(idata(n, features, 6), dtype=dtype)
  if batch_id is not None:
    batch_id = torch.tensor(np.asarray(batch_id), dtype=dtype).view(-1, 1)
  return Points(xyz, nrm, fea, batch_id=batch_id, batch_size=batch_size)


def build_one(leaves, depth, full, **kw):
  from ocnn.octree import Octree
  octree = Octree(depth, full)
  octree.build_octree(points(leaves, depth, **kw))
  return octree


def build_batch(samples_, depth, full, **kw):
  from ocnn.octree import Octree
  leaves = [l for s in samples_ for l in s]
  bid = [b for b, s in enumerate(samples_) for _ in s]
  octree = Octree(depth, full, batch_size=len(samples_))
  octree.build_octree(points(leaves, depth, batch_id=bid,
                             batch_size=len(samples_), **kw))
  return octree


def build_merge(samples_, depth, full, **kw):
  from ocnn.octree import merge_octrees
  return merge_octrees([build_one(s, depth, full, **kw) for s in samples_])


def build_grow(samples_, depth, full, **kw):
  """ The same tree grown layer by layer from split labels. """
  import torch
  from ocnn.octree import init_octree
  from mc.ref import tree_from_leaves
  tree = tree_from_leaves(samples_, depth, full)
  octree = init_octree(depth, full, len(samples_))
  for d in range(full, depth + 1):
    if d > full:
      octree.octree_grow(d)
    split = torch.tensor(tree.layer(d).nempty.astype(np.int32))
    octree.octree_split(split, d)
  return octree


def build(case, neigh=True, **kw):
  """ (octree, reference tree) of a family case. """
  from mc.ref import tree_from_leaves
  s = samples(case)
  how = case.get('build', 'batch')
  if how == 'merge' and len(s) > 64 and kw.get('fast', True):
    how = 'batch' if len(s) > 300 else 'merge'
  kw.pop('fast', None)
  func = {'batch': build_batch, 'merge': build_merge, 'grow': build_grow}[how]
  octree = func(s, case['depth'], case['full'], **kw)
  if neigh:
    octree.construct_all_neigh()
  return octree, tree_from_leaves(s, case['depth'], case['full'])
