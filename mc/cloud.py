"""Point clouds with several points per leaf and exact expected leaf signals."""

import numpy as np
from mc import ref, shapes


class Cloud:
  """ Per sample lists of points; everything representable exactly. """

  def __init__(self, samples, depth, salt=0, normals=True, width=2, most=4):
    self.depth, self.size = depth, len(samples)
    self.xyz, self.nrm, self.fea, self.cell = [], [], [], []
    for b, leaves in enumerate(samples):
      leaf = np.asarray(leaves, dtype=np.int64).reshape(-1, 3)
      cnt = np.array([(1, 2, 4)[(i * 5 + salt + b) % (3 if most >= 4 else most)]
                      for i in range(len(leaf))], dtype=np.int64)
      cell = np.repeat(leaf, cnt, axis=0)
      n = len(cell)
      # not sorted: reverse every second sample, rotate the others
      order = np.arange(n)[::-1] if (b + salt) % 2 else np.roll(np.arange(n), n // 3)
      cell = cell[order]
      sub = ref.idata(n, 3, salt + 7 * b, 1, 7) / 8.0
      self.cell.append(cell)
      self.xyz.append((cell + sub) * 2.0 ** (1 - depth) - 1.0)
      v = ref.idata(n, 3, salt + 11 * b + 1, -3, 3).astype(float)
      # never cancelling: positive first component
      v[:, 0] = np.abs(v[:, 0]) + 1
      v /= np.linalg.norm(v, axis=1, keepdims=True)
      self.nrm.append(v if normals else None)
      self.fea.append(ref.idata(n, width, salt + 13 * b + 2, -16, 16) * 1.0
                      if width else None)

  def points(self, b=None, dtype=None):
    """ The library's cloud of one sample, or of the batch. """
    import torch
    from ocnn.octree import Points
    dtype = dtype or torch.float32

    how = self.depth + self.size

    def t(v):
      nonlocal how
      how += 1
      return None if v[0] is None else \
          shapes.layout(torch.tensor(np.concatenate(v), dtype=dtype), how)
    if b is not None:
      return Points(t([self.xyz[b]]), t([self.nrm[b]]), t([self.fea[b]]))
    bid = np.concatenate([np.full(len(x), i) for i, x in enumerate(self.xyz)])
    return Points(t(self.xyz), t(self.nrm), t(self.fea),
                  batch_id=torch.tensor(bid).view(-1, 1), batch_size=self.size)

  def octree(self, full, how='batch', neigh=False, dtype=None):
    from ocnn.octree import Octree, merge_octrees
    if how == 'batch':
      octree = Octree(self.depth, full, self.size)
      octree.build_octree(self.points(dtype=dtype))
    else:
      trees = []
      for b in range(self.size):
        o = Octree(self.depth, full)
        o.build_octree(self.points(b, dtype))
        trees.append(o)
      octree = merge_octrees(trees)
    if neigh:
      octree.construct_all_neigh()
    return octree

  def tree(self, full):
    return ref.tree_from_leaves([c.tolist() for c in self.cell], self.depth, full)

  def leaves(self):
    """ (batch, cell, mean position in cells, mean features, normals) per leaf. """
    cell = np.concatenate(self.cell)
    b = np.concatenate([np.full(len(x), i) for i, x in enumerate(self.xyz)])
    _, first, inv, cnt = np.unique(ref.code(b, cell), return_index=True,
                                   return_inverse=True, return_counts=True)

    def mean(v):
      if v[0] is None:
        return None
      v = np.concatenate(v)
      out = np.zeros((len(cnt), v.shape[1]))
      np.add.at(out, inv, v)
      return out / cnt[:, None]
    nrm = mean(self.nrm)
    if nrm is not None:
      nrm = nrm / np.maximum(np.linalg.norm(nrm, axis=1, keepdims=True), 1e-12)
    pos = mean([(x + 1) * 2.0 ** (self.depth - 1) for x in self.xyz])
    return b[first], cell[first], pos, mean(self.fea), nrm
