"""The reference octree: plain numpy/python, written for obviousness.

A tree is a list of layers; a layer is the sorted list of its nodes
(batch, x, y, z) with a mask of the nodes that are split / contain a point.
Nothing here uses the library.
"""

import itertools
import numpy as np

KERNELS = ('333', '222', '311', '131', '113', '331', '313', '133')


def morton(xyz):
  """ z-order index, x most significant within each bit triple. """
  xyz = np.asarray(xyz, dtype=np.int64).reshape(-1, 3)
  out = np.zeros(len(xyz), dtype=np.int64)
  for bit in range(17):
    for axis in range(3):
      out |= ((xyz[:, axis] >> bit) & 1) << (3 * bit + 2 - axis)
  return out


def unmorton(key, depth=17):
  key = np.asarray(key, dtype=np.int64)
  out = np.zeros((len(key), 3), dtype=np.int64)
  for bit in range(depth):
    for axis in range(3):
      out[:, axis] |= ((key >> (3 * bit + 2 - axis)) & 1) << bit
  return out


def code(b, xyz):
  """ The documented key: batch index above bit 48, z-order below. """
  return (np.asarray(b, dtype=np.int64) << 48) | morton(xyz)


class Layer:

  def __init__(self, depth, b, xyz, batch_size):
    self.depth, self.b, self.xyz = depth, b, xyz
    self.batch_size = batch_size
    self.code = code(b, xyz)
    assert np.all(np.diff(self.code) > 0)
    self.nnum = len(b)
    self.set_nempty(np.ones(len(b), dtype=bool))

  def set_nempty(self, mask):
    self.nempty = np.asarray(mask, dtype=bool)
    self.nnum_nempty = int(self.nempty.sum())
    self.child = np.where(self.nempty, np.cumsum(self.nempty) - 1, -1)

  def find(self, b, xyz):
    """ Index of the node at each (b, xyz), -1 if there is none. """
    b = np.asarray(b, dtype=np.int64).reshape(-1)
    xyz = np.asarray(xyz, dtype=np.int64).reshape(-1, 3)
    n = 1 << self.depth
    inside = np.all((xyz >= 0) & (xyz < n), axis=1)
    inside &= (b >= 0) & (b < self.batch_size)
    c = code(np.where(inside, b, 0), np.where(inside[:, None], xyz, 0))
    if self.nnum == 0:
      return np.full(len(b), -1)
    pos = np.searchsorted(self.code, c)
    hit = inside & (pos < self.nnum)
    hit &= self.code[np.minimum(pos, self.nnum - 1)] == c
    return np.where(hit, pos, -1)

  def nodes(self, nempty):
    """ (b, xyz) of all or of the non-empty nodes. """
    if nempty:
      return self.b[self.nempty], self.xyz[self.nempty]
    return self.b, self.xyz

  def num(self, nempty):
    return self.nnum_nempty if nempty else self.nnum

  def remap(self, idx, nempty):
    """ Node indices to indices among non-empty nodes. """
    if not nempty or self.nnum == 0:
      return idx
    return np.where(idx >= 0, self.child[np.maximum(idx, 0)], -1)


def full_layer(depth, batch_size):
  n = 1 << depth
  xyz = np.array(list(itertools.product(range(n), repeat=3)), dtype=np.int64)
  xyz = xyz[np.argsort(morton(xyz))]
  b = np.repeat(np.arange(batch_size), len(xyz))
  return Layer(depth, b, np.tile(xyz, (batch_size, 1)), batch_size)


def child_layer(layer):
  """ The eight children of each non-empty node, in order. """
  octant = np.array(list(itertools.product((0, 1), repeat=3)), dtype=np.int64)
  b, xyz = layer.nodes(True)
  xyz = (xyz[:, None, :] * 2 + octant[None]).reshape(-1, 3)
  return Layer(layer.depth + 1, np.repeat(b, 8), xyz, layer.batch_size)


class Tree:

  def __init__(self, depth, full_depth, batch_size):
    self.depth, self.full_depth = depth, full_depth
    self.batch_size = batch_size
    self.layers = [full_layer(d, batch_size) for d in range(full_depth + 1)]

  def layer(self, d):
    return self.layers[d]

  def split(self, mask):
    """ Marks the split nodes of the last layer. """
    self.layers[-1].set_nempty(mask)

  def grow(self):
    self.layers.append(child_layer(self.layers[-1]))

  # -- neighbours
  def neigh(self, d, kernel='333', stride=1, nempty=False):
    layer = self.layers[d]
    offs = offsets(kernel)
    if stride == 1:
      b, xyz = layer.nodes(nempty)
    else:
      b, xyz = layer.b[::8], layer.xyz[::8]
    k = len(offs)
    q = (xyz[:, None, :] + offs[None]).reshape(-1, 3)
    idx = layer.find(np.repeat(b, k), q)
    return layer.remap(idx, nempty).reshape(len(b), k)

  # -- dense volumes
  def volume(self, data, d, nempty):
    """ (B, C, n, n, n) float64 volume of node features, zeros elsewhere. """
    n = 1 << d
    data = np.asarray(data, dtype=np.float64)
    b, xyz = self.layers[d].nodes(nempty)
    vol = np.zeros((self.batch_size, n, n, n, data.shape[1]))
    vol[b, xyz[:, 0], xyz[:, 1], xyz[:, 2]] = data
    return np.ascontiguousarray(np.moveaxis(vol, -1, 1))

  def at(self, vol, d, nempty):
    """ Values of a (B, C, n, n, n) volume at the nodes. """
    b, xyz = self.layers[d].nodes(nempty)
    return vol[b, :, xyz[:, 0], xyz[:, 1], xyz[:, 2]]


def offsets(kernel):
  rng = {'3': (-1, 0, 1), '2': (0, 1), '1': (0,)}
  return np.array(list(itertools.product(*[rng[c] for c in kernel])))


def tree_from_leaves(samples, depth, full_depth):
  """ samples: per sample a list of occupied finest cells. """
  tree = Tree(depth, full_depth, len(samples))
  cells = []
  for b, s in enumerate(samples):
    s = np.asarray(s, dtype=np.int64).reshape(-1, 3)
    cells.append(np.concatenate([np.full((len(s), 1), b), s], axis=1))
  cells = np.concatenate(cells) if cells else np.zeros((0, 4), np.int64)
  for d in range(full_depth, depth + 1):
    if d > full_depth:
      tree.grow()
    occupied = code(cells[:, 0], cells[:, 1:] >> (depth - d))
    tree.split(np.isin(tree.layers[d].code, occupied))
  return tree


def idata(n, c, salt=0, lo=-8, hi=8):
  """ Deterministic small integers that look unrelated. """
  i = np.arange(n, dtype=np.uint64)[:, None]
  j = np.arange(c, dtype=np.uint64)[None]
  x = i * np.uint64(0x9E3779B97F4A7C15) + j * np.uint64(0xBF58476D1CE4E5B9)
  x = x + np.uint64(salt + 1) * np.uint64(0x94D049BB133111EB)
  x ^= x >> np.uint64(31)
  x *= np.uint64(0xD6E8FEB86659FD93)
  x ^= x >> np.uint64(29)
  return (x % np.uint64(hi - lo + 1)).astype(np.int64) + lo
