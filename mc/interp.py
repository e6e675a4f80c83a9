"""Reference interpolation: explicit nodes and weights per query point."""

import itertools
import numpy as np


def nearest(tree, d, nempty, xyz, b):
  """ Node index of the cell containing each point, -1 if there is none. """
  lay = tree.layer(d)
  return lay.remap(lay.find(b, np.floor(xyz).astype(np.int64)), nempty)


def linear(tree, d, nempty, xyz, b):
  """ (idx, weight) of the eight surrounding node centres, idx -1 if none. """
  lay = tree.layer(d)
  n = len(xyz)
  idx = np.zeros((n, 8), dtype=np.int64)
  w = np.ones((n, 8))
  low = np.floor(xyz - 0.5).astype(np.int64)
  for k, o in enumerate(itertools.product((0, 1), repeat=3)):
    cell = low + np.array(o)
    idx[:, k] = lay.remap(lay.find(b, cell), nempty)
    # product of the hat functions of the centre cell + 0.5
    w[:, k] = np.prod(1.0 - np.abs(xyz - (cell + 0.5)), axis=1)
  return idx, np.where(idx >= 0, w, 0.0)


def matrix(tree, d, method, nempty, xyz, b):
  """ Dense (points x nodes) weight matrix, rows sum to one or zero. """
  n = tree.layer(d).num(nempty)
  m = np.zeros((len(xyz), n + 1))
  r = np.arange(len(xyz))
  if method == 'nearest':
    m[r, nearest(tree, d, nempty, xyz, b)] = 1.0
  else:
    idx, w = linear(tree, d, nempty, xyz, b)
    for k in range(8):
      np.add.at(m, (r, idx[:, k]), w[:, k])
  m = m[:, :n]
  s = m.sum(1, keepdims=True)
  return m / np.where(s > 0, s, 1.0)


def apply(tree, d, method, nempty, xyz, b, data):
  """ (values, gradient function) without forming the matrix. """
  n = tree.layer(d).num(nempty)
  if method == 'nearest':
    idx = nearest(tree, d, nempty, xyz, b)[:, None]
    w = (idx >= 0).astype(float)
  else:
    idx, w = linear(tree, d, nempty, xyz, b)
  s = w.sum(1, keepdims=True)
  # points whose existing nodes have (almost) no weight have no defined value
  defined = ((s[:, 0] > 1e-6) | (s[:, 0] == 0))
  w = w / np.where(s > 0, s, 1.0)
  dz = np.concatenate([data, np.zeros((1, data.shape[1]))])
  out = np.einsum('nk,nkc->nc', w, dz[np.where(idx >= 0, idx, n)])

  def grad(g):
    gx = np.zeros((n + 1, data.shape[1]))
    for k in range(idx.shape[1]):
      np.add.at(gx, idx[:, k], g * w[:, k:k + 1])
    return gx[:n]
  return out, grad, defined
