"""Dense-volume and gather/scatter oracles of the convolution family.

All of them work in float64 on the reference tree; with integer data and
weights the results are exact.
"""

import numpy as np
from mc import ref


def conv_layers(tree, kind, stride):
  """ Layers on which an operation is defined. """
  if stride == 1:
    return range(1, tree.depth + 1)
  return range(1, tree.depth + 1) if kind == 'conv' else range(0, tree.depth)


def dims(kernel):
  return [int(c) for c in kernel]


def _pad(kernel):
  # F.pad order: last dimension first
  front = [1 if c == '3' else 0 for c in kernel]
  back = [0 if c == '1' else 1 for c in kernel]
  out = []
  for f, b in list(zip(front, back))[::-1]:
    out += [f, b]
  return out


def conv_dense(tree, data, d, kernel, stride, nempty, w, groups=1):
  """ data: nodes of layer d; w: (K, in/groups, out) tensor; autograd works. """
  import torch
  import torch.nn.functional as F
  n = 1 << d
  vol = scatter(tree, data, d, nempty)
  a = dims(kernel)
  ww = w.permute(2, 1, 0).reshape(w.shape[2], w.shape[1], *a)
  out = F.conv3d(F.pad(vol, _pad(kernel)), ww, stride=stride, groups=groups)
  return gather(tree, out, d if stride == 1 else d - 1, nempty, stride)


def deconv_dense(tree, data, d, kernel, stride, nempty, w):
  """ w: (K, out, in). """
  import torch
  import torch.nn.functional as F
  do = d if stride == 1 else d + 1
  n = 1 << do
  if stride == 2 and not nempty:      # empty nodes do not contribute
    mask = torch.tensor(tree.layer(d).nempty)
    data = data * mask.unsqueeze(1).to(data.dtype)
  vol = scatter(tree, data, d, nempty)
  a = dims(kernel)
  ww = w.permute(2, 1, 0).reshape(w.shape[2], w.shape[1], *a)
  out = F.conv_transpose3d(vol, ww, stride=stride)
  front = [1 if c == '3' else 0 for c in kernel]
  idx = [slice(f, f + n) for f in front]
  out = out[:, :, idx[0], idx[1], idx[2]]
  pad = []
  for s in list(out.shape[2:])[::-1]:
    pad += [0, n - s]
  out = F.pad(out, pad)
  b, xyz = tree.layer(do).nodes(nempty)
  b, xyz = torch.tensor(b), torch.tensor(xyz)
  return out[b, :, xyz[:, 0], xyz[:, 1], xyz[:, 2]]


def scatter(tree, data, d, nempty):
  """ Node features to a (B, C, n, n, n) volume, differentiable. """
  import torch
  n = 1 << d
  b, xyz = tree.layer(d).nodes(nempty)
  b, xyz = torch.tensor(b), torch.tensor(xyz)
  vol = torch.zeros(tree.batch_size, n, n, n, data.shape[1], dtype=data.dtype)
  vol = vol.index_put((b, xyz[:, 0], xyz[:, 1], xyz[:, 2]), data)
  return vol.permute(0, 4, 1, 2, 3)


def gather(tree, vol, d, nempty, stride):
  """ Values at the nodes of layer d. With stride 2 and all nodes, empty
  parents get zero. """
  import torch
  lay = tree.layer(d)
  b, xyz = lay.nodes(nempty)
  bt, xt = torch.tensor(b), torch.tensor(xyz)
  out = vol[bt, :, xt[:, 0], xt[:, 1], xt[:, 2]]
  if stride == 2 and not nempty:
    out = out * torch.tensor(lay.nempty).unsqueeze(1).to(out.dtype)
  return out


# ------------------------------------------------------- gather/scatter form

def col(data, neigh):
  """ (rows, K, C) gathered features, zero where there is no neighbour. """
  import torch
  z = torch.cat([data, data.new_zeros(1, data.shape[1])])
  return z[torch.tensor(np.where(neigh < 0, len(data), neigh))]


def pad_parents(tree, out, d):
  """ Rows of the sibling groups of layer d+1 to all nodes of layer d. """
  import torch
  lay = tree.layer(d)
  full = out.new_zeros(lay.nnum, out.shape[1])
  return full.index_put((torch.tensor(np.nonzero(lay.nempty)[0]),), out)


def conv_sparse(tree, data, d, kernel, stride, nempty, w, groups=1, neigh=None):
  import torch
  if neigh is None:
    neigh = tree.neigh(d, kernel, stride, nempty)
  c = col(data, neigh)
  g = groups
  ci, co = w.shape[1], w.shape[2] // g
  outs = [torch.einsum('rki,kio->ro', c[:, :, j * ci:(j + 1) * ci],
                       w[:, :, j * co:(j + 1) * co]) for j in range(g)]
  out = torch.cat(outs, 1)
  if stride == 2 and not nempty:
    out = pad_parents(tree, out, d - 1)
  return out


def deconv_sparse(tree, data, d, kernel, stride, nempty, w):
  import torch
  dn = d if stride == 1 else d + 1
  neigh = tree.neigh(dn, kernel, stride, nempty)
  if stride == 2 and not nempty:
    data = data[torch.tensor(tree.layer(d).nempty)]
  c = torch.einsum('ri,koi->rko', data, w)      # (rows, K, out)
  rows, k = np.nonzero(neigh >= 0)
  out = data.new_zeros(tree.layer(dn).num(nempty), w.shape[1])
  return out.index_put((torch.tensor(neigh[rows, k]),),
                       c[torch.tensor(rows), torch.tensor(k)], accumulate=True)


def small(tree, d, limit=40000):
  return tree.batch_size * 8 ** d <= limit


def conv(tree, data, d, kernel, stride, nempty, w, groups=1):
  f = conv_dense if small(tree, d) else conv_sparse
  return f(tree, data, d, kernel, stride, nempty, w, groups)


def deconv(tree, data, d, kernel, stride, nempty, w):
  f = deconv_dense if small(tree, d + (stride == 2)) else deconv_sparse
  return f(tree, data, d, kernel, stride, nempty, w)


KSIZE = {'333': ([3], [3, 3], [3, 3, 3]), '222': ([2], [2, 2, 2]),
         '311': ([3, 1], [3, 1, 1]), '131': ([1, 3, 1],), '113': ([1, 1, 3],),
         '331': ([3, 3, 1],), '313': ([3, 1, 3],), '133': ([1, 3], [1, 3, 3])}


def tdata(n, c, salt=0, lo=-8, hi=8, dtype=None, grad=False):
  import torch
  t = torch.tensor(ref.idata(n, c, salt, lo, hi), dtype=dtype or torch.float64)
  return t.requires_grad_(grad)


def tweights(k, i, o, salt=0, dtype=None):
  import torch
  w = ref.idata(k, i * o, 100 + salt, -4, 4).reshape(k, i, o)
  return torch.tensor(w, dtype=dtype or torch.float64)
