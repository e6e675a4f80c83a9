"""Comparing a library octree with the reference tree."""

import numpy as np


def check_structure(ctx, octree, tree, layers=None, what='', attrs=False):
  """ All observable node tables of the given layers. """
  ctx.check(octree.depth == tree.depth and
            octree.full_depth == tree.full_depth and
            octree.batch_size == tree.batch_size, what + 'octree parameters')
  for d in (range(len(tree.layers)) if layers is None else layers):
    lay = tree.layer(d)
    w = '%slayer %d: ' % (what, d)
    ctx.check(int(octree.nnum[d]) == lay.nnum,
              lambda: w + '%d nodes, expected %d' % (int(octree.nnum[d]), lay.nnum))
    ctx.check(int(octree.nnum_nempty[d]) == lay.nnum_nempty,
              lambda: w + '%d non-empty nodes, expected %d' % (
                  int(octree.nnum_nempty[d]), lay.nnum_nempty))
    ctx.equal(octree.children[d], lay.child, w + 'numbering of non-empty nodes')
    ctx.equal(octree.nempty_mask(d), lay.nempty, w + 'non-empty mask')
    for ne in (False, True):
      b, xyz = lay.nodes(ne)
      c = lay.code[lay.nempty] if ne else lay.code
      ctx.equal(octree.key(d, ne), c, w + 'keys')
      x, y, z, bb = octree.xyzb(d, ne)
      ctx.equal(np.stack([x.numpy(), y.numpy(), z.numpy()], 1).reshape(-1, 3),
                xyz, w + 'coordinates')
      ctx.equal(bb, b, w + 'batch indices of coordinates')
      ctx.equal(octree.batch_id(d, ne), b, w + 'batch indices')
    ctx.trans()


def check_neigh(ctx, octree, tree, d, kernel, stride, nempty, what=''):
  got = octree.get_neigh(d, kernel, stride, nempty)
  ctx.equal(got, tree.neigh(d, kernel, stride, nempty),
            lambda: '%sneighbours of layer %d, kernel %s, stride %d, nempty=%s' % (
                what, d, kernel, stride, nempty))
  ctx.trans()


def snapshot(octree):
  """ Everything observable about an octree, for before/after comparison. """
  def c(x):
    return None if x is None else x.clone()
  return {
      'depth': octree.depth, 'full_depth': octree.full_depth,
      'batch_size': octree.batch_size,
      'nnum': c(octree.nnum), 'nnum_nempty': c(octree.nnum_nempty),
      'batch_nnum': c(octree.batch_nnum),
      'batch_nnum_nempty': c(octree.batch_nnum_nempty),
      'keys': [c(k) for k in octree.keys],
      'children': [c(k) for k in octree.children],
      'neighs': [c(k) for k in octree.neighs],
      'features': [c(k) for k in octree.features],
      'normals': [c(k) for k in octree.normals],
      'points': [c(k) for k in octree.points],
  }


def psnapshot(p):
  def c(x):
    return None if x is None else x.clone()
  return {k: c(getattr(p, k)) for k in
          ('points', 'normals', 'features', 'labels', 'batch_id', 'batch_npt')
          } | {'batch_size': p.batch_size}


def same(ctx, a, b, what):
  """ Deep equality of snapshots / results including types. """
  import torch
  if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor):
    ctx.check(a.dtype == b.dtype and a.device == b.device,
              lambda: '%s: %s on %s, expected %s on %s' % (
                  what, a.dtype, a.device, b.dtype, b.device))
    ctx.equal(a, b, what)
  elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
    ctx.check(len(a) == len(b), what + ': lengths')
    for i, (x, y) in enumerate(zip(a, b)):
      same(ctx, x, y, '%s[%d]' % (what, i))
  elif isinstance(a, dict) and isinstance(b, dict):
    ctx.check(sorted(a, key=repr) == sorted(b, key=repr), what + ': keys')
    for k in a:
      same(ctx, a[k], b[k], '%s.%s' % (what, k))
  elif isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
    ctx.equal(a, b, what, dtype=True)
  else:
    ctx.check(type(a) == type(b) and a == b,
              lambda: '%s: %r, expected %r' % (what, a, b))
