"""C15: interpolation at points is the nearest or trilinear value of existing nodes."""

import itertools
import numpy as np
from mc import ref, shapes, interp, oct

ID = 'C15'
TECHNIQUE = ('bounded exhaustive exploration of the real functions over shapes x query '
             'lattices, against explicit hat-function weights')
BOUNDS = ('the shape families of C08; every layer x 2 modes x {nearest, linear} x '
          'bound checking x rescaling; queries: the lattice of quarter cells over the '
          'whole closed cube of every sample (depth 1), of half cells plus offsets '
          '(depth 2), at deeper layers 27 lattice positions around every node '
          '(sub-cell offsets 0, .25, .5, .75, some within 2^-7 of a centre, and the '
          'borders of the cube); values and '
          'gradients with respect to the features, float16 to float64 features, float32/float64 points'
          '; octrees with more than 65536 nodes; magnitudes 2^-40 to 2^30, memory layouts and 1 to 257 channels rotate'
          ' over the configurations')
ASSUMPTIONS = ['the upper faces of the cube belong to the domain of linear '
               'interpolation only (documented range of nearest: [0, 2^depth))']


def cases(tier):
  out = []
  for i, c in enumerate(shapes.op_cases(tier, builds=('batch', 'merge', 'grow')) +
                        shapes.deep_cases(tier)):
    out.append(dict(c, salt=i))
  for i, c in enumerate(shapes.wide_cases()):
    out.insert(0, dict(c, salt=i))
  out.append({'fam': 'leaves', 'leaves': [[], []], 'depth': 2, 'full': 1,
              'build': 'batch', 'salt': 0})
  return out


def queries(tree, d, salt):
  """ (xyz, batch) in units of the cells of layer d, inside the closed cube. """
  n = 1 << d
  nb = tree.batch_size
  lay = tree.layer(d)
  if d <= 1 or (d == 2 and nb <= 4):
    step = 0.25 if d <= 1 else 0.5
    v = np.arange(0, n + step / 2, step) + (0.125 if d == 2 and salt % 2 else 0)
    v = v[v <= n]
    xyz = np.array(list(itertools.product(v, repeat=3)))
    if nb > 16:
      xyz = xyz[salt % 3::3]
    b = np.repeat(np.arange(nb), len(xyz))
    return np.tile(xyz, (nb, 1)), b
  rows = np.arange(lay.nnum)
  most = 2500 if lay.nnum > 50000 else 400      # more than 65536 queries
  if lay.nnum > most:
    rows = rows[salt % (lay.nnum // most + 1)::lay.nnum // most + 1]
  off = [(-0.5, 0.25, 1.0), (0.0, 0.5, 0.75), (-0.25, 0.125, 1.375),
         (0.5 + 2.0 ** -7, -0.5 + 2.0 ** -6, 1.25)][salt % 4]
  o = np.array(list(itertools.product(off, repeat=3)))
  xyz = (lay.xyz[rows][:, None] + o[None]).reshape(-1, 3)
  b = np.repeat(lay.b[rows], 27)
  edge = np.array(shapes.lattice([0.0, 0.25, n / 2, n - 0.25, n]))
  slots = sorted({0, nb // 2, nb - 1})
  xyz = np.concatenate([xyz] + [edge] * len(slots))
  b = np.concatenate([b, np.repeat(slots, len(edge))])
  ok = np.all((xyz >= 0) & (xyz <= n), axis=1)
  return xyz[ok], b[ok]


def run(case, ctx):
  octree, tree = shapes.build(case)
  i = case['salt'] * 5
  for d in range(1 if tree.depth > 1 else 0, tree.depth + 1):
    if d > tree.full_depth + 2 and d < tree.depth - 1 and ctx.tier == 'quick':
      continue
    xyz, b = queries(tree, d, case['salt'] + d)
    for nempty in (False, True):
      for method in ('nearest', 'linear'):
        i += 1
        one(ctx, octree, tree, d, nempty, method, xyz, b, i)
        if i % 3 == 0:
          few = slice(i % 7, None, max(1, len(b) // 9))
          one(ctx, octree, tree, d, nempty, method, xyz[few], b[few], i + 1)
  ctx.trace()


def one(ctx, octree, tree, d, nempty, method, xyz, b, i):
  import torch
  import ocnn
  n = 1 << d
  if method == 'nearest':
    ok = np.all(xyz < n, axis=1)
    xyz, b = xyz[ok], b[ok]
  c = shapes.channels(i, max(len(xyz), tree.layer(d).nnum))
  dt = torch.float32 if i % 4 else torch.float64
  # query points of the other type now and then
  pt = dt if i % 7 else torch.float64 if dt == torch.float32 else torch.float32
  tol = 2e-5 if torch.float32 in (dt, pt) else 1e-5
  data = ref.idata(tree.layer(d).num(nempty), c, i) * float(shapes.fine(dt))
  if method == 'linear' and dt == pt == torch.float64 and not (i >> 2 & 1):
    # positions which float32 cannot represent
    xyz = np.minimum(xyz + np.array([1.1e-8, 2.3e-8, 3.7e-8]), n)
  want, grad, ok = interp.apply(tree, d, method, nempty, xyz, b, data)
  check = bool(i >> 1 & 1)
  rescale = bool(i >> 2 & 1) and d <= 12
  p = np.concatenate([xyz, b[:, None]], axis=1)
  if check and method == 'nearest' and len(p):
    # bound checking additionally accepts points outside, with value zero
    far = p[:8].copy()
    far[:, i % 3] += (n, -n)[i % 2]
    p = np.concatenate([p, far])
    want = np.concatenate([want, np.zeros((len(far), c))])
    ok = np.concatenate([ok, np.ones(len(far), bool)])
  if i % 3 == 1 and len(xyz):
    half(ctx, octree, tree, d, nempty, method, xyz, b, data, i)
  if dt == pt == torch.float64 and not rescale:
    tol = 1e-9
  s = shapes.scales(i)[0]
  x = shapes.layout(torch.tensor(data * s, dtype=dt), i // 2).requires_grad_()
  if rescale:
    p[:, :3] = p[:, :3] * 2.0 / n - 1.0
  pts = torch.tensor(p, dtype=pt)
  if i % 5 == 0:
    pts = torch.cat([pts, pts], dim=1)[:, :4]      # not contiguous
  else:
    pts = shapes.layout(pts, i // 3)
  before = pts.clone()
  if i % 3 == 0 and len(pts) * len(data) < 10 ** 7:     # torch forms the dense product
    pts.requires_grad_()
  if rescale or i % 2:
    args = dict(rescale_pts=rescale, nempty=nempty, bound_check=check)
    if not (method == 'linear' and i % 4 < 2):
      args['method'] = method
    out = ocnn.nn.OctreeInterp(**args)(x, octree, d, pts)
  else:
    f = {'nearest': ocnn.nn.octree_nearest_pts, 'linear': ocnn.nn.octree_linear_pts}
    out = f[method](x, octree, d, pts, nempty, check)
  what = '%s layer %d, nempty=%s, bound_check=%s, rescale=%s, %s, times %g' % (
      method, d, nempty, check, rescale, dt, s)
  ctx.check(tuple(out.shape) == want.shape, lambda: 'shape, ' + what)
  ctx.check(out.dtype == dt, lambda: 'data type, ' + what)
  if method == 'nearest':
    ctx.equal(out / s, want, lambda: 'values, ' + what)
  else:
    ctx.close(out.detach().numpy()[ok] / s, want[ok], lambda: 'values, ' + what, tol)
  ctx.equal(pts, before, lambda: 'query points after the call, ' + what)
  if len(p) and len(data):
    g = ref.idata(len(p), c, i + 3).astype(float)
    g[~ok] = 0
    out.backward(shapes.layout(torch.tensor(g, dtype=dt), i // 5))
    gx = grad(g[:len(b)])
    scale = 1 + np.abs(gx).max() / 30
    ctx.close(x.grad.numpy() / scale, gx / scale, lambda: 'gradient, ' + what, tol)
  ctx.trans(2)
  ctx.state(d, method, nempty, check, rescale, tree.layer(d).code, len(p))
  ctx.outcome(method, int((want != 0).any(1).sum()))
  ctx.sample({'interpolation': what, 'points': len(p)})


def half(ctx, octree, tree, d, nempty, method, xyz, b, data, i):
  """ Features of half precision: the same values up to their rounding. """
  import torch
  import ocnn
  dt, tol = ((torch.bfloat16, 2.0 ** -4), (torch.float16, 2.0 ** -7))[i // 3 % 2]
  if method == 'linear':
    # weights far below one are not accurate in these types
    w = interp.linear(tree, d, nempty, xyz, b)[1].sum(1)
    ok = (w == 0) | (w >= 2.0 ** -6)
    xyz, b = xyz[ok], b[ok]
  data = np.round(data[:, :2])
  want = interp.apply(tree, d, method, nempty, xyz, b, data)[0]
  pts = torch.tensor(np.concatenate([xyz, b[:, None]], axis=1), dtype=torch.float32)
  f = {'nearest': ocnn.nn.octree_nearest_pts, 'linear': ocnn.nn.octree_linear_pts}[method]
  out = f(torch.tensor(data, dtype=dt), octree, d, pts, nempty)
  what = '%s layer %d, nempty=%s, %s' % (method, d, nempty, dt)
  ctx.check(out.dtype == dt, lambda: 'data type, ' + what)
  if method == 'nearest':
    ctx.equal(out, want, lambda: 'values, ' + what)
  else:
    err = np.abs(out.double().numpy() - want)
    ctx.check(bool((err <= tol * 4).all()), lambda: 'values, ' + what)
    ctx.check(bool((out.double().numpy()[want == 0] == 0).all() or
                   (err[want == 0] <= tol).all()), lambda: 'zeros, ' + what)
  ctx.trans()
