"""C16: upsampling gives each finer node the coarse value at its centre."""

import numpy as np
from mc import ref, shapes, interp

ID = 'C16'
TECHNIQUE = ('bounded exhaustive exploration of the real functions over shapes x pairs '
             'of layers x modes, against ancestors and explicit hat-function weights')
BOUNDS = ('the shape families of C08 and deep octrees; every pair of layers d <= t x '
          '2 modes x {nearest, linear}; one-level module, default and '
          'explicit target, chains of one-level steps; values and gradients; float16 to float64'
          '; octrees with more than 65536 nodes; magnitudes 2^-40 to 2^30, memory layouts and 1 to 257 channels rotate'
          ' over the configurations')
ASSUMPTIONS = ['CPU tensors']


def cases(tier):
  out = []
  for i, c in enumerate(shapes.op_cases(tier, builds=('batch', 'merge', 'grow')) +
                        shapes.deep_cases(tier)):
    out.append(dict(c, salt=i))
  for i, c in enumerate(shapes.wide_cases()):
    out.insert(0, dict(c, salt=i))
  return out


def ancestors(tree, d, t, nempty):
  """ For each node of layer t the index of its ancestor in layer d. """
  b, xyz = tree.layer(t).nodes(nempty)
  lay = tree.layer(d)
  return lay.remap(lay.find(b, xyz >> (t - d)), nempty)


def run(case, ctx):
  octree, tree = shapes.build(case)
  i = case['salt'] * 3
  deep = tree.depth > 5 and ctx.tier == 'quick'
  for d in range(0, tree.depth + 1):
    for t in range(d, tree.depth + 1):
      if shapes.skip(case, tree, t):
        continue
      if deep and t - d > 2 and t != tree.depth:
        continue
      for nempty in (False, True):
        i += 1
        pair(ctx, octree, tree, d, t, nempty, i)
  ctx.trace()


def pair(ctx, octree, tree, d, t, nempty, i):
  import torch
  import ocnn
  c = shapes.channels(i, tree.layer(t).nnum)
  s = shapes.scales(i)[0]
  data = ref.idata(tree.layer(d).num(nempty), c, i).astype(float) * s
  b, xyz = tree.layer(t).nodes(nempty)
  anc = ancestors(tree, d, t, nempty)
  assert (anc >= 0).all()
  what = 'layer %d to %d, nempty=%s' % (d, t, nempty)
  for dt in (torch.float32, torch.float64) if i % 2 else (torch.float32,):
    f = shapes.fine(dt)
    x = shapes.layout(torch.tensor(data * f, dtype=dt), i).requires_grad_()
    up = ocnn.nn.OctreeUpsample('nearest', nempty)
    y = up(x, octree, d) if t == d + 1 and i % 2 else up(x, octree, d, t)
    ctx.equal(y, data[anc] * f, 'nearest, ' + what)
    ctx.check(y.dtype == dt, 'data type, ' + what)
    g = ref.idata(len(b), c, i + 1) * float(f)
    if len(b):
      y.backward(shapes.layout(torch.tensor(g, dtype=dt), i // 2))
      want = np.zeros_like(data)
      np.add.at(want, anc, g)
      ctx.equal(x.grad, want, 'gradient of nearest, ' + what)
    ctx.trans(2)
  # half precision: the values are exact, those of the interpolation rounded
  for dt, tol in ((torch.bfloat16, 2.0 ** -2), (torch.float16, 2.0 ** -5)):
    if i % 2 or t == d:
      break
    h = ref.idata(len(data), 2, i).astype(float)
    x = torch.tensor(h, dtype=dt)
    y = ocnn.nn.OctreeUpsample('nearest', nempty)(x, octree, d, t)
    ctx.equal(y, h[anc], 'nearest, %s, %s' % (dt, what))
    ctx.check(y.dtype == dt, 'data type, %s, %s' % (dt, what))
    y = ocnn.nn.OctreeUpsample('linear', nempty)(x, octree, d, t)
    want = interp.apply(tree, d, 'linear', nempty, (xyz + 0.5) / 2.0 ** (t - d), b, h)[0]
    ctx.check(y.dtype == dt, 'data type, linear, %s, %s' % (dt, what))
    ctx.check(bool((np.abs(y.double().numpy() - want) <= tol).all()),
              'linear, %s, %s' % (dt, what))
    ctx.trans(2)
  # chain of one-level steps
  z = torch.tensor(data, dtype=torch.float32)
  for k in range(d, t):
    z = ocnn.nn.OctreeUpsample('nearest', nempty)(z, octree, k)
    ctx.trans()
  ctx.equal(z, data[anc], 'chain of one-level steps, ' + what)
  # linear
  dt = torch.float64 if i % 5 == 2 else torch.float32
  data = data * shapes.fine(dt)
  x = shapes.layout(torch.tensor(data, dtype=dt), i // 2).requires_grad_()
  up = ocnn.nn.OctreeUpsample(nempty=nempty) if i % 2 else \
      ocnn.nn.OctreeUpsample('linear', nempty)
  y = up(x, octree, d) if t == d + 1 and i % 4 < 2 else up(x, octree, d, t)
  ctx.check(y.dtype == dt, 'data type, linear, ' + what)
  if t == d:
    ctx.equal(y, data, 'same layer, ' + what)
    return
  p = (xyz + 0.5) / 2.0 ** (t - d)
  want, grad, ok = interp.apply(tree, d, 'linear', nempty, p, b, data)
  ctx.check(ok.all(), 'domain')
  ctx.close(y / s, want / s, 'linear, ' + what,
            1e-9 if dt == torch.float64 and t - d < 6 else 2e-5)
  g = ref.idata(len(b), c, i + 2).astype(float)
  if len(b):
    y.backward(shapes.layout(torch.tensor(g, dtype=dt), i))
    gx = grad(g)
    u = 1 + np.abs(gx).max() / 30
    ctx.close(x.grad.numpy() / u, gx / u, 'gradient of linear, ' + what, 2e-5)
  ctx.trans(2)
  ctx.state(d, t, nempty, tree.layer(t).code, tree.layer(t).nempty)
  ctx.outcome(t - d, nempty, len(b))
  ctx.sample({'upsampling': what, 'rows': len(b)})
