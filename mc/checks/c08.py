"""C08: octree convolution equals dense 3-D convolution restricted to the nodes."""

import numpy as np
from mc import ref, shapes, dense

ID = 'C08'
TECHNIQUE = ('bounded exhaustive exploration of the real layers over shapes x '
             'configurations, against dense 3-D convolution')
BOUNDS = ('all octant subsets at depth 1, under every parent at depth 2 and selected '
          'parents at depth 3, all pairs of depth-2 leaves, border pairs at depths '
          '3-4, named shapes to depth 4, deep few-leaf shapes to depth 16, batches '
          'with empty samples, clouds without points; every layer x 8 kernels x '
          '2 strides x 2 node modes; bias, channel counts 1-5, float32/float64 and '
          'kernel-size spellings rotate over the configurations'
          '; octrees with more than 65536 nodes; magnitudes 2^-40 to 2^30, memory layouts and 1 to 257 channels rotate'
          ' over the configurations')
ASSUMPTIONS = ['integer data and weights, so that results are exact in float32']



def cases(tier):
  out = []
  for i, c in enumerate(shapes.op_cases(tier, builds=('batch', 'merge', 'grow')) +
                        shapes.deep_cases(tier)):
    out.append(dict(c, salt=i))
  for i, (depth, full) in enumerate(((1, 1), (2, 1), (3, 2))):
    out.append({'fam': 'leaves', 'leaves': [[], []], 'depth': depth, 'full': full,
                'build': 'batch', 'salt': i})
  for i, c in enumerate(shapes.wide_cases()):
    out.insert(0, dict(c, salt=i))
  return out


CHANNELS = ((1, 1), (2, 3), (3, 1), (1, 2), (4, 5))


def run(case, ctx):
  explore(case, ctx, 'conv')


def explore(case, ctx, KIND):
  import torch
  octree, tree = shapes.build(case)
  i = case['salt'] * 7
  many = tree.batch_size * 8 ** tree.depth > 20000
  for stride in (1, 2):
    for d in dense.conv_layers(tree, KIND, stride):
      for nempty in (False, True):
        neigh = None
        for kernel in ref.KERNELS:
          i += 1
          if shapes.skip(case, tree, d if KIND == 'conv' or stride == 1 else d + 1,
                         kernel):
            continue
          cin, cout = shapes.pair(i, tree, d, CHANNELS[i % (3 if many else 5)])
          dt = torch.float64 if i % 3 == 0 else torch.float32
          for direct in ((False, True) if not many else (i // 2 % 2 == 1,)):
            check(ctx, KIND, octree, tree, d, kernel, stride, nempty, cin, cout,
                  bias=i % 2 == 0, dt=dt, salt=i, direct=direct)
          if ctx.tier == 'thorough':
            check(ctx, KIND, octree, tree, d, kernel, stride, nempty, cout, cin,
                  bias=i % 2 == 1, dt=dt, salt=i + 2)
  ctx.trace()
  ctx.sample({'depth': tree.depth, 'full': tree.full_depth,
              'batch': tree.batch_size, 'nodes': [l.nnum for l in tree.layers]})


def check(ctx, KIND, octree, tree, d, kernel, stride, nempty, cin, cout, bias, dt, salt,
          direct=None):
  import torch
  import ocnn
  spell = dense.KSIZE[kernel]
  size = list(spell[salt % len(spell)])
  kw = {}
  if salt % 4 == 3 if direct is None else direct:
    kw['direct_method'] = True
  cls = ocnn.nn.OctreeConv if KIND == 'conv' else ocnn.nn.OctreeDeconv
  layer = cls(cin, cout, size, stride, nempty, use_bias=bias, **kw).to(dt)
  k = len(ref.offsets(kernel))
  w = dense.tweights(k, cin, cout, salt) if KIND == 'conv' else \
      dense.tweights(k, cout, cin, salt)
  sx, sw, _ = shapes.scales(salt // 3)
  sx = sx * shapes.fine(dt)       # detours over float32 lose this
  w = w * sw
  b = dense.tdata(1, cout, salt + 5)[0] * (sx * sw)
  with torch.no_grad():
    layer.weights.copy_(w)
    if bias:
      layer.bias.copy_(b)
  n = tree.layer(d).num(nempty)
  x = dense.tdata(n, cin, salt, dtype=dt) * sx
  with torch.no_grad():
    got = layer(shapes.layout(x, salt), octree, d)
  func = dense.conv if KIND == 'conv' else dense.deconv
  want = func(tree, x.double(), d, kernel, stride, nempty, w)
  if bias:
    do = d if stride == 1 else (d - 1 if KIND == 'conv' else d + 1)
    add = b.expand(len(want), -1)
    if KIND == 'conv' and stride == 2 and not nempty:
      add = add * torch.tensor(tree.layer(do).nempty).unsqueeze(1)
    want = want + add
  ctx.equal(got, want, lambda: '%s of layer %d, kernel %s (%s), stride %d, '
            'nempty=%s, channels %d-%d, bias=%s, %s %s, scales %g, %g' % (
                KIND, d, kernel, size, stride, nempty, cin, cout, bias, dt, kw, sx, sw))
  ctx.check(got.dtype == dt, 'data type of the output')
  ctx.trans(len(want))
  ctx.state(d, kernel, stride, nempty, tree.layer(d).code, tree.layer(d).nempty)
  ctx.outcome(tuple(got.shape), float(got.double().sum()))
  return layer, x, got
