"""C12: depthwise and group convolution equal their dense counterparts."""

from mc import ref, shapes, dense, layers

ID = 'C12'
TECHNIQUE = ('bounded exhaustive exploration of the real layers over shapes x '
             'configurations, against dense grouped 3-D convolution')
BOUNDS = ('the shape families of C08; every layer x 8 kernels x 2 strides x 2 node '
          'modes; depthwise with 1-5 channels, 1-4 groups with 1-3 channels per '
          'group on either side, bias, float32/float64, kernel-size spellings '
          'rotate; the full product of these on three small octrees; every '
          'group/channel combination that does not divide is rejected'
          '; octrees with more than 65536 nodes; magnitudes 2^-40 to 2^30, memory layouts and 1 to 257 channels rotate'
          ' over the configurations')
ASSUMPTIONS = ['integer data and weights, so that results are exact in float32']

SMALL = [([[[0, 0, 0], [1, 1, 0], [3, 3, 3]]], 2, 1),
         ([[[0, 1, 2]], [], [[0, 0, 0], [0, 0, 1], [3, 0, 0]]], 2, 1),
         ([[[7, 7, 7], [0, 0, 0], [4, 3, 4]]], 3, 1)]
DW = [('dwconv', c, c) for c in (1, 2, 3, 4, 5)]
MANY = [('dwconv', 64, 64), ('gconv8', 2, 4), ('gconv2', 33, 16), ('dwconv', 257, 257),
        ('gconv32', 2, 1), ('gconv5', 7, 3)]
GC = [('gconv%d' % g, i, o) for g in (1, 2, 3, 4) for i in (1, 2, 3) for o in (1, 2, 3)]


def cases(tier):
  out = []
  for s, (leaves, depth, full) in enumerate(SMALL):
    for kernel in ref.KERNELS:
      out.append({'kind': 'product', 'fam': 'leaves', 'leaves': leaves, 'depth': depth,
                  'full': full, 'build': 'batch', 'kernel': kernel, 'salt': s})
  for i, c in enumerate(shapes.op_cases(tier, builds=('batch', 'merge', 'grow')) +
                        shapes.deep_cases(tier)):
    out.append(dict(c, kind='shape', salt=i))
  for i, c in enumerate(shapes.wide_cases()):
    out.insert(0, dict(c, kind='shape', salt=i))
  out.append({'kind': 'reject'})
  return out


def run(case, ctx):
  import torch
  if case['kind'] == 'reject':
    return reject(ctx)
  octree, tree = shapes.build(case)
  i = case['salt'] * 13
  for stride in (1, 2):
    for d in layers.layers_of(tree, 'conv', stride):
      for nempty in (False, True):
        if case['kind'] == 'product':
          for conf in DW + GC:
            for bias in (False, True):
              i += 1
              one(ctx, octree, tree, case['kernel'], stride, nempty, d, conf, bias,
                  torch.float64 if i % 3 == 0 else torch.float32, i)
        else:
          for kernel in ref.KERNELS:
            i += 1
            if shapes.skip(case, tree, d, kernel):
              continue
            confs = [DW[i % 5]]
            if shapes.pair(i, tree, d, None):
              confs.append(MANY[i // 11 % len(MANY)])
            if tree.layer(d).nnum < 5000 or ctx.tier == 'thorough' or i % 3 == 0:
              confs.append(GC[i * 5 % len(GC)])
            for conf in confs:
              one(ctx, octree, tree, kernel, stride, nempty, d, conf, i % 2 == 0,
                  torch.float64 if i % 5 == 0 else torch.float32, i)
  ctx.trace()


def one(ctx, octree, tree, kernel, stride, nempty, d, conf, bias, dt, salt):
  import torch
  t = layers.Twin(*conf, kernel, stride, nempty, bias, salt, dt)
  n, m, _ = t.in_out(tree, d)
  sx, sw, _ = shapes.scales(salt // 2)
  sx = sx * shapes.fine(dt)       # detours over float32 lose this
  t.scale(sx, sw)
  x = dense.tdata(n, t.cin, salt) * sx
  with torch.no_grad():
    got = t.layer(shapes.layout(x.to(dt), salt // 3), octree, d)
    want = t.dense(tree, x, d)
  ctx.equal(got, want, lambda: '%s of layer %d, kernel %s, stride %d, nempty=%s, '
            'channels %d-%d, bias=%s, %s' % (conf[0], d, kernel, stride, nempty,
                                             t.cin, t.cout, bias, dt))
  ctx.check(got.dtype == dt, 'data type of the output')
  ctx.trans(len(want))
  ctx.state(conf, kernel, stride, nempty, d, tree.layer(d).code, tree.layer(d).nempty)
  ctx.outcome(tuple(got.shape), float(got.double().sum()))
  ctx.sample({'layer': conf[0], 'kernel': kernel, 'stride': stride, 'nempty': nempty,
              'channels': [t.cin, t.cout]})


def reject(ctx):
  import ocnn
  for g in range(1, 7):
    for i in range(1, 13):
      for o in range(1, 13):
        ok = i % g == 0 and o % g == 0
        make = lambda: ocnn.nn.OctreeGroupConv(i, o, group=g)
        if ok:
          make()
        else:
          ctx.raises(make, '%d groups of %d-%d channels' % (g, i, o))
        ctx.trans()
  ctx.state('reject')
  ctx.trace()
