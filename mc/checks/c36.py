"""C36: convolutions keep their values under mixed precision."""

import contextlib
from mc import ref, shapes, dense, layers

ID = 'C36'
TECHNIQUE = ('bounded exhaustive exploration of the real layers over shapes x '
             'configurations x precision modes, against dense 3-D convolution in float64')
BOUNDS = ('the shape families of C08 up to 4000 voxels and the deep few-leaf shapes; 7 '
          'kinds of layers x 8 kernels x 2 strides x 2 node modes with rotating layers, '
          'each in one of 7 precision modes (autocast to bfloat16 over float32, bfloat16 '
          'and float64 features; features of bfloat16, float16, float32 and float64 with '
          'parameters of another type); the full product on three small octrees; every kind '
          'of layer on two octrees with more than 300 leaves and constant data, whose '
          'parameter gradients exceed the integers of the narrow types; data in '
          '{-1, 0, 1}, so that forward results are exact in every type (features or '
          'gradients of ten bits where both types are single or double); forward pass, '
          'gradients of features, weights and bias')
ASSUMPTIONS = ['layers with direct_method are run under autocast only (they multiply '
               'features and weights as they are)',
               'gradients of biases, and of the weights of layers with direct_method, are '
               'compared up to one rounding of the narrower type; the weights of the other '
               'layers have exact gradients in their own type']

SMALL = [([[[0, 0, 0], [1, 1, 0], [3, 3, 3]]], 2, 1),
         ([[[0, 1, 2]], [], [[0, 0, 0], [0, 0, 1], [3, 0, 0]]], 2, 1),
         ([[[7, 7, 7], [0, 0, 0], [4, 3, 4]]], 3, 1)]
# (type of the features, type of the parameters, autocast)
MODES = [('float32', 'float32', True), ('bfloat16', 'float32', False),
         ('float64', 'float32', False), ('bfloat16', 'float32', True),
         ('float32', 'float64', False), ('float16', 'float32', False),
         ('float64', 'float32', True)]


def cases(tier):
  out = []
  for s, (leaves, depth, full) in enumerate(SMALL):
    for kernel in ref.KERNELS:
      for kind in layers.KINDS:
        out.append({'kind': 'product', 'fam': 'leaves', 'leaves': leaves, 'depth': depth,
                    'full': full, 'build': 'batch', 'kernel': kernel, 'layer': kind,
                    'salt': s})
  grid = [[a, b, c] for a in range(8) for b in range(8) for c in range(8)]
  for s, leaves in enumerate([grid[:301] + grid[-40:], grid[1:331]]):
    for kind in layers.KINDS:
      out.append({'kind': 'many', 'fam': 'leaves', 'leaves': [leaves], 'depth': 3,
                  'full': 2 + s, 'build': 'batch', 'layer': kind, 'salt': s})
  for i, c in enumerate(shapes.op_cases(tier, builds=('batch', 'merge', 'grow')) +
                        shapes.deep_cases(tier)):
    out.append(dict(c, kind='shape', salt=i))
  return out


def run(case, ctx):
  octree, tree = shapes.build(case)
  i = case['salt'] * 5
  product = case['kind'] == 'product'
  for stride in (1, 2):
    for kind in (case['layer'],) if 'layer' in case else layers.KINDS:
      for d in layers.layers_of(tree, kind, stride):
        if tree.batch_size * 8 ** d > 4000 and d < tree.depth - 1:
          continue
        if tree.layer(d).nnum > 2000:
          continue
        for nempty in (False, True):
          if case['kind'] == 'many':
            for j, mode in enumerate(MODES):
              i += 1
              one(ctx, octree, tree, kind, list(ref.KERNELS)[i % 8], stride, nempty, d,
                  mode, j % 2 == 0, i, True)
            continue
          if product:
            for mode in MODES:
              for bias in (False, True):
                i += 1
                one(ctx, octree, tree, kind, case['kernel'], stride, nempty, d, mode,
                    bias, i)
            continue
          for k in range(1 if ctx.tier == 'quick' else 8):
            i += 1
            one(ctx, octree, tree, kind, list(ref.KERNELS)[(i * 3 + k) % 8], stride,
                nempty, d, MODES[i % 7], i % 2 == 0, i)
  ctx.trace()


def one(ctx, octree, tree, kind, kernel, stride, nempty, d, mode, bias, i, many=False):
  import torch
  xt, pt, cast = getattr(torch, mode[0]), getattr(torch, mode[1]), mode[2]
  if kind.endswith('direct') and (not cast or mode[0] == 'float64'):
    return
  cin, cout = ((1, 1), (2, 3), (3, 1), (1, 2))[i % 4]
  t = layers.Twin(kind, cin, cout, kernel, stride, nempty, bias, i, pt)
  n, m, _ = t.in_out(tree, d)
  if not n or not m:
    return
  with torch.no_grad():
    for p in [t.w] + ([] if t.b is None else [t.b]):
      p.copy_(p.sign())
    for q in t.parts():
      for p in q:
        if p is not None:
          p.copy_(p.sign())
  x = dense.tdata(n, t.cin, i, -1, 1)
  g = dense.tdata(m, t.cout, i + 3, -1, 1)
  if not cast and {mode[0], mode[1]} == {'float32', 'float64'}:
    # ten significant bits in the features or in the incoming gradient
    if i // 2 % 2:
      x = x * 1021 + dense.tdata(n, t.cin, i + 7, -1, 1)
    else:
      g = g * 1021 + dense.tdata(m, t.cout, i + 8, -1, 1)
  if many:      # sums over the nodes beyond the integers of the narrow types
    x, g = torch.ones_like(x), torch.ones_like(g)
  a = shapes.layout(x.to(xt).clone(), i // 2).requires_grad_()
  with torch.autocast('cpu', torch.bfloat16) if cast else contextlib.nullcontext():
    y = t.layer(a, octree, d)
  b = x.clone().requires_grad_()
  want = t.dense(tree, b, d)
  what = lambda: '%s of layer %d, kernel %s, stride %d, nempty=%s, features %s, ' \
      'parameters %s%s' % (kind, d, kernel, stride, nempty, mode[0], mode[1],
                           ', autocast' if cast else '')
  ctx.equal(y.detach().double(), want, what)
  ctx.check(y.dtype.is_floating_point, lambda: 'type of the output, ' + what())
  if not cast:
    ctx.check(y.dtype == xt, lambda: 'type of the output, ' + what())
  y.backward(g.to(y.dtype))
  want.backward(g)
  ctx.check(a.grad is not None and a.grad.dtype == xt,
            lambda: 'type of the gradient of the features, ' + what())
  ctx.equal(a.grad.double(), b.grad, lambda: 'gradient of the features, ' + what())
  gw, gb = t.grads()
  ctx.check(gw.dtype == pt, lambda: 'type of the gradient of the weights, ' + what())
  wide = not kind.endswith('direct')
  (ctx.equal if wide else ctx.close)(
      gw.double(), t.w.grad, lambda: 'gradient of the weights, ' + what(),
      *(() if wide else (8e-3,)))
  if bias:
    ctx.check(gb is not None and gb.dtype == pt,
              lambda: 'type of the gradient of the bias, ' + what())
    ctx.close(gb.double(), t.b.grad, lambda: 'gradient of the bias, ' + what(), 8e-3)
  ctx.trans(4)
  ctx.state(kind, kernel, stride, nempty, d, mode, tree.layer(d).code)
  ctx.outcome(kind, mode, float(want.detach().abs().sum()))
  ctx.sample({'layer': kind, 'kernel': kernel, 'mode': list(mode)})
