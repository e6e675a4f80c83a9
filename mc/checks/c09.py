"""C09: octree deconvolution equals dense transposed convolution."""

from mc import ref, shapes, dense
from mc.checks import c08

ID = 'C09'
TECHNIQUE = ('bounded exhaustive exploration of the real layers over shapes x '
             'configurations, against dense transposed 3-D convolution')
BOUNDS = (c08.BOUNDS + '; adjointness with the convolution of the same weights for '
          'every layer, kernel, stride and mode')
ASSUMPTIONS = c08.ASSUMPTIONS
cases = c08.cases


def run(case, ctx):
  c08.explore(case, ctx, 'deconv')
  adjoint(case, ctx)


def adjoint(case, ctx):
  """ <conv(x), y> = <x, deconv(y)> with the same weights. """
  import torch
  import ocnn
  octree, tree = shapes.build(case)
  i = case['salt']
  for stride in (1, 2):
    for d in dense.conv_layers(tree, 'conv', stride):
      do = d if stride == 1 else d - 1
      for nempty in (False, True):
        for kernel in ref.KERNELS:
          i += 1
          if ctx.tier == 'quick' and i % 2 or case.get('wide'):
            continue
          cin, cout = ((2, 1), (1, 3), (2, 2))[i % 3]
          size = list(dense.KSIZE[kernel][-1])
          direct = bool(i // 3 % 2)
          conv = ocnn.nn.OctreeConv(cin, cout, size, stride, nempty,
                                    direct_method=direct).double()
          deconv = ocnn.nn.OctreeDeconv(cout, cin, size, stride, nempty,
                                        direct_method=not direct).double()
          w = dense.tweights(len(ref.offsets(kernel)), cin, cout, i)
          with torch.no_grad():
            conv.weights.copy_(w)
            deconv.weights.copy_(w)
            x = dense.tdata(tree.layer(d).num(nempty), cin, i)
            y = dense.tdata(tree.layer(do).num(nempty), cout, i + 1)
            a = (conv(x, octree, d) * y).sum()
            b = (x * deconv(y, octree, do)).sum()
          ctx.equal(a, b, lambda: 'adjoint of layer %d, kernel %s, stride %d, '
                    'nempty=%s' % (d, kernel, stride, nempty))
          ctx.trans(2)
