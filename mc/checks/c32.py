"""C32: neighbourhood gathering and scattering are exact and mutually adjoint."""

import numpy as np
from mc import ref, shapes, dense

ID = 'C32'
TECHNIQUE = ('bounded exhaustive exploration of the real functions over shapes x '
             'configurations, against index-wise gathering and scattering')
BOUNDS = ('the shape families of C08; every layer x 8 kernels x 2 strides x 2 node '
          'modes; float32/float64 everywhere, int64/int32/float16/bfloat16 on the '
          'named shapes; 1-3 channels; values, adjoint identity and both gradients'
          '; octrees with more than 65536 nodes; magnitudes 2^-40 to 2^30, memory layouts and 1 to 257 channels rotate'
          ' over the configurations')
ASSUMPTIONS = ['integer data, so that sums are exact']


def cases(tier):
  out = []
  for i, c in enumerate(shapes.op_cases(tier, builds=('batch', 'merge', 'grow')) +
                        shapes.deep_cases(tier)):
    out.append(dict(c, salt=i))
  for i, c in enumerate(shapes.wide_cases()):
    out.insert(0, dict(c, salt=i))
  out.append({'fam': 'leaves', 'leaves': [[], []], 'depth': 2, 'full': 1,
              'build': 'batch', 'salt': 0})
  return out


def scatter(col, neigh, n):
  out = np.zeros((n, col.shape[2]))
  r, k = np.nonzero(neigh >= 0)
  np.add.at(out, neigh[r, k], col[r, k])
  return out


def run(case, ctx):
  import torch
  from ocnn.nn import octree2col, col2octree
  octree, tree = shapes.build(case)
  i = case['salt'] * 3
  small = case['fam'] in ('named', 'leaves') and not case.get('wide')
  for stride in (1, 2):
    for d in range(1, tree.depth + 1):
      if d > tree.full_depth + 2 and d < tree.depth - 1 and ctx.tier == 'quick':
        continue
      for nempty in (False, True):
        neigh27 = tree.neigh(d, '333', stride, nempty)
        offs27 = [tuple(o) for o in ref.offsets('333').tolist()]
        for kernel in ref.KERNELS:
          i += 1
          if shapes.skip(case, tree, d, kernel):
            continue
          neigh = neigh27[:, [offs27.index(tuple(o))
                              for o in ref.offsets(kernel).tolist()]]
          n, c = tree.layer(d).num(nempty), shapes.channels(i, len(neigh))
          what = 'layer %d, kernel %s, stride %d, nempty=%s' % (d, kernel, stride, nempty)
          x = ref.idata(n, c, i)
          y = ref.idata(len(neigh) * len(neigh[0]) if len(neigh) else 0, c, i + 1) \
              .reshape(len(neigh), neigh.shape[1], c)
          xz = np.concatenate([x, np.zeros((1, c))])
          wcol = xz[np.where(neigh < 0, n, neigh)]
          wout = scatter(y, neigh, n)
          dts = [torch.float32 if i % 2 else torch.float64]
          if small and i % 3 == 0:
            dts = [torch.float32, torch.float64, torch.int64, torch.int32,
                   torch.float16, torch.bfloat16]
          for dt in dts:
            # detours over narrower types lose these factors
            fx, fy = (shapes.fine(dt), 1) if i // 2 % 2 else (1, shapes.fine(dt))
            xt = shapes.layout(torch.tensor(x).to(dt) * fx, i // 2)
            yt = torch.tensor(y).to(dt) * fy
            if i % 3 == 0:
              yt = yt.transpose(0, 1).contiguous().transpose(0, 1)
            elif i % 3 == 1:
              yt = yt.transpose(1, 2).contiguous().transpose(1, 2)
            if dt.is_floating_point:
              xt.requires_grad_()
              yt.requires_grad_()
            col = octree2col(xt, octree, d, kernel, stride, nempty)
            out = col2octree(yt, octree, d, kernel, stride, nempty)
            if dt in (torch.float32, torch.float64, torch.int64, torch.int32):
              ctx.equal(col, wcol * fx, lambda: 'octree2col, %s, %s' % (what, dt))
              ctx.equal(out, wout * fy, lambda: 'col2octree, %s, %s' % (what, dt))
            else:      # sums may exceed the mantissa
              ctx.equal(col, wcol, lambda: 'octree2col, %s, %s' % (what, dt))
              ctx.close(out, wout, lambda: 'col2octree, %s, %s' % (what, dt), 0.02)
            ctx.check(col.dtype == dt and out.dtype == dt,
                      lambda: 'data type changed, %s, %s' % (what, dt))
            if dt in (torch.float32, torch.float64) and n:
              if dt == torch.float64:
                ctx.equal((col * yt).sum(), (out * xt).sum(),
                          lambda: 'adjoint identity, ' + what)
              col.backward(yt.detach())
              out.backward(xt.detach())
              ctx.equal(xt.grad, wout * fy, lambda: 'gradient of octree2col, ' + what)
              ctx.equal(yt.grad, wcol * fx * (neigh >= 0)[:, :, None],
                        lambda: 'gradient of col2octree, ' + what)
            ctx.trans(4)
          ctx.state(kernel, stride, nempty, tree.layer(d).code, tree.layer(d).nempty)
          ctx.outcome(float(wout.sum()), neigh.shape[0])
  ctx.trace()
  ctx.sample({'depth': tree.depth, 'batch': tree.batch_size, 'configuration': what})
