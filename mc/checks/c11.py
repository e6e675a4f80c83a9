"""C11: memory-saving convolution settings never change any result."""

from mc import ref, shapes, dense, layers

ID = 'C11'
TECHNIQUE = ('exhaustive exploration of all sub-step counts of the real layers, '
             'against differentiated dense convolutions')
BOUNDS = ('5 layer kinds x 8 kernels x 2 strides x 2 node modes x layers of 12 '
          'octrees; every buffer limit of r rows and r rows plus a remainder for '
          'r = 1 .. number of rows + 1 (at most 40 values of r per configuration in '
          'the quick tier, including all up to 9 rows and all above half of the rows '
          'up to 20 rows), both methods; outputs, data, weight and bias gradients'
          '; memory layouts and up to 257 channels rotate')
ASSUMPTIONS = ['buffer limits hold at least one row (smaller ones are rejected by '
               'the layer with an error)', 'integer data: exact in float32']

SHAPES = [
    ([[[0, 0, 0]]], 1, 1), ([[[0, 0, 0], [1, 1, 0], [3, 3, 3]]], 2, 1),
    ([[[0, 1, 2]], [], [[0, 0, 0], [0, 0, 1], [3, 0, 0]]], 2, 1),
    ([[[3, 3, 3], [0, 0, 0], [1, 2, 3], [3, 0, 1], [2, 2, 1]]], 2, 1),
    ([[[7, 7, 7], [0, 0, 0], [4, 3, 4]]], 3, 1),
    ([[[1, 2, 3], [1, 2, 2], [1, 3, 3], [0, 2, 3], [1, 2, 4], [2, 2, 3], [5, 2, 3]]], 3, 1),
    ([[[0, 0, 0], [3, 3, 3]], [[1, 1, 1]]], 2, 2),
    ([[[0, 0, 0], [0, 0, 1], [0, 1, 0], [0, 1, 1], [1, 0, 0]], [[2, 1, 1]]], 2, 1),
    ([[], [[6, 1, 7]], [[0, 7, 0], [0, 7, 1]], []], 3, 1),
    ([[[9, 9, 9]]], 4, 1),
    ([shapes.subset([1, 1, 1], 0xB7) + shapes.subset([0, 1, 1], 0x5D)], 2, 1),
    ([shapes.named(2)['board']], 2, 1),
]
KINDS = ('conv', 'deconv', 'dwconv', 'conv-direct', 'deconv-direct')


def cases(tier):
  out = []
  for s, (leaves, depth, full) in enumerate(SHAPES):
    for kind in KINDS:
      for k, kernel in enumerate(ref.KERNELS):
        if tier == 'quick' and (s + k) % 3 and kernel != '333':
          continue
        out.append({'fam': 'leaves', 'leaves': leaves, 'depth': depth, 'full': full,
                    'build': 'batch', 'layer': kind, 'kernel': kernel, 'salt': s + k,
                    'bias': (s + k // 3) % 2 == 1})
  return out


def rows_list(rows, tier):
  every = list(range(1, rows + 2))
  if tier == 'thorough' or rows <= 24:
    return every
  keep = set(range(1, 10)) | {rows - 1, rows, rows + 1, rows // 2, rows // 2 + 1,
                              (rows + 2) // 3, rows // 3, rows // 4}
  # one limit for every number of sub-steps that occurs
  steps = {}
  for r in every:
    steps.setdefault(-(-rows // r), r)
  keep |= set(list(steps.values())[:24])
  return sorted(r for r in keep if r >= 1)


def run(case, ctx):
  import torch
  octree, tree = shapes.build(case)
  kind, kernel = case['layer'], case['kernel']
  k = len(ref.offsets(kernel))
  i = case['salt']
  for stride in (1, 2):
    for d in layers.layers_of(tree, kind, stride):
      if tree.layer(d).nnum < 8 and d:
        continue
      for nempty in (False, True):
        i += 1
        if ctx.tier == 'quick' and d < tree.depth - 1 and i % 2:
          continue
        cin, cout = shapes.pair(i, tree, d, ((1, 1), (2, 1), (1, 3), (2, 2))[i % 4])
        dt = torch.float64 if i % 3 == 0 else torch.float32
        if kind == 'dwconv':
          cout = cin
        per = k * (cout if kind.startswith('deconv') else cin)
        dn = d + 1 if kind.startswith('deconv') and stride == 2 else d
        rows = len(tree.neigh(dn, kernel, stride, nempty))
        want = None
        for r in rows_list(rows, ctx.tier) + [None]:
          for rem in ((0, per - 1) if r and r % 3 == 1 and per > 1 else (0,)):
            kw = {} if r is None else {'max_buffer': r * per + rem}
            t = layers.Twin(kind, cin, cout, kernel, stride, nempty, case['bias'],
                            i, dt, **kw)
            n, m, _ = t.in_out(tree, d)
            x = dense.tdata(n, t.cin, i)
            g = dense.tdata(m, t.cout, i + 1, -3, 3)
            if want is None:
              x.requires_grad_()
              y = t.dense(tree, x, d)
              y.backward(g)
              want = y.detach(), x.grad, t.w.grad, None if t.b is None else t.b.grad
            a = shapes.layout(x.detach().to(dt).clone(), i + rem).requires_grad_()
            y = t.layer(a, octree, d)
            y.backward(shapes.layout(g.to(dt), i // 2))
            w, b = t.grads()
            for got, ww, name in zip((y, a.grad, w, b), want,
                                     ('output', 'data gradient', 'weight gradient',
                                      'bias gradient')):
              if ww is None:
                continue
              ctx.equal(got, ww, lambda: '%s of %s, layer %d, kernel %s, stride %d, '
                        'nempty=%s, %d rows in steps of %s (%s), %s' % (
                            name, kind, d, kernel, stride, nempty, rows, r, kw, dt))
            ctx.trans(3)
            ctx.outcome(rows, r)
        ctx.state(kind, kernel, stride, nempty, d, tree.layer(d).code)
  ctx.trace()
  ctx.sample({'layer': kind, 'kernel': kernel, 'rows': rows})
