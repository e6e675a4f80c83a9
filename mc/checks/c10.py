"""C10: gradients of all convolutions are the exact derivatives."""

import itertools
from mc import ref, shapes, dense, layers

ID = 'C10'
TECHNIQUE = ('bounded exhaustive exploration of call histories x configurations on '
             'the real layers, against differentiated dense convolutions')
BOUNDS = ('7 layer kinds (convolution and deconvolution buffered/direct, depthwise, '
          '2 and 3 groups) x 8 kernels x 2 strides x 2 node modes x every layer; on '
          'three small octrees x all 7 subsets of {data, weights, bias} requiring '
          'gradients x 12 call histories (accumulation, several forwards before the '
          'backwards in both orders, repeated, chained, non-contiguous and expanded '
          'incoming gradients); on the bounded shape families with rotating subsets '
          'and histories'
          '; octrees with more than 65536 nodes; magnitudes 2^-40 to 2^30, memory layouts and 1 to 257 channels rotate'
          ' over the configurations')
ASSUMPTIONS = ['integer data, weights and incoming gradients: exact in float32/64']

HISTORIES = ('plain', 'transposed', 'expanded', 'accumulate', 'joint', 'in order',
             'reverse', 'chain', 'retain', 'same input', 'no_grad between',
             'two octrees')
SUBSETS = [s for s in itertools.product((True, False), repeat=3) if any(s)]


def cases(tier):
  out = []
  for s, leaves in enumerate((
      [[[0, 0, 0], [1, 1, 0], [3, 3, 3]]],
      [[[0, 1, 2]], [], [[0, 0, 0], [0, 0, 1], [3, 0, 0]]],
      [[], [[3, 3, 2], [2, 3, 3], [1, 2, 1], [2, 2, 2]]])):
    for kind in layers.KINDS:
      for kernel in ref.KERNELS:
        out.append({'kind': 'product', 'fam': 'leaves', 'leaves': leaves, 'depth': 2,
                    'full': 1, 'build': 'batch', 'layer': kind, 'kernel': kernel,
                    'salt': s})
  for i, c in enumerate(shapes.op_cases(tier, builds=('batch', 'merge', 'grow')) +
                        shapes.deep_cases(tier)):
    out.append(dict(c, kind='shape', salt=i))
  for i, c in enumerate(shapes.wide_cases()):
    out.insert(0, dict(c, kind='shape', salt=i))
  return out


def run(case, ctx):
  import torch
  octree, tree = shapes.build(case)
  if case['kind'] == 'product':
    i = case['salt'] * 5
    for stride in (1, 2):
      for nempty in (False, True):
        for h in HISTORIES:
          for sub in SUBSETS:
            i += 1
            ds = list(layers.layers_of(tree, case['layer'], stride))
            d = ds[-1] if i % 3 else ds[0]
            if ctx.tier == 'quick' and (i + case['salt']) % 3 and h != 'plain':
              continue
            one(ctx, octree, tree, case['layer'], case['kernel'], stride, nempty, d,
                h, sub, torch.float32 if i % 4 else torch.float64, i)
  else:
    i = case['salt'] * 11
    for stride in (1, 2):
      for nempty in (False, True):
        for kernel in ref.KERNELS:
          for r in range(7 if ctx.tier == 'thorough' else
                         1 if case['fam'] == 'deep' else 2):
            i += 1
            kind = layers.KINDS[(i * 3 + i // 7 + r) % 7]
            for d in layers.layers_of(tree, kind, stride):
              if shapes.skip(case, tree, d, kernel):
                continue
              if ctx.tier == 'quick' and case['fam'] == 'deep' and \
                  tree.full_depth + 1 < d < tree.depth - 1:
                continue
              if tree.layer(d).nnum > 6000 and ctx.tier == 'quick' and i % 4 and \
                  not case.get('wide'):
                continue
              h = HISTORIES[(i * 5 + d) % len(HISTORIES)]
              sub = SUBSETS[(i + d * 3) % 7] if i % 2 else SUBSETS[0]
              one(ctx, octree, tree, kind, kernel, stride, nempty, d, h, sub,
                  torch.float32 if (i + d) % 3 else torch.float64, i)
  ctx.trace()


def program(history, f, xs, gs, need_x):
  """ Runs a call history, returns the outputs and gradients it observes. """
  import torch
  x1, x2 = xs
  g1, g2 = gs
  extra = []

  def back(y, g):
    if y.requires_grad:
      y.backward(g)
  if history == 'plain':
    back(f(x1), g1)
  elif history == 'transposed':
    back(f(x1), g1.t().contiguous().t())
  elif history == 'expanded':
    y = f(x1)
    back(y, g1[:1, :1].expand_as(y))
  elif history == 'accumulate':
    back(f(x1), g1)
    back(f(x2), g2)
    back(f(x1), g2)
  elif history == 'joint':
    y1, y2 = f(x1), f(x2)
    s = (y1 * g1).sum() + (y2 * g2).sum()
    back(s, torch.ones_like(s))
  elif history == 'in order':
    y1, y2 = f(x1), f(x2)
    back(y1, g1)
    back(y2, g2)
  elif history == 'reverse':
    y1, y2 = f(x1), f(x2)
    back(y2, g2)
    back(y1, g1)
  elif history == 'chain':
    y = f(x1)
    if y.shape == x1.shape:
      y = f(y)
    back(y, g1)
  elif history == 'retain':
    y = f(x1)
    if y.requires_grad:
      y.backward(g1, retain_graph=True)
      y.backward(g2)
  elif history == 'same input':
    y = f(x1) + f(x1)
    back(y, g1)
  elif history == 'no_grad between':
    y = f(x1)
    with torch.no_grad():
      extra.append(f(x2))
    back(y, g1)
  elif history == 'two octrees':
    y1 = f(x1)
    extra.append(f(x2, other=True))
    back(y1, g1)
  return extra + [x.grad for x in xs]


def one(ctx, octree, tree, kind, kernel, stride, nempty, d, history, sub, dt, i):
  import torch
  many = tree.layer(d).nnum > 3000
  cin, cout = shapes.pair(i, tree, d, ((1, 1), (2, 3), (3, 2))[i % (2 if many else 3)])
  if history == 'chain':
    cout = cin
  t = layers.Twin(kind, cin, cout, kernel, stride, nempty, bias=sub[2] or i % 2 == 0,
                  salt=i, dt=dt)
  t.need(sub[1], sub[2])
  n, m, _ = t.in_out(tree, d)
  lo = 3 if history == 'chain' else 8
  sx, sw, sg = shapes.scales(i // 2) if history != 'chain' else (1, 1, 1)
  if history != 'chain':         # detours over float32 lose these
    sx, sg = (sx * shapes.fine(dt), sg) if i % 2 else (sx, sg * shapes.fine(dt))
  t.scale(sx, sw)
  xs = [dense.tdata(n, t.cin, i + s, -lo, lo) * sx for s in range(2)]
  gs = [dense.tdata(m, t.cout, i + 9 + s, -3, 3) * sg for s in range(2)]
  a = [shapes.layout(x.to(dt).clone(), i + s).requires_grad_(sub[0])
       for s, x in enumerate(xs)]
  b = [x.clone().requires_grad_(sub[0]) for x in xs]

  # a second octree for calls in between
  o2, t2 = octree, tree
  if history == 'two octrees':
    s2 = [[[0, 0, 0]]] * tree.batch_size
    o2 = shapes.build_batch(s2, tree.depth, tree.full_depth)
    o2.construct_all_neigh()
    t2 = ref.tree_from_leaves(s2, tree.depth, tree.full_depth)

  def cut(x, other):
    k = t2.layer(d).num(nempty)
    if not other:
      return x
    return torch.ones(k, x.shape[1], dtype=x.dtype) * x[:1].detach().sum()

  def lib(x, other=False):
    return t.layer(cut(x, other), o2 if other else octree, d)

  def twin(x, other=False):
    return t.dense(t2 if other else tree, cut(x, other), d)
  got = program(history, lib, a, [shapes.layout(g.to(dt), i // 7 + s)
                                   for s, g in enumerate(gs)], sub[0])
  want = program(history, twin, b, gs, sub[0])
  got += t.grads()
  want += [t.w.grad, None if t.b is None else t.b.grad]
  what = ('%s of layer %d, kernel %s, stride %d, nempty=%s, history "%s", '
          'gradients of %s, %s' % (kind, d, kernel, stride, nempty, history,
                                   [s for s, k in zip(('data', 'weights', 'bias'), sub)
                                    if k], dt))
  names = ['extra'] * (len(got) - 4) + ['data gradient', 'second data gradient',
                                        'weight gradient', 'bias gradient']
  for g, w, name in zip(got, want, names):
    ctx.check((g is None) == (w is None), lambda: '%s: %s is %s' % (
        what, name, 'missing' if g is None else 'present'))
    if g is not None:
      if history == 'chain' and dt == torch.float32:
        ctx.close(g, w, lambda: what + ': ' + name, 1e-5)
      else:
        ctx.equal(g, w, lambda: what + ': ' + name)
      ctx.check(g.dtype == dt, lambda: what + ': data type of ' + name)
  ctx.trans(len(got))
  ctx.state(kind, kernel, stride, nempty, d, history, sub, tree.layer(d).code)
  ctx.outcome(history, [None if g is None else float(g.double().abs().sum()) for g in got])
  ctx.sample({'layer': kind, 'kernel': kernel, 'stride': stride, 'nempty': nempty,
              'history': history, 'gradients': list(sub)})
