"""C42: gradients are differentiable themselves, with exact second derivatives."""

from mc import ref, shapes, dense, layers, blocks

ID = 'C42'
TECHNIQUE = ('bounded exhaustive exploration of the real layers differentiated twice, against '
             'twice differentiated dense convolutions and written-out normalisations, and '
             'against the forward pass for linear operations')
BOUNDS = ('the shape families of C08 up to 3000 voxels; 7 kinds of convolutions x 8 kernels x '
          '2 strides x 2 node modes with rotating layers, with and without bias, for all 7 '
          'non-empty subsets of (features, weights, incoming gradient) as the variables of '
          'the second derivative; group and instance normalisation; 16 linear operations; '
          'blocks of convolutions, normalisation and pooling in training and evaluation '
          'mode; two steps in one graph; convolutions in pieces are exact or raise an error')
ASSUMPTIONS = ['integer data in float64 for convolutions and linear operations: exact',
               'convolutions in several pieces may reject a second derivative']
CASE_LIMIT = 300

BLOCKS = [
    ('convbn', dict()), ('convbnrelu', dict(kernel='222', stride=2)),
    ('deconvbnrelu', dict(kernel='222', stride=2, nempty=True)),
    ('deconvbnrelu', dict(kernel='333')), ('conv1x1bnrelu', dict()),
    ('resblock', dict(cin=2, cout=4, bottleneck=2)),
    ('resblock', dict(cin=4, cout=4, nempty=True)),
    ('resblock2', dict(cin=2, cout=4, nempty=True)),
    ('resblock2', dict(cin=4, cout=4, bottleneck=2)),
    ('resblocks', dict(cin=2, cout=4, num=2, bottleneck=2)),
]
SMALL = [([[[0, 0, 0], [1, 1, 0], [3, 3, 3]]], 2, 1),
         ([[[0, 1, 2]], [], [[0, 0, 0], [0, 0, 1], [3, 0, 0]]], 2, 1),
         ([[[7, 7, 7], [0, 0, 0], [4, 3, 4]]], 3, 1)]


def cases(tier):
  out = []
  for s, (leaves, depth, full) in enumerate(SMALL):
    for kernel in ref.KERNELS:
      for kind in layers.KINDS:
        out.append({'kind': 'product', 'fam': 'leaves', 'leaves': leaves, 'depth': depth,
                    'full': full, 'build': 'batch', 'kernel': kernel, 'layer': kind,
                    'salt': s})
    out.append({'kind': 'pieces', 'fam': 'leaves', 'leaves': leaves, 'depth': depth,
                'full': full, 'build': 'batch', 'salt': s})
    for b in range(len(BLOCKS)):
      out.append({'kind': 'block', 'fam': 'leaves', 'leaves': leaves, 'depth': depth,
                  'full': full, 'build': 'batch', 'block': b, 'salt': s})
  for i, c in enumerate(shapes.op_cases(tier, builds=('batch', 'merge', 'grow'))):
    out.append(dict(c, kind='shape', salt=i))
  return out


def run(case, ctx):
  octree, tree = shapes.build(case)
  i = case['salt'] * 5
  kind = case['kind']
  if kind == 'block':
    block(case, ctx, octree, tree)
  elif kind == 'pieces':
    pieces(case, ctx, octree, tree)
  else:
    for stride in (1, 2):
      for name in (case['layer'],) if kind == 'product' else layers.KINDS:
        for d in layers.layers_of(tree, name, stride):
          if tree.batch_size * 8 ** d > 3000 or tree.layer(d).nnum > 1000:
            continue
          for nempty in (False, True):
            for r in range(4 if kind == 'product' or ctx.tier == 'thorough' else 1):
              i += 1
              conv(ctx, octree, tree, name,
                   case['kernel'] if kind == 'product' else list(ref.KERNELS)[i % 8],
                   stride, nempty, d, i)
    for d in range(1, tree.depth + 1):
      if tree.layer(d).nnum > 1000:
        continue
      for nempty in (False, True):
        linear(ctx, octree, tree, d, nempty, i)
        norm(ctx, octree, tree, d, nempty, i)
  ctx.trace()


SUBSETS = [(1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1)]


def second(f, variables, u, probes, pick):
  """ First gradients of <f, u>, and the gradients of their probes; None where nothing
  depends on the variable. """
  import torch
  y = f()
  on = [v for v in variables]
  first = torch.autograd.grad(y, on, u, create_graph=True, allow_unused=True)
  s = sum((g * p).sum() for g, p in zip(first, probes) if g is not None)
  todo = [v for v, p in zip(variables + [u], pick) if p]
  if not (torch.is_tensor(s) and s.requires_grad):
    return first, [None] * len(todo)
  return first, torch.autograd.grad(s, todo, allow_unused=True)


def conv(ctx, octree, tree, kind, kernel, stride, nempty, d, i):
  import torch
  cin, cout = ((1, 1), (2, 1), (1, 3), (2, 2))[i % 4]
  t = layers.Twin(kind, cin, cout, kernel, stride, nempty, i % 2 == 0, i, torch.float64)
  n, m, _ = t.in_out(tree, d)
  pick = SUBSETS[i % 7]
  what = '%s of layer %d, kernel %s, stride %d, nempty=%s, bias=%s, by %s' % (
      kind, d, kernel, stride, nempty, i % 2 == 0,
      [k for k, p in zip(('features', 'weights', 'gradient'), pick) if p])
  res = []
  for real in (True, False):
    x = dense.tdata(n, t.cin, i).requires_grad_()
    x = shapes.layout(x.detach(), i).requires_grad_() if real else x
    u = dense.tdata(m, t.cout, i + 1, -3, 3).requires_grad_()
    a, c = dense.tdata(n, t.cin, i + 2), dense.tdata(1, t.w.numel(), i + 3).view(t.w.shape)
    if real:
      ws = [p for p, _ in t.parts()]
      cs = list(c.split([p.shape[2] for p in ws], 2)) if len(ws) > 1 else [c]
      first, sec = second(lambda: t.layer(x, octree, d), [x] + ws, u, [a] + cs,
                          [pick[0]] + [pick[1]] * len(ws) + [pick[2]])
      # merge the parts of the weights again
      k = pick[0]
      first = [first[0], torch.cat(first[1:], 2)]
      if pick[1]:
        w = [torch.zeros_like(p) if v is None else v
             for v, p in zip(sec[k:k + len(ws)], ws)]
        sec = list(sec[:k]) + [torch.cat(w, 2)] + list(sec[k + len(ws):])
    else:
      first, sec = second(lambda: t.dense(tree, x, d), [x, t.w], u, [a, c], pick)
    like = [v for v, p in zip((x, t.w, u), pick) if p]
    res.append((list(first), [torch.zeros_like(v) if s is None else s
                              for s, v in zip(sec, like)]))
  for g, w, name in zip(res[0][0], res[1][0], ('features', 'weights')):
    ctx.equal(g.detach(), w.detach(), lambda: 'recorded gradient of the %s, %s' % (name, what))
  for j, (g, w) in enumerate(zip(res[0][1], res[1][1])):
    ctx.equal(g, w, lambda: 'second derivative %d of %s' % (j, what))
  ctx.trans(2)
  ctx.state(kind, kernel, stride, nempty, d, pick, tree.layer(d).code)
  ctx.outcome(kind, float(sum(w.abs().sum() for w in res[1][1])))


def pieces(case, ctx, octree, tree):
  """ Convolutions in pieces: the exact second derivative or an error. """
  import torch
  i = case['salt']
  for kind in ('conv', 'deconv', 'dwconv'):
    for stride in (1, 2):
      for nempty in (False, True):
        for d in layers.layers_of(tree, kind, stride):
          for r in (1, 2, 3, 5, 8, 13, 40):
            i += 1
            kernel = list(ref.KERNELS)[i % 8]
            t = layers.Twin(kind, 2, 2, kernel, stride, nempty, False, i, torch.float64,
                            max_buffer=r * 2 * len(ref.offsets(kernel)))
            n, m, _ = t.in_out(tree, d)
            x = dense.tdata(n, t.cin, i).requires_grad_()
            u = dense.tdata(m, t.cout, i + 1, -3, 3).requires_grad_()
            a, c = dense.tdata(n, t.cin, i + 2), \
                dense.tdata(1, t.w.numel(), i + 3).view(t.w.shape)
            w, = [p for p, _ in t.parts()]
            pick = SUBSETS[i % 7]
            what = '%s of layer %d, kernel %s, stride %d, nempty=%s, %d rows at a time' % (
                kind, d, kernel, stride, nempty, r)
            ctx.trans()
            ctx.state(what)
            try:
              first, sec = second(lambda: t.layer(x, octree, d), [x, w], u, [a, c], pick)
            except RuntimeError:
              ctx.note('rejected')
              continue
            ctx.note('exact')
            first0, sec0 = second(lambda: t.dense(tree, x, d), [x, t.w], u, [a, c], pick)
            for g, v in zip(first, first0):
              ctx.equal(g.detach(), v.detach(), 'recorded gradient of ' + what)
            for g, v in zip(sec, sec0):
              if g is None and v is None:
                continue
              z = torch.zeros_like(v if g is None else g)
              ctx.equal(z if g is None else g, z if v is None else v,
                        'second derivative of ' + what)


def linear(ctx, octree, tree, d, nempty, i):
  """ <A' u, a> by u is A a. """
  import torch
  import ocnn.nn as nn
  lay = tree.layer(d)
  n = lay.num(nempty)
  q = torch.tensor([[.3, -.7, .1, 0], [.99, .99, .99, 0], [-1, -1, -1, 0],
                    [0, 0.1, 0.77, tree.batch_size - 1]], dtype=torch.float64)
  ops = {
      'average pooling': lambda x: nn.OctreeAvgPool([3], 1, nempty)(x, octree, d),
      'strided average pooling': lambda x: nn.OctreeAvgPool([2], 2, nempty)(x, octree, d),
      'global pooling': lambda x: nn.OctreeGlobalPool(nempty)(x, octree, d),
      'gathering': lambda x: nn.octree2col(x, octree, d, '333', 1, nempty),
      'scattering': lambda x: nn.col2octree(x.unsqueeze(1) * torch.arange(
          1., 28, dtype=x.dtype).view(1, -1, 1), octree, d, '333', 1, nempty),
      'voxels': lambda x: nn.octree2voxel(x, octree, d, nempty),
      'alignment': lambda x: nn.octree_align(x, octree, octree, d, nempty),
      'linear interpolation': lambda x: nn.OctreeInterp('linear', nempty)(x, octree, d, q),
      'nearest interpolation': lambda x: nn.OctreeInterp('nearest', nempty)(x, octree, d, q),
  }
  if nempty:
    ops['padding'] = lambda x: nn.octree_pad(x, octree, d)
  else:
    ops['depadding'] = lambda x: nn.octree_depad(x, octree, d)
  if d < tree.depth:
    for m in ('linear', 'nearest'):
      ops['%s upsampling' % m] = lambda x, m=m: nn.OctreeUpsample(m, nempty)(x, octree, d)
    idx = torch.tensor(ref.idata(lay.nnum_nempty, 2, i, 0, 7))
    ops['unpooling'] = lambda x: nn.octree_max_unpool(x, idx, octree, d, nempty)
  if d > 1 and blocks.poolable(tree, d, nempty):
    # distinct values: the maxima are the same nearby
    ops['max pooling'] = lambda x: nn.OctreeMaxPool(nempty)(x, octree, d)
  for k, (name, f) in enumerate(ops.items()):
    x = torch.tensor(ref.idata(n, 2, i + k), dtype=torch.float64)
    if name == 'max pooling':
      x = torch.arange(n * 2, dtype=torch.float64).view(n, 2) * (1 if i % 2 else -1)
    x.requires_grad_()
    a = torch.tensor(ref.idata(n, 2, i + k + 7), dtype=torch.float64)
    y = f(x)
    u = torch.tensor(ref.idata(y.numel(), 1, i + k + 9)[:, 0],
                     dtype=torch.float64).reshape(y.shape).requires_grad_()
    g, = torch.autograd.grad(y, x, u, create_graph=True)
    what = lambda: '%s of layer %d, nempty=%s' % (name, d, nempty)
    if y.numel() == 0:
      continue
    got = torch.autograd.grad((g * a).sum(), [u, x], allow_unused=True)
    if name == 'max pooling':
      with torch.no_grad():
        want = f(x + a * 2.0 ** -10) - f(x)
        want = want * 2.0 ** 10
    else:
      with torch.no_grad():
        want = f(a)
    ctx.close(got[0], want, lambda: 'second derivative of the %s by the gradient' % what(),
              1e-9)
    if got[1] is not None:
      ctx.equal(got[1], torch.zeros_like(x),
                lambda: 'second derivative of the %s by the features' % what())
    ctx.trans()
    ctx.state(name, d, nempty, lay.code)


def norm(ctx, octree, tree, d, nempty, i):
  """ Group normalisation, written out per sample. """
  import torch
  import ocnn.nn as nn
  lay = tree.layer(d)
  n = lay.num(nempty)
  b = torch.tensor(lay.b[lay.nempty] if nempty else lay.b)
  C, G = ((2, 1), (4, 2), (3, 3), (6, 2))[i % 4]
  inst = i % 4 == 2
  mod = (nn.OctreeInstanceNorm(C, nempty) if inst else nn.OctreeGroupNorm(C, G, nempty)
         ).double()
  w = torch.tensor(ref.idata(1, C, i, 1, 5), dtype=torch.float64)
  with torch.no_grad():
    mod.weights.copy_(w)
    mod.bias.copy_(w - 3)
  x = torch.tensor(ref.idata(n, C, i + 1), dtype=torch.float64)
  x = (x + torch.arange(n).view(-1, 1) % 7 * 0.37).requires_grad_()
  a = torch.tensor(ref.idata(n, C, i + 2), dtype=torch.float64)
  u = torch.tensor(ref.idata(n, C, i + 3), dtype=torch.float64).requires_grad_()
  eps = mod.eps
  wr = w.clone().requires_grad_()

  def written():
    out = torch.zeros_like(x)
    for s in range(tree.batch_size):
      rows = torch.nonzero(b == s).view(-1)
      if len(rows) == 0:
        continue
      v = x[rows].view(len(rows), G, C // G)
      mean = v.mean((0, 2), keepdim=True)
      var = ((v - mean) ** 2).mean((0, 2), keepdim=True)
      v = ((v - mean) / torch.sqrt(var + eps)).view(len(rows), C)
      out = out.index_put((rows,), v * wr + (w - 3))
    return out
  # rows with a spread: otherwise eps decides
  for s in range(tree.batch_size):
    v = x.detach()[b == s].view(-1, G, C // G)
    if 0 < len(v) < 4 or len(v) and float(v.permute(1, 0, 2).flatten(1).var(1, unbiased=False).min()) < 0.2:
      ctx.note('no_spread')
      return
  res = []
  for f, p in ((lambda: mod(x, octree, d), mod.weights), (written, wr)):
    first, sec = second(f, [x, p], u, [a, w.flip(1)], (1, 1, 1))
    res.append(list(first) + [torch.zeros_like(v) if s is None else s
                              for s, v in zip(sec, (x, p, u))])
  tol = 1e-3     # eps also enters the number of nodes
  big = 10 + max(float(v.detach().abs().max()) for v in res[1] if v.numel())
  for j, (g, v) in enumerate(zip(*res)):
    ctx.close(g.detach() / big, v.detach() / big, lambda: 'derivative %d of the '
              'norm of %d channels in %d groups, layer %d, nempty=%s' % (j, C, G, d, nempty),
              tol)
  ctx.trans(2)
  ctx.state('norm', C, G, d, nempty, lay.code)


def block(case, ctx, octree, tree):
  """ A gradient penalty on a block, against the written-out block. """
  import torch
  from mc.checks import c33
  name, kw = BLOCKS[case['block']]
  c = c33.conf(name, kw.get('cin', 2), kw.get('cout', 3),
               **{k: v for k, v in kw.items() if k not in ('cin', 'cout')})
  for train in (True, False):
    for d in c33.layers(c, tree):
      for salt in range(1 if ctx.tier == 'quick' else 6):
        salt += case['salt'] + 3 * d
        no = name in blocks.NOOCTREE
        n = 7 if no else tree.layer(d).num(c['nempty'])
        rows = n if no else tree.layer(blocks.out_depth(c, d)).num(c['nempty'])
        if rows < 3 or n < 3 or n > 400:
          continue
        mod = blocks.make(c).double()
        blocks.fill(mod, salt)
        mod.train(train)
        st = blocks.State(mod)
        x = c33.data(c, n, salt).requires_grad_()
        xr = x.detach().clone().requires_grad_()
        out = []
        for k in range(2):
          v, ps = (x, dict(mod.named_parameters())) if k == 0 else (xr, st.p)
          if k == 0:
            y = mod(v) if no else mod(v, octree, d)
          else:
            y = blocks.BLOCKS[name](st, '', tree, v, d, c)
          u = torch.tensor(ref.idata(*y.shape, salt + 1, -4, 4), dtype=torch.float64)
          g, = torch.autograd.grad(y, v, u, create_graph=True)
          loss = (g ** 2).mean() + (y * u).mean()
          names = sorted(ps)
          grads = torch.autograd.grad(loss, [v] + [ps[q] for q in names],
                                      allow_unused=True)
          out.append([torch.zeros_like(q) if s is None else s for s, q in
                      zip(grads, [v] + [ps[q] for q in names])] + [loss.detach()])
        for q, g, w in zip(['the features'] + names + ['the value'], *out):
          big = 1 + float(w.abs().max())
          ctx.close(g / big, w / big, lambda: 'gradient penalty of %r, layer %d, train=%s, '
                    'by %s' % (c, d, train, q), 1e-6)
        ctx.trans(2)
        ctx.state(c, d, train, salt)
        ctx.outcome(name, train, float(out[1][-1]))
