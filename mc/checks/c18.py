"""C18: group and instance normalisation use only statistics of the same sample."""

import itertools
import numpy as np
from mc import ref, shapes

ID = 'C18'
TECHNIQUE = ('bounded exhaustive exploration of the real layers over batch '
             'compositions x configurations, against per-sample statistics')
BOUNDS = ('all ordered batches of up to 3 (4 thorough) of 6 samples (no point, one '
          'cell, few cells, full, uneven) x every layer x 2 node modes x channel '
          'counts 1,2,3,4,6 with all group divisors x offsets and scales of the '
          'data x float32/float64; each sample compared with its result alone; the '
          'shape families of C08 with rotating configurations'
          '; gradients of data and parameters; memory layouts; up to 256 channels'
          ' in up to 96 groups')
ASSUMPTIONS = ['tolerance covers eps = 1e-5 added to variance and node count']

CONF = [(c, g) for c in (1, 2, 3, 4, 6) for g in range(1, c + 1) if c % g == 0]
MANY = [(64, 32), (64, 8), (33, 11), (128, 1), (96, 96), (256, 4)]


def alphabet(depth):
  n = 1 << depth
  return [[], [[0, 0, 0]], [[n - 1, 0, 1], [1, 1, 1], [0, n - 1, n - 1]],
          shapes.cells(depth), shapes.subset([0, 0, 0], 0x6B), [[n - 1] * 3, [0] * 3]]


def cases(tier):
  out = []
  for depth, full in ((1, 1), (2, 1), (3, 2)):
    for k in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
      for t in itertools.product(range(6), repeat=k):
        if depth == 3 and (k > 2 or 3 in t) and sum(t) % 4:
          continue
        out.append({'kind': 'batch', 'depth': depth, 'full': full, 't': list(t)})
  for i, c in enumerate(shapes.op_cases(tier) + shapes.deep_cases(tier)):
    out.append(dict(c, kind='shape', salt=i))
  return out


def run(case, ctx):
  import torch
  if case['kind'] == 'shape':
    octree, tree = shapes.build(case, neigh=False)
    i = case['salt']
    for d in range(tree.depth + 1):
      for nempty in (False, True):
        i += 1
        conf = CONF[i % len(CONF)]
        if i % 5 == 4 and tree.layer(d).nnum <= 600:
          conf = MANY[i // 5 % len(MANY)]
        one(ctx, octree, tree, d, nempty, *conf, i,
            torch.float32 if i % 2 else torch.float64)
    ctx.trace()
    return
  depth, full, t = case['depth'], case['full'], case['t']
  alpha = alphabet(depth)
  octree = shapes.build_batch([alpha[i] for i in t], depth, full)
  tree = ref.tree_from_leaves([alpha[i] for i in t], depth, full)
  alone = {i: (shapes.build_one(alpha[i], depth, full),
               ref.tree_from_leaves([alpha[i]], depth, full)) for i in set(t)}
  i = sum(t)
  for d in range(0, depth + 1):
    for nempty in (False, True):
      confs = CONF if len(t) < 3 else CONF[i % 3::3]
      for c, g in confs:
        i += 1
        dt = torch.float32 if i % 3 else torch.float64
        out, layer, x, b = one(ctx, octree, tree, d, nempty, c, g, i, dt)
        for s in range(len(t)):
          if (b == s).any() and (len(t) < 3 or s == i % len(t)):
            sel = torch.tensor(b == s)
            mine = layer(x[sel], alone[t[s]][0], d)
            ctx.close(out[sel], mine, lambda: 'sample %d of batch %s alone, layer %d, '
                      'nempty=%s, %d channels in %d groups' % (s, t, d, nempty, c, g),
                      1e-5)
            ctx.trans()
  ctx.trace()
  ctx.sample({'batch': t, 'depth': depth, 'nodes': [l.nnum for l in tree.layers]})


def gradient(ctx, layer, leaf, y, b, g, i, dt, what):
  """ Gradients of data and parameters against an autograd reference per sample. """
  import torch
  c = leaf.shape[1]
  cot = torch.tensor(ref.idata(len(b), c, i + 9, -4, 4)).double()
  y.backward(shapes.layout(cot.to(dt), i))
  x = leaf.detach().double().requires_grad_()
  w = layer.weights.detach().double().requires_grad_()
  beta = layer.bias.detach().double().requires_grad_()
  bt = torch.tensor(b)
  parts, ok = torch.zeros(len(b), c, dtype=torch.float64), np.zeros((len(b), c), bool)
  for s in sorted(set(b.tolist())):
    r = (bt == s).nonzero()[:, 0]
    for j in range(g):
      ch = torch.arange(j * c // g, (j + 1) * c // g)
      m = x[r][:, ch]
      std = (m.var(unbiased=False) + 1e-5).sqrt()
      parts = parts.index_put((r[:, None], ch[None]), (m - m.mean()) / std)
      ok[np.ix_(r.numpy(), ch.numpy())] = float(std.detach()) > 0.3
  (parts * w + beta).backward(cot)
  u = 1 + float(x.grad[torch.tensor(ok)].abs().max()) if ok.any() else 1
  ctx.close((leaf.grad.double() / u).numpy()[ok], (x.grad / u).numpy()[ok],
            lambda: 'gradient of the features, ' + what, 2e-3)
  if ok.all():
    u = 1 + float(w.grad.abs().max())
    ctx.close(layer.weights.grad / u, w.grad / u, lambda: 'gradient of the weights, ' + what,
              2e-3)
  u = 1 + float(beta.grad.abs().max())
  ctx.close(layer.bias.grad / u, beta.grad / u, lambda: 'gradient of the bias, ' + what, 1e-4)


def one(ctx, octree, tree, d, nempty, c, g, i, dt):
  import torch
  import ocnn
  b, _ = tree.layer(d).nodes(nempty)
  x = ref.idata(len(b), c, i, -4, 4).astype(float)
  if i % 4 == 1:
    x = x + 300.0 * (1 + b[:, None])       # samples with very different means
  if i % 4 == 2:
    x = x * 10.0 ** (2 * (b[:, None] % 3) - 2)
  layer = ocnn.nn.OctreeInstanceNorm(c, nempty) if g == c and i % 2 else \
      ocnn.nn.OctreeGroupNorm(c, g, nempty)
  layer = layer.to(dt)
  w, bias = np.ones(c), np.zeros(c)
  if i % 5:
    w, bias = ref.idata(1, c, i, 1, 4)[0], ref.idata(1, c, i + 1)[0]
    with torch.no_grad():
      layer.weights.copy_(torch.tensor(w).view(1, -1))
      layer.bias.copy_(torch.tensor(bias).view(1, -1))
  if i % 2:
    layer.eval()
  xt = torch.tensor(x, dtype=dt)
  x = xt.double().numpy()
  leaf = shapes.layout(xt, i // 2).requires_grad_()
  y = layer(leaf, octree, d)
  out = y.detach()
  want, tol = np.zeros(x.shape), np.zeros(x.shape)
  for s in range(tree.batch_size):
    for j in range(g):
      ch = slice(j * c // g, (j + 1) * c // g)
      m = x[b == s][:, ch]
      if m.size == 0:
        continue
      mean, var = m.mean(), m.var()
      std = np.sqrt(var + 1e-5)
      r = np.where(b == s)[0]
      want[r, ch] = (m - mean) / std
      # 1e-5 on the count, rounding of the mean
      eps = 1e-5 / m.size + (4e-7 if dt == torch.float32 else 0)
      tol[r, ch] = 2e-4 + 3 * (np.abs(m).max() * eps) / std + \
          3 * (np.abs(m).max() * eps / std) ** 2
  want = want * w + bias
  tol = tol * np.abs(w) * (1 + np.abs(want))
  got = out.double().numpy()
  ctx.check(got.shape == want.shape and out.dtype == dt, 'shape and type')
  bad = ~(np.abs(got - want) <= tol)
  if bad.any():
    p = tuple(np.argwhere(bad)[0])
    ctx.fail('layer %d, nempty=%s, %d channels in %d groups, %s: %r at %s, expected '
             '%r +- %g' % (d, nempty, c, g, dt, got[p], list(p), want[p], tol[p]))
  if len(b) and i % 4 in (0, 3):
    gradient(ctx, layer, leaf, y, b, g, i, dt, 'layer %d, nempty=%s, %d channels in %d '
             'groups, %s' % (d, nempty, c, g, dt))
  ctx.trans(len(b))
  ctx.state(d, nempty, c, g, b, i % 4)
  ctx.outcome(len(b), c, g)
  return out, layer, xt, b
