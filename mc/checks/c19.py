"""C19: stochastic depth keeps or drops whole samples, and only in training."""

import itertools
import numpy as np
from mc import ref, shapes
from mc.rng import Draws

ID = 'C19'
TECHNIQUE = ('exhaustive enumeration of the random draws (intercepted at the '
             'dispatcher) on the real layer; the set of draws that drop each sample '
             'must have exactly the configured measure')
BOUNDS = ('drop probabilities 1/8..7/8 and 1: all combinations of 8 draws (bin '
          'midpoints) per sample for batches of 1-3 samples, 64 draws for one '
          'sample, draws next to 0, 1 and the threshold; batches with empty and '
          'uneven samples, every layer of 4 octrees, 2 node modes, scaling on/off, '
          'given batch indices in any order, float32/float64/float16, gradients; '
          'evaluation mode and zero probability for all draws')
ASSUMPTIONS = ['randomness comes from uniform or Bernoulli draws of torch']

P = [k / 8 for k in range(1, 8)]
BATCHES = [[[[0, 0, 0]]], [[[0, 0, 0], [3, 3, 3]], [[1, 2, 1]]],
           [[[3, 1, 2]], [], [[0, 0, 0], [0, 0, 1], [2, 2, 2]]],
           [[], [[1, 1, 1]]]]


def cases(tier):
  out = []
  for b in range(len(BATCHES)):
    for d in range(0, 3):
      for nempty in (False, True):
        for scale in (True, False):
          out.append({'kind': 'joint', 'b': b, 'd': d, 'nempty': nempty,
                      'scale': scale})
        out.append({'kind': 'off', 'b': b, 'd': d, 'nempty': nempty})
    out.append({'kind': 'given', 'b': b})
  for p in P + [1 / 64, 63 / 64, 0.3, 0.1]:
    out.append({'kind': 'fine', 'p': p})
  out.append({'kind': 'one'})
  return out


def make(b):
  s = BATCHES[b]
  return shapes.build_batch(s, 2, 1), ref.tree_from_leaves(s, 2, 1)


def outcome(ctx, layer, x, octree, d, b, us, p, scale, batch_id=None):
  """ Runs the layer under the draws; returns which samples were dropped. """
  import torch
  x = x.clone().requires_grad_()
  keep = x.detach().clone()
  args = (x, octree, d) + (() if batch_id is None else (batch_id,))
  with Draws(us, cycle=True) as draws:
    y = layer(*args)
  ctx.trans()
  ctx.check(y.shape == x.shape and y.dtype == x.dtype, 'shape and type')
  f = (1 / (1 - p) if scale and p < 1 else 1.0)
  tol = {torch.float64: 1e-12, torch.float32: 1e-6, torch.float16: 4e-3}[x.dtype]
  g = torch.tensor(ref.idata(len(x), x.shape[1], 77, 1, 4)).to(x.dtype)
  if len(x):
    y.backward(g)
  dropped = set()
  for s in range(octree.batch_size):
    sel = torch.tensor(b == s)
    if not sel.any():
      continue
    ys, xs, gs = y[sel], x[sel], x.grad[sel]
    if bool((ys == 0).all()):
      dropped.add(s)
      ctx.equal(gs, np.zeros(tuple(gs.shape)), 'gradient of a dropped sample')
    else:
      ctx.close(ys, xs.detach().double() * f, lambda: 'features of a kept sample, '
                'drop probability %s, draws %s' % (p, us), tol)
      ctx.close(gs, g[sel].double() * f, 'gradient of a kept sample', tol)
  ctx.equal(x, keep, 'input modified')
  return frozenset(dropped)


def data(n, salt, dt):
  import torch
  x = ref.idata(n, 2, salt, 1, 8)          # never zero
  return shapes.layout(torch.tensor(x).to(dt), salt)


def run(case, ctx):
  import torch
  import ocnn
  kind = case['kind']
  mids = [(k + 0.5) / 8 for k in range(8)]
  if kind in ('joint', 'off'):
    octree, tree = make(case['b'])
    d, nempty = case['d'], case['nempty']
    b, _ = tree.layer(d).nodes(nempty)
    present = sorted(set(b.tolist()))
    size = tree.batch_size
    dt = (torch.float32, torch.float64, torch.float16)[(case['b'] + d) % 3]
    x = data(len(b), d, dt)
  if kind == 'joint':
    for p in P:
      if ctx.tier == 'quick' and size == 3 and p not in (0.125, 0.5, 0.75):
        continue
      layer = ocnn.nn.OctreeDropPath(p, nempty, case['scale'])
      count = {}
      for us in itertools.product(mids, repeat=size):
        drop = outcome(ctx, layer, x, octree, d, b, us, p, case['scale'])
        count[drop] = count.get(drop, 0) + 1
      k = int(round(p * 8))
      for r in range(len(present) + 1):
        for sub in itertools.combinations(present, r):
          want = k ** r * (8 - k) ** (len(present) - r) * 8 ** (size - len(present))
          ctx.check(count.get(frozenset(sub), 0) == want,
                    lambda: 'samples %s are dropped by %d of %d draws, expected %d '
                    '(drop probability %s)' % (sub, count.get(frozenset(sub), 0),
                                               8 ** size, want, p))
      ctx.state(case['b'], d, nempty, case['scale'], p)
      ctx.outcome(sorted((sorted(s), c) for s, c in count.items()))
    # always dropped
    layer = ocnn.nn.OctreeDropPath(1.0, nempty, case['scale'])
    for us in itertools.product((0.0, 0.5, 0.999), repeat=size):
      drop = outcome(ctx, layer, x, octree, d, b, us, 1.0, case['scale'])
      ctx.check(drop == frozenset(present), 'drop probability 1')
    ctx.sample({'batch': BATCHES[case['b']], 'layer': d, 'nempty': nempty})
  elif kind == 'off':
    for p, train in ((0.0, True), (0.0, False), (0.5, False), (1.0, False), (0.9, False)):
      for scale in (True, False):
        layer = ocnn.nn.OctreeDropPath(p, nempty, scale)
        layer.train(train)
        for us in itertools.product((0.0, 0.4, 0.95), repeat=size):
          with Draws(us, cycle=True):
            y = layer(x, octree, d)
          ctx.equal(y, x, lambda: 'probability %s, training %s' % (p, train), dtype=True)
          ctx.trans()
        # back in training mode, and out again
        layer.train()
        if p:
          with Draws([0.0, 0.0, 0.0], cycle=True):
            a = layer(x, octree, d)
          with Draws([0.99999, 0.99999], cycle=True):
            c = layer(x, octree, d)
          ctx.check(bool((a == 0).all()) != bool((c == 0).all()) or p == 1.0 or not len(x),
                    'no drop in training mode')
        layer.eval()
        with Draws([0.0], cycle=True):
          ctx.equal(layer(x, octree, d), x, 'evaluation after training')
        ctx.state('off', case['b'], d, nempty, p, train, scale)
    # the default arguments
    layer = ocnn.nn.OctreeDropPath()
    with Draws([0.0], cycle=True):
      ctx.equal(layer(data(tree.layer(d).nnum, 1, dt), octree, d),
                data(tree.layer(d).nnum, 1, dt), 'default layer')
  elif kind == 'given':
    octree, tree = make(case['b'])
    size = tree.batch_size
    for n in (1, 2, 4):
      for bid in itertools.product(range(size), repeat=n):
        b = np.array(bid)
        x = data(n, n, torch.float32)
        layer = ocnn.nn.OctreeDropPath(0.5, case['b'] % 2 == 0)
        count = {}
        for us in itertools.product((0.25, 0.75), repeat=size):
          drop = outcome(ctx, layer, x, octree, 2, b, us, 0.5, True, torch.tensor(b))
          count[drop] = count.get(drop, 0) + 1
        m = len(set(bid))
        ctx.check(len(count) == 2 ** m and set(count.values()) == {2 ** (size - m)},
                  'given batch indices %s' % (bid,))
        ctx.state('given', case['b'], bid)
  elif kind == 'fine':
    p = case['p']
    octree, tree = make(0)
    b, _ = tree.layer(2).nodes(False)
    x = data(len(b), 3, torch.float64)
    layer = ocnn.nn.OctreeDropPath(p)
    n = 64 if (p * 64) % 1 == 0 else 640
    us = [(k + 0.5) / n for k in range(n)]
    drops = [bool(outcome(ctx, layer, x, octree, 2, b, [u], p, True)) for u in us]
    ctx.check(sum(drops) == round(p * n), '%d of %d draws drop, probability %s' % (
        sum(drops), n, p))
    for u in (0.0, 1e-9, 1 - 1e-9, p, 1 - p):
      outcome(ctx, layer, x, octree, 2, b, [u], p, True)
    ctx.state('fine', p)
    ctx.outcome(sum(drops))
  elif kind == 'one':
    # one layer on octrees of different batch sizes in any order
    layer = ocnn.nn.OctreeDropPath(0.5)
    for t in itertools.product(range(4), repeat=3):
      for i in t:
        octree, tree = make(i)
        b, _ = tree.layer(2).nodes(False)
        x = data(len(b), i, torch.float32)
        us = [0.25 + 0.5 * ((j + i) % 2) for j in range(tree.batch_size)]
        drop = outcome(ctx, layer, x, octree, 2, b, us, 0.5, True)
        inv = outcome(ctx, layer, x, octree, 2, b, [1 - u for u in us], 0.5, True)
        ctx.check(drop | inv == set(b.tolist()) and not drop & inv,
                  'complementary draws drop complementary samples')
      ctx.state('one', t)
  ctx.trace()
