"""C33: composite blocks equal the composition of their documented parts."""

import copy
import itertools
import numpy as np
from mc import ref, shapes, blocks

ID = 'C33'
TECHNIQUE = ('exhaustive exploration of block configurations x training / evaluation '
             'histories on the real modules, against the documented composition written '
             'out in float64')
BOUNDS = ('11 block classes x kernels, strides, channels, bottlenecks, node modes, block '
          'counts 1 to 3 and checkpoint settings x all histories of 3 steps over '
          '{train, eval} with different data and alternating octrees, input with and '
          'without gradient; outputs, running statistics and all gradients compared, '
          'every step also without gradient recording; '
          'the shape families of C08 with rotating configurations')
ASSUMPTIONS = ['running statistics under re-computation checkpoints are not compared '
               '(they are updated again by the re-computation, as in torch itself)',
               'training needs at least two rows (torch rejects one)']
CASE_LIMIT = 300

KERNELS = ('333', '222', '311', '131', '113', '331', '313', '133')
HISTORIES = list(itertools.product((True, False), repeat=3))


def conf(block, cin, cout, **kw):
  c = {'block': block, 'cin': cin, 'cout': cout, 'kernel': '333', 'stride': 1,
       'nempty': False, 'bottleneck': 1, 'num': 1, 'resblk': 1, 'ckpt': False,
       'bias': False}
  c.update(kw)
  return c


def configs():
  out = []
  for b in ('convbn', 'convbnrelu', 'deconvbnrelu'):
    for k, s, n in itertools.product(KERNELS, (1, 2), (False, True)):
      for a in ((2, 3), (1, 1)) if k in ('333', '311') else ((2, 3),):
        out.append(conf(b, *a, kernel=k, stride=s, nempty=n))
  for a, bias in itertools.product(((2, 3), (1, 1), (3, 2)), (False, True)):
    out.append(conf('conv1x1', *a, bias=bias))
  for b, a in itertools.product(('conv1x1bn', 'conv1x1bnrelu'), ((2, 3), (1, 1), (3, 2))):
    out.append(conf(b, *a))
  for a in ((2, 3), (4, 3), (6, 1)):
    out.append(conf('fcbnrelu', *a))
  for b, a, s, n in itertools.product(('resblock', 'resblock2'),
                                      ((4, 4), (2, 4), (8, 4), (1, 1)), (1, 2),
                                      (False, True)):
    for k in (1, 2, 4):
      if a[1] >= k:
        out.append(conf(b, *a, stride=s, nempty=n, bottleneck=k))
  # many channels
  out += [conf('convbnrelu', 64, 33), conf('convbn', 8, 130, kernel='222', stride=2),
          conf('deconvbnrelu', 40, 64, kernel='222', stride=2, nempty=True),
          conf('conv1x1bnrelu', 96, 72), conf('conv1x1', 257, 16, bias=True),
          conf('fcbnrelu', 128, 64), conf('resblock', 32, 64, bottleneck=4, stride=2),
          conf('resblock2', 64, 64, bottleneck=2, nempty=True),
          conf('resblocks', 16, 48, num=2, resblk=1, bottleneck=4)]
  # long chains
  out += [conf('resblocks', 2, 2, num=12, resblk=r, nempty=r == 2) for r in (1, 2)]
  # the narrowest bottleneck, and one that does not divide the width
  for b, (a, k) in itertools.product(('resblock', 'resblock2'), (
      ((2, 2), 2), ((3, 2), 2), ((4, 3), 3), ((2, 5), 2), ((3, 7), 4), ((1, 9), 5))):
    out.append(conf(b, *a, bottleneck=k, nempty=k % 2 == 0))
  for num, r, a, k, n, c in itertools.product((1, 2, 3), (1, 2), ((4, 4), (2, 4)),
                                              (1, 2), (False, True), (False, True)):
    if k == 2 and num == 2:
      continue
    out.append(conf('resblocks', *a, num=num, resblk=r, bottleneck=k, nempty=n, ckpt=c))
  return out


LEAVES = [
    (2, 1, [[[0, 0, 0], [3, 3, 3], [3, 3, 2], [1, 2, 3]], [[0, 3, 1]]]),
    (2, 2, [shapes.subset([0, 1, 1], 0x9D), [], [[3, 0, 0], [0, 0, 0]]]),
    (3, 2, [[[0, 0, 0], [7, 7, 7], [3, 4, 3], [4, 4, 3]]]),
]


def cases(tier):
  out = []
  for i, c in enumerate(configs()):
    out.append({'kind': 'conf', 'conf': c, 'salt': i})
  conf_ = configs()
  n = 0
  for i, c in enumerate(shapes.op_cases(tier, builds=('batch', 'merge', 'grow'))):
    if tier == 'quick' and i % 2:
      continue
    picks = []
    for _ in range(3 if tier == 'quick' else 12):
      picks.append(conf_[(n * 37 + 11) % len(conf_)])
      n += 1
    out.append(dict(c, kind='shape', salt=i, confs=picks))
  return out


def layers(c, tree):
  lo = {1: 1, 2: 1}[c['stride']]
  hi = tree.depth
  if c['block'] == 'deconvbnrelu' and c['stride'] == 2:
    lo, hi = 0, tree.depth - 1
  out = []
  for d in range(lo, hi + 1):
    if c['stride'] == 2 and c['block'].startswith('resblock') and \
        (d < 2 or not blocks.poolable(tree, d, c['nempty'])):
      continue
    out.append(d)
  return out


def run(case, ctx):
  if case['kind'] == 'shape':
    octree, tree = shapes.build(case)
    for j, c in enumerate(case['confs']):
      ds = layers(c, tree)
      ds = [d for d in ds if tree.layer(d).num(c['nempty']) <= 3000]
      if ds:
        d = ds[(case['salt'] + j) % len(ds)]
        history(ctx, c, [(octree, tree, d)], (True, False), case['salt'] + j)
    ctx.trace()
    return
  c, salt = case['conf'], case['salt']
  where = []
  for depth, full, leaves in LEAVES:
    octree = shapes.build_batch(leaves, depth, full)
    octree.construct_all_neigh()
    tree = ref.tree_from_leaves(leaves, depth, full)
    ds = layers(c, tree)
    if ds:
      where.append((octree, tree, ds))
  todo = HISTORIES if ctx.tier == 'thorough' else \
      [(True, True, False), (False, True, False), (True, False, True), (False, False, True)]
  for h, hist in enumerate(todo):
    w = where[h % len(where):] + where[:h % len(where)]
    w = [(o, t, ds[(h + salt) % len(ds)]) for o, t, ds in w]
    history(ctx, c, w, hist, salt + h)
  ctx.trace()
  ctx.sample({'conf': c})


def data(c, n, salt):
  """ Distinct values per channel, so that no two children tie. """
  import torch
  x = torch.tensor(ref.idata(n, c['cin'], salt, -32, 31), dtype=torch.float64) / 16
  return x + torch.arange(1, n + 1, dtype=torch.float64).view(-1, 1) / (1024 * max(n, 1))


def history(ctx, c, where, hist, salt):
  import torch
  block = blocks.make(c).double()
  blocks.fill(block, salt)
  loose = 1
  if salt % 5 == 2:      # large shifts, scales and statistics
    loose = 1e4
    with torch.no_grad():
      for n, t in block.state_dict().items():
        if t.is_floating_point() and t.dim() == 1:
          t.mul_(4096 if n.endswith('running_var') else 200)
  # widths
  if not c['ckpt'] and c['block'].startswith('resblock') and c['block'] != 'resblocks':
    w = {n: tuple(p.shape) for n, p in block.named_parameters()}
    mid = int(c['cout'] / c['bottleneck'])
    want = {'conv3x3.conv.weights': (27, mid, mid)} if c['block'] == 'resblock' else \
        {'conv3x3a.conv.weights': (27, c['cin'], mid),
         'conv3x3b.conv.weights': (27, mid, c['cout'])}
    ctx.check(all(w.get(n) == s for n, s in want.items()),
              lambda: 'widths of %r: %s' % (c, w))
  st = blocks.State(block)
  for step, train in enumerate(hist):
    octree, tree, d = where[step % len(where)]
    no = c['block'] in blocks.NOOCTREE
    n = (2 + (salt + step) % 5) if no else tree.layer(d).num(c['nempty'])
    rows = n if no else tree.layer(blocks.out_depth(c, d)).num(c['nempty'])
    if rows < 2 or n < 1:
      continue
    block.train(train)
    if c['ckpt']:
      st = blocks.State(block)
    st.train = train
    x = data(c, n, salt + 7 * step)
    shape = (n, c['cin'] // 2, 2) if c['block'] == 'fcbnrelu' and c['cin'] % 2 == 0 \
        and step % 2 == 0 else x.shape
    need = (salt + step) % 2 == 0
    xg = shapes.layout(x.reshape(shape).clone(), salt + step).requires_grad_(need)
    xr = x.clone().requires_grad_()
    block.zero_grad()
    for p in st.p.values():
      p.grad = None
    name = lambda: '%r, step %d of %r, depth %d' % (c, step, hist, d)
    # the same step without recording, on a copy
    twin, xn = copy.deepcopy(block), x.reshape(shape).clone()
    with (torch.no_grad if (salt + step) // 2 % 2 else torch.inference_mode)():
      other = twin(xn) if no else twin(xn, octree, d)
    ctx.equal(xn, x.reshape(shape), lambda: 'the input (no recording) after ' + name())
    out = block(xg) if no else block(xg, octree, d)
    ctx.close(other.clone(), out.detach(), lambda: 'output without recording of ' + name(),
              tol=1e-9)
    want = blocks.BLOCKS[c['block']](st, '', tree, xr, d, c)
    ctx.check(out.dtype == torch.float64, lambda: 'the output type of ' + name())
    ctx.close(out, want, lambda: 'output of ' + name(), tol=1e-8)
    ctx.equal(xg, x.reshape(shape), lambda: 'the input after ' + name())
    cot = torch.tensor(ref.idata(*want.shape, salt + step, -4, 4), dtype=torch.float64)
    out.backward(shapes.layout(cot, salt // 2))
    want.backward(cot)
    if need:
      ctx.close(xg.grad.reshape(x.shape), xr.grad, lambda: 'input gradient of ' + name(),
                tol=1e-7 * loose)
    params = dict(block.named_parameters())
    ctx.check(set(params) == set(st.p), lambda: 'parameter names of ' + name())
    for k, p in params.items():
      ctx.check(p.grad is not None, lambda: 'no gradient of %s in %s' % (k, name()))
      w = st.p[k].grad
      ctx.close(p.grad, torch.zeros_like(p) if w is None else w,
                lambda: 'gradient of %s in %s' % (k, name()), tol=1e-7 * loose)
    if not c['ckpt']:
      state = block.state_dict()
      for k, b in st.buf.items():
        ctx.close(state[k], b, lambda: '%s after %s' % (k, name()), tol=1e-9)
    ctx.state(c['block'], out)
    ctx.trans()
    ctx.outcome(c['block'], train, out.shape)
  # single precision, stored statistics
  block.float().eval()
  st = blocks.State(block)
  st.train = False
  octree, tree, d = where[-1]
  no = c['block'] in blocks.NOOCTREE
  n = 3 if no else tree.layer(d).num(c['nempty'])
  if n:
    x = data(c, n, salt)
    x32 = x.float().requires_grad_(salt % 2 == 0)
    out = block(x32) if no else block(x32, octree, d)
    want = blocks.BLOCKS[c['block']](st, '', tree, x32.detach().double(), d, c)
    ctx.check(out.dtype == torch.float32, lambda: 'the output type of %r' % (c,))
    ctx.close(out, want, lambda: 'single precision output of %r' % (c,), tol=1e-3)
