"""C38: the provided networks compute their documented architecture."""

import copy
import itertools
from collections import Counter
import numpy as np
from mc import ref, shapes, blocks, nets
from mc.checks.c37 import signal

ID = 'C38'
TECHNIQUE = ('exhaustive exploration of network configurations x octrees x training / '
             'evaluation histories on the real networks, against the documented '
             'architecture written out in float64')
BOUNDS = ('LeNet (1-3 stages), ResNet (1-4 stages, 1-3 blocks), SegNet (1-3 stages), UNet '
          '(as provided and 4 other layouts), HRNet (1-4 stages), AutoEncoder, OUNet '
          '(depth 2-4, full depth 1-2), Image2Shape x node modes x interpolations x '
          'octrees of 1-3 samples built in three ways x evaluation, training step, '
          'evaluation after it; outputs, statistics and all gradients')
ASSUMPTIONS = ['dropout is switched off for the training steps',
               'the image encoder is the one of torchvision',
               'training needs at least two rows (torch rejects one)',
               'predicted labels that differ by less than 1e-7 are not followed',
               'a network in non-empty mode does not pool above the full depth']
CASE_LIMIT = 400


def confs():
  out = []
  for st, ne, io in itertools.product((1, 2, 3), (False, True), ((4, 5), (1, 1))):
    out.append(dict(net='lenet', stages=st, nempty=ne, io=io, depth=st + 2, full=2))
  for st, num, ne in itertools.product((1, 2, 3, 4), (1, 2, 3), (False, True)):
    if num == 3 and st > 2:
      continue
    d = max(st + 1, 3)
    out.append(dict(net='resnet', stages=st, num=num, nempty=ne, io=(4, 5), depth=d, full=1))
  out.append(dict(net='resnet', stages=3, num=1, nempty=False, io=(3, 2), depth=3, full=2))
  for st, ne, ip in itertools.product((1, 2, 3), (False, True), ('linear', 'nearest')):
    d = max(st + 1, 3)
    out.append(dict(net='segnet', stages=st, nempty=ne, interp=ip, io=(4, 3), depth=d, full=1))
  out.append(dict(net='segnet', stages=2, nempty=False, interp='linear', io=(1, 2), depth=3,
                  full=2))
  for lay, ne, ip in itertools.product(range(5), (False, True), ('linear', 'nearest')):
    enc, dec, _, _ = LAYOUTS[lay]
    out.append(dict(net='unet', layout=lay, nempty=ne, interp=ip, io=(4, 3), enc=enc, dec=dec,
                    resblk=LAYOUTS[lay][2], depth=len(enc) + 1, full=1))
  for st, ne in itertools.product((1, 2, 3), (False, True)):
    out.append(dict(net='hrnet', stages=st, nempty=ne, io=(4, 5), depth=st + 2, full=2))
  for ne in (False, True):
    out.append(dict(net='hrnet', stages=4, nempty=ne, io=(3, 2), depth=6, full=2))
  for net in ('ae', 'ounet', 'i2s'):
    for (d, f), code in itertools.product(((2, 1), (3, 1), (3, 2), (4, 2), (2, 2)), (8, 64)):
      if (net == 'ounet' and code == 64) or (net == 'i2s' and (d, f) not in
                                             ((2, 1), (3, 1), (3, 2))):
        continue
      out.append(dict(net=net, depth=d, full=f, code=code, nempty=False,
                      out=3 + d % 2, feature=('ND', 'P', 'L')[(d + f) % 3]))
  return out


# encoder blocks, decoder blocks, kind of residual block, (widths, bottleneck)
LAYOUTS = [
    ([2, 3, 4, 6], [2, 2, 2, 2], 2, None),
    ([1, 2], [2, 1], 1, ([8, 12, 16], [16, 12, 8], 4)),
    ([2, 1, 1], [1], 2, ([6, 8, 10, 12], [12, 7], 2)),
    ([1], [1], 1, ([8, 8], [8, 4], 1)),
    ([1, 1, 2], [1, 3], 2, ([4, 6, 8, 8], [8, 6, 5], 1)),
]


def cases(tier):
  out = []
  for i, c in enumerate(confs()):
    parts = 1 if cost(c) < 4096 else 3
    for part in range(parts if tier == 'quick' else 6):
      out.append({'conf': c, 'salt': i, 'part': [part, parts if tier == 'quick' else 6]})
  out.sort(key=lambda k: -cost(k['conf']))
  # the largest networks do not all run at the same time
  large = [k for k in out if k['conf'].get('layout') == 0]
  rest = [k for k in out if k['conf'].get('layout') != 0]
  for i, k in enumerate(large):
    rest.insert(2 * i, k)
  return rest


def cost(c):
  return {'hrnet': 100, 'unet': 90 if c.get('layout') == 0 else 10}.get(c['net'], 1) * \
      8 ** c['depth']


def make(c):
  import torch
  import ocnn
  m = ocnn.models
  torch.manual_seed(5)
  if c['net'] == 'lenet':
    model = m.LeNet(*c['io'], c['stages'], c['nempty'])
  elif c['net'] == 'resnet':
    model = m.ResNet(*c['io'], c['num'], c['stages'], c['nempty'])
  elif c['net'] == 'segnet':
    model = m.SegNet(*c['io'], c['stages'], c['interp'], c['nempty'])
  elif c['net'] == 'unet':
    enc, dec, blk, wide = LAYOUTS[c['layout']]
    cls = m.UNet
    if wide:
      class Other(m.UNet):
        def config_network(self):
          self.encoder_channel, self.decoder_channel, self.bottleneck = wide
          self.encoder_blocks, self.decoder_blocks = enc, dec
          self.head_channel = 24
          self.resblk = (ocnn.modules.OctreeResBlock, ocnn.modules.OctreeResBlock2)[blk - 1]
      cls = Other
    model = cls(*c['io'], c['interp'], c['nempty'])
  elif c['net'] == 'hrnet':
    model = m.HRNet(*c['io'], c['stages'], nempty=c['nempty'])
  else:
    cin = {'ND': 4, 'P': 3, 'L': 3}[c['feature']]
    if c['net'] == 'ae':
      model = m.AutoEncoder(cin, c['out'], c['depth'], c['full'], c['feature'], c['code'])
    elif c['net'] == 'ounet':
      model = m.OUNet(cin, c['out'], c['depth'], c['full'], c['feature'])
    else:
      model = m.Image2Shape(c['out'], c['depth'], c['full'], c['code'])
  return model.double()


def spread(model, salt):
  """ Statistics, scales and shifts away from their initial values. """
  import torch
  for i, (name, t) in enumerate(model.state_dict().items()):
    if not t.is_floating_point() or name.startswith('resnet18'):
      continue
    v = torch.tensor(ref.idata(t.numel(), 1, i + salt, -8, 8) / 32.0).view(t.shape)
    with torch.no_grad():
      if name.endswith('running_var'):
        t.copy_(1 + 2 * v.abs())
      elif name.endswith('running_mean'):
        t.copy_(v / 2)
      elif t.dim() == 1 and name.endswith('weight'):
        t.copy_(1 + v)
      elif t.dim() == 1:
        t.add_(v)


def pool(depth):
  n = 1 << depth
  e = shapes.lattice(shapes.edge_values(depth))
  named = shapes.named(depth)
  some = [[e[(i * 7 + 3) % len(e)] for i in range(6)],
          named['diag'][:8],
          [[n - 1, 0, n // 2], [0, 0, 0]],
          [p for i, p in enumerate(named['shell']) if i % 5 == 0][:40],
          [p for p in named['wall'] if p[1] == p[2]][:16],
          shapes.subset([0, 1, n // 2 - 1], 0xB6) + [[n - 1, n - 1, n - 1]]]
  return some


BATCHES = [[0, 2], [1], [3, 0, 4], [5, 3], [2, 1, 0], [4, 5]]


def octrees(case, tier):
  c, salt = case['conf'], case['salt']
  p = pool(c['depth'])
  out = []
  picks = BATCHES if tier == 'thorough' else \
      [BATCHES[(salt + k) % len(BATCHES)] for k in (0, 2, 3)]
  for j, sel in enumerate(picks):
    if j % case['part'][1] != case['part'][0]:
      continue
    how = ('batch', 'merge', 'grow')[(salt + j) % 3]
    out.append(({'fam': 'leaves', 'leaves': [p[i] for i in sel], 'depth': c['depth'],
                 'full': c['full'], 'build': how}, salt + j))
  return out


def queries(tree, salt, case):
  """ Points at the leaves, between and far from them; any order of samples. """
  n = 1 << tree.depth
  rows = []
  for b, cells in enumerate(case['leaves']):
    for k, cell in enumerate(cells[:5]):
      rows.append([*((np.array(cell) + [.5 + .25 * (k % 2), .375, .625]) * 2.0 / n - 1), b])
    rows.append([.3 - b * .1, -.2, .77, b])
    rows.append([-.9, .9, -.05 * b, b])
  rows = np.array(rows)
  return rows[np.argsort((np.arange(len(rows)) * 7 + salt) % 11, kind='stable')]


def run(case, ctx):
  import torch
  c = case['conf']
  widths = None
  if c['net'] == 'unet' and LAYOUTS[c['layout']][3]:
    widths = LAYOUTS[c['layout']][3] + (24,)
  got = [tuple(p.shape) for k, p in make(c).named_parameters()
         if not k.startswith('resnet18.')]
  want = nets.parameters(c, widths)
  ctx.check(sorted(got) == sorted(want), lambda: 'parameters of %s: additional %s, missing %s' % (
      c, sorted((Counter(got) - Counter(want)).items())[:4],
      sorted((Counter(want) - Counter(got)).items())[:4]))
  if c['net'] in ('ae', 'ounet', 'i2s'):
    return generative(case, ctx)
  for fam, salt in octrees(case, ctx.tier):
    octree, tree = shapes.build(fam)
    if c['nempty'] and tree.full_depth > 2 and c['net'] == 'hrnet':
      continue
    model = make(c)
    spread(model, salt)
    x = ref.idata(tree.layer(c['depth']).num(c['nempty']), c['io'][0], salt, -64, 64)
    x = torch.tensor(x / 32.0 + np.arange(len(x))[:, None] / 1024.0 / len(x))
    pts = queries(tree, salt, fam)
    extra = (pts,) if c['net'] in ('segnet', 'unet') else ()
    st = blocks.State(model)
    fn = getattr(nets, c['net'])
    for step, train in enumerate(HIST[salt % len(HIST)]):
      if train and not trainable(c, tree):
        continue
      model.train(train)
      for m in model.modules():
        if isinstance(m, torch.nn.Dropout):
          m.p = 0.0 if train else 0.5
      st.train = train
      xs = x + step / 8.0
      xg, xr = xs.clone().requires_grad_(), xs.clone().requires_grad_()
      what = lambda: '%s, batch of %d, %s (step %d)' % (
          c, tree.batch_size, 'training' if train else 'evaluation', step)
      out = model(xg, octree, c['depth'], *[torch.tensor(e) for e in extra])
      rows = len(pts) if extra else tree.batch_size
      ctx.check(tuple(out.shape) == (rows, c['io'][1]), lambda: 'shape, ' + what())
      compare(ctx, model, st, [out], lambda: [fn(st, c, tree, xr, c['depth'], *extra)],
              salt + step, what, [(xg, xr)])
      ctx.state(c, fam, step)
      ctx.outcome(c['net'], c['nempty'], train, tree.batch_size)
      ctx.trans()
    ctx.trace()
  ctx.sample({'conf': c})


HIST = [(False, True, False), (True, False), (True, True), (False, True)]


def trainable(c, tree):
  """ Every normalisation sees at least two rows. """
  if c['net'] in ('lenet', 'resnet') and tree.batch_size < 2:
    return False
  low = {'lenet': c.get('stages', 0) - 1, 'resnet': c.get('stages', 0) - 1,
         'segnet': c.get('stages', 0), 'unet': len(c.get('enc', ())),
         'hrnet': 9}[c['net']]
  d = max(c['depth'] - low, 2 if c['net'] == 'hrnet' else 0)
  return tree.layer(d).num(c['nempty']) >= 2


def compare(ctx, model, st, outs, wants, salt, what, inputs=()):
  """ Values, gradients of parameters and inputs, and statistics. """
  import torch
  model.zero_grad()
  for p in st.p.values():
    p.grad = None
  cots = [torch.tensor(ref.idata(o.numel(), 1, salt + i, -8, 8) / 8.0 + 1 / 16).view(o.shape)
          for i, o in enumerate(outs)]
  sum((o * cot).sum() for o, cot in zip(outs, cots)).backward()
  # one of the two graphs at a time is kept in memory
  outs = [o.detach() for o in outs]
  if callable(wants):
    wants = wants()
  for i, (o, w) in enumerate(zip(outs, wants)):
    ctx.check(tuple(o.shape) == tuple(w.shape),
              lambda: 'shape %s, not %s, %s' % (tuple(o.shape), tuple(w.shape), what()))
    ctx.close(o, w.detach(), lambda: 'output %d, %s' % (i, what()), 1e-7)
  sum((w * cot).sum() for w, cot in zip(wants, cots)).backward()
  params = dict(model.named_parameters())
  for k, p in params.items():
    if k.startswith('resnet18.'):
      continue
    w = st.p[k].grad
    w = torch.zeros_like(p) if w is None else w
    g = torch.zeros_like(p) if p.grad is None else p.grad
    ctx.close(g, w, lambda: 'gradient of %s, %s' % (k, what()), 1e-6)
  for a, b in inputs:
    ctx.close(a.grad, b.grad, lambda: 'gradient of the input, ' + what(), 1e-6)
  now = model.state_dict()
  for k, v in st.buf.items():
    if not k.startswith('resnet18.'):
      ctx.close(now[k].double(), v.double(), lambda: '%s after %s' % (k, what()), 1e-8)


def doubled(octree):
  """ Signals in double precision. """
  for d in range(len(octree.normals)):
    for t in (octree.normals, octree.points, octree.features):
      if t[d] is not None:
        t[d] = t[d].double()
  return octree


def given(fam, salt):
  """ (octree with signals, tree, rows of the features ND, P, L in float64). """
  import torch
  octree, tree = shapes.build(fam)
  nd = signal(octree, tree, salt)
  doubled(octree)
  depth = tree.depth
  lay = tree.layer(depth)
  nrm = octree.normals[depth].numpy()
  pos = octree.points[depth].numpy()
  frac = pos - np.floor(pos) - .5
  local = frac
  rows = {'ND': np.concatenate([nrm, (local * nrm).sum(1, keepdims=True)], 1),
          'L': local, 'P': pos * 2.0 ** (1 - depth) - 1}
  full = {}
  for k, v in rows.items():
    z = np.zeros((lay.nnum, v.shape[1]))
    z[lay.nempty] = v
    full[k] = torch.tensor(z)
  return octree, tree, full


def generative(case, ctx):
  import torch
  c = case['conf']
  todo = octrees(case, ctx.tier)
  for j, (fam, salt) in enumerate(todo):
    model = make(c)
    spread(model, salt)
    octree, tree, feats = given(fam, salt)
    # another octree to decode to, of as many samples
    p = pool(c['depth'])
    fam2 = dict(fam, leaves=[p[(i * 5 + salt) % 6] for i in range(tree.batch_size)])
    other, tree2, _ = given(fam2, salt + 1)
    image = torch.tensor(ref.idata(tree.batch_size * 3 * 32, 32, salt).reshape(
        -1, 3, 32, 32) / 8.0)
    st = blocks.State(model)
    for step, (train, how) in enumerate(GEN[salt % len(GEN)]):
      if train and tree.layer(c['full']).nnum < 2:
        continue
      model.train(train)
      st.train = train
      if train and (how == 'new' or (c['net'] == 'i2s' and tree.batch_size < 2)):
        continue
      what = lambda: '%s, batch of %d, %s, %s octree' % (
          c, tree.batch_size, 'training' if train else 'evaluation', how)
      into = {'same': octree, 'other': other, 'new': None}[how]
      grow = how == 'new'
      dst = {'same': tree, 'other': tree2, 'new': None}[how]
      if grow:
        dst = ref.Tree(c['depth'], c['full'], tree.batch_size)
      try:
        if c['net'] == 'ae':
          e = nets.encode(st, c, tree, feats[c['feature']])
          code = torch.tanh(st.linear('proj', e[c['full']]))
          got = model.encoder(octree) if how == 'other' else None
          if got is not None:
            ctx.close(got.detach(), code.detach(), lambda: 'code, ' + what(), 1e-8)
            want = nets.decode(st, c, dst, code, False)
          else:
            want = nets.decode(st, c, dst, code, grow)
          out = model.decoder(got, into) if got is not None else model(octree, grow)
        elif c['net'] == 'ounet':
          e = nets.encode(st, c, tree, feats[c['feature']])
          want = nets.decode(st, c, dst, e[c['full']], grow,
                             lambda t, d: nets.align(tree, t, e[d], d))
          out = model(octree) if grow else model(octree, into)
        else:
          code, enc = nets.image_code(model, image, c)
          want = nets.decode(st, c, dst, code, grow)
          out = model(image, into, grow) if step % 2 else \
              model(image, octree=into, update_octree=grow)
      except nets.Unclear:
        ctx.note('predicted labels that are not clear')
        continue
      logits, sig = want
      ctx.check(sorted(out['logits']) == sorted(logits), lambda: 'depths, ' + what())
      got = out['octree_out']
      if grow:
        for d in range(c['full'], c['depth'] + 1):
          ctx.check(int(got.nnum[d]) == dst.layer(d).nnum and
                    int(got.nnum_nempty[d]) == dst.layer(d).nnum_nempty,
                    lambda: 'nodes at depth %d, %s' % (d, what()))
        ctx.close(got.features[c['depth']].detach(), sig.detach(),
                  lambda: 'stored signal, ' + what(), 1e-7)
      else:
        ctx.check(got is into, lambda: 'octree, ' + what())
      ds = sorted(logits)
      compare(ctx, model, st, [out['logits'][d] for d in ds] + [out['signal']],
              [logits[d] for d in ds] + [sig], salt + step, what)
      if c['net'] == 'i2s':
        for (k, a), b in zip(model.resnet18.named_parameters(), enc.parameters()):
          ctx.close(a.grad, b.grad, lambda: 'gradient of %s, %s' % (k, what()), 1e-6)
      ctx.state(c, fam, step)
      ctx.outcome(c['net'], train, how, tree.batch_size)
      ctx.trans()
    ctx.trace()
  ctx.sample({'conf': c})


GEN = [((False, 'same'), (True, 'same'), (False, 'new')),
       ((False, 'new'), (True, 'other'), (False, 'other')),
       ((True, 'same'), (False, 'other'), (False, 'new'))]
