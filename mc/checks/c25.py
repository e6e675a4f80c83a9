"""C25: networks in evaluation mode treat the samples of a batch independently."""

import itertools
import numpy as np
from mc import ref, shapes, oct
from mc.cloud import Cloud

ID = 'C25'
TECHNIQUE = ('exhaustive exploration of batch compositions (which samples, in which '
             'slots, with which companions) on the real networks, each sample compared '
             'with its prediction alone')
BOUNDS = ('every network (LeNet, ResNet, SegNet, UNet, HRNet, AutoEncoder, OUNet, '
          'Image2Shape) x node modes x interpolations; all batches of length 1-2 over '
          '5 samples (one without points) and all length-3 batches over a third of '
          'them (thorough: all of length 3), merged and batch-built octrees, query '
          'points in sorted, interleaved and reversed order')
ASSUMPTIONS = ['networks run in float64 and are compared with a tolerance of 1e-7',
               'predicted octrees are compared when no layer needed the forced first '
               'node (octree_split never leaves a layer of a batch empty)',
               'the encoder of a network in non-empty mode does not pool above the '
               'full depth']
CASE_LIMIT = 300

# name -> (depth, full_depth, kind)
NETS = {
    'lenet1': (3, 2, 'cls'), 'lenet2': (4, 2, 'cls'), 'lenet2f1': (4, 1, 'cls'),
    'resnet2': (4, 2, 'cls'), 'resnet3': (4, 1, 'cls'),
    'hrnet1': (4, 2, 'cls'), 'hrnet2': (5, 2, 'cls'), 'hrnet3': (5, 2, 'cls'),
    'segnet2': (4, 2, 'seg'), 'segnet3': (4, 1, 'seg'),
    'unet': (5, 1, 'seg'),
    'ae': (3, 1, 'ae'), 'ae2': (4, 2, 'ae'), 'ounet': (3, 1, 'ounet'),
    'i2s': (3, 1, 'i2s'),
}


def cases(tier):
  out = []
  for net, (depth, full, kind) in NETS.items():
    nemptys = (False, True) if kind in ('cls', 'seg') else (False,)
    for nempty in nemptys:
      if net == 'hrnet1' and nempty and tier == 'quick':
        continue
      for interp in (('linear', 'nearest') if kind == 'seg' else ('',)):
        parts = {'unet': 6, 'ae2': 4, 'ounet': 3, 'ae': 3}.get(net, 2)
        if net.startswith('hrnet'):
          parts = 5
        for part in range(parts):
          out.append({'net': net, 'nempty': nempty, 'interp': interp,
                      'part': [part, parts]})
  out.sort(key=lambda c: NETS[c['net']][0])
  return out


def make(case):
  import torch
  import ocnn
  net, nempty, interp = case['net'], case['nempty'], case['interp']
  torch.manual_seed(1)
  m = ocnn.models
  if net.startswith('lenet'):
    model = m.LeNet(4, 5, int(net[5]), nempty)
  elif net.startswith('resnet'):
    model = m.ResNet(4, 5, 1 + int(net[6]) % 2, int(net[6]), nempty)
  elif net.startswith('hrnet'):
    model = m.HRNet(4, 5, int(net[5]), nempty=nempty)
  elif net.startswith('segnet'):
    model = m.SegNet(4, 3, int(net[6]), interp, nempty)
  elif net == 'unet':
    model = m.UNet(4, 3, interp, nempty)
  elif net == 'ae':
    model = m.AutoEncoder(4, 4, 3, 1, 'ND', 8)
  elif net == 'ae2':
    model = m.AutoEncoder(4, 4, 4, 2, 'ND')
  elif net == 'ounet':
    model = m.OUNet(4, 4, 3, 1, 'ND')
  elif net == 'i2s':
    model = m.Image2Shape(4, 3, 1, 8)
  model = model.double().eval()
  spread(model)
  return model


def spread(model):
  """ Statistics and affine parameters away from their initial values. """
  import torch
  i = 0
  for name, t in list(model.named_parameters()) + list(model.named_buffers()):
    i += 1
    if not t.dtype.is_floating_point:
      continue
    v = torch.tensor(ref.idata(t.numel(), 1, i, -4, 4) / 16.0).view(t.shape)
    with torch.no_grad():
      if 'running_var' in name:
        t.copy_(1 + v.abs())
      elif 'running_mean' in name:
        t.copy_(v / 4)
      elif t.dim() == 1 and name.endswith('weight'):
        t.copy_(1 + v)
      elif t.dim() == 1:
        t.add_(v / 4)


def pool(depth):
  """ Leaves of the five samples. """
  n = 1 << depth
  e = shapes.lattice(shapes.edge_values(depth))
  named = shapes.named(depth)
  return [[e[(i * 7 + 3) % len(e)] for i in range(5)],
          named['diag'],
          [[n - 1, n - 1, n - 1]],
          [p for i, p in enumerate(named['shell']) if i % 5 == 0][:60] +
          [p for p in named['wall'] if p[1] == p[2]],
          []]


def queries(depth, i, cells):
  """ Query points of sample i: near its leaves and elsewhere. """
  q = []
  for k, c in enumerate(cells[:6]):
    q.append((np.array(c) + [.5 + .25 * (k % 2), .375, .625]) * 2.0 ** (1 - depth) - 1)
  q.append([.3 - i * .1, -.2, .77])
  q.append([-.9, .9, -.05 * i])
  return np.array(q)


class Run:
  """ Predictions of one network for batches of samples. """

  def __init__(self, case):
    self.case = case
    self.depth, self.full, self.kind = NETS[case['net']]
    self.model = make(case)
    self.leaves = pool(self.depth)
    # mirror images of the samples 0 and 1: as many nodes, at other places
    n = (1 << self.depth) - 1
    self.leaves += [[[n - c[0], c[1], c[2]] for c in self.leaves[i]] for i in (0, 1)]
    self.clouds = [Cloud([s], self.depth, i, True, 1) for i, s in enumerate(self.leaves)]

  def octree(self, sel, how):
    import torch
    from ocnn.octree import Octree, Points, merge_octrees, merge_points
    pts = [self.clouds[i].points(0, torch.float64) for i in sel]
    if how == 'merge':
      trees = []
      for p in pts:
        o = Octree(self.depth, self.full)
        o.build_octree(p)
        trees.append(o)
      octree = merge_octrees(trees)
    else:
      octree = Octree(self.depth, self.full, len(sel))
      octree.build_octree(merge_points(pts) if len(sel) > 1 else pts[0])
    octree.construct_all_neigh()
    return octree

  def predict(self, ctx, sel, how='merge', order=0):
    """ Per sample a list of result arrays. """
    import torch
    octree = self.octree(sel, how)
    before = oct.snapshot(octree)
    weights = {k: v.clone() for k, v in self.model.state_dict().items()}
    nb = len(sel)
    with torch.no_grad():
      if self.kind in ('cls', 'seg'):
        data = octree.get_input_feature('ND', self.case['nempty'])
        keep = data.clone()
      if self.kind == 'cls':
        out = self.model(data, octree, self.depth)
        ctx.check(tuple(out.shape) == (nb, 5), 'one row per sample: %s' % (out.shape,))
        res = [[out[j].numpy()] for j in range(nb)]
      elif self.kind == 'seg':
        q = [queries(self.depth, i, self.leaves[i]) for i in sel]
        b = np.repeat(np.arange(nb), [len(x) for x in q])
        r = np.concatenate([np.arange(len(x)) for x in q])
        q = np.concatenate(q)
        p = {0: np.arange(len(b)), 1: np.argsort(r, kind='stable'),
             2: np.arange(len(b))[::-1]}[order]
        pts = torch.tensor(np.concatenate([q, b[:, None]], 1)[p])
        pkeep = pts.clone()
        out = self.model(data, octree, self.depth, pts)
        ctx.check(tuple(out.shape) == (len(b), 3), 'one row per query point')
        ctx.equal(pts, pkeep, 'query points after the prediction')
        back = np.empty_like(out.numpy())
        back[p] = out.numpy()
        res = [[back[b == j]] for j in range(nb)]
      elif self.kind == 'i2s':
        img = torch.tensor(np.concatenate([ref.idata(3 * 32, 32, i).reshape(1, 3, 32, 32)
                                           for i in sel]) / 8.0)
        ikeep = img.clone()
        out = self.model(img, octree)
        ctx.equal(img, ikeep, 'image after the prediction')
        res = self.per_sample(out, octree, nb)
        gen = self.model(img, update_octree=True)
        res = self.generated(gen, nb, res)
      elif self.kind == 'ae':
        out = self.model(octree, False)
        res = self.per_sample(out, octree, nb)
        code = self.model.encoder(octree)
        n = 8 ** self.full
        ctx.check(len(code) == nb * n, 'rows of the shape code')
        for j in range(nb):
          res[j].append(code[j * n:j * n + n].numpy())
        res = self.generated(self.model(octree, True), nb, res)
      else:
        out = self.model(octree, octree)
        res = self.per_sample(out, octree, nb)
        # decode to the octree of other samples
        other = self.octree([(5, 6, 3, 0, 0)[i] for i in sel], how)
        okeep = oct.snapshot(other)
        out = self.model(octree, other, False)
        r2 = self.per_sample(out, other, nb)
        oct.same(ctx, oct.snapshot(other), okeep, 'output octree that was given')
        res = [a + b for a, b in zip(res, r2)]
        res = self.generated(self.model(octree), nb, res)
    oct.same(ctx, oct.snapshot(octree), before, 'octree after the prediction')
    if self.kind in ('cls', 'seg'):
      ctx.equal(data, keep, 'input features after the prediction')
    for k, v in self.model.state_dict().items():
      ctx.equal(v, weights[k], 'state %s after the prediction' % k)
    return res

  def per_sample(self, out, octree, nb):
    res = [[] for _ in range(nb)]
    for d in range(self.full, self.depth + 1):
      b = octree.batch_id(d).numpy()
      for j in range(nb):
        res[j].append(out['logits'][d].numpy()[b == j])
    b = octree.batch_id(self.depth, True).numpy()
    for j in range(nb):
      res[j].append(out['signal'].numpy()[b == j])
    return res

  def generated(self, out, nb, res):
    """ Keys and values of a predicted octree, if no split was forced. """
    o = out['octree_out']
    forced = False
    for d in range(self.full, self.depth + 1):
      if not (out['logits'][d].argmax(1) > 0).any():
        forced = True
    per = self.per_sample(out, o, nb)
    for j in range(nb):
      keys = []
      for d in range(self.full, self.depth + 1):
        k = o.key(d).numpy()
        keys.append(k[o.batch_id(d).numpy() == j] & ((1 << 48) - 1))
      # layers below a sample that ended early stay comparable per sample
      res[j] = res[j] + [('gen', None if forced else keys + per[j])]
    return res


def flat(r):
  out = []
  for x in r:
    if isinstance(x, tuple):
      if x[1] is not None:
        out += x[1]
      else:
        out.append(None)
    else:
      out.append(x)
  return out


def compare(ctx, got, alone, what):
  for a, b in zip(got, alone):
    if isinstance(a, tuple):
      if a[1] is None or b[1] is None:
        ctx.note('predicted octrees with a forced split, not compared')
        continue
      for x, y in zip(a[1], b[1]):
        ctx.close(x, y, what + ': predicted octree', 1e-7)
    else:
      ctx.close(a, b, what, 1e-7)


def run(case, ctx):
  r = Run(case)
  alone = [r.predict(ctx, [i])[0] for i in range(5)]
  again = r.predict(ctx, [1])[0]
  for x, y in zip(flat(alone[1]), flat(again)):
    ctx.check((x is None and y is None) or np.array_equal(x, y), 'evaluation is repeatable')
  if case['part'][0] == 0:
    # the check can tell the samples apart
    a = [np.concatenate([np.ravel(x) for x in flat(s) if x is not None]) for s in alone[:4]]
    for x, y in itertools.combinations(a, 2):
      ctx.check(x.shape != y.shape or not np.allclose(x, y), 'samples look alike')
  every = [list(s) for s in itertools.product(range(5), repeat=2)]
  three = [list(s) for s in itertools.product(range(5), repeat=3)]
  heavy = case['net'] in ('hrnet2', 'hrnet3', 'unet', 'ae2', 'ounet', 'hrnet1')
  if ctx.tier == 'quick':
    three = three[1::12] if heavy else three[1::3]
  every += three
  i, n = case['part']
  for k, sel in list(enumerate(every))[i::n]:
    how = ('merge', 'batch')[(k // n) % 2]
    got = r.predict(ctx, sel, how, k // 2 % 3)
    for j, s in enumerate(sel):
      compare(ctx, got[j], alone[s], '%s, nempty=%s %s: sample %d in slot %d of %s' % (
          case['net'], case['nempty'], case['interp'], s, j, sel))
      ctx.trans()
    ctx.trace()
    ctx.state(case['net'], case['nempty'], case['interp'], sel, how)
  ctx.sample({'network': case['net'], 'batches': len(every) // n})
