"""C26: generative decoders build exactly the octree their predictions describe."""

import sys
import itertools
import numpy as np
from mc import ref, shapes, oct
from mc.cloud import Cloud
from mc.checks.c07 import PATTERNS, pattern
from mc.checks.c25 import spread

ID = 'C26'
TECHNIQUE = ('exhaustive enumeration of the predicted split labels (the prediction heads '
             'are the controlled environment) on the real decoders, against a reference '
             'tree grown from the same labels')
BOUNDS = ('AutoEncoder, OUNet, Image2Shape: all 256 label patterns of the first predicted '
          'layer x 7 patterns of the second (depth 2, full depth 1), 7 x 7 x 7 patterns '
          'at depth 3, batches of 1-3, full depth 1-2; then following the predicted '
          'octree, following given octrees, real prediction heads, conversion to points')
ASSUMPTIONS = ['prediction heads are the members of `predict` (checkpoint format)',
               'a layer without any predicted split splits the first node (octree_split)']
CASE_LIMIT = 300


def cases(tier):
  out = []
  for net in ('ae', 'ounet'):
    for part in range(16):
      out.append({'kind': 'bits', 'net': net, 'depth': 2, 'full': 1, 'batch': 1,
                  'part': [part, 16]})
  for net in ('ae', 'ounet', 'i2s'):
    for batch in (1, 2, 3):
      for first in PATTERNS:
        out.append({'kind': 'patterns', 'net': net, 'depth': 3, 'full': 1,
                    'batch': batch, 'first': first})
    for first in PATTERNS[::2] if tier == 'quick' else PATTERNS:
      out.append({'kind': 'patterns', 'net': net, 'depth': 3, 'full': 2, 'batch': 2,
                  'first': first})
    for batch in (1, 2, 3):
      out.append({'kind': 'given', 'net': net, 'depth': 3, 'full': 1, 'batch': batch})
      out.append({'kind': 'given', 'net': net, 'depth': 4, 'full': 2, 'batch': batch})
      out.append({'kind': 'real', 'net': net, 'depth': 3, 'full': 1, 'batch': batch})
  for depth, full in ((2, 1), (3, 2), (5, 1), (8, 2)):
    out.append({'kind': 'points', 'depth': depth, 'full': full})
  return out


def make(case):
  import torch
  import ocnn
  torch.manual_seed(2)
  depth, full = case['depth'], case['full']
  if case['net'] == 'ae':
    model = ocnn.models.AutoEncoder(4, 4, depth, full, 'ND', 8)
  elif case['net'] == 'ounet':
    model = ocnn.models.OUNet(4, 4, depth, full, 'ND')
  else:
    model = ocnn.models.Image2Shape(4, depth, full, 8)
  model = model.double().eval()
  spread(model)
  return model


MARGINS = (1., 2. ** -16, 3., 2. ** -9, 5.)


class Heads:
  """ Replaces the prediction heads by enumerated labels. """

  def __init__(self, model):
    import torch
    self.labels, self.asked = [], []
    outer = self

    class Head(torch.nn.Module):
      def __init__(self, i):
        super().__init__()
        self.i = i

      def forward(self, data):
        lab = outer.label(self.i, len(data))
        # different margins and offsets, so that only the order matters
        at = torch.arange(len(data))
        m = torch.tensor(MARGINS, dtype=data.dtype)[at % len(MARGINS)]
        s = torch.tensor(lab * 2.0 - 1).to(data.dtype) * m
        out = torch.stack([-s, s], dim=1) + data[:, :1] * 0
        out = out + (at % 3 - 1).to(data.dtype).unsqueeze(1) * 8
        outer.asked.append((self.i, len(data), out))
        return out
    for i in range(len(model.predict)):
      model.predict[i] = Head(i)

  def label(self, i, n):
    return self.labels[i](n)


def inputs(case):
  n = 1 << case['depth']
  return [[[0, 0, 0], [n - 1, 1, 0], [1, n - 1, n - 1]], [[n - 1, n - 1, n - 1]],
          [[1, 0, 1], [0, n // 2, 1], [n // 2, 0, 0], [n - 1, 0, n - 1]]][:case['batch']]


def sources(case):
  """ Inputs of the generator for a batch. """
  import torch
  depth, full, nb = case['depth'], case['full'], case['batch']
  leaves = inputs(case)
  cloud = Cloud(leaves, depth, nb, True, 1)
  octree = cloud.octree(full, 'merge', True, torch.float64)
  code = torch.tensor(ref.idata(nb * 8 ** full, 8, 3) / 8.0)
  image = torch.tensor(ref.idata(nb * 3 * 32, 32, 4).reshape(nb, 3, 32, 32) / 8.0)
  return octree, cloud.tree(full), code, image


def generate(case, model, src):
  octree, _, code, image = src
  if case['net'] == 'ae':
    return model.decode_code(code)
  if case['net'] == 'ounet':
    return model(octree)
  return model(image, update_octree=True)


def follow(case, model, src, octree_out):
  octree, _, code, image = src
  if case['net'] == 'ae':
    return model.decoder(code, octree_out, False)
  if case['net'] == 'ounet':
    return model(octree, octree_out)
  return model(image, octree_out)


def grow(case, labels):
  """ The reference tree of the labels; labels[i]: mask or function of a layer. """
  tree = ref.Tree(case['depth'], case['full'], case['batch'])
  used = []
  for i, d in enumerate(range(case['full'], case['depth'] + 1)):
    if i:
      tree.grow()
    lay = tree.layer(d)
    m = np.asarray(labels[i](lay) if callable(labels[i]) else labels[i], dtype=bool)
    used.append(m)
    split = m.copy()
    if not m.any():
      split[0] = True
    tree.split(split)
  return tree, used


def verify(ctx, case, out, tree, what):
  octree = out['octree_out']
  full, depth = case['full'], case['depth']
  oct.check_structure(ctx, octree, tree, what=what)
  for d in range(1, depth + 1):
    oct.check_neigh(ctx, octree, tree, d, '333', 1, False, what)
  ctx.check(sorted(out['logits']) == list(range(full, depth + 1)), what + 'layers of logits')
  for d in range(full, depth + 1):
    ctx.check(tuple(out['logits'][d].shape) == (tree.layer(d).nnum, 2),
              lambda: '%sone row of logits per node: %s' % (what, out['logits'][d].shape))
  sig = out['signal']
  ctx.check(tuple(sig.shape) == (tree.layer(depth).nnum_nempty, 4),
            lambda: '%sone signal per non-empty leaf: %s' % (what, sig.shape))
  ctx.check(bool((sig.abs() <= 1).all()), what + 'range of signals')


def same_out(ctx, a, b, what):
  ctx.check(sorted(a['logits']) == sorted(b['logits']), what + 'layers of logits')
  for d in a['logits']:
    ctx.close(a['logits'][d], b['logits'][d], what + 'logits of layer %d' % d, 1e-9)
  ctx.close(a['signal'], b['signal'], what + 'signals', 1e-9)


def compose(case, model, src, octree):
  """ Logits and signals of an octree, part by part; the skip connections of OUNet
  belong to the cells both octrees contain. """
  import torch
  octree_in, tree_in, code, image = src
  depth, full = case['depth'], case['full']
  if case['net'] == 'ounet':
    convs = model.encoder(octree_in)
    x = convs[full]
  elif case['net'] == 'ae':
    x = code
  else:
    x = model.resnet18(image).view(-1, 8)
  logits = {}
  for i, d in enumerate(range(full, depth + 1)):
    if i:
      x = model.upsample[i - 1](x, octree, d - 1)
      if case['net'] == 'ounet':
        at = {k: j for j, k in enumerate(octree_in.key(d).tolist())}
        rows = [at.get(k, -1) for k in octree.key(d).tolist()]
        skip = torch.cat([convs[d], torch.zeros_like(convs[d][:1])])[rows]
        x = x + skip
    x = model.decoder_blks[i](x, octree, d)
    logits[d] = model.predict[i](x)
  sig = torch.tanh(model.header(x))[octree.children[depth] >= 0]
  return {'logits': logits, 'signal': sig}


def has_parts(model):
  return all(hasattr(model, n) for n in ('upsample', 'decoder_blks', 'predict', 'header'))


def explore(ctx, case, model, heads, src, labels, what):
  """ One outcome of the predictions, then following the result. """
  tree, used = grow(case, labels)
  heads.labels = [lambda n, m=m: m if len(m) == n else _wrong(ctx, n, len(m), what)
                  for m in used]
  heads.asked = []
  out = generate(case, model, src)
  verify(ctx, case, out, tree, what)
  for (i, n, logit) in heads.asked:
    ctx.equal(out['logits'][case['full'] + i], logit, what + 'logits')
  octree = out['octree_out']
  ctx.equal(octree.features[case['depth']], out['signal'], what + 'signals in the octree')
  held = oct.snapshot(octree)
  again = follow(case, model, src, octree)
  ctx.check(again['octree_out'] is octree, what + 'the given octree is not returned')
  same_out(ctx, again, out, what + 'following the predicted octree: ')
  oct.same(ctx, oct.snapshot(octree), held, what + 'octree after following it')
  ctx.trans(2)
  ctx.trace()
  ctx.state(case['net'], case['batch'], case['full'], [m for m in used])
  ctx.outcome([l.nnum_nempty for l in tree.layers])


def _wrong(ctx, n, m, what):
  ctx.fail('%sthe prediction head sees %d nodes, expected %d' % (what, n, m))


def run(case, ctx):
  import torch
  if case['kind'] == 'points':
    return to_points(case, ctx)
  with torch.no_grad():
    model = make(case)
    src = sources(case)
    held = (oct.snapshot(src[0]), src[2].clone(), src[3].clone())
    if case['kind'] == 'given':
      given(ctx, case, model, src)
    elif case['kind'] == 'real':
      real(ctx, case, model, src)
    else:
      heads = Heads(model)
      if case['kind'] == 'bits':
        i, n = case['part']
        for bits in range(i, 256, n):
          m = np.array([bits >> k & 1 for k in range(8)], dtype=bool)
          for name in PATTERNS[:6]:
            explore(ctx, case, model, heads, src,
                    [m, lambda lay: pattern(name, lay)],
                    'labels %s, %s: ' % (bin(bits), name))
      else:
        rest = case['depth'] - case['full']
        names = PATTERNS if ctx.tier == 'thorough' or rest < 2 else \
            PATTERNS[len(case['first']) % 2::2]
        for tail in itertools.product(names, repeat=rest):
          labels = [lambda lay, p=p: pattern(p, lay) for p in (case['first'],) + tail]
          explore(ctx, case, model, heads, src, labels,
                  'labels %s: ' % ((case['first'],) + tail,))
    oct.same(ctx, oct.snapshot(src[0]), held[0], 'input octree')
    ctx.equal(src[2], held[1], 'shape code')
    ctx.equal(src[3], held[2], 'image')
  ctx.sample({'network': case['net'], 'kind': case['kind'], 'batch': case['batch']})


def given(ctx, case, model, src):
  """ Following an octree built from points. """
  import torch
  nb, depth, full = case['batch'], case['depth'], case['full']
  e = shapes.lattice(shapes.edge_values(depth))
  n = (1 << depth) - 1
  for s in range(9):
    leaves = [[e[(s * 13 + b * 7 + k * 5) % len(e)] for k in range((s + b) % 4)]
              for b in range(nb)]
    if s >= 6:   # the input octree mirrored: as many nodes, at other places
      leaves = [[[n - v if a == s - 6 else v for a, v in enumerate(c)] for c in b]
                for b in inputs(case)]
    if not any(leaves):
      leaves[0] = [[0, 0, 0]]
    cloud = Cloud(leaves, depth, s, True, s % 2)
    octree = cloud.octree(full, ('batch', 'merge')[s % 2], True, torch.float64)
    tree = cloud.tree(full)
    held = oct.snapshot(octree)
    out = follow(case, model, src, octree)
    ctx.check(out['octree_out'] is octree, 'the given octree is not returned')
    verify(ctx, case, out, tree, 'given octree: ')
    if has_parts(model):
      same_out(ctx, out, compose(case, model, src, octree), 'given octree, part by part: ')
    oct.same(ctx, oct.snapshot(octree), held, 'given octree')
    if case['net'] == 'ae':
      out2 = model(octree, False)
      oct.same(ctx, oct.snapshot(octree), held, 'given octree after coding it')
      verify(ctx, case, out2, tree, 'coded octree: ')
      code = model.encoder(octree)
      ctx.check(bool((code.abs() <= 1).all()), 'shape code in [-1, 1]')
      same_out(ctx, model.decoder(code, octree), out2, 'encoder and decoder: ')
      same_out(ctx, {k: v for k, v in model(octree, True).items()},
               model.decode_code(code), 'generation from the code: ')
      oct.same(ctx, oct.snapshot(octree), held, 'input octree of a generation')
    ctx.trans(2)
    ctx.trace()
    ctx.state('given', case['net'], depth, full, leaves)


def real(ctx, case, model, src):
  """ Real prediction heads: the octree is the one the logits describe. """
  import torch
  from ocnn.octree import Octree
  nb, depth, full = case['batch'], case['depth'], case['full']
  bias = [p for n, p in model.predict.named_parameters() if n.endswith('bias')]
  for s in range(8):
    case2 = dict(case)
    v = list(src)
    v[2] = torch.tensor(ref.idata(nb * 8 ** full, 8, s) / (2.0 + s))
    v[3] = v[3] * (1 + s)
    for b in bias:
      if b.numel() == 2:
        b.copy_(torch.tensor([0.0, (s - 3) * 0.05]))
    out = generate(case2, model, v)
    labels = [out['logits'][d].argmax(1).numpy() > 0 for d in range(full, depth + 1)]
    tree, _ = grow(case2, [(lambda lay, m=m: m if len(m) == lay.nnum else
                            _wrong(ctx, len(m), lay.nnum, 'logits: ')) for m in labels])
    verify(ctx, case2, out, tree, 'real heads: ')
    if has_parts(model):
      same_out(ctx, out, compose(case, model, v, out['octree_out']),
               'predicted octree, part by part: ')
    again = follow(case2, model, v, out['octree_out'])
    same_out(ctx, again, out, 'following the predicted octree: ')
    # generating again gives the same
    twice = generate(case2, model, v)
    same_out(ctx, twice, out, 'generating again: ')
    ctx.check(twice['octree_out'] is not out['octree_out'], 'octrees are shared')
    if case['net'] == 'i2s':
      code = torch.tensor(ref.idata(nb * 8 ** full, 8, s + 5) / (2.0 + s))
      if hasattr(model, 'resnet18'):
        code = model.resnet18(v[3]).view(-1, 8)
      held = code.clone()
      free = model.decode_code(code)
      ctx.equal(code, held, 'shape code')
      if hasattr(model, 'resnet18'):
        verify(ctx, case2, free, tree, 'decoding the code: ')
        same_out(ctx, free, out, 'decoding the code: ')
      else:
        same_out(ctx, model.decoder(code, free['octree_out']), free, 'decoding a code: ')
    ctx.trans(3)
    ctx.trace()
    ctx.state('real', case['net'], nb, s)
    ctx.outcome([int(m.sum()) for m in labels])


def to_points(case, ctx):
  """ octree2pts of the project solvers. """
  import torch
  sys.path.insert(0, '/repo/projects')
  import autoencoder
  solver = autoencoder.AutoEncoderSolver.__new__(autoencoder.AutoEncoderSolver)
  depth, full = case['depth'], case['full']
  e = shapes.lattice(shapes.edge_values(depth))
  for nb in (1, 2, 3, 4):
    for sizes in itertools.product((0, 1, 3), repeat=nb):
      if not any(sizes):
        continue
      leaves = [[e[(b * 11 + k * 3) % len(e)] for k in range(c)]
                for b, c in enumerate(sizes)]
      s = {'fam': 'leaves', 'leaves': leaves, 'depth': depth, 'full': full,
           'build': ('batch', 'merge', 'grow')[sum(sizes) % 3]}
      octree, tree = shapes.build(s)
      lay = tree.layer(depth)
      n = lay.nnum_nempty
      sig = ref.idata(n, 4, nb, -8, 8) / 8.0
      sig[:, 0] = np.abs(sig[:, 0]) + .125
      octree.features[depth] = torch.tensor(sig, dtype=torch.float32)
      held = oct.snapshot(octree)
      out = solver.octree2pts(octree)
      oct.same(ctx, oct.snapshot(octree), held, 'converted octree')
      nrm = sig[:, :3] / np.linalg.norm(sig[:, :3], axis=1, keepdims=True)
      b, xyz = lay.nodes(True)
      pos = (xyz + .5 + sig[:, 3:] * nrm) * 2.0 ** (1 - depth) - 1
      ctx.check(len(out) == nb, 'one cloud per sample')
      for j in range(nb):
        ctx.close(out[j], np.concatenate([pos, nrm], 1)[b == j],
                  'points of sample %d of %s' % (j, sizes), 1e-5)
      ctx.trans()
      ctx.state(depth, full, sizes)
  ctx.trace()
