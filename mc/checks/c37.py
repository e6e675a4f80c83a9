"""C37: the provided tasks train on and report what they document."""

import io
import os
import sys
import shutil
import tempfile
import itertools
import contextlib
from types import SimpleNamespace as NS
import numpy as np
from mc import ref, shapes

ID = 'C37'
TECHNIQUE = ('exhaustive enumeration of network outcomes x labels x target octrees x file '
             'lists on the real task solvers, the network being a controlled environment, '
             'against losses, metrics and files computed in float64; the shipped '
             'configurations run end to end with an enumerated random generator')
BOUNDS = ('classification: all predictions x labels of 1-3 samples in 3 classes at 3 '
          'magnitudes of logits; segmentation training: all predictions x labels of 3 '
          'points, 3 ignore thresholds; generation: all outcomes of the 8 splits of the '
          'first layer x 8 patterns below on 6 target batches, 3 tasks; saved results: '
          'all leaf counts {0, 1, 3} of 1-3 samples x file names; all model flags; the '
          '9 shipped configurations x 4 outcomes of the random generator, training and '
          'testing')
ASSUMPTIONS = ['there is no accelerator: a device copy returns the object itself',
               'entries of a file list have a suffix or no dot at all',
               'in the configuration runs the statistics of the data are those of '
               'clouds with 8-24 points']
CASE_LIMIT = 300


def cases(tier):
  out = []
  for name in CONFIGS:
    for draw in range(4 if tier == 'quick' else 12):
      out.append({'kind': 'config', 'name': name, 'draw': draw})
  out += [{'kind': 'models', 'task': t} for t in ('cls', 'seg', 'gen')]
  for nb in (1, 2, 3):
    for part in range(9 if nb == 3 else 1):
      out.append({'kind': 'cls', 'nb': nb, 'part': part})
  for mask in (-1, 0, 1):
    for part in range(3):
      out.append({'kind': 'seg', 'mask': mask, 'part': part})
  for task in ('ae', 'completion', 'image'):
    for t in range(len(TARGETS)):
      for part in range(2 if tier == 'quick' else 4):
        out.append({'kind': 'gen', 'task': task, 'target': t, 'part': part,
                    'parts': 2 if tier == 'quick' else 4})
    for nb in (1, 2, 3):
      out.append({'kind': 'save', 'task': task, 'nb': nb})
  return out


def run(case, ctx):
  import torch
  import ocnn
  sys.dont_write_bytecode = True
  if '/repo/projects' not in sys.path:
    sys.path.append('/repo/projects')
  ocnn.octree.Octree.cuda = lambda self, *a, **k: self
  ocnn.octree.Points.cuda = lambda self, *a, **k: self
  torch.Tensor.cuda = lambda self, *a, **k: self
  with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    {'cls': classify, 'seg': segment, 'gen': generate, 'save': save, 'models': models,
     'config': config}[case['kind']](case, ctx)
  ctx.trace()


def solver(task):
  import importlib
  mod, cls = {'cls': ('classification', 'ClsSolver'), 'seg': ('segmentation', 'SegSolver'),
              'ae': ('autoencoder', 'AutoEncoderSolver'),
              'completion': ('completion', 'CompletionSolver'),
              'image': ('image2shape', 'Image2ShapeSolver')}[task]
  return object.__new__(getattr(importlib.import_module(mod), cls))


def Net(answer):
  """ The controlled network: answers from a table, records its arguments. """
  import torch

  class Table(torch.nn.Module):
    def __init__(self):
      super().__init__()
      self.answer, self.calls = answer, []

    def forward(self, *a, **k):
      self.calls.append((a, k))
      return self.answer(*a, **k) if callable(self.answer) else self.answer
  return Table()


def ce(logit, label):
  """ Mean cross entropy and its derivative. """
  logit = np.asarray(logit, 'f8')
  m = logit.max(1, keepdims=True)
  e = np.exp(logit - m)
  p = e / e.sum(1, keepdims=True)
  n = len(logit)
  loss = np.mean((np.log(e.sum(1, keepdims=True)) + m - logit)[np.arange(n), label])
  g = p.copy()
  g[np.arange(n), label] -= 1
  return loss, g / n


def rows_of(pred, salt, mag, classes=3):
  """ Logits with the largest entry at the predicted class. """
  x = ref.idata(len(pred), classes, salt, -8, 7) / 16.0
  x[np.arange(len(pred)), pred] = 0.75 + (np.arange(len(pred)) % 3) / 16.0
  return np.float32(x * mag)


# -------------------------------------------------------------- classification

def octree_of(nb):
  pool = [[[0, 0, 0], [3, 2, 1]], [[1, 1, 1]], [[3, 3, 3], [3, 3, 2], [0, 3, 0]]]
  octree = shapes.build_batch(pool[:nb], 2, 1)
  signal(octree, ref.tree_from_leaves(pool[:nb], 2, 1), nb)
  return octree


def signal(octree, tree, salt):
  """ Sets normals and positions of the leaves; returns normals and displacements. """
  import torch
  depth = tree.depth
  n = tree.layer(depth).nnum_nempty
  nrm = ref.idata(n, 3, salt, -6, 6) + np.array([.5, .25, .125])
  nrm /= np.linalg.norm(nrm, axis=1, keepdims=True)
  _, xyz = tree.layer(depth).nodes(True)
  pos = xyz + (ref.idata(n, 3, salt + 3, 1, 15) / 16.0)
  octree.normals[depth] = torch.tensor(nrm, dtype=torch.float32)
  octree.points[depth] = torch.tensor(pos, dtype=torch.float32)
  nrm = octree.normals[depth].double().numpy()
  return np.concatenate([nrm, ((pos - xyz - .5) * nrm).sum(1, keepdims=True)], 1)


def classify(case, ctx):
  import torch
  nb = case['nb']
  s = solver('cls')
  octree = octree_of(nb)
  octree.construct_all_neigh()
  every = list(itertools.product(range(3), repeat=2 * nb))
  for i, c in enumerate(every):
    if i * 9 // len(every) != case['part'] and nb == 3:
      continue
    pred, lab = list(c[:nb]), list(c[nb:])
    nempty, feature = bool(i % 2), ('ND', 'L', 'p', 'NDP')[i % 4]
    s.FLAGS = NS(MODEL=NS(feature=feature, nempty=nempty))
    logit = torch.tensor(rows_of(pred, i, (1, 16, 1 / 16)[i % 3])).requires_grad_()
    s.model = Net(logit)
    batch = {'octree': octree, 'label': torch.tensor(lab), 'filename': ['f'] * nb}
    what = 'classification %s with labels %s' % (pred, lab)
    loss, grad = ce(logit.detach().numpy(), lab)
    acc = np.mean([p == q for p, q in zip(pred, lab)])
    for phase in ('train', 'test'):
      out = getattr(s, phase + '_step')(batch)
      ctx.check(sorted(out) == [phase + '/accu', phase + '/loss'], what + ': ' + phase)
      ctx.close(out[phase + '/loss'].detach(), loss, what + ': loss', 1e-5)
      ctx.close(out[phase + '/accu'], acc, what + ': accuracy', 1e-6)
      if phase == 'train':
        g, = torch.autograd.grad(out['train/loss'], logit)
        ctx.close(g, grad, what + ': gradient', 1e-5)
    for a, k in s.model.calls:
      ctx.check(len(a) == 3 and not k and a[1] is octree and a[2] == 2,
                what + ': arguments of the network')
      ctx.equal(a[0], octree.get_input_feature(feature, nempty), what + ': features')
    ctx.equal(batch['label'], lab, what + ': labels afterwards')
    ctx.trans(2)
    ctx.state(c)
    ctx.outcome(round(float(acc), 3))
  ctx.sample({'samples': nb})


# ---------------------------------------------------------------- segmentation

def leaf_of(p):
  """ The cell of depth 3 of a point of [-1, 1]^3. """
  return [int(v) for v in np.floor((np.asarray(p, 'f8') + 1) * 4)]


def segment(case, ctx):
  import torch
  from ocnn.octree import Points, merge_points
  mask = case['mask']
  s = solver('seg')
  rows = np.array([[-.9, .1, .3], [.5, -.5, .7], [.2, .3, .4]], 'f4')
  for i, c in enumerate(itertools.product(range(3), repeat=6)):
    if i % 3 != case['part']:
      continue
    pred, lab = list(c[:3]), list(c[3:])
    keep = [j for j in range(3) if lab[j] > mask]
    built = i % 2 == 0          # the batch with or without octrees
    cut = [[2], [], [1, 2]][i // 6 % 3]     # two, one or three samples
    xyz = np.split(rows, cut)
    sample = np.concatenate([[j] * len(x) for j, x in enumerate(xyz)])
    pts = [Points(torch.tensor(x), torch.tensor(np.tile([[0, 0, 1.]], (len(x), 1))).float(),
                  labels=torch.tensor(np.float32(l)))
           for x, l in zip(xyz, np.split(np.array(lab), cut))]
    s.FLAGS = NS(DATA=NS(train=NS(depth=3, full_depth=1), test=NS(depth=2, full_depth=1)),
                 MODEL=NS(feature='PN', nempty=True), LOSS=NS(mask=mask, num_class=3))
    logit = torch.tensor(rows_of(pred, i, (1, 8)[i % 2])).requires_grad_()
    s.model = Net(logit)
    batch = {'points': pts}
    if built:
      leaves = [[leaf_of(r) for r in x] for x in xyz]
      octree = shapes.build_batch(leaves, 3, 1)
      signal(octree, ref.tree_from_leaves(leaves, 3, 1), i)
      batch = {'points': merge_points(pts), 'octree': octree}
    if not keep:
      continue          # no labelled point: no loss
    what = 'segmentation %s with labels %s, threshold %d' % (pred, lab, mask)
    s.model.train()
    out = s.train_step(batch)
    loss, g3 = ce(logit.detach().numpy()[keep], np.array(lab)[keep])
    grad = np.zeros((3, 3))
    grad[keep] = g3
    ctx.check(sorted(out) == ['train/accu', 'train/loss'], what)
    ctx.close(out['train/loss'].detach(), loss, what + ': loss', 1e-5)
    ctx.close(out['train/accu'], np.mean([pred[j] == lab[j] for j in keep]),
              what + ': accuracy', 1e-6)
    g, = torch.autograd.grad(out['train/loss'], logit)
    ctx.close(g, grad, what + ': gradient', 1e-5)
    (data, octree, depth, query), k = s.model.calls[0]
    ctx.check(depth == 3 and octree.depth == 3 and octree.batch_size == len(xyz) and not k,
              what + ': octree of the network')
    ctx.equal(query, np.concatenate([rows, sample[:, None]], 1).astype('f4'),
              what + ': queries')
    ctx.check(data.shape == (3, 6), what + ': features')
    ctx.equal(data, octree.get_input_feature('PN', True), what + ': features')
    if not built:
      leaves = [[leaf_of(r) for r in x] for x in xyz]
      lay = ref.tree_from_leaves(leaves, 3, 1).layer(3)
      b, pos = lay.nodes(True)
      got = octree.xyzb(3, True)
      ctx.equal(got[3], b, what + ': samples of the octree')
      ctx.equal(torch.stack(got[:3], 1), pos, what + ': leaves of the octree')
      ready = shapes.build_batch(leaves, 3, 1)
      ready.construct_all_neigh()
      for d, kernel, stride in ((3, '333', 1), (2, '333', 1), (3, '222', 2)):
        ctx.equal(octree.get_neigh(d, kernel, stride, True),
                  ready.get_neigh(d, kernel, stride, True), what + ': neighbours')
    ctx.trans()
    ctx.state(mask, c)
    ctx.outcome(len(keep), sum(pred[j] == lab[j] for j in keep))


# ------------------------------------------------------------------ generation

# (leaves of each sample, depth, full depth)
TARGETS = [([[[0, 0, 0], [3, 3, 3]]], 2, 1),
           ([[[1, 2, 3]], [[0, 3, 1], [0, 3, 0], [2, 2, 2]]], 2, 1),
           ([[[0, 0, 0], [7, 7, 7], [7, 7, 6], [0, 4, 0]]], 3, 1),
           ([[[0, 0, 0]], [[1, 1, 1]], [[3, 3, 3], [2, 3, 3]]], 2, 1),
           ([[[x, y, z] for x in range(4) for y in range(4) for z in range(4)]], 2, 1),
           ([[[3, 0, 1], [1, 2, 2]]], 2, 2)]


def target(i):
  """ An octree with signals, and its tree. """
  leaves, depth, full = TARGETS[i]
  octree = shapes.build_batch(leaves, depth, full)
  tree = ref.tree_from_leaves(leaves, depth, full)
  return octree, tree, signal(octree, tree, i)


def verify_gen(ctx, out, phase, logits, signal, labels, want, what):
  """ The documented terms of the loss; returns the total. """
  names = [phase + '/loss', phase + '/loss_reg']
  total = 0.0
  for d in logits:
    x = logits[d].detach().double().numpy()
    loss, _ = ce(x, labels[d])
    names += [phase + '/loss_%d' % d, phase + '/accu_%d' % d]
    ctx.close(out[phase + '/loss_%d' % d].detach(), loss, what + ': loss at depth %d' % d, 2e-5)
    ctx.close(out[phase + '/accu_%d' % d], np.mean(x.argmax(1) == labels[d]),
              what + ': accuracy at depth %d' % d, 1e-5)
    total += loss
  reg = np.mean(((want - signal.detach().double().numpy()) ** 2).sum(1))
  ctx.close(out[phase + '/loss_reg'].detach(), reg, what + ': regression', 2e-5)
  ctx.close(out[phase + '/loss'].detach(), total + reg, what + ': total', 2e-5)
  ctx.check(sorted(out) == sorted(names), lambda: '%s: reported %s' % (what, sorted(out)))


def generate(case, ctx):
  import torch
  task = case['task']
  s = solver(task)
  octree, tree, want = target(case['target'])
  depth, full = tree.depth, tree.full_depth
  source = octree_of(tree.batch_size)
  image = torch.zeros(tree.batch_size, 3, 4, 4)
  for first in range(case['part'], 256, case['parts']):
    for low in range(8 if first % 16 == 5 else 1):
      logits, labels = {}, {}
      for d in range(full, depth + 1):
        n = tree.layer(d).nnum
        if d == full:
          pred = np.array([(first >> (j % 8)) & 1 for j in range(n)])
        else:
          pred = np.array([(((low + first) % 8) >> (j % 3)) & 1 for j in range(n)])
        x = rows_of(pred, first + d, (1, 8, 1 / 8)[first % 3], 2)
        logits[d] = torch.tensor(x).requires_grad_()
        labels[d] = tree.layer(d).nempty.astype(int)
      n = tree.layer(depth).nnum_nempty
      sig = torch.tensor(ref.idata(n, 4, first, -8, 8) / 8.0,
                            dtype=torch.float32).requires_grad_()
      s.model = Net({'logits': logits, 'signal': sig, 'octree_out': octree})
      batch = {'octree': source if task == 'completion' else octree, 'octree_gt': octree,
               'image': image}
      what = '%s, splits %d/%d on target %d' % (task, first, low, case['target'])
      for phase in ('train', 'test'):
        s.model.train(phase == 'train')
        out = getattr(s, phase + '_step')(batch)
        verify_gen(ctx, out, phase, logits, sig, labels, want, what)
        if phase == 'train':
          g = torch.autograd.grad(out['train/loss'], list(logits.values()) + [sig])
          for d, gd in zip(logits, g):
            ctx.close(gd, ce(logits[d].detach().numpy(), labels[d])[1],
                      what + ': gradient at depth %d' % d, 1e-5)
          ctx.close(g[-1], 2 * (sig.detach().numpy() - want) / n,
                    what + ': gradient of the regression', 1e-5)
      for a, k in s.model.calls:
        inp = {'ae': [octree], 'completion': [source, octree],
               'image': [image, octree]}[task]
        names = {'ae': ['octree_in'], 'completion': ['octree_in', 'octree_out'],
                 'image': ['image', 'octree']}[task]
        arg = dict(zip(names + ['update_octree'], a), **k)
        ctx.check(len(arg) == len(names) + ('update_octree' in arg) and
                  all(arg.get(m) is v for m, v in zip(names, inp)) and
                  not arg.get('update_octree', False), what + ': arguments of the network')
      ctx.trans(2)
      ctx.state(case['target'], task, first, low)
  ctx.outcome(case['target'], task)


# -------------------------------------------------------------- saved results

NAMES = [['a.npz', 'b.npz', 'c.npz'], ['x/s0', 'x/s1', 'y/s0'],
         ['a/b/shape.1.ply', 'a/b/shape.2.ply', 'a/shape.1.ply'], ['p', 'q.r', 'z/p']]


def save(case, ctx):
  """ Evaluation writes the clouds of every sample under its own name. """
  import torch
  from ocnn.octree import Points
  nb, task = case['nb'], case['task']
  e = shapes.lattice(shapes.edge_values(3))
  s = solver(task)
  for i, sizes in enumerate(itertools.product((0, 1, 3), repeat=nb)):
    for names in NAMES if nb < 3 else NAMES[i % 4:i % 4 + 1]:
      names = names[:nb]
      scratch = tempfile.mkdtemp(prefix='c37')
      try:
        leaves = [[e[(b * 11 + k * 3) % len(e)] for k in range(c)]
                  for b, c in enumerate(sizes)]
        octree, tree = shapes.build({'fam': 'leaves', 'leaves': leaves, 'depth': 3,
                                     'full': 1, 'build': 'batch'})
        lay = tree.layer(3)
        n = lay.nnum_nempty
        sig = ref.idata(n, 4, nb, -8, 8) / 8.0
        sig[:, 0] = np.abs(sig[:, 0]) + .125
        octree.features[3] = torch.tensor(sig, dtype=torch.float32)
        src = octree_of(nb)
        image = torch.tensor(ref.idata(nb * 48, 1, i, 0, 255).reshape(nb, 3, 4, 4) / 255,
                             dtype=torch.float32)
        s.model = Net({'logits': {}, 'signal': octree.features[3], 'octree_out': octree})
        s.logdir = scratch
        clouds = [np.float32(ref.idata(2 + b, 3, b, -8, 8) / 8.0) for b in range(nb)]
        nrm = [np.float32(ref.idata(2 + b, 3, b + 7, -8, 8) / 8.0) for b in range(nb)]
        batch = {'octree': src, 'filename': list(names), 'image': image,
                 'points': [Points(torch.tensor(x), torch.tensor(v))
                            for x, v in zip(clouds, nrm)]}
        what = '%s, leaves %s, files %s' % (task, sizes, names)
        with torch.no_grad():
          s.eval_step(batch)
        a, k = s.model.calls[0]
        ctx.check(a[0] is (image if task == 'image' else src) and
                  bool(k.get('update_octree', a[-1])), what + ': arguments of the network')
        want = set()
        b, xyz = lay.nodes(True)
        d = sig[:, :3] / np.linalg.norm(sig[:, :3], axis=1, keepdims=True)
        pos = (xyz + .5 + sig[:, 3:] * d) / 4.0 - 1
        for j, name in enumerate(names):
          stem = os.path.splitext(name)[0]
          got = load(os.path.join(scratch, stem + '.out.xyz'))
          ctx.close(got, np.concatenate([pos, d], 1)[b == j], what + ': predicted cloud', 2e-6)
          want.add(stem + '.out.xyz')
          if task == 'image':
            from PIL import Image
            with Image.open(os.path.join(scratch, stem + '.img.png')) as f:
              pix = np.asarray(f)
            ctx.equal(pix, np.round(image[j].numpy().transpose(1, 2, 0) * 255).astype('u1'),
                      what + ': image')
            want.add(stem + '.img.png')
          else:
            got = load(os.path.join(scratch, stem + '.in.xyz'))
            ctx.close(got, np.concatenate([clouds[j], nrm[j]], 1), what + ': input cloud',
                      2e-6)
            want.add(stem + '.in.xyz')
        have = {os.path.relpath(os.path.join(r, f), scratch)
                for r, _, fs in os.walk(scratch) for f in fs}
        ctx.check(have == want, lambda: '%s: files %s' % (what, sorted(have ^ want)))
        ctx.trans()
        ctx.state(task, sizes, names)
        ctx.outcome(sizes)
      finally:
        shutil.rmtree(scratch, ignore_errors=True)


def load(name):
  with open(name) as f:
    rows = [[float(v) for v in line.split()] for line in f if line.strip()]
  return np.array(rows).reshape(len(rows), 6 if rows else 0) if rows else np.zeros((0, 6))


# ---------------------------------------------------------------------- models

def models(case, ctx):
  """ Flags give the network they name. """
  import torch
  import ocnn
  m = ocnn.models
  todo = []
  if case['task'] == 'cls':
    for nempty, ch, nout, st in itertools.product((False, True), (3, 4), (5, 40), (2, 3)):
      fl = dict(channel=ch, nout=nout, stages=st, nempty=nempty, resblock_num=1 + st % 2,
                feature='ND')
      todo.append(('cls', dict(fl, name='lenet'), lambda: m.LeNet(ch, nout, st, nempty)))
      todo.append(('cls', dict(fl, name='ResNet'),
                   lambda: m.ResNet(ch, nout, 1 + st % 2, st, nempty)))
      todo.append(('cls', dict(fl, name='HRNET'),
                   lambda: m.HRNet(ch, nout, st, nempty=nempty)))
      same_models(ctx, todo)
      todo = []
  elif case['task'] == 'seg':
    for nempty, ch, nout, interp in itertools.product((False, True), (3, 4), (2, 20),
                                                      ('linear', 'nearest')):
      st = 2 + nempty
      fl = dict(channel=ch, nout=nout, stages=st, nempty=nempty, interp=interp, feature='P')
      todo.append(('seg', dict(fl, name='SegNet'),
                   lambda: m.SegNet(ch, nout, st, interp, nempty)))
      todo.append(('seg', dict(fl, name='unet'), lambda: m.UNet(ch, nout, interp, nempty)))
      same_models(ctx, todo)
      todo = []
  else:
    for depth, full, ch, out in itertools.product((3, 4, 5), (1, 2), (3, 4), (4, 6)):
      f = {3: 'L', 4: 'ND'}[ch]
      fl = dict(depth=depth, full_depth=full, channel=ch, channel_out=out, feature=f, nout=out)
      todo.append(('ae', fl, lambda: m.AutoEncoder(ch, out, depth, full, f)))
      todo.append(('completion', fl, lambda: m.OUNet(ch, out, depth, full, f)))
      if depth == 4:
        todo.append(('image', fl, lambda: m.Image2Shape(out, depth, full)))
      same_models(ctx, todo)
      todo = []
  for task in ('cls', 'seg'):
    for bad in ('', 'resnet50', 'net'):
      ctx.raises(lambda: solver(task).get_model(NS(name=bad, channel=3, nout=3, stages=2,
                                                   nempty=False, interp='linear',
                                                   resblock_num=1)),
                 'a network named %r' % bad)


def same_models(ctx, todo):
  import torch
  for task, fl, make in todo:
    torch.manual_seed(3)
    a = solver(task).get_model(NS(**fl))
    torch.manual_seed(3)
    b = make()
    what = '%s with %s' % (task, fl)
    ctx.check(type(a) is type(b), what + ': class')
    ctx.check(repr(a) == repr(b), what + ': structure')
    sa, sb = a.state_dict(), b.state_dict()
    ctx.check(list(sa) == list(sb), what + ': parameters')
    for k in sa:
      ctx.equal(sa[k], sb[k], lambda: what + ': ' + k)
    for k in ('depth', 'full_depth', 'feature', 'nempty', 'stages', 'interp'):
      if isinstance(getattr(b, k, None), (int, str)):
        ctx.check(getattr(a, k) == getattr(b, k), lambda: '%s: %s' % (what, k))
    ctx.trans()
    ctx.state(task, fl)
    ctx.outcome(type(a).__name__, len(sa))


# -------------------------------------------------------------- configurations

CONFIGS = {'cls_m40': ('cls', 'modelnet'), 'cls_m40_hrnet': ('cls', 'modelnet'),
           'seg_shapenet': ('seg', 'seg_shapenet'), 'seg_scannet': ('seg', 'scannet'),
           'seg_scannet_eval': ('seg', 'scannet'), 'seg_kitti': ('seg', 'kitti'),
           'ae_shapenet': ('ae', 'ae'), 'completion': ('completion', 'completion'),
           'image2shape': ('image', 'image')}


def load_config(name):
  from thsolver import config as tc
  fl = tc.get_config().clone()
  keep = os.getcwd()
  os.chdir('/repo/projects')
  try:
    for c in tc._load_from_file('configs/%s.yaml' % name):
      fl.merge_from_other_cfg(c)
  finally:
    os.chdir(keep)
  return fl


def Recorder(model):
  """ The real network; keeps what went in and out. """
  import torch

  class Record(torch.nn.Module):
    def __init__(self):
      super().__init__()
      self.model, self.calls = model, []

    def forward(self, *a, **k):
      out = self.model(*a, **k)
      self.calls.append((a, k, out))
      return out

    def __getattr__(self, name):
      try:
        return super().__getattr__(name)
      except AttributeError:
        return getattr(super().__getattr__('model'), name)
  return Record()


def config(case, ctx):
  """ A shipped configuration end to end on a small data set. """
  import torch
  from mc.checks import c35
  from mc.rng import Draws
  task, data = CONFIGS[case['name']]
  fl = load_config(case['name'])
  scratch = tempfile.mkdtemp(prefix='c37')
  draw = case['draw']
  us = [((j * 7 + draw * 3) % 11) / 11.0 for j in range(13)]
  try:
    root = os.path.join(scratch, 'data')
    nc = fl.LOSS.num_class if task in ('cls', 'seg') else 4
    rows = [c35.Rows(n, i + 3 * draw) for i, n in enumerate((24, 8, 17))]
    for r in rows:
      r.points *= {'scannet': 1.0, 'kitti': 30.0}.get(data, .45)
      r.labels = (r.labels % nc).astype('i4')
      if data == 'kitti':
        r.labels %= 20
    files = c35.dataset_files(root, data, rows)
    lst = os.path.join(scratch, 'list.txt')
    with open(lst, 'w') as f:
      for j, name in enumerate(files):
        f.write('%s %d\n' % (name, (5 * j + draw) % nc))
    s = solver(task)
    s.FLAGS = fl
    for part in ('train', 'test'):
      d = fl.DATA[part]
      d.location, d.filelist, d.in_memory = root, lst, bool(draw % 2)
      for k in ('num_workers',):
        d[k] = 0
      if data in ('ae', 'image'):
        # as many points and as large as the small files
        d.points_scale = 2.0
      if 'filetype' in d:
        d.filetype = 'ply'
    torch.manual_seed(2 + draw)
    net = s.get_model(fl.MODEL)
    s.model = Recorder(net)
    src = dict(randint=lambda *a, **k: 1, randn=c35.pattern((-1., 0., .5), draw),
               rand=c35.pattern((0., .25, .75), draw),
               choice=lambda m, size=None, **k: np.arange(size) % m)
    for phase, picks in (('train', (0, 1, 2)), ('test', (0, 1, 2)), ('test', (draw % 3,))):
      if fl.DATA[phase].get('disable', False) or not fl.DATA[phase].filelist:
        continue
      if case['name'] == 'seg_scannet_eval' and phase == 'train':
        continue
      with c35.Numpy((us[0], us[1], us[2]), **src), Draws(us, cycle=True):
        dataset, collate = s.get_dataset(fl.DATA[phase])
        batch = collate([dataset[j] for j in picks])
      what = '%s, %s, samples %s, draws %d' % (case['name'], phase, picks, draw)
      ctx.check(batch['label'].tolist() == [(5 * j + draw) % nc for j in picks],
                what + ': labels')
      s.model.train(phase == 'train')
      net.zero_grad()
      out = getattr(s, phase + '_step')(dict(batch))
      args, kw, res = s.model.calls[-1]
      octree = batch.get('octree_gt', batch.get('octree'))
      if task == 'cls':
        lab = batch['label'].numpy()
        ctx.check(tuple(res.shape) == (len(picks), fl.MODEL.nout) and fl.MODEL.nout == nc,
                  what + ': one row per sample, one column per class')
        ctx.check(args[1].depth == fl.DATA[phase].depth and
                  args[1].full_depth == fl.DATA[phase].full_depth, what + ': octree')
        x = res.detach().double().numpy()
        ctx.close(out[phase + '/loss'].detach(), ce(x, lab)[0], what + ': loss', 1e-4)
        ctx.close(out[phase + '/accu'], np.mean(x.argmax(1) == lab), what + ': accuracy', 1e-5)
      elif task == 'seg':
        pts = batch['points']
        lab = (pts.labels if not isinstance(pts, list) else
               torch.cat([p.labels for p in pts])).view(-1).numpy().astype(int)
        ctx.check(tuple(res.shape) == (len(lab), fl.MODEL.nout) and fl.MODEL.nout == nc,
                  what + ': one row per point, one column per class')
        keep = lab > fl.LOSS.mask
        x = res.detach().double().numpy()[keep]
        ctx.close(out[phase + '/loss'].detach(), ce(x, lab[keep])[0], what + ': loss', 1e-4)
        ctx.close(out[phase + '/accu'], np.mean(x.argmax(1) == lab[keep]),
                  what + ': accuracy', 1e-5)
      else:
        depth = fl.MODEL.depth
        ctx.check(octree.depth == depth == fl.DATA[phase].depth, what + ': depths')
        logits = res['logits']
        ctx.check(sorted(logits) == list(range(fl.MODEL.full_depth, depth + 1)),
                  what + ': depths of the logits')
        labels = {d: (octree.children[d] >= 0).numpy().astype(int) for d in logits}
        want = feature(octree)
        verify_gen(ctx, out, phase, logits, res['signal'], labels, want, what)
      loss = out[phase + '/loss']
      ctx.check(bool(torch.isfinite(loss)), what + ': the loss is %s' % loss)
      if phase == 'train':
        loss.backward()
        for k, p in net.named_parameters():
          ctx.check(p.grad is not None and bool(torch.isfinite(p.grad).all()),
                    lambda: '%s: gradient of %s' % (what, k))
        # a small step against the gradient
        with torch.no_grad():
          for p in net.parameters():
            p -= 1e-4 * p.grad / (1 + p.grad.abs().max())
      ctx.trans()
    ctx.state(case['name'], draw)
    ctx.outcome(case['name'])
  finally:
    shutil.rmtree(scratch, ignore_errors=True)


def feature(octree):
  """ Normal and displacement of the leaves in float64. """
  d = octree.depth
  nrm = octree.normals[d].double().numpy()
  p = octree.points[d].double().numpy()
  return np.concatenate([nrm, ((p - np.floor(p) - .5) * nrm).sum(1, keepdims=True)], 1)
