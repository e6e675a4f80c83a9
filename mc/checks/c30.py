"""C30: segmentation evaluation assigns every prediction to its own point."""

import io
import os
import re
import sys
import shutil
import tempfile
import itertools
import importlib.util
import contextlib
from types import SimpleNamespace as NS
import numpy as np
from mc import ref

ID = 'C30'
TECHNIQUE = ('exhaustive exploration of evaluation histories (clipping masks, epochs, '
             'batches) and of label/prediction combinations on the real solver and '
             'tools, the network being a controlled environment')
BOUNDS = ('all clipping masks of 4 points over 2 epochs and of 3 points over 3 epochs, '
          '22 x 64 (thorough: 64 x 64) mask pairs of 2 files in one batch over 2 epochs, all ordered batch '
          'partitions of 3 files over 2 epochs; all predictions x labels of 3 points in '
          '3 classes for 3 ignore thresholds, sequences of test batches; all chunk masks '
          'of 4 points for 1-2 overlapping chunks, chunk indices 0-12, 20 and 200 '
          'classes; scenes of 6 lengths on both sides of the crop size x 3 axes x 4 origins x '
          '1-2 groups of 2999 or 3000 points out of 5 places, split into chunks and '
          'put together again; all predictions x labels of 3 points for the final score')
ASSUMPTIONS = ['the network is replaced by a table of logits; device copies return the '
               'object itself (no accelerator)',
               'evaluation runs with an ignore threshold below every label']


def cases(tier):
  out = [{'kind': 'config'}]
  for first in range(16):
    out.append({'kind': 'one', 'n': 4, 'epochs': 2 if tier == 'quick' else 3,
                'first': first})
  for first in range(8):
    out.append({'kind': 'one', 'n': 3, 'epochs': 3 if tier == 'quick' else 4,
                'first': first})
  for first in range(0, 64, 3 if tier == 'quick' else 1):
    out.append({'kind': 'two', 'first': first})
  for first in range(24):
    out.append({'kind': 'three', 'first': first})
  for mask in (-1, 0, 1, -255):
    for first in range(3):
      out.append({'kind': 'metrics', 'mask': mask, 'first': first})
    out.append({'kind': 'callback', 'mask': mask})
  for axis in range(3):
    for low in (-30.0, -6.5, 0.0, 4.0):
      out.append({'kind': 'crop', 'axis': axis, 'low': low})
  for full in (False, True):
    out.append({'kind': 'chunks', 'full': full})
    for part in range(4):
      out.append({'kind': 'score', 'full': full, 'part': part})
  return out


# ------------------------------------------------------------------ harness

def solver(scratch, mask=-1, epochs=1, classes=3, model=None):
  import torch
  import ocnn
  if '/repo/projects' not in sys.path:
    sys.path.append('/repo/projects')
  import segmentation

  # there is no accelerator: a device copy returns the object itself
  ocnn.octree.Octree.cuda = lambda self, *a, **k: self
  ocnn.octree.Points.cuda = lambda self, *a, **k: self
  data = NS(depth=3, full_depth=1)
  s = object.__new__(segmentation.SegSolver)
  s.FLAGS = NS(SOLVER=NS(eval_epoch=epochs), DATA=NS(test=data, train=data),
               MODEL=NS(feature='P', nempty=True),
               LOSS=NS(mask=mask, num_class=classes))
  s.eval_rst = {}
  s.logdir = scratch
  s.model = model
  s.is_master, s.world_size = True, 1
  return s


class File:
  """ A cloud with a name, points and labels. """

  def __init__(self, i, n):
    self.i, self.n = i, n
    self.name = ('scene%d.npz' % i, 'area/scene%d.ply' % i, 'a/b/s.%d.npz' % i)[i % 3]
    cell = np.array([[0, 0, 0], [7, 1, 2], [7, 1, 2], [3, 6, 5]])[:n]
    self.xyz = ((cell + np.array([[.25], [.5], [.75], [.25]])[:n]) / 4 - 1).astype('f4')
    self.nrm = np.tile(np.array([[0, 0, 1.]], 'f4'), (n, 1))
    self.labels = (np.arange(n) % 3).astype('f4')

  def sample(self, mask, labels=None):
    import torch
    from ocnn.octree import Points
    m = np.array(mask, bool)
    lab = self.labels if labels is None else labels
    p = Points(torch.from_numpy(self.xyz[m]), torch.from_numpy(self.nrm[m]),
               labels=torch.from_numpy(np.float32(lab)[m]).unsqueeze(1))
    return {'points': p, 'inbox_mask': torch.from_numpy(m), 'filename': self.name,
            'label': 0}


class Net:
  """ Returns logits of a table; checks that the queries are the points. """

  def __init__(self, ctx):
    self.ctx = ctx

  def expect(self, entries, epoch, table=None):
    """ entries: (file, mask) in batch order. """
    self.entries, self.epoch, self.table = entries, epoch, table

  def logits(self, f, j, epoch):
    return ref.idata(16, 3, 7 * f.i + 3 * j + epoch, -3, 3)[j] / 2.0 + \
        np.array([f.i, j, epoch]) / 8.0

  def __call__(self, data, octree, depth, query):
    import torch
    q = query.numpy()
    rows = []
    for b, (f, mask) in enumerate(self.entries):
      for j in np.flatnonzero(mask):
        rows.append((b, f, j))
    self.ctx.equal(q, np.array([list(f.xyz[j]) + [b] for b, f, j in rows]).reshape(-1, 4),
                   'points given to the network')
    self.ctx.check(octree.batch_size == len(self.entries) and
                   data.shape[0] == int(octree.nnum_nempty[depth]), 'octree of the network')
    if self.table is not None:
      out = [self.table[b][j] for b, f, j in rows]
    else:
      out = [self.logits(f, j, self.epoch) for b, f, j in rows]
    return torch.tensor(np.array(out, dtype='f4').reshape(len(out), 3))


def softmax(x):
  e = np.exp(x - x.max(-1, keepdims=True))
  return e / e.sum(-1, keepdims=True)


def run(case, ctx):
  scratch = tempfile.mkdtemp(prefix='mc30')
  try:
    globals()[case['kind']](case, ctx, scratch)
  finally:
    shutil.rmtree(scratch, ignore_errors=True)


def batch_of(s, entries, merged):
  from ocnn.dataset import CollateBatch
  import ocnn
  samples = [f.sample(m) for f, m in entries]
  if merged:
    for x in samples:
      o = ocnn.octree.Octree(3, 1)
      o.build_octree(x['points'])
      x['octree'] = o
  return CollateBatch(merge_points=merged)(samples)


def evaluate(ctx, scratch, history, merged=False, what=''):
  """ history: per epoch a list of batches, each a list of (file, mask). """
  net = Net(ctx)
  s = solver(scratch, -1, len(history), model=net)
  want, files = {}, {}
  for e, batches in enumerate(history):
    for entries in batches:
      net.expect(entries, e)
      b = batch_of(s, entries, merged)
      b['epoch'] = e
      s.eval_step(b)
      ctx.trans()
      for f, m in entries:
        w = want.setdefault(f.name, np.zeros((f.n, 3)))
        for j in np.flatnonzero(m):
          w[j] += softmax(net.logits(f, j, e))
        files[f.name] = f
    ctx.check(sorted(s.eval_rst) == sorted(want), lambda: what + 'accumulated files')
    for name in want:
      ctx.close(s.eval_rst[name], want[name],
                lambda: '%saccumulated predictions of %s after epoch %d' % (what, name, e),
                2e-6)
  for name in want:
    path = os.path.join(scratch, name[:-4] + '.eval.npz')
    ctx.check(os.path.exists(path), lambda: what + 'no saved predictions of ' + name)
    with np.load(path) as z:
      ctx.close(z['prob'], want[name], lambda: what + 'saved predictions of ' + name, 2e-6)
    os.remove(path)
  ctx.trace()
  ctx.outcome({k: np.round(v, 4) for k, v in want.items()})


def masks(n):
  return list(itertools.product((0, 1), repeat=n))


def one(case, ctx, scratch):
  f = File(0, case['n'])
  ms = masks(case['n'])
  for k, rest in enumerate(itertools.product(ms, repeat=case['epochs'] - 1)):
    h = (ms[case['first']],) + rest
    ctx.state('one', h)
    evaluate(ctx, scratch, [[[(f, m)]] for m in h], k % 2 == 0, 'masks %s: ' % (h,))
  ctx.sample({'masks of the last history': h})


def two(case, ctx, scratch):
  a, b = File(1, 3), File(2, 3)
  ms = masks(3)
  pairs = [(x, y) for x in ms for y in ms]
  first = pairs[case['first']]
  for k, second in enumerate(pairs):
    ctx.state('two', first, second)
    evaluate(ctx, scratch, [[[(a, first[0]), (b, first[1])]],
                            [[(b, second[1]), (a, second[0])]]],
             k % 2 == 1, 'masks %s then %s: ' % (first, second))


def partitions(items):
  """ Ordered partitions into batches with ordered members. """
  out = []
  for p in itertools.permutations(items):
    for cut in itertools.product((0, 1), repeat=len(items) - 1):
      groups, g = [], [p[0]]
      for c, x in zip(cut, p[1:]):
        if c:
          groups.append(g)
          g = []
        g.append(x)
      groups.append(g)
      out.append(groups)
  return out


def three(case, ctx, scratch):
  fs = [File(i, n) for i, n in ((0, 4), (1, 2), (3, 3))]
  parts = partitions([0, 1, 2])
  first = parts[case['first']]
  mask = [[(1, 0, 1, 1), (0, 1), (1, 1, 1)], [(0, 1, 1, 1), (1, 1), (0, 0, 1)]]
  for second in parts:
    ctx.state('three', first, second)
    h = [[[(fs[i], mask[e][i]) for i in g] for g in groups]
         for e, groups in enumerate((first, second))]
    evaluate(ctx, scratch, h, False, 'batches %s then %s: ' % (first, second))
  # fully clipped files, alone and with companions
  for g in ([0], [0, 1], [1, 0], [0, 1, 2]):
    evaluate(ctx, scratch, [[[(fs[i], mask[0][i] if i else (0,) * 4) for i in g]]],
             what='fully clipped file in %s: ' % g)


def config(case, ctx, scratch):
  """ The shipped evaluation configuration gives one row per point. """
  from thsolver import config as C
  base = C.get_config().clone() if hasattr(C, 'get_config') else C.FLAGS.clone()
  base.merge_from_file('/repo/projects/configs/seg_scannet_eval.yaml')
  f, net = File(0, 4), Net(ctx)
  s = solver(scratch, base.LOSS.mask, 1, model=net)
  for m in masks(4):
    net.expect([(f, m)], 0)
    b = batch_of(s, [(f, m)], False)
    b['epoch'] = 0
    s.eval_rst = {}
    s.eval_step(b)
    got = s.eval_rst[f.name].numpy()
    want = np.array([softmax(net.logits(f, j, 0)) * m[j] for j in range(4)])
    ctx.close(got, want, 'shipped configuration, mask %s' % (m,), 2e-6)
    ctx.state(m)
  ctx.trace()


# ------------------------------------------------------------------ metrics

TABLE = {0: [3., 1, 0], 1: [-1., 0.5, 0.25], 2: [-3., -2, 0.]}


def metric(pred, lab, mask, classes=3):
  """ Accuracy, loss, shape IoU, intersections and unions. """
  keep = [(p, l) for p, l in zip(pred, lab) if l > mask]
  n = len(keep)
  acc = sum(p == l for p, l in keep) / n if n else None
  loss = -np.mean([np.log(softmax(np.array(TABLE[p])))[l] for p, l in keep]) if n else None
  ins = [sum(p == k and l == k for p, l in keep) for k in range(classes)]
  uni = [sum(p == k or l == k for p, l in keep) for k in range(classes)]
  val = [k for k in range(classes) if any(l == k for _, l in keep)]
  iou = np.mean([ins[k] / uni[k] for k in val]) if val else 0.0
  return acc, loss, iou, ins, uni


def test_once(ctx, scratch, pred, lab, mask, split=None):
  f = File(0, len(pred))
  net = Net(ctx)
  s = solver(scratch, mask, model=net)
  if split is None:
    entries, table = [(f, (1,) * f.n)], [[TABLE[p] for p in pred]]
    b = batch_of(s, entries, False)
    from ocnn.dataset import CollateBatch
    b = CollateBatch()([f.sample((1,) * f.n, lab)])
  else:
    from ocnn.dataset import CollateBatch
    a, c = File(0, split), File(1, len(pred) - split)
    entries = [(a, (1,) * a.n), (c, (1,) * c.n)]
    table = [[TABLE[p] for p in pred[:split]], [TABLE[p] for p in pred[split:]]]
    b = CollateBatch()([a.sample((1,) * a.n, lab[:split]),
                        c.sample((1,) * c.n, lab[split:])])
  net.expect(entries, 0, table)
  return s, s.test_step(b)


def metrics(case, ctx, scratch):
  mask = case['mask']
  for rest in itertools.product(range(3), repeat=2):
    pred = (case['first'],) + rest
    for lab in itertools.product(range(3), repeat=3):
      for split in (None, 1) if ctx.tier != 'quick' else ((None, 1)[sum(lab) % 2],):
        _, out = test_once(ctx, scratch, pred, lab, mask, split)
        acc, loss, iou, ins, uni = metric(pred, lab, mask)
        w = 'predictions %s, labels %s, threshold %d: ' % (pred, lab, mask)
        if acc is not None:
          ctx.close(out['test/accu'], acc, w + 'accuracy')
          ctx.close(out['test/loss'], loss, w + 'loss')
        ctx.close(out['test/mIoU'], iou, w + 'IoU')
        for k in range(3):
          ctx.close(out['test/intsc_%d' % k], ins[k], w + 'intersection %d' % k)
          ctx.close(out['test/union_%d' % k], uni[k], w + 'union %d' % k)
        ctx.trans()
        ctx.state(mask, pred, lab, split)
        ctx.outcome(acc, iou, ins, uni)
    ctx.trace()
  ctx.sample({'threshold': mask, 'predictions': pred, 'labels': lab})


def callback(case, ctx, scratch):
  """ The final score over sequences of batches. """
  from thsolver.tracker import AverageTracker
  mask = case['mask']
  if mask < -1:
    return
  small = [((0, 1, 2), (0, 1, 2)), ((0, 0, 1), (0, 2, 1)), ((2, 2, 2), (1, 2, 0)),
           ((1, 1, 0), (0, 0, 0)), ((2, 1, 1), (2, 2, 1))]
  for n in (1, 2, 3):
    for seq in itertools.product(small, repeat=n):
      tr = AverageTracker()
      ins, uni = np.zeros(3), np.zeros(3)
      for pred, lab in seq:
        s, out = test_once(ctx, scratch, pred, lab, mask)
        tr.update(out)
        m = metric(pred, lab, mask)
        ins += m[3]
        uni += m[4]
      with contextlib.redirect_stdout(io.StringIO()):
        s.result_callback(tr, 3)
      ks = [k for k in range(3) if k > mask]
      want = np.mean([ins[k] / uni[k] if uni[k] else 0.0 for k in ks])
      avg = tr.average()
      ctx.close(avg['test/mIoU_part'], want, lambda: 'part IoU of %s, threshold %d' % (
          seq, mask))
      ctx.trace()
      ctx.state(seq, mask)
      ctx.outcome(round(float(want), 5))


# --------------------------------------------------------------------- tools

IDS20 = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 24, 28, 33, 34, 36, 39]


def tool(full, **args):
  """ A fresh instance of tools/seg_scannet.py with the given arguments. """
  argv = sys.argv
  sys.argv = ['seg_scannet.py'] + (['--scannet200'] if full else [])
  for k, v in args.items():
    sys.argv += ['--' + k, v]
  try:
    spec = importlib.util.spec_from_file_location(
        'seg_scannet', '/repo/projects/tools/seg_scannet.py')
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
  finally:
    sys.argv = argv
  return mod


def chunks(case, ctx, scratch):
  """ Overlapping chunks are added at the right points, labels mapped back. """
  pred, pin, out = [os.path.join(scratch, d) for d in ('pred', 'in', 'out')]
  for d in (pred, pin):
    os.makedirs(d)
  lst = os.path.join(scratch, 'list.txt')
  mod = tool(case['full'], path_in=pin, path_pred=pred, path_out=out, filelist=lst)
  ids = IDS20 if not case['full'] else list(mod.class_ids200)
  ncls = len(ids)

  def prob(n, salt):
    p = (ref.idata(n, ncls, salt, 0, 6) / 8.0).astype('f4')
    # one clear but overturnable maximum per row
    p[np.arange(n), (np.arange(n) * 7 + salt) % ncls] += 2 + salt % 3
    return p

  def go(plan, what):
    """ plan: list of (scan, chunk index or None, mask). """
    total, names = {}, []
    for k, (scan, idx, m) in enumerate(plan):
      m = np.array(m, bool)
      name = scan if idx is None else '%s.chunk_%d' % (scan, idx)
      p = prob(int(m.sum()) if idx is not None else m.size, k)
      np.savez(os.path.join(pred, name + '.eval.npz'), prob=p)
      if idx is not None:
        np.save(os.path.join(pin, name + '.mask.npy'), m)
      t = total.setdefault(scan, np.zeros((m.size, ncls)))
      t[m if idx is not None else np.ones(m.size, bool)] += p
      names.append(name)
    with open(lst, 'w') as f:
      f.write(''.join('%s.ply %d\n' % (n, 0) for n in names))
    with contextlib.redirect_stdout(io.StringIO()):
      mod.generate_output_seg()
    for scan, t in total.items():
      path = os.path.join(out, scan + '.txt')
      ctx.check(os.path.exists(path), lambda: '%s: no labels of %s' % (what, scan))
      got = np.loadtxt(path, ndmin=1)
      ctx.check(got.shape == (t.shape[0],), lambda: '%s: %s labels of %s' % (
          what, got.shape, scan))
      for j in range(t.shape[0]):
        top = np.sort(t[j])
        if t[j].any() and top[-1] == top[-2]:
          continue
        ctx.check(got[j] == ids[int(np.argmax(t[j]))], lambda: '%s: label %s of point %d '
                  'of %s, expected %d' % (what, got[j], j, scan, ids[int(np.argmax(t[j]))]))
      os.remove(path)
      ctx.outcome(got)
    ctx.check(not os.listdir(out), lambda: '%s: extra files %s' % (what, os.listdir(out)))
    ctx.trans(len(plan))
    ctx.trace()
    ctx.state(plan)

  ms = [m for m in masks(4) if any(m)]
  for a in ms:
    go([('scene0000_00', 0, a)], 'chunk %s' % (a,))
    for b in ms:
      go([('scene0000_00', 0, a), ('scene0000_00', 1, b)], 'chunks %s %s' % (a, b))
  full4 = (1, 1, 1, 1)
  for i in range(13):
    go([('scene0012_01', i, (1, 0, 1, 1)), ('scene0012_01', (i * 5 + 3) % 13 + 13,
                                            (1, 1, 0, 0))], 'chunk index %d' % i)
  # several scans in every order, with and without chunks, empty chunks of a scan
  plan = [('scene0001_00', None, full4), ('scene0002_00', 0, (0, 1, 1, 0)),
          ('scene0002_00', 10, (1, 1, 0, 0)), ('scene0003_02', None, (1, 1))]
  for p in itertools.permutations(plan):
    go(list(p), 'order %s' % [x[:2] for x in p])


def crop(case, ctx, scratch):
  """ Scenes split into chunks, the predictions of the chunks put together again. """
  from pathlib import Path
  from plyfile import PlyData
  scene = os.path.join(scratch, 'scene')
  out = os.path.join(scratch, 'out')
  lst = os.path.join(scratch, 'list.txt')
  mod = tool(False, path_in=scene, path_pred=scene, path_out=out, filelist=lst)
  axis, low = case['axis'], case['low']
  # along the axis: a few points at the ends, groups of points in between; a group
  # of 3000 points is kept, a smaller one is not
  where = (1.0, 6.0, 11.5, 14.0, 19.0)
  groups = [(w, n) for w in where for n in (3000, 2999)]
  scenes = [[g] for g in groups] + [
      [a, b] for a, b in itertools.combinations(groups, 2)
      if a[0] != b[0] and (a[1] == 3000 or b[1] == 3000)]
  if ctx.tier == 'quick':
    scenes = scenes[:10] + scenes[10::3]
  for k, parts in enumerate(scenes):
    length = (9.5, 10.0, 12.0, 15.0, 20.0, 21.0)[k % 6]
    rows = [[0.0] * 6, [length] + [0.0] * 5]
    for w, n in parts:
      w = min(w, length)
      for i in range(n):
        rows.append([w, (i % 7) / 4.0, (i % 11) / 4.0, i % 5, i % 3, len(rows) % 1024])
    pc = np.array(rows, dtype='f4')
    pc[:, :3] = np.roll(pc[:, :3], axis, axis=1)
    pc[:, axis] += low
    pc[:, (axis + 1) % 3] -= 3.25
    # points in an order unrelated to their places
    pc = pc[(np.arange(len(pc)) * 4001) % len(pc)] if len(pc) % 4001 else pc
    x = pc[:, axis].astype('f8') - low
    os.makedirs(scene)
    held = pc.copy()
    mod.generate_chunks(Path(scene) / 'scene0000_00.ply', pc)
    what = 'scene of length %s from %s, groups %s' % (length, low, parts)
    ctx.equal(pc, held, what + ': points')
    want = []
    if length >= 10:
      i = 0
      while True:
        m = (x >= 5 * i) & (x <= 5 * i + 10)
        if m.sum() >= 3000:
          want.append(m)
        if 5 * i + 10 >= length:
          break
        i += 1
    names = sorted(os.listdir(scene))
    expect = sorted(['scene0000_00.chunk_%d%s' % (i, e) for i in range(len(want))
                     for e in ('.ply', '.mask.npy')])
    ctx.check(names == expect, lambda: '%s: files %s, expected %d chunks' % (
        what, names, len(want)))
    total = np.zeros((len(pc), 21))
    for i in range(len(want)):
      base = os.path.join(scene, 'scene0000_00.chunk_%d' % i)
      m = np.load(base + '.mask.npy')
      ctx.check(m.dtype == bool and m.shape == (len(pc),), what + ': mask')
      ctx.check(bool((m == want[i]).all()), lambda: '%s: chunk %d has %d points, expected '
                '%d' % (what, i, m.sum(), want[i].sum()))
      v = PlyData.read(base + '.ply')['vertex'].data
      got = np.stack([v[n] for n in v.dtype.names], axis=1)
      ctx.equal(got, pc[m], '%s: points of chunk %d' % (what, i))
      # every point is recognised by its last column
      prob = np.zeros((len(got), 21), 'f4')
      prob[np.arange(len(got)), got[:, 5].astype(int) % 20 + 1] = 1
      np.savez(base + '.eval.npz', prob=prob)
      total[m] += prob
    if want:
      with open(lst, 'w') as f:
        f.write(''.join('scene0000_00.chunk_%d.ply 0\n' % i for i in range(len(want))))
      with contextlib.redirect_stdout(io.StringIO()):
        mod.generate_output_seg()
      got = np.loadtxt(os.path.join(out, 'scene0000_00.txt'))
      cover = np.any(want, axis=0)
      ids = np.array(IDS20)[pc[:, 5].astype(int) % 20 + 1]
      ctx.equal(got[cover], ids[cover].astype('f8'), what + ': labels of the scene')
      ctx.check(bool((got[~cover] == 0).all()), what + ': labels of points outside')
    shutil.rmtree(scene)
    ctx.trans(1 + len(want))
    ctx.trace()
    ctx.state(axis, low, length, parts)
    ctx.outcome([int(m.sum()) for m in want])


def score(case, ctx, scratch):
  """ The final accuracy and IoU over files. """
  pred, gt = os.path.join(scratch, 'p'), os.path.join(scratch, 'g')
  os.makedirs(pred)
  os.makedirs(gt)
  mod = tool(case['full'], path_in=gt, path_pred=pred)
  ids = IDS20 if not case['full'] else list(mod.class_ids200)
  ls = [0, ids[1], ids[-1], 2000]        # 2000 and 0 are not evaluated
  ps = [0, ids[1], ids[-1], ids[5]]
  k = 0
  for lab in itertools.product(ls, repeat=3):
    for p in itertools.product(ps, repeat=3):
      k += 1
      if k % 4 != case['part']:
        continue
      files = {'a.txt': (list(lab), list(p))}
      if k % 8 < 4:
        files['b.txt'] = ([ids[2], ids[5]], [ids[2], ids[1]])
      if not any(l in ids[1:] for l in lab):
        continue
      for d in (pred, gt):
        for n in os.listdir(d):
          os.remove(os.path.join(d, n))
      for n, (l, q) in files.items():
        np.savetxt(os.path.join(gt, n), l, fmt='%d')
        np.savetxt(os.path.join(pred, n), q, fmt='%d')
      buf = io.StringIO()
      with contextlib.redirect_stdout(buf):
        mod.calc_iou()
      text = buf.getvalue()
      acc, ins, uni = 0, {}, {}
      for l, q in files.values():
        keep = [(a, b) for a, b in zip(l, q) if a in ids[1:]]
        acc += np.mean([a == b for a, b in keep])
        for c in ids[1:]:
          ins[c] = ins.get(c, 0) + sum(a == c and b == c for a, b in keep)
          uni[c] = uni.get(c, 0) + sum(a == c or b == c for a, b in keep)
      iou = np.mean([ins[c] / uni[c] if uni[c] else 0 for c in ids[1:]])
      for name, want in (('Accu', acc / len(files)), ('IoU', iou)):
        m = re.findall(r'^%s: ([0-9.naninf-]+)$' % name, text, re.M)
        ctx.check(len(m) == 1 and abs(float(m[0]) - want) < 2e-6,
                  lambda: '%s of %s: %s, expected %f' % (name, files, m, want))
      ctx.trans()
      ctx.state(lab, p, case['full'])
      ctx.outcome(round(float(iou), 5))
  ctx.trace()
