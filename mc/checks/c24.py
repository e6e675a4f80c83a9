"""C24: collating samples keeps every sample in its own batch slot."""

import os
import shutil
import tempfile
import itertools
import numpy as np
from mc import ref, shapes, oct
from mc.rng import Draws

ID = 'C24'
TECHNIQUE = ('exhaustive exploration of batch lists and of dataset access sequences on '
             'the real classes, against batches processed afresh')
BOUNDS = ('all lists of length 1-3 over 5 samples and all permutations of 4 (thorough: '
          'all lists of length 4), lists of all lengths up to 18 (40), of 33 and of 65, including samples without points in the cube and '
          'repeated samples, with and without merged points, several octree and points '
          'entries; all index sequences of length <= 3 over 4 files in memory and on '
          'disk, with and without augmentation (draws enumerated); loader batches')
ASSUMPTIONS = ['the files live in a scratch directory']


def cases(tier):
  out = []
  n = 4 if tier == 'thorough' else 3
  for merge in (False, True, None):
    for k in range(1, n + 1):
      parts = max(1, 5 ** k // 25)
      for part in range(parts):
        out.append({'kind': 'collate', 'k': k, 'part': [part, parts], 'merge': merge})
    out.append({'kind': 'perm', 'merge': merge})
    out.append({'kind': 'long', 'merge': merge})
  for memory in (False, True):
    for distort in (False, True):
      for first in range(4):
        out.append({'kind': 'dataset', 'memory': memory, 'distort': distort,
                    'first': first, 'k': 3 if tier == 'quick' else 4})
  out.append({'kind': 'loader'})
  return out


def raw(i, salt=0):
  """ Sample i: a few points, some outside of the cube; sample 3 has none inside. """
  n = (4, 1, 7, 2, 5)[i]
  cell = ref.idata(n, 3, i + 10 * salt, 0, 7)
  xyz = (cell + 0.53) / 4.0 - 1
  xyz *= .97
  nrm = ref.idata(n, 3, i + 5, -3, 3) * 1.0
  nrm[:, 0] = 3.5
  nrm /= np.linalg.norm(nrm, axis=1, keepdims=True)
  out = np.zeros(n, bool)
  if i in (0, 2):
    out[1::3] = True
  if i == 3:
    out[:] = True
  xyz[out] += 2.5
  return {'points': xyz.astype(np.float32), 'normals': nrm.astype(np.float32),
          'labels': (np.arange(n) * 10 + i).astype(np.float32)}


def transform(distort=False, depth=3, full=1):
  import torch
  from ocnn.dataset import Transform
  from ocnn.octree import Points

  class Seg(Transform):
    def preprocess(self, sample, idx):
      return {'points': Points(*[torch.from_numpy(sample[k]) for k in
                                 ('points', 'normals')],
                               labels=torch.from_numpy(sample['labels']).unsqueeze(1))}
  return Seg(depth, full, distort, [0, 180, 0], [1, 1, 1], .25, False, .125,
             [.5, .5, 0.])


LABELS = [0, 4, 300, -1, 2 ** 40 + 1]


def processed(i, kind, depth=3, full=1):
  """ An independent processed sample. """
  import torch
  if kind == 'plain':
    from ocnn.dataset import Transform
    t = Transform(depth, full, False, [0, 0, 0], [1, 1, 1], 0, True, 0, [0, 0, 0])
    s = raw(i)
    s.pop('labels')
    out = t(s, i)
  else:
    out = transform(False, depth, full)(raw(i), i)
  out['label'] = LABELS[i]
  out['filename'] = 'f%d' % i
  # a second octree and a second cloud, as used for completion
  two = transform(False, depth, full)(raw((i + 1) % 5, 1), i)
  out['octree_gt'], out['points_gt'] = two['octree'], two['points']
  return out


def reference(sel):
  """ Cells of the kept points per sample, for both octrees. """
  def cells(i, salt):
    x = raw(i, salt)['points']
    x = x[(np.abs(x) < 1).all(1)]
    return np.floor((x.astype(float) + 1) * 4).astype(int).tolist()
  one = ref.tree_from_leaves([cells(i, 0) for i in sel], 3, 1)
  two = ref.tree_from_leaves([cells((i + 1) % 5, 1) for i in sel], 3, 1)
  return one, two


def ready(ctx, octree, tree, what):
  """ The octree of the batch with all neighbours. """
  oct.check_structure(ctx, octree, tree, what=what)
  for d in range(1, tree.depth + 1):
    for nempty in (False, True):
      oct.check_neigh(ctx, octree, tree, d, '333', 1, nempty, what)
  for d in range(tree.depth + 1):
    lay = tree.layer(d)
    ctx.equal(octree.batch_nnum[d], np.bincount(lay.b, minlength=tree.batch_size),
              what + 'nodes per sample')
    ctx.equal(octree.batch_nnum_nempty[d],
              np.bincount(lay.b[lay.nempty], minlength=tree.batch_size),
              what + 'non-empty nodes per sample')


def run(case, ctx):
  if case['kind'] == 'collate':
    i, n = case['part']
    every = list(itertools.product(range(5), repeat=case['k']))
    every = every[len(every) * i // n:len(every) * (i + 1) // n]
    for s, sel in enumerate(every):
      collate(ctx, sel, case['merge'], ('seg', 'plain')[s % 2])
  elif case['kind'] == 'perm':
    for sel in itertools.permutations(range(5), 4):
      collate(ctx, sel, case['merge'], 'seg')
  elif case['kind'] == 'long':
    top = 41 if ctx.tier == 'thorough' else 19
    for n in list(range(4, top)) + [33, 65]:
      for step in range(1, 5):
        collate(ctx, tuple((4 + step * j + j // 5) % 5 for j in range(n)), case['merge'],
                ('seg', 'plain')[n % 2])
  elif case['kind'] == 'dataset':
    dataset(case, ctx)
  else:
    loader(ctx)


def collate(ctx, sel, merge, kind):
  import torch
  from ocnn.dataset import CollateBatch
  cache = {}
  # a repeated index is the very same sample object
  batch = [cache.setdefault(i, processed(i, kind)) for i in sel]
  held = {i: (oct.snapshot(s['octree']), oct.psnapshot(s['points']), sorted(s))
          for i, s in cache.items()}
  col = CollateBatch() if merge is None else CollateBatch(merge_points=merge)
  out = col(batch)
  what = 'samples %s: ' % (list(sel),)
  one, two = reference(sel)
  ready(ctx, out['octree'], one, what)
  ready(ctx, out['octree_gt'], two, what + 'second ')
  ctx.check(isinstance(out['label'], torch.Tensor), what + 'labels are no tensor')
  ctx.equal(out['label'], np.array([LABELS[i] for i in sel]), what + 'labels')
  ctx.check(out['filename'] == ['f%d' % i for i in sel], what + 'file names')
  for j, i in enumerate(sel):
    ctx.equal(out['inbox_mask'][j], cache[i]['inbox_mask'], what + 'masks')
  # leaf signals of every sample
  d = one.depth
  leaf = one.layer(d)
  b = leaf.b[leaf.nempty]
  for j, i in enumerate(sel):
    src = cache[i]['octree']
    pick = torch.from_numpy(b == j)
    ctx.equal(out['octree'].points[d][pick], src.points[d], what + 'leaf positions')
    ctx.equal(out['octree'].normals[d][pick], src.normals[d], what + 'leaf normals')
  pts = [cache[i]['points'] for i in sel]
  gt = [cache[i]['points_gt'] for i in sel]
  for name, src in (('points', pts), ('points_gt', gt)):
    p = out[name]
    if merge:
      ctx.equal(p.points, torch.cat([q.points for q in src]), what + name)
      ctx.equal(p.batch_id.view(-1), np.repeat(np.arange(len(sel)), [q.npt for q in src]),
                what + 'sample index of ' + name)
      ctx.equal(p.batch_npt, [q.npt for q in src], what + 'counts of ' + name)
      ctx.check(p.batch_size == len(sel), what + 'batch size of ' + name)
      # outputs per point split back to the files
      if name == 'points' and kind == 'seg':
        parts = torch.split(p.labels, p.batch_npt.tolist())
        for j, i in enumerate(sel):
          full = np.full(len(cache[i]['inbox_mask']), -1.)
          full[out['inbox_mask'][j].numpy()] = parts[j].view(-1).numpy()
          lab = raw(i)['labels']
          kept = (np.abs(raw(i)['points']) < 1).all(1)
          ctx.equal(full, np.where(kept, lab, -1.), what + 'per-point outputs')
    else:
      ctx.check(isinstance(p, list) and len(p) == len(sel), what + name + ' list')
      for q, s in zip(p, src):
        oct.same(ctx, oct.psnapshot(q), oct.psnapshot(s), what + name)
  for i, s in cache.items():
    oct.same(ctx, oct.snapshot(s['octree']), held[i][0], what + 'octree of the sample')
    oct.same(ctx, oct.psnapshot(s['points']), held[i][1], what + 'points of the sample')
    ctx.check(sorted(s) == held[i][2], what + 'entries of the sample')
  ctx.trans()
  ctx.trace()
  ctx.state('collate', sel, merge, kind)
  ctx.sample({'samples': list(sel), 'merge_points': merge})


def batch_state(out):
  r = {}
  for k, v in out.items():
    if 'octree' in k:
      r[k] = oct.snapshot(v)
    elif 'points' in k:
      r[k] = [oct.psnapshot(p) for p in v] if isinstance(v, list) else oct.psnapshot(v)
    else:
      r[k] = v
  return r


NAMES = ['a.npz', 'sub/b.npz', 'c.npz', 'sub/d.npz']


def files(tmp):
  os.makedirs(os.path.join(tmp, 'sub'))
  lst = os.path.join(tmp, 'list.txt')
  with open(lst, 'w') as f:
    for i, n in enumerate(NAMES):
      np.savez(os.path.join(tmp, n), **raw((0, 1, 2, 4)[i]))
      f.write('%s %d\n' % (n, 7 - i))
  return lst


def read(name):
  with np.load(name) as z:
    return {k: z[k] for k in z.files}


def make(tmp, lst, memory, distort):
  from thsolver import Dataset
  return Dataset(tmp, lst, transform(distort), read, memory)


def dataset(case, ctx):
  """ Every access sequence equals fresh processing with the same draws. """
  from ocnn.dataset import CollateBatch
  tmp = tempfile.mkdtemp(prefix='c24')
  try:
    lst = files(tmp)
    for k in range(1, case['k'] + 1):
      for tail in itertools.product(range(4), repeat=k - 1):
        seq = (case['first'],) + tail
        ds = make(tmp, lst, case['memory'], case['distort'])
        got, want = [], []
        for n, i in enumerate(seq):
          us = [((n * 5 + j * 3) % 7) / 7.0 for j in range(12)]
          with Draws(us, cycle=True):
            got.append(ds[i])
          fresh = make(tmp, lst, False, case['distort'])
          with Draws(us, cycle=True):
            want.append(fresh[i])
          what = 'access %s, step %d' % (seq, n)
          oct.same(ctx, batch_state(got[-1]), batch_state(want[-1]), what)
          ctx.check(got[-1]['label'] == 7 - i and got[-1]['filename'] == NAMES[i],
                    what + ': label and name')
          ctx.trans()
        for merge in (True, False):
          a = batch_state(CollateBatch(merge)(got))
          b = batch_state(CollateBatch(merge)(want))
          oct.same(ctx, a, b, 'batch of accesses %s' % (seq,))
          ctx.equal(a['label'], [7 - i for i in seq], 'labels of accesses %s' % (seq,))
        # earlier outputs are still what they were
        for n, (x, y) in enumerate(zip(got, want)):
          oct.same(ctx, batch_state(x), batch_state(y), 'earlier output of %s' % (seq,))
        ctx.trace()
        ctx.state('dataset', case['memory'], case['distort'], seq)
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


def loader(ctx):
  """ Batches of a loader in order, for every batch size. """
  import torch
  from ocnn.dataset import CollateBatch
  tmp = tempfile.mkdtemp(prefix='c24')
  try:
    lst = files(tmp)
    for memory in (False, True):
      for order in itertools.permutations(range(4)):
        for size in (1, 2, 3, 4):
          ds = make(tmp, lst, memory, False)
          dl = torch.utils.data.DataLoader(ds, batch_size=size, sampler=list(order),
                                           collate_fn=CollateBatch(True))
          for n, out in enumerate(dl):
            sel = order[n * size:n * size + size]
            idx = [(0, 1, 2, 4)[i] for i in sel]
            one, _ = reference(idx)
            ready(ctx, out['octree'], one, 'loader %s/%d: ' % (order, size))
            ctx.check(out['filename'] == [NAMES[i] for i in sel], 'loader: names')
            ctx.equal(out['label'], [7 - i for i in sel], 'loader: labels')
            lab = np.concatenate([raw(i)['labels'][(np.abs(raw(i)['points']) < 1).all(1)]
                                  for i in idx])
            ctx.equal(out['points'].labels.view(-1), lab, 'loader: point labels')
            ctx.trans()
          ctx.trace()
          ctx.state('loader', memory, order, size)
  finally:
    shutil.rmtree(tmp, ignore_errors=True)
