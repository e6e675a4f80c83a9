"""C06: merging octrees gives the octree of the whole batch."""

import itertools
import numpy as np
from mc import ref, shapes
from mc.oct import check_structure, check_neigh, snapshot, same

ID = 'C06'
BOUNDS = ('all ordered lists with repetition of length 1-3 (4 thorough) over 6 '
          'shapes (one cell, opposite cell, octant, full/board, far pair, no '
          'point) for depths 1-4, 7, 12, 16 and several full depths; attribute subsets; '
          'float32/float64; built, partially grown and fully grown octrees; lists '
          'of 33, 300 and 5000 samples; inputs with and without neighbours, shared '
          'objects and equal copies')
ASSUMPTIONS = ['the octrees of a list have the same attributes, depth and full depth']

CONFIGS = ((1, 1), (1, 0), (2, 1), (2, 2), (3, 1), (3, 2), (4, 2), (7, 2), (12, 1), (16, 2))


def alphabet(depth):
  n = 1 << depth
  full = shapes.cells(depth) if depth <= 2 else \
      [p for p in shapes.cells(min(depth, 4)) if sum(p) % 2 == 0 and max(p) < 8]
  return [[[0, 0, 0]], [[n - 1, n - 1, n - 1]], [], shapes.subset([0, 0, n // 2 - 1], 0x96),
          [[0, n - 1, 0], [n - 1, 0, n - 1]], full]


def cases(tier):
  out = []
  for depth, full in CONFIGS:
    for k in range(1, 5 if tier == 'thorough' else 4):
      for first in range(6):
        if k < 3 and first:
          break
        out.append({'kind': 'lists', 'depth': depth, 'full': full, 'k': k,
                    'first': first})
    out.append({'kind': 'attrs', 'depth': depth, 'full': full})
    if full and depth < 5:
      out.append({'kind': 'grown', 'depth': depth, 'full': full})
    for size in (33, 300) + ((5000,) if depth == 4 else ()):
      out.append({'kind': 'long', 'depth': depth, 'full': full, 'size': size})
  out.append({'kind': 'reject'})
  return out


def run(case, ctx):
  import torch
  from ocnn.octree import merge_octrees
  kind = case['kind']
  if kind == 'reject':
    return reject(ctx)
  depth, full = case['depth'], case['full']
  alpha = alphabet(depth)
  if kind == 'lists':
    k = case['k']
    for t in itertools.product(range(6), repeat=k):
      if k >= 3 and t[0] != case['first']:
        continue
      one(ctx, [alpha[i] for i in t], t, depth, full,
          which=('nf', 'n', 'f', '')[sum(t) % 4],
          neigh=sum(t) % 3 == 0, dt=torch.float64 if sum(t) % 5 == 4 else torch.float32)
  elif kind == 'attrs':
    for which in ('', 'n', 'f', 'nf'):
      for neigh in (False, True):
        for dt in (torch.float32, torch.float64):
          for t in ((0,), (5, 2), (2, 5, 1), (3, 3), (4, 2, 0, 3)):
            one(ctx, [alpha[i] for i in t], t, depth, full, which, neigh, dt)
  elif kind == 'long':
    t = [(i * 5 + i // 7) % 5 for i in range(case['size'])]
    one(ctx, [alpha[i] for i in t], t, depth, full, 'f', False, torch.float32,
        shared=True)
  elif kind == 'grown':
    grown(ctx, depth, full, alpha)


def one(ctx, samples, t, depth, full, which, neigh, dt, shared=None):
  import torch
  from ocnn.octree import merge_octrees
  kw = dict(normals='n' in which, features=2 if 'f' in which else 0, dtype=dt)
  # equal samples are the same object or a second octree built alike
  made = {}
  octrees = []
  if shared is None:
    shared = sum(t) % 2 == 0
  for i, s in zip(t, samples):
    if i not in made or not shared:
      o = shapes.build_one(s, depth, full, **kw)
      if neigh and full:
        o.construct_all_neigh()
      made[i] = o
    octrees.append(made[i])
  distinct = list({id(o): (o, s) for o, s in zip(octrees, samples)}.values())[:8]
  before = [snapshot(o) for o, _ in distinct]
  merged = merge_octrees(octrees)
  tree = ref.tree_from_leaves(samples, depth, full)
  check_structure(ctx, merged, tree)
  for d in range(depth + 1):
    for nempty, name in ((False, 'batch_nnum'), (True, 'batch_nnum_nempty')):
      b, _ = tree.layer(d).nodes(nempty)
      ctx.equal(getattr(merged, name)[d], np.bincount(b, minlength=len(t)),
                '%s of layer %d' % (name, d))
  # signals: the concatenation of those of the samples
  for name in ('points', 'normals', 'features'):
    got = getattr(merged, name)
    rows = [getattr(o, name)[depth] for o in octrees]
    if rows[0] is None:
      ctx.check(got[depth] is None, name + ' appeared')
    else:
      ctx.equal(got[depth], np.concatenate([r.numpy() for r in rows]),
                name + ' of the merged octree', dtype=True)
  # ... which is that of the batch built at once
  if len(t) <= 33 and sum(map(len, samples)):
    batch = shapes.build_batch(samples, depth, full, **kw)
    for d in range(depth + 1):
      ctx.equal(merged.key(d), batch.key(d), 'keys of merged and built', dtype=True)
      ctx.equal(merged.children[d], batch.children[d], 'children of merged and built')
    ctx.equal(merged.nnum, batch.nnum, 'node numbers')
    ctx.close(merged.points[depth], batch.points[depth], 'leaf points', 1e-6)
  if full:
    merged.construct_all_neigh()
    for d in range(1, depth + 1):
      check_neigh(ctx, merged, tree, d, '333', 1, False)
      check_neigh(ctx, merged, tree, d, '222', 2, True)
  # the inputs are as before and usable
  for (o, s), snap in zip(distinct, before):
    same(ctx, snapshot(o), snap, 'input octree after merging')
    if full:
      o.construct_all_neigh()
      tr = ref.tree_from_leaves([s], depth, full)
      check_structure(ctx, o, tr, what='input: ')
      check_neigh(ctx, o, tr, depth, '333', 1, True, 'input: ')
  ctx.trace()
  ctx.state(depth, full, list(t) if len(t) < 10 else len(t), which)
  ctx.outcome(merged.nnum)
  ctx.sample({'depth': depth, 'full': full, 'shapes': list(t)[:10]})


def grown(ctx, depth, full, alpha):
  """ Octrees grown from labels; also with the last layer fully split. """
  import torch
  from ocnn.octree import merge_octrees, init_octree
  pick = [0, 1, 3, 5]
  for k in (1, 2, 3):
    for t in itertools.product(pick, repeat=k):
      s = [alpha[i] for i in t]
      merged = merge_octrees([shapes.build_grow([x], depth, full) for x in s])
      tree = ref.tree_from_leaves(s, depth, full)
      check_structure(ctx, merged, tree)
      ctx.check(merged.points[depth] is None, 'points appeared')
      merged.construct_all_neigh()
      check_neigh(ctx, merged, tree, depth, '333', 1, False)
      ctx.trace()
      ctx.state('grown', depth, full, t)
  for k in (1, 2, 5):
    merged = merge_octrees([init_octree(full, full) for _ in range(k)])
    tree = ref.Tree(full, full, k)
    check_structure(ctx, merged, tree)
    ctx.trace()


def reject(ctx):
  """ Lists of octrees that do not belong together are not merged silently. """
  from ocnn.octree import merge_octrees
  for a, b in (((3, 2), (4, 2)), ((3, 2), (3, 1)), ((4, 2), (2, 2))):
    for rev in (False, True):
      o = [shapes.build_one([[0, 0, 0]], *a), shapes.build_one([[0, 0, 0]], *b)]
      ctx.raises(lambda: merge_octrees(o[::-1] if rev else o), 'octrees %s %s' % (a, b))
      ctx.trans()
  ctx.state('reject')
  ctx.trace()
