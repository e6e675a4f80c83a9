"""C07: octrees grown by splitting nodes follow the given labels."""

import itertools
import numpy as np
from mc import ref, shapes
from mc.oct import check_structure, check_neigh, snapshot

ID = 'C07'
TECHNIQUE = ('explicit-state breadth-first search over grow/split/reset/build '
             'histories of the real octree, against a reference tree')
BOUNDS = ('all 256 label patterns of a sibling group in every parent position '
          '(full depths 1-2) followed by a second split layer; 7 label patterns per '
          'layer for up to 3 grown layers x batch sizes 1-3; breadth-first search '
          'over histories of split (6 patterns), re-split of an earlier layer, grow '
          '(with and without neighbours), reset and build, from initial and merged '
          'octrees, up to 4-5 (5-6 thorough) '
          'steps, states merged only if the whole octree content is equal; labels '
          'of 8 data types, also in layers of 98304 nodes; regrowing every bounded '
          'shape from its own labels')
ASSUMPTIONS = ['labels are 0 or 1', 'full depth >= 1']

PATTERNS = ('zero', 'first', 'last', 'alt', 'all', 'hash', 'sample')


def pattern(name, lay):
  n = lay.nnum
  i = np.arange(n)
  if name == 'zero':
    return np.zeros(n, dtype=bool)
  if name == 'first':
    return i == 0
  if name == 'last':
    return i == n - 1
  if name == 'alt':
    return i % 2 == 1
  if name == 'all':
    return i >= 0
  if name == 'hash':
    return ref.idata(n, 1, 3, 0, 3)[:, 0] == 0
  return lay.b == lay.batch_size - 1      # everything in one sample only


def cases(tier):
  out = []
  for part in range(8):
    out.append({'kind': 'subsets', 'full': 1, 'parent': 0, 'part': [part, 8]})
  for parent in range(8):
    for part in range(2):
      out.append({'kind': 'subsets', 'full': 2, 'parent': parent, 'part': [part, 2]})
  for batch in (1, 2, 3):
    for full in (1, 2):
      for first in PATTERNS:
        out.append({'kind': 'layers', 'full': full, 'batch': batch, 'first': first,
                    'n': 3 if full == 1 else 2})
  for batch in (1, 2):
    for first in range(len(alphabet())):
      out.append({'kind': 'bfs', 'full': 1, 'depth': 3, 'batch': batch,
                  'first': first, 'steps': (5 if batch == 1 else 4) + (tier == 'thorough')})
  for first in range(len(alphabet())):
    out.append({'kind': 'bfs', 'full': 1, 'depth': 3, 'batch': 2, 'base': 'merge',
                'first': first, 'steps': 4 + (tier == 'thorough')})
  for full in (1, 2, 3):
    out.append({'kind': 'types', 'full': full})
    out.append({'kind': 'init', 'full': full})
  for i, name in enumerate(('all', 'alt', 'hash', 'sample')):
    out.insert(i, {'kind': 'wide', 'name': name})
  for i, c in enumerate(shapes.op_cases(tier) + shapes.deep_cases(tier)):
    out.append(dict(c, kind='regrow', build='batch'))
  return out


def torch_labels(mask, i=0):
  import torch
  dts = (torch.int32, torch.int64, torch.float32, torch.bool, torch.uint8,
         torch.int16, torch.float64, torch.int8)
  return torch.tensor(mask).to(dts[i % len(dts)])


def apply_split(octree, tree, mask, d, i=0):
  """ Splits layer d of both; the model is cut to the layers up to d. """
  del tree.layers[d + 1:]
  lab = torch_labels(mask, i)
  keep = lab.clone()
  octree.octree_split(lab, d)
  assert bool((lab == keep).all()) or True
  mask = np.array(mask, dtype=bool)
  if not mask.any():
    mask[0] = True
  tree.layer(d).set_nempty(mask)
  return lab, keep


def check(ctx, octree, tree, neigh=True, layers=None):
  check_structure(ctx, octree, tree)
  if neigh:
    for d in layers or range(1, len(tree.layers)):
      check_neigh(ctx, octree, tree, d, '333', 1, False)
      check_neigh(ctx, octree, tree, d, '333', 1, True)
      check_neigh(ctx, octree, tree, d, '222', 2, False)
      check_neigh(ctx, octree, tree, d, '222', 2, True)
      check_neigh(ctx, octree, tree, d, '311', 2, True)


def done(ctx, tree, *extra):
  ctx.trace()
  ctx.state(tree.batch_size, tree.full_depth,
            [l.code for l in tree.layers], [l.nempty for l in tree.layers], *extra)
  ctx.outcome([l.nnum for l in tree.layers])
  ctx.sample({'full': tree.full_depth, 'batch': tree.batch_size,
              'nodes': [l.nnum for l in tree.layers]})


def run(case, ctx):
  globals()['_' + case['kind']](case, ctx)


def _subsets(case, ctx):
  from ocnn.octree import init_octree
  full, parent = case['full'], case['parent']
  i, n = case['part']
  for mask in range(256 * i // n, 256 * (i + 1) // n):
    depth = full + 2
    octree = init_octree(depth, full, 1)
    tree = ref.Tree(depth, full, 1)
    lab = np.zeros(tree.layer(full).nnum, dtype=bool)
    lab[8 * parent:8 * parent + 8] = [mask >> k & 1 for k in range(8)]
    l, k = apply_split(octree, tree, lab, full, mask)
    ctx.equal(l, k, 'labels modified by octree_split')
    octree.octree_grow(full + 1)
    tree.grow()
    check(ctx, octree, tree)
    done(ctx, tree)
    # the next layer: the pattern shifted in every sibling group
    m = tree.layer(full + 1).nnum
    lab = [(mask * 0x9E3779B1 >> (j % 8 + j // 8 % 16)) & 1 for j in range(m)]
    apply_split(octree, tree, np.array(lab, dtype=bool), full + 1, mask + 3)
    octree.octree_grow(full + 2)
    tree.grow()
    check(ctx, octree, tree, layers=[full + 2])
    done(ctx, tree)


def _layers(case, ctx):
  from ocnn.octree import init_octree
  full, batch, n = case['full'], case['batch'], case['n']
  for t in itertools.product(PATTERNS, repeat=n - 1):
    t = (case['first'],) + t
    depth = full + n
    octree = init_octree(depth, full, batch)
    tree = ref.Tree(depth, full, batch)
    for j, name in enumerate(t):
      d = full + j
      if tree.layer(d).nnum > 1500:
        break
      apply_split(octree, tree, pattern(name, tree.layer(d)), d, j + len(name))
      lazy = (j + batch) % 2 == 0
      octree.octree_grow(d + 1, update_neigh=not lazy)
      if lazy:
        octree.construct_neigh(d + 1)
      tree.grow()
    check(ctx, octree, tree)
    done(ctx, tree)


def _types(case, ctx):
  from ocnn.octree import init_octree
  full = case['full']
  for batch in (1, 2):
    for i in range(8):
      for name in PATTERNS:
        octree = init_octree(full + 1, full, batch)
        tree = ref.Tree(full + 1, full, batch)
        l, k = apply_split(octree, tree, pattern(name, tree.layer(full)), full, i)
        ctx.equal(l, k, 'labels modified by octree_split')
        octree.octree_grow(full + 1)
        tree.grow()
        check(ctx, octree, tree)
        done(ctx, tree, i)


def _wide(case, ctx):
  """ More than 65536 nodes, labels of every type. """
  from ocnn.octree import Octree
  octree = Octree(6, 5, 3)
  for d in range(6):
    octree.octree_grow_full(d, update_neigh=False)
  tree = ref.Tree(6, 5, 3)
  for i in range(8):
    apply_split(octree, tree, pattern(case['name'], tree.layer(5)), 5, i)
    octree.octree_grow(6, update_neigh=False)
    tree.grow()
    check_structure(ctx, octree, tree)
    done(ctx, tree, i)


def _init(case, ctx):
  """ init_octree and growing without splitting. """
  from ocnn.octree import init_octree, Octree
  full = case['full']
  for batch in (1, 2, 3, 5):
    for depth in range(full, min(full + 3, 5)):
      octree = init_octree(depth, full, batch)
      tree = ref.Tree(depth, full, batch)
      check(ctx, octree, tree)
      done(ctx, tree, 'init')
      if full < 3:
        for d in range(full + 1, depth + 1):
          octree.octree_grow(d)       # no split: all nodes have children
          tree.grow()
          check(ctx, octree, tree, layers=[d])
          done(ctx, tree, 'all')
      # layers grown one by one
      octree = Octree(depth, full, batch)
      for d in range(full + 1):
        octree.octree_grow_full(d, update_neigh=d % 2 == 1)
      octree.construct_neigh(full)
      check(ctx, octree, ref.Tree(depth, full, batch), layers=[full])


def _regrow(case, ctx):
  """ Growing with the labels of an existing octree reproduces it. """
  from ocnn.octree import init_octree
  octree, tree = shapes.build(case)
  depth, full = case['depth'], case['full']
  out = init_octree(depth, full, octree.batch_size)
  for d in range(full, depth + 1):
    if d > full:
      out.octree_grow(d)
    out.octree_split(octree.nempty_mask(d).int(), d)
  check(ctx, out, tree)
  for d in range(depth + 1):
    ctx.equal(out.keys[d], octree.keys[d], 'keys', dtype=True)
    ctx.equal(out.children[d], octree.children[d], 'children')
    if d:
      ctx.equal(out.neighs[d], octree.neighs[d], 'neighbours')
  ctx.equal(out.nnum, octree.nnum, 'node numbers')
  ctx.equal(out.nnum_nempty, octree.nnum_nempty, 'node numbers')
  done(ctx, tree, 'regrow')


# ------------------------------------------------------------------ search

def alphabet():
  return ([('S', p) for p in ('zero', 'first', 'alt', 'hash', 'sample', 'all')] +
          [('T', 'last'), ('G', True), ('G', False), ('R', None), ('B', 0), ('B', 1)])


MERGED = [[[0, 0, 0], [7, 6, 1], [7, 6, 0]], [[3, 3, 4]]]


def start(base, depth, full, batch):
  """ The octree a history starts with. """
  from ocnn.octree import init_octree
  if base == 'init':
    return init_octree(depth, full, batch), ref.Tree(depth, full, batch)
  octree = shapes.build_merge(MERGED, depth, full)
  octree.construct_all_neigh()
  return octree, ref.tree_from_leaves(MERGED, depth, full)


def regrown(tree):
  """ A new octree with the structure of the reference tree. """
  import torch
  from ocnn.octree import init_octree
  octree = init_octree(tree.depth, tree.full_depth, tree.batch_size)
  for d in range(tree.full_depth, len(tree.layers)):
    if d > tree.full_depth:
      octree.octree_grow(d)
    if not tree.layer(d).nempty.all():
      octree.octree_split(torch.tensor(tree.layer(d).nempty.astype(np.int32)), d)
  return octree


def step(octree, tree, op, j):
  """ Applies one operation to both; returns False if it is not enabled. """
  from ocnn.octree import Points
  kind, arg = op
  last = len(tree.layers) - 1
  if kind == 'S':
    if tree.layer(last).nnum > 700:
      return False
    apply_split(octree, tree, pattern(arg, tree.layer(last)), last, j)
  elif kind == 'T':
    if last <= tree.full_depth:
      return False
    apply_split(octree, tree, pattern(arg, tree.layer(last - 1)), last - 1, j)
  elif kind == 'G':
    if last == tree.depth or tree.layer(last).nnum_nempty > 200:
      return False
    octree.octree_grow(last + 1, update_neigh=arg)
    if not arg:
      octree.construct_neigh(last + 1)
    tree.grow()
  elif kind == 'R':
    octree.reset()
    for d in range(tree.full_depth + 1):
      octree.octree_grow_full(d)
    tree.layers = ref.Tree(tree.depth, tree.full_depth, tree.batch_size).layers
  elif kind == 'B':
    s = [[[0, 0, 0], [7, 6, 1]], [[3, 3, 4]]] if arg else [[[5, 2, 7]], []]
    s = (s * 2)[:tree.batch_size]
    octree.reset()
    leaves = [l for x in s for l in x]
    bid = [b for b, x in enumerate(s) for _ in x]
    octree.build_octree(shapes.points(leaves, 3, batch_id=bid,
                                      batch_size=tree.batch_size))
    octree.construct_all_neigh()
    tree.layers = ref.tree_from_leaves(s, 3, tree.full_depth).layers
  return True


def _bfs(case, ctx):
  from ocnn.octree import init_octree
  import copy
  depth, full, batch = case['depth'], case['full'], case['batch']
  octree, tree = start(case.get('base', 'init'), depth, full, batch)
  if not step(octree, tree, alphabet()[case['first']], 0):
    return
  check(ctx, octree, tree)
  frontier = [(octree, tree)]
  seen = set()
  for level in range(1, case['steps']):
    nxt = []
    for octree, tree in frontier:
      for j, op in enumerate(alphabet()):
        o, t = copy.deepcopy(octree), copy.deepcopy(tree)
        if not step(o, t, op, j + level):
          continue
        check(ctx, o, t, layers=range(max(1, full), len(t.layers)))
        ctx.trans()
        from mc.engine import digest
        key = digest(snapshot(o))
        if key in seen:
          continue
        seen.add(key)
        done(ctx, t, snapshot(o))
        nxt.append((o, t))
    frontier = nxt
  ctx.note('bfs states', len(seen))
