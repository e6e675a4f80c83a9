"""C20: input features and exported points describe the leaves they belong to."""

import itertools
import numpy as np
from mc import ref, shapes, oct
from mc.cloud import Cloud

ID = 'C20'
TECHNIQUE = ('bounded exhaustive exploration of shapes x feature selections x export / '
             'rebuild round trips on the real code, against recomputed leaf signals')
BOUNDS = ('the shape families of C08 and deep octrees with 1, 2 or 4 points per leaf, '
          'built as a batch or merged; all 31 subsets of N, D, L, P, F in several '
          'orders and letter cases x both node modes x method and module; attribute '
          'subsets; export scaled and unscaled, rebuilt; grown octrees without points; '
          'float32 and float64; points on all combinations of upper faces of the cube '
          'and directly below the faces of cells, alone and repeated 3 and 5 times')
ASSUMPTIONS = ['octrees are rebuilt from exported means that rounding did not move onto '
               'the upper face of their cell']

WIDTH = {'N': 3, 'D': 1, 'L': 3, 'P': 3, 'F': None}


def cases(tier):
  out = []
  for i, c in enumerate(shapes.op_cases(tier, builds=('batch', 'merge', 'batch')) +
                        shapes.deep_cases(tier)):
    out.append(dict(c, kind='built', salt=i))
  for i, c in enumerate(shapes.op_cases(tier, builds=('grow',)) +
                        shapes.deep_cases(tier)):
    if i % 3 == 0:
      out.append(dict(c, kind='grown', build='grow', salt=i))
  for depth, full in ((1, 1), (3, 2), (6, 2), (16, 1)):
    for which in ('', 'n', 'f', 'nf'):
      out.append({'kind': 'built', 'fam': 'leaves', 'which': which, 'depth': depth,
                  'full': full, 'build': 'batch', 'salt': depth,
                  'leaves': [[[0, 0, 0], [1, 1, 1]], [], [[0, 1, 0]]]})
  for depth, full in ((1, 1), (2, 1), (3, 2), (5, 2), (8, 3), (12, 2), (16, 1)):
    for copies in (1, 3, 5):
      for batch in (1, 2):
        out.append({'kind': 'face', 'depth': depth, 'full': full, 'copies': copies,
                    'batch': batch})
  return out


def run(case, ctx):
  if case['kind'] == 'grown':
    return grown(case, ctx)
  if case['kind'] == 'face':
    return face(case, ctx)
  import torch
  salt, depth, full = case['salt'], case['depth'], case['full']
  which = case.get('which', 'nf')
  width = 1 + salt % 3 if 'f' in which else 0
  s = shapes.samples(case)
  cloud = Cloud(s, depth, salt, 'n' in which, width)
  dt = torch.float64 if salt % 4 == 3 else torch.float32
  how = case['build']
  if how == 'merge' and len(s) > 64:
    how = 'batch'
  octree = cloud.octree(full, how, dtype=dt)
  tree = cloud.tree(full)
  features(ctx, octree, tree, cloud, which, dt, salt)
  export(ctx, octree, tree, cloud, which, dt, full)
  ctx.trace()
  ctx.sample({'depth': depth, 'batch': len(s), 'attributes': which})


def features(ctx, octree, tree, cloud, which, dt, salt):
  import ocnn
  b, cell, pos, fea, nrm = cloud.leaves()
  depth = cloud.depth
  lay = tree.layer(depth)
  local = pos - cell - 0.5
  want = {'L': local, 'P': pos * 2.0 ** (1 - depth) - 1.0}
  if nrm is not None:
    want['N'] = nrm
    want['D'] = (local * nrm).sum(1, keepdims=True)
  if fea is not None:
    want['F'] = fea
  letters = [x for x in 'NDLPF' if x in want]
  i = salt
  for k in range(1, len(letters) + 1):
    for sel in itertools.combinations(letters, k):
      i += 1
      # any order and letter case selects the same channels in documented order
      text = ''.join(sel)
      text = (text, text[::-1], text.lower(), text[1:] + text[:1].lower())[i % 4]
      w = np.concatenate([want[x] for x in sel], axis=1)
      for nempty in (False, True):
        full = w
        if not nempty:
          full = np.zeros((lay.nnum, w.shape[1]))
          full[lay.nempty] = w
        if (i + nempty) % 2:
          out = octree.get_input_feature(text, nempty)
        else:
          out = ocnn.modules.InputFeature(text, nempty)(octree)
        what = 'features %s, nempty=%s' % (text, nempty)
        if 'N' in sel or 'D' in sel:
          ctx.close(out, full, what, 2e-6)
        else:
          ctx.equal(out, full, what)
        ctx.check(out.dtype == dt, 'data type, ' + what)
        ctx.trans()
        ctx.outcome(text, nempty)
  if len(want) == 5:
    ctx.close(ocnn.modules.InputFeature()(octree), octree.get_input_feature('NDF'),
              'default selection', 1e-9)
  ctx.state(depth, lay.code, lay.nempty, pos)


def export(ctx, octree, tree, cloud, which, dt, full):
  from ocnn.octree import Octree
  b, cell, pos, fea, nrm = cloud.leaves()
  depth = cloud.depth
  for rescale in (True, False):
    p = octree.to_points(rescale) if not rescale else octree.to_points()
    ctx.equal(p.points, pos * 2.0 ** (1 - depth) - 1 if rescale else pos,
              'exported positions')
    ctx.check(p.points.dtype == dt, 'type of exported positions')
    ctx.equal(p.batch_id.view(-1), b, 'sample indices of exported points')
    ctx.check(p.batch_size == cloud.size, 'batch size of exported points')
    ctx.check((p.normals is None) == (nrm is None) and
              (p.features is None) == (fea is None), 'attributes of exported points')
    if nrm is not None:
      ctx.close(p.normals, nrm, 'exported normals', 2e-6)
    if fea is not None:
      ctx.equal(p.features, fea, 'exported features')
    ctx.trans()
  p = octree.to_points()
  again = Octree(depth, full, cloud.size)
  idx = again.build_octree(p)
  ctx.equal(idx, np.arange(len(b)), 'leaf of each exported point')
  oct.check_structure(ctx, again, tree, what='rebuilt octree, ')
  ctx.equal(again.points[depth], octree.points[depth], 'positions of the rebuilt octree')
  if fea is not None:
    ctx.equal(again.features[depth], octree.features[depth], 'features, rebuilt')
  if nrm is not None:
    ctx.close(again.normals[depth], octree.normals[depth], 'normals, rebuilt', 2e-6)


def grown(case, ctx):
  import torch
  from ocnn.octree import Octree
  s = shapes.samples(case)
  depth, full = case['depth'], case['full']
  if not any(len(x) for x in s):
    return
  octree, tree = shapes.build(case, neigh=False)
  lay = tree.layer(depth)
  b, xyz = lay.nodes(True)
  for rescale in (True, False):
    p = octree.to_points(rescale)
    want = xyz + 0.5
    ctx.equal(p.points, want * 2.0 ** (1 - depth) - 1 if rescale else want,
              'leaf centres')
    ctx.equal(p.batch_id.view(-1), b, 'sample indices of the centres')
    ctx.check(p.normals is None and p.features is None and
              p.batch_size == tree.batch_size, 'attributes of the centres')
    ctx.trans()
  again = Octree(depth, full, tree.batch_size)
  idx = again.build_octree(octree.to_points())
  ctx.equal(idx, np.arange(len(b)), 'leaf of each centre')
  oct.check_structure(ctx, again, tree, what='rebuilt from centres, ')
  ctx.check(octree.points[depth] is None, 'the export stores points in the octree')
  # signals set by a decoder are exported with the centres
  n = len(b)
  nrm = torch.tensor(ref.idata(n, 3, 1), dtype=torch.float32)
  fea = torch.tensor(ref.idata(n, 4, 2), dtype=torch.float32)
  octree.normals[depth], octree.features[depth] = nrm, fea
  p = octree.to_points()
  ctx.equal(p.normals, nrm, 'normals of the centres')
  ctx.equal(p.features, fea, 'features of the centres')
  ctx.state('grown', depth, lay.code, lay.nempty)
  ctx.trace()


def face(case, ctx):
  """ Mean positions on the upper faces of the cube, or rounded onto the upper faces of
  their cells: they still belong to the cell that holds the points. """
  import torch
  from ocnn.octree import Octree, Points
  depth, copies, batch = case['depth'], case['copies'], case['batch']
  size = 2 ** depth
  for dt in (torch.float32, torch.float64):
    # the largest coordinate (in cells) below a face that survives the scaling
    below = 2.0 ** -((23 if dt == torch.float32 else 52) - depth)
    spots = []
    for axes in range(8):
      for inner in (0.25, 0.75):
        spots.append([size if axes >> a & 1 else inner for a in range(3)])
        spots.append([size if axes >> a & 1 else size - 1 + inner for a in range(3)])
        spots.append([1 - below if axes >> a & 1 else inner for a in range(3)])
        spots.append([size - below if axes >> a & 1 else inner for a in range(3)])
        spots.append([size // 2 - below if axes >> a & 1 else inner for a in range(3)])
    for s, spot in enumerate(spots):
      rows, ids = [], []
      for b in range(batch):
        v = spot if b == 0 else [size - 0.5, 0.5, 0.5]
        rows += [[x * 2.0 ** (1 - depth) - 1.0 for x in v]] * copies
        ids += [b] * copies
      pts = torch.tensor(rows, dtype=torch.float64).to(dt)
      pos = (pts[::copies].double().numpy() + 1.0) * 2.0 ** (depth - 1)
      cell = np.minimum(np.floor(pos), size - 1)
      nrm = np.tile([[0.6, 0.0, 0.8]], (len(pts), 1))
      octree = Octree(depth, case['full'], batch)
      octree.build_octree(Points(
          pts, torch.tensor(nrm, dtype=dt), batch_size=batch,
          batch_id=None if batch == 1 else torch.tensor(ids).view(-1, 1)))
      local = pos - cell - 0.5
      what = 'points at %r (cells) of depth %d' % (spot, depth)
      tol = 1e-9 + size * (2e-7 if dt == torch.float32 else 1e-15)
      ctx.close(octree.get_input_feature('L', True), local, 'local coordinates, ' + what,
                tol)
      ctx.close(octree.get_input_feature('D', True),
                (local * nrm[::copies]).sum(1, keepdims=True), 'displacement, ' + what, tol)
      ctx.close(octree.get_input_feature('P', True), pos * 2.0 ** (1 - depth) - 1.0,
                'positions, ' + what, 1e-6)
      if copies == 1:
        out = octree.to_points()
        ctx.close(out.points, pts, 'exported positions, ' + what, 1e-6)
        again = Octree(depth, case['full'], batch)
        ctx.equal(again.build_octree(out), np.arange(batch), 'rebuilt, ' + what)
        for d in range(depth + 1):
          ctx.equal(again.keys[d], octree.keys[d], 'keys of the rebuilt octree, ' + what)
          ctx.equal(again.children[d], octree.children[d], 'nodes, rebuilt, ' + what)
      ctx.trans(4)
      ctx.state('face', depth, copies, batch, s, str(dt))
  ctx.outcome('face', depth, copies, batch)
  ctx.trace()
