"""C22: selecting, clipping, merging and saving points keep attributes aligned."""

import os
import shutil
import tempfile
import itertools
import numpy as np
from mc import ref, oct, shapes

ID = 'C22'
TECHNIQUE = ('bounded exhaustive exploration of selections, clip ranges, merge lists and '
             'save formats on the real Points objects, against row-wise references')
BOUNDS = ('all 16 attribute subsets; all 2^n masks for n <= 7, all index sequences of '
          'length <= 3 out of 4, all permutations of 5, slices; all pairs of selections; '
          'clip ranges at lattice positions on, inside and outside of the limits; all '
          'lists of up to 4 clouds with 0-3 points; every info string over subsets of '
          'PNFLB in several orders, npz and xyz')
ASSUMPTIONS = ['text files hold six decimals',
               'saved point clouds are written into a scratch directory']

NAMES = ('normals', 'features', 'labels', 'batch_id')


def cases(tier):
  out = []
  deep = tier == 'thorough'
  for which in range(16):
    for n in range(0, 9 if deep else 8):
      out.append({'kind': 'mask', 'which': which, 'n': n})
    out.append({'kind': 'index', 'which': which})
    out.append({'kind': 'twice', 'which': which, 'n': 5 if deep else 4})
    out.append({'kind': 'save', 'which': which})
  for which in (0, 5, 15):
    for part in range(8):
      out.append({'kind': 'clip', 'which': which, 'part': part})
  for which in range(16):
    out.append({'kind': 'merge', 'which': which, 'most': 5 if deep and which in (0, 15) else 4})
  return out


def make(n, which, salt=0, dtype=None, xyz=None, size=1):
  """ Every row identifies itself in every attribute. """
  import torch
  from ocnn.octree import Points
  dtype = dtype or torch.float32
  i = torch.arange(n).view(-1, 1) + 100 * salt
  if xyz is None:
    xyz = torch.cat([i, i + .25, -i - .5], 1)
  kw = {}
  if which & 1:
    kw['normals'] = torch.cat([i * 2, i * 3, i + 7], 1).to(dtype)
  if which & 2:
    kw['features'] = torch.cat([i + 1000, -i], 1).to(dtype)
  if which & 4:
    kw['labels'] = i[:, 0] * 10 if salt % 2 else torch.cat([i * 10, i * 11], 1)
  if which & 8:
    kw['batch_id'] = i * 5
  kw = {k: shapes.layout(v, salt + j) for j, (k, v) in enumerate(kw.items())}
  return Points(shapes.layout(xyz.to(dtype), salt + which), **kw, batch_size=size)


def rows(p):
  out = {'points': p.points.numpy()}
  for k in NAMES:
    v = getattr(p, k)
    out[k] = None if v is None else v.numpy()
  return out


def expect(ctx, got, want, sel, what):
  for k, v in want.items():
    g = getattr(got, k)
    if v is None:
      ctx.check(g is None, lambda: '%s: %s appear' % (what, k))
    else:
      ctx.check(g is not None, lambda: '%s: %s are lost' % (what, k))
      ctx.equal(g, v[sel], lambda: '%s: %s' % (what, k), dtype=True)


def run(case, ctx):
  import torch
  kind = case['kind']
  if kind == 'mask':
    n, which = case['n'], case['which']
    for dt in (torch.float32, torch.float64):
      p = make(n, which, 1, dt, size=3)
      want = rows(p)
      before = oct.psnapshot(p)
      for bits in itertools.product((False, True), repeat=n):
        q = p[torch.tensor(bits, dtype=torch.bool)]
        expect(ctx, q, want, np.array(bits, dtype=bool), 'mask %s' % (bits,))
        ctx.check(q.batch_size == 3, 'batch size of a selection')
        ctx.check(q.npt == sum(bits), 'number of points')
        ctx.check(q.device == p.device, 'device')
        ctx.trans()
        ctx.state(which, bits)
      oct.same(ctx, oct.psnapshot(p), before, 'the source cloud')
    ctx.trace()
  elif kind == 'index':
    which = case['which']
    p = make(5, which, 0)
    want = rows(p)
    sel = [list(t) for k in range(4) for t in itertools.product(range(4), repeat=k)]
    sel += [list(t) for t in itertools.permutations(range(5))]
    for s in sel:
      q = p[torch.tensor(s, dtype=torch.long)]
      expect(ctx, q, want, np.array(s, dtype=int), 'index %s' % (s,))
      ctx.trans()
      ctx.state(which, 'i', s)
    for a in range(6):
      for b in range(6):
        for st in (1, 2):
          q = p[a:b:st]
          expect(ctx, q, want, slice(a, b, st), 'slice %d:%d:%d' % (a, b, st))
          ctx.trans()
    ctx.trace()
  elif kind == 'twice':
    n, which = case['n'], case['which']
    p = make(n, which, 2)
    want = rows(p)
    for bits in itertools.product((False, True), repeat=n):
      q = p[torch.tensor(bits)]
      m = sum(bits)
      idx = np.nonzero(bits)[0]
      for b2 in itertools.product((False, True), repeat=m):
        r = q[torch.tensor(b2, dtype=torch.bool)]
        expect(ctx, r, want, idx[list(b2)], 'masks %s %s' % (bits, b2))
        ctx.trans()
        ctx.state(which, bits, b2)
    ctx.trace()
  elif kind == 'clip':
    clip(case, ctx)
  elif kind == 'merge':
    merge(case, ctx)
  else:
    save(case, ctx)


def clip(case, ctx):
  import torch
  vals = (-1.25, -1.0, -.75, 0., .5, .75, 1.0, 1.5)
  xyz = np.array(list(itertools.product(vals, repeat=3)))
  xyz = xyz[np.argsort(ref.idata(len(xyz), 1, 3, 0, 10 ** 6)[:, 0])]
  lims = [(None, None, None), (-1., 1., 0.), (-1., 1., .25), (-.75, .75, 0.),
          (-1.25, 1.5, 0.), (0., .5, 0.), (-2., 2., .5), (.5, .5, 0.), (-1., 1., None),
          (0., 1., None), (-1.25, .75, .25), (-2., 2., None)]
  for lo, hi, e in lims:
    for dt in (torch.float32, torch.float64):
      a = xyz if case['part'] == 0 else xyz[case['part']::(case['part'] * 3)]
      p = make(len(a), case['which'], case['part'], dt, torch.tensor(a), size=2)
      want = rows(p)
      kw = {}
      if lo is not None:
        kw = dict(min=lo, max=hi)
        if e is not None:
          kw['esp'] = e
      l = (-1. if lo is None else lo) + (.01 if e is None else e)
      h = (1. if hi is None else hi) - (.01 if e is None else e)
      inside = ((a > l) & (a < h)).all(1)
      src = p.points
      mask = p.clip(**kw)
      what = 'clip %s' % (kw,)
      ctx.equal(mask, inside, what + ': mask')
      expect(ctx, p, want, inside, what)
      ctx.check(p.npt == inside.sum() and p.batch_size == 2, what + ': counts')
      ctx.equal(src, a, what + ': the tensor of the caller')
      ctx.trans()
      ctx.state(kw, case['part'])
      # the clipped cloud is a fixed point
      m2 = p.clip(**kw)
      ctx.check(bool(m2.all()) and len(m2) == inside.sum(), what + ': repeated')
      # bounds as tensors, one per axis
      q = make(len(a), case['which'], 1, dt, torch.tensor(a))
      t0 = torch.tensor([l, l - .5, -9.], dtype=dt)
      t1 = torch.tensor([h, 9., h + .25], dtype=dt)
      ctx.equal(q.inbox_mask(t0, t1), ((a > t0.numpy()) & (a < t1.numpy())).all(1),
                'mask of a box')
      ctx.equal(q.inbox_mask(), ((a > -1) & (a < 1)).all(1), 'mask of the unit box')
      ctx.trans(3)
  ctx.trace()


def merge(case, ctx):
  import torch
  from ocnn.octree import merge_points
  which, most = case['which'], case['most']
  pool = [make(n, which, n + 1) for n in range(4)]
  before = [oct.psnapshot(p) for p in pool]
  tab = [rows(p) for p in pool]
  # widths of the labels must agree
  if which & 4:
    pool = [make(n, which, 2 * n + 1) for n in range(4)]
    before = [oct.psnapshot(p) for p in pool]
    tab = [rows(p) for p in pool]
  for k in range(1, most + 1):
    for sel in itertools.product(range(4), repeat=k):
      for info in (None, True, False):
        out = merge_points([pool[i] for i in sel], **({} if info is None else
                                                     {'update_batch_info': info}))
        for name in ('points', 'normals', 'features', 'labels'):
          v = getattr(out, name)
          if tab[0][name] is None:
            ctx.check(v is None, name + ' appear')
          else:
            ctx.equal(v, np.concatenate([tab[i][name] for i in sel]),
                      lambda: 'merged %s of clouds %s' % (name, sel), dtype=True)
        ctx.check(out.npt == sum(sel), 'number of merged points')
        ctx.check(out.device == pool[0].device, 'device')
        if info is not False:
          ctx.check(out.batch_size == k, 'batch size of merged points')
          ctx.equal(out.batch_npt, np.array(sel), 'points per sample')
          ctx.equal(out.batch_id.view(-1), np.repeat(np.arange(k), sel),
                    lambda: 'sample index of merged points %s' % (sel,))
          ctx.check(tuple(out.batch_id.shape) == (sum(sel), 1), 'shape of the index')
          # splitting by the counts returns the clouds
          for i, part in zip(sel, torch.split(out.points, out.batch_npt.tolist())):
            ctx.equal(part, tab[i]['points'], 'points split by the counts')
        ctx.trans()
        ctx.state(which, sel, info)
  for p, b in zip(pool, before):
    oct.same(ctx, oct.psnapshot(p), b, 'merged clouds')
  # later changes of the merged cloud are not visible in the sources
  out = merge_points([pool[2], pool[3]])
  out.points += 1
  oct.same(ctx, oct.psnapshot(pool[2]), before[2], 'source after changing the result')
  ctx.trace()
  ctx.sample({'attributes': which, 'clouds': '0-3 points, lists up to %d' % most})


def save(case, ctx):
  import torch
  which = case['which']
  names = {'P': 'points', 'N': 'normals', 'F': 'features', 'L': 'labels',
           'B': 'batch_id'}
  tmp = tempfile.mkdtemp(prefix='c22')
  try:
    for n in (1, 3, 0):
      # large and small values: six decimals are kept
      xyz = torch.tensor([[1234.56789, -.001234, 98765.4321], [-.5, 3e-6, 1.],
                          [16777217., .123456, -7.]], dtype=torch.float64)[:n]
      p = make(n, which, n % 2 * 2 + 1, torch.float64 if which & 1 else None,
               None if which & 2 else xyz)
      want = rows(p)
      before = oct.psnapshot(p)
      i = 0
      for k in range(1, 6):
        for sel in itertools.combinations('PNFLB', k):
          i += 1
          info = ''.join(sel)
          info = (info, info[::-1], info.lower(), info[1:] + info[0])[i % 4]
          have = [c for c in info.upper() if want[names[c]] is not None]
          if not have:
            continue
          f = os.path.join(tmp, 'a%d.npz' % i)
          if i % 2:
            p.save(f, info)
          else:
            p.save(filename=f, info=info)
          with np.load(f) as z:
            ctx.check(sorted(z.files) == sorted(names[c] for c in have),
                      lambda: 'columns of %s: %s' % (info, z.files))
            for c in have:
              ctx.equal(z[names[c]], want[names[c]], 'saved ' + names[c], dtype=True)
          if n:
            f = os.path.join(tmp, 'b%d.xyz' % i)
            p.save(f, info)
            t = np.loadtxt(f, ndmin=2)
            w = np.concatenate([want[names[c]] for c in have], axis=1)
            ctx.check(t.shape == w.shape and np.abs(t - w).max() < 1e-6,
                      lambda: 'text columns of %s: %s, expected %s' % (info, t, w))
          ctx.trans(2)
          ctx.state(which, n, info)
      f = os.path.join(tmp, 'default.npz')
      p.save(f)
      with np.load(f) as z:
        ctx.check(sorted(z.files) == sorted(names[c] for c in 'PNFL'
                                            if want[names[c]] is not None), 'default')
      oct.same(ctx, oct.psnapshot(p), before, 'the saved cloud')
    ctx.raises(lambda: p.save(os.path.join(tmp, 'x.abc')), 'unknown file type')
    ctx.trace()
  finally:
    shutil.rmtree(tmp, ignore_errors=True)
