"""C21: geometric transforms of point clouds are the exact rigid and affine maps."""

import itertools
import math
import numpy as np
from mc import ref, shapes, oct

ID = 'C21'
TECHNIQUE = ('explicit-state exploration of all sequences of transforms up to a depth on '
             'the real Points objects in lock-step with a float64 model')
BOUNDS = ('all sequences of up to 3 (4 thorough) transforms from an alphabet of 29 '
          '(rotations, translations, scalings, flips, orientations, normalisation) on '
          '2 clouds with and without normals; every triple of rotation angles at '
          'multiples of 30 (15) degrees, and those of both signs that cancel; 729 scale factor triples from 0.001 to 700; all flip words up to '
          '4 letters; all transform / inverse pairs; normalisation of all clouds of 1-3 '
          'points on a lattice; orientation of all normals of a 5x5x5 lattice')
ASSUMPTIONS = ['scale factors are positive or mirror one or two axes',
               'values are compared with a tolerance of 1e-5 (float32, angles are single precision)']


def cases(tier):
  out = []
  depth = 4 if tier == 'thorough' else 3
  for first in range(len(ALPHABET)):
    for cloud in range(4):
      out.append({'kind': 'seq', 'first': first, 'cloud': cloud, 'depth': depth})
  step = 15 if tier == 'thorough' else 30
  for a in range(0, 360, step):
    out.append({'kind': 'rot', 'a': a, 'step': step})
  for i in range(9):
    out.append({'kind': 'scale', 'i': i})
  out.append({'kind': 'flip'})
  out.append({'kind': 'inverse'})
  for n in (1, 2, 3):
    for part in range(4):
      out.append({'kind': 'norm', 'n': n, 'part': part})
  out.append({'kind': 'orient'})
  return out


# ------------------------------------------------------------------- model

def rotation(angle):
  """ First about x, then y, then z, right-handed. """
  (cx, cy, cz), (sx, sy, sz) = np.cos(angle), np.sin(angle)
  rx = np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]])
  ry = np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]])
  rz = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]])
  return rz @ ry @ rx


class Model:

  def __init__(self, xyz, nrm):
    self.xyz, self.nrm = np.array(xyz, float), None if nrm is None else np.array(nrm, float)

  def copy(self):
    return Model(self.xyz, self.nrm)

  def apply(self, op):
    kind, arg = op[0], op[1:]
    if kind == 'rotate':
      r = rotation(np.array(arg) * math.pi / 180)
      self.xyz = self.xyz @ r.T
      if self.nrm is not None:
        self.nrm = self.nrm @ r.T
    elif kind == 'translate':
      self.xyz = self.xyz + np.array(arg)
    elif kind == 'scale':
      s = np.array(arg, float)
      self.xyz = self.xyz * s
      if self.nrm is not None and len(set(arg)) > 1:
        n = self.nrm / s
        self.nrm = n / np.maximum(np.linalg.norm(n, axis=1, keepdims=True), 1e-12)
    elif kind == 'flip':
      for c in arg[0]:
        i = 'xyz'.index(c)
        self.xyz[:, i] *= -1
        if self.nrm is not None:
          self.nrm[:, i] *= -1
    elif kind == 'orient':
      if self.nrm is not None:
        i = 'xyz'.index(arg[0])
        self.nrm = np.where(self.nrm[:, i:i + 1] > 0, self.nrm, -self.nrm)
    elif kind == 'normalize':
      lo, hi = self.xyz.min(0), self.xyz.max(0)
      self.xyz = (self.xyz - (lo + hi) / 2) * (2 * arg[0] / ((hi - lo).max() + 1e-6))


def real(p, op):
  import torch
  kind, arg = op[0], op[1:]
  if kind == 'rotate':
    a = torch.tensor([x * math.pi / 180 for x in arg])
    keep = a.clone()
    p.rotate(a)
    assert torch.equal(a, keep)
  elif kind in ('translate', 'scale'):
    getattr(p, kind)(torch.tensor(arg, dtype=p.points.dtype))
  elif kind == 'flip':
    p.flip(arg[0])
  elif kind == 'orient':
    p.orient_normal(arg[0])
  elif kind == 'normalize':
    lo, hi = p.bbox()
    if arg[0] == 1.0:
      p.normalize(lo, hi)
    else:
      p.normalize(lo, hi, arg[0])


ALPHABET = [
    ('rotate', 90, 0, 0), ('rotate', 0, 90, 0), ('rotate', 0, 0, 90),
    ('rotate', 30, 45, 60), ('rotate', -120, 10, 200), ('rotate', 0, 180, 180),
    ('rotate', 0, 0, 0), ('rotate', .4, -.25, .5), ('rotate', 0, 0, .05),
    ('translate', .25, -.5, 1.), ('translate', 0., 0., 0.), ('translate', -1., 0., 2.),
    ('scale', 2., 2., 2.), ('scale', .5, 1., 2.), ('scale', 1., 1., 4.),
    ('scale', .25, .25, 1.), ('scale', 1., 1., 1.), ('scale', 1., .5, .5), ('scale', 1., -1., 1.),
    ('flip', 'x'), ('flip', 'y'), ('flip', 'z'), ('flip', 'xy'), ('flip', 'zyx'),
    ('flip', ''),
    ('orient', 'x'), ('orient', 'z'), ('normalize', 1.0), ('normalize', 0.5)]


def cloud(i):
  xyz = np.array([[.5, -.25, 1.], [-1., .75, .125], [0., 0., 0.], [.3, .7, -.9]])
  nrm = np.array([[1., 0, 0], [.6, -.8, 0], [0, -.28, .96], [-.36, .48, -.8]])
  if i & 2:
    xyz, nrm = xyz[:1] * 8, nrm[3:]
  return xyz, (nrm if i & 1 else None)


def make(xyz, nrm, dtype=None):
  import torch
  from ocnn.octree import Points
  dtype = dtype or torch.float32
  n = len(xyz)
  src = {'points': torch.tensor(xyz, dtype=dtype),
         'normals': None if nrm is None else torch.tensor(nrm, dtype=dtype),
         'features': torch.tensor(ref.idata(n, 2, 1), dtype=dtype),
         'labels': torch.arange(n).view(-1, 1) * 3,
         'batch_id': torch.arange(n).view(-1, 1) % 2}
  src = {k: None if v is None else shapes.layout(v, n + j)
         for j, (k, v) in enumerate(src.items())}
  keep = {k: None if v is None else v.clone() for k, v in src.items()}
  return Points(**src, batch_size=2), src, keep


def compare(ctx, p, m, src, keep, what, tol=1e-5):
  s = 1 + np.abs(m.xyz).max() if len(m.xyz) else 1
  ctx.close(p.points / s, m.xyz / s, lambda: 'points after ' + str(what), tol)
  if m.nrm is None:
    ctx.check(p.normals is None, lambda: 'normals appear after ' + str(what))
  else:
    ctx.close(p.normals, m.nrm, lambda: 'normals after ' + str(what), tol)
  for k in ('features', 'labels', 'batch_id'):
    ctx.equal(getattr(p, k), keep[k], lambda: '%s after %s' % (k, what), dtype=True)
  ctx.check(p.batch_size == 2, lambda: 'batch size after ' + str(what))
  for k, v in src.items():
    if v is not None:
      ctx.equal(v, keep[k], lambda: "the caller's %s after %s" % (k, what))


def snap(p):
  return {k: getattr(p, k) for k in ('points', 'normals', 'features', 'labels',
                                     'batch_id')}


def run(case, ctx):
  import torch
  kind = case['kind']
  if kind == 'seq':
    xyz, nrm = cloud(case['cloud'])
    p, src, keep = make(xyz, nrm, (torch.float32, torch.float64)[case['first'] % 2])
    m = Model(xyz, nrm)
    op = ALPHABET[case['first']]
    explore(ctx, p, m, src, keep, (), op, case['depth'])
  elif kind == 'rot':
    xyz, nrm = cloud(1)
    step = case['step']
    turns = list(itertools.product(range(0, 360, step), repeat=2))
    # of both signs: angles that cancel
    turns += [(b, c) for b in range(-150, 180, step) for c in
              (-case['a'] - b, case['a'] - b, -b, -case['a'], b - 360)]
    for b, c in turns:
      op = ('rotate', case['a'], b, c)
      dt = (torch.float32, torch.float64)[(b + c) // case['step'] % 2]
      p, src, keep = make(xyz, nrm, dt)
      m = Model(xyz, nrm)
      real(p, op)
      m.apply(op)
      compare(ctx, p, m, src, keep, op)
      ctx.check(p.points.dtype == dt and p.normals.dtype == dt,
                lambda: 'type of the points after ' + str(op))
      ctx.state(op)
      ctx.trans()
    ctx.trace()
  elif kind == 'scale':
    vals = (.25, .5, 1., 1.5, 2., 3., -1., .001, 700.)
    for dt in (torch.float32, torch.float64):
      for b, c in itertools.product(vals, repeat=2):
        op = ('scale', vals[case['i']], b, c)
        if op[1:] == (-1., -1., -1.):
          continue
        nrm = np.concatenate([ref.idata(6, 3, 3, 1, 4) * [[1, -1, 1]],
                              [[1, 0, 0], [0, 0, 1]]]) * 1.0
        nrm /= np.linalg.norm(nrm, axis=1, keepdims=True)
        xyz = ref.idata(8, 3, 5) / 8.0
        p, src, keep = make(xyz, nrm, dt)
        m = Model(xyz, nrm)
        real(p, op)
        m.apply(op)
        tol = 1e-5 if dt == torch.float32 else 1e-11
        compare(ctx, p, m, src, keep, op, tol)
        # perpendicular to the transformed tangents, unit length
        n2 = p.normals.double().numpy()
        ctx.close(np.linalg.norm(n2, axis=1), np.ones(8), 'length of scaled normals', tol)
        t = np.cross(nrm, [[.3, .5, .7]])
        t = t * np.array(op[1:])
        t /= np.linalg.norm(t, axis=1, keepdims=True)
        ctx.close((n2 * t).sum(1), np.zeros(8),
                  'scaled normals are perpendicular', tol)
        ctx.state(op)
        ctx.trans()
        # the normal of a plane through three scaled points
    ctx.trace()
  elif kind == 'flip':
    for dt in (torch.float32, torch.float64):
      for n in range(5):
        for w in itertools.product('xyz', repeat=n):
          for c in (0, 1):
            op = ('flip', ''.join(w))
            p, src, keep = make(*cloud(c), dt)
            m = Model(*cloud(c))
            real(p, op)
            m.apply(op)
            ctx.equal(p.points.float(), np.float32(m.xyz), 'flip is exact')
            compare(ctx, p, m, src, keep, op)
            ctx.state(op, c)
            ctx.trans()
    ctx.trace()
  elif kind == 'inverse':
    inverse(ctx)
  elif kind == 'norm':
    lat = [list(x) for x in itertools.product((-2., 0., .5, 7.), (0., 1.), (-1., 3.))]
    every = list(itertools.product(range(len(lat)), repeat=case['n']))
    for a in every[case['part']::4]:
      for scale in (1.0, 0.8, 4.0):
        for dt in (torch.float32, torch.float64):
          # clouds of any size; powers of two keep the points exact
          size = (1, 1, 2.0 ** -9, 2.0 ** -13, 2.0 ** 12)[(sum(a) + len(a)) % 5]
          xyz = np.array([lat[i] for i in a]) * size
          p, src, keep = make(xyz, None, dt)
          lo, hi = p.bbox()
          ctx.equal(lo, xyz.min(0).astype(lo.numpy().dtype), 'lower corner')
          ctx.equal(hi, xyz.max(0).astype(lo.numpy().dtype), 'upper corner')
          lo2, hi2 = lo.clone(), hi.clone()
          real(p, ('normalize', scale))
          ctx.equal(lo, lo2, 'bounding box of the caller')
          m = Model(xyz, None)
          m.apply(('normalize', scale))
          compare(ctx, p, m, src, keep, ('normalize', scale, a))
          q = p.points.double().numpy()
          ctx.check(np.abs(q).max() <= scale * (1 + 1e-6), 'outside of the range')
          ctx.close((q.min(0) + q.max(0)) / 2, np.zeros(3), 'centre', 1e-5)
          if len(set(a)) > 1 and size >= 1:
            ctx.close(np.abs(q).max(), scale, 'the range is used', 1e-5)
          ctx.state(a, scale)
          ctx.trans()
    ctx.trace()
  elif kind == 'orient':
    lattice = np.array(list(itertools.product((-1., -.5, 0., .5, 1.), repeat=3)))
    xyz = np.zeros_like(lattice)
    for axis, size in itertools.product(('x', 'y', 'z', 'xyz'),
                                        (1.0, 2.0 ** -40, 2.0 ** 30)):
      nrm = lattice * size
      for dt in (torch.float32, torch.float64):
        p, src, keep = make(xyz, nrm, dt)
        p.orient_normal(axis)
        out = p.normals.numpy()
        if axis == 'xyz':
          ctx.equal(out, np.abs(nrm), 'orientation of all components')
        else:
          i = 'xyz'.index(axis)
          ctx.check((out[:, i] >= 0).all(), 'negative component after orientation')
          ctx.check(((out == nrm).all(1) | (out == -nrm).all(1)).all(),
                    'orientation changes the line')
          ctx.check((out == nrm).all(1)[nrm[:, i] > 0].all(), 'good normals change')
        ctx.check(p.normals.dtype == dt, 'type of oriented normals')
        ctx.equal(p.points, xyz, 'points after orientation')
        ctx.equal(src['normals'], keep['normals'], "the caller's normals")
        ctx.trans()
        ctx.state('orient', axis)
      p, src, keep = make(xyz, None)
      if axis != 'xyz':
        p.orient_normal(axis)
    p, src, keep = make(xyz, nrm)
    p.orient_normal()
    ctx.check((p.normals[:, 0] >= 0).all(), 'default orientation')
    ctx.trace()


def explore(ctx, p, m, src, keep, done, op, depth):
  """ All continuations of an operation sequence, one object per branch. """
  import copy
  p = copy.copy(p)
  m = m.copy()
  before = snap(p)
  held = {k: None if v is None else v.clone() for k, v in before.items()}
  real(p, op)
  m.apply(op)
  done = done + (op,)
  compare(ctx, p, m, src, keep, done, 3e-5)
  # tensors read before the step keep their values
  for k, v in before.items():
    if v is not None:
      ctx.equal(v, held[k], lambda: '%s read before %s' % (k, op))
  ctx.trans()
  ctx.state(np.round(m.xyz, 6), None if m.nrm is None else np.round(m.nrm, 6))
  if len(done) == depth:
    ctx.trace()
    ctx.sample({'sequence': [list(o) for o in done]})
    return
  for nxt in ALPHABET:
    # an orientation is not continuous where the component vanishes
    if nxt[0] == 'orient' and m.nrm is not None:
      i = 'xyz'.index(nxt[1])
      if (np.abs(m.nrm[:, i]) < 1e-4).any():
        continue
    explore(ctx, p, m, src, keep, done, nxt, depth)


def inverse(ctx):
  import torch
  ops = []
  for ax in range(3):
    for a in range(-360, 361, 15):
      v = [0, 0, 0]
      v[ax] = a
      ops.append((('rotate', *v), ('rotate', *[-x for x in v])))
  for v in itertools.product((-1., .25, 3.), repeat=3):
    ops.append((('translate', *v), ('translate', *[-x for x in v])))
    s = [abs(x) * 2 for x in v]
    ops.append((('scale', *s), ('scale', *[1 / x for x in s])))
  for n in range(4):
    for w in itertools.product('xyz', repeat=n):
      ops.append((('flip', ''.join(w)), ('flip', ''.join(w)[::-1])))
  for fwd, back in ops:
    for c in (0, 1, 3):
      xyz, nrm = cloud(c)
      p, src, keep = make(xyz, nrm)
      real(p, fwd)
      real(p, back)
      compare(ctx, p, Model(xyz, nrm), src, keep, (fwd, back))
      ctx.trans(2)
      ctx.state(fwd, c)
  ctx.trace()
