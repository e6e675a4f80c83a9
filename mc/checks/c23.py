"""C23: data augmentation stays in its configured limits for every random outcome."""

import itertools
import math
import numpy as np
from mc import ref, oct
from mc.rng import Draws
from mc.checks.c21 import Model

ID = 'C23'
TECHNIQUE = ('exhaustive enumeration of the outcomes of the random generator (every draw '
             'answered from a grid) on the real Transform, against a float64 model')
BOUNDS = ('12 configurations; every pair (thorough: triple) of random draws takes all '
          '5 grid values of [0, 1), the others 3 backgrounds; all 8 flip sets x 27 angle '
          'triples x extreme scales and jitters applied explicitly; clouds with points '
          'inside and outside of the cube; in-cube sets of all 2^5 subsets')
ASSUMPTIONS = ['torch draws are answered by the harness in [0, 1 - 2^-10]',
               'the documented safety margin of 0.01 of clip is accepted: points '
               'between 0.99 and 1 are not used',
               'angles and intervals are integers as in all shipped configurations']

GRID = (0.0, 0.25, 0.5, 0.75, 1 - 2.0 ** -10)

CONFIGS = [
    dict(angle=[0, 180, 0], interval=[1, 1, 1], scale=.25, uniform=False, jitter=.125,
         flip=[0., 0., 0.]),
    dict(angle=[20, 180, 20], interval=[1, 1, 1], scale=.25, uniform=True, jitter=.25,
         flip=[.5, 0., 0.]),
    dict(angle=[5, 5, 5], interval=[5, 1, 2], scale=0., uniform=False, jitter=0.,
         flip=[1., .5, 0.]),
    dict(angle=[0, 0, 0], interval=[1, 1, 1], scale=.5, uniform=True, jitter=0.,
         flip=[.5, .5, .5]),
    dict(angle=[180, 180, 180], interval=[90, 45, 60], scale=0., uniform=True,
         jitter=.125, flip=[1., 1., 1.]),
    dict(angle=[180, 0, 90], interval=[180, 1, 90], scale=.5, uniform=False, jitter=1.,
         flip=[0., 1., .25]),
    dict(angle=[7, 10, 11], interval=[2, 3, 4], scale=.25, uniform=False, jitter=.5,
         flip=[0., .75, .5]),
    dict(angle=[3, 2, 1], interval=[4, 2, 1], scale=.125, uniform=True, jitter=.125,
         flip=[.25, .5, .75]),
]


def cases(tier):
  out = []
  for i in range(len(CONFIGS)):
    n = 12
    pairs = list(itertools.combinations(range(n), 3 if tier == 'thorough' else 2))
    for part in range(4):
      out.append({'kind': 'draws', 'config': i, 'pos': pairs[part::4]})
    out.append({'kind': 'reach', 'config': i})
    out.append({'kind': 'call', 'config': i})
    out.append({'kind': 'off', 'config': i})
  for flip in ('', 'x', 'y', 'z', 'xy', 'xz', 'yz', 'xyz'):
    out.append({'kind': 'apply', 'flip': flip})
  return out


def transform(config, distort=True, **kw):
  from ocnn.dataset import Transform
  kw.setdefault('depth', 3)
  kw.setdefault('full_depth', 1)
  c = {k: list(v) if isinstance(v, list) else v for k, v in config.items()}
  return Transform(distort=distort, **c, **kw)


def within(ctx, config, par, what):
  """ Random parameters respect the limits; returns them as floats. """
  angle, scale, jitter, flip = par
  angle = [float(a) for a in angle]
  scale = [float(s) for s in scale]
  jitter = [float(j) for j in jitter]
  deg = [a * 180 / math.pi for a in angle]
  steps = []
  for a, lim, iv in zip(deg, config['angle'], config['interval']):
    k = round(a / iv)
    ctx.check(abs(a - k * iv) < 1e-3, lambda: '%s: angle %r is no multiple of %r' % (
        what, a, iv))
    ctx.check(abs(a) <= lim + 1e-3, lambda: '%s: angle %r exceeds %r' % (what, a, lim))
    steps.append(k)
  for s in scale:
    ctx.check(abs(s - 1) <= config['scale'] + 1e-6,
              lambda: '%s: scale %r exceeds %r' % (what, s, config['scale']))
  if config['uniform']:
    ctx.check(len(set(scale)) == 1, lambda: '%s: scales %r are not uniform' % (what, scale))
  for j in jitter:
    ctx.check(abs(j) <= config['jitter'] + 1e-6,
              lambda: '%s: shift %r exceeds %r' % (what, j, config['jitter']))
  for c, p in zip('xyz', config['flip']):
    n = flip.count(c)
    ctx.check(n <= 1, lambda: '%s: flips %r' % (what, flip))
    ctx.check(p > 0 or n == 0, lambda: '%s: flips %r with probability 0' % (what, flip))
    ctx.check(p < 1 or n == 1, lambda: '%s: flips %r, not %s' % (what, flip, c))
  return steps, scale, jitter, flip


def run(case, ctx):
  kind = case['kind']
  if kind == 'apply':
    return apply(case, ctx)
  config = CONFIGS[case['config']]
  if kind == 'draws':
    t = transform(config)
    for pos in case['pos']:
      for vals in itertools.product(GRID, repeat=len(pos)):
        for back in (0.0, 0.5, GRID[-1]):
          us = [back] * 12
          for p, v in zip(pos, vals):
            us[p] = v
          with Draws(us, cycle=True):
            par = t.rnd_parameters()
          r = within(ctx, config, par, 'draws %s' % us)
          ctx.trans()
          ctx.state(case['config'], us)
          ctx.outcome(r[0], r[3])
    ctx.trace()
  elif kind == 'reach':
    reach(case, ctx, config)
  elif kind == 'call':
    call(case, ctx, config)
  else:
    off(case, ctx, config)


def reach(case, ctx, config):
  """ Every draw alone over a fine grid: which values occur, how often. """
  t = transform(config)
  m = 720
  found, seen = {}, [set(), set(), set()]
  count = {}
  lo, hi = [9.] * 6, [-9.] * 6
  for p in range(12):
    flips = {}
    for k in range(m):
      us = [0.25 + 2.0 ** -12] * 12
      us[p] = (k + .5) / m
      with Draws(us, cycle=True):
        par = t.rnd_parameters()
      steps, scale, jitter, flip = within(ctx, config, par, 'draw %d = %r' % (p, us[p]))
      for i in range(3):
        seen[i].add(steps[i])
        lo[i], hi[i] = min(lo[i], scale[i]), max(hi[i], scale[i])
        lo[3 + i], hi[3 + i] = min(lo[3 + i], jitter[i]), max(hi[3 + i], jitter[i])
      flips[flip] = flips.get(flip, 0) + 1
      ctx.trans()
    for i, c in enumerate('xyz'):
      n = sum(v for f, v in flips.items() if c in f)
      count.setdefault(c, set()).add(n)
  for i in range(3):
    n = config['angle'][i] // config['interval'][i]
    ctx.check(seen[i] == set(range(-n, n + 1)), lambda: 'angles about axis %d that occur: '
              '%s, expected -%d to %d' % (i, sorted(seen[i]), n, n))
    s, j = config['scale'], config['jitter']
    ctx.check(abs(lo[i] - (1 - s)) < .01 and abs(hi[i] - (1 + s)) < .01,
              'range of scales is not used: %r %r' % (lo[i], hi[i]))
    ctx.check(abs(lo[3 + i] + j) < .01 and abs(hi[3 + i] - j) < .01,
              'range of shifts is not used: %r %r' % (lo[3 + i], hi[3 + i]))
    p = config['flip'][i]
    c = 'xyz'[i]
    # the draw deciding on this axis flips in a fraction p of the grid
    if 0 < p < 1:
      ctx.check(any(abs(n - p * m) <= 1 for n in count[c] if 0 < n < m),
                'flip of %s occurs in %s of %d, expected %g' % (c, count[c], m, p * m))
  ctx.state('reach', case['config'])
  ctx.trace()


def cloud():
  xyz = np.array([[.513, -.247, .731], [-.861, .117, .031], [.262, .609, -.487],
                  [2.04, .013, .021], [.017, -1.53, .259], [-.633, -.611, .859],
                  [.513, -.247, .731]], dtype=np.float32)
  nrm = np.array([[1, 0, 0], [.6, -.8, 0], [0, -.28, .96], [-.36, .48, -.8], [0, 1, 0],
                  [0, 0, -1], [.8, 0, .6]], dtype=np.float32)
  return xyz, nrm


def sample(extra=True, pick=None):
  xyz, nrm = cloud()
  if pick is not None:
    xyz, nrm = xyz[pick], nrm[pick]
  s = {'points': xyz, 'normals': nrm}
  if extra:
    s['labels'] = np.arange(len(xyz))
    s['other'] = 'text'
  return s


def unchanged(ctx, s, keep, what):
  ctx.check(sorted(s) == sorted(keep), what + ': entries of the source sample')
  for k in keep:
    ctx.check(type(s[k]) == type(keep[k]), what + ': source entry ' + k)
    if isinstance(keep[k], np.ndarray):
      ctx.equal(s[k], keep[k], what + ': source entry ' + k, dtype=True)


def copy(s):
  return {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in s.items()}


def result(ctx, out, m, depth, full, what, orient=''):
  """ The output for the model cloud m before clipping. """
  x = m.xyz
  # points in the safety margin (or too close to it) are not decided
  near = ((np.abs(x) > .9899) & (np.abs(x) < 1.0001)).any(1)
  inside = (np.abs(x) < 1).all(1)
  mask = out['inbox_mask'].numpy()
  ctx.check(mask.shape == inside.shape and mask.dtype == bool, what + ': shape of the mask')
  ctx.equal(mask[~near], inside[~near], what + ': mask of the points in the cube')
  p = out['points']
  ctx.close(p.points, x[mask], what + ': points', 1e-5)
  nrm = m.nrm
  if orient:
    i = 'xyz'.index(orient)
    sure = np.abs(nrm[:, i]) > 1e-4
    nrm = np.where(nrm[:, i:i + 1] > 0, nrm, -nrm)
    sel = sure[mask]
    ctx.close(p.normals.numpy()[sel], nrm[mask][sel], what + ': normals', 1e-5)
    ctx.check((p.normals[:, i] > -1e-6).all().item(), what + ': oriented normals')
  else:
    ctx.close(p.normals, nrm[mask], what + ': normals', 1e-5)
  # the octree of exactly these points
  octree = out['octree']
  q = p.points.double().numpy()
  cells = np.minimum(np.floor((q + 1) * 2 ** (depth - 1)), 2 ** depth - 1).astype(int)
  tree = ref.tree_from_leaves([cells.tolist()], depth, full)
  ctx.check(octree.depth == depth and octree.full_depth == full, what + ': depths')
  # cells of coordinates within rounding of a cell face are not decided
  u = (q + 1) * 2 ** (depth - 1)
  if len(q) and np.abs(u - np.round(u)).min() < 1e-5:
    ctx.note('octrees with points on cell faces, not compared')
    return
  oct.check_structure(ctx, octree, tree, what=what + ': ')
  cnt = np.zeros(tree.layer(depth).nnum_nempty)
  lay = tree.layer(depth)
  leaf = lay.child[lay.find(np.zeros(len(cells), int), cells)] if len(cells) else []
  want = np.zeros((len(cnt), 3))
  if len(cells):
    np.add.at(want, leaf, u)
    np.add.at(cnt, leaf, 1)
    ctx.close(octree.points[depth], want / cnt[:, None], what + ': leaf positions', 1e-5)
    ctx.check(octree.normals[depth] is not None, what + ': normals in the octree')


def model(par, pick=None):
  """ flip, rotation, translation, scaling. """
  steps_deg, scale, jitter, flip = par
  xyz, nrm = cloud()
  if pick is not None:
    xyz, nrm = xyz[pick], nrm[pick]
  m = Model(xyz, nrm)
  m.apply(('flip', flip))
  m.apply(('rotate', *steps_deg))
  m.apply(('translate', *jitter))
  m.apply(('scale', *scale))
  return m


def call(case, ctx, config):
  """ The whole transform; parameters observed at rnd_parameters. """
  for n, (a, b) in enumerate(itertools.product(range(12), repeat=2)):
    for v in (GRID if n % 4 == 0 else GRID[n % 5:n % 5 + 1]):
      us = [GRID[(n + i * 3) % 5] for i in range(12)]
      us[a], us[b] = v, GRID[-1 - n % 3]
      depth, full = ((3, 1), (4, 2), (2, 2))[n % 3]
      orient = ('', 'x', 'z', 'y')[n % 4]
      kw = {'orient_normal': orient} if orient else {}
      t = transform(config, depth=depth, full_depth=full, **kw)
      seen = []
      inner = t.rnd_parameters

      def spy():
        seen.append(inner())
        return tuple(x.clone() if hasattr(x, 'clone') else x for x in seen[-1])
      t.rnd_parameters = spy
      s = sample()
      keep = copy(s)
      with Draws(us, cycle=True):
        out = t(s, n)
      what = 'draws %s' % us
      ctx.check(len(seen) == 1, what + ': parameters are drawn once')
      r = within(ctx, config, seen[0], what)
      deg = [k * iv for k, iv in zip(r[0], config['interval'])]
      result(ctx, out, model((deg,) + r[1:]), depth, full, what, orient)
      unchanged(ctx, s, keep, what)
      ctx.check(out['other'] == 'text', what + ': other entries')
      ctx.equal(out['labels'], keep['labels'], what + ': other entries')
      # again from the same source
      with Draws(us, cycle=True):
        two = t(s, n)
      oct.same(ctx, oct.psnapshot(two['points']), oct.psnapshot(out['points']),
               what + ': second call on the same sample')
      ctx.trans(2)
      ctx.state('call', case['config'], us, depth, orient)
      ctx.outcome(out['inbox_mask'])
  ctx.trace()
  ctx.sample({'config': config, 'draws': us})


def apply(case, ctx):
  """ Explicit parameters through the documented hook rnd_parameters. """
  import torch
  t = transform(CONFIGS[0], depth=4, full_depth=2)
  i = 0
  for deg in itertools.product((0, 30, -90), repeat=3):
    for scale in ((1., 1., 1.), (.5, .5, .5), (.75, 1.25, 1.5), (2., 1., .5)):
      for jit in ((0., 0., 0.), (.125, -.25, .5), (-.5, .375, .0625)):
        i += 1
        par = (torch.tensor(deg) * (math.pi / 180), torch.tensor(scale),
               torch.tensor(jit), case['flip'])
        t.rnd_parameters = lambda: par
        # clouds of one, two, ... points; all of them
        pick = (None, [0], [2], [5, 1], None, [3, 0], [3, 4, 2], [1, 1])[i % 8]
        s = sample(pick=pick)
        keep = copy(s)
        m = model((deg, scale, jit, case['flip']), pick)
        if not (np.abs(m.xyz) < .9899).all(1).any():
          continue
        out = t(s, i)
        what = 'parameters %s, points %s' % ((deg, scale, jit, case['flip']), pick)
        result(ctx, out, m, 4, 2, what)
        unchanged(ctx, s, keep, what)
        ctx.trans()
        ctx.state(deg, scale, jit, case['flip'])
  ctx.trace()


def off(case, ctx, config):
  """ Without augmentation nothing is drawn and nothing moves. """
  import torch
  n = 0
  for depth, full in ((1, 1), (3, 2), (5, 1)):
    for orient in ('', 'x', 'y', 'z'):
      t = transform(config, distort=False, depth=depth, full_depth=full,
                    orient_normal=orient)
      s = sample()
      keep = copy(s)
      with Draws([]):
        out = t(s, 0)
      xyz, nrm = cloud()
      result(ctx, out, Model(xyz, nrm), depth, full, 'no augmentation', orient)
      inside = (np.abs(xyz) < 1).all(1)
      ctx.equal(out['points'].points, xyz[inside], 'no augmentation: points')
      unchanged(ctx, s, keep, 'no augmentation')
      ctx.trans()
      ctx.state('off', depth, full, orient)
  # every subset of points inside the cube
  xyz0, nrm = cloud()
  for bits in itertools.product((0, 1), repeat=5):
    xyz = xyz0[:5].copy()
    xyz[3] = [.1, .2, .3]
    xyz[4] = [-.4, .5, .3]
    for i, b in enumerate(bits):
      if not b:
        xyz[i, i % 3] += (2.5, -3)[i % 2]
    s = {'points': xyz, 'normals': nrm[:5].copy()}
    keep = copy(s)
    t = transform(config, distort=False, depth=3, full_depth=1 + case['config'] % 3)
    if not any(bits):
      continue
    out = t(s, 0)
    ctx.equal(out['inbox_mask'], np.array(bits, dtype=bool), 'mask of the points inside')
    result(ctx, out, Model(xyz, nrm[:5]), 3, t.full_depth, 'points inside %s' % (bits,))
    unchanged(ctx, s, keep, 'points inside')
    ctx.trans()
    ctx.state('subset', bits)
  ctx.trace()
