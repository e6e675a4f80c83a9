"""C35: dataset readers and project transforms keep points and labels together."""

import contextlib
import importlib.util
import io
import itertools
import json
import os
import random
import shutil
import sys
import tempfile
import types
import zipfile
import numpy as np
from mc import ref
from mc.rng import Draws

ID = 'C35'
TECHNIQUE = ('exhaustive exploration of file formats x attribute sets x raw labels x '
             'enumerated random outcomes on the real readers, transforms and conversion '
             'tools, against a row-by-row reference')
BOUNDS = ('ply (text, both byte orders, 3 property orders, 6 numeric types) and npz (3 '
          'precisions) x 8 attribute sets x 1, 2, 5 rows; all raw label ids 0-259 with '
          '4 instance ids; all outcomes over an alphabet of the random draws of every '
          'transform (colour contrast, translation, jitter, elastic distortion, noise, '
          'choice, 24 views, rotation, scale, flip); the 7 datasets end to end for all '
          'orders of 3 files, twice, in memory or not; all conversion tools on every '
          'category and all class ids of both label sets')
ASSUMPTIONS = ['draws come from random.random, numpy.random and torch',
               'file names given to the converters contain a folder',
               'raw SemanticKITTI ids are those of the format (0 to 259)',
               'the network, the download functions and the enclosing ball library are '
               'replaced by stand-ins']
CASE_LIMIT = 300


class Flags(dict):
  __getattr__ = dict.__getitem__


def flags(**kw):
  f = Flags(depth=4, full_depth=2, distort=False, angle=[0, 0, 0], interval=[1, 1, 1],
            scale=0.0, uniform=True, jitter=0.0, flip=[0.0, 0.0, 0.0], orient_normal='',
            location='', filelist='', in_memory=False, take=-1, points_scale=0.5,
            filetype='ply', shuffle=False)
  f.update(kw)
  return f


DISTORT = dict(distort=True, angle=[0, 180, 0], interval=[1, 90, 1], scale=0.25,
               uniform=False, jitter=0.125, flip=[0.5, 0.0, 0.5])


def cases(tier):
  out = []
  for text, order in itertools.product(('text', 'little', 'big'), range(3)):
    out.append({'kind': 'ply', 'text': text, 'order': order})
  for dt in ('f2', 'f4', 'f8'):
    out.append({'kind': 'npz', 'dt': dt})
  for text in (False, True):
    out.append({'kind': 'save', 'text': text})
  for inst in (0, 1, 77, 32767):
    out.append({'kind': 'kitti_labels', 'inst': inst})
  out.append({'kind': 'kitti_read'})
  for part in range(8):
    out.append({'kind': 'kitti', 'part': part})
    out.append({'kind': 'shapenet', 'part': part})
    out.append({'kind': 'ae', 'part': part})
  for a in range(4):
    for b in range(3):
      out.append({'kind': 'colors', 'blend': a, 'which': b})
  for a in range(3):
    for b in range(4):
      out.append({'kind': 'elastic', 'cloud': a, 'noise': b})
  for part in range(4):
    out.append({'kind': 'scannet', 'part': part})
    out.append({'kind': 'completion', 'part': part})
  for view in range(24):
    out.append({'kind': 'image', 'view': view})
  for name in ('modelnet', 'seg_shapenet', 'scannet', 'kitti', 'ae', 'completion', 'image'):
    for mem in (False, True):
      out.append({'kind': 'dataset', 'name': name, 'memory': mem})
  for align, full, suffix in itertools.product((False, True), (False, True),
                                               ('.ply', '.npz')):
    out.append({'kind': 'process', 'align': align, 'full': full, 'suffix': suffix})
  out.append({'kind': 'normals'})
  out.append({'kind': 'shapenet_tool'})
  out.append({'kind': 'ae_tool'})
  out.append({'kind': 'image_tool'})
  for norm, y in itertools.product((False, True), (False, True)):
    out.append({'kind': 'modelnet_tool', 'normalize': norm, 'align_y': y})
  out.append({'kind': 'kitti_tool'})
  return out


def run(case, ctx):
  scratch = tempfile.mkdtemp(prefix='mc35')
  old = os.getcwd()
  try:
    if '/repo/projects' not in sys.path:
      sys.path.append('/repo/projects')
    os.chdir(scratch)
    with quiet():
      globals()['do_' + case['kind']](case, ctx, scratch)
    ctx.trace()
    ctx.outcome(case['kind'])
  finally:
    os.chdir(old)
    shutil.rmtree(scratch)


@contextlib.contextmanager
def quiet():
  with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    yield


# ------------------------------------------------------------------ data and files

class Rows:
  """ A cloud in which every attribute of every row is unique. """

  def __init__(self, n, salt=0):
    r = ref.idata(n, 3, salt, -64, 64) / 32.0
    self.n = n
    self.points = (r + np.arange(n)[:, None] / 1024.0).astype('f4')
    nrm = ref.idata(n, 3, salt + 1, -8, 8) + np.array([0, 0, 16.5])
    nrm = nrm / np.linalg.norm(nrm, axis=1, keepdims=True)
    self.normals = (np.round(nrm * 256) / 256 + np.arange(n)[:, None] / 4096).astype('f4')
    self.colors = ((ref.idata(n, 3, salt + 2, 0, 31) * 8 + np.arange(n)[:, None]) % 256)
    self.labels = ((np.arange(n) * 3 + salt) % 21).astype('i4')


PLYTYPES = {'points': 'xyz', 'normals': ('nx', 'ny', 'nz'),
            'colors': ('red', 'green', 'blue'), 'labels': ('label',)}


def write_ply(name, rows, attrs, text='little', order=0, ctype='u1', ltype='u1',
              ptype='f4', extra=False, face=None):
  """ An independent ply writer. """
  cols = []
  for a in attrs:
    data = np.asarray(getattr(rows, a)).reshape(rows.n, -1)
    t = {'points': ptype, 'normals': ptype, 'colors': ctype, 'labels': ltype}[a]
    cols += [(p, t, data[:, i]) for i, p in enumerate(PLYTYPES[a])]
  if extra:
    cols.insert(1, ('alpha', 'u1', np.full(rows.n, 9)))
    cols.append(('quality', 'f4', np.full(rows.n, 0.5)))
  if order == 1:
    cols = cols[::-1]
  elif order == 2:
    cols = cols[1::2] + cols[::2]
  tn = {'u1': 'uchar', 'i4': 'int', 'u2': 'ushort', 'f4': 'float', 'f8': 'double',
        'i2': 'short'}
  fmt = {'text': 'ascii', 'little': 'binary_little_endian', 'big': 'binary_big_endian'}[text]
  head = 'ply\nformat %s 1.0\ncomment made for a check\nelement vertex %d\n' % (fmt, rows.n)
  head += ''.join('property %s %s\n' % (tn[t], p) for p, t, _ in cols)
  if face is not None:
    head += 'element face %d\nproperty list uchar int vertex_indices\n' % len(face)
  head += 'end_header\n'
  os.makedirs(os.path.dirname(name), exist_ok=True)
  with open(name, 'wb') as f:
    f.write(head.encode())
    bo = '>' if text == 'big' else '<'
    if text == 'text':
      for i in range(rows.n):
        f.write((' '.join(repr(float(c[i])) if t[0] == 'f' else str(int(c[i]))
                          for _, t, c in cols) + '\n').encode())
      for t in face if face is not None else []:
        f.write(('3 %d %d %d\n' % tuple(t)).encode())
    else:
      a = np.zeros(rows.n, dtype=[(p, bo + t) for p, t, _ in cols])
      for p, t, c in cols:
        a[p] = c
      f.write(a.tobytes())
      for t in face if face is not None else []:
        f.write(b'\x03' + np.array(t, bo + 'i4').tobytes())


def write_npz(name, rows, attrs, dt='f4', ldt='i8'):
  os.makedirs(os.path.dirname(name), exist_ok=True)
  np.savez(name, **{a: np.asarray(getattr(rows, a)).astype(ldt if a == 'labels' else dt)
                    for a in attrs})


def expect(ctx, got, rows, attrs, what, cast=None):
  """ `got` is what a reader returned. """
  ctx.check(set(got) == set(attrs), lambda: '%s: entries %s, expected %s' % (
      what, sorted(got), sorted(attrs)))
  for a in attrs:
    w = np.asarray(getattr(rows, a))
    if cast:
      w = w.astype(cast if a != 'labels' else w.dtype)
    w = w.astype(np.int32 if a == 'labels' else np.float32)
    ctx.equal(np.asarray(got[a]), w, '%s: %s' % (what, a), dtype=True)
  ctx.trans()
  ctx.state(what, *[np.asarray(got[a]) for a in attrs])


SETS = [('points',) + s for k in range(4)
        for s in itertools.combinations(('normals', 'colors', 'labels'), k)]


def switches(attrs):
  return dict(has_normal='normals' in attrs, has_color='colors' in attrs,
              has_label='labels' in attrs)


def do_ply(case, ctx, scratch):
  from datascts import utils, modelnet40, completion, image2shape
  k = 0
  for n, have, ptype, (ct, lt), extra in itertools.product(
      (1, 2, 5), SETS, ('f4', 'f8'), (('u1', 'u1'), ('f4', 'i4'), ('u2', 'i2')),
      (False, True)):
    rows = Rows(n, k % 7)
    k += 1
    name = os.path.join(scratch, ('c%d.ply', 'a.b.c%d.ply', 'd.npz/c%d.ply')[k % 3] % k)
    write_ply(name, rows, have, case['text'], case['order'], ct, lt, ptype, extra)
    want = [s for s in SETS if set(s) <= set(have)]
    for attrs in want if n == 5 else want[-1:]:
      what = '%s with %s as %s, %s' % (case, have, attrs, (ptype, ct, lt, extra))
      expect(ctx, utils.ReadPly(**switches(attrs))(name), rows, attrs, 'ReadPly, ' + what)
      expect(ctx, utils.ReadFile(**switches(attrs))(name), rows, attrs, 'ReadFile, ' + what)
    if 'normals' in have:
      pn = ('points', 'normals')
      expect(ctx, modelnet40.read_file(name), rows, pn, 'modelnet, %s' % (have,))
      expect(ctx, completion.ReadFile()(name), rows, pn, 'completion, %s' % (have,))
      expect(ctx, image2shape.ReadPoints(True, 'ply')(name[:-4]), rows, pn,
             'ReadPoints, %s' % (have,))
    else:
      # asking for something that is not stored is an error, never made up
      ctx.raises(lambda: utils.ReadPly(has_normal=True)(name), 'normals that do not exist')
    os.remove(name)


def do_npz(case, ctx, scratch):
  from datascts import utils, modelnet40, completion, image2shape
  k = 0
  for n, have, ldt in itertools.product((1, 2, 5), SETS, ('i8', 'i4', 'u1', 'f4')):
    rows = Rows(n, k % 7)
    k += 1
    name = os.path.join(scratch, ('c%d.npz', 'a.b.c%d.npz', 'd.ply/c%d.npz')[k % 3] % k)
    write_npz(name, rows, have, case['dt'], ldt)
    want = [s for s in SETS if set(s) <= set(have)]
    for attrs in want:
      what = '%s with %s as %s' % (case, have, attrs)
      for cls in (utils.ReadNpz, utils.ReadFile):
        expect(ctx, cls(**switches(attrs))(name), rows, attrs,
               cls.__name__ + ', ' + what, case['dt'])
    if have == ('points', 'normals'):
      pn = ('points', 'normals')
      expect(ctx, image2shape.ReadPoints(True, 'npz')(name[:-4]), rows, pn,
             'ReadPoints', case['dt'])
      for got in (modelnet40.read_file(name), completion.ReadFile()(name)):
        for a in pn:
          ctx.equal(np.asarray(got[a]).astype('f4'),
                    getattr(rows, a).astype(case['dt']).astype('f4'), 'npz ' + a)
        ctx.trans()
    ctx.raises(lambda: modelnet40.read_file(name + '.txt'), 'an unknown file type')
    ctx.raises(lambda: utils.ReadFile()(name + '.txt'), 'an unknown file type')


def do_save(case, ctx, scratch):
  """ Written by the tool, read back by the readers. """
  from datascts import utils
  mod = tool('utils')
  k = 0
  for n, attrs in itertools.product((1, 2, 5, 300), SETS):
    rows = Rows(n, k % 5)
    rows.labels = np.arange(n, dtype='i4') % 256
    rows.colors = np.stack([np.arange(n), 255 - np.arange(n), 7 * np.arange(n)], 1) % 256
    k += 1
    name = os.path.join(scratch, 'x', '%d' % k, 'c.ply')
    kw = {a: np.asarray(getattr(rows, a)) for a in attrs if a != 'points'}
    if 'labels' in kw:
      kw['labels'] = kw['labels'][:, None]
    for again in range(2):
      mod.save_points_to_ply(name, rows.points.astype(('f4', 'f8')[k % 2]),
                             text=case['text'], **kw)
      expect(ctx, utils.ReadPly(**switches(attrs))(name), rows, attrs,
             'saved and read, %s %s' % (case, attrs))


# --------------------------------------------------------------------------- kitti

KITTI = {10: 6, 252: 6, 18: 7, 258: 7, 11: 8, 15: 9, 20: 10, 259: 10, 30: 14, 254: 14,
         31: 15, 253: 15, 32: 16, 255: 16, 40: 1, 48: 2, 44: 3, 49: 4, 50: 5, 51: 17,
         70: 11, 71: 12, 72: 13, 80: 18, 81: 19}


def do_kitti_labels(case, ctx, scratch):
  import torch
  from datascts import semantic_kitti
  n = 260
  raw = np.arange(n) | (case['inst'] << 16)
  raw = raw.astype(np.uint32).view(np.int32)
  xyz = np.stack([np.arange(n), -np.arange(n), np.arange(n) % 3], 1).astype('f4') / 4
  dens = (np.arange(n) / 512.0).astype('f4')
  t = semantic_kitti.KittiTransform(flags())
  for perm in (np.arange(n), np.arange(n)[::-1], (np.arange(n) * 77) % n):
    keep = raw[perm].copy()
    out = t({'points': np.concatenate([xyz, dens[:, None]], 1)[perm], 'labels': raw[perm]},
            0)['points']
    want = np.array([KITTI.get(int(i), 0) for i in perm])
    ctx.check(len(out.labels) == n, 'all points are inside')
    ctx.equal(out.labels.numpy().reshape(-1), want, 'training ids of %s' % case)
    ctx.equal(out.features.numpy().reshape(-1), dens[perm], 'density of each point')
    ctx.equal(raw[perm], keep, 'raw labels afterwards')
    ctx.trans(n)
    for i in perm:
      ctx.state(int(i), case['inst'])
  ctx.equal(semantic_kitti.get_label_map()[:260],
            np.array([KITTI.get(i, 0) for i in range(260)]), 'the label map')


def do_kitti_read(case, ctx, scratch):
  from datascts import semantic_kitti
  base = os.path.join(scratch, 'dataset', 'sequences', '00')
  os.makedirs(os.path.join(base, 'velodyne'))
  os.makedirs(os.path.join(base, 'labels'))
  for n, with_labels in itertools.product((1, 2, 7), (True, False)):
    a = (ref.idata(n, 4, n, -999, 999) / 8.0).astype('<f4')
    lab = (ref.idata(n, 1, n, 0, 259)[:, 0] | (np.arange(n) << 16)).astype('<i4')
    name = os.path.join(base, 'velodyne', '%06d.bin' % (2 * n + with_labels))
    a.tofile(name)
    if with_labels:
      lab.tofile(os.path.join(base, 'labels', '%06d.label' % (2 * n + 1)))
    got = semantic_kitti.read_file(name)
    ctx.equal(got['points'], a, 'points of a scan', dtype=True)
    ctx.equal(got['labels'], lab if with_labels else np.zeros(n), 'labels of a scan')
    ctx.trans()
    ctx.state(n, with_labels)


# --------------------------------------------------- transforms and the augmentation

US = [(0.0, 0.5, 0.99), (0.25, 0.75, 0.0), (0.99, 0.25, 0.5), (0.5, 0.0, 0.75),
      (0.75, 0.99, 0.25), (0.0, 0.0, 0.0), (0.99, 0.99, 0.99), (0.5, 0.5, 0.5)]


def settings(part):
  """ The flags and draws of one part: plain first, then augmented. """
  out = [(flags(), (0.5,))] if part == 0 else []
  out.append((flags(**DISTORT), US[part]))
  out.append((flags(**dict(DISTORT, orient_normal='y', uniform=True)), US[part]))
  return out


def base_transform(fl, pts, us):
  """ The general transform of the library on the expected cloud. """
  import ocnn
  with Draws(us, cycle=True):
    out = ocnn.dataset.Transform(**fl).transform({'points': pts}, 0)
  return out['points'], out['inbox_mask']


def cloud(xyz, normals=None, features=None, labels=None):
  import torch
  from ocnn.octree import Points
  t = lambda a: None if a is None else torch.from_numpy(np.array(a))
  return Points(t(xyz), t(normals), t(features), t(labels))


def same_points(ctx, got, want, what, tol=1e-6):
  ctx.check(got.points.shape == want.points.shape, lambda: '%s: %d points, expected %d' % (
      what, len(got.points), len(want.points)))
  ctx.close(got.points, want.points, what + ': positions', tol)
  for a in ('normals', 'features', 'labels'):
    g, w = getattr(got, a), getattr(want, a)
    ctx.check((g is None) == (w is None), lambda: '%s: %s' % (what, a))
    if g is not None:
      ctx.check(g.shape == w.shape, lambda: '%s: shape of %s' % (what, a))
      ctx.close(g.double(), w.double(), what + ': ' + a, tol)


def check_octree(ctx, fl, octree, pts, what):
  import torch
  from ocnn.octree import Octree
  want = Octree(fl['depth'], fl['full_depth'])
  want.build_octree(pts)
  ctx.check(octree.depth == fl['depth'] and octree.full_depth == fl['full_depth'],
            what + ': depth of the octree')
  for d in range(fl['full_depth'], fl['depth'] + 1):
    ctx.equal(octree.keys[d], want.keys[d], what + ': octree')
  ctx.equal(octree.points[fl['depth']], want.points[fl['depth']], what + ': octree points')


def do_kitti(case, ctx, scratch):
  from datascts import semantic_kitti
  for fl, us in settings(case['part']):
    for n in (1, 2, 9):
      rows = Rows(n, case['part'] + n)
      xyz = rows.points * 75 + np.array([10, -20, 3.0], 'f4')
      dens = rows.normals[:, :1]
      raw = np.array(sorted(KITTI))[(rows.labels * 5) % len(KITTI)].astype('i4')
      raw |= (np.arange(n) << 16).astype('i4')
      sample = {'points': np.concatenate([xyz, dens], 1), 'labels': raw}
      keep = {k: v.copy() for k, v in sample.items()}
      want = (xyz - (xyz.min(0) + xyz.max(0)) / 2) / 100
      lab = np.array([KITTI[int(i) & 0xffff] for i in raw], 'f4')[:, None]
      exp, mask = base_transform(fl, cloud(want, None, dens, lab), us)
      t = semantic_kitti.KittiTransform(fl)
      for again in range(2):
        with Draws(us, cycle=True):
          got = t(sample, 0)
        what = 'KittiTransform %s with %s' % (fl, us)
        same_points(ctx, got['points'], exp, what)
        ctx.equal(got['inbox_mask'], mask, what + ': mask')
        check_octree(ctx, fl, got['octree'], got['points'], what)
        for k in keep:
          ctx.equal(sample[k], keep[k], what + ': the sample afterwards')
        ctx.trans()
        ctx.state('kitti', got['points'].points)


def do_shapenet(case, ctx, scratch):
  from datascts import seg_shapenet
  for fl, us in settings(case['part']):
    for n in (2, 9):
      rows = Rows(n, case['part'] + n)
      sample = {'points': rows.points, 'normals': rows.normals, 'labels': rows.labels}
      keep = {k: v.copy() for k, v in sample.items()}
      p = rows.points.astype('f8')
      lo, hi = p.min(0), p.max(0)
      want = ((p - (lo + hi) / 2) * 1.6 / ((hi - lo).max() + 1e-6)).astype('f4')
      exp, mask = base_transform(
          fl, cloud(want, rows.normals, None, rows.labels[:, None].astype('f4')), us)
      t = seg_shapenet.ShapeNetTransform(fl)
      for again in range(2):
        with Draws(us, cycle=True):
          got = t(sample, 0)
        what = 'ShapeNetTransform %s with %s' % (fl, us)
        same_points(ctx, got['points'], exp, what)
        ctx.equal(got['inbox_mask'], mask, what + ': mask')
        check_octree(ctx, fl, got['octree'], got['points'], what)
        for k in keep:
          ctx.equal(sample[k], keep[k], what + ': the sample afterwards')
        ctx.trans()
        ctx.state('shapenet', got['points'].points)


def do_ae(case, ctx, scratch):
  import torch
  from PIL import Image
  from datascts import ae_shapenet, image2shape, modelnet40
  img = (ref.idata(16, 3, case['part'], 0, 255)).reshape(4, 4, 3).astype('u1')
  for fl, us in settings(case['part']):
    for n, scale in itertools.product((1, 9), (0.5, 2.0, 4.0)):
      fl = flags(**dict(fl, points_scale=scale))
      rows = Rows(n, case['part'] + n)
      for name, cls in (('ae', ae_shapenet.ShapeNetTransform),
                        ('image', image2shape.Image2ShapeTransform),
                        ('modelnet', modelnet40.ModelNetTransform)):
        sample = {'points': rows.points.copy(), 'normals': rows.normals.copy()}
        p = rows.points / scale if name != 'modelnet' else rows.points
        exp, mask = base_transform(fl, cloud(p, rows.normals), us)
        if name == 'image':
          sample['image'] = Image.fromarray(img)
        for again in range(2):
          with Draws(us, cycle=True):
            got = cls(fl)(sample, 0)
          what = '%s transform %s with %s' % (name, fl, us)
          same_points(ctx, got['points'], exp, what)
          ctx.equal(got['inbox_mask'], mask, what + ': mask')
          check_octree(ctx, fl, got['octree'], got['points'], what)
          ctx.equal(sample['points'], rows.points, what + ': the sample afterwards')
          ctx.equal(sample['normals'], rows.normals, what + ': the sample afterwards')
          if name == 'image':
            ctx.equal(got['image'], img.transpose(2, 0, 1).astype('f4') / np.float32(255),
                      what + ': image')
          ctx.trans()
          ctx.state(name, got['points'].points)


# ------------------------------------------------------------------------- scannet

class Numpy:
  """ random.random and numpy.random answered from given sequences. """

  def __init__(self, uni=(), rand=None, randn=None, choice=None, randint=None):
    self.uni, self.pos = list(uni), 0
    self.f = {'rand': rand, 'randn': randn, 'choice': choice, 'randint': randint}

  def __enter__(self):
    self.keep = random.random
    self.keepn = {k: getattr(np.random, k) for k in self.f}

    def uni():
      v = self.uni[self.pos % len(self.uni)]
      self.pos += 1
      return v

    random.random = uni
    for k, f in self.f.items():
      setattr(np.random, k, f or self.bad(k))
    return self

  def bad(self, k):
    def f(*a, **kw):
      raise AssertionError('random source that is not enumerated: numpy.random.' + k)
    return f

  def __exit__(self, *a):
    random.random = self.keep
    for k, f in self.keepn.items():
      setattr(np.random, k, f)


def pattern(values, salt):
  """ A deterministic array-valued draw over an alphabet. """
  def f(*shape):
    shape = tuple(int(s) for s in shape)
    n = int(np.prod(shape))
    return np.array(values, 'f8')[ref.idata(n, 1, salt, 0, len(values) - 1)[:, 0]].reshape(shape)
  return f


def color_ref(c, blend, u1, tr, u2, noise):
  """ c in [0, 1]: contrast, translation, jitter, as documented. """
  c = c.astype('f8') * 255
  lo, hi = c.min(0), c.max(0)
  con = np.where(hi > lo, (c - lo) * 255 / np.where(hi > lo, hi - lo, 1), c)
  c = (1 - blend) * c + blend * con
  if u1 < 0.95:
    c = np.clip(c + (tr - 0.5) * 255 * 2 * 0.1, 0, 255)
  if u2 < 0.95:
    c = np.clip(c + noise * 0.05 * 255, 0, 255)
  return c / 255


def colors_of(which, n):
  r = Rows(n, which).colors.astype('f4')
  if which == 1:
    r[:, 1] = 77            # one channel is constant
  if which == 2:
    r[:] = [200, 100, 50]   # a cloud of one colour
  return r


def do_colors(case, ctx, scratch):
  from datascts import scannet
  blend = (0.0, 0.25, 0.5, 0.999)[case['blend']]
  for n, u1, u2, u3 in itertools.product((1, 9), (0.0, 0.94, 0.96), (0.0, 0.94, 0.96),
                                         (0.96,) if ctx.tier == 'quick' else (0.0, 0.96)):
    for alpha in ((0.0, 0.5, 1.0), (0.25,), (0.0, 1.0)):
      for nalpha in ((-1.0, 0.0, 1.0), (0.0,), (3.0, -3.0, 40.0)):
        rows = Rows(n, n)
        rows.colors = colors_of(case['which'], n)
        sample = scan(rows)
        keep = {k: v.copy() for k, v in sample.items()}
        rand = pattern(alpha, n)
        # the elastic distortion draws after the colours: no displacement here
        calls = []

        def randn(*shape):
          calls.append(shape)
          if len(shape) == 4:
            return np.zeros(shape)
          return pattern(nalpha, n)(*shape)

        fl = flags(distort=True)
        with Numpy([blend, u1, u2, u3], rand, randn), Draws((0.5,), cycle=True):
          got = scannet.ScanNetTransform(fl)(sample, 0)
        want = color_ref(rows.colors / np.float32(255), blend, u1, rand(1, 3), u2,
                         pattern(nalpha, n)(n, 3))
        what = 'colours of %s, draws %s' % (rows.colors.tolist(), (blend, u1, u2, alpha, nalpha))
        exp, mask = base_transform(fl, cloud(scan_xyz(rows), rows.normals, want,
                                             rows.labels[:, None]), (0.5,))
        ctx.close(got['points'].features, exp.features, what, 2e-5)
        f = got['points'].features
        ctx.check(bool(((f >= 0) & (f <= 1 + 1e-6)).all()), what + ': range')
        same_points(ctx, got['points'], exp, what, 2e-5)
        for k in keep:
          ctx.equal(sample[k], keep[k], what + ': the sample afterwards')
        ctx.trans()
        ctx.state('colors', got['points'].features)


def scan(rows):
  return {'points': rows.points.copy(), 'normals': rows.normals.copy(),
          'colors': rows.colors.astype('f4'), 'labels': rows.labels.copy()}


def scan_xyz(rows):
  p = rows.points.astype('f8')
  c = (p.min(0) + p.max(0)) / 2
  c[2] = 0.5
  return ((p - c) / 10.24).astype('f4')


def elastic_ref(xyz, u, noises):
  """ noises: the two noise volumes that were drawn. """
  xyz = xyz.astype('f8')
  if not u < 0.95:
    return xyz
  for (gran, mag), noise in zip(((0.1, 0.2), (0.4, 0.8)), noises):
    lo = xyz.min(0)
    v = noise.astype('f8')
    for _ in range(2):
      for axis in range(3):
        p = np.pad(v, [(1, 1) if a == axis else (0, 0) for a in range(4)])
        s = [slice(None)] * 4
        acc = 0
        for o in range(3):
          s[axis] = slice(o, o + v.shape[axis])
          acc = acc + p[tuple(s)]
        v = acc / 3
    # grid: node i of an axis at lo + (i - 1) * granularity
    g = (xyz - lo) / gran + 1
    out = np.zeros_like(xyz)
    for r in range(len(xyz)):
      i0 = np.minimum(np.floor(g[r]).astype(int), np.array(v.shape[:3]) - 2)
      t = g[r] - i0
      for o in itertools.product((0, 1), repeat=3):
        w = np.prod([t[a] if o[a] else 1 - t[a] for a in range(3)])
        out[r] += w * v[tuple(i0 + np.array(o))]
    xyz = xyz + out * mag
  return xyz


def do_elastic(case, ctx, scratch):
  from datascts import scannet
  n = (1, 4, 9)[case['cloud']]
  alpha = ((0.0,), (1.0,), (-1.0, 0.0, 2.0), (0.25, -0.5))[case['noise']]
  for salt, u in itertools.product(range(6 if ctx.tier == 'quick' else 40),
                                   (0.0, 0.5, 0.94, 0.96)):
    rows = Rows(n, salt)
    rows.points = (rows.points * np.array([3, 3, 1], 'f4')).astype('f4')
    rows.colors = colors_of(0, n)
    sample = scan(rows)
    vols = []

    def randn(*shape):
      shape = tuple(int(s) for s in shape)
      if len(shape) == 4:
        vols.append(pattern(alpha, salt + len(vols))(*shape))
        return vols[-1].copy()
      return np.zeros(shape)

    fl = flags(distort=True)
    with Numpy([0.0, 0.96, 0.96, u], None, randn), Draws((0.5,), cycle=True):
      got = scannet.ScanNetTransform(fl)(sample, 0)
    what = 'elastic distortion of %s, %s' % (rows.points.tolist(), (u, alpha, salt))
    ctx.check(len(vols) == (2 if u < 0.95 else 0), what + ': number of noise volumes')
    x = scan_xyz(rows)
    for k, v in enumerate(vols):
      ctx.check(v.shape[3] == 3, what + ': noise volume')
    want = elastic_ref(x, u, vols)
    exp, mask = base_transform(fl, cloud(want.astype('f4'), rows.normals, rows.colors / 255,
                                         rows.labels[:, None]), (0.5,))
    if near_border(want):
      ctx.note('clouds with a point at the clipping border, not compared')
      continue
    ctx.equal(got['inbox_mask'], mask, what + ': mask')
    same_points(ctx, got['points'], exp, what, 2e-5)
    ctx.trans()
    ctx.state('elastic', got['points'].points)


def near_border(p):
  return bool((np.abs(np.abs(p) - 0.99) < 1e-3).any())


def do_scannet(case, ctx, scratch):
  """ Without colour and elastic effects: the plain and the general transform. """
  from datascts import scannet
  for us in [(0.5,)] + US[case['part'] * 2:case['part'] * 2 + 2]:
    for distort, n in itertools.product((False, True), (1, 2, 9)):
      fl = flags(**(DISTORT if distort else {}))
      rows = Rows(n, n + case['part'])
      rows.points = (rows.points * np.array([4, 4, 1], 'f4')).astype('f4')
      sample = scan(rows)
      keep = {k: v.copy() for k, v in sample.items()}
      zero = lambda *s: np.zeros([int(x) for x in s])
      exp, mask = base_transform(fl, cloud(scan_xyz(rows), rows.normals, rows.colors.astype('f4') / 255,
                                           rows.labels[:, None]), us)
      for again in range(2):
        with Numpy([0.0, 0.96, 0.96, 0.0], None, zero), Draws(us, cycle=True):
          got = scannet.ScanNetTransform(fl)(sample, 0)
        what = 'ScanNetTransform %s with %s' % (fl, us)
        same_points(ctx, got['points'], exp, what, 1e-5)
        ctx.equal(got['inbox_mask'], mask, what + ': mask')
        for k in keep:
          ctx.equal(sample[k], keep[k], what + ': the sample afterwards')
        ctx.trans()
        ctx.state('scannet', got['points'].points)


# ------------------------------------------------------------ completion and images

def do_completion(case, ctx, scratch):
  from datascts import completion
  for n, salt in itertools.product((2, 5), range(4)):
    rows = Rows(n, salt + 4 * case['part'])
    for alpha, c in itertools.product(((0.0,), (-1.0, 0.0, 1.0), (2.0, -40.0)), range(3)):
      fl = flags(depth=4, full_depth=2)
      t = completion.Transform(fl)
      pick = lambda m, size=None, **kw: (ref.idata(int(size), 1, c, 0, 97)[:, 0] * (c + 1)) % m
      sample = {'points': rows.points.copy(), 'normals': rows.normals.copy()}
      randn = pattern(alpha, salt)
      p = rows.points.astype('f8')
      lo, hi = p.min(0), p.max(0)
      p = (p - (lo + hi) / 2) * 2 / ((hi - lo).max() + 1e-6) * 0.95
      num = 3000
      q = p[pick(n, num)] + 0.0095 * randn(num, 3)
      ok = (np.abs(q) < 0.99).all(1)
      with Numpy((0.5,), None, randn, pick):
        got = t(sample, 0)
      what = 'completion of %s with noise %s' % (rows.points.tolist(), alpha)
      for k in ('points', 'normals'):
        ctx.equal(sample[k], getattr(rows, k), what + ': the sample afterwards')
      ctx.close(got['points_gt'].points, p, what + ': complete cloud', 1e-5)
      ctx.equal(got['points_gt'].normals, rows.normals, what + ': complete normals')
      if not near_border(q):
        ctx.check(len(got['points'].points) == ok.sum(), what + ': number of points')
        ctx.close(got['points'].points, q[ok], what + ': partial cloud', 1e-5)
      check_octree(ctx, fl, got['octree'], got['points'], what)
      check_octree(ctx, fl, got['octree_gt'], got['points_gt'], what + ' (complete)')
      ctx.equal(got['octree_gt'].normals[4].shape[0], got['octree_gt'].points[4].shape[0],
                what + ': octree normals')
      ctx.trans()
      ctx.state('completion', got['points'].points)


def write_views(folder, salt):
  from PIL import Image
  os.makedirs(folder, exist_ok=True)
  for v in range(24):
    img = ref.idata(16, 4, salt * 24 + v, 0, 255).reshape(4, 4, 4).astype('u1')
    img[0, 0, 0] = v
    Image.fromarray(img).save(os.path.join(folder, '%02d.png' % v))


def view(salt, v):
  img = ref.idata(16, 4, salt * 24 + v, 0, 255).reshape(4, 4, 4).astype('u1')
  img[0, 0, 0] = v
  return img[:, :, :3]


def do_image(case, ctx, scratch):
  from datascts import image2shape
  for ft in ('ply', 'npz'):
    for salt in range(2):
      rows = Rows(4, salt)
      name = os.path.join(scratch, 'points.' + ft, '02691156', 'shape%d' % salt)
      (write_ply if ft == 'ply' else write_npz)(name + '.' + ft, rows, ('points', 'normals'))
      folder = os.path.join(scratch, 'renderings', '02691156', 'shape%d' % salt, 'rendering')
      write_views(folder, salt)
      asked = []

      def randint(lo, hi=None, *a, **k):
        asked.append((lo, hi))
        return case['view']

      with Numpy((0.5,), randint=randint):
        got = image2shape.ReadFile(True, ft)(name)
      ctx.check(asked in ([(0, 24)], [(24, None)]), 'one of the 24 views: %s' % asked)
      ctx.equal(np.asarray(got['image']), view(salt, case['view']), 'the view')
      got = {k: v for k, v in got.items() if k != 'image'}
      expect(ctx, got, rows, ('points', 'normals'), 'image2shape, ' + ft)


# -------------------------------------------------------------------- whole datasets

def dataset_files(root, name, rows):
  """ Writes the rows as files of a dataset; returns the entries of the list. """
  files = []
  for i, r in enumerate(rows):
    if name == 'modelnet':
      f = 'cls%d/train/m%d.%s' % (i, i, ('ply', 'npz')[i % 2])
      (write_ply if f.endswith('ply') else write_npz)(os.path.join(root, f), r,
                                                      ('points', 'normals'))
    elif name == 'seg_shapenet':
      f = 's%d.ply' % i
      write_ply(os.path.join(root, f), r, ('points', 'normals', 'labels'), 'text')
    elif name == 'scannet':
      f = 'scene%d.%s' % (i, ('ply', 'npz')[i % 2])
      (write_ply if f.endswith('ply') else write_npz)(
          os.path.join(root, f), r, ('points', 'normals', 'colors', 'labels'))
    elif name == 'kitti':
      f = 'seq/velodyne/%06d.bin' % i
      os.makedirs(os.path.join(root, 'seq/velodyne'), exist_ok=True)
      os.makedirs(os.path.join(root, 'seq/labels'), exist_ok=True)
      np.concatenate([r.points, r.normals[:, :1]], 1).astype('f4').tofile(
          os.path.join(root, f))
      np.array(sorted(KITTI))[r.labels].astype('i4').tofile(
          os.path.join(root, 'seq/labels/%06d.label' % i))
    elif name == 'completion':
      f = 's%d.%s' % (i, ('ply', 'npz')[i % 2])
      (write_ply if f.endswith('ply') else write_npz)(os.path.join(root, f), r,
                                                      ('points', 'normals'))
    else:
      f = 'points.ply/c/s%d' % i
      write_ply(os.path.join(root, f + '.ply'), r, ('points', 'normals'))
      if name == 'image':
        write_views(os.path.join(root, 'renderings/c/s%d/rendering' % i), i)
    files.append(f)
  return files


def do_dataset(case, ctx, scratch):
  import torch
  import datascts
  name, mem = case['name'], case['memory']
  n = {0: 5, 1: 3, 2: 7}
  root = os.path.join(scratch, 'data')
  rows = [Rows(n[i], i) for i in range(3)]
  fl = flags(location=root, in_memory=mem, points_scale=2.0)
  merged = name in ('seg_shapenet', 'kitti')
  files = dataset_files(root, name, rows)
  func = {'modelnet': datascts.get_modelnet40_dataset,
          'seg_shapenet': datascts.get_seg_shapenet_dataset,
          'scannet': datascts.get_scannet_dataset, 'kitti': datascts.get_kitti_dataset,
          'ae': datascts.get_ae_shapenet_dataset,
          'completion': datascts.get_completion_dataset,
          'image': datascts.get_image2shape_dataset}[name]
  for order in itertools.permutations(range(3)):
    lst = os.path.join(scratch, 'list.txt')
    with open(lst, 'w') as f:
      for j in order:
        f.write('%s %d\n' % (files[j], 10 + j))
    fl['filelist'] = lst
    for take in ((-1, 2) if name in ('modelnet', 'seg_shapenet') else (-1,)):
      fl['take'] = take
      num = 3 if take < 0 else take
      src = dict(randint=lambda *a, **k: 5, randn=lambda *s: np.zeros([int(x) for x in s]),
                 choice=lambda m, size=None, **k: np.arange(size) % m)
      with Numpy((0.5,), **src):
        data, collate = func(fl)
        ctx.check(len(data) == num, '%s: number of samples' % case)
        for again in range(2):
          got = [data[j] for j in range(num)]
          for j in range(num):
            one_sample(ctx, name, got[j], rows[order[j]], files[order[j]], order[j], fl)
          batch = collate(got)
          ctx.check(batch['label'].tolist() == [10 + j for j in order[:num]] and
                    batch['filename'] == [files[j] for j in order[:num]],
                    '%s: labels and names of a batch' % case)
          if 'octree' in batch:
            ctx.check(batch['octree'].batch_size == num, '%s: batch size' % case)
          if name == 'image':
            for j in range(num):
              ctx.equal(batch['image'][j], view(order[j], 5).transpose(2, 0, 1).astype('f4')
                        / np.float32(255), 'image of a batch')
          if merged:
            p = batch['points']
            for j in range(num):
              m = p.batch_id.view(-1) == j
              ctx.equal(p.points[m], got[j]['points'].points, 'positions of a batch')
              ctx.equal(p.labels[m], got[j]['points'].labels, 'labels of a batch')
          else:
            for j in range(num):
              ctx.check(batch['points'][j] is got[j]['points'], 'points of a batch')
          ctx.trans()
      ctx.state(case, list(order), take)


def one_sample(ctx, name, got, rows, filename, j, fl):
  what = '%s sample %d' % (name, j)
  ctx.check(got['filename'] == filename and got['label'] == 10 + j, what)
  p = rows.points.astype('f8')
  lo, hi = p.min(0), p.max(0)
  nrm, fea, lab = rows.normals, None, None
  if name == 'modelnet':
    x = p
  elif name in ('ae', 'image'):
    x = p / 2.0
  elif name == 'seg_shapenet':
    x, lab = (p - (lo + hi) / 2) * 1.6 / ((hi - lo).max() + 1e-6), rows.labels[:, None]
  elif name == 'scannet':
    x, fea, lab = scan_xyz(rows), rows.colors / 255.0, rows.labels[:, None]
  elif name == 'kitti':
    x, nrm, fea = (p - (lo + hi) / 2) / 100, None, rows.normals[:, :1]
    lab = np.array([KITTI[sorted(KITTI)[i]] for i in rows.labels])[:, None]
  else:
    x = (p - (lo + hi) / 2) * 2 / ((hi - lo).max() + 1e-6) * 0.95
    ctx.close(got['points_gt'].points, x, what + ': complete cloud', 1e-5)
    ctx.close(got['points_gt'].normals, nrm, what + ': complete normals')
    ctx.close(got['points'].points, x[np.arange(3000) % rows.n], what, 1e-5)
    return
  ok = (np.abs(x) < 0.99).all(1)
  ctx.equal(got['inbox_mask'], ok, what + ': mask')
  g = got['points']
  ctx.close(g.points, x[ok], what + ': positions', 1e-5)
  for a, w in (('normals', nrm), ('features', fea), ('labels', lab)):
    v = getattr(g, a)
    ctx.check((v is None) == (w is None), '%s: %s' % (what, a))
    if w is not None:
      ctx.close(v, np.asarray(w)[ok], '%s: %s' % (what, a), 1e-5)


# ------------------------------------------------------------------- conversion tools

def tool(name, *argv, **stubs):
  """ A fresh instance of a script of projects/tools. """
  keep = sys.argv
  sys.argv = [name + '.py'] + list(argv)
  if '/repo/projects/tools' not in sys.path:
    sys.path.insert(0, '/repo/projects/tools')
  sys.modules.pop('utils', None)
  for k, v in stubs.items():
    sys.modules[k] = v
  try:
    spec = importlib.util.spec_from_file_location(
        'tool_' + name, '/repo/projects/tools/%s.py' % name)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
  finally:
    sys.argv = keep
  return mod


def do_shapenet_tool(case, ctx, scratch):
  from datascts import utils
  mod = tool('seg_shapenet')
  num = [4, 2, 2, 4, 4, 3, 3, 2, 4, 2, 6, 2, 3, 3, 3, 3]
  cats = ['02691156', '02773838', '02954340', '02958343', '03001627', '03261776',
          '03467517', '03624134', '03636649', '03642806', '03790512', '03797390',
          '03948459', '04099429', '04225987', '04379243']
  mod.root_folder = scratch
  mod.txt_folder = os.path.join(scratch, 'txt')
  mod.ply_folder = os.path.join(scratch, 'points')
  data, base = {}, 0
  for i, c in enumerate(cats):
    os.makedirs(os.path.join(mod.txt_folder, c))
    for j in range(2):
      r = Rows(2 * num[i], i + j)
      part = np.arange(r.n) % num[i]
      r.labels = part
      with open(os.path.join(mod.txt_folder, c, 's%d.txt' % j), 'w') as f:
        for k in range(r.n):
          f.write(' '.join('%.9g' % v for v in list(r.points[k]) + list(r.normals[k])) +
                  ' %.6f\n' % (base + part[k]))
      data[c, j] = r
    base += num[i]
  os.makedirs(os.path.join(mod.txt_folder, 'train_test_split'))
  lists = {'train': [], 'val': [], 'test': []}
  for k, (c, j) in enumerate(data):
    lists[('train', 'val', 'test')[(k * 7) % 3]].append('shape_data/%s/s%d' % (c, j))
  for k, v in lists.items():
    with open(os.path.join(mod.txt_folder, 'train_test_split',
                           'shuffled_%s_file_list.json' % k), 'w') as f:
      json.dump(v, f)
  mod.txt_to_ply()
  for (c, j), r in data.items():
    attrs = ('points', 'normals', 'labels')
    got = utils.ReadPly(True, False, True)(os.path.join(mod.ply_folder, c, 's%d.ply' % j))
    expect(ctx, got, r, attrs, 'converted ' + c)
  mod.generate_filelist()
  for i, c in enumerate(cats):
    for name, keys in (('train_val', ('train', 'val')), ('test', ('test',))):
      want = ['%s.ply %d' % (l[11:], i) for k in keys for l in lists[k] if c in l]
      with open(os.path.join(scratch, 'filelist', '%s_%s.txt' % (c, name))) as f:
        ctx.check(f.read().split('\n') == (want or ['']), 'file list of ' + c)
      ctx.trans()


def do_ae_tool(case, ctx, scratch):
  from datascts import image2shape
  mod = tool('ae_shapenet')
  mod.root_folder = scratch
  data = {}
  for pre, folder, j in itertools.product(('shape', 'test.scans'), ('a', 'b'), range(2)):
    r = Rows(3 + j, j)
    data[pre, folder, j] = r
    write_ply(os.path.join(scratch, pre + '.ply', folder, 's.%d.ply' % j), r,
              ('points', 'normals'), ('text', 'big')[j])
  for f in ('filelist_test', 'filelist_train', 'filelist_test_scans'):
    with open(os.path.join(scratch, f + '.txt'), 'w') as fid:
      fid.write('a/s.0.points 3\nb/s.1.points 4\n')
  mod.convert_ply_to_numpy()
  mod.create_filelist()
  for (pre, folder, j), r in data.items():
    name = os.path.join(scratch, pre + '.npz', folder, 's.%d' % j)
    expect(ctx, image2shape.ReadPoints(True, 'npz')(name), r, ('points', 'normals'),
           'converted ' + pre)
  for f, s in itertools.product(('filelist_test', 'filelist_train', 'filelist_test_scans'),
                                ('.npz', '.ply')):
    with open(os.path.join(scratch, f + s + '.txt')) as fid:
      ctx.check(fid.read() == 'a/s.0%s 3\nb/s.1%s 4\n' % (s, s), 'file list ' + f + s)


OCT = np.array([[0, 0, 0], [4, 0, 0], [0, 4, 0], [0, 0, 4]], 'f8')
TRI = np.array([[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]])


def off(verts, faces, joined):
  head = 'OFF%s%d %d 0\n' % ('' if joined else '\n', len(verts), len(faces))
  return head + ''.join('%g %g %g\n' % tuple(v) for v in verts) + \
      ''.join('3 %d %d %d\n' % tuple(f) for f in faces)


def obj(verts, faces):
  return ''.join('v %g %g %g\n' % tuple(v) for v in verts) + \
      ''.join('f %d %d %d\n' % tuple(f + 1) for f in faces)


class Sampler:
  """ Stand-in of the surface sampling: centres of faces in a fixed order. """

  def __init__(self, num):
    self.num = num

  def __call__(self, mesh, count, *a, **k):
    assert count == self.num, count
    idx = (np.arange(count) * 3 + 1) % len(mesh.faces)
    pts = np.asarray(mesh.triangles)[idx].mean(1) + \
        np.arange(count)[:, None] * np.array([[1 / 64, 0, 0]])
    return pts, idx


def face_data(verts, num):
  """ Points and normals the sampler gives for a mesh. """
  tri = verts[TRI]
  nrm = np.cross(tri[:, 1] - tri[:, 0], tri[:, 2] - tri[:, 0])
  nrm = nrm / np.linalg.norm(nrm, axis=1, keepdims=True)
  idx = (np.arange(num) * 3 + 1) % 4
  return tri[idx].mean(1) + np.arange(num)[:, None] * np.array([[1 / 64, 0, 0]]), nrm[idx]


def do_image_tool(case, ctx, scratch):
  from datascts import image2shape
  import trimesh.sample
  mod = tool('image2shape', '--run', 'mesh2points', '--sample_num', '10')
  mod.root_folder = scratch
  keep = trimesh.sample.sample_surface
  trimesh.sample.sample_surface = Sampler(10)
  try:
    for i, c in enumerate(mod.categories):
      os.makedirs(os.path.join(scratch, 'shapenet.mesh', c))
      for j in range(2):
        with open(os.path.join(scratch, 'shapenet.mesh', c, 's%d.obj' % j), 'w') as f:
          f.write(obj(OCT * [1 + j, 1, 1 + i], TRI))
    mod.mesh2points()
  finally:
    trimesh.sample.sample_surface = keep
  mod.ply2npz()
  for i, c in enumerate(mod.categories):
    for j in range(2):
      p, n = face_data(OCT * [1 + j, 1, 1 + i], 10)
      for ft, tol in (('ply', 1e-6), ('npz', 2e-3)):
        name = os.path.join(scratch, 'points.' + ft, c, 's%d' % j)
        got = image2shape.ReadPoints(True, ft)(name)
        ctx.close(got['points'], p, 'sampled points, %s' % ft, tol)
        ctx.close(got['normals'], n, 'normals of the sampled faces, %s' % ft, tol)
        ctx.trans()
      ctx.state(c, j)
  # the file lists: the shapes that have points and images, 80% for training
  for c in mod.categories:
    for f in ('s0', 's1', 'zz'):
      os.makedirs(os.path.join(scratch, 'renderings', c, f))
  mod.create_filelist()
  for part, pick in (('train', 's0'), ('test', 's1')):
    with open(os.path.join(scratch, 'filelist', 'image2shape.%s.txt' % part)) as f:
      ctx.check(f.read().split('\n') == ['%s/%s' % (c, pick) for c in mod.categories],
                'file list of images')


def do_modelnet_tool(case, ctx, scratch):
  from datascts import utils
  import trimesh.sample
  norm, aly = case['normalize'], case['align_y']

  def ball(p, details=False):
    c = (p.min(0) + p.max(0)) / 2
    r2 = float(((p - c) ** 2).sum(1).max())
    return c, r2, {'is_valid': True}

  stub = types.ModuleType('cyminiball')
  stub.compute = ball
  mod = tool('cls_modelnet', '--sample_num', '12', '--align_y', str(aly),
             '--normalize', str(norm), cyminiball=stub)
  mod.root_folder = scratch
  os.makedirs(os.path.join(scratch, 'flags'))
  data = {}
  for i in range(40):
    for sub in ('train', 'test'):
      d = os.path.join(scratch, 'ModelNet40', 'c%02d' % i, sub)
      os.makedirs(d)
      for j in range(1 + i % 2):
        v = OCT * [1 + j, 2, 1 + i % 5] + [i, 0, -i]
        name = 'c%02d/%s/m_%d' % (i, sub, j)
        with open(os.path.join(scratch, 'ModelNet40', name + '.off'), 'w') as f:
          f.write(off(v, TRI, (i + j) % 2))
        data[name] = (i, v)
  keep = trimesh.sample.sample_surface
  trimesh.sample.sample_surface = Sampler(12)
  try:
    mod.convert_mesh_to_points()
  finally:
    trimesh.sample.sample_surface = keep
  mod.generate_points_filelist()
  folder = 'ModelNet40.ply' + ('.y' if aly else '') + ('.normalize' if norm else '')
  for name, (i, v) in data.items():
    if aly:
      v = v[:, [1, 2, 0]]       # row vectors times the permutation matrix
    p, n = face_data(v, 12)
    if norm:
      lo, hi = p.min(0), p.max(0)
      p = (p - (lo + hi) / 2) / ((hi - lo).max() * 0.5 + 1e-6)
      c, r2, _ = ball(p)
      p = (p - c) / np.sqrt(r2)
      ctx.check(np.linalg.norm(p, axis=1).max() <= 1 + 1e-6, 'unit ball')
    got = utils.ReadPly(True)(os.path.join(scratch, folder, name + '.ply'))
    ctx.close(got['points'], p, '%s: points of %s' % (case, name), 1e-5)
    ctx.close(got['normals'], n, '%s: normals of %s' % (case, name), 1e-5)
    ctx.trans()
    ctx.state(case, name)
  for sub in ('train', 'test'):
    want = ['%s.ply %d' % (k, i) for k, (i, _) in sorted(data.items()) if '/%s/' % sub in k]
    for f in ('m40_%s.txt' % sub, 'm40_1.00_%s.txt' % sub):
      with open(os.path.join(scratch, 'filelist', f)) as fid:
        ctx.check(fid.read().split('\n')[:-1] == want, 'file list ' + f)


def do_kitti_tool(case, ctx, scratch):
  mod = tool('seg_kitti', '--root_folder', scratch)
  z = {'data_odometry_labels.zip': 'labels/%s.label',
       'data_odometry_velodyne.zip': 'velodyne/%s.bin'}
  seqs = ['%02d' % i for i in range(22)]
  for name, pat in z.items():
    with zipfile.ZipFile(os.path.join(scratch, name), 'w') as f:
      for s in seqs:
        for k in ('000001', '000000', '000010')[:1 + int(s) % 3]:
          f.writestr('dataset/sequences/%s/%s' % (s, pat % k), s + k)
  mod.unzip_files()
  mod.generate_file_list()
  train = ['00', '01', '02', '03', '04', '05', '06', '07', '09', '10']
  split = {'train': train, 'val': ['08'], 'test': seqs[11:], 'train_val': train + ['08']}
  for k, v in split.items():
    want = ['dataset/sequences/%s/velodyne/%s.bin 0' % (s, n) for s in v
            for n in sorted(('000001', '000000', '000010')[:1 + int(s) % 3])]
    with open(os.path.join(scratch, k + '.txt')) as f:
      ctx.check(f.read().split('\n')[:-1] == want, 'file list ' + k)
    for w in want:
      with open(os.path.join(scratch, w[:-2])) as f:
        ctx.check(f.read() == w.split('/')[2] + w.split('/')[4][:6], 'unpacked files')
    ctx.trans()
    ctx.state(k)


# -------------------------------------------------------------------- scannet tools

def mesh_normals(v, f):
  """ Area weighted vertex normals in float64. """
  v = v.astype('f8')
  n = np.zeros_like(v)
  for a, b, c in f:
    w = np.cross(v[b] - v[a], v[c] - v[a]) / 2
    for i in (a, b, c):
      n[i] += w
  l = np.linalg.norm(n, axis=1, keepdims=True)
  return n / np.maximum(l, 1e-8)


def do_normals(case, ctx, scratch):
  """ All triangle fans over a small vertex set. """
  mod = tool('seg_scannet', '--path_out', scratch)
  v0 = np.concatenate([OCT, [[4, 4, 1]]]).astype('f4')
  tris = [t for t in itertools.permutations(range(5), 3) if t[0] < t[1] or t[0] < t[2]]
  for k in (1, 2, 3):
    every = list(itertools.combinations(tris, k))
    if k == 3:
      every = every[::(97 if ctx.tier == 'quick' else 7)]
    for n, f in enumerate(every):
      f = np.array(f)
      # faces of scans have areas of 1e-4 and less; models can be large
      size = (1, 1 / 512, 64, 1 / 64)[n % 4]
      v = v0 * np.float32(size)
      want = mesh_normals(v, f)
      got = mod.vertex_normal(v, f)
      # vertices whose faces cancel have no direction
      raw = np.zeros((5, 3))
      for a, b, c in f:
        raw[[a, b, c]] += np.cross(v[b] - v[a], v[c] - v[a])
      sure = np.linalg.norm(raw, axis=1) > 1e-3 * size ** 2
      # the code guards divisions with 1e-8
      tol = max(1e-5, 4e-8 / size ** 2)
      ctx.close(got[sure], want[sure], 'normals of %s' % f.tolist(), tol)
      ctx.close(got[~sure], np.zeros((int((~sure).sum()), 3)), 'vertices without normal',
                1e-5)
      nf, area = mod.face_normal(v, f)
      tri = v[f].astype('f8')
      cr = np.cross(tri[:, 1] - tri[:, 0], tri[:, 2] - tri[:, 0])
      l = np.linalg.norm(cr, axis=1, keepdims=True)
      ctx.close(nf, cr / l, 'face normals of %s' % f.tolist(), tol)
      ctx.close(area, l / 2, 'face areas of %s' % f.tolist(), 1e-5)
      ctx.trans()
      ctx.state(f)


def do_process(case, ctx, scratch):
  """ Raw scenes to the training files, read back with the reader. """
  from datascts import utils
  full, align, suffix = case['full'], case['align'], case['suffix']
  src, out = os.path.join(scratch, 'src'), os.path.join(scratch, 'out')
  os.makedirs(out)
  args = ['--path_in', src, '--path_out', out, '--suffix_out', suffix]
  args += ['--align_axis'] if align else []
  args += ['--scannet200'] if full else []
  mod = tool('seg_scannet', *args)
  mod.download_filelists = lambda: None
  from mc.checks.c30 import IDS20
  ids = list(mod.class_ids200) if full else IDS20
  ctx.check(len(ids) == len(set(ids)) == (201 if full else 21) and ids[0] == 0 and
            ids == sorted(ids), 'class ids')
  other = [1, 2, 12, 20, 1184, 1192, 1300, 2000] if full else [13, 15, 40, 38]
  raw_ids = ids + [i for i in other if i not in ids]
  with open(os.path.join(out, 'scannetv2-labels.combined.tsv'), 'w') as f:
    f.write('id\traw_category\tcategory\n')
    for i in raw_ids:
      f.write('%d\tname %d\tx\n' % (i, i))
      f.write('%d\tname %d b\tx\n' % (i, i))
  n = len(raw_ids) + 5
  scenes = {'train': ['scene0000_00', 'scene0001_01'], 'test': ['scene0707_00']}
  want = {}
  for sub, folder in (('train', 'scans'), ('test', 'scans_test')):
    for s, scene in enumerate(scenes[sub]):
      d = os.path.join(src, folder, scene)
      r = Rows(n, s)
      face = np.array([[i, (i + 1) % n, (i * 7 + 3) % n] for i in range(n)])
      face = face[(face[:, 0] != face[:, 2]) & (face[:, 1] != face[:, 2])]
      r.alpha = np.full(n, 255)
      write_scene(os.path.join(d, scene + '_vh_clean_2.ply'), r, face)
      mat = np.array([[0, -1, 0, 1.5], [1, 0, 0, -2], [0, 0, 1, 0.25], [0, 0, 0, 1.0]])
      if s:
        mat = np.array([[.8, .6, 0, 3], [-.6, .8, 0, 1], [0, 0, 1, -1], [0, 0, 0, 1.0]])
      with open(os.path.join(d, scene + '.txt'), 'w') as f:
        f.write('appVersionId = 1\naxisAlignment = %s \ncolorHeight = 968\n' % (
            ' '.join('%f' % x for x in mat.reshape(-1))))
      lab = np.array([raw_ids[(i * 5 + s) % len(raw_ids)] for i in range(n)])
      if len(raw_ids) % 5 == 0:
        lab = np.array([raw_ids[(i * 7 + s) % len(raw_ids)] for i in range(n)])
      if sub == 'train':
        if full:
          # segments: two consecutive points share one; groups by label
          seg = np.arange(n) * 3 + 100
          lab[3::9] = lab[2::9][:len(lab[3::9])]
          seg[3::9] = seg[2::9][:len(seg[3::9])]
          groups = []
          for g, i in enumerate(sorted(set(lab.tolist()))):
            if i == 0:
              continue
            groups.append({'id': g, 'label': 'name %d%s' % (i, ' b' if g % 2 else ''),
                           'segments': sorted(set(seg[lab == i].tolist()))})
          lost = [i for i in range(n) if lab[i] not in ids]
          for i in lost:
            lab[i] = 0
          # a group with an unknown name
          k = int(np.flatnonzero(lab == ids[5])[0])
          for g in groups:
            if g['label'].split()[1] == str(ids[5]):
              g['label'] = 'not in the table'
          lab[lab == ids[5]] = 0
          with open(os.path.join(d, scene + '_vh_clean_2.0.010000.segs.json'), 'w') as f:
            json.dump({'segIndices': seg.tolist()}, f)
          with open(os.path.join(d, scene + '_vh_clean.aggregation.json'), 'w') as f:
            json.dump({'segGroups': groups}, f)
        else:
          lr = Rows(n, s)
          lr.labels = lab
          lr.alpha = r.alpha
          write_scene(os.path.join(d, scene + '_vh_clean_2.labels.ply'), lr, face, True)
      xyz = r.points.astype('f8')
      if align:
        xyz = xyz @ mat[:3, :3].T + mat[:3, 3]
      want[sub, scene] = (r, xyz, mesh_normals(xyz, face), lab)
  mod.process_scannet()
  attrs = switches(('normals', 'colors', 'labels'))
  mapping = {c: k for k, c in enumerate(ids)}
  for (sub, scene), (r, xyz, nrm, lab) in want.items():
    name = os.path.join(out, sub, scene + suffix)
    got = utils.ReadFile(**attrs)(name)
    what = '%s, %s scene' % (case, sub)
    ctx.close(got['points'], xyz, what + ': positions', 1e-5)
    ctx.close(got['normals'], nrm, what + ': normals', 1e-4)
    ctx.equal(got['colors'], r.colors, what + ': colours')
    if sub == 'train':
      new = np.array([mapping.get(int(i), 0) for i in lab])
      ctx.equal(got['labels'], new, what + ': training labels')
      ctx.equal(np.loadtxt(name[:-4] + '.txt'), lab, what + ': raw labels')
    ctx.trans(len(lab))
    ctx.state(case, scene, got['labels'])
  # a second run leaves the results alone
  was = {k: os.stat(os.path.join(out, k[0], k[1] + suffix)).st_mtime_ns for k in want}
  mod.process_scannet()
  ctx.check(was == {k: os.stat(os.path.join(out, k[0], k[1] + suffix)).st_mtime_ns
                    for k in want}, 'finished scenes are kept')


def write_scene(name, rows, face, label=False):
  """ Like the scans of ScanNet: x y z red green blue alpha [label], faces. """
  cols = [('x', 'f4', rows.points[:, 0]), ('y', 'f4', rows.points[:, 1]),
          ('z', 'f4', rows.points[:, 2]), ('red', 'u1', rows.colors[:, 0]),
          ('green', 'u1', rows.colors[:, 1]), ('blue', 'u1', rows.colors[:, 2]),
          ('alpha', 'u1', rows.alpha)]
  if label:
    cols.append(('label', 'u2', rows.labels))
  tn = {'f4': 'float', 'u1': 'uchar', 'u2': 'ushort'}
  os.makedirs(os.path.dirname(name), exist_ok=True)
  a = np.zeros(rows.n, dtype=[(p, '<' + t) for p, t, _ in cols])
  for p, t, c in cols:
    a[p] = c
  with open(name, 'wb') as f:
    f.write(('ply\nformat binary_little_endian 1.0\nelement vertex %d\n' % rows.n +
             ''.join('property %s %s\n' % (tn[t], p) for p, t, _ in cols) +
             'element face %d\nproperty list uchar int vertex_indices\nend_header\n'
             % len(face)).encode())
    f.write(a.tobytes())
    for t in face:
      f.write(b'\x03' + np.array(t, '<i4').tobytes())
