"""C44: an argument means the same by name, by position and left out."""

import itertools
import numpy as np
from mc import ops, shapes
from mc.cloud import Cloud

ID = 'C44'
TECHNIQUE = ('exhaustive enumeration, per public callable, of the assignments of its optional '
             'arguments x all ways to pass them (named, positional up to every position, '
             'every subset of defaults left out), executed on the real library and compared')
BOUNDS = ('77 public constructors, functions and methods with their documented argument '
          'order and defaults; every optional argument at its default and at another '
          'value, all combinations (2-3 at a time beyond 4 optional arguments); every '
          'split into positional and named arguments, every subset of up to 5 default '
          'arguments left out; arguments with an effect must have it')
ASSUMPTIONS = ['the documented signatures of the pinned version']
CASE_LIMIT = 300

REQ = object()


def cases(tier):
  names = sorted(table())
  out = [{'name': n, 'tier': tier} for n in names]
  heavy = ('models.UNet', 'models.HRNet', 'models.ResNet', 'models.SegNet')
  return sorted(out, key=lambda c: c['name'] not in heavy)


class World:
  """ Objects made anew for every call. """

  def __init__(self):
    import torch
    torch.manual_seed(11)
    self.depth = 4
    self.cloud = Cloud([[[0, 0, 0], [3, 1, 2], [15, 15, 15], [14, 15, 15], [8, 4, 4]],
                        [[1, 6, 5], [1, 6, 4], [0, 0, 1], [9, 9, 2]]], 4, 2, True, 3)
    self.o = self.cloud.octree(2, 'merge', True)

  def x(self, c, depth=4, nempty=False, salt=0):
    o = self.o
    n = int(o.nnum_nempty[depth] if nempty else o.nnum[depth])
    return ops.tens(n, c, salt, grad=False)

  def q(self):
    import torch
    return torch.tensor([[.3, -.7, .1, 0], [.99, .99, .99, 1], [-1, -1, -1, 0],
                         [-.1, .55, .2, 1], [1.2, .74, .76, 0], [2.5, 3.5, 0.5, 0],
                         [0.5, 0.5, 0.5, 1], [9.5, 9.5, 2.5, 1]])

  def child(self, depth, nempty):
    import torch
    return torch.arange(8 * int(self.o.nnum_nempty[depth]))


def module(cls, forward):
  """ Construction, parameters and a forward pass. """
  def f(v, call):
    w = World()
    m = call(cls)
    out = {k: p.detach().numpy().copy() for k, p in m.state_dict().items()}
    return [out, ops.result(forward(w, m, v))]
  return f


def table():
  """ name -> (function of (intended values, call), arguments (name, default, other,
  has an effect)). """
  import torch
  import ocnn
  from ocnn import nn, modules as mo, models, octree as oc, utils as ut, dataset as ds
  t = {}
  BUF = ('max_buffer', int(2e8), 300, False)
  NE = ('nempty', False, True, True)

  def conv(w, m, v):
    s, ne = v.get('stride', 1), v.get('nempty', False)
    d = 3 if isinstance(m, nn.OctreeDeconv) and s == 2 else 4
    return m(w.x(v['in_channels'], d, ne), w.o, d)

  cio = [('in_channels', REQ, 4), ('out_channels', REQ, 6)]
  ks = [('kernel_size', [3], [3, 1, 3], True), ('stride', 1, 2, True), NE]
  t['nn.OctreeConv'] = module(nn.OctreeConv, conv), cio + ks + [
      ('direct_method', False, True, False), ('use_bias', False, True, True), BUF]
  t['nn.OctreeDeconv'] = module(nn.OctreeDeconv, conv), t['nn.OctreeConv'][1]
  t['nn.OctreeGroupConv'] = module(nn.OctreeGroupConv, conv), cio + ks + [
      ('use_bias', False, True, True), ('group', 1, 2, True)]
  t['nn.OctreeDWConv'] = module(nn.OctreeDWConv, conv), cio[:1] + ks + [
      ('use_bias', False, True, True), BUF]

  def at(d, c=3):
    return lambda w, m, v: m(w.x(c, d, v.get('nempty', False)), w.o, d)
  t['nn.Octree2Voxel'] = module(nn.Octree2Voxel, at(2)), [NE]
  t['nn.OctreeMaxPool'] = module(nn.OctreeMaxPool, at(4)), [
      NE, ('return_indices', False, True, True)]

  def unpool(w, m, v):
    ne = v.get('nempty', False)
    x, i = nn.octree_max_pool(w.x(3, 4, ne), w.o, 4, ne, True)
    return m(x, i, w.o, 3)
  t['nn.OctreeMaxUnpool'] = module(nn.OctreeMaxUnpool, unpool), [NE]
  t['nn.OctreeGlobalPool'] = module(nn.OctreeGlobalPool, at(4)), [NE]
  t['nn.OctreeAvgPool'] = module(nn.OctreeAvgPool, at(4)), [
      ('kernel_size', REQ, [2]), ('stride', REQ, 2), NE]
  t['nn.OctreeInterp'] = module(
      nn.OctreeInterp, lambda w, m, v: m(w.x(3, 4, v.get('nempty', False)), w.o, 4, w.q())), [
          ('method', 'linear', 'nearest', True), NE, ('bound_check', False, True, False),
          ('rescale_pts', True, False, True)]
  t['nn.OctreeUpsample'] = module(
      nn.OctreeUpsample,
      lambda w, m, v: m(w.x(3, 3, v.get('nempty', False)), w.o, 3, 4)), [
          ('method', 'linear', 'nearest', True), NE]
  t['nn.OctreeInstanceNorm'] = module(nn.OctreeInstanceNorm, at(4, 4)), cio[:1] + [NE]
  t['nn.OctreeGroupNorm'] = module(nn.OctreeGroupNorm, at(4, 4)), cio[:1] + [
      ('group', REQ, 2), NE]
  t['nn.OctreeDropPath'] = module(nn.OctreeDropPath, at(4)), [
      ('drop_prob', 0.0, 0.4, True), NE, ('scale_by_keep', True, False, True)]

  def func(f, *first):
    """ A function; the first arguments are made for each call. """
    def g(v, call):
      w = World()
      return ops.result(call(f, *[a(w, v) for a in first]))
    return g
  ne = lambda v: v.get('nempty', False)
  tree = lambda w, v: w.o
  d4 = ('depth', REQ, 4)
  d3 = ('depth', REQ, 3)
  t['nn.octree2voxel'] = func(
      nn.octree2voxel, lambda w, v: w.x(3, 2, ne(v)), tree), [('depth', REQ, 2), NE]
  col = [d4, ('kernel_size', '333', '311', True), ('stride', 1, 2, True), NE]
  t['nn.octree2col'] = func(nn.octree2col, lambda w, v: w.x(3, 4, ne(v)), tree), col

  def columns(w, v):
    d = 3 if v['stride'] == 2 and ne(v) else 4
    n = int(w.o.nnum_nempty[d] if ne(v) else w.o.nnum[d] // (8 if v['stride'] == 2 else 1))
    k = 27 if v['kernel_size'] == '333' else 3
    return ops.tens(n, k * 2, 1, grad=False).view(n, k, 2)
  t['nn.col2octree'] = func(nn.col2octree, columns, tree), col
  t['nn.octree_pad'] = func(nn.octree_pad, lambda w, v: w.x(3, 4, True), tree), [
      d4, ('val', 0.0, 2.5, True)]
  t['nn.octree_depad'] = func(nn.octree_depad, lambda w, v: w.x(3, 4), tree), [d4]
  def pts(w, v):
    x, y, z, b = w.o.xyzb(4, False)
    return torch.stack([x + .75, y + .375, z + .25, b.float()], dim=1)[::3]

  for n in ('octree_nearest_pts', 'octree_linear_pts'):
    def interp(f, v, call):
      w = World()
      return ops.result(call(f, w.x(3, 4, ne(v)), w.o, 4, pts(w, v)))
    t['nn.' + n] = (lambda v, call, f=getattr(nn, n): interp(f, v, call)), [
        NE, ('bound_check', False, True, False)]
  t['nn.octree_max_pool'] = func(
      nn.octree_max_pool, lambda w, v: w.x(3, 4, ne(v)), tree), [
          d4, NE, ('return_indices', False, True, True)]
  t['nn.octree_max_unpool'] = func(
      nn.octree_max_unpool, lambda w, v: w.x(3, 3, ne(v)),
      lambda w, v: nn.octree_max_pool(w.x(3, 4, ne(v)), w.o, 4, ne(v), True)[1], tree), [
          d3, NE]
  t['nn.octree_global_pool'] = func(
      nn.octree_global_pool, lambda w, v: w.x(3, 4, ne(v)), tree), [d4, NE]
  t['nn.octree_avg_pool'] = func(
      nn.octree_avg_pool, lambda w, v: w.x(3, 4, ne(v)), tree), [
          d4, ('kernel', REQ, '222'), ('stride', 2, 1, True), NE]
  t['nn.octree_align'] = func(
      nn.octree_align, lambda w, v: w.x(3, 4, ne(v)), tree,
      lambda w, v: w.cloud.octree(3, 'batch', False)), [d4, NE]

  res = lambda w, m, v: m.eval()(w.x(v['in_channels'], 4, ne(v)), w.o, 4)
  for n in ('OctreeConvBn', 'OctreeConvBnRelu'):
    t['modules.' + n] = module(getattr(mo, n), res), cio + ks
  t['modules.OctreeDeconvBnRelu'] = module(
      mo.OctreeDeconvBnRelu, lambda w, m, v: m.eval()(
          w.x(4, 5 - v['stride'], ne(v)), w.o, 5 - v['stride'])), cio + ks
  t['modules.InputFeature'] = module(mo.InputFeature, lambda w, m, v: m(w.o)), [
      ('feature', 'NDF', 'LP', True), NE]
  t['modules.Conv1x1'] = module(mo.Conv1x1, lambda w, m, v: m(w.x(4))), cio + [
      ('use_bias', False, True, True)]
  for n in ('Conv1x1Bn', 'Conv1x1BnRelu', 'FcBnRelu'):
    t['modules.' + n] = module(getattr(mo, n), lambda w, m, v: m.eval()(w.x(4))), cio
  for n, b in (('OctreeResBlock', 4), ('OctreeResBlock2', 1)):
    t['modules.' + n] = module(getattr(mo, n), res), [
        ('in_channels', REQ, 4), ('out_channels', REQ, 8), ('stride', 1, 2, True),
        ('bottleneck', b, 2, True), NE]
  t['modules.OctreeResBlocks'] = module(mo.OctreeResBlocks, res), [
      ('in_channels', REQ, 4), ('out_channels', REQ, 8), ('resblk_num', REQ, 2),
      ('bottleneck', 4, 2, True), NE, ('resblk', mo.OctreeResBlock, mo.OctreeResBlock2, True),
      ('use_checkpoint', False, True, False)]

  # networks
  net = lambda w, m, v: m.eval()(w.x(v['in_channels'], 4, ne(v)), w.o, 4)
  seg = lambda w, m, v: m.eval()(w.x(v['in_channels'], 4, ne(v)), w.o, 4, near(w))

  def near(w):
    p = w.o.to_points()
    return torch.cat([p.points + torch.tensor([.01, .02, -.03]),
                      p.batch_id.view(-1, 1)], dim=1)
  io = [('in_channels', REQ, 3), ('out_channels', REQ, 5)]
  ip = ('interp', 'linear', 'nearest', True)
  t['models.LeNet'] = module(models.LeNet, net), io + [('stages', REQ, 2), NE]
  t['models.ResNet'] = module(models.ResNet, net), io + [
      ('resblock_num', REQ, 1), ('stages', REQ, 2), NE]
  t['models.SegNet'] = module(models.SegNet, seg), io + [('stages', REQ, 2), ip, NE]

  def unet(w, m, v):
    return m.eval()(w.x(3, 4, ne(v)), w.o, 4, near(w))

  class Small(models.UNet):
    def config_network(self):
      self.encoder_channel, self.decoder_channel = [4, 4, 8], [8, 8, 4]
      self.encoder_blocks, self.decoder_blocks = [1, 1], [1, 1]
      self.head_channel, self.bottleneck, self.resblk = 8, 1, mo.OctreeResBlock2
  t['models.UNet'] = module(Small, unet), io + [ip, NE]
  t['models.HRNet'] = module(models.HRNet, seg_hr), io + [
      ('stages', 3, 2, True), ('interp', 'linear', 'nearest', False), NE]

  def auto(w, m, v):
    src = Cloud([[[0, 0, 0], [3, 1, 2]], [[1, 6, 5], [1, 6, 4], [0, 0, 1]]], 3, 2, True,
                3).octree(v['full_depth'], 'merge', True)
    if 'code_channel' in v:
      code = torch.zeros(2 << 3 * v['full_depth'], v['code_channel'])
      return [m.init_octree(code).nnum, m.eval()(src, update_octree=False)]
    return [m.init_octree(src).nnum, m.eval()(src, src)]
  ae = [('channel_in', REQ, 4), ('channel_out', REQ, 3), ('depth', REQ, 3),
        ('full_depth', 2, 1, True), ('feature', 'ND', 'LD', True)]
  t['models.AutoEncoder'] = module(models.AutoEncoder, auto), ae + [
      ('code_channel', 64, 16, True)]
  t['models.OUNet'] = module(models.OUNet, auto), ae
  t['models.Image2Shape'] = module(models.Image2Shape, lambda w, m, v: [
      m.depth, m.full_depth]), [
          ('channel_out', REQ, 3), ('depth', REQ, 3), ('full_depth', 2, 1, True),
          ('code_channel', 32, 16, True)]

  def ounet(v, call):
    torch.manual_seed(3)
    m = models.OUNet(4, 3, 3).eval()
    src = Cloud([[[0, 0, 0], [3, 1, 2]], [[1, 6, 5], [1, 6, 4]]], 3, 2, True, 3).octree(
        2, 'merge', True)
    v['octree_in'] = src
    return ops.result(call(m))
  t['OUNet.forward'] = ounet, [('octree_in', REQ, None), ('octree_out', None, None, False),
                               ('update_octree', False, True, False)]

  # octrees
  from ocnn.octree import Octree, Points
  t['Octree'] = func(Octree), [('depth', REQ, 4), ('full_depth', 2, 3, True),
                               ('batch_size', 1, 3, True), ('device', 'cpu', 'meta', False)]
  t['init_octree'] = func(oc.init_octree), [
      ('depth', REQ, 4), ('full_depth', 2, 3, True), ('batch_size', 1, 3, True)]
  cell = lambda i: lambda w, v: torch.tensor([0, 3 + i, 7, 5 - i])
  t['xyz2key'] = func(oc.xyz2key, cell(0), cell(1), cell(2)), [
      ('b', None, torch.tensor([1, 0, 2, 3]), True), ('depth', 16, 3, False)]
  t['xyz2key far'] = func(oc.xyz2key, *[
      lambda w, v, i=i: torch.tensor([65535 - i, 256 << i, 300]) for i in range(3)]), [
          ('b', None, 3, True), ('depth', 16, 8, True)]
  t['key2xyz'] = func(oc.key2xyz, lambda w, v: torch.tensor([5, 1 << 47, (3 << 48) + 77])), [
      ('depth', 16, 8, True)]

  def method(name, *first):
    def g(v, call):
      w = World()
      r = call(getattr(w.o, name), *[a(w, v) for a in first])
      return [ops.result(r), ops.result(w.o)]
    return g
  for n in ('key', 'xyzb', 'batch_id'):
    t['Octree.' + n] = method(n), [d4, NE]
  t['Octree.nempty_mask'] = method('nempty_mask'), [d4]
  t['Octree.search_xyzb'] = method('search_xyzb', lambda w, v: w.q()[5:].abs()), [d4, NE]
  t['Octree.search_key'] = method('search_key', lambda w, v: w.o.key(4, False)[::3]), [d4, NE]
  t['Octree.get_neigh'] = method('get_neigh'), [
      d4, ('kernel', '333', '313', True), ('stride', 1, 2, True), NE]
  t['Octree.get_input_feature'] = method('get_input_feature'), [('feature', REQ, 'NLF'), NE]
  t['Octree.to_points'] = method('to_points'), [('rescale', True, False, True)]

  def grow(v, call):
    o = oc.init_octree(4, 2, 2)
    o.octree_split(torch.arange(int(o.nnum[2])) % 2, 2)
    call(o.octree_grow, 3)
    return ops.result(o)
  t['Octree.octree_grow'] = grow, [('update_neigh', True, False, True)]

  def full(v, call):
    o = Octree(4, 2, 2)
    call(o.octree_grow_full, 2)
    return ops.result(o)
  t['Octree.octree_grow_full'] = full, [('update_neigh', True, False, True)]
  t['Octree.octree_split'] = method('octree_split'), [
      ('split', REQ, None), ('depth', REQ, 2)]

  def split(v, call):
    o = oc.init_octree(4, 2, 2)
    v['split'] = torch.arange(int(o.nnum[2])) % 3 // 2
    call(o.octree_split)
    return ops.result(o)
  t['Octree.octree_split'] = split, [('split', REQ, None), ('depth', REQ, 2)]

  # point clouds
  n5 = torch.tensor([[0, 0, 1.], [1, 0, 0], [0, -1, 0], [.6, .8, 0], [-1, 0, 0]])
  p5 = torch.tensor([[0, .5, -.25], [.995, -1, 0], [1.5, 0, 0], [-.5, -.5, .9], [.1, .2, .3]])
  i5 = torch.tensor([0, 0, 1, 1, 1])
  t['Points'] = func(Points), [
      ('points', REQ, p5), ('normals', None, n5, True),
      ('features', None, torch.arange(10.).view(5, 2), True),
      ('labels', None, torch.arange(5.), True), ('batch_id', None, i5, True),
      ('batch_size', 1, 2, True)]

  def cloud(name, *first):
    def g(v, call):
      p = Points(p5.clone(), n5.clone(), torch.arange(10.).view(5, 2),
                 torch.arange(5.).view(5, 1), i5.clone(), 2)
      r = call(getattr(p, name), *first)
      return [ops.result(r), ops.result(p)]
    return g
  t['Points.orient_normal'] = cloud('orient_normal'), [('axis', 'x', 'y', True)]
  t['Points.clip'] = cloud('clip'), [('min', -1.0, -.3, True), ('max', 1.0, .6, True),
                                     ('esp', .01, .2, True)]
  t['Points.inbox_mask'] = cloud('inbox_mask'), [
      ('bbmin', -1.0, -.3, True), ('bbmax', 1.0, .6, True)]
  t['Points.normalize'] = cloud('normalize'), [
      ('bbmin', REQ, torch.tensor([-1., -1., -2.])), ('bbmax', REQ, torch.tensor([1., 2., 3.])),
      ('scale', 1.0, .5, True)]

  def save(v, call):
    import os
    import tempfile
    with tempfile.TemporaryDirectory() as folder:
      p = Points(p5.clone(), n5.clone(), torch.arange(10.).view(5, 2),
                 torch.arange(5.).view(5, 1))
      name = os.path.join(folder, 'a.xyz')
      call(p.save, name)
      with open(name, 'rb') as fid:
        return fid.read()
  t['Points.save'] = save, [('info', 'PNFL', 'PL', True)]
  two = lambda: [Points(p5.clone() + i, n5.clone(), None, None) for i in range(2)]
  t['merge_points'] = (lambda v, call: ops.result(call(oc.merge_points, two()))), [
      ('update_batch_info', True, False, True)]

  # data
  CFG = dict(angle=[10, 20, 30], interval=[1, 2, 3], scale=.25, uniform=True, jitter=.125,
             flip=[.5, 0., .5])

  def transform(v, call):
    torch.manual_seed(5)
    tr = call(ds.Transform)
    s = tr({'points': p5.numpy().copy(), 'normals': n5.numpy().copy()}, 3)
    return ops.result(s)
  t['Transform'] = transform, [('depth', REQ, 4), ('full_depth', REQ, 2),
                               ('distort', REQ, True)] + [
      (k, REQ, v) for k, v in CFG.items()] + [('orient_normal', '', 'y', True)]

  def collate(v, call):
    c = call(ds.CollateBatch)
    one = lambda i: Cloud([[[0, i, 0], [3, 1, 2]]], 3, i).octree(2)
    return ops.result(c([{'octree': one(i), 'points': p, 'i': i}
                         for i, p in enumerate(two())]))
  t['CollateBatch'] = collate, [('merge_points', False, True, True)]

  # utilities
  t['cumsum'] = func(ut.cumsum, lambda w, v: torch.arange(6).view(2, 3)), [
      ('dim', REQ, 1), ('exclusive', False, True, True)]
  t['scatter_add'] = func(
      ut.scatter_add, lambda w, v: torch.arange(9.).view(3, 3),
      lambda w, v: torch.tensor([0, 1, 0])), [
          ('dim', -1, 0, True), ('out', None, torch.ones(3, 3), True),
          ('dim_size', None, 3, True)]
  t['resize_with_last_val'] = func(ut.resize_with_last_val, lambda w, v: [4, 5]), [
      ('num', 3, 6, True)]

  def example(v, call):
    torch.manual_seed(1)
    return ops.result(call(ut.build_example_octree))
  t['build_example_octree'] = example, [('depth', 5, 4, True), ('full_depth', 2, 3, True),
                                        ('pt_num', 3, 2, True)]
  t['range_grid'] = func(ut.range_grid), [('min', REQ, -1), ('max', REQ, 2)]
  return t


def seg_hr(w, m, v):
  o = shapes.build_batch([[[0, 0, 0], [19, 1, 4], [31, 31, 31]], [[3, 8, 9], [4, 7, 1]]],
                         5, 2)
  o.construct_all_neigh()
  n = int(o.nnum_nempty[5] if v['nempty'] else o.nnum[5])
  return m.eval()(ops.tens(n, 3, 0, grad=False), o, 5)


# ------------------------------------------------------------------------- calling

def same(a, b):
  import torch
  if a is None or b is None:
    return a is b
  if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
    return torch.equal(a, b)
  return a == b and type(a) == type(b)


def clone(x):
  import torch
  if isinstance(x, torch.Tensor):
    return x.clone()
  return list(x) if isinstance(x, list) else x


def forms(values, args, tier):
  """ All ways to pass the values: (positional, left out); the rest is named. """
  n = len(args)
  free = [i for i, a in enumerate(args) if a[1] is not REQ and same(values[a[0]], a[1])]
  out = [(p, ()) for p in range(n + 1)]
  most = 5 if tier == 'thorough' else 4
  for k in range(1, len(free) + 1):
    if k > most and k != len(free):
      continue
    for left in itertools.combinations(free, k):
      out.append((0, left))
      if left[0]:
        out.append((left[0], left))
  return out


def assignments(args, tier):
  opt = [a for a in args if a[1] is not REQ]
  base = {a[0]: a[2] if a[1] is REQ else a[1] for a in args}
  most = len(opt) if len(opt) <= 4 or tier == 'thorough' else 2
  for k in range(most + 1):
    for change in itertools.combinations(opt, k):
      v = dict(base)
      v.update({a[0]: a[2] for a in change})
      yield tuple(a[0] for a in change), v


def run(case, ctx):
  f, args = table()[case['name']]
  results = {}
  for change, values in assignments(args, ctx.tier):
    ref = None
    for p, left in forms(values, args, ctx.tier):
      v = {k: clone(x) for k, x in values.items()}

      def call(target, *first):
        pos = [v[a[0]] for a in args[:p]]
        kw = {a[0]: v[a[0]] for i, a in enumerate(args) if i >= p and i not in left}
        return target(*first, *pos, **kw)
      try:
        res = f(v, call)
      except Exception as e:
        res = 'raises ' + type(e).__name__
        if ref is None:
          # not a combination of arguments that goes together
          ctx.check(len(change) > 1, lambda: '%s with another %s: %s: %s' % (
              case['name'], change, type(e).__name__, e))
      what = '%s(%s), the first %d by position, left out: %s' % (
          case['name'], ', '.join('%s=%r' % (k, values[k]) for k in change) or 'defaults',
          p, ', '.join(args[i][0] for i in left) or 'none')
      if ref is None:
        ref = res
      else:
        w = ops.agree(res, ref, 0) if type(res) == type(ref) else 'raised or not'
        ctx.check(w is None, lambda: '%s: %s' % (what, w))
      ctx.trans()
      ctx.state(case['name'], change, p, left)
    results[change] = ref
    ctx.trace()
  for a in args:
    if len(a) > 3 and a[3]:
      ctx.check(any(a[0] in c and ops.agree(
          r, results[tuple(x for x in c if x != a[0])], 0) is not None
          for c, r in results.items() if not isinstance(r, str)),
          lambda: '%s: the argument %s has no effect' % (case['name'], a[0]))
  ctx.outcome(case['name'], len(results))
