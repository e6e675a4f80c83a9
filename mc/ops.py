"""A vocabulary of library operations on shared objects.

Env holds octrees, features, points and modules.  Every operation reads only
from the Env and returns tensors / plain values; it must neither modify the Env
nor depend on what ran before.
"""

import numpy as np
from mc import ref, shapes, oct, dense
from mc.cloud import Cloud
from mc.rng import Draws

LEAVES = {
    'A': ([[[0, 0, 0], [3, 1, 2], [7, 7, 7], [7, 0, 6], [4, 4, 4]],
           [[1, 6, 5], [1, 6, 4], [0, 0, 1]]], 3, 1),
    'B': ([[[2, 2, 2], [3, 1, 2], [5, 7, 0], [7, 7, 7]]], 3, 2),
}


def tens(n, c, salt, dtype=None, grad=True):
  import torch
  t = torch.tensor(ref.idata(n, c, salt), dtype=dtype or torch.float32)
  return t.requires_grad_() if grad else t


class Env:
  """ Fresh shared objects; two of them are equal. """

  def __init__(self, prepare=None):
    import torch
    import ocnn
    self.torch, self.ocnn = torch, ocnn
    self.mode = 'grad'
    self.o, self.x, self.clouds, self.pts = {}, {}, {}, {}
    self.t = {}
    for name, (leaves, depth, full) in LEAVES.items():
      c = Cloud(leaves, depth, len(leaves), True, 3)
      o = c.octree(full, 'merge' if len(leaves) > 1 else 'batch', True)
      self.clouds[name] = c
      self.pts[name] = c.points()
      if prepare:
        o = prepare(o)
        self.pts[name] = prepare(self.pts[name])
      self.o[name] = o
      for d in range(1, depth + 1):
        for ne in (False, True):
          n = int(o.nnum_nempty[d] if ne else o.nnum[d])
          self.x[name, d, ne] = tens(n, 4, d + 10 * ne)
    self.single = []
    for i in range(2):
      o = Cloud(LEAVES['A'][0][i:i + 1], 3, i, True, 3).octree(1, 'batch', i == 0)
      self.single.append(prepare(o) if prepare else o)
    q = [[.3, -.7, .1, 0], [.99, .99, .99, 1], [-1, -1, -1, 0], [-.1, .55, .2, 1],
         [.74, .74, .76, 0]]
    self.t['query'] = torch.tensor(q)
    self.t['sample'] = {'points': np.float32(ref.idata(9, 3, 1) / 9.0),
                        'normals': np.float32(ref.idata(9, 3, 2) / 13.9)}
    self.t['index'] = torch.tensor([2, 0, 2, 5, 1])
    self.t['src'] = tens(5, 3, 7, grad=False)
    self.t['labels'] = torch.tensor([1, 0, 0, 1, 1, 0, 0, 1])
    torch.manual_seed(3)
    n, m = ocnn.nn, ocnn.modules
    class BN(torch.nn.Module):
      def __init__(self, bn):
        super().__init__()
        self.bn = bn

      def forward(self, x, octree, depth):
        return self.bn(x)
    self.m = {
        'conv': n.OctreeConv(4, 5, [3], nempty=False),
        'convb': n.OctreeConv(4, 5, [3, 1], nempty=True, use_bias=True),
        'conv2': n.OctreeConv(4, 3, [2], 2, nempty=True),
        'conv32': n.OctreeConv(4, 3, [3], 2, use_bias=True),
        'direct': n.OctreeConv(4, 5, [3], nempty=True, direct_method=True),
        'buffer': n.OctreeConv(4, 5, [3], max_buffer=2500),
        'deconv': n.OctreeDeconv(4, 5, [2], 2, nempty=False),
        'deconvn': n.OctreeDeconv(4, 5, [3], 2, nempty=True, use_bias=True),
        'ddirect': n.OctreeDeconv(4, 5, [3], direct_method=True),
        'dw': n.OctreeDWConv(4, [3], nempty=True, use_bias=True),
        'dw2': n.OctreeDWConv(4, [3], 2, nempty=False),
        'group': n.OctreeGroupConv(4, 6, [3], nempty=False, group=2),
        'maxpool': n.OctreeMaxPool(False, True),
        'maxpooln': n.OctreeMaxPool(True),
        'avgpool': n.OctreeAvgPool([3], 1, True),
        'avgpool2': n.OctreeAvgPool([2], 2, False),
        'global': n.OctreeGlobalPool(True),
        'interp': n.OctreeInterp('linear', True),
        'interpn': n.OctreeInterp('nearest', False, True),
        'up': n.OctreeUpsample('linear', False),
        'upn': n.OctreeUpsample('nearest', True),
        'gnorm': n.OctreeGroupNorm(4, 2, nempty=True),
        'inorm': n.OctreeInstanceNorm(4),
        'bnorm': BN(n.OctreeBatchNorm(4)),
        'drop': n.OctreeDropPath(.5, False),
        'cbr': m.OctreeConvBnRelu(4, 6),
        'dbr': m.OctreeDeconvBnRelu(4, 6, [2], 2, True),
        'res': m.OctreeResBlock(4, 8, 2, 2, True),
        'res2': m.OctreeResBlock2(4, 4),
        'blocks': m.OctreeResBlocks(4, 8, 2, 4, False),
        'segnet': ocnn.models.SegNet(4, 3, 1, nempty=True),
        'vox': n.Octree2Voxel(False),
    }
    for k, mod in self.m.items():
      mod.eval()
    self.m['drop'].train()
    with torch.no_grad():
      for i, (k, mod) in enumerate(sorted(self.m.items())):
        for p in mod.parameters():
          if p.dim() == 1:
            p.add_(torch.tensor(ref.idata(p.numel(), 1, i, -4, 4)[:, 0] / 8.0))

  def content(self):
    """ Everything shared, as a flat list of (name, tensor or value). """
    out = []
    for k in sorted(self.o):
      out.append(('octree ' + k, oct.snapshot(self.o[k])))
      out.append(('points ' + k, oct.psnapshot(self.pts[k])))
    for i, o in enumerate(self.single):
      out.append(('single octree %d' % i, oct.snapshot(o)))
    for k in sorted(self.x):
      out.append(('features %s' % (k,), self.x[k].detach().clone()))
    for k in sorted(self.t):
      v = self.t[k]
      out.append((k, {n: a.copy() for n, a in v.items()} if isinstance(v, dict)
                  else v.clone()))
    for k in sorted(self.m):
      out.append(('state of ' + k, {n: v.clone() for n, v in
                                    self.m[k].state_dict().items()}))
      out.append(('gradients of ' + k, [None if p.grad is None else p.grad.clone()
                                        for p in self.m[k].parameters()]))
      out.append(('mode of ' + k, [s.training for s in self.m[k].modules()]))
    for k in sorted(self.x):
      out.append(('gradient of features %s' % (k,), self.x[k].grad is None))
    return out

  def refs(self):
    """ The shared tensors themselves (for a fast comparison). """
    out = []
    for o in [self.o[k] for k in sorted(self.o)] + self.single:
      out += [o.nnum, o.nnum_nempty, o.batch_nnum, o.batch_nnum_nempty]
      for l in (o.keys, o.children, o.neighs, o.features, o.normals, o.points):
        out += list(l)
      out += [o.depth, o.full_depth, o.batch_size]
    for p in [self.pts[k] for k in sorted(self.pts)]:
      out += [p.points, p.normals, p.features, p.labels, p.batch_id, p.batch_npt,
              p.batch_size]
    out += [self.x[k] for k in sorted(self.x)] + [self.x[k].grad for k in sorted(self.x)]
    for k in sorted(self.t):
      v = self.t[k]
      out += [v[n] for n in sorted(v)] if isinstance(v, dict) else [v]
    for k in sorted(self.m):
      out += [v for _, v in sorted(self.m[k].state_dict().items())]
      out += [p.grad for p in self.m[k].parameters()]
      out += [s.training for s in self.m[k].modules()]
    return out

  def freeze(self):
    import torch
    self._held = []
    for v in self.refs():
      if isinstance(v, torch.Tensor):
        self._held.append(v.detach().clone())
      elif isinstance(v, np.ndarray):
        self._held.append(v.copy())
      else:
        self._held.append(v)

  def changed(self):
    """ Whether a shared object differs from the frozen state. """
    import torch
    now = self.refs()
    if len(now) != len(self._held):
      return True
    for a, b in zip(now, self._held):
      if isinstance(b, torch.Tensor):
        if not isinstance(a, torch.Tensor) or a.dtype != b.dtype or \
            a.shape != b.shape or not torch.equal(a.detach(), b):
          return True
      elif isinstance(b, np.ndarray):
        if not np.array_equal(a, b):
          return True
      elif a is not b and a != b:
        return True
    return False


def result(x):
  """ Plain comparable value of what an operation returned. """
  import torch
  from ocnn.octree import Octree, Points
  if isinstance(x, torch.Tensor):
    return x.detach().clone().numpy()
  if isinstance(x, (list, tuple)):
    return [result(v) for v in x]
  if isinstance(x, dict):
    return {k: result(v) for k, v in x.items()}
  if isinstance(x, Octree):
    return result(oct.snapshot(x))
  if isinstance(x, Points):
    return result(oct.psnapshot(x))
  return x


def agree(a, b, tol=1e-5):
  """ None or where two results differ. """
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray):
      return 'kinds'
    if a.dtype != b.dtype or a.shape != b.shape:
      return '%s%s, expected %s%s' % (a.dtype, a.shape, b.dtype, b.shape)
    if a.dtype.kind == 'f':
      bad = ~((np.abs(a - b) <= tol * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b)) |
              (a == b))
    else:
      bad = a != b
    if bad.any():
      i = tuple(np.argwhere(np.atleast_1d(bad))[0])
      return '%r, expected %r' % (np.atleast_1d(a)[i].item(), np.atleast_1d(b)[i].item())
    return None
  if isinstance(a, list) and isinstance(b, list):
    if len(a) != len(b):
      return 'lengths'
    for x, y in zip(a, b):
      w = agree(x, y, tol)
      if w:
        return w
    return None
  if isinstance(a, dict) and isinstance(b, dict):
    if sorted(a, key=repr) != sorted(b, key=repr):
      return 'keys'
    for k in a:
      w = agree(a[k], b[k], tol)
      if w:
        return '%s: %s' % (k, w)
    return None
  return None if type(a) == type(b) and a == b else '%r, expected %r' % (a, b)


# -------------------------------------------------------------- operations

def fwd_bwd(env, mod, name, d, ne, extra=()):
  """ Output and gradients of a module, without accumulating anything. """
  torch = env.torch
  x, o = env.x[name, d, ne], env.o[name]
  m = env.m[mod]
  if env.mode == 'plain':
    x = x.detach()
  y = m(x, o, d, *extra)
  ys = y if isinstance(y, tuple) else (y,)
  if env.mode != 'grad':
    return list(ys)
  y0 = ys[0]
  g = tens(y0.shape[0], int(np.prod(y0.shape[1:])), 5, grad=False).view(y0.shape)
  leaves = [x] + list(m.parameters())
  gs = torch.autograd.grad([y0], leaves, [g])
  return list(ys) + list(gs)


def _l(mod, name, d, ne):
  return lambda env: fwd_bwd(env, mod, name, d, ne)


def _seg(name):
  def f(env):
    q = env.t['query'][:, :].clone()
    if env.o[name].batch_size == 1:
      q[:, 3] = 0
    return fwd_bwd(env, 'segnet', name, 3, True, (q,))
  return f


def _interp(mod, name, ne):
  def f(env):
    q = env.t['query'] if env.o[name].batch_size > 1 else \
        env.t['query'] * env.torch.tensor([1., 1, 1, 0])
    return fwd_bwd(env, mod, name, 3, ne, (q,))
  return f


def _drop(name):
  def f(env):
    with Draws([.25, .75], cycle=True):
      return fwd_bwd(env, 'drop', name, 3, False)
  return f


def _structure(env):
  o = env.o['A']
  return [o.key(3), o.key(2, True), list(o.xyzb(3)), list(o.xyzb(2, True)),
          o.batch_id(3, True), o.nempty_mask(2)]


def _neigh(name):
  def f(env):
    o = env.o[name]
    return [o.get_neigh(3, k, s, ne) for k in ('333', '311', '222') for s in (1, 2)
            for ne in (False, True)]
  return f


def _search(env):
  o = env.o['A']
  q = env.torch.tensor([[3., 1, 2, 0], [0, 0, 0, 1], [1.5, 6.2, 4.9, 1], [7, 7, 7, 0]])
  return [o.search_xyzb(q, 3), o.search_xyzb(q, 3, True),
          o.search_key(o.key(3)[2:7], 3, True)]


def _features(env):
  o = env.o['A']
  return [o.get_input_feature('NDLPF'), o.get_input_feature('LP', True)]


def _export(env):
  p = env.o['A'].to_points()
  return [p, env.o['B'].to_points(False)]


def _merge(env):
  m = env.ocnn.octree.merge_octrees([env.single[0], env.single[1], env.single[0]])
  m.construct_all_neigh()
  return m


def _build(name):
  def f(env):
    o = env.ocnn.octree.Octree(3, LEAVES[name][2], len(LEAVES[name][0]))
    idx = o.build_octree(env.pts[name])
    o.construct_all_neigh()
    return [o, idx]
  return f


def _grow(env):
  o = env.ocnn.octree.init_octree(3, 1, 1)
  o.octree_split(env.t['labels'], 1)
  o.octree_grow(2)
  o.octree_split(env.ocnn.octree.Octree.nempty_mask(env.o['B'], 2)[:32].int(), 2)
  o.octree_grow(3)
  return o


def _collate(env):
  c = env.ocnn.dataset.CollateBatch(True)
  return c([{'octree': env.single[i], 'points': env.pts['B'], 'label': i, 'filename': 'f'}
            for i in (1, 0)])


def _pad(env):
  n, o = env.ocnn.nn, env.o['A']
  p = n.octree_pad(env.x['A', 3, True], o, 3, 2.0)
  return [p, n.octree_depad(p, o, 3), n.octree2voxel(env.x['A', 2, False], o, 2),
          n.octree2voxel(env.x['A', 2, True], o, 2, True)]


def _align(env):
  n = env.ocnn.nn
  o1, o2 = env.single
  x = tens(int(o1.nnum[3]), 2, 3)
  return [n.octree_align(x, o1, o2, 3), n.search_value(x, o1.key(3), o2.key(3))]


def _col(env):
  n, o = env.ocnn.nn, env.o['A']
  c = n.octree2col(env.x['A', 3, True], o, 3, '333', 1, True)
  return [c, n.col2octree(c, o, 3, '333', 1, True),
          n.octree2col(env.x['A', 2, False], o, 2, '222', 2, False)]


def _unpool(env):
  n, o = env.ocnn.nn, env.o['B']
  y, i = n.octree_max_pool(env.x['B', 3, False], o, 3, False, True)
  return [y, i, n.octree_max_unpool(y, i, o, 2, False)]


def _utils(env):
  u, t = env.ocnn.utils, env.t
  return [u.scatter_add(t['src'], t['index'], 0), u.cumsum(t['src'], 0, True),
          u.range_grid(-1, 1), u.trunc_div(t['index'] - 3, 2),
          u.resize_with_last_val([3]), u.list2str([3, 1, 2]),
          u.scatter_add(t['src'], t['index'], 0, dim_size=9)]


def _points(env):
  """ Transforms of a second cloud that shares its tensors. """
  P, s = env.ocnn.octree.Points, env.pts['A']
  out = []
  for ops in (('flip', 'xz'), ('rotate', env.torch.tensor([.1, .2, .3])),
              ('scale', env.torch.tensor([.5, 1., 2.])), ('orient_normal', 'z'),
              ('translate', env.torch.tensor([.25, 0., 1.])), ('clip',)):
    p = P(s.points, s.normals, s.features, batch_id=s.batch_id, batch_size=2)
    r = getattr(p, ops[0])(*ops[1:])
    out += [p, r]
  p = env.ocnn.octree.merge_points([s, env.pts['B']])
  p.points += 1
  p.normals *= 2
  out.append(s[env.torch.arange(s.npt) % 2 == 0])
  return out


def _transform(env):
  T = env.ocnn.dataset.Transform
  t = T(3, 1, True, [5, 180, 5], [1, 1, 1], .25, False, .125, [.5, .5, .5], 'x')
  with Draws([.1, .9, .3, .5], cycle=True):
    out = t(env.t['sample'], 0)
  return out


def _device(env):
  return [env.o['A'].to('cpu:0'), env.o['B'].to('cpu'), env.pts['A'].to('cpu:0')]


def _construct(env):
  """ New layers from the default arguments. """
  n = env.ocnn.nn
  a = n.OctreeConv(2, 3)
  b = n.OctreeConv(2, 3, [3, 1])
  c = n.OctreeDeconv(2, 3)
  d = n.OctreeDWConv(2)
  e = n.OctreeAvgPool([2], 2)
  m = env.ocnn.modules.OctreeConvBnRelu(2, 3)
  shp = [tuple(p.shape) for l in (a, b, c, d, m) for p in l.parameters()]
  return [[list(s) for s in shp], [l.kernel for l in (a, b, c, d)], e.kernel]


def _key(env):
  k = env.ocnn.octree
  t = env.torch.tensor([[0, 0, 0], [1, 2, 3], [7, 7, 7]])
  key = k.xyz2key(t[:, 0], t[:, 1], t[:, 2], env.torch.tensor([0, 1, 2]), 3)
  return [key, list(k.key2xyz(key, 3)), k.xyz2key(t[:, 0], t[:, 1], t[:, 2], depth=16)]


OPS = {
    'keys': _key, 'structure': _structure, 'neigh A': _neigh('A'), 'neigh B': _neigh('B'),
    'search': _search, 'features': _features, 'export': _export, 'merge': _merge,
    'build A': _build('A'), 'build B': _build('B'), 'grow': _grow, 'collate': _collate,
    'pad': _pad, 'align': _align, 'col': _col, 'unpool': _unpool, 'utils': _utils,
    'points': _points, 'transform': _transform, 'device': _device,
    'construct': _construct,
    'conv A': _l('conv', 'A', 3, False), 'conv B': _l('conv', 'B', 2, False),
    'convb': _l('convb', 'A', 2, True), 'convb B': _l('convb', 'B', 3, True),
    'conv2': _l('conv2', 'A', 3, True), 'conv32': _l('conv32', 'B', 3, False),
    'direct': _l('direct', 'A', 3, True), 'buffer': _l('buffer', 'A', 3, False),
    'buffer B': _l('buffer', 'B', 3, False),
    'deconv': _l('deconv', 'A', 2, False), 'deconvn': _l('deconvn', 'B', 2, True),
    'ddirect': _l('ddirect', 'A', 2, False),
    'dw A': _l('dw', 'A', 3, True), 'dw B': _l('dw', 'B', 3, True),
    'dw2': _l('dw2', 'A', 3, False), 'group': _l('group', 'B', 3, False),
    'maxpool': _l('maxpool', 'A', 3, False), 'maxpooln': _l('maxpooln', 'B', 3, True),
    'avgpool': _l('avgpool', 'A', 3, True), 'avgpool2': _l('avgpool2', 'B', 3, False),
    'global': _l('global', 'A', 3, True), 'global B': _l('global', 'B', 2, True),
    'interp A': _interp('interp', 'A', True), 'interp B': _interp('interp', 'B', True),
    'interpn': _interp('interpn', 'A', False),
    'up': _l('up', 'A', 2, False), 'upn': _l('upn', 'B', 2, True),
    'gnorm A': _l('gnorm', 'A', 3, True), 'gnorm B': _l('gnorm', 'B', 2, True),
    'inorm': _l('inorm', 'A', 2, False), 'bnorm': _l('bnorm', 'A', 3, True),
    'drop A': _drop('A'), 'drop B': _drop('B'),
    'cbr': _l('cbr', 'A', 3, False), 'dbr': _l('dbr', 'B', 2, True),
    'res': _l('res', 'A', 3, True), 'res2': _l('res2', 'B', 3, False),
    'blocks': _l('blocks', 'A', 2, False), 'segnet A': _seg('A'), 'segnet B': _seg('B'),
    'vox': _l('vox', 'A', 2, False),
}
NAMES = sorted(OPS)


def run_in(env, name, mode):
  """ The operation with gradients, without recording or with plain inputs. """
  torch = env.torch
  env.mode = mode
  try:
    if mode == 'nograd':
      with torch.no_grad():
        return OPS[name](env)
    if mode == 'inference':
      with torch.inference_mode():
        return OPS[name](env)
    return OPS[name](env)
  finally:
    env.mode = 'grad'


def tensors(x):
  """ All tensors in a result. """
  import torch
  from ocnn.octree import Octree, Points
  if isinstance(x, torch.Tensor):
    yield x
  elif isinstance(x, (list, tuple)):
    for v in x:
      yield from tensors(v)
  elif isinstance(x, dict):
    for v in x.values():
      yield from tensors(v)
  elif isinstance(x, (Octree, Points)):
    yield from tensors(list(vars(x).values()))


def scribble(env, out):
  """ Overwrites a result, as its owner may do; what shares memory with an object
  of the environment (views of its tables, data passed through) is left alone. """
  import torch
  own = set()
  for o in list(env.o.values()) + env.single + list(env.pts.values()):
    own |= {t.untyped_storage().data_ptr() for t in tensors(list(vars(o).values()))}
  own |= {t.untyped_storage().data_ptr() for t in tensors([env.refs(), env.t])}
  n = 0
  with torch.no_grad():
    for t in tensors(out):
      if t.numel() == 0 or t.untyped_storage().data_ptr() in own or \
          any(s == 0 and k > 1 for s, k in zip(t.stride(), t.shape)):
        continue
      t.detach().fill_(77 if t.dtype != torch.bool else True)
      n += 1
  return n


def update(env):
  """ Changes the values of all inputs in place; doing it twice restores them. """
  import torch
  with torch.no_grad():
    for x in env.x.values():
      x.neg_()
    for m in env.m.values():
      for p in m.parameters():
        p.neg_()
      for n, b in m.named_buffers():
        if n.endswith('running_mean'):
          b.neg_()
    for o in list(env.o.values()) + env.single:
      for l in (o.normals, o.features):
        if l[o.depth] is not None:
          l[o.depth].neg_()
    for p in env.pts.values():
      p.points.neg_()
      p.normals.neg_()
      p.features.neg_()
    env.t['query'][:, :3].neg_()
    env.t['src'].neg_()
    env.t['index'].neg_().add_(5)
    env.t['labels'].neg_().add_(1)
    for v in env.t['sample'].values():
      np.negative(v, out=v)


def alone(names, prepare=None, change=None):
  """ The result of each operation executed alone, in its own process. """
  import os
  import pickle
  from mc.engine import HarnessError
  out = {}
  for n in names:
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
      code = 1
      try:
        os.close(r)
        try:
          env = Env(prepare)
          if change:
            change(env)
          v = ('ok', result(OPS[n](env)))
        except Exception as e:
          import traceback
          v = ('error', '%s: %s' % (type(e).__name__, e), traceback.format_exc()[-800:])
        with os.fdopen(w, 'wb') as f:
          pickle.dump(v, f)
        code = 0
      finally:
        os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
      data = f.read()
    os.waitpid(pid, 0)
    if not data:
      raise HarnessError('no result of operation ' + n)
    v = pickle.loads(data)
    if v[0] == 'error':
      from mc.engine import Violation
      raise Violation('operation %s alone raises %s' % (n, v[1]))
    out[n] = v[1]
  return out
