"""C34: saved parameters restore identical behaviour."""

import io
import copy
import math
import pickle
import itertools
import numpy as np
from mc import ref, shapes, dense, blocks
from mc.checks import c25

ID = 'C34'
TECHNIQUE = ('exhaustive exploration of save / load / copy / convert / train / construct '
             'histories on the real modules, against a lineage that is only trained')
BOUNDS = ('convolution, deconvolution, depthwise, group convolution and normalisation '
          'layers x kernels x strides x bias x node modes x methods and all block '
          'classes: all histories of up to 2 (thorough 4) operations over {train step, '
          'evaluate, save and load, deep copy, pickle, convert precision, construct and '
          'use others, load in place}, after a first training step; the 8 networks with '
          'one operation between two training steps; every key removed, added or '
          'reshaped; all construction orders of 3 classes; initial values')
ASSUMPTIONS = ['two executions of the same operations on one thread give the same bits',
               'changing precision forth and back is exact, double precision results '
               'agree within single precision']
CASE_LIMIT = 400

OPS = ('train', 'eval', 'load', 'copy', 'pickle', 'convert', 'others', 'self')
LEAVES = [[[0, 0, 0], [3, 3, 3], [3, 3, 2], [1, 2, 3]], [[0, 3, 1]], [[2, 2, 2], [1, 1, 1]]]
OTHER = [[[3, 0, 0], [0, 3, 3]], [[1, 1, 1], [1, 1, 0], [2, 1, 0]]]


# ------------------------------------------------------------------ the modules

def layer_confs():
  out = []
  for kind in ('conv', 'conv-direct', 'deconv', 'deconv-direct', 'dwconv', 'gconv'):
    for k, s, n, b in itertools.product(('333', '222', '311', '133'), (1, 2),
                                        (False, True), (False, True)):
      if k in ('311', '133') and n == b:
        continue
      out.append({'kind': kind, 'kernel': k, 'stride': s, 'nempty': n, 'bias': b})
  for c, g in ((4, 1), (4, 2), (4, 4), (6, 3), (1, 1)):
    for n in (False, True):
      out.append({'kind': 'gn', 'c': c, 'g': g, 'nempty': n, 'stride': 1})
  for n in (False, True):
    out.append({'kind': 'in', 'c': 3, 'g': 3, 'nempty': n, 'stride': 1})
  out.append({'kind': 'bn', 'c': 3, 'nempty': False, 'stride': 1})
  out.append({'kind': 'drop', 'nempty': True, 'stride': 1})
  return out


def block_confs():
  from mc.checks import c33
  seen, out = set(), []
  for c in c33.configs():
    if c['kernel'] not in ('333', '311'):
      continue
    key = (c['block'], c['kernel'], c['stride'], c['cin'] == c['cout'], c['bottleneck'] > 1,
           c['num'], c['resblk'], c['ckpt'], c['bias'])
    if key in seen:
      continue
    seen.add(key)
    out.append({'kind': 'block', 'conf': c, 'nempty': c['nempty'], 'stride': c['stride']})
  return out


def make(c):
  import torch
  import ocnn
  k = c['kind']
  if k == 'block':
    return blocks.make(c['conf'])
  if k == 'gn':
    return ocnn.nn.OctreeGroupNorm(c['c'], c['g'], c['nempty'])
  if k == 'in':
    return ocnn.nn.OctreeInstanceNorm(c['c'], c['nempty'])
  if k == 'bn':
    return ocnn.nn.OctreeBatchNorm(c['c'])
  if k == 'drop':
    return ocnn.nn.OctreeDropPath(0.0, c['nempty'])
  size = list(dense.KSIZE[c['kernel']][0])
  a = (size, c['stride'], c['nempty'])
  if k == 'dwconv':
    return ocnn.nn.OctreeDWConv(2, *a, use_bias=c['bias'])
  if k == 'gconv':
    return ocnn.nn.OctreeGroupConv(4, 6, *a, use_bias=c['bias'], group=2)
  cls = ocnn.nn.OctreeConv if k.startswith('conv') else ocnn.nn.OctreeDeconv
  return cls(2, 3, *a, direct_method=k.endswith('direct'), use_bias=c['bias'])


def cin(c):
  k = c['kind']
  if k == 'block':
    return c['conf']['cin']
  if k in ('gn', 'in', 'bn'):
    return c['c']
  return {'gconv': 4, 'drop': 3}.get(k, 2)


def expected(c):
  """ name -> shape of the saved state, from the documented structure. """
  k = c['kind']
  if k in ('gn', 'in'):
    return {'weights': (1, c['c']), 'bias': (1, c['c'])}
  if k == 'drop':
    return {}
  if k == 'bn':
    return bn('', c['c'])
  if k == 'block':
    return block_state(c['conf'])
  n = len(ref.offsets(c['kernel']))
  if k == 'dwconv':
    out = {'weights': (n, 1, 2), 'bias': (2,)}
  elif k == 'gconv':
    out = {}
    for g in range(2):
      out['convs.%d.weights' % g] = (n, 2, 3)
      out['convs.%d.bias' % g] = (3,)
  else:
    out = {'weights': (n, 2, 3) if k.startswith('conv') else (n, 3, 2), 'bias': (3,)}
  if not c['bias']:
    out = {k_: v for k_, v in out.items() if not k_.endswith('bias')}
  return out


def bn(pre, c):
  return {pre + 'weight': (c,), pre + 'bias': (c,), pre + 'running_mean': (c,),
          pre + 'running_var': (c,), pre + 'num_batches_tracked': ()}


def block_state(c, pre=''):
  k, i, o = c['block'], c['cin'], c['cout']
  n = len(ref.offsets(c['kernel']))
  if k in ('convbn', 'convbnrelu'):
    return dict(bn(pre + 'bn.', o), **{pre + 'conv.weights': (n, i, o)})
  if k == 'deconvbnrelu':
    return dict(bn(pre + 'bn.', o), **{pre + 'deconv.weights': (n, o, i)})
  if k == 'conv1x1':
    out = {pre + 'linear.weight': (o, i)}
    if c['bias']:
      out[pre + 'linear.bias'] = (o,)
    return out
  if k in ('conv1x1bn', 'conv1x1bnrelu'):
    return dict(bn(pre + 'bn.', o), **{pre + 'conv.linear.weight': (o, i)})
  if k == 'fcbnrelu':
    return dict(bn(pre + 'bn.', o), **{pre + 'fc.weight': (o, i)})
  sub = lambda block, a, b, name: block_state(
      dict(c, block=block, cin=a, cout=b, kernel='333'), pre + name + '.')
  m = o // c['bottleneck']
  out = {}
  if k == 'resblock':
    out.update(sub('conv1x1bn', i, m, 'conv1x1a'))
    out.update(sub('convbn', m, m, 'conv3x3'))
    out.update(sub('conv1x1bn', m, o, 'conv1x1b'))
    if i != o:
      out.update(sub('conv1x1bn', i, o, 'conv1x1c'))
  elif k == 'resblock2':
    out.update(sub('convbn', i, m, 'conv3x3a'))
    out.update(sub('convbn', m, o, 'conv3x3b'))
    if i != o:
      out.update(sub('conv1x1bn', i, o, 'conv1x1'))
  else:
    chan = [i] + [o] * c['num']
    for j in range(c['num']):
      out.update(sub(('resblock', 'resblock2')[c['resblk'] - 1], chan[j], chan[j + 1],
                     'resblks.%d' % j))
  return out


class Driver:
  """ Feeds a module with fixed inputs. """

  def __init__(self, c):
    import torch
    self.c = c
    self.where = []
    for leaves in (LEAVES, OTHER):
      o = shapes.build_batch(leaves, 2, 1)
      o.construct_all_neigh()
      self.where.append((o, ref.tree_from_leaves(leaves, 2, 1)))
    k = c['kind'] if c['kind'] != 'block' else c['conf']['block']
    self.plain = k == 'bn' or k in blocks.NOOCTREE
    self.d = 1 if k.startswith('deconv') and c['stride'] == 2 else 2

  def __call__(self, module, step, dtype=None, need=True):
    import torch
    octree, tree = self.where[step % 2]
    n = 5 if self.plain else tree.layer(self.d).num(self.c['nempty'])
    x = ref.idata(n, cin(self.c), 3 + step, -16, 16) / 8.0
    x = torch.tensor(x, dtype=dtype or torch.float32).requires_grad_(need)
    out = module(x) if self.plain else module(x, octree, self.d)
    return [out], [x] if need else []

  def use(self, module):
    self(module, 1, need=False)


class NetDriver:

  def __init__(self, case):
    import torch
    from mc.cloud import Cloud
    from ocnn.octree import Octree, Points, merge_octrees
    self.case = case
    self.depth, self.full, self.kind = c25.NETS[case['net']]
    pool = c25.pool(self.depth)
    self.where = []
    for sel in ((0, 1), (3, 2)):
      trees = []
      for i in sel:
        o = Octree(self.depth, self.full)
        o.build_octree(Cloud([pool[i]], self.depth, i, True, 1).points(0, torch.float32))
        trees.append(o)
      o = merge_octrees(trees)
      o.construct_all_neigh()
      self.where.append((o, sel))

  def __call__(self, module, step, dtype=None, need=True):
    import torch
    dtype = dtype or torch.float32
    octree, sel = self.where[step % 2]
    if self.kind in ('cls', 'seg'):
      x = octree.get_input_feature('ND', self.case['nempty']).detach().clone()
      x = x.to(dtype).requires_grad_(need)
    if self.kind == 'cls':
      return [module(x, octree, self.depth)], [x] if need else []
    if self.kind == 'seg':
      q = np.concatenate([np.concatenate([c25.queries(self.depth, j, []),
                                          np.full((2, 1), j)], 1) for j in range(2)])
      q = torch.tensor(q, dtype=dtype)
      return [module(x, octree, self.depth, q)], [x] if need else []
    if self.kind == 'i2s':
      img = torch.tensor(np.concatenate([ref.idata(96, 32, i).reshape(1, 3, 32, 32)
                                         for i in sel]) / 8.0, dtype=dtype)
      out = module(img.requires_grad_(need), octree)
      xs = [img] if need else []
    elif self.kind == 'ae':
      out, xs = module(octree, False), []
    else:
      out, xs = module(octree, octree), []
    return [out['logits'][d] for d in sorted(out['logits'])] + [out['signal']], xs

  def use(self, module):
    self(module, 1, need=False)


def net_make(case):
  import ocnn
  net, nempty, interp = case['net'], case['nempty'], case['interp']
  m = ocnn.models
  if net.startswith('lenet'):
    return m.LeNet(4, 5, int(net[5]), nempty)
  if net.startswith('resnet'):
    return m.ResNet(4, 5, 1 + int(net[6]) % 2, int(net[6]), nempty)
  if net.startswith('hrnet'):
    return m.HRNet(4, 5, int(net[5]), nempty=nempty)
  if net.startswith('segnet'):
    return m.SegNet(4, 3, int(net[6]), interp, nempty)
  if net == 'unet':
    return m.UNet(4, 3, interp, nempty)
  if net == 'ae':
    return m.AutoEncoder(4, 4, 3, 1, 'ND', 8)
  if net == 'ounet':
    return m.OUNet(4, 4, 3, 1, 'ND')
  return m.Image2Shape(4, 3, 1, 8)


# -------------------------------------------------------------------- the cases

NETS = ('lenet1', 'lenet2', 'resnet2', 'resnet3', 'hrnet1', 'segnet2', 'segnet3', 'unet',
        'ae', 'ounet', 'i2s')


def cases(tier):
  out, nets = [], []
  confs = layer_confs() + block_confs()
  for i, c in enumerate(confs):
    out.append({'kind': 'history', 'c': c})
  for i, c in enumerate(confs):
    out.append({'kind': 'state', 'c': c})
  for i, c in enumerate(confs):
    if c['kind'] in ('conv', 'deconv', 'dwconv', 'gconv', 'conv-direct', 'deconv-direct'):
      out.append({'kind': 'init', 'c': c})
  out.append({'kind': 'xavier'})
  for n in range(len(ORDER)):
    out.append({'kind': 'order', 'first': n})
  for net in NETS:
    for nempty in ((False, True) if c25.NETS[net][2] in ('cls', 'seg') else (False,)):
      if net in ('hrnet1', 'unet') and nempty and tier == 'quick':
        continue
      c = {'net': net, 'nempty': nempty, 'interp': 'linear' if not nempty else 'nearest'}
      nets.append({'kind': 'netstate', 'c': c})
      for op in OPS[2:]:
        nets.append({'kind': 'net', 'c': c, 'op': op})
  return nets[::-1] + out


def run(case, ctx):
  import torch
  torch.manual_seed(11)
  k = case['kind']
  if k == 'history':
    c = case['c']
    n = 2 if ctx.tier == 'quick' else 4
    if c['kind'] == 'block' and n > 3:
      n = 3
    drive = Driver(c)
    mk = lambda: make(c)
    gold = {}
    for length in range(1, n + 1):
      for h in itertools.product(OPS, repeat=length):
        if not set(h) - {'train', 'eval'}:
          continue
        history(ctx, c, mk, drive, ('train',) + h, gold)
    ctx.sample({'module': c, 'lengths': n})
  elif k == 'net':
    c = case['c']
    drive = NetDriver(c)
    mk = lambda: net_make(c)
    gold = {}
    history(ctx, c, mk, drive, ('train', case['op'], 'train'), gold)
  elif k == 'state':
    state(ctx, case['c'], lambda: make(case['c']), Driver(case['c']), expected(case['c']))
  elif k == 'netstate':
    state(ctx, case['c'], lambda: net_make(case['c']), NetDriver(case['c']), None)
  elif k == 'init':
    init(ctx, case['c'])
  elif k == 'xavier':
    xavier(ctx)
  else:
    order(ctx, case['first'])
  ctx.trace()


# ------------------------------------------------------------------- histories

def seed(n):
  import torch
  torch.manual_seed(n)


def train_step(module, drive, step):
  """ One step of gradient descent; returns outputs and gradients. """
  import torch
  seed(1000 + step)          # dropout
  module.train()
  module.zero_grad()
  outs, xs = drive(module, step)
  loss = 0
  for o in outs:
    cot = torch.tensor(ref.idata(o.shape[0], int(np.prod(o.shape[1:])), step, -4, 4),
                       dtype=o.dtype).view(o.shape)
    loss = loss + (o * cot).sum()
  res = [o.detach().clone() for o in outs]
  if loss.requires_grad:
    loss.backward()
  res += [x.grad for x in xs]
  with torch.no_grad():
    for n, p in sorted(module.named_parameters()):
      if p.grad is not None:
        res.append(p.grad.clone())
        p -= 0.01 * p.grad / (1 + p.grad.abs().max())
  return res


def eval_step(module, drive, step, dtype=None):
  import torch
  module.eval()
  with torch.no_grad():
    return [o.clone() for o in drive(module, step, dtype, need=False)[0]]


def contents(module):
  return {k: v.detach().clone() for k, v in module.state_dict().items()}


def golden(mk, drive, h, memo):
  """ The results of the lineage that is only trained and evaluated. """
  h = tuple(o for o in h if o in ('train', 'eval'))
  if h not in memo:
    seed(5)
    m = mk()
    res, steps = [], 0
    for op in h:
      if op == 'train':
        res.append(train_step(m, drive, steps))
        steps += 1
      else:
        res.append(eval_step(m, drive, steps))
    st = contents(m)
    last = eval_step(m, drive, 0) + train_step(m, drive, 1)
    memo[h] = (res, st, last)
  return memo[h]


def history(ctx, c, mk, drive, h, memo):
  import torch
  res, st, last = golden(mk, drive, h, memo)
  name = lambda: '%s after %s' % (c, ', '.join(h))
  seed(5)
  m = mk()
  k, steps, left = 0, 0, []
  for i, op in enumerate(h):
    if op == 'train':
      got = train_step(m, drive, steps)
      steps += 1
    elif op == 'eval':
      got = eval_step(m, drive, steps)
    else:
      got = None
    if got is not None:
      same_list(ctx, got, res[k], lambda: 'step %d of %s' % (i, name()))
      k += 1
    elif op == 'load':
      seed(100 + i)
      buf = io.BytesIO()
      torch.save(m.state_dict(), buf)
      buf.seek(0)
      new = mk()
      r = new.load_state_dict(torch.load(buf))
      ctx.check(not r.missing_keys and not r.unexpected_keys, name)
      new.train(m.training)
      left.append((m, contents(m)))
      m = new
    elif op == 'copy':
      new = copy.deepcopy(m)
      left.append((m, contents(m)))
      m = new
    elif op == 'pickle':
      new = pickle.loads(pickle.dumps(m))
      left.append((m, contents(m)))
      m = new
    elif op == 'convert':
      a = eval_step(m, drive, steps)
      m = m.double()
      if not (isinstance(drive, NetDriver) and drive.kind not in ('cls', 'i2s')):
        b = eval_step(m, drive, steps, torch.float64)
        for x, y in zip(a, b):
          ctx.check(y.dtype == torch.float64, lambda: 'precision of ' + name())
          scale = 1 + float(y.abs().max()) if y.numel() else 1
          ctx.close(x.double() / scale, y / scale,
                    lambda: 'double precision of ' + name(), 1e-3)
      m = m.float()
    elif op == 'self':
      m.load_state_dict(contents(m))
    else:
      seed(200 + i)
      o = mk()
      for _ in range(2):
        train_step(o, drive, 1)
      drive.use(mk().eval())
      if not isinstance(drive, NetDriver):
        for cc in ORDER:
          omake(cc)
    ctx.trans()
  now = contents(m)
  ctx.check(set(now) == set(st), lambda: 'names of the state of ' + name())
  for key in st:
    ctx.equal(now[key], st[key], lambda: 'state %s of %s' % (key, name()), dtype=True)
  same_list(ctx, eval_step(m, drive, 0) + train_step(m, drive, 1), last,
            lambda: 'results of ' + name())
  for old, was in left:
    for key, v in contents(old).items():
      ctx.equal(v, was[key], lambda: 'state %s of the original, %s' % (key, name()))
  ctx.state(list(h), st)
  ctx.outcome([x for x in h])


def same_list(ctx, got, want, msg):
  ctx.check(len(got) == len(want), lambda: 'number of results, ' + msg())
  for a, b in zip(got, want):
    if a is None or b is None:
      ctx.check(a is None and b is None, msg)
      continue
    ctx.equal(a, b, msg, dtype=True)


# ------------------------------------------------------------ completeness of it

def leaves_of(out):
  """ The leaf tensors an output was computed from. """
  seen, todo, res = set(), [o.grad_fn for o in out if o.grad_fn is not None], []
  while todo:
    f = todo.pop()
    if f is None or f in seen:
      continue
    seen.add(f)
    if hasattr(f, 'variable'):
      res.append(f.variable)
    todo += [g for g, _ in f.next_functions]
  return res


def state(ctx, c, mk, drive, want):
  import torch
  m = mk()
  st = m.state_dict()
  if want is not None:
    got = {k: tuple(v.shape) for k, v in st.items()}
    ctx.check(got == want, lambda: '%s: the saved state holds %s, expected %s' % (
        c, got, want))
  params = dict(m.named_parameters())
  bufs = dict(m.named_buffers())
  ctx.check(set(params) | set(bufs) == set(st) and not set(params) & set(bufs),
            lambda: '%s: parameters and statistics are not the saved state' % (c,))
  for k in st:
    stat = k.split('.')[-1] in ('running_mean', 'running_var', 'num_batches_tracked')
    ctx.check(stat == (k in bufs), lambda: '%s: %s is a wrong kind of state' % (c, k))
    if not stat:
      ctx.check(params[k].requires_grad, lambda: '%s: %s is not trainable' % (c, k))
  # every tensor that is optimised is in the list
  outs, xs = drive(m, 0)
  ids = {id(p) for p in params.values()} | {id(x) for x in xs}
  for t in leaves_of(outs):
    if c.get('kind') == 'block' and c['conf']['ckpt']:
      break
    ctx.check(id(t) in ids, lambda: '%s: an unregistered tensor of shape %s' % (
        c, tuple(t.shape)))
  # every registered parameter matters: a change of it changes the result
  if isinstance(drive, Driver) and c['kind'] != 'drop':
    m.eval()
    base = eval_step(m, drive, 0)
    for k in sorted(st):
      if k.endswith('num_batches_tracked'):
        continue
      with torch.no_grad():
        keep = st[k].clone()
        st[k].add_(0.5 + torch.arange(st[k].numel()).view(st[k].shape) * 0.25)
        if not any(not torch.equal(a, b) for a, b in zip(eval_step(m, drive, 0), base)):
          # a rectified channel can hide it once
          st[k].add_(-8.0 if 'running_var' not in k else 3.0)
          ctx.check(any(not torch.equal(a, b)
                        for a, b in zip(eval_step(m, drive, 0), base)),
                    lambda: '%s: %s has no influence' % (c, k))
        st[k].copy_(keep)
  # mismatching states are rejected
  good = contents(m)
  victim = mk()
  keys = sorted(good)
  if want is None:
    keys = keys[::1 + len(keys) // 24]
  for k in keys:
    bad = dict(good)
    v = bad.pop(k)
    if not k.endswith('num_batches_tracked'):     # torch tolerates old files
      ctx.raises(lambda: victim.load_state_dict(bad), '%s: a state without %s' % (c, k))
    bad['x.' + k] = v
    ctx.raises(lambda: victim.load_state_dict(bad), '%s: a state with x.%s' % (c, k))
    if v.dim():
      bad = dict(good)
      for dim in range(v.dim()):
        bad[k] = torch.cat([v, v], dim)
        ctx.raises(lambda: victim.load_state_dict(bad),
                   '%s: a state with %s of shape %s' % (c, k, tuple(bad[k].shape)))
    ctx.trans()
  bad = dict(good, extra=torch.zeros(1))
  ctx.raises(lambda: victim.load_state_dict(bad), '%s: an unknown entry' % (c,))
  # two instances share nothing
  a, b = mk(), mk()
  pa = {t.data_ptr() for t in a.state_dict().values() if t.numel()}
  pb = {t.data_ptr() for t in b.state_dict().values() if t.numel()}
  ctx.check(not pa & pb, lambda: '%s: two instances share memory' % (c,))
  for k, v in a.state_dict().items():
    if k.endswith('.weights') or k == 'weights':
      if v.dim() == 3:
        kd, i, o = v.shape
        lim = math.sqrt(6.0 / (kd * i + kd * o))
        ctx.check(bool((v.abs() <= lim * (1 + 1e-6)).all()),
                  lambda: '%s: initial %s exceeds %g' % (c, k, lim))
        if v.numel() >= 400:
          ctx.check(float(v.max()) > 0.9 * lim and float(v.min()) < -0.9 * lim,
                    lambda: '%s: initial %s does not fill +-%g: %g..%g' % (
                        c, k, lim, v.min(), v.max()))
  ctx.state(c, [list(v.shape) for v in good.values()])
  ctx.outcome(len(good))


# ------------------------------------------------------------------ initial values

def init(ctx, c):
  """ Documented range, zero bias; wide layers so that the range is filled. """
  import torch
  import ocnn
  size = list(dense.KSIZE[c['kernel']][0])
  k = c['kind']
  n = len(ref.offsets(c['kernel']))
  for i, o in ((8, 24), (32, 8), (16, 16), (1, 64), (64, 1), (1, 1), (2, 1), (1, 2), (3, 3)):
    seed(i)
    a = (size, c['stride'], c['nempty'])
    if k == 'dwconv':
      m = ocnn.nn.OctreeDWConv(o * 8, *a, use_bias=c['bias'])
      fi, fo = 1, o * 8
    elif k == 'gconv':
      m = ocnn.nn.OctreeGroupConv(2 * i, 2 * o, *a, use_bias=c['bias'], group=2)
      fi, fo = i, o
    else:
      cls = ocnn.nn.OctreeConv if k.startswith('conv') else ocnn.nn.OctreeDeconv
      m = cls(i, o, *a, direct_method=k.endswith('direct'), use_bias=c['bias'])
      fi, fo = i, o
    lim = math.sqrt(6.0 / (n * (fi + fo)))
    ws = [p for q, p in m.named_parameters() if q.split('.')[-1] == 'weights']
    bs = [p for q, p in m.named_parameters() if q.split('.')[-1] == 'bias']
    ctx.check(len(ws) == (2 if k == 'gconv' else 1), 'number of weights of %s' % (c,))
    ctx.check(len(bs) == (len(ws) if c['bias'] else 0), 'number of biases of %s' % (c,))
    for again in range(2):
      for w in ws:
        spread(ctx, w, lim, '%s %d->%d' % (c, i, o))
        if w.numel() < 150:                                # narrow: many draws
          many = []
          while len(many) * w.numel() < 400:
            many.append(w.detach().clone())
            for s in m.modules():
              if hasattr(s, 'reset_parameters'):
                s.reset_parameters()
          spread(ctx, torch.cat([v.flatten() for v in many]), lim,
                 '%s %d->%d, many draws' % (c, i, o))
      for b in bs:
        ctx.check(bool((b == 0).all()), lambda: 'initial bias of %s' % (c,))
      if len(ws) == 2:
        ctx.check(not torch.equal(ws[0], ws[1]), 'groups of %s start alike' % (c,))
      old = [w.detach().clone() for w in ws]
      with torch.no_grad():
        for p in m.parameters():
          p.fill_(7.0)
      for s in [m] + list(m.modules()):
        if hasattr(s, 'reset_parameters'):
          s.reset_parameters()
    ctx.trans(2)
    ctx.state(c, old)
  ctx.outcome(k, c['bias'])


def spread(ctx, w, lim, what):
  import torch
  v = w.detach().double().flatten()
  ctx.check(bool((v.abs() <= lim * (1 + 1e-6)).all()),
            lambda: 'initial weights of %s exceed %g: %g' % (what, lim, v.abs().max()))
  n = len(v)
  if n < 150:
    return
  ctx.check(float(v.max()) > 0.9 * lim and float(v.min()) < -0.9 * lim,
            lambda: 'initial weights of %s do not fill +-%g' % (what, lim))
  ctx.check(len(torch.unique(v)) > 0.9 * n, lambda: 'initial weights of %s repeat' % what)
  if n >= 1000:
    ctx.check(abs(float(v.mean())) < 0.15 * lim, lambda: 'initial mean of %s' % what)
    sd = float(v.std()) / (lim / math.sqrt(3))
    ctx.check(0.9 < sd < 1.1, lambda: 'initial deviation of %s: %g' % (what, sd))


def xavier(ctx):
  import torch
  from ocnn.utils import xavier_uniform_
  for k, i, o in itertools.product((1, 3, 8, 9, 27), (1, 4, 16, 64), (1, 4, 16, 64)):
    for dt in (torch.float32, torch.float64):
      ws = []
      while not ws or len(ws) * ws[0].numel() < 400:       # narrow: many draws
        ws.append(torch.full((k, i, o), float('nan'), dtype=dt))
        xavier_uniform_(ws[-1])
      w = torch.cat([v.flatten() for v in ws])
      spread(ctx, w, math.sqrt(6.0 / (k * i + k * o)), 'xavier_uniform_(%d,%d,%d)' % (k, i, o))
      p = torch.nn.Parameter(torch.full((k, i, o), float('nan'), dtype=dt))
      xavier_uniform_(p)
      ctx.check(p.requires_grad and p.is_leaf and bool(torch.isfinite(p).all()),
                'xavier_uniform_ of a parameter')
      ctx.trans()
    ctx.state(k, i, o)
  ctx.outcome('xavier')


# ------------------------------------------------------------- construction orders

ORDER = [
    {'kind': 'conv', 'kernel': '333', 'stride': 1, 'nempty': False, 'bias': True},
    {'kind': 'deconv', 'kernel': '222', 'stride': 2, 'nempty': True, 'bias': False},
    {'kind': 'dwconv', 'kernel': '311', 'stride': 1, 'nempty': True, 'bias': True},
    {'kind': 'gconv', 'kernel': '333', 'stride': 2, 'nempty': False, 'bias': False},
    {'kind': 'gn', 'c': 4, 'g': 2, 'nempty': False, 'stride': 1},
    {'kind': 'block', 'nempty': False, 'stride': 1, 'conf': {
        'block': 'resblock', 'cin': 2, 'cout': 4, 'kernel': '333', 'stride': 1,
        'nempty': False, 'bottleneck': 2, 'num': 1, 'resblk': 1, 'ckpt': False,
        'bias': False}},
    {'kind': 'block', 'nempty': True, 'stride': 2, 'conf': {
        'block': 'convbnrelu', 'cin': 2, 'cout': 3, 'kernel': '222', 'stride': 2,
        'nempty': True, 'bottleneck': 1, 'num': 1, 'resblk': 1, 'ckpt': False,
        'bias': False}},
    {'kind': 'default'},
]


def omake(c):
  """ Like make, but relying on the default arguments, or on one shared list. """
  import ocnn
  if c['kind'] == 'default':
    return ocnn.modules.OctreeConvBnRelu(2, 3)
  return make(c)


def odrive(c):
  return Driver(c if c['kind'] != 'default' else {
      'kind': 'conv', 'kernel': '333', 'stride': 1, 'nempty': False, 'bias': False})


def order(ctx, first):
  """ All sequences of three constructions starting with `first`. """
  import torch
  import ocnn
  drives = [odrive(c) for c in ORDER]

  def alone(i):
    seed(30 + i)
    m = omake(ORDER[i])
    return contents(m), eval_step(m, drives[i], 0), train_step(m, drives[i], 1)

  ref_ = [alone(i) for i in range(len(ORDER))]
  for t in itertools.product(range(len(ORDER)), repeat=2):
    t = (first,) + t
    mods = []
    for i in t:
      seed(30 + i)
      mods.append(omake(ORDER[i]))
    for j in (1, 2, 0):        # used in another order than constructed
      i = t[j]
      what = lambda: 'module %d of the constructions %s' % (j, [ORDER[x] for x in t])
      st, ev, tr = ref_[i]
      for k, v in contents(mods[j]).items():
        ctx.equal(v, st[k], lambda: k + ' of ' + what())
      same_list(ctx, eval_step(mods[j], drives[i], 0), ev, what)
      same_list(ctx, train_step(mods[j], drives[i], 1), tr, what)
    ctx.trans(3)
    ctx.state(list(t))
  # one list of kernel sizes for several layers
  for size in ([3], [2], [3, 1], [3, 3], [3, 1, 1], [1, 3], [2, 2, 2]):
    mine = list(size)
    full = mine + [mine[-1]] * (3 - len(mine))
    shape = (int(np.prod(full)), 2, 3)
    for cls in (ocnn.nn.OctreeConv, ocnn.nn.OctreeConv, ocnn.modules.OctreeConvBn,
                ocnn.nn.OctreeDeconv, ocnn.modules.OctreeDeconvBnRelu,
                ocnn.nn.OctreeDWConv, ocnn.nn.OctreeConv):
      m = cls(2, mine) if cls is ocnn.nn.OctreeDWConv else cls(2, 3, mine)
      ctx.check(mine == size, lambda: '%s changed the list of sizes' % cls.__name__)
      w = [p for n, p in m.named_parameters() if n.endswith('weights')][0]
      ctx.check(w.shape[0] == shape[0], lambda: '%s with sizes %s has weights %s' % (
          cls.__name__, size, tuple(w.shape)))
      d = ocnn.nn.OctreeConv(2, 3)
      ctx.check(d.weights.shape[0] == 27, 'the default kernel size')
      ctx.trans()
  ctx.outcome('order')
