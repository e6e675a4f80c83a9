"""Composite blocks written out as their documented sequence, in float64 autograd.

A block's parameters are read from its saved state by their public names; the
convolution is dense (mc.dense), normalisation, pooling, shortcut and activation
are written out here.
"""

import numpy as np
from mc import dense, ref

MOMENTUM, EPS = 0.1, 1e-5


class State:
  """ Float64 leaves for the parameters, plain tensors for the statistics. """

  def __init__(self, module):
    import torch
    self.train = module.training
    names = {n for n, _ in module.named_parameters()}
    self.p, self.buf = {}, {}
    for n, t in module.state_dict().items():
      t = t.detach().clone()
      if n in names:
        self.p[n] = t.double().requires_grad_()
      else:
        self.buf[n] = t.double() if t.is_floating_point() else t

  # -- the pieces
  def bn(self, pre, x):
    import torch
    mean, var = self.buf[pre + '.running_mean'], self.buf[pre + '.running_var']
    if self.train:
      n = x.shape[0]
      mean = x.sum(0) / n
      var = ((x - mean) ** 2).sum(0) / n
      with torch.no_grad():
        old = self.buf[pre + '.running_mean']
        self.buf[pre + '.running_mean'] = old + MOMENTUM * (mean - old)
        old = self.buf[pre + '.running_var']
        self.buf[pre + '.running_var'] = old + MOMENTUM * (var * n / (n - 1) - old)
        key = pre + '.num_batches_tracked'
        self.buf[key] = self.buf[key] + 1
    out = (x - mean) / torch.sqrt(var + EPS)
    return out * self.p[pre + '.weight'] + self.p[pre + '.bias']

  def linear(self, pre, x):
    out = x @ self.p[pre + '.weight'].t()
    if pre + '.bias' in self.p:
      out = out + self.p[pre + '.bias']
    return out

  def conv(self, pre, tree, x, d, kernel='333', stride=1, nempty=False):
    return dense.conv(tree, x, d, kernel, stride, nempty, self.p[pre + '.weights'])

  def deconv(self, pre, tree, x, d, kernel='333', stride=1, nempty=False):
    return dense.deconv(tree, x, d, kernel, stride, nempty, self.p[pre + '.weights'])


def relu(x):
  return x * (x > 0)


def max_pool(tree, x, d, nempty):
  """ Values of layer d-1; parents without children get zero. """
  import torch
  lay, up = tree.layer(d), tree.layer(d - 1)
  b, xyz = lay.nodes(nempty)
  parent = up.find(b, xyz // 2)
  kids = {}
  for i, p in enumerate(parent):
    kids.setdefault(int(p), []).append(i)
  rows = np.nonzero(up.nempty)[0] if nempty else np.arange(up.nnum)
  zero = x.new_zeros(x.shape[1])
  out = [torch.stack([x[i] for i in kids[int(p)]]).max(0)[0] if int(p) in kids
         else zero for p in rows]
  return torch.stack(out)


def poolable(tree, d, nempty):
  """ Every pooled parent has a child (always so below the full depth). """
  if not nempty:
    return True
  lay, up = tree.layer(d), tree.layer(d - 1)
  b, xyz = lay.nodes(True)
  have = set(up.find(b, xyz // 2).tolist())
  return all(int(p) in have for p in np.nonzero(up.nempty)[0])


# ------------------------------------------------------------------ the blocks

def conv_bn(s, pre, tree, x, d, conf):
  c = s.conv(pre + 'conv', tree, x, d, conf['kernel'], conf['stride'], conf['nempty'])
  return s.bn(pre + 'bn', c)


def conv_bn_relu(s, pre, tree, x, d, conf):
  return relu(conv_bn(s, pre, tree, x, d, conf))


def deconv_bn_relu(s, pre, tree, x, d, conf):
  c = s.deconv(pre + 'deconv', tree, x, d, conf['kernel'], conf['stride'],
               conf['nempty'])
  return relu(s.bn(pre + 'bn', c))


def conv1x1_bn(s, pre, x):
  return s.bn(pre + 'bn', s.linear(pre + 'conv.linear', x))


def resblock(s, pre, tree, x, d, conf):
  unit = dict(conf, kernel='333', stride=1)
  if conf['stride'] == 2:
    x, d = max_pool(tree, x, d, conf['nempty']), d - 1
  y = relu(conv1x1_bn(s, pre + 'conv1x1a.', x))
  y = conv_bn_relu(s, pre + 'conv3x3.', tree, y, d, unit)
  y = conv1x1_bn(s, pre + 'conv1x1b.', y)
  if conf['cin'] != conf['cout']:
    x = conv1x1_bn(s, pre + 'conv1x1c.', x)
  return relu(y + x)


def resblock2(s, pre, tree, x, d, conf):
  unit = dict(conf, kernel='333', stride=1)
  if conf['stride'] == 2:
    x, d = max_pool(tree, x, d, conf['nempty']), d - 1
  y = conv_bn_relu(s, pre + 'conv3x3a.', tree, x, d, unit)
  y = conv_bn(s, pre + 'conv3x3b.', tree, y, d, unit)
  if conf['cin'] != conf['cout']:
    x = conv1x1_bn(s, pre + 'conv1x1.', x)
  return relu(y + x)


def resblocks(s, pre, tree, x, d, conf):
  one = resblock if conf['resblk'] == 1 else resblock2
  chan = [conf['cin']] + [conf['cout']] * conf['num']
  for i in range(conf['num']):
    x = one(s, '%sresblks.%d.' % (pre, i), tree, x, d,
            dict(conf, stride=1, cin=chan[i], cout=chan[i + 1]))
  return x


BLOCKS = {
    'convbn': conv_bn, 'convbnrelu': conv_bn_relu, 'deconvbnrelu': deconv_bn_relu,
    'resblock': resblock, 'resblock2': resblock2, 'resblocks': resblocks,
    'conv1x1': lambda s, pre, tree, x, d, conf: s.linear(pre + 'linear', x),
    'conv1x1bn': lambda s, pre, tree, x, d, conf: conv1x1_bn(s, pre, x),
    'conv1x1bnrelu': lambda s, pre, tree, x, d, conf: relu(conv1x1_bn(s, pre, x)),
    'fcbnrelu': lambda s, pre, tree, x, d, conf: relu(s.bn(
        pre + 'bn', s.linear(pre + 'fc', x.reshape(x.shape[0], -1)))),
}
NOOCTREE = ('conv1x1', 'conv1x1bn', 'conv1x1bnrelu', 'fcbnrelu')


def make(conf):
  """ The library's block. """
  import ocnn
  m = ocnn.modules
  k, a = conf['block'], (conf['cin'], conf['cout'])
  size = list(dense.KSIZE[conf['kernel']][0])
  if k in ('convbn', 'convbnrelu', 'deconvbnrelu'):
    cls = {'convbn': m.OctreeConvBn, 'convbnrelu': m.OctreeConvBnRelu,
           'deconvbnrelu': m.OctreeDeconvBnRelu}[k]
    return cls(*a, size, conf['stride'], conf['nempty'])
  if k == 'conv1x1':
    return m.Conv1x1(*a, use_bias=conf['bias'])
  if k == 'conv1x1bn':
    return m.Conv1x1Bn(*a)
  if k == 'conv1x1bnrelu':
    return m.Conv1x1BnRelu(*a)
  if k == 'fcbnrelu':
    return m.FcBnRelu(conf['cin'], conf['cout'])
  if k == 'resblock':
    return m.OctreeResBlock(*a, conf['stride'], conf['bottleneck'], conf['nempty'])
  if k == 'resblock2':
    return m.OctreeResBlock2(*a, conf['stride'], conf['bottleneck'], conf['nempty'])
  cls = {1: m.OctreeResBlock, 2: m.OctreeResBlock2}[conf['resblk']]
  return m.OctreeResBlocks(*a, conf['num'], conf['bottleneck'], conf['nempty'], cls,
                           use_checkpoint=conf['ckpt'])


def fill(module, salt):
  """ Generic values: no zero scale, no zero bias, positive variances. """
  import torch
  with torch.no_grad():
    for j, (n, t) in enumerate(sorted(module.state_dict().items())):
      if not t.is_floating_point():
        continue
      v = torch.tensor(ref.idata(t.numel(), 1, salt * 131 + j, -16, 15)[:, 0] + 0.5,
                       dtype=torch.float64)
      if n.endswith('running_var'):
        v = v.abs() / 8
      elif n.endswith('running_mean'):
        v = v / 16
      elif n.endswith('.weights') or n.endswith('linear.weight') or n.endswith('fc.weight'):
        v = v / 16
      else:
        v = v / 13
      t.copy_(v.view(t.shape))


def out_depth(conf, d):
  if conf['stride'] == 1 or conf['block'] in NOOCTREE + ('resblocks',):
    return d
  return d + 1 if conf['block'] == 'deconvbnrelu' else d - 1
