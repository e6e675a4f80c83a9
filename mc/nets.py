"""The provided networks written out as their documented architecture, in float64.

Everything is computed from the saved state of a network by its public names and
from the reference tree; only torchvision's image encoder is used as it is.
"""

import numpy as np
from mc import blocks, interp
from mc.blocks import relu, conv_bn_relu, conv1x1_bn, resblocks

BASE = {'kernel': '333', 'stride': 1, 'bottleneck': 1, 'num': 1, 'resblk': 1}


# ------------------------------------------------------------- pieces, vectorised

def kids(tree, d, nempty):
  """ (parents of layer d-1, 8) indices of the children in layer d, -1 if none. """
  lay, up = tree.layer(d), tree.layer(d - 1)
  _, rows = up.nodes(nempty)
  b, _ = up.nodes(nempty)
  octant = np.array([[i >> 2, i >> 1 & 1, i & 1] for i in range(8)])
  xyz = (rows[:, None, :] * 2 + octant[None]).reshape(-1, 3)
  return lay.remap(lay.find(np.repeat(b, 8), xyz), nempty).reshape(-1, 8)


def max_pool(tree, x, d, nempty):
  """ (values of layer d-1, octant of the maximum); no child: zero. """
  import torch
  k = torch.tensor(kids(tree, d, nempty))
  g = x[k.clamp(min=0)]
  g = torch.where((k < 0).unsqueeze(2), torch.full_like(g, -1e300), g)
  val, arg = g.max(1)
  return torch.where((k < 0).all(1, keepdim=True), torch.zeros_like(val), val), arg


def max_unpool(tree, x, arg, d, nempty):
  """ Values of layer d placed at the remembered child of layer d+1. """
  import torch
  k = torch.tensor(kids(tree, d + 1, nempty))
  n, c = tree.layer(d + 1).num(nempty), x.shape[1]
  target = torch.gather(k, 1, arg)
  out = x.new_zeros(n + 1, c)
  col = torch.arange(c).expand_as(target)
  return out.index_put((torch.where(target < 0, n, target), col), x)[:n]


def upsample(tree, x, d, nempty):
  import torch
  b, xyz = tree.layer(d + 1).nodes(nempty)
  lay = tree.layer(d)
  return x[torch.tensor(lay.remap(lay.find(b, xyz // 2), nempty))]


def global_pool(tree, x, d, nempty):
  import torch
  b, _ = tree.layer(d).nodes(nempty)
  m = np.zeros((tree.batch_size, len(b)))
  m[b, np.arange(len(b))] = 1
  m /= np.maximum(m.sum(1, keepdims=True), 1)
  return torch.tensor(m) @ x


def voxels(tree, x, d, nempty):
  """ (batch, side, side, side, channel) """
  import torch
  n = 1 << d
  b, xyz = tree.layer(d).nodes(nempty)
  vol = x.new_zeros(tree.batch_size, n, n, n, x.shape[1])
  b, xyz = torch.tensor(b), torch.tensor(xyz)
  return vol.index_put((b, xyz[:, 0], xyz[:, 1], xyz[:, 2]), x)


def at_points(tree, x, d, method, nempty, pts):
  """ Values at the query points (positions in [-1, 1], sample). """
  import torch
  xyz = (pts[:, :3] + 1) * 2.0 ** (d - 1)
  m = interp.matrix(tree, d, method, nempty, xyz, pts[:, 3].astype(int))
  return torch.tensor(m) @ x


def align(src, dst, x, d):
  """ Values of the nodes of one tree at the nodes of another one, else zero. """
  import torch
  b, xyz = dst.layer(d).nodes(False)
  i = src.layer(d).find(b, xyz)
  z = torch.cat([x, x.new_zeros(1, x.shape[1])])
  return z[torch.tensor(np.where(i < 0, len(x), i))]


def width(s, pre, key):
  return s.p[pre + key].shape


def res(s, pre, tree, x, d, nempty, resblk=1):
  """ A list of residual blocks, as many as the state has. """
  num = 0
  while any(k.startswith('%sresblks.%d.' % (pre, num)) for k in s.p):
    num += 1
  if resblk == 2:
    last = [k for k in s.p if k.startswith(pre + 'resblks.0.conv3x3b.conv.')]
    cout = s.p[last[0]].shape[-1]
  else:
    cout = s.p[pre + 'resblks.0.conv1x1b.conv.linear.weight'].shape[0]
  conf = dict(BASE, num=num, resblk=resblk, nempty=nempty, cin=x.shape[1], cout=cout)
  return resblocks(s, pre, tree, x, d, conf), num


def cbr(s, pre, tree, x, d, nempty, kernel='333', stride=1):
  return conv_bn_relu(s, pre, tree, x, d, dict(BASE, kernel=kernel, stride=stride,
                                               nempty=nempty))


def up(s, pre, tree, x, d, nempty):
  return blocks.deconv_bn_relu(s, pre, tree, x, d, dict(BASE, kernel='222', stride=2,
                                                        nempty=nempty))


def head(s, pre, x):
  """ 1x1 - norm - activation - 1x1 with bias. """
  return s.linear(pre + '1.linear', relu(conv1x1_bn(s, pre + '0.', x)))


# ------------------------------------------------------------------- networks

def lenet(s, c, tree, x, depth):
  """ (convolution, pooling) per stage; the 4x4x4 grid; two dense layers. """
  for i in range(c['stages']):
    x = cbr(s, 'convs.%d.' % i, tree, x, depth - i, c['nempty'])
    x, _ = max_pool(tree, x, depth - i, c['nempty'])
  x = voxels(tree, x, depth - c['stages'], c['nempty'])
  x = relu(s.bn('header.1.bn', s.linear('header.1.fc', x.reshape(tree.batch_size, -1))))
  return s.linear('header.3', x)


def resnet(s, c, tree, x, depth):
  """ Convolution, pooling; (residual blocks, pooling) per stage; mean; two dense. """
  x = cbr(s, 'conv1.', tree, x, depth, c['nempty'])
  x, _ = max_pool(tree, x, depth, c['nempty'])
  for i in range(c['stages'] - 1):
    x, num = res(s, 'resblocks.%d.' % i, tree, x, depth - 1 - i, c['nempty'])
    assert num == c['num'], 'residual blocks per stage'
    x, _ = max_pool(tree, x, depth - 1 - i, c['nempty'])
  x = global_pool(tree, x, depth - c['stages'], c['nempty'])
  return s.linear('header.2', relu(s.bn('header.0.bn', s.linear('header.0.fc', x))))


def segnet(s, c, tree, x, depth, pts):
  """ Pooling remembers the positions of the maxima, unpooling returns there. """
  n, args = c['stages'], {}
  for i in range(n):
    x = cbr(s, 'convs.%d.' % i, tree, x, depth - i, c['nempty'])
    x, args[depth - i] = max_pool(tree, x, depth - i, c['nempty'])
  x = cbr(s, 'bottleneck.', tree, x, depth - n, c['nempty'])
  for i in range(n):
    d = depth - n + i + 1
    x = max_unpool(tree, x, args[d], d - 1, c['nempty'])
    x = cbr(s, 'deconvs.%d.' % i, tree, x, d, c['nempty'])
  return head(s, 'header.', at_points(tree, x, depth, c['interp'], c['nempty'], pts))


def unet(s, c, tree, x, depth, pts):
  """ Strided convolutions down, up again, joined with the encoder at each depth. """
  e, ne = {}, c['nempty']
  e[depth] = cbr(s, 'conv1.', tree, x, depth, ne)
  for i, num in enumerate(c['enc']):
    d = depth - i - 1
    e[d] = cbr(s, 'downsample.%d.' % i, tree, e[d + 1], d + 1, ne, '222', 2)
    e[d], n = res(s, 'encoder.%d.' % i, tree, e[d], d, ne, c['resblk'])
    assert n == num, 'residual blocks per stage'
  x = e[d]
  for i, num in enumerate(c['dec']):
    x = up(s, 'upsample.%d.' % i, tree, x, d, ne)
    d += 1
    import torch
    x, n = res(s, 'decoder.%d.' % i, tree, torch.cat([e[d], x], 1), d, ne, c['resblk'])
    assert n == num, 'residual blocks per stage'
  return head(s, 'header.', at_points(tree, x, d, c['interp'], ne, pts))


def hrnet(s, c, tree, x, depth):
  """ Parallel branches, one more per stage, exchanged by pooling and upsampling. """
  import torch
  ne = c['nempty']
  x = cbr(s, 'front.conv.0.', tree, x, depth, ne)
  x, _ = max_pool(tree, x, depth, ne)
  xs = [cbr(s, 'front.conv.1.', tree, x, depth - 1, ne)]
  depth -= 1
  for t in range(c['stages']):
    for i in range(t + 1):
      xs[i], n = res(s, 'branches.%d.resblocks.%d.' % (t, i), tree, xs[i], depth - i, ne)
      assert n == 3, 'residual blocks per branch'
    if t == c['stages'] - 1:
      break
    new = []
    for j in range(t + 2):
      total = 0
      for i in range(t + 1):
        pre = 'transitions.%d.trans_func.%d.conv1x1.' % (t, i * (t + 2) + j)
        fit = any(k.startswith(pre) for k in s.p)
        y = xs[i]
        for d in range(depth - i, depth - j, -1):
          y, _ = max_pool(tree, y, d, ne)
        if fit:
          y = relu(conv1x1_bn(s, pre, y))
        for d in range(depth - i, depth - j):
          y = upsample(tree, y, d, ne)
        total = total + y
      new.append(total)
    xs = new
  for i in range(len(xs)):
    for d in range(depth - i, 2, -1):
      xs[i], _ = max_pool(tree, xs[i], d, ne)
  x = relu(conv1x1_bn(s, 'cls_header.conv1x1.', torch.cat(xs, 1)))
  return s.linear('cls_header.header.1', global_pool(tree, x, 2, ne))


# --------------------------------------------------------- generative networks

def encode(s, c, tree, x):
  """ Features of every depth from the input signal. """
  e = {c['depth']: cbr(s, 'conv1.', tree, x, c['depth'], False)}
  for i, d in enumerate(range(c['depth'], c['full'] - 1, -1)):
    e[d], n = res(s, 'encoder_blks.%d.' % i, tree, e[d], d, False)
    assert n == 2, 'residual blocks per depth'
    if d > c['full']:
      e[d - 1] = cbr(s, 'downsample.%d.' % i, tree, e[d], d, False, '222', 2)
  return e


class Unclear(Exception):
  """ A split label that rounding decides. """


def decode(s, c, tree, x, grow, skip=None):
  """ Split labels and, at the leaves, the signal; the tree is given or grows. """
  import torch
  logits = {}
  for i, d in enumerate(range(c['full'], c['depth'] + 1)):
    if d > c['full']:
      if grow:
        tree.grow()
      x = up(s, 'upsample.%d.' % (i - 1), tree, x, d - 1, False)
      if skip is not None:
        x = x + skip(tree, d)
    x, n = res(s, 'decoder_blks.%d.' % i, tree, x, d, False)
    assert n == 2, 'residual blocks per depth'
    logits[d] = head(s, 'predict.%d.' % i, x)
    if grow:
      v = logits[d].detach()
      if bool(((v[:, 1] - v[:, 0]).abs() < 1e-7).any()) or not bool((v[:, 1] > v[:, 0]).any()):
        raise Unclear()
      tree.split((v[:, 1] > v[:, 0]).numpy())
  sig = torch.tanh(head(s, 'header.', x))
  return logits, sig[torch.tensor(tree.layer(c['depth']).nempty)]


def image_code(model, image, c):
  """ torchvision's network with its last layer replaced. """
  import copy
  net = copy.deepcopy(model.resnet18)
  return net(image).reshape(-1, c['code']), net


# ------------------------------------------------- sizes of the trained parameters

def conv_p(i, o, k=27):
  return [(k, i, o), (o,), (o,)]


def deconv_p(i, o):
  return [(8, o, i), (o,), (o,)]


def one_p(i, o):
  """ 1x1 or dense without bias, normalised. """
  return [(o, i), (o,), (o,)]


def dense_p(i, o):
  return [(o, i), (o,)]


def res_p(i, o, num, neck, kind=1):
  out = []
  for k in range(num):
    i = i if k == 0 else o
    b = o // neck
    if kind == 1:
      out += one_p(i, b) + conv_p(b, b) + one_p(b, o)
    else:
      out += conv_p(i, b) + conv_p(b, o)
    if i != o:
      out += one_p(i, o)
  return out


def head_p(i, hidden, o):
  return one_p(i, hidden) + dense_p(hidden, o)


def stage_widths(top, stages):
  """ Doubling up to the last stage. """
  return [2 ** max(i + top - stages, 2) for i in range(stages)]


def parameters(c, widths=None):
  """ Shapes of all parameters of a network (its image encoder excepted). """
  net, out = c['net'], []
  if net == 'lenet':
    w = [c['io'][0]] + stage_widths(7, c['stages'])
    for i in range(c['stages']):
      out += conv_p(w[i], w[i + 1])
    return out + one_p(4096, 128) + dense_p(128, c['io'][1])
  if net == 'resnet':
    w = stage_widths(9, c['stages'])
    out += conv_p(c['io'][0], w[0])
    for i in range(c['stages'] - 1):
      out += res_p(w[i], w[i + 1], c['num'], 4)
    return out + one_p(w[-1], 512) + dense_p(512, c['io'][1])
  if net == 'segnet':
    w = stage_widths(8, c['stages'])
    down = [c['io'][0]] + w
    up_ = w[::-1] + [w[0]]
    for i in range(c['stages']):
      out += conv_p(down[i], down[i + 1]) + conv_p(up_[i], up_[i + 1])
    return out + conv_p(w[-1], w[-1]) + head_p(w[0], 64, c['io'][1])
  if net == 'unet':
    e, d, neck, hidden = widths or ([32, 32, 64, 128, 256], [256, 256, 128, 96, 96], 1, 64)
    out += conv_p(c['io'][0], e[0])
    for i, num in enumerate(c['enc']):
      out += conv_p(e[i], e[i + 1], 8) + res_p(e[i + 1], e[i + 1], num, neck, c['resblk'])
    for i, num in enumerate(c['dec']):
      out += deconv_p(d[i], d[i + 1])
      out += res_p(d[i + 1] + e[-i - 2], d[i + 1], num, neck, c['resblk'])
    return out + head_p(d[-1], hidden, c['io'][1])
  if net == 'hrnet':
    w = [128, 256, 512, 512][:c['stages']]
    out += conv_p(c['io'][0], 32) + conv_p(32, 128)
    for t in range(c['stages']):
      for i in range(t + 1):
        out += res_p(w[i], w[i], 3, 4 if w[i] < 256 else 8)
      if t < c['stages'] - 1:
        for i in range(t + 1):
          for j in range(t + 2):
            out += one_p(w[i], w[j]) if w[i] != w[j] else []
    return out + one_p(sum(w), 1024) + dense_p(1024, c['io'][1])
  full, depth = c['full'], c['depth']
  w = [512, 512, 256, 256, 128, 128, 32, 32, 16, 16]
  if net == 'i2s':
    w[6:] = [64, 64, 32, 32]
  else:
    out += conv_p({'ND': 4, 'P': 3, 'L': 3}[c['feature']], w[depth])
    for d in range(full, depth + 1):
      out += res_p(w[d], w[d], 2, 4)
      out += conv_p(w[d], w[d - 1], 8) if d > full else []
    if net == 'ae':
      out += dense_p(w[full], c['code'])
  if net != 'ounet':
    w[full] = c['code']
  for d in range(full, depth + 1):
    out += deconv_p(w[d - 1], w[d]) if d > full else []
    out += res_p(w[d], w[d], 2, 4) + head_p(w[d], 64, 2)
  return out + head_p(w[depth], 64, c['out'])
