"""The convolution layers of the library next to dense twins of them."""

import torch
from mc import ref, dense

KINDS = ('conv', 'conv-direct', 'deconv', 'deconv-direct', 'dwconv', 'gconv2', 'gconv3')


class Twin:
  """ A dense twin: the same parameters (float64 leaves), dense function. """

  def __init__(self, kind, cin, cout, kernel, stride, nempty, bias, salt, dt,
               **kw):
    import ocnn
    self.kind, self.kernel, self.stride = kind, kernel, stride
    self.nempty = nempty
    size = list(dense.KSIZE[kernel][salt % len(dense.KSIZE[kernel])])
    k = len(ref.offsets(kernel))
    self.group = 1
    if kind == 'dwconv':
      cout = cin
      self.layer = ocnn.nn.OctreeDWConv(cin, size, stride, nempty, use_bias=bias, **kw)
      w = dense.tweights(k, 1, cin, salt)
      self.group = cin
    elif kind.startswith('gconv'):
      self.group = int(kind[5:])
      cin, cout = cin * self.group, cout * self.group
      self.layer = ocnn.nn.OctreeGroupConv(cin, cout, size, stride, nempty,
                                           use_bias=bias, group=self.group)
      w = dense.tweights(k, cin // self.group, cout, salt)
    else:
      direct = dict(kw, direct_method=True) if kind.endswith('direct') else kw
      cls = ocnn.nn.OctreeConv if kind.startswith('conv') else ocnn.nn.OctreeDeconv
      self.layer = cls(cin, cout, size, stride, nempty, use_bias=bias, **direct)
      w = dense.tweights(k, cin, cout, salt) if kind.startswith('conv') else \
          dense.tweights(k, cout, cin, salt)
    self.cin, self.cout = cin, cout
    self.w = w.requires_grad_()
    self.b = dense.tdata(1, cout, salt + 5)[0].requires_grad_() if bias else None
    self.layer = self.layer.to(dt)
    self.dt = dt
    with torch.no_grad():
      for (lw, lb), i in zip(self.parts(), range(self.group)):
        n = cout // len(self.parts())
        lw.copy_(self.w[:, :, i * n:(i + 1) * n] if len(self.parts()) > 1 else self.w)
        if bias:
          lb.copy_(self.b[i * n:(i + 1) * n] if len(self.parts()) > 1 else self.b)

  def parts(self):
    """ (weights, bias) of the library layer. """
    if self.kind.startswith('gconv'):
      return [(c.weights, getattr(c, 'bias', None)) for c in self.layer.convs]
    return [(self.layer.weights, getattr(self.layer, 'bias', None))]

  def scale(self, sx, sw):
    """ Weights times sw, biases fitting to features times sx. """
    with torch.no_grad():
      self.w.mul_(sw)
      if self.b is not None:
        self.b.mul_(sx * sw)
      for w, b in self.parts():
        w.mul_(sw)
        if b is not None:
          b.mul_(sx * sw)

  def need(self, weights, bias):
    self.w.requires_grad_(weights)
    if self.b is not None:
      self.b.requires_grad_(bias)
    for w, b in self.parts():
      w.requires_grad_(weights)
      if b is not None:
        b.requires_grad_(bias)

  def zero(self):
    self.w.grad = None
    if self.b is not None:
      self.b.grad = None
    for w, b in self.parts():
      w.grad = None
      if b is not None:
        b.grad = None

  def grads(self):
    """ Parameter gradients of the library layer, in the twin's layout. """
    w = [p.grad for p, _ in self.parts()]
    b = [p.grad for _, p in self.parts() if p is not None]
    w = None if w[0] is None else torch.cat(w, dim=-1)
    b = None if not b or b[0] is None else torch.cat(b)
    return w, b

  def in_out(self, tree, d):
    do = d
    if self.stride == 2:
      do = d + 1 if self.kind.startswith('deconv') else d - 1
    return tree.layer(d).num(self.nempty), tree.layer(do).num(self.nempty), do

  def dense(self, tree, x, d):
    f = dense.deconv if self.kind.startswith('deconv') else dense.conv
    kw = {'groups': self.group} if self.group > 1 else {}
    out = f(tree, x, d, self.kernel, self.stride, self.nempty, self.w, **kw)
    if self.b is not None:
      add = self.b.expand(len(out), -1)
      if self.stride == 2 and not self.nempty and not self.kind.startswith('deconv'):
        add = add * torch.tensor(tree.layer(d - 1).nempty).unsqueeze(1)
      out = out + add
    return out


def layers_of(tree, kind, stride):
  return dense.conv_layers(tree, 'deconv' if kind.startswith('deconv') else 'conv',
                           stride)
