"""The random generator as an enumerated environment.

Draws(us) answers every uniform draw of torch from a given sequence of numbers
in [0, 1), whatever function asks for them; an exhausted sequence is an error
of the harness, so the number of draws is owned too.
"""

import torch
from torch.utils._python_dispatch import TorchDispatchMode


class Draws(TorchDispatchMode):

  def __init__(self, us, cycle=False):
    super().__init__()
    self.us, self.pos, self.cycle = list(us), 0, cycle
    self.calls = []

  def take(self, n):
    out = []
    for _ in range(n):
      if self.pos >= len(self.us):
        if not self.cycle:
          raise AssertionError('more random draws than enumerated')
        self.pos = 0
      out.append(self.us[self.pos])
      self.pos += 1
    return out

  def fill(self, t):
    u = torch.tensor(self.take(t.numel()), dtype=torch.float64)
    return u.view(t.shape)

  def __torch_dispatch__(self, func, types, args=(), kwargs=None):
    kwargs = kwargs or {}
    name = func.overloadpacket._qualified_op_name.split('::')[-1]
    if name in ('rand', 'rand_like'):
      kwargs.pop('generator', None)
      out = func(*args, **kwargs)
      self.calls.append((name, out.numel()))
      return out.copy_(self.fill(out))
    if name == 'uniform_':
      t = args[0]
      lo = args[1] if len(args) > 1 else kwargs.get('from', 0.0)
      hi = args[2] if len(args) > 2 else kwargs.get('to', 1.0)
      self.calls.append((name, t.numel()))
      return t.copy_(self.fill(t) * (hi - lo) + lo)
    if name in ('bernoulli', 'bernoulli_'):
      t = args[0]
      p = args[1] if len(args) > 1 else kwargs.get('p', None)
      if p is None:
        p = t
      self.calls.append((name, t.numel()))
      out = (self.fill(t) < (p.double() if isinstance(p, torch.Tensor) else p))
      if name == 'bernoulli_':
        return t.copy_(out)
      return out.to(t.dtype)
    if name == 'randint':
      # randint(high, size) or randint.low(low, high, size)
      lo, hi = (0, args[0]) if func._overloadname.startswith('default') or \
          func._overloadname == 'generator' else args[:2]
      kwargs.pop('generator', None)
      out = func(*args, **kwargs)
      self.calls.append((name, out.numel()))
      v = torch.floor(self.fill(out) * (hi - lo)) + lo
      return out.copy_(v)
    if name in ('randperm', 'randn', 'normal_', 'random_', 'randn_like',
                'randint_like', 'multinomial', 'exponential_', 'native_dropout'):
      raise AssertionError('random source that is not enumerated: ' + name)
    return func(*args, **kwargs)
