"""C01: shuffled keys are a bijection onto Morton order."""

import numpy as np
from mc import ref, shapes

ID = 'C01'
BOUNDS = ('every cell of depth 1-5 (6-7 thorough); at each depth 1-16 every value '
          'of each axis, and all triples of a bit-pattern alphabet (0, 2^i-1, 2^i, '
          '2^i+1, max, alternating); batch indices at every bit boundary below '
          '32768; dtypes int16/32/64/uint8, float32/64; scalar/tensor batch; '
          'strided, empty, 0-d broadcast layouts; all parent/child key pairs; all '
          'histories of 4 (5 thorough) of encode/decode at two depths, results '
          'overwritten, arguments updated in place; tensors on two devices')
ASSUMPTIONS = ['`meta` stands for a second device: only the shapes are there']

BATCH = sorted({0, 1, 2, 3, 7, 8, 127, 128, 255, 256, 1023, 1024, 4095, 4096,
                8191, 16383, 16384, 21845, 32766, 32767})


def alphabet(depth, tier):
  m = (1 << depth) - 1
  v = {0, 1, m, m - 1, m >> 1, (m >> 1) + 1, 0x5555 & m, 0xAAAA & m,
       0x00FF & m, 0x0F0F & m, 0x1C71 & m}
  for i in range(depth):
    v |= {1 << i}
    if tier == 'thorough' or i in (7, 8, 9):
      v |= {(1 << i) - 1, ((1 << i) + 1) & m, m ^ (1 << i)}
  return sorted(x for x in v if 0 <= x <= m)


def cases(tier):
  out = []
  for depth in range(1, 8 if tier == 'thorough' else 6):
    out.append({'kind': 'all', 'depth': depth})
  for depth in range(1, 17):
    for axis in range(3):
      out.append({'kind': 'axis', 'depth': depth, 'axis': axis})
    out.append({'kind': 'triples', 'depth': depth})
    out.append({'kind': 'batch', 'depth': depth})
    out.append({'kind': 'types', 'depth': depth})
    out.append({'kind': 'device', 'depth': depth})
  out.append({'kind': 'empty', 'depth': 8})
  for pair in ((1, 2), (8, 9), (16, 8), (16, 16), (5, 14), (3, 3)):
    out.append({'kind': 'history', 'depth': pair[0], 'other': pair[1]})
  return out


def run(case, ctx):
  depth, kind = case['depth'], case['kind']
  n = 1 << depth
  if kind == 'all':
    xyz = np.array(ref.unmorton(np.arange(n ** 3)))
    keys = _round(ctx, xyz, None, depth)
    ctx.equal(keys, np.arange(n ** 3), 'keys of all cells in Morton order')
    for b in (0, 1, 255, 32767):
      _round(ctx, xyz, np.full(len(xyz), b), depth)
  elif kind == 'axis':
    for base in (0, n - 1, 0x5555 & (n - 1)):
      xyz = np.full((n, 3), base)
      xyz[:, case['axis']] = np.arange(n)
      _round(ctx, xyz, None, depth)
      _round(ctx, xyz, np.arange(n) % 32768, depth)
  elif kind == 'triples':
    a = np.array(alphabet(depth, ctx.tier))
    xyz = np.stack([g.reshape(-1) for g in np.meshgrid(a, a, a, indexing='ij')], 1)
    _round(ctx, xyz, None, depth)
    b = np.array(BATCH)[np.arange(len(xyz)) % len(BATCH)]
    keys = _round(ctx, xyz, b, depth)
    # injective
    ctx.check(len(np.unique(keys)) == len(xyz),
              'two cells share a key at depth %d' % depth)
    _order(ctx, xyz, b, keys, depth)
    if depth > 1:
      up = _keys(xyz >> 1, b, depth - 1)
      low = (1 << 48) - 1
      ctx.equal((keys & low) >> 3, up & low, 'key of the enclosing cell')
      ctx.equal(keys >> 48, up >> 48, 'batch index of the enclosing cell')
  elif kind == 'batch':
    a = [0, n - 1, n // 2, min(255, n - 1), 0x5A5A & (n - 1)]
    a = sorted(set(a))
    for b in BATCH:
      xyz = np.array([[x, y, z] for x in a for y in a for z in a])
      _round(ctx, xyz, np.full(len(xyz), b), depth)
      _scalar(ctx, xyz, b, depth)
    allb = np.arange(32768)
    xyz = np.tile([[n - 1, 0, n // 2]], (32768, 1))
    _round(ctx, xyz, allb, depth)
  elif kind == 'types':
    _types(ctx, depth)
  elif kind == 'device':
    _device(ctx, depth)
  elif kind == 'history':
    _history(ctx, depth, case['other'])
  else:
    _empty(ctx)


def _t(x, dtype=None):
  import torch
  return torch.tensor(np.asarray(x), dtype=dtype or torch.int64)


def _keys(xyz, b, depth):
  from ocnn.octree import xyz2key
  bt = None if b is None else _t(b)
  x = [shapes.strided(_t(xyz[:, j]), len(xyz) + depth) for j in range(3)]
  k = xyz2key(*x, bt, depth)
  return k.numpy()


def _want(xyz, b):
  return ref.code(0 if b is None else b, xyz)


def _round(ctx, xyz, b, depth):
  from ocnn.octree import xyz2key, key2xyz
  keys = _keys(xyz, b, depth)
  ctx.equal(keys, _want(xyz, b), 'keys at depth %d' % depth)
  import torch
  x, y, z, bb = key2xyz(shapes.strided(torch.from_numpy(keys), len(keys)), depth)
  for name, got, want in zip('xyz', (x, y, z), xyz.T):
    ctx.equal(got, want, 'decoded %s at depth %d' % (name, depth))
  ctx.equal(bb, np.zeros(len(xyz)) if b is None else b,
            'decoded batch index at depth %d' % depth)
  # decode-encode
  again = xyz2key(x, y, z, bb, depth)
  ctx.equal(again, keys, 'keys encoded again at depth %d' % depth)
  ctx.trans(3 * len(xyz))
  ctx.trace()
  ctx.state(depth, keys)
  ctx.sample({'depth': depth, 'first': xyz[-1].tolist(), 'key': int(keys[-1])})
  return keys


def _scalar(ctx, xyz, b, depth):
  """ The batch index as a 0-d / one-element tensor broadcasts. """
  import torch
  from ocnn.octree import xyz2key
  args = (_t(xyz[:, 0]), _t(xyz[:, 1]), _t(xyz[:, 2]))
  got = xyz2key(*args, torch.tensor(b), depth)
  ctx.equal(got, _want(xyz, np.full(len(xyz), b)), 'keys with one batch index')
  got = xyz2key(*args, torch.tensor([float(b)]), depth)
  ctx.equal(got, _want(xyz, np.full(len(xyz), b)), 'keys with one batch index')
  got = xyz2key(*args, b, depth)
  ctx.equal(got, _want(xyz, np.full(len(xyz), b)), 'keys with an int batch index')
  ctx.trans(3 * len(xyz))


def _order(ctx, xyz, b, keys, depth):
  o = np.argsort(keys, kind='stable')
  rows = [(int(b[i]),) + tuple(
      (int(xyz[i][0]) >> k & 1, int(xyz[i][1]) >> k & 1, int(xyz[i][2]) >> k & 1)
      for k in range(depth - 1, -1, -1)) for i in o[::max(1, len(o) // 500)]]
  ctx.check(rows == sorted(rows), 'key order at depth %d' % depth)


def _device(ctx, depth):
  """ Coordinates and keys on another device; the second use and the first device. """
  import torch
  from ocnn.octree import xyz2key, key2xyz
  n = 1 << depth
  a = sorted({0, n - 1, n // 2, n // 3, min(n - 1, 255)})
  xyz = np.array([[x, y, z] for x in a for y in a for z in a])
  b = np.arange(len(xyz)) % 7
  want = _want(xyz, b)
  for device in ('meta', 'cpu', 'meta', 'cpu'):
    device = torch.device(device)
    cols = [_t(xyz[:, i]).to(device) for i in range(3)]
    key = xyz2key(*cols, _t(b).to(device), depth)
    back = key2xyz(_t(want).to(device), depth)
    for t, w, what in ((key, want, 'keys'),) + tuple(
            zip(back, tuple(xyz.T) + (b,), ('x', 'y', 'z', 'batch'))):
      ctx.check(t.device == device and t.shape == (len(xyz),),
                lambda: '%s at depth %d on %s' % (what, depth, device))
      if device.type == 'cpu':
        ctx.equal(t, w, lambda: '%s at depth %d on %s' % (what, depth, device))
    ctx.trans(2)
  ctx.trace()
  ctx.state('device', depth)


def _types(ctx, depth):
  import torch
  from ocnn.octree import xyz2key, key2xyz
  n = 1 << depth
  a = sorted({0, n - 1, n // 2, n // 3, min(n - 1, 255)})
  xyz = np.array([[x, y, z] for x in a for y in a for z in a])
  want = _want(xyz, None)
  b = np.arange(len(xyz)) % 7
  wantb = _want(xyz, b)
  dts = [torch.int32, torch.int64, torch.float32, torch.float64]
  if depth <= 15:
    dts.append(torch.int16)
  if depth <= 8:
    dts.append(torch.uint8)
  for dt in dts:
    cols = [_t(xyz[:, i], dt) for i in range(3)]
    keep = [c.clone() for c in cols]
    ctx.equal(xyz2key(*cols, depth=depth), want, 'keys from %s' % dt)
    for bt in (torch.int16, torch.int32, torch.float32):
      ctx.equal(xyz2key(*cols, _t(b, bt), depth), wantb,
                'keys from %s, batch %s' % (dt, bt))
    for c, k in zip(cols, keep):
      ctx.equal(c, k, 'argument modified')
    ctx.trans(4 * len(xyz))
  # fractional coordinates belong to the enclosing cell
  for dt in (torch.float32, torch.float64):
    for f in (0.0, 0.25, 0.5, 0.75, 0.984375):
      cols = [_t(xyz[:, i] + f, dt) for i in range(3)]
      ctx.equal(xyz2key(*cols, _t(b), depth), wantb, 'keys of cell + %s' % f)
      ctx.trans(len(xyz))
  # strided, expanded, 2-d layouts
  m = _t(xyz)
  ctx.equal(xyz2key(m[:, 0], m[:, 1], m[:, 2], depth=depth), want, 'strided')
  f = m.flip(0)
  ctx.equal(xyz2key(f[:, 0], f[:, 1], f[:, 2], depth=depth), want[::-1], 'flipped')
  sq = m[:len(m) // 2 * 2].view(2, -1, 3)
  got = xyz2key(sq[..., 0], sq[..., 1], sq[..., 2], depth=depth)
  ctx.equal(got.reshape(-1), want[:len(m) // 2 * 2], '2-d arguments')
  x, y, z, bb = key2xyz(got, depth)
  ctx.equal(torch.stack([x, y, z], -1), sq, 'decoded 2-d')
  kk = torch.from_numpy(np.repeat(wantb, 2))[::2]
  x, y, z, bb = key2xyz(kk, depth)
  ctx.equal(torch.stack([x, y, z], -1), xyz, 'decoded strided')
  ctx.equal(bb, b, 'decoded strided batch')
  keep = kk.clone()
  key2xyz(kk, depth)
  ctx.equal(kk, keep, 'key argument modified')
  # default depth is the deepest one
  if depth == 16:
    ctx.equal(xyz2key(m[:, 0], m[:, 1], m[:, 2]), want, 'default depth')
    x, y, z, _ = key2xyz(torch.from_numpy(want))
    ctx.equal(torch.stack([x, y, z], -1), xyz, 'default depth decoded')
  ctx.trans(8 * len(xyz))
  ctx.trace()
  ctx.state('types', depth)


def _history(ctx, d1, d2):
  """ All sequences of calls on the same tensors: a result never depends on calls
  before, nor on what happened to their results and arguments. """
  import itertools
  import torch
  from ocnn.octree import xyz2key, key2xyz
  m = min(d1, d2)
  n = 1 << m
  a = sorted({0, n - 1, n // 3, n // 2})
  base = np.array([[x, y, z] for x in a for y in a for z in a])[::3]
  worlds = []
  for flip in (False, True):
    xyz = (n - 1 - base) if flip else base
    b = np.arange(len(xyz)) * 37 % 32768 + (5 if flip else 0)
    worlds.append((xyz, b, _want(xyz, b)))
  actions = ('enc', 'enc2', 'dec', 'dec2', 'overwrite', 'update')
  for seq in itertools.product(actions, repeat=5 if ctx.tier == 'thorough' else 4):
    cols = [_t(worlds[0][0][:, i]) for i in range(3)] + [_t(worlds[0][1])]
    key = _t(worlds[0][2])
    cur, last = 0, []
    for k, act in enumerate(seq):
      xyz, b, want = worlds[cur]
      if act == 'overwrite':
        for t in last:
          t.fill_(77)
      elif act == 'update':
        cur = 1 - cur
        xyz, b, want = worlds[cur]
        for i in range(3):
          cols[i].copy_(_t(xyz[:, i]))
        cols[3].copy_(_t(b))
        key.copy_(_t(want))
      elif act.startswith('enc'):
        got = xyz2key(*cols, d2 if act.endswith('2') else d1)
        ctx.check(np.array_equal(got.numpy(), want),
                  lambda: 'depths %d, %d: wrong keys after %s' % (d1, d2, seq[:k + 1]))
        last = [got]
      else:
        got = key2xyz(key, d2 if act.endswith('2') else d1)
        ok = all(np.array_equal(g.numpy(), w)
                 for g, w in zip(got, list(xyz.T) + [b]))
        ctx.check(ok, lambda: 'depths %d, %d: wrong cells after %s' % (
            d1, d2, seq[:k + 1]))
        last = list(got)
      ctx.trans()
    ctx.trace()
    ctx.state(d1, d2, seq)


def _empty(ctx):
  import torch
  from ocnn.octree import xyz2key, key2xyz
  e = torch.zeros(0, dtype=torch.long)
  for depth in range(1, 17):
    k = xyz2key(e, e, e, e, depth)
    ctx.equal(k, np.zeros(0, np.int64), 'no cell')
    for v in key2xyz(k, depth):
      ctx.equal(v, np.zeros(0, np.int64), 'no key')
    ctx.trans(2)
    ctx.state('empty', depth)
