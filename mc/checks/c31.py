"""C31: index utilities match their mathematical definition."""

import itertools
import numpy as np
from mc import ref

ID = 'C31'
TECHNIQUE = ('exhaustive enumeration of small inputs on the real functions against '
             'loop-by-loop definitions')
BOUNDS = ('scatter_add: shapes up to 3 dimensions of size 0-3 (some 4), some of 4 and 5 dimensions, every dimension, '
          'every 1-D index over 4 targets, element-wise indices over 2-3 targets, output '
          'by size / larger size / default / existing, 6 data types, gradients, '
          'non-contiguous and expanded inputs; cumsum: the same shapes; trunc_div: all '
          'pairs in -9..9 and halves, 6 data types; grids in -3..4; lists up to 5 '
          '(thorough: sizes up to 4)')
ASSUMPTIONS = ['integer cumulative sums have the type torch.cumsum documents (int64)']

FLOATS = ('float32', 'float64')
TYPES = ('float32', 'float64', 'int64', 'int32', 'int16', 'float16')


def shapes(tier):
  hi = 3 if tier == 'quick' else 4
  out = [(n,) for n in range(hi + 2)]
  out += list(itertools.product(range(hi + 1), repeat=2))
  out += list(itertools.product((1, 2, 3), (1, 2, 3), (1, 2)))
  out += [(2, 1, 2, 2), (1, 2, 3, 2), (1, 2, 2, 1, 2)]
  out += [(0, 2, 1), (2, 0, 2), (3, 2, 0), (2, 3, 4), (1, 1, 5)]
  return out


def cases(tier):
  out = []
  for s in shapes(tier):
    for d in range(len(s)):
      out.append({'kind': 'scatter', 'shape': list(s), 'dim': d})
    out.append({'kind': 'cumsum', 'shape': list(s)})
  out += [{'kind': k} for k in ('div', 'grid', 'lists', 'example', 'large')]
  return out


def run(case, ctx):
  globals()[case['kind']](case, ctx)


def data(shape, dtype, salt=0):
  import torch
  n = int(np.prod(shape))
  return torch.tensor(ref.idata(max(n, 1), 1, salt, -5, 5)[:n, 0].reshape(shape)).to(
      getattr(torch, dtype))


def define(src, index, dim, size, start=None):
  """ out[.., index, ..] += src, element by element. """
  shape = list(src.shape)
  shape[dim] = size
  out = np.zeros(shape, src.dtype) if start is None else start.copy()
  for pos in np.ndindex(*src.shape):
    to = list(pos)
    to[dim] = int(index[pos] if index.ndim > 1 or src.ndim == 1 else index[pos[dim]])
    out[tuple(to)] += src[pos]
  return out


def scatter(case, ctx):
  import torch
  from ocnn.utils import scatter_add
  shape, dim = case['shape'], case['dim']
  n = shape[dim]
  one = list(itertools.product(range(4 if n <= 3 else 2), repeat=n))
  idx = [np.array(i, np.int64).reshape(n) for i in one]
  full = []
  tot = int(np.prod(shape))
  if len(shape) > 1 and tot <= 6:
    t = 3 if tot <= 4 else 2
    full = [np.array(i, np.int64).reshape(shape)
            for i in itertools.product(range(t), repeat=tot)]
  for k, index in enumerate(idx + full):
    big = int(index.max()) + 1 if index.size else 0
    for dtype in TYPES if k % 7 == 0 else TYPES[:1]:
      src = data(shape, dtype, k)
      src0, ind = src.clone(), torch.from_numpy(index.copy())
      ref_src = src.numpy()
      for d in (dim, dim - len(shape)):
        w = lambda: 'scatter_add %s %s, index %s, dim %d: ' % (
            shape, dtype, index.tolist(), d)
        # default size
        out = scatter_add(src, ind, d)
        want = define(ref_src, index, dim, big)
        if tot or not index.size:
          ctx.equal(out, want, w() + 'default size', dtype=True)
        for size in (big, big + 2):
          out = scatter_add(src, ind, d, dim_size=size)
          ctx.equal(out, define(ref_src, index, dim, size), w() + 'size %d' % size,
                    dtype=True)
        # existing output
        oshape = list(shape)
        oshape[dim] = big + 1
        start = data(oshape, dtype, 5)
        s0 = start.numpy().copy()
        out = scatter_add(src, ind, d, out=start)
        want = define(ref_src, index, dim, big + 1, s0)
        ctx.equal(out, want, w() + 'existing output', dtype=True)
        ctx.equal(start, want, w() + 'explicit output holds the result', dtype=True)
        ctx.trans(4)
      ctx.equal(src, src0, w() + 'source unchanged', dtype=True)
      ctx.equal(ind, index, w() + 'index unchanged', dtype=True)
      ctx.state(shape, dim, index, dtype)
      ctx.outcome(want)
    if k % 5 == 0:
      grads(ctx, shape, dim, index, big, w)
  ctx.trace()
  ctx.sample({'scatter_add': shape, 'dim': dim, 'indices': len(idx) + len(full)})


def grads(ctx, shape, dim, index, big, w):
  import torch
  from ocnn.utils import scatter_add
  ind = torch.from_numpy(index)
  for dtype in FLOATS:
    src = data(shape, dtype, 1).requires_grad_()
    out = scatter_add(src, ind, dim, dim_size=big + 1)
    g = data(out.shape, dtype, 9)
    gs, = torch.autograd.grad([out], [src], [g])
    want = np.zeros(shape)
    gn = g.numpy()
    for pos in np.ndindex(*shape):
      to = list(pos)
      to[dim] = int(index[pos] if index.ndim > 1 or len(shape) == 1 else index[pos[dim]])
      want[pos] = gn[tuple(to)]
    ctx.equal(gs, want.astype(gn.dtype), w() + 'gradient', dtype=True)
  # views: transposed, strided and expanded sources
  base = data([2 * s for s in shape], 'float32', 3)
  view = base[tuple(slice(None, None, 2) for _ in shape)]
  ctx.equal(scatter_add(view, ind, dim, dim_size=big),
            define(view.numpy().copy(), index, dim, big), w() + 'strided source')
  if len(shape) == 2:
    t = data(shape[::-1], 'float32', 4).t()
    ctx.equal(scatter_add(t, ind, dim, dim_size=big),
              define(t.numpy().copy(), index, dim, big), w() + 'transposed source')
    e = data([1, shape[1]], 'float32', 4).expand(shape)
    ctx.equal(scatter_add(e, ind, dim, dim_size=big),
              define(e.numpy().copy(), index, dim, big), w() + 'expanded source')


def cumsum(case, ctx):
  import torch
  from ocnn.utils import cumsum as f
  shape = case['shape']
  for dtype in TYPES:
    for dim in range(len(shape)):
      for d in (dim, dim - len(shape)):
        for salt in range(3):
          x = data(shape, dtype, salt)
          x0 = x.clone()
          w = 'cumsum %s %s, dim %d: ' % (shape, dtype, d)
          kind = x.numpy().dtype if dtype.startswith('f') else np.dtype('int64')
          want = np.zeros(shape, kind)
          wide = list(shape)
          wide[dim] += 1
          excl = np.zeros(wide, kind)
          xm = x.numpy()
          for pos in np.ndindex(*shape):
            head = list(pos)
            head[dim] = slice(0, pos[dim] + 1)
            want[pos] = xm[tuple(head)].sum()
            to = list(pos)
            to[dim] += 1
            excl[tuple(to)] = want[pos]
          ctx.equal(f(x, d), want, w + 'inclusive', dtype=True)
          ctx.equal(f(x, d, False), want, w + 'inclusive', dtype=True)
          ctx.equal(f(x, d, exclusive=True), excl, w + 'exclusive', dtype=True)
          ctx.equal(x, x0, w + 'argument unchanged', dtype=True)
          ctx.trans(3)
          ctx.state(shape, dtype, d, salt)
          ctx.outcome(excl)
          if dtype in FLOATS and x.numel():
            for ex in (False, True):
              v = data(shape, dtype, salt).requires_grad_()
              y = f(v, d, ex)
              g = data(y.shape, dtype, 4)
              gs, = torch.autograd.grad([y], [v], [g])
              gw = np.zeros(shape)
              gn = g.numpy()
              for pos in np.ndindex(*shape):
                tail = list(pos)
                tail[dim] = slice(pos[dim] + (1 if ex else 0), None)
                gw[pos] = gn[tuple(tail)].sum()
              ctx.equal(gs, gw.astype(gn.dtype), w + 'gradient', dtype=True)
  ctx.trace()


def div(case, ctx):
  import torch
  import math
  from ocnn.utils import trunc_div
  for dtype in ('int64', 'int32', 'int16', 'float32', 'float64', 'uint8'):
    t = getattr(torch, dtype)
    vals = list(range(0, 10)) if dtype == 'uint8' else list(range(-9, 10))
    if dtype.startswith('f'):
      vals = [v / 2 for v in range(-19, 20)]
    for b in vals:
      if b == 0:
        continue
      a = torch.tensor(vals, dtype=t)
      a0 = a.clone()
      want = np.array([math.trunc(v / b) for v in vals])
      for other in (b, torch.tensor(b, dtype=t), torch.tensor([b] * len(vals), dtype=t)):
        out = trunc_div(a, other)
        ctx.equal(out, want, '%s %s / %s' % (dtype, vals, b))
        ctx.check(out.dtype == t, lambda: 'type of %s division: %s' % (dtype, out.dtype))
        ctx.trans()
        ctx.state(dtype, b)
      ctx.equal(a, a0, 'dividend unchanged')
      ctx.outcome(want)
  # large integers stay exact
  big = torch.tensor([2**62 + 1, -2**62 - 1, 2**53 + 1, (5 << 48) + 7])
  ctx.equal(trunc_div(big, 1), big, 'large integers')
  ctx.equal(trunc_div(big, 2), [2**61, -2**61, 2**52, (5 << 47) + 3], 'large integers')
  ctx.trace()


def grid(case, ctx):
  from ocnn.utils import range_grid, meshgrid
  import torch
  for lo in range(-3, 4):
    for hi in range(lo - 1, min(lo + 5, 5)):
      g = range_grid(lo, hi)
      want = np.array(list(itertools.product(range(lo, hi + 1), repeat=3)),
                      dtype=np.int64).reshape(-1, 3)
      ctx.equal(g, want, 'range_grid(%d, %d)' % (lo, hi), dtype=True)
      ctx.trans()
      ctx.state(lo, hi)
      ctx.outcome(want)
  for ns in itertools.product((1, 2, 3), repeat=3):
    for k in (1, 2, 3):
      for dtype in ('int64', 'float32'):
        ts = [data([n], dtype, i) for i, n in enumerate(ns[:k])]
        for ind in ('ij', 'xy'):
          got = meshgrid(*ts, indexing=ind)
          want = np.meshgrid(*[t.numpy() for t in ts], indexing=ind)
          ctx.check(len(got) == k, 'number of grids')
          for a, b in zip(got, want):
            ctx.equal(a, b, 'meshgrid %s %s' % (ns[:k], ind), dtype=True)
          ctx.trans()
          ctx.state('mesh', ns[:k], dtype, ind)
  ctx.trace()


def lists(case, ctx):
  from ocnn.utils import resize_with_last_val, list2str
  for n in range(1, 6):
    for vals in itertools.product((1, 2, 3), repeat=n):
      for num in (None, 1, 2, 3, 4, 5, 6):
        a = list(vals)
        m = 3 if num is None else num
        call = lambda: (resize_with_last_val(a) if num is None else
                        resize_with_last_val(a, num))
        if n > m:
          ctx.raises(call, 'a list of %d resized to %d' % (n, m))
          continue
        out = call()
        want = list(vals) + [vals[-1]] * (m - n)
        ctx.check(out == want and type(out) is list,
                  lambda: 'resize %s to %d: %s' % (vals, m, out))
        ctx.check(a == list(vals), lambda: 'argument %s changed to %s' % (vals, a))
        out[0] = 99
        out.append(98)
        ctx.check(a == list(vals), 'the result shares the argument')
        again = call()
        ctx.check(again == want, lambda: 'second call gives %s' % again)
        ctx.trans()
        ctx.outcome(want)
      a = list(vals)
      ctx.check(list2str(a) == ''.join('%d' % v for v in vals) and a == list(vals),
                lambda: 'list2str(%s)' % (vals,))
      ctx.state(vals)
  for a in ([], ['x', 1], [10, 2, 3]):
    ctx.check(list2str(a) == ''.join(map(str, a)), 'list2str')
  ctx.trace()


def example(case, ctx):
  """ The example octree is the octree of its documented points. """
  from ocnn.utils import build_example_octree
  from mc import oct
  pts = np.array([[-1, -1, -1], [0, 0, -1], [0.0625, 0.0625, -1]])
  nrm = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0.]])
  fea = np.array([[1, -1], [2, -2], [3, -3.]])
  for depth in range(1, 7):
    for full in range(0, depth + 1):
      for n in (1, 2, 3):
        o = build_example_octree(depth, full, n)
        cell = np.floor((pts[:n] + 1) * 2.0 ** (depth - 1)).astype(int)
        tree = ref.tree_from_leaves([cell.tolist()], depth, full)
        oct.check_structure(ctx, o, tree)
        lay = tree.layer(depth)
        _, xyz = lay.nodes(True)
        for r, c in enumerate(xyz):
          m = np.all(cell == c, axis=1)
          v = nrm[:n][m].mean(0)
          v = v / np.linalg.norm(v) if np.linalg.norm(v) > 0 else v
          ctx.close(o.normals[depth][r], v, 'example normals', 1e-4)
          ctx.close(o.features[depth][r], fea[:n][m].mean(0), 'example features', 1e-4)
        ctx.state(depth, full, n)
        ctx.outcome(tree.layer(depth).nnum, n)
  ctx.raises(lambda: build_example_octree(5, 2, 4), 'four example points')
  ctx.raises(lambda: build_example_octree(5, 2, 0), 'no example points')
  ctx.trace()


def large(case, ctx):
  """ Sizes at and around vector and block boundaries. """
  import torch
  from ocnn.utils import scatter_add, cumsum as f
  for n in (15, 16, 17, 31, 33, 63, 64, 65, 127, 129, 255, 256, 257, 1023, 1025, 4097):
    for c in (1, 3, 8, 17):
      src = data([n, c], 'float32', n)
      for m in (1, 2, n // 2 + 1, n):
        index = torch.from_numpy(ref.idata(n, 1, m, 0, m - 1)[:, 0].astype(np.int64))
        want = np.zeros((m, c), 'f4')
        np.add.at(want, index.numpy(), src.numpy())
        ctx.equal(scatter_add(src, index, 0, dim_size=m), want,
                  'scatter_add %d rows to %d' % (n, m), dtype=True)
        ctx.trans()
        ctx.state(n, c, m)
      ex = np.concatenate([np.zeros((1, c)), np.cumsum(src.numpy(), 0)], 0)
      ctx.equal(f(src, 0, True), ex, 'cumsum %d' % n)
  ctx.trace()
