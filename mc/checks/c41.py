"""C41: convolutions never need more working memory than configured."""

from mc import ref, shapes, dense, layers

ID = 'C41'
TECHNIQUE = ('exhaustive exploration of all buffer limits of the real layers with a monitor '
             'on every tensor that is created, forward and backward')
BOUNDS = ('convolutions, deconvolutions, depthwise convolutions x 8 kernels x 2 strides x 2 '
          'node modes x layers of 8 octrees; every limit of r rows and r rows plus a '
          'remainder for r = 1 .. number of rows + 1 (40 values of r at most in the quick '
          'tier); with and without bias, all subsets of the gradients, float32, float64 and '
          'autocast')
ASSUMPTIONS = ['the working memory is the size of the largest floating-point storage that '
               'is created; features, outputs, parameters and their gradients themselves '
               'do not count',
               'layers with direct_method are documented to need more']
CASE_LIMIT = 300

SHAPES = [
    ([[[0, 0, 0], [1, 1, 0], [3, 3, 3]]], 2, 1),
    ([[[0, 1, 2]], [], [[0, 0, 0], [0, 0, 1], [3, 0, 0]]], 2, 1),
    ([[[3, 3, 3], [0, 0, 0], [1, 2, 3], [3, 0, 1], [2, 2, 1]]], 2, 2),
    ([[[7, 7, 7], [0, 0, 0], [4, 3, 4]]], 3, 1),
    ([shapes.subset([1, 1, 1], 0xB7) + shapes.subset([0, 1, 1], 0x5D)], 2, 1),
    ([[], [[6, 1, 7]], [[0, 7, 0], [0, 7, 1]], []], 3, 1),
    ([[[9, 9, 9], [9, 9, 8], [0, 15, 3]]], 4, 2),
    ([shapes.named(3)['board']], 3, 2),
]
KINDS = ('conv', 'deconv', 'dwconv')


def cases(tier):
  out = []
  for s, (leaves, depth, full) in enumerate(SHAPES):
    for kind in KINDS:
      for k, kernel in enumerate(ref.KERNELS):
        if tier == 'quick' and (s + k) % 2 and kernel not in ('333', '222'):
          continue
        out.append({'fam': 'leaves', 'leaves': leaves, 'depth': depth, 'full': full,
                    'build': 'batch', 'layer': kind, 'kernel': kernel, 'salt': s + k})
  return out


class Monitor:
  """ The largest new floating-point storage, in elements. """

  def __init__(self, known):
    import torch
    from torch.utils._python_dispatch import TorchDispatchMode
    from torch.utils._pytree import tree_iter
    me = self
    me.most, me.who = 0, ''
    known = {x.untyped_storage().data_ptr() for x in known}

    class Mode(TorchDispatchMode):
      def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        for x in tree_iter(out):
          if isinstance(x, torch.Tensor) and x.is_floating_point():
            n = x.untyped_storage().nbytes() // x.element_size()
            if n > me.most and x.untyped_storage().data_ptr() not in known:
              me.most, me.who = n, str(func)
        return out
    self.mode = Mode()

  def __enter__(self):
    self.mode.__enter__()
    return self

  def __exit__(self, *a):
    self.mode.__exit__(*a)


def rows_list(rows, tier):
  every = list(range(1, rows + 2))
  if tier == 'thorough' or rows <= 24:
    return every
  keep = set(range(1, 10)) | {rows - 1, rows, rows + 1, rows // 2, rows // 2 + 1,
                              (rows + 2) // 3, rows // 3, rows // 4}
  steps = {}
  for r in every:
    steps.setdefault(-(-rows // r), r)
  keep |= set(list(steps.values())[:24])
  return sorted(r for r in keep if r >= 1)


def run(case, ctx):
  import torch
  octree, tree = shapes.build(case)
  kind, kernel = case['layer'], case['kernel']
  k = len(ref.offsets(kernel))
  i = case['salt']
  for stride in (1, 2):
    for d in layers.layers_of(tree, kind, stride):
      if tree.layer(d).nnum < 8 and d:
        continue
      for nempty in (False, True):
        i += 1
        cin, cout = ((1, 1), (3, 1), (1, 2), (2, 3))[i % 4]
        if kind == 'dwconv':
          cin = cout = 1 + i % 3
        per = k * (cout if kind == 'deconv' else cin)
        dn = d + 1 if kind == 'deconv' and stride == 2 else d
        rows = len(tree.neigh(dn, kernel, stride, nempty))
        for r in rows_list(rows, ctx.tier):
          for rem in ((0, per // 2, per - 1) if r % 3 == 1 and per > 1 else (0,)):
            i += 1
            one(ctx, octree, tree, kind, kernel, stride, nempty, d, cin, cout, rows,
                r * per + rem, per, i)
  ctx.trace()
  ctx.sample({'layer': kind, 'kernel': kernel})


def one(ctx, octree, tree, kind, kernel, stride, nempty, d, cin, cout, rows, limit, per, i):
  import torch
  dt = torch.float64 if i % 3 == 0 else torch.float32
  cast = i % 5 == 2
  t = layers.Twin(kind, cin, cout, kernel, stride, nempty, i % 2 == 0, i, dt,
                  max_buffer=limit)
  n, m, do = t.in_out(tree, d)
  x = torch.ones(n, t.cin, dtype=dt).requires_grad_(i % 4 != 1)
  t.need(i % 4 != 2, i % 7 != 3)
  # the output of strided layers is padded to all nodes
  size = max(m, tree.layer(do).nnum_nempty) * t.cout
  free = max(x.numel(), size, t.w.numel())
  what = lambda: '%s of layer %d, kernel %s, stride %d, nempty=%s, channels %d-%d, %s%s' % (
      kind, d, kernel, stride, nempty, t.cin, t.cout, dt, ', autocast' if cast else '')
  bound = max(limit, free)
  with torch.autocast('cpu', torch.bfloat16, enabled=cast):
    with Monitor([x] + [p for p in t.layer.parameters()]) as mon:
      y = t.layer(x, octree, d)
  ctx.check(mon.most <= bound, lambda: '%s with a buffer of %d elements: %d elements in %s' %
            (what(), limit, mon.most, mon.who))
  seen = mon.most
  if y.requires_grad:
    g = torch.ones_like(y)
    with Monitor([g]) as mon:
      y.backward(g)
    ctx.check(mon.most <= bound, lambda: '%s with a buffer of %d elements, backward: %d '
              'elements in %s' % (what(), limit, mon.most, mon.who))
  if limit < rows * per:
    ctx.note('in_pieces')
    if free < limit:
      ctx.note('tight')       # the limit decides
  ctx.trans()
  ctx.state(kind, kernel, stride, nempty, d, rows, limit)
  ctx.outcome(limit // per, seen // per)
