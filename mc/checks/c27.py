"""C27: operations leave their inputs unchanged and do not depend on history."""

import itertools
import numpy as np
from mc import ref, shapes, oct, ops
from mc.checks import c07

ID = 'C27'
TECHNIQUE = ('exhaustive exploration of operation histories on shared objects of the '
             'real library, each step compared with the same operation executed alone in '
             'a fresh process, shared state compared after every step')
BOUNDS = ('62 operations over two octrees, clouds and 32 modules: all ordered pairs, all '
          'triples (a, b, a) and (a, a, b), all triples over 24 operations (thorough: all '
          'triples); all interleavings of forward and backward passes of one layer on '
          '2-3 inputs for 20 layers; operations across different instances; all histories '
          'of three gradient modes (recording, no_grad, inference_mode, plain inputs) per '
          'operation; overwritten results and in-place updated inputs before every '
          'operation; octrees changed in place by all sequences of 3 growth steps '
          '(thorough: 4) with all queries after every step')
ASSUMPTIONS = ['stochastic operations get their draws from the harness',
               'modules are in evaluation mode (running statistics are documented state)']
CASE_LIMIT = 400

CORE = ['build A', 'merge', 'grow', 'neigh A', 'search', 'features', 'export', 'collate',
        'conv A', 'convb', 'direct', 'buffer', 'deconv', 'deconvn', 'dw A', 'dw B',
        'unpool', 'avgpool', 'interp A', 'gnorm A', 'drop A', 'points', 'construct',
        'align']
LAYERS = ['conv', 'convb', 'conv2', 'conv32', 'direct', 'buffer', 'deconv', 'deconvn',
          'ddirect', 'dw', 'dw2', 'group', 'maxpool', 'avgpool', 'interp', 'gnorm',
          'inorm', 'cbr', 'res', 'blocks']


def cases(tier):
  # round robin over the alphabetical list: slow operations are spread
  out = [{'kind': 'pairs', 'ops': ops.NAMES[i::16]} for i in range(16)]
  out += [{'kind': 'passes', 'layer': l} for l in LAYERS]
  out += [{'kind': 'touch', 'ops': ops.NAMES[i::8]} for i in range(8)]
  out += [{'kind': 'infer', 'ops': ops.NAMES[i::8]} for i in range(8)]
  n = len(c07.alphabet())
  out += [{'kind': 'evolve', 'first': a, 'batch': b, 'steps': 3 + (tier == 'thorough')}
          for a in range(n) for b in (1, 2)]
  out += [{'kind': 'evolve', 'first': a, 'batch': 2, 'steps': 3 + (tier == 'thorough'),
           'base': 'merge'} for a in range(n)]
  return out


def run(case, ctx):
  globals()[case['kind']](case, ctx)


def touch(case, ctx):
  """ Results overwritten by their owner, and inputs updated in place (an optimiser
  step, new points in the same buffer) between operations. """
  want = ops.alone(ops.NAMES)
  changed = ops.alone(ops.NAMES, change=ops.update)
  for a in case['ops']:
    env = ops.Env()
    env.freeze()
    ops.scribble(env, ops.OPS[a](env))
    for b in [a] + ops.NAMES:
      what = 'operation %s after the result of %s was overwritten' % (b, a)
      got = ops.OPS[b](env)
      w = ops.agree(ops.result(got), want[b])
      ctx.check(w is None, lambda: '%s: %s' % (what, w))
      if env.changed():
        blame(ctx, env, what)
      ctx.trans()
    for mode in ('grad', 'nograd'):
      env = ops.Env()
      ops.run_in(env, a, mode)
      ops.update(env)
      for k, b in enumerate([a] + ops.NAMES + [a]):
        if k == 1 + len(ops.NAMES):
          ops.update(env)
        expect = want[b] if k == 1 + len(ops.NAMES) else changed[b]
        w = ops.agree(ops.result(ops.OPS[b](env)), expect)
        ctx.check(w is None, lambda: 'operation %s after %s (%s) and an in-place update '
                  'of the inputs: %s' % (b, a, mode, w))
        ctx.trans()
    ctx.trace(3)
    ctx.state('touch', a)


MODES = ('grad', 'nograd', 'inference', 'plain')


def infer(case, ctx):
  """ Operations with and without gradient recording, in all orders. """
  want = ops.alone(case['ops'])
  for name in case['ops']:
    env = ops.Env()
    env.freeze()
    for n, seq in enumerate(itertools.product(MODES, repeat=3)):
      for k, mode in enumerate(seq):
        what = 'operation %s (%s) after %s' % (name, mode, list(seq[:k]))
        got = ops.result(ops.run_in(env, name, mode))
        w = want[name]
        if isinstance(w, list) and len(got) < len(w) and mode != 'grad':
          w = w[:len(got)]
        w = ops.agree(got, w)
        ctx.check(w is None, lambda: '%s: %s' % (what, w))
        if env.changed():
          blame(ctx, env, what)
        ctx.trans()
      ctx.trace()
      ctx.state(name, seq)
    training(name, ctx)


def training(name, ctx):
  """ In training mode the recording does not matter, inputs stay as they are. """
  outs = []
  for mode in MODES:
    env = ops.Env()
    for m in env.m.values():
      m.train()
    before = ops.result([env.x[k] for k in sorted(env.x)])
    got = ops.result(ops.run_in(env, name, mode))
    w = ops.agree(ops.result([env.x[k] for k in sorted(env.x)]), before, 0)
    ctx.check(w is None, lambda: 'operation %s (%s, training) changes its input: %s' % (
        name, mode, w))
    outs.append(got)
    w = outs[0]
    if isinstance(w, list) and len(got) < len(w):
      w = w[:len(got)]
    w = ops.agree(got, w)
    ctx.check(w is None, lambda: 'operation %s (%s, training): %s' % (name, mode, w))
    ctx.trans()


def battery(o, tree, mods, salt):
  """ Queries and layers on all usable layers of an octree. """
  import torch
  import ocnn
  out = []
  for d in range(1, len(tree.layers)):
    for ne in (False, True):
      out += [o.key(d, ne), *o.xyzb(d, ne), o.batch_id(d, ne)]
      q = torch.stack([v.float() for v in tree_points(tree, d)], dim=1)
      out.append(o.search_xyzb(q, d, ne))
      for kernel in ref.KERNELS:
        for stride in (1, 2):
          out.append(o.get_neigh(d, kernel, stride, ne))
      n = int(o.nnum_nempty[d] if ne else o.nnum[d])
      x = ops.tens(n, 2, d + salt, grad=False)
      with torch.no_grad():
        for key in (('conv', ne), ('conv2', ne), ('dw', ne), ('norm', ne)):
          out.append(mods[key](x, o, d))
        if d + 1 < len(tree.layers):
          out.append(mods['deconv', ne](x, o, d))
        out.append(mods['avg', ne](x, o, d))
        out.append(mods['global', ne](x, o, d))
        if not ne:
          out.append(mods['max', ne](x, o, d))
        out.append(mods['interp', ne](x, o, d, torch.cat(
            [q[:4, :3] / 2 ** (d - 1) - 1 + 0.25 / 2 ** d, q[:4, 3:]], dim=1)))
        out.append(mods['linear', ne](x, o, d, torch.cat(
            [q[:4, :3] / 2 ** (d - 1) - 1 + 0.75 / 2 ** d, q[:4, 3:]], dim=1)))
        out.append(ocnn.nn.octree2voxel(x, o, d, ne))
        if ne:
          out.append(ocnn.nn.octree_pad(x, o, d))
        else:
          out.append(ocnn.nn.octree_depad(x, o, d))
  return out


def tree_points(tree, d):
  import torch
  lay = tree.layer(d)
  b, xyz = lay.nodes(False)
  # nodes, and the cells next to them
  r = torch.tensor(np.concatenate([xyz[:6], (xyz[-6:] + 1) % 2 ** d], 0))
  bb = torch.tensor(np.concatenate([b[:6], b[-6:]], 0))
  return r[:, 0], r[:, 1], r[:, 2], bb


def evolve_modules():
  import torch
  import ocnn
  n = ocnn.nn
  torch.manual_seed(5)
  out = {}
  for ne in (False, True):
    out['conv', ne] = n.OctreeConv(2, 2, [3], 1, ne)
    out['conv2', ne] = n.OctreeConv(2, 2, [2], 2, ne)
    out['deconv', ne] = n.OctreeDeconv(2, 2, [2], 2, ne)
    out['dw', ne] = n.OctreeDWConv(2, [3], 1, ne)
    out['norm', ne] = n.OctreeInstanceNorm(2, ne)
    out['avg', ne] = n.OctreeAvgPool([2], 2, ne)
    out['global', ne] = n.OctreeGlobalPool(ne)
    out['max', ne] = n.OctreeMaxPool(ne)
    out['interp', ne] = n.OctreeInterp('nearest', ne)
    out['linear', ne] = n.OctreeInterp('linear', ne)
  return out


def evolve(case, ctx):
  """ One octree changed in place, queried after every change; the answers are those
  of a new octree of the same structure. """
  alphabet = c07.alphabet()
  mods = evolve_modules()
  fresh = {}

  def start():
    return c07.start(case.get('base', 'init'), 3, 1, case['batch'])

  def want(seq):
    if seq not in fresh:
      o, t = start()
      ok = all(c07.step(o, t, alphabet[a], 0) for a in seq)
      ok = ok and t.layers[-1].nnum <= 300
      fresh[seq] = ops.result(battery(c07.regrown(t), t, evolve_modules(), 0)) \
          if ok else None
    return fresh[seq]

  def visit(seq):
    nxt = [seq + (a,) for a in range(len(alphabet))] if len(seq) < case['steps'] else []
    nxt = [s for s in nxt if want(s) is not None]
    for s in nxt:
      visit(s)
    if nxt:
      return                 # checked as a prefix
    o, t = start()
    for k, a in enumerate(seq):
      c07.step(o, t, alphabet[a], 0)
      w = ops.agree(ops.result(battery(o, t, mods, 0)), want(seq[:k + 1]))
      ctx.check(w is None, lambda: 'queries after the changes %s differ from those of a '
                'new octree: %s' % (
                    [alphabet[j] for j in seq[:k + 1]], w))
      ctx.trans()
    ctx.trace()
    ctx.state(seq, case['batch'])

  if want((case['first'],)) is not None:
    visit((case['first'],))


def pairs(case, ctx):
  want = ops.alone(ops.NAMES)
  for a in case['ops']:
    histories(a, want, ctx)
  for n in want:
    ctx.outcome(n, want[n])


def histories(a, want, ctx):
  seqs = []
  for b in ops.NAMES:
    seqs.append((a, b, a))
    seqs.append((a, a, b))
  if a in CORE:
    seqs += [(a, b, c) for b in CORE for c in CORE if c != a]
  if ctx.tier == 'thorough':
    seqs = [(a, b, c) for b in ops.NAMES for c in ops.NAMES]
  env = None
  for n, seq in enumerate(seqs):
    if n % 64 == 0:
      # long and short histories: fresh objects from time to time
      env = ops.Env()
      env.freeze()
    kept = []
    for k, name in enumerate(seq):
      what = 'operation %s after %s' % (name, list(seq[:k]))
      out = ops.OPS[name](env)
      got = ops.result(out)
      w = ops.agree(got, want[name])
      ctx.check(w is None, lambda: '%s: %s' % (what, w))
      if env.changed():
        blame(ctx, env, what)
      kept.append((name, out, got))
      ctx.trans()
    # results handed out earlier are not touched by later operations
    for name, out, got in kept:
      w = ops.agree(ops.result(out), got, 0)
      ctx.check(w is None, lambda: 'result of %s changed in %s: %s' % (name, seq, w))
    ctx.trace()
    ctx.state(seq)
  ctx.sample({'histories': [list(s) for s in seqs[:3]]})


def blame(ctx, env, what):
  """ Names the shared object that changed. """
  fresh = ops.Env()
  for (n, x), (_, y) in zip(env.content(), fresh.content()):
    w = ops.agree(ops.result(x), ops.result(y), 0)
    ctx.check(w is None, lambda: '%s changes %s: %s' % (what, n, w))
  ctx.fail(what + ' changes a shared object')


def passes(case, ctx):
  """ All interleavings of the passes of one layer on several inputs. """
  import torch
  lay = case['layer']
  used = {n: spec for n, spec in SPEC.items()}
  insts = used[lay]
  alone = []
  for (name, d, ne) in insts:
    env = ops.Env()
    y, gs = forward(env, lay, name, d, ne), None
    gs = backward(env, lay, name, d, ne, y)
    alone.append((ops.result(y[0]), ops.result(gs)))
  k = len(insts)
  events = [('f', i) for i in range(k)] + [('b', i) for i in range(k)]
  env = ops.Env()
  env.freeze()
  for order in itertools.permutations(events):
    pos = {e: j for j, e in enumerate(order)}
    if any(pos['f', i] > pos['b', i] for i in range(k)):
      continue
    for double in (False, True):
      ys = {}
      for e, i in order:
        name, d, ne = insts[i]
        what = '%s, passes %s' % (lay, ''.join('%s%d' % x for x in order))
        if e == 'f':
          ys[i] = forward(env, lay, name, d, ne)
          w = ops.agree(ops.result(ys[i][0]), alone[i][0])
          ctx.check(w is None, lambda: '%s: output %d: %s' % (what, i, w))
        else:
          for r in range(2 if double else 1):
            gs = backward(env, lay, name, d, ne, ys[i], double)
            w = ops.agree(ops.result(gs), alone[i][1])
            ctx.check(w is None, lambda: '%s: gradients %d: %s' % (what, i, w))
        ctx.trans()
      for i in range(k):
        w = ops.agree(ops.result(ys[i][0]), alone[i][0])
        ctx.check(w is None, lambda: '%s: output %d later: %s' % (what, i, w))
      if env.changed():
        blame(ctx, env, what)
      ctx.trace()
      ctx.state(lay, order, double)
  # accumulation over all passes is the sum
  env = ops.Env()
  total = None
  for (name, d, ne) in insts:
    y = forward(env, lay, name, d, ne)
    g = grad_of(y[0])
    y[0].backward(g)
  got = [p.grad for p in env.m[lay].parameters()]
  for j, p in enumerate(got):
    want = sum(alone[i][1][1 + j] for i in range(k))
    ctx.close(p, want, 'accumulated gradient of ' + lay, 1e-4)


SPEC = {
    'conv': [('A', 3, False), ('B', 3, False), ('A', 2, False)],
    'convb': [('A', 3, True), ('B', 2, True), ('A', 2, True)],
    'conv2': [('A', 3, True), ('B', 3, True), ('A', 2, True)],
    'conv32': [('A', 3, False), ('B', 3, False), ('A', 2, False)],
    'direct': [('A', 3, True), ('B', 3, True), ('B', 2, True)],
    'buffer': [('A', 3, False), ('B', 3, False), ('A', 2, False)],
    'deconv': [('A', 2, False), ('B', 2, False), ('A', 1, False)],
    'deconvn': [('A', 2, True), ('B', 2, True), ('A', 1, True)],
    'ddirect': [('A', 2, False), ('B', 3, False), ('A', 3, False)],
    'dw': [('A', 3, True), ('B', 3, True), ('A', 2, True)],
    'dw2': [('A', 3, False), ('B', 3, False), ('A', 2, False)],
    'group': [('A', 3, False), ('B', 2, False), ('A', 2, False)],
    'maxpool': [('A', 3, False), ('B', 3, False), ('A', 2, False)],
    'avgpool': [('A', 3, True), ('B', 3, True), ('A', 2, True)],
    'interp': [('A', 3, True), ('B', 3, True)],
    'gnorm': [('A', 3, True), ('B', 3, True), ('A', 2, True)],
    'inorm': [('A', 3, False), ('B', 3, False), ('A', 2, False)],
    'cbr': [('A', 3, False), ('B', 3, False)],
    'res': [('A', 3, True), ('B', 3, True)],
    'blocks': [('A', 3, False), ('B', 3, False)],
}


def forward(env, lay, name, d, ne, x=None):
  extra = ()
  if lay == 'interp':
    q = env.t['query'].clone()
    if env.o[name].batch_size == 1:
      q[:, 3] = 0
    extra = (q,)
  y = env.m[lay](env.x[name, d, ne] if x is None else x, env.o[name], d, *extra)
  return list(y) if isinstance(y, tuple) else [y]


def grad_of(y):
  return ops.tens(y.shape[0], int(np.prod(y.shape[1:])), 5, grad=False).view(y.shape)


def backward(env, lay, name, d, ne, y, keep=False, x=None):
  import torch
  g = grad_of(y[0])
  held = g.clone()
  leaves = [env.x[name, d, ne] if x is None else x] + list(env.m[lay].parameters())
  gs = torch.autograd.grad([y[0]], leaves, [g], retain_graph=keep)
  assert torch.equal(g, held), 'the incoming gradient is modified'
  return list(gs)
