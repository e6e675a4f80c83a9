"""C43: randomness comes from the seeds, everything else is repeatable."""

import itertools
import os
import pickle
import random
import shutil
import subprocess
import sys
import tempfile
import numpy as np
from mc import ops, shapes
from mc.checks import c23, c34

ID = 'C43'
TECHNIQUE = ('exhaustive exploration of histories (earlier operation, states of the other '
             'generators, seed, operation) on the real library with the complete generator '
             'states compared after every step, and of loader configurations')
BOUNDS = ('62 operations x 4 gradient modes: no generator, no process-wide setting moves; '
          '32 random operations (construction of every layer, block and network, '
          'augmentation, stochastic depth, training) x 16 earlier operations x 3 seeds, '
          'against the same operation in a new process; 4 hash seeds; augmented and '
          'project datasets with 0-3 loader workers x batch sizes x 2 epochs x 2 seeds')
ASSUMPTIONS = ['ocnn draws from the torch generator, the project transforms from torch, '
               'numpy and random', 'one thread: the same operations give the same bits']
CASE_LIMIT = 400
SEEDS = (0, 7, 2 ** 40 + 3)


def cases(tier):
  out = [{'kind': 'pure', 'ops': ops.NAMES[i::8]} for i in range(8)]
  names = sorted(random_ops())
  out += [{'kind': 'seeded', 'ops': names[i::10]} for i in range(10)]
  out += [{'kind': 'still'}, {'kind': 'hashseed'}]
  for config in (0, 3, 5):
    for workers in range(4):
      out.append({'kind': 'loader', 'config': config, 'workers': workers})
  for name in PROJECTS:
    out.append({'kind': 'project', 'name': name})
  return out


def run(case, ctx):
  globals()[case['kind']](case, ctx)


# ----------------------------------------------------------------- process state

def generators():
  import torch
  s = np.random.get_state()
  return {'torch': torch.get_rng_state().numpy().tobytes(),
          'numpy': (s[1].tobytes(),) + tuple(s[2:]), 'random': random.getstate()}


def settings():
  import torch
  return {'default type': torch.get_default_dtype(), 'gradients': torch.is_grad_enabled(),
          'inference': torch.is_inference_mode_enabled(),
          'deterministic': torch.are_deterministic_algorithms_enabled(),
          'anomaly': torch.is_anomaly_enabled(), 'threads': torch.get_num_threads(),
          'autocast': torch.is_autocast_enabled('cpu'), 'numpy errors': np.geterr(),
          'environment': dict(os.environ), 'folder': os.getcwd(),
          'print': dict(vars(torch._tensor_str.PRINT_OPTS))}


def compare(ctx, a, b, what):
  for k in a:
    ctx.check(a[k] == b[k], lambda: '%s: %s changed' % (what, k))


def pure(case, ctx):
  """ Deterministic operations draw nothing and change no setting. """
  import torch
  for name in case['ops']:
    if name in ('drop A', 'drop B', 'transform', 'construct'):
      continue
    for mode in ('grad', 'nograd', 'inference', 'plain'):
      env = ops.Env()
      for salt in (1, 2):
        torch.manual_seed(salt)
        np.random.seed(salt)
        random.seed(salt)
        g, s = generators(), settings()
        res = ops.result(ops.run_in(env, name, mode))
        what = 'operation %s (%s)' % (name, mode)
        compare(ctx, generators(), g, what + ': generator')
        compare(ctx, settings(), s, what)
        if salt == 2:
          w = ops.agree(res, first, 0)
          ctx.check(w is None, lambda: '%s depends on the seed: %s' % (what, w))
        first = res
        ctx.trans()
      ctx.trace()
      ctx.state('pure', name, mode)


def still(case, ctx):
  """ Switched off randomness, and networks in evaluation mode, draw nothing. """
  import torch
  import ocnn
  o = shapes.build_batch([[[0, 0, 0], [9, 1, 4], [15, 15, 15]], [[3, 8, 9], [4, 7, 1]]],
                         4, 2)
  o.construct_all_neigh()
  x = ops.tens(int(o.nnum[4]), 3, 1, grad=False)
  off = c23.transform(c23.CONFIGS[0], False)
  nets = ocnn.models
  todo = {'drop path 0': lambda: ocnn.nn.OctreeDropPath(0.0).train()(x, o, 4),
          'augmentation off': lambda: off(c23.sample(False), 0)['points'].points}
  for p in (0.0, .3, 1.0):
    m = ocnn.nn.OctreeDropPath(p).eval()
    todo['drop path %s, evaluation' % p] = lambda m=m: m(x, o, 4)
  for name, a in (('LeNet', (3, 5, 2)), ('ResNet', (3, 5, 2, 2)), ('SegNet', (3, 5, 2)),
                  ('HRNet', (3, 5, 2))):
    m = getattr(nets, name)(*a).eval()
    q = torch.cat([torch.tensor([[.3, -.7, .1], [.9, .9, .9]]), torch.zeros(2, 1)], 1)
    b = (q,) if name == 'SegNet' else ()
    todo[name + ', evaluation'] = lambda m=m, b=b: m(x, o, 4, *b)
  for name, f in sorted(todo.items()):
    for salt in (1, 2):
      torch.manual_seed(salt)
      g = generators()
      res = ops.result(f())
      compare(ctx, generators(), g, name + ': generator')
      if salt == 2:
        w = ops.agree(res, first, 0)
        ctx.check(w is None, lambda: '%s depends on the seed: %s' % (name, w))
      first = res
      ctx.trans()
    ctx.trace()
    ctx.state('still', name)


# ------------------------------------------------------------------ random operations

def state(m):
  return {k: v.detach().numpy().copy() for k, v in m.state_dict().items()}


def _layer(c):
  return lambda: state(c34.make(c))


def _net(name, *a):
  def f():
    import ocnn
    return state(getattr(ocnn.models, name)(*a))
  return f


def _octree(leaves=None):
  o = shapes.build_batch(leaves or c34.LEAVES, 2, 1)
  o.construct_all_neigh()
  return o


def _augment(config):
  def f():
    t = c23.transform(c23.CONFIGS[config])
    out = [t(c23.sample(False), i) for i in range(6)]
    return [ops.result(o['points']) for o in out]
  return f


def _drop(p):
  def f():
    import torch
    import ocnn
    m = ocnn.nn.OctreeDropPath(p, False).train()
    o = _octree()
    x = torch.ones(int(o.nnum[2]), 40)
    return [m(x, o, 2).numpy() for _ in range(20)]
  return f


def _train(name, *a):
  """ A forward and backward pass in training mode of a fresh network. """
  def f():
    import torch
    import ocnn
    m = getattr(ocnn.models, name)(*a).train()
    o = shapes.build_batch([[[0, 0, 0], [9, 1, 4], [15, 15, 15]], [[3, 8, 9], [4, 7, 1]]],
                           4, 2)
    o.construct_all_neigh()
    x = ops.tens(int(o.nnum[4]), 3, 1)
    y = m(x, o, 4) if name == 'LeNet' else m(x, o, 4, None)
    y.square().sum().backward()
    return [y.detach().numpy()] + [p.grad.numpy() for p in m.parameters()
                                   if p.grad is not None]
  return f


def random_ops():
  out = {}
  seen = set()
  for c in c34.layer_confs():
    if c['kind'] in ('conv', 'deconv', 'dwconv', 'gconv', 'conv-direct') and \
        (c['kind'], c['stride']) not in seen and c.get('bias'):
      seen.add((c['kind'], c['stride']))
      out['new %s %d' % (c['kind'], c['stride'])] = _layer(c)
  for c in c34.block_confs():
    k = c['conf']['block']
    if k not in seen:
      seen.add(k)
      out['new ' + k] = _layer(c)
  out['new LeNet'] = _net('LeNet', 3, 5, 3)
  out['new SegNet'] = _net('SegNet', 3, 5, 2)
  out['new ResNet'] = _net('ResNet', 3, 5, 2, 2)
  out['new AutoEncoder'] = _net('AutoEncoder', 4, 4, 3, 2, 'ND', 8)
  out['new HRNet'] = _net('HRNet', 3, 5, 2)
  for i in (0, 1, 3, 5, 6):
    out['augment %d' % i] = _augment(i)
  out['drop path .5'], out['drop path .25'] = _drop(.5), _drop(.25)
  out['train LeNet'] = _train('LeNet', 3, 5, 2)
  return out


def before():
  """ Earlier operations: everything that could leave something behind. """
  r = random_ops()
  out = {n: r[n] for n in ('new conv 1', 'new dwconv 2', 'new LeNet', 'new resblocks',
                           'augment 1', 'augment 5', 'drop path .5', 'train LeNet')
         if n in r}

  def op(name):
    return lambda: ops.result(ops.run_in(ops.Env(), name, 'grad'))
  for n in ('build A', 'merge', 'collate', 'points', 'utils', 'res'):
    out[n] = op(n)
  out['nothing'] = lambda: None
  out['double'] = double
  return out


def double():
  import torch
  m = c34.make({'kind': 'conv', 'kernel': '333', 'stride': 1, 'nempty': False, 'bias': True})
  return state(m.double())


def perform(name, seed):
  import torch
  torch.manual_seed(seed)
  g = generators()
  res = random_ops()[name]()
  h = generators()
  return pickle.dumps((flat(res), h, {k: g[k] == h[k] for k in ('numpy', 'random')}))


def flat(x):
  if isinstance(x, dict):
    return {k: flat(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)):
    return [flat(v) for v in x]
  if isinstance(x, np.ndarray):
    return (str(x.dtype), x.shape, x.tobytes())
  return x


def forked(f):
  """ The value of f in a new process. """
  from mc.engine import HarnessError
  r, w = os.pipe()
  pid = os.fork()
  if pid == 0:
    code = 1
    try:
      os.close(r)
      try:
        v = ('ok', f())
      except Exception as e:
        v = ('error', '%s: %s' % (type(e).__name__, e))
      with os.fdopen(w, 'wb') as fid:
        pickle.dump(v, fid)
      code = 0
    finally:
      os._exit(code)
  os.close(w)
  with os.fdopen(r, 'rb') as fid:
    data = fid.read()
  os.waitpid(pid, 0)
  if not data:
    raise HarnessError('no result of a process')
  v = pickle.loads(data)
  if v[0] == 'error':
    from mc.engine import Violation
    raise Violation('alone: ' + v[1])
  return v[1]


def seeded(case, ctx):
  """ After seeding, results and generator states do not depend on the history. """
  import torch
  prior = before()
  for name in case['ops']:
    alone = {s: pickle.loads(forked(lambda: perform(name, s))) for s in SEEDS}
    values = [repr(alone[s][0]) for s in SEEDS]
    ctx.check(len(set(values)) == len(SEEDS),
              lambda: '%s gives the same for different seeds' % name)
    for s in SEEDS:
      for k, ok in alone[s][2].items():
        ctx.check(ok, lambda: '%s moves the generator of %s' % (name, k))
    for p in sorted(prior):
      for i, s in enumerate(SEEDS):
        prior[p]()
        np.random.seed(i + 5)
        random.seed(i + 11)
        res, gen, same = pickle.loads(perform(name, s))
        what = '%s with seed %d after %s' % (name, s, p)
        ctx.check(res == alone[s][0], lambda: what + ' differs')
        ctx.check(gen['torch'] == alone[s][1]['torch'],
                  lambda: what + ': number of random draws differs')
        ctx.check(all(same.values()), lambda: what + ': other generators moved')
        ctx.trans()
      ctx.trace()
      ctx.state(name, p)
    ctx.outcome(name, alone[SEEDS[0]][0])


SCRIPT = '''
import sys, hashlib
sys.path[:0] = [%r, '/repo']
import torch
torch.set_num_threads(1)
from mc.checks import c43
for n in sorted(c43.random_ops()):
  import pickle
  r = pickle.loads(c43.perform(n, 7))
  print(n, hashlib.sha1(repr(r[0]).encode() + r[1]['torch']).hexdigest())
'''


def hashseed(case, ctx):
  """ The order of sets and the like must not matter. """
  here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
  outs = []
  for h in ('0', '1', '2', '4711'):
    env = dict(os.environ, PYTHONHASHSEED=h, PYTHONDONTWRITEBYTECODE='1',
               OMP_NUM_THREADS='1')
    p = subprocess.run([sys.executable, '-B', '-c', SCRIPT % here], env=env,
                       capture_output=True, text=True, timeout=300)
    ctx.check(p.returncode == 0, lambda: 'process with hash seed %s: %s' % (
        h, p.stderr[-300:]))
    outs.append(p.stdout.split('\n'))
    ctx.trans(len(outs[-1]))
  for out in outs[1:]:
    ctx.check(len(out) == len(outs[0]), 'the hash seed matters')
    for a, b in zip(outs[0], out):
      ctx.check(a == b, lambda: 'the hash seed matters: %s' % a)
  ctx.state('hash')
  ctx.trace()


# -------------------------------------------------------------------------- loaders

class Clouds:
  """ A dataset whose samples are all the same before the augmentation. """

  def __init__(self, t, n):
    self.t, self.n = t, n

  def __len__(self):
    return self.n

  def __getitem__(self, i):
    return dict(self.t(c23.sample(False, [0, 1, 2, 5]), i), idx=i)


def epochs(ds, collate, workers, size, seed, num=2, persistent=False):
  import torch
  torch.manual_seed(seed)
  np.random.seed(seed % 2 ** 32)
  random.seed(seed)
  dl = torch.utils.data.DataLoader(ds, batch_size=size, num_workers=workers, shuffle=False,
                                   collate_fn=collate, persistent_workers=persistent)
  return [list(dl) for _ in range(num)]


def first_points(batch):
  return [ops.result(p.points) for p in batch['points']]


def loader(case, ctx):
  """ Samples of all workers and epochs get their own draws, reproducibly. """
  from ocnn.dataset import CollateBatch
  conf = dict(c23.CONFIGS[case['config']])
  conf['jitter'] = .0625           # a continuous draw tells samples apart
  workers = case['workers']
  ds = Clouds(c23.transform(conf), 6)
  for size in (1, 2, 3):
    for persistent in ((False, True) if workers else (False,)):
      runs = {}
      for seed in SEEDS[:2]:
        for again in range(2):
          got = epochs(ds, CollateBatch(False), workers, size, seed, 2, persistent)
          names = [[i for b in e for i in b['idx']] for e in got]
          what = '%d workers, batches of %d, seed %d' % (workers, size, seed)
          ctx.check(names == [list(range(6))] * 2, what + ': order of the samples')
          pts = [p for e in got for b in e for p in first_points(b)]
          rep = [p.tobytes() for p in pts]
          ctx.check(len(set(rep)) == len(rep),
                    lambda: what + ': samples with the same random draws')
          if again:
            ctx.check(rep == runs[seed], lambda: what + ': not reproducible')
          runs[seed] = rep
          ctx.trans(12)
          ctx.trace()
      ctx.check(not set(runs[SEEDS[0]]) & set(runs[SEEDS[1]]),
                '%d workers: the same draws with different seeds' % workers)
      ctx.state(case, size, persistent)


PROJECTS = ('modelnet', 'seg_shapenet', 'scannet', 'kitti', 'ae', 'completion')


def project(case, ctx):
  """ The datasets of the projects: reproducible, no two equal augmentations. """
  from mc.checks import c35
  import contextlib
  import io
  if '/repo/projects' not in sys.path:
    sys.path.append('/repo/projects')
  import datascts
  func = {'modelnet': datascts.get_modelnet40_dataset,
          'seg_shapenet': datascts.get_seg_shapenet_dataset,
          'scannet': datascts.get_scannet_dataset, 'kitti': datascts.get_kitti_dataset,
          'ae': datascts.get_ae_shapenet_dataset,
          'completion': datascts.get_completion_dataset}[case['name']]
  scratch = tempfile.mkdtemp(prefix='mc43')
  try:
    rows = [c35.Rows(40, 0) for _ in range(4)]       # the same cloud in every file
    root = os.path.join(scratch, 'data')
    files = c35.dataset_files(root, case['name'], rows)
    lst = os.path.join(scratch, 'list.txt')
    with open(lst, 'w') as f:
      f.write(''.join('%s %d\n' % (n, i) for i, n in enumerate(files)))
    for distort, memory in itertools.product((True, False), repeat=2):
      fl = c35.flags(location=root, filelist=lst, in_memory=memory, points_scale=2.0)
      if distort:
        fl.update(c35.DISTORT)
        fl['jitter'] = .0625
      runs = {}
      for workers, again in itertools.product((0, 1, 2), (0, 1)):
        with contextlib.redirect_stdout(io.StringIO()):
          data, collate = func(fl)
          got = epochs(data, collate, workers, 2, SEEDS[1])
        what = '%s with %d workers, distort %s' % (case['name'], workers, distort)
        pts = [points(p, 2) for e in got for b in e for p in [b['points']]]
        rep = [x for y in pts for x in y]
        ctx.check(len(rep) == 8, what + ': number of samples')
        if distort:
          ctx.check(len(set(rep)) == 8, lambda: what + ': samples with the same draws')
        elif case['name'] not in ('scannet', 'completion'):
          ctx.check(len(set(rep)) <= 2, lambda: what + ': samples without augmentation '
                    'differ')
        if again:
          ctx.check(rep == runs[workers], lambda: what + ': not reproducible')
        runs[workers] = rep
        ctx.trans(8)
        ctx.trace()
      ctx.state(case, distort, memory)
  finally:
    shutil.rmtree(scratch)


def points(p, n):
  if isinstance(p, list):
    return [ops.result(x.points).tobytes() for x in p]
  b = p.batch_id.view(-1)
  return [ops.result(p.points[b == i]).tobytes() for i in range(n)]
