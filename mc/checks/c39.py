"""C39: checkpoint tools and experiment scripts."""

import contextlib
import io
import itertools
import os
import runpy
import shlex
import shutil
import subprocess
import sys
import tempfile
import types
import numpy as np


ID = 'C39'
TECHNIQUE = ('exhaustive exploration of checkpoint histories, folder trees, parameter '
             'sets and script modes on the real tools; commands are recorded and read '
             'by the real configuration parser')
BOUNDS = ('legacy parameters of the 8 networks in several layouts; parameter lists with '
          'all subsets of 5 patterns; all folder trees of 2 x 2 experiments with 0-5 '
          'files or no checkpoint folder, all histories of up to 4 saved epochs out of '
          '6 x 4 retention settings; the ScanNet script in all modes x aliases x ports x '
          'checkpoints; the ShapeNet script on all lists of up to 2 ratios out of 5 x '
          'depths x models x all categories')
ASSUMPTIONS = ['legacy parameters are stored as (output, input x kernel, kernel last), '
               'linear layers as one-dimensional convolutions',
               'names of experiments are lower case (thsolver writes them so)',
               'checkpoint names start with the epoch in five digits']
CASE_LIMIT = 300
PROJECTS = '/repo/projects'


def cases(tier):
  out = []
  for name in NETS:
    out.append({'kind': 'upgrade', 'net': name})
    out.append({'kind': 'parse', 'net': name})
  for a, b in itertools.product(range(-1, 6), repeat=2):
    out.append({'kind': 'cleanup', 'a': a, 'b': b})
  for first in (5, 10, 95, 100, 1000, 99990):
    out.append({'kind': 'history', 'first': first, 'len': 4 if tier == 'thorough' else 3})
  for mode in ('train', 'train_all', 'test', 'validate'):
    out.append({'kind': 'scannet', 'mode': mode})
  for r in itertools.chain([()], [(a,) for a in RATIOS], itertools.permutations(RATIOS, 2)):
    out.append({'kind': 'shapenet', 'ratios': list(r)})
  return out


def run(case, ctx):
  scratch = tempfile.mkdtemp(prefix='mc39')
  old = os.getcwd()
  try:
    if PROJECTS not in sys.path:
      sys.path.append(PROJECTS)
    os.chdir(scratch)
    globals()['do_' + case['kind']](case, ctx, scratch)
    ctx.trace()
  finally:
    os.chdir(old)
    shutil.rmtree(scratch)


def script(path, *argv, **patch):
  """ Runs a script with the given arguments; returns what it printed. """
  keep, saved = sys.argv, {}
  out = io.StringIO()
  for k, v in patch.items():
    saved[k] = getattr(os, k)
    setattr(os, k, v)
  procs = {}
  if 'system' in patch:
    for k in ('run', 'call', 'check_call', 'check_output', 'Popen'):
      procs[k] = getattr(subprocess, k)
      setattr(subprocess, k, patch['system'])
  sys.argv = [path] + [str(a) for a in argv]
  try:
    with contextlib.redirect_stdout(out):
      runpy.run_path(os.path.join(PROJECTS, path), run_name='__main__')
  finally:
    sys.argv = keep
    for k, v in saved.items():
      setattr(os, k, v)
    for k, v in procs.items():
      setattr(subprocess, k, v)
  return out.getvalue()


# ---------------------------------------------------------------- the parameters

def net(name):
  import ocnn
  m = ocnn.models
  return {'lenet': lambda: m.LeNet(3, 4, 2, False),
          'resnet': lambda: m.ResNet(3, 4, 2, 2, True),
          'segnet': lambda: m.SegNet(3, 4, 2, 'nearest', False),
          'unet': lambda: m.UNet(3, 4, 'linear', True),
          'hrnet': lambda: m.HRNet(3, 4, 2, nempty=False),
          'ae': lambda: m.AutoEncoder(3, 4, 4, 2, 'L'),
          'ounet': lambda: m.OUNet(3, 4, 4, 2, 'L'),
          'image': lambda: m.Image2Shape(4, 4, 2)}[name]()


NETS = ('lenet', 'resnet', 'segnet', 'unet', 'hrnet', 'ae', 'ounet', 'image')


def fill(state):
  """ Every value of every parameter is different. """
  import torch
  out, at = {}, 1
  for k, v in state.items():
    if v.dtype.is_floating_point:
      out[k] = (torch.arange(at, at + v.numel(), dtype=torch.float64)
                .reshape(v.shape) / 1024).to(v.dtype)
      at += v.numel() % 4096 + 1
    else:
      out[k] = v + 3
  return out


def legacy(state):
  """ ({legacy name: value}, names that the conversion does not cover). """
  out, other = {}, []
  for k, v in state.items():
    if k.endswith('conv.weights'):
      kd, a, b = v.shape
      assert kd == (8 if 'downsample' in k or 'upsample' in k else 27), (k, v.shape)
      out[k] = v.permute(2, 1, 0).reshape(b, a * kd).contiguous()
    elif k.endswith('.conv.linear.weight'):
      head = k[:-len('.conv.linear.weight')]
      if head.endswith('conv1x1'):
        other.append(k)
      else:
        out[head + '.conv1x1.conv1x1.weight'] = v.unsqueeze(2).contiguous()
    elif k.endswith('.linear.weight'):
      out[k[:-len('linear.weight')] + 'conv1x1.weight'] = v.unsqueeze(2).contiguous()
    elif k.endswith('.linear.bias'):
      out[k[:-len('linear.bias')] + 'conv1x1.bias'] = v
    else:
      out[k] = v
  return out, other


def do_upgrade(case, ctx, scratch):
  import torch
  model = net(case['net'])
  for salt, order in itertools.product(range(2), range(2)):
    torch.manual_seed(salt)
    want = fill(model.state_dict()) if salt else {
        k: v.clone() for k, v in model.state_dict().items()}
    old, other = legacy(want)
    if order:
      old = dict(reversed(list(old.items())))
    folder = os.path.join(scratch, 'logs.v1', '%d%d' % (salt, order))
    os.makedirs(folder)
    name = os.path.join(folder, '00300.model.pth')
    torch.save(old, name)
    script('tools/upgrade_ckpt.py', name)
    files = sorted(os.listdir(folder))
    ctx.check(files == ['00300.model.pth', '00300.model.upgrade.pth'],
              'files after the upgrade: %s' % files)
    kept = torch.load(name)
    ctx.check(sorted(kept) == sorted(old) and
              all(torch.equal(kept[k], old[k]) for k in old),
              'the legacy file is left as it was')
    new = torch.load(name[:-4] + '.upgrade.pth')
    ctx.check(sorted(list(new) + other) == sorted(want),
              lambda: 'names after the upgrade of %s: %s' % (
                  case['net'], sorted(set(new) ^ (set(want) - set(other)))[:6]))
    for k in new:
      ctx.equal(new[k], want[k], lambda: '%s: %s' % (case['net'], k))
    full = dict(new, **{k: want[k] for k in other})
    fresh = net(case['net'])
    fresh.load_state_dict(full)
    got = fresh.state_dict()
    for k in want:
      ctx.equal(got[k], want[k], lambda: '%s: loaded %s' % (case['net'], k))
    ctx.trans()
    ctx.state(case['net'], salt, order)
    ctx.outcome(case['net'], len(new))


PATTERNS = ('conv', 'bn', 'weight', 'header.', '0')


def do_parse(case, ctx, scratch):
  import torch
  state = net(case['net']).state_dict()
  name = os.path.join(scratch, 'a.pth')
  torch.save(state, name)
  items = [(k, tuple(v.shape)) for k, v in state.items()]
  todo = [None] + [s for n in range(0, 4) for s in itertools.permutations(PATTERNS, n)
                   if n < 3 or s[0] < s[1] < s[2]]
  for skips in todo:
    argv = ['--ckpt', name] + ([] if skips is None else ['--skips'] + list(skips))
    lines = script('tools/parse_ckpt.py', *argv).strip().split('\n')
    keep = [(k, s) for k, s in items if not any(p in k for p in skips or ())]
    what = '%s without %s' % (case['net'], skips)
    ctx.check(len(lines) == len(keep) + 1, what + ': number of lines')
    for i, (line, (k, s)) in enumerate(zip(lines, keep)):
      num, key, rest = line.split(', ', 2)
      shape, size = rest.rsplit(', ', 1)
      dims = tuple(int(x) for x in shape.strip('[]').split(';') if x.strip())
      ctx.check(int(num) == i and key == k and dims == s and
                float(size) == np.prod(s), lambda: '%s: line %s' % (what, line))
    total = sum(int(np.prod(s)) for _, s in keep)
    ctx.check(float(lines[-1].split(':')[1]) == total, lambda: '%s: %s' % (what, lines[-1]))
    ctx.trans()
    ctx.state(case['net'], skips)
    ctx.outcome(len(keep) == 0, len(keep) == len(items))


# -------------------------------------------------------------------- the folders

def inside(root):
  real = os.remove

  def remove(path, *a, **k):
    full = os.path.realpath(path)
    if not full.startswith(os.path.realpath(root) + os.sep):
      raise AssertionError('the tool removes %s' % full)
    return real(path, *a, **k)
  return remove


def listing(root):
  out = {}
  for base, _, files in os.walk(root):
    for f in files:
      p = os.path.join(base, f)
      with open(p, 'rb') as fid:
        out[os.path.relpath(p, root)] = fid.read()
  return out


def cleanup(root):
  script('tools/cleanup_ckpt.py', root, remove=inside(root), unlink=inside(root))


def do_cleanup(case, ctx, scratch):
  for c, d in itertools.product(range(-1, 6, 1 if ctx.tier == 'thorough' else 2), repeat=2):
    root = os.path.join(scratch, 'logs')
    gone = set()
    counts = dict(zip(itertools.product(('chair', 'table'), ('ratio_0.10', 'ratio_1.00')),
                      (case['a'], case['b'], c, d)))
    for (cat, ratio), n in counts.items():
      folder = os.path.join(root, cat, ratio)
      os.makedirs(folder)
      for f in ('log.csv', 'best_model.pth', 'all_configs.yaml'):
        write(os.path.join(folder, f), cat + ratio + f)
      if n < 0:
        continue
      names = ['%05d.model.pth' % (5 * (i + 1) ** 3) for i in range(n)]
      os.makedirs(os.path.join(folder, 'checkpoints'))
      # written in another order than they are named
      for f in names[::-1]:
        write(os.path.join(folder, 'checkpoints', f), cat + ratio + f)
      if n > 1:
        gone |= {os.path.join(cat, ratio, 'checkpoints', f)
                 for i, f in enumerate(names) if i != n - 2}
    write(os.path.join(root, 'summaries.csv'), 'x')
    write(os.path.join(root, 'chair', 'notes.txt'), 'y')
    os.makedirs(os.path.join(root, 'chair', 'checkpoints'))
    for f in ('a', 'b', 'c'):
      write(os.path.join(root, 'chair', 'checkpoints', f), 'z')
    before = listing(root)
    outside = os.path.join(scratch, 'keep')
    write(outside, '')
    cleanup(root)
    after = listing(root)
    ctx.check(after == {k: v for k, v in before.items() if k not in gone},
              lambda: 'checkpoints %s: removed %s, expected %s' % (
                  counts, sorted(set(before) - set(after)), sorted(gone)))
    ctx.check(os.path.exists(outside), 'a file outside')
    # what is kept is kept for good
    cleanup(root)
    ctx.check(listing(root) == after, 'cleaning up twice')
    shutil.rmtree(root)
    ctx.trans()
    ctx.state(case['a'], case['b'], c, d)
    ctx.outcome(len(gone))


def write(path, text):
  with open(path, 'w') as fid:
    fid.write(text)


def do_history(case, ctx, scratch):
  """ Save epoch after epoch as the solver does, then clean up. """
  import torch
  from thsolver import Solver
  epochs = [e for e in (5, 10, 95, 100, 1000, 99990)]
  rest = [e for e in epochs if e > case['first']]
  todo = [(case['first'],) + r for n in range(case['len'])
          for r in itertools.combinations(rest, n)]
  for saved, num in itertools.product(todo, (1, 2, 3, 20)):
    root = os.path.join(scratch, 'logs')
    ck = os.path.join(root, 'cat', 'ratio', 'checkpoints')
    os.makedirs(ck)
    s = object.__new__(Solver)
    s.is_master, s.world_size, s.ckpt_dir = True, 1, ck
    s.FLAGS = types.SimpleNamespace(SOLVER=types.SimpleNamespace(ckpt_num=num))
    s.model = torch.nn.Linear(1, 1)
    s.optimizer = torch.optim.SGD(s.model.parameters(), lr=.1)
    s.scheduler = torch.optim.lr_scheduler.ConstantLR(s.optimizer)
    for e in saved:
      with torch.no_grad():
        s.model.weight.fill_(float(e))
      s.save_checkpoint(e)
    cleanup(root)
    left = sorted(os.listdir(ck))
    ctx.check(left == ['%05d.model.pth' % saved[-1]],
              lambda: 'epochs %s: left %s' % (saved, left))
    got = torch.load(os.path.join(ck, left[0]))
    ctx.check(float(got['weight']) == saved[-1], lambda: 'epochs %s: content' % (saved,))
    shutil.rmtree(root)
    ctx.trans(len(saved) + 1)
    ctx.state(saved, num)
    ctx.outcome(len(saved))


# -------------------------------------------------------------------- the scripts

class Shell:
  """ Records the commands instead of running them. """

  def __init__(self, hook=None):
    self.cmds, self.hook = [], hook

  def __call__(self, cmd, *a, **k):
    self.cmds.append(shlex.split(cmd) if isinstance(cmd, str) else list(cmd))
    if self.hook:
      self.hook(self.cmds[-1])
    return 0


def flags_of(cmd):
  """ The configuration that a command gives to the solver. """
  import thsolver.config as tc
  assert cmd[0] == 'python' and os.path.exists(os.path.join(PROJECTS, cmd[1])), cmd
  keep, old = sys.argv, os.getcwd()
  fl = tc.FLAGS.clone()
  saved = tc.FLAGS
  sys.argv = cmd[1:]
  tc.FLAGS = fl
  os.chdir(PROJECTS)
  try:
    return tc.parse_args(backup=False)
  finally:
    sys.argv, tc.FLAGS = keep, saved
    os.chdir(old)


def flat(cfg, head=''):
  out = {}
  for k, v in cfg.items():
    if isinstance(v, dict):
      out.update(flat(v, head + k + '.'))
    else:
      out[head + k] = v
  return out


def options(cmd):
  """ {option: value} of a command like --a b --c d. """
  assert os.path.exists(os.path.join(PROJECTS, cmd[1])), cmd
  rest = cmd[2:]
  assert len(rest) % 2 == 0 and all(k.startswith('--') for k in rest[::2]), rest
  return dict(zip(rest[::2], rest[1::2]))


def do_scannet(case, ctx, scratch):
  mode = case['mode']
  for alias, gpu, port, ckpt in itertools.product(
      (None, 'scannet', 'r4', 'a_b2'), (None, '0', '0,1', '3'), (None, '10001', '777'),
      (None, 'some/where/00123.model.pth')):
    argv = ['--run', mode]
    for k, v in (('alias', alias), ('gpu', gpu), ('port', port), ('ckpt', ckpt)):
      if v is not None:
        argv += ['--' + k, v]
    shell = Shell()
    script('scripts/run_seg_scannet.py', *argv, system=shell)
    al, pt = alias or 'scannet', int(port or 10001)
    gp = tuple(int(x) for x in (gpu or '0').split(','))
    what = 'run_seg_scannet %s' % ' '.join(argv)
    cmds = shell.cmds
    ctx.check(len(cmds) == {'train': 1, 'train_all': 1, 'test': 2, 'validate': 3}[mode],
              lambda: '%s: %d commands' % (what, len(cmds)))
    ctx.check(cmds[0][:2] == ['python', 'segmentation.py'], what + ': the program')
    fl = flags_of(cmds[0])
    got = flat(fl)
    base = flat(flags_of(['python', 'segmentation.py', '--config',
                          'configs/seg_scannet%s.yaml' % ('' if 'train' in mode else '_eval')]))
    want = dict(base)
    tag = {'train': '', 'train_all': '', 'test': 'test_', 'validate': 'val_'}[mode]
    want['SOLVER.gpu'] = gp
    want['SOLVER.alias'] = tag + al
    if 'train' in mode:
      want['SOLVER.port'] = pt
      want['SOLVER.logdir'] = 'logs/scannet/D10_2cm_' + al
      if mode == 'train_all':
        want['DATA.train.filelist'] = 'data/scannet/scannetv2_train_val.txt'
    else:
      want['SOLVER.logdir'] = 'logs/scannet/D10_2cm_eval_' + tag + al
      # the last epoch of the training with the same name
      tr = flags_of(['python', 'segmentation.py', '--config', 'configs/seg_scannet.yaml',
                     'SOLVER.alias', al])
      want['SOLVER.ckpt'] = ckpt or '%s/checkpoints/%05d.model.pth' % (
          tr.SOLVER.logdir, tr.SOLVER.max_epoch)
      want['SOLVER.eval_epoch'] = 72 if mode == 'test' else 12
      want['DATA.test.distort'] = True
      if mode == 'validate':
        want['DATA.test.location'] = 'data/scannet/train'
        want['DATA.test.filelist'] = 'data/scannet/scannetv2_val.txt'
    for k in sorted(set(got) | set(want)):
      if k != 'SYS.cmds':
        ctx.check(same(got.get(k), want.get(k)), lambda: '%s: %s is %r, expected %r' % (
            what, k, got.get(k), want.get(k)))
    if 'train' not in mode:
      ctx.check(cmds[1][:2] == ['python', 'tools/seg_scannet.py'], what + ': the tool')
      o = options(cmds[1])
      ctx.check(o['--run'] == 'generate_output_seg' and
                o['--path_in'] == got['DATA.test.location'] and
                o['--path_pred'] == got['SOLVER.logdir'] and
                o['--filelist'] == got['DATA.test.filelist'],
                lambda: '%s: labels from the predictions: %s' % (what, o))
      ctx.check(o['--path_out'] not in (o['--path_pred'], o['--path_in']) and
                al in o['--path_out'], what + ': output')
      if mode == 'validate':
        ctx.check(cmds[2][:2] == ['python', 'tools/seg_scannet.py'], what + ': the tool')
        p = options(cmds[2])
        ctx.check(p['--run'] == 'calc_iou' and p['--path_in'] == o['--path_in'] and
                  p['--path_pred'] == o['--path_out'],
                  lambda: '%s: evaluation of the labels: %s' % (what, p))
    ctx.trans(len(cmds))
    ctx.state(mode, alias, gpu, port, ckpt)
    ctx.outcome(mode)


def same(a, b):
  norm = lambda v: tuple(v) if isinstance(v, (list, tuple)) else v
  return type(norm(a)) == type(norm(b)) and norm(a) == norm(b)


CATS = {'02691156': ('Aero', 4, 2348, 341), '02773838': ('Bag', 2, 62, 14),
        '02954340': ('Cap', 2, 44, 11), '02958343': ('Car', 4, 717, 153),
        '03001627': ('Chair', 4, 3052, 693), '03261776': ('EarPhone', 3, 55, 14),
        '03467517': ('Guitar', 3, 626, 159), '03624134': ('Knife', 2, 312, 80),
        '03636649': ('Lamp', 4, 1261, 285), '03642806': ('Laptop', 2, 367, 78),
        '03790512': ('Motor', 6, 151, 51), '03797390': ('Mug', 2, 146, 38),
        '03948459': ('Pistol', 3, 234, 41), '04099429': ('Rocket', 3, 54, 12),
        '04225987': ('Skate', 3, 121, 31), '04379243': ('Table', 3, 4421, 842)}
EPOCHS = (300, 1800, 2400, 600, 300, 2000, 600, 600, 300, 600, 1200, 1200, 600, 1800, 1200, 200)
RATIOS = (0.01, 0.05, 0.1, 0.5, 1.0)


def do_shapenet(case, ctx, scratch):
  import torch
  from thsolver.tracker import AverageTracker
  import math
  for depth, model, alias, gpu, ckpt in (
      (None, None, None, None, None), (5, 'segnet', 'segnet_d5', '0', None),
      (6, 'unet', 'u6', '0,1', None), (4, 'segnet', 'b', '2', 'w/best_model.pth')):
    argv, given = [], case['ratios']
    for k, v in (('depth', depth), ('model', model), ('alias', alias), ('gpu', gpu),
                 ('ckpt', ckpt)):
      if v is not None:
        argv += ['--' + k, v]
    if given:
      argv += ['--ratios'] + [str(r) for r in given]
    ratios = given or [1.0]
    al, dp = alias or 'segnet_d5', depth or 5
    ious = {}

    def fake(cmd):
      """ What the training leaves behind. """
      import contextlib
      logdir = flags_of(cmd).SOLVER.logdir
      os.makedirs(logdir, exist_ok=True)
      # the part before the last line is from earlier epochs
      for e in range(2):
        value = ((len(ious) * 37 + e * 11) % 1001) / 1000.0
        t = AverageTracker()
        t.update({'test/loss': torch.tensor(0.25), 'test/accu': torch.tensor(0.5)})
        t.update({'test/mIoU': torch.tensor(value)})
        with contextlib.redirect_stderr(io.StringIO()):
          t.log(e + 1, None, os.path.join(logdir, 'log.csv'), print_time=False)
      ious[len(ious)] = value

    shell = Shell(fake)
    os.makedirs('work')
    os.chdir('work')
    text = script('scripts/run_seg_shapenet.py', *argv, system=shell)
    what = 'run_seg_shapenet %s' % ' '.join(str(a) for a in argv)
    ctx.check(len(shell.cmds) == 16 * len(ratios), what + ': number of runs')
    base = flat(flags_of(['python', 'segmentation.py', '--config',
                          'configs/seg_shapenet.yaml']))
    data = 'data/shapenet_segmentation/filelist/%s_%s.txt'
    for n, cmd in enumerate(shell.cmds):
      r, k = ratios[n // 16], n % 16
      cat, (name, parts, ntrain, ntest) = list(CATS.items())[k]
      ctx.check(cmd[:2] == ['python', 'segmentation.py'], what + ': the program')
      got = flat(flags_of(cmd))
      epoch = int(EPOCHS[k] * r * (2 if r < 0.1 else 1))
      want = dict(base)
      want.update({
          'SOLVER.gpu': tuple(int(x) for x in (gpu or '0').split(',')),
          'SOLVER.logdir': 'logs/seg_shapenet/%s/%s_%s/ratio_%.2f' % (al, cat, name, r),
          'SOLVER.max_epoch': epoch,
          'SOLVER.milestones': (int(.5 * epoch), int(.25 * epoch)),
          'SOLVER.test_every_epoch': math.ceil(epoch * .02),
          'SOLVER.ckpt': ckpt or '',
          'DATA.train.depth': dp, 'DATA.test.depth': dp,
          'DATA.train.filelist': data % (cat, 'train_val'),
          'DATA.test.filelist': data % (cat, 'test'),
          'DATA.train.take': math.ceil(ntrain * r),
          'MODEL.stages': dp - 2, 'MODEL.nout': parts, 'LOSS.num_class': parts,
          'MODEL.name': model or 'segnet'})
      for key in sorted(set(got) | set(want)):
        if key != 'SYS.cmds':
          ctx.check(same(got.get(key), want.get(key)), lambda: '%s: %s, %s is %r, not %r' % (
              what, name, key, got.get(key), want.get(key)))
      ctx.trans()
      ctx.state(n, argv)
    with open('logs/seg_shapenet/%s/summaries.csv' % al) as fid:
      rows = [x.split(',') for x in fid.read().strip().split('\n')]
    rows = [[c.strip() for c in r] for r in rows]
    names = [v[0] for v in CATS.values()]
    ctx.check(rows[0][1:17] == names and
              [int(x) for x in rows[1][1:]] == [v[2] for v in CATS.values()] and
              [int(x) for x in rows[2][1:]] == [v[3] for v in CATS.values()],
              what + ': head of the summary')
    ctx.check(len(rows) == 3 + len(ratios), what + ': rows of the summary')
    for row, i in zip(rows[3:], range(len(ratios) - 1, -1, -1)):
      vals = np.array([ious[16 * i + k] for k in range(16)])
      test = np.array([v[3] for v in CATS.values()])
      got = np.array([float(x) for x in row[1:]])
      ctx.check(row[0] == 'Ratio:%.2f' % ratios[i], lambda: '%s: row %s' % (what, row[0]))
      ctx.close(got[:16], vals, what + ': IoU of the categories', 1e-9)
      ctx.close(got[16], vals.mean(), what + ': mean over the categories', 6e-4)
      ctx.close(got[17], (vals * test).sum() / test.sum(),
                what + ': mean over the shapes', 6e-4)
    os.chdir(scratch)
    shutil.rmtree(os.path.join(scratch, 'work'))
    ctx.outcome(len(ratios))
