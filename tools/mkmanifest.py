"""Regenerates MANIFEST.json from properties.jsonl and mc/checks/."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
  p = json.loads(line)
  path = os.path.join(ROOT, 'mc', 'checks', p['id'].lower() + '.py')
  if os.path.exists(path):
    m = importlib.import_module('mc.checks.' + p['id'].lower())
    checks.append({
        'property': p['id'],
        'quick_cmd': './check %s quick' % p['id'],
        'thorough_cmd': './check %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': getattr(m, 'TECHNIQUE',
                             'bounded exhaustive exploration of the real code '
                             'against a reference model'),
        'level': 'model_checking',
        'level_note': 'Every execution within the bounds is run on the real '
                      'code and compared with an independent reference: '
                      + m.BOUNDS + '. Assumes: ' + '; '.join(m.ASSUMPTIONS) + '.',
    })
  else:
    na.append({'property': p['id'], 'reason': 'no check is built yet'})
out = {'version': 1,
       'setup_cmd': '/opt/venv/bin/python -B -c "import torch, numpy, scipy, thsolver, plyfile, trimesh"',
       'checks': checks, 'not_applicable': na,
       'notes': 'See DESIGN.md. No hooks are needed: the checks drive the public '
                'interface of the code in /repo as it is.'}
json.dump(out, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
