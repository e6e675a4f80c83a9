#!/usr/bin/env python3
"""Assemble DESIGN.md from design_head.md, design_notes.json (per property), costs.json, matrix.json, design_tail.md."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = root + '/tools/'
notes = json.load(open(T + 'design_notes.json'))
costs = json.load(open(T + 'costs.json'))        # {id: [quick s, thorough s or None]}
matrix = json.load(open(T + 'matrix.json'))      # {bug: [property, "caught"/"missed", note]}
props = [json.loads(l) for l in open(root + '/properties.jsonl')]


def sec(t):
    return 'not measured' if t is None else f'about {max(1, round(t))} s'


out = [open(T + 'design_head.md').read().rstrip() + '\n']
for p in props:
    n, (q, t) = notes[p['id']], costs[p['id']]
    out.append(f"### {p['id']} {p['title']}\n\n"
               f"- Enumerated: {n['space']}\n"
               f"- Oracle: {n['oracle']}\n"
               f"- Limits: {n['limits']}\n"
               f"- Cost (8 cores): quick {sec(q)}, thorough {sec(t)}.\n"
               f"- Beyond the tests: {n['why']}\n")
rows = ['| change | property | result of the quick check | what it needs |', '|---|---|---|---|']
for b, (pid, res, note) in sorted(matrix.items()):
    rows.append(f'| {b} | {pid} | {res} | {note} |')
tail = open(T + 'design_tail.md').read().rstrip() + '\n'
out.append(tail.replace('@@MATRIX@@', '\n'.join(rows)))
open(root + '/DESIGN.md', 'w').write('\n'.join(out))
