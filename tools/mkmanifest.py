#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules present."""
import ast
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'P01': 'A pure function of one number (or tuple) and a date mode: no schedule, clock, fault, I/O or interleaving for it to depend on.',
    'P02': 'A pure function of the token bytes: formula decompilation has no schedule, fault, I/O or interleaving to simulate. '
           'What does depend on history (loading order, unloading, damage) is in C21.',
    'P03': 'A pure function of two integers: no schedule, clock, fault, I/O or interleaving for it to depend on.',
    'P04': 'A pure function of one string: no schedule, clock, fault, I/O or interleaving for it to depend on. '
           'That a cell gets its type from its own format, whatever the arrival order, is in C03.',
}


def consts(path):
    d = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return d


checks, na = [], []
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
for p in props:
    f = os.path.join(V, 'sim', 'props', p['id'].lower() + '.py')
    if os.path.exists(f):
        c = consts(f)
        checks.append({'property': p['id'], 'quick_cmd': './check ' + p['id'], 'thorough_cmd': './check ' + p['id'],
                       'technique': c['TECHNIQUE'], 'level': c.get('LEVEL', 'exploration'), 'level_note': c['NOTE'],
                       'evidence_file': 'evidence/%s.json' % p['id']})
    else:
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'its check is not built yet')})
doc = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
       'notes': 'No hooks in /repo: every seam (open, os.read, mmap, clocks, locks, stdout/stderr, execution events) is installed from /verif before '
                'xlrd is imported from /repo. ./check --replay FILE replays a violation; tools/selftest checks determinism.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
