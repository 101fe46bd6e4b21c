#!/usr/bin/env python3
"""Generates MANIFEST.json from properties.jsonl and the checks present.
checks/pNN.py may define NOTE (level note) and TECH (technique)."""
import json, os, re, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
TECH = 'TLA+ specification checked with TLC; traces recorded from the code validated against it, behaviours generated by TLC replayed into the code'
NOTE = ('Every recorded behaviour of the compiled code is accepted or rejected by TLC against the TLA+ specification, which '
        'contains the whole oracle; bounded by the explored inputs (listed in DESIGN.md). Trusts TLC, the compiler and the '
        'logging driver, which contains no oracle.')
checks, na = [], []
for l in open(f'{V}/properties.jsonl'):
    p = json.loads(l)
    f = f'{V}/checks/{p["id"].lower()}.py'
    if os.path.exists(f):
        src = open(f).read()
        d = {}
        for n in ast.parse(src).body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('NOTE', 'TECH', 'LEVEL'):
                d[n.targets[0].id] = ast.literal_eval(n.value)
        checks.append(dict(property=p['id'], quick_cmd=f'python3 bin/check.py {p["id"]} quick',
                           thorough_cmd=f'python3 bin/check.py {p["id"]} thorough',
                           evidence_file=f'evidence/{p["id"]}.json',
                           technique=d.get('TECH', TECH), level=d.get('LEVEL', 'model_checking'), level_note=(d['NOTE'] + ' ' if 'NOTE' in d else '') + NOTE))
    else:
        na.append(dict(property=p['id'], reason=NA.get(p['id'], 'no check built (yet)')))
m = dict(version=1, setup_cmd='python3 bin/setup.py', checks=checks, not_applicable=na,
         notes='TLA+ (TLC). No hooks in /repo: the drivers in harness/ use the public API of the library only. VERIF_SEED seeds every random choice.')
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
