#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harnesses present."""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import importlib
NA = {}
checks, na = [], []
for line in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    f = os.path.join(H, 'harness', i.lower() + '.py')
    if os.path.exists(f) and i not in NA:
        m = importlib.import_module('harness.' + i.lower())
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt check.py %s' % i,
            'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s --thorough' % i,
            'technique': 'bounded symbolic execution of the real Python source with z3, counterexamples replayed on '
                         'the real code',
            'level': 'model_checking',
            'level_note': 'Decides every value of the symbolic inputs within: %s. Outside: %s. Floats are modelled as '
                          'reals, third-party libraries as documented contracts with arbitrary results, numba as plain '
                          'Python.' % (m.BOUNDS, m.OUTSIDE)})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3, numpy"', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the checks load the sources of /repo/convst as they are.'},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
