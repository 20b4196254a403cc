#!/usr/bin/env python3
"""Refreshes the generated tables of DESIGN.md (repairs, planted bugs)."""
import glob
import json
import os
import re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {'u04': 'missed first: configurations with prime dilations had one shapelet length each',
        'u16': 'missed first: the regularisation strengths were given in ascending order only',
        'u21': 'missed first: columns were assumed constant or to differ by more than 1',
        'u24': 'missed first: the input representations were only looked at from inside the ensemble'}


def cell(s):
    return ' '.join(str(s).split()).replace('|', '\\|')


fixes = ['| property | commit | what failed |', '|---|---|---|'] + ['| %s | %s | %s |' % (k['property'], k['commit'], cell(k['what']))
         for k in json.load(open(H + '/known_findings.json'))]
seeds = ['| change | property | what it breaks | note |', '|---|---|---|---|']
for d in sorted(glob.glob(H + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    n = os.path.basename(d)
    seeds.append('| %s | %s | %s. Needs: %s | %s |' % (n, m['property'], cell(m['what_it_breaks']).rstrip('.'), cell(m['needs']),
                                                       NOTE.get(n.split('_')[0], '')))
s = open(H + '/DESIGN.md').read()
for tag, rows in (('FIXES', fixes), ('SEEDS', seeds)):
    s = re.sub(r'<!--%s-->.*?<!--/%s-->' % (tag, tag), lambda m: '<!--%s-->\n%s\n<!--/%s-->' % (tag, '\n'.join(rows), tag), s, flags=re.S)
open(H + '/DESIGN.md', 'w').write(s)
print(len(fixes), 'repairs', len(seeds), 'planted bugs')
