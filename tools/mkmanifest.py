#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json from properties.jsonl, the checks present and the table below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
VG = 'abstract interpretation of the syntax tree into gated value graphs; graph equivalence by algebraic normal form and random interpretation'
TECH = {'C01': VG, 'C02': VG, 'C03': VG, 'C04': VG, 'C05': VG}
NOTE = {}
NA = {}
exec(open(os.path.join(V, 'tools', 'manifest_table.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
na = []
for i in ids:
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')) and i not in NA:
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           technique=TECH[i], level='other', level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='python3 -c "import ast, json; print(\'nothing to build\')"', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
