#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules in lib/props."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    i = json.loads(l)['id']
    f = os.path.join(V, 'lib/props', i + '.py')
    if not os.path.exists(f):
        na.append({'property': i, 'reason': 'not built yet'})
        continue
    c = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ('TECHNIQUE', 'NOTE', 'LEVEL'):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({'property': i, 'quick_cmd': 'bin/check %s --tier quick' % i,
                   'thorough_cmd': 'bin/check %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': c['TECHNIQUE'], 'level': c.get('LEVEL', 'model_checking'),
                   'level_note': c['NOTE']})
m = {'version': 1, 'setup_cmd': 'bin/setup',
     'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specifications in spec/, checked with TLC and bound to the code by trace validation and '
              'specification-generated stimuli; no hooks in /repo are needed. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
