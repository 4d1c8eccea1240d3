"""Writes DESIGN.md: the hand-written part (design_head.md), what decides each property, and the record of planted bugs."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/lib', V + '/lib/props']
out = [open(V + '/tools/design_head.md').read(), '## Properties\n']
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    out.append('### %s %s\n' % (p['id'], p['title']))
    try:
        m = importlib.import_module(p['id'])
        out.append(m.TECHNIQUE + '.\n\n*Bounds and trust.* ' + m.NOTE + '\n')
        if getattr(m, 'REACH', None):
            out.append('*Beyond tests.* ' + m.REACH + '\n')
    except ImportError:
        out.append('No check yet.\n')
out.append('## Planted bugs\n\nEach is in seeded/<id>/ with its demonstration; every one was confirmed to build, to pass the stable tests and to be shown by its demonstration before the checks were run on it (tools/seed.py).\n')
d = json.load(open(V + '/tools/detections.json')) if os.path.exists(V + '/tools/detections.json') else {}
out.append('| planted bug | property | what it breaks | needs | outcome |\n|---|---|---|---|---|')
for k in sorted(os.listdir(V + '/seeded')) if os.path.isdir(V + '/seeded') else []:
    m = json.load(open(V + '/seeded/%s/meta.json' % k))
    r = d.get(k, {})
    out.append('| %s | %s | %s | %s | %s |' % (k, m['property'], m['what_it_breaks'], m['needs'], r.get('outcome', 'not run')))
if os.path.exists(V + '/tools/design_tail.md'):
    out.append('\n' + open(V + '/tools/design_tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
