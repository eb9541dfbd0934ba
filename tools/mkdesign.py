#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.head, known_findings.txt, seeded/*/meta.json and tools/caught.json."""
import os, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + '/tools/DESIGN.head').read()
fixed = [l.strip()[7:] for l in open(V + '/known_findings.txt') if l.startswith('fixed: ')]
t = t.replace('FIXED\n', '\n'.join('* ' + l.replace('property=', '') for l in fixed) + '\n')
try: C = json.load(open(V + '/tools/caught.json'))
except Exception: C = {}
rows = ['| change | property | needs | caught by |', '|--------|----------|-------|-----------|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d)); c = C.get(i, {})
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), {'input': 'check %s, input' % m['property'], 'obligation': 'check %s, obligation' % m['property']}.get(c.get('how'), 'not yet run' if not c else 'missed')))
t = t.replace('SEEDTABLE\n', '\n'.join(rows) + '\n')
assert 'FIXED' not in t and 'SEEDTABLE' not in t and 'SECTION21' not in t
open(V + '/DESIGN.md', 'w').write(t)
