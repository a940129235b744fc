#!/usr/bin/env python3
"""fills the tables of DESIGN.md in (template: lib/design.md)"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
oracle = json.load(open(os.path.join(V, 'lib', 'oracles.json')))
caught = json.load(open(os.path.join(V, 'lib', 'caught.json')))
checks = check.load_checks()
t = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    if p['id'] not in checks: continue
    c = checks[p['id']]
    t.append('| %s %s | %s | %s | %s |' % (p['id'], p['title'], ', '.join(x['file'] for x in c), oracle.get(p['id'], ''), ' '.join(x['quick'].replace('-D', '').replace(',', ' ') for x in c) or 'complete'))
s = []
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    s.append('- `%s` (%s): %s Caught by: %s.' % (d, m['property'], m['what_it_breaks'].rstrip('.') + '.', ', '.join(caught.get(d, [])) or 'none yet'))
o = open(os.path.join(V, 'lib', 'design.md')).read().replace('@TABLE@', '\n'.join(t)).replace('@SEEDS@', '\n'.join(s))
open(os.path.join(V, 'DESIGN.md'), 'w').write(o)
