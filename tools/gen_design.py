#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_*.md, the rules in props/ and the planted bugs."""
import importlib
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(H, 'engine'), H]
T = os.path.join(H, 'tools')
out = open(os.path.join(T, 'design_head.md')).read()
man = json.load(open(os.path.join(H, 'MANIFEST.json')))
na = {x.get('property') or x.get('id') or x.get('property_id'): x['reason'] for x in man['not_applicable']}
for l in open(os.path.join(H, 'properties.jsonl')):
    d = json.loads(l)
    i = d['id']
    out += '\n### %s %s\n' % (i, d['title'])
    if i in na:
        out += 'Not applicable: %s\n' % na[i]
        continue
    m = importlib.import_module('props.' + i.lower())
    out += '%s\n' % m.RULE
    out += '\n*Within:* %s.' % '; '.join(m.ASSUMES)
    floor = getattr(m, 'FLOOR', None)
    if floor:
        out += ' *At least* %s obligations.' % (floor if isinstance(floor, int) else ' / '.join(map(str, floor)) if isinstance(floor, (tuple, list)) else floor)
    out += '\n'
out += open(os.path.join(T, 'design_tail.md')).read()
out += '## 4. Planted bugs\n\n| change | property | needs | caught by |\n|---|---|---|---|\n'
caught = json.load(open(os.path.join(T, 'caught.json')))
for s in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.load(open(os.path.join(H, 'seeded', s, 'meta.json')))
    out += '| %s | %s | %s | %s |\n' % (s, m['property'], m['needs'], ' '.join(caught.get(s, ['?'])) or '-')
out += open(os.path.join(T, 'design_campaign.md')).read()
open(os.path.join(H, 'DESIGN.md'), 'w').write(out)
