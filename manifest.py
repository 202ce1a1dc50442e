#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/map.txt and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
claimed = {}
for l in open(os.path.join(V, 'harness/map.txt')):
    w = l.split('#')[0].split()
    if w: claimed[w[0]] = w[1]
NOTE = json.load(open(os.path.join(V, 'levels.json')))
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in claimed:
        checks.append(dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % p,
                           technique='property-based testing: ' + NOTE[p][0], level='exploration', level_note=NOTE[p][1]))
    else: na.append(dict(property=p, reason='not claimed yet: harness under construction'))
m = dict(version=1, setup_cmd='python3 build.py --quiet --setup', checks=checks, not_applicable=na,
         notes='No hooks: every property is decided through the public API. Harnesses compile the sources of /repo themselves.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
