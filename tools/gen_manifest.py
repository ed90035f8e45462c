#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R + '/lib')
import props as P
checks = []; na = []
for l in open(R + '/properties.jsonl'):
    i = json.loads(l)['id']
    if i in P.PROPS:
        p = P.PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 lib/check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 lib/check.py ' + i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': p.get('technique', P.TECH), 'level': p['level'],
                       'level_note': p['note'] + (' Bounded, not proved: ' + '; '.join(p['bounded']) + '.' if p.get('bounded') else '') + ' ' + P.COMMON,
                       **({'theorems': p['roots']} if p['level'] == 'proof' else {})})
    else: na.append({'property': i, 'reason': P.NA.get(i, 'no contract built for it yet')})
m = {'version': 1, 'setup_cmd': 'python3 lib/check.py --setup', 'checks': checks, 'not_applicable': na, 'notes': 'Checks rebuild the extractor and the driver from source in a temporary directory on every run; see DESIGN.md.'}
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1); open(R + '/MANIFEST.json', 'a').write('\n')
