#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Properties without an entry in NOTES go under
not_applicable with the reason given in NA."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': './check.sh setup', 'checks': [], 'not_applicable': [], 'notes': NOTE}
for p in ids:
    if p in CLAIMS:
        c = CLAIMS[p]
        m['checks'].append({'property': p, 'quick_cmd': f'./check.sh {p} quick', 'thorough_cmd': f'./check.sh {p} thorough',
            'evidence_file': f'evidence/{p}.json', 'technique': c.get('technique', TECH), 'level': c.get('level', 'proof'), 'level_note': c['note']})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'the contracts for this property are not written yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
