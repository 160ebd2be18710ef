#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand when the table changes)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, quant, why, files, mech, observe, tech, note, claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, observe=observe, tech=tech, note=note, claimed=claimed, reason=reason))

exec(open(os.path.join(ROOT, 'tools', 'properties.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None},
        }, ensure_ascii=False) + '\n')

m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
for p in P:
    if p['claimed']:
        m['checks'].append({
            'property': p['id'],
            'quick_cmd': 'bash run.sh %s quick' % p['id'],
            'thorough_cmd': 'bash run.sh %s thorough' % p['id'],
            'technique': p['tech'], 'level': 'exploration', 'level_note': p['note']})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': p['reason'] or 'the check is not built yet'})
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not')
