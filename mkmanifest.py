#!/usr/bin/env python3
import json, os
from props import PROPS, NA
V = os.path.dirname(os.path.abspath(__file__))
with open(V + '/properties.jsonl', 'w') as f:
    for i in sorted(set(PROPS) | set(NA)):
        p = PROPS.get(i) or NA[i]
        f.write(json.dumps({'id': i, 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': './check.py setup', 'checks': [], 'not_applicable': []}
for i in sorted(PROPS):
    p = PROPS[i]
    m['checks'].append({'property': i, 'quick_cmd': './check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check.py ' + i,
        'technique': p.get('technique', 'contract-based deductive verification of the Go SSA (own VC generator, z3/cvc5), with concrete replay'),
        'level': p.get('level', 'proof'), 'level_note': p['note']})
for i in sorted(NA):
    m['not_applicable'].append({'property': i, 'reason': NA[i]['na']})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
for i, p in list(PROPS.items()) + list(NA.items()):
    assert len(p['title']) <= 80, i
