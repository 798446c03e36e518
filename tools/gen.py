#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p.get('observe', []), 'hook_needed': None}}) + '\n')
checks, na = [], []
for p in props.PROPS:
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    cmd = 'python3 checks/run.py %s' % p['id']
    checks.append({'property': p['id'], 'quick_cmd': cmd, 'thorough_cmd': cmd,
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'],
                   'level': p.get('level', 'proof'), 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis of LLVM IR (and, where stated, of the Clang AST) compiled from /repo on every run; '
              'nothing of /repo is executed. No hooks are needed in /repo. The quick run is already exhaustive, so '
              'thorough runs the same analysis.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
