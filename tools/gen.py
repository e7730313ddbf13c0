#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from tools/props/*.json-like python tables."""
import json, os, sys, glob, runpy, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = []
for f in sorted(glob.glob(os.path.join(root, 'tools/props/*.py'))):
    props += runpy.run_path(f)['PROPS']
assert len({p['id'] for p in props}) == len(props)
with open(os.path.join(root, 'properties.jsonl'), 'w') as o:
    for p in props:
        o.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': [p['observe']], 'hook_needed': p.get('hook', 'none')},
        }) + '\n')
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, (p['id'], p['statement'].count('. '))
checks, na = [], []
for p in props:
    if 'na' in p:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': f"bash /verif/check.sh {p['id']} quick",
        'thorough_cmd': f"bash /verif/check.sh {p['id']} thorough",
        'evidence_file': f"/verif/evidence/{p['id']}.json",
        'technique': 'model checking: ' + p['technique'],
        'level': p.get('level', 'model_checking'),
        'level_note': p['note'],
    })
json.dump({
    'version': 1,
    'setup_cmd': 'bash /verif/setup.sh',
    'hooks': {'guard': 'none', 'enable': 'none needed: the harness crates use the public API of /repo through path dependencies', 'source_commits': []},
    'checks': checks, 'not_applicable': na,
    'notes': 'Every check builds its area harness (release, offline) against /repo\'s working tree and runs a bounded-exhaustive exploration of the real code; see DESIGN.md.',
}, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(props), 'properties,', len(checks), 'checks')
