#!/usr/bin/env python3
"""Puts DESIGN.md together. Run after all quick checks, so that the bounds in evidence/ are those of the quick tier."""
import json, os, glob, runpy
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = open(root + '/tools/design_head.md').read()
names = {'a': 'Matrices', 'c': 'Calendar', 'g': 'Geometry', 'h': 'Heat', 'i': 'Air flow', 'l': 'Light', 'm': 'Models and their files', 'p': 'Polynomials and schedules', 'r': 'Rendering', 'u': 'The simulation program', 'w': 'Weather and sun'}
o += '## Properties\n\n'
for f in sorted(glob.glob(root + '/tools/props/*.py')):
    o += f"### {names[os.path.basename(f)[0]]}\n\n"
    for p in runpy.run_path(f)['PROPS']:
        o += f"**{p['id']} - {p['title']}.** {p['statement']}\n\n"
        o += f"* Decided by: {p['technique']}.\n* Quantifies over: {p['quant']}. {p['why']}\n"
        e = root + f"/evidence/{p['id']}.json"
        if os.path.exists(e):
            e = json.load(open(e))
            o += '* Parts (quick tier):\n'
            for q in e['coverage'].get('parts', []): o += f"    * {q['part']}: {q['bound']} ({q['states']} states)\n"
            o += f"* Cost: about {max(1, round(e['wall_s']))} s (quick), plus the build.\n"
        if p['note']: o += f"* Limits: {p['note']}.\n"
        o += '\n'
kf = [json.loads(l) for l in open(root + '/known_findings.jsonl')]
o += '## Known findings\n\n'
for k in kf:
    if k['status'] == 'known': o += f"* {k['property']}: {k['what']}\n"
o += '\n## Defects repaired (each in its own `fix:` commit in /repo)\n\n| property | commit | what failed |\n|---|---|---|\n'
for k in kf:
    if k['status'] == 'fixed':
        a = k['what'].split(' ', 3)
        o += f"| {k['property']} | {a[2]} | {a[3]} |\n"
o += '\n## Planted bugs, and what catches them\n\nEach was confirmed in a scratch copy: it builds, passes the stable tests, and its demonstration fails with it and passes without it.\n\n| planted bug | needs | breaks | caught by |\n|---|---|---|---|\n'
res = {}
if os.path.exists(root + '/tools/seed_results.json'): res = json.load(open(root + '/tools/seed_results.json'))
for d in sorted(glob.glob(root + '/seeded/*')):
    m = json.load(open(d + '/meta.json')); i = os.path.basename(d)
    o += f"| {i} | {m['needs']} | {m['what_it_breaks']} | {res.get(i, m['property'])} |\n"
o += open(root + '/tools/design_tail.md').read()
open(root + '/DESIGN.md', 'w').write(o)
print(len(o.split('\n')), 'lines')
