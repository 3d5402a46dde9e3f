#!/usr/bin/env python3
"""Regenerates MANIFEST.json and DESIGN.md from properties.jsonl, checks/*.py (docstring, TECH, NOTE) and doc/*.md."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = json.load(open(V + '/doc/not_applicable.json'))
checks, na, sections = [], [], []
for p in props:
    f = '%s/checks/%s.py' % (V, p['id'])
    head = '### %s — %s\n\n' % (p['id'], p['title'])
    if os.path.exists(f) and p['id'] not in NA:
        t = ast.parse(open(f).read())
        g = {n.targets[0].id: ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and n.targets[0].id in ('TECH', 'NOTE', 'LEVEL')}
        checks.append(dict(property=p['id'], quick_cmd='bin/check %s quick' % p['id'], thorough_cmd='bin/check %s thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'], technique=g['TECH'], level=g.get('LEVEL', 'model_checking'), level_note=g['NOTE']))
        sections.append(head + (ast.get_docstring(t) or '') + '\n')
    else:
        r = NA.get(p['id'], 'no check built yet (work in progress); the specification does not cover it so nothing is claimed')
        na.append(dict(property=p['id'], reason=r))
        sections.append(head + 'Not claimed: ' + r + '\n')
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='See DESIGN.md. One TLA+ specification per subsystem under spec/, C++ drivers under drivers/, one check script per property under checks/.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
rd = lambda n: open(V + '/doc/' + n).read() if os.path.exists(V + '/doc/' + n) else ''
open(V + '/DESIGN.md', 'w').write(rd('head.md') + '\n## The properties\n\n' + '\n'.join(sections) + '\n' + rd('tail.md'))
print(len(checks), 'claimed', len(na), 'not')
