#!/usr/bin/env python3
"""Writes doc/tail.md from doc/tail_head.md, known-findings.txt and seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = open(V + '/doc/tail_head.md').read()
o += '\n## Planted changes and what catches them\n\nEach is caught by the quick check of its own property'
o += ' (confirmed with the check run against the patched tree). "first missed" marks those that made the machinery grow.\n\n'
o += '| change | caught by | needs |\n|---|---|---|\n'
grew = json.load(open(V + '/doc/grew.json'))
for m in sorted(glob.glob(V + '/seeded/*/meta.json'), key=lambda f: (json.load(open(f))['property'], f)):
    j = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    o += '| %s | %s | %s%s |\n' % (i, j['property'], j['needs'].replace('|', '/'), ' — **first missed**; ' + grew[i] if i in grew else '')
o += '\n## Defects found in altruct by these checks and repaired\n\nOne "fix:" commit each; the same list, with the properties, is in `known-findings.txt`.\n\n'
for l in open(V + '/known-findings.txt'):
    g = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if g: o += '- %s (`%s`): %s\n' % g.groups()
open(V + '/doc/tail.md', 'w').write(o)
