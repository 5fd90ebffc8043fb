#!/usr/bin/env python3
"""DESIGN.md from its hand-written parts (tools/design_*.md), the rules' own descriptions, and the planted bugs' records."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, 'tools')
rd = lambda p: open(os.path.join(V, p)).read()
P = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
exec(rd('tools/design_notes.py'))
exec(rd('tools/na.py'))
out = [rd('tools/design_head.md')]
out.append('## The properties, one by one\n')
out.append('"Bound" is the part of the rule that is limited; everything not named there (inputs, fields, hook outcomes, results of library\n'
           'calls, interleavings at the waits of the code analysed) is covered without a limit.  Cost is the rule\'s own time on this tree.\n')
for p in P:
    f = 'rules/%s.py' % p['id'].lower()
    if p['id'] in NA:
        continue
    d = ' '.join((ast.get_docstring(ast.parse(rd(f))) or '').split())
    out.append('### %s %s\n\n%s\n' % (p['id'], p['title'], d))
    b = BOUND.get(p['id'])
    if b:
        out.append('*Bound:* %s\n' % b)
    w = WHY.get(p['id'])
    if w:
        out.append('*Beyond tests:* %s\n' % w)
out.append('## Not applicable\n')
for k, v in NA.items():
    t = [p['title'] for p in P if p['id'] == k][0]
    out.append('- **%s %s**: %s.\n' % (k, t, v))
out.append(rd('tools/design_tail.md'))
out.append('## Planted bugs\n\nEach lies in seeded/ID with patch, demonstration and what it needs to show.  "Caught by" is the check that reports it.\n')
out.append('| ID | property | needs | caught by |\n|---|---|---|---|')
S = os.path.join(V, 'seeded')
for s in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, s, 'meta.json')))
    out.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '/'), CAUGHT.get(s, m['property'])))
out.append('')
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
