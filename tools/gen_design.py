#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design_head.md, one section per property (bounds taken from the check modules), tools/design_tail.md."""
import json, os, sys, importlib, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
P = {}
cur = None
for l in open(root + '/tools/design_props.md'):
    if l.startswith('## '): cur = l[3:].strip(); P[cur] = ''
    elif cur: P[cur] += l
out = [open(root + '/tools/design_head.md').read(), '\n## Per property\n']
for l in open(root + '/properties.jsonl'):
    d = json.loads(l); i = d['id']
    out.append('\n### %s — %s\n' % (i, d['title']))
    if not os.path.exists(root + '/checks/%s.py' % i.lower()): out.append(P.get(i, 'Not claimed.').strip() + '\n'); continue
    m = importlib.import_module('checks.' + i.lower())
    seeds = [os.path.basename(os.path.dirname(f)) for f in sorted(glob.glob(root + '/seeded/*/meta.json')) if json.load(open(f))['property'] == i]
    out.append(P.get(i, '').strip() + '\n')
    out.append('- *Bounds, quick:* %s.\n- *Bounds, thorough:* %s.\n' % (m.BOUNDS['quick'], m.BOUNDS['thorough']))
    a = getattr(m, 'ASSUMES', None) or []
    if a: out.append('- *Assumes:* %s.\n' % '; '.join([a] if isinstance(a, str) else a))
    o = getattr(m, 'OUTSIDE', None) or []
    if o: out.append('- *Outside:* %s.\n' % '; '.join([o] if isinstance(o, str) else o))
    out.append('- *Scenarios:* %s. *Planted changes (all caught by this check):* %s.\n' % (', '.join(s['name'] for s in m.plan('quick')), ', '.join(seeds) or '-'))
out.append('\n' + open(root + '/tools/design_tail.md').read())
open(root + '/DESIGN.md', 'w').write(''.join(out))
