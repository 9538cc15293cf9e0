#!/usr/bin/env python3
"""Rewrites /verif/MANIFEST.json from the checks that exist under /verif/checks."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
try: na = json.load(open(root + '/tools/not_applicable.json'))
except FileNotFoundError: na = {}
checks, not_app = [], []
LEVEL_NOTE = ("Bounded symbolic execution of the real source of /repo, re-encoded on every run: every branch on a symbolic "
  "value is decided by z3, both feasible sides are explored, so the verdict covers all values within the bounds stated in the "
  "check's evidence and DESIGN.md. Trusts: the rewriter and the environment model (file system, clock, sqlite wrapper, ideal hash "
  "and ideal crypto, sockets, S3) - validated each run by replaying solver models on the unmodified code with the real environment. "
  "Nothing is claimed outside the bounds.")
for p in props:
    if os.path.exists(root + '/checks/%s.py' % p['id'].lower()) and p['id'] not in na:
        c = 'python3-vt /verif/run.py %s' % p['id']
        checks.append({'property': p['id'], 'quick_cmd': c, 'thorough_cmd': c + ' --thorough',
          'evidence_file': 'evidence/%s.json' % p['id'],
          'technique': 'symbolic execution of the real Python source with z3 (all paths within bounds), counterexamples replayed on the unmodified code',
          'level': 'model_checking', 'level_note': LEVEL_NOTE})
    else:
        not_app.append({'property': p['id'], 'reason': na.get(p['id'], 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt /verif/run.py --selftest', 'checks': checks, 'not_applicable': not_app,
  'notes': 'See DESIGN.md. No hooks in /repo: the environment is modelled from outside by the loader.'},
  open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(not_app), 'not claimed')
