#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules present in contracts/."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
NA = json.load(open(os.path.join(R, 'tools', 'not_applicable.json')))
NOTES = json.load(open(os.path.join(R, 'tools', 'level_notes.json')))
checks = []; na = []
for p in props:
    i = p['id']
    if i in NA and i not in NOTES: na.append({'property': i, 'reason': NA[i]}); continue
    if os.path.exists(os.path.join(R, 'contracts', i + '.py')) and i in NOTES:
        checks.append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + i,
            'technique': 'contract-based deductive verification: wrapper contracts on the real headers, symbolic execution of the front-end IR, obligations discharged by rewriting/z3/cvc5',
            'level': 'proof', 'level_note': NOTES[i]})
    else: na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
  'notes': 'No hooks: the contracts are attached to one-call wrappers generated in /verif and verified over the code clang extracts from /repo on every run.'}, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
