#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl, vf/props.py and the notes below."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from vf.props import PROPS, NA
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'bin/check %s' % i, 'thorough_cmd': 'bin/check %s --thorough' % i,
                       'technique': 'contracts on the functions of /repo, proved by a deductive verifier (vf) over the MIR of the current source, z3 and cvc5', 'level': p.level,
                       'level_note': p.note})
na = [{'property': i, 'reason': NA.get(i, 'no contracts for it yet')} for i in ids if i not in PROPS]
json.dump({'version': 1, 'setup_cmd': 'bin/setup.sh',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks read the MIR of the unmodified crate. bin/manifest.py regenerates this file.'}, open(H + '/MANIFEST.json', 'w'), indent=1)
