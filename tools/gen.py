#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification: clang AST of /repo, contracts in dv/specs, symbolic VC generation, normal forms + z3; refuted obligations replayed by an executable-contract harness on the real library'
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                                        'observe_at': p.get('observe', ['public API return values and accessors']), 'hook_needed': None}}) + '\n')
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh',
     'checks': [{'property': p['id'], 'quick_cmd': './check.py %s --tier quick' % p['id'], 'thorough_cmd': './check.py %s --tier thorough' % p['id'],
                 'technique': TECH, 'level': p.get('level', 'proof'), 'level_note': p['note'], 'theorems': p['thms']} for p in PROPS],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
     'notes': 'No hooks in /repo: no guarded code. fix: commits are listed in known-findings.json.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
