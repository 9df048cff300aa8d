#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props_table import PROPS, NA
lines = []
for p in PROPS + NA:
    lines.append(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}))
    assert len(p['title']) <= 80, p['id']
open(os.path.join(VERIF, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
checks = []
for p in PROPS:
    checks.append({'property': p['id'], 'quick_cmd': 'python3 tools/check.py %s quick' % p['id'], 'thorough_cmd': 'python3 tools/check.py %s thorough' % p['id'],
                   'technique': 'deterministic simulation with fault injection: ' + p['technique'], 'level': p['level'], 'level_note': p['level_note']})
man = {'version': 1, 'setup_cmd': 'python3 tools/build.py', 'checks': checks,
       'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
       'notes': 'No hooks in /repo: message passing, storage and allocation are replaced at link and include level (sim/include/mpi.h, sim/include/silo.h, operator new). See DESIGN.md.'}
json.dump(man, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(VERIF, 'MANIFEST.json'), 'a').write('\n')
