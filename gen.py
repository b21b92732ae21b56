#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in props.py"""
import json, os
from props import CLAIMED, NOT_APPLICABLE
here = os.path.dirname(os.path.abspath(__file__))
out = open(os.path.join(here, 'properties.jsonl'), 'w')
M = {'version': 1, 'setup_cmd': './check.py --setup', 'checks': [], 'not_applicable': [],
     'notes': 'All checks share one front end (rk/, tool/rkir.cpp): clang bitcode of /repo\'s current sources, exported as SSA with resolved types. ./check.py <ID> [quick|thorough]; RK_REPO analyses another checkout.'}


def prop(p):
    out.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')


for p in CLAIMED:
    prop(p)
    M['checks'].append({'property': p['id'], 'quick_cmd': './check.py %s quick' % p['id'], 'thorough_cmd': './check.py %s thorough' % p['id'],
                        'technique': p['technique'], 'level': 'other', 'level_note': p['level_note']})
for p in NOT_APPLICABLE:
    prop(p)
    M['not_applicable'].append({'property': p['id'], 'reason': p['reason']})
json.dump(M, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
