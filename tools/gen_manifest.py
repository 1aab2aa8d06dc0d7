#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the list below"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
PENDING = {}   # id -> reason not claimed
exec(open(os.path.join(R, 'tools', 'pending.py')).read())
TECH = 'contract-based deductive verification: function contracts discharged over the LLVM IR of the real headers by symbolic execution and SMT, no bound on sizes'
NOTE = {}
exec(open(os.path.join(R, 'tools', 'notes.py')).read())
DEF = 'every obligation of every function under contract is discharged for all inputs on each run; bounded stand-ins, if any, are listed in the evidence and not counted as proved; library algorithms and element operations are trusted contracts'
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in PENDING: m['not_applicable'].append(dict(property=i, reason=PENDING[i])); continue
    m['checks'].append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i, technique=TECH, level='proof', level_note=NOTE.get(i, DEF)))
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
