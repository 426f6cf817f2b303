#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json, os
from plan import PROPS
V = os.path.dirname(os.path.abspath(__file__))
TECH = 'symbolic execution of the LLVM IR, SAT sweeping and SMT-checked lemmas'
NOTE = ('Holds for every value of the symbolic control words and payload bytes within the concrete lengths, packet counts and configurations of plan.py (the run\'s list is in the evidence); nothing is '
        'claimed outside. Trusts clang\'s IR, the engine in engine/, z3 and minisat for "holds"; a violation is a concrete input%s.')
KIND = {'event': ', replayed with the compiled library under sanitizers where one can show it', 'func': ' that the library, compiled as its own build compiles it, was seen to fail on'}
checks = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    if i not in PROPS: continue
    j = PROPS[i][1]; oracle = {'C03': ' against the original payload', 'C19': ' of one API against the other', 'C21': ' of a packet in a batch against the packet alone'}.get(i, ' against a DVB-CSA reference') if j.asserts else ''
    t = {'C16': 'symbolic execution with a symbolic processing length', 'C22': TECH + ', uninitialised memory as tagged variables', 'C24': 'symbolic execution of the LLVM IR with the type of every write tracked, SAT-checked reachability', 'C25': 'symbolic execution of the LLVM IR with loop runs counted, SAT-checked reachability', 'C26': 'symbolic execution of the LLVM IR, SAT-checked reachability of calls with effects'}.get(i, TECH + oracle)
    checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py ' + i, 'technique': t, 'level': 'other', 'level_note': NOTE % KIND['func' if j.asserts else 'event']})
json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': json.load(open(os.path.join(V, 'not_applicable.json')))}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
