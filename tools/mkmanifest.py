#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and the rules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VG = 'static analysis: gated value graphs from the typed AST, compared in algebraic normal form with the definition'
FL = 'static analysis: structured path/dataflow analysis over the typed AST (typestate, guards, effect order)'
IO = 'static analysis: ordered I/O effect traces of writer and reader compared field by field'
EF = 'static analysis: interprocedural write-effect / purity analysis over the typed call graph'
TECH = {'T01': EF, 'T02': VG, 'T03': VG, 'T04': VG, 'T05': IO, 'T06': VG, 'M01': VG + '; heap before/after', 'M02': VG, 'M03': VG, 'M04': VG + '; symbolic differentiation',
        'M05': VG + '; symbolic differentiation', 'M06': VG, 'M07': FL, 'M08': FL, 'P01': IO, 'P02': VG + '; exhaustive enum tables', 'P03': IO, 'F01': FL, 'F02': FL,
        'D01': IO, 'D02': VG, 'D03': FL, 'D04': VG, 'X01': VG, 'X02': FL, 'B01': VG, 'L01': FL, 'L02': FL, 'L03': FL, 'L04': FL, 'H01': FL,
        'C01': 'static analysis: write-effect and lock-set analysis of parallel bodies'}
NOTE = 'Sound for the constructs it interprets; constructs outside the interpreted vocabulary are counted as undecided in the evidence and raise no alarm.'
NA = {}
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    if os.path.exists('%s/rules/%s.py' % (V, p.lower())):
        checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py %s --thorough' % p,
                       'technique': TECH[p], 'level': 'other', 'level_note': NOTE})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'not claimed yet: the rule for this property is still being built')})
json.dump({'version': 1, 'setup_cmd': 'python3 engine/setup.py', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
