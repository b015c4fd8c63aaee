#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the contract files present and the notes below."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
NOTES = {}
if os.path.exists(V + '/tools/notes.json'):
    NOTES = json.load(open(V + '/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    f = f'{V}/contracts/{i}.gvc'
    if i in NA or not os.path.exists(f):
        na.append({'property': i, 'reason': NA.get(i, 'no contract within reach decides it yet')})
        continue
    text = open(f).read()
    assumes = re.findall(r'^assume "(.*)"', text, re.M)
    note = NOTES.get(i, 'Every obligation generated from the current source of the functions under contract is discharged by an SMT solver, for all inputs, iterations and (through lock invariants) interleavings.')
    note += ' Trusted: the condition generator govc, go/ssa, the solvers, and the contracts assumed for external functions (listed per run in the evidence).'
    if assumes:
        note += ' Assumes: ' + '; '.join(assumes) + '.'
    checks.append({
        'property': i,
        'quick_cmd': f'./check.sh {i}',
        'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {i}',
        'technique': 'contract-based deductive verification of the real Go code (govc: VC generation over go/ssa, SMT back ends z3/cvc5), refutations replayed by generated tests on the real code',
        'level': 'proof',
        'level_note': note,
    })
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Contracts in contracts/*.gvc; generator in govc/; replay finders in finders/. See DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
