#!/usr/bin/env python3
# Writes MANIFEST.json from props.json and properties.jsonl.
import json, os
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = json.load(open(d + '/props.json'))
checks, na = [], []
for line in open(d + '/properties.jsonl'):
    p = json.loads(line)
    c = props.get(p['id'])
    if not c or not c.get('roots'):
        na.append({'property': p['id'], 'reason': (c or {}).get('reason', 'contracts not written yet')})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': './check.sh %s quick' % p['id'],
        'thorough_cmd': './check.sh %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': 'contract-based deductive verification of the Go source (weakest-precondition style symbolic execution of its SSA form, loop invariants, SMT), failing inputs replayed on the real code',
        'level': 'proof',
        'level_note': c.get('level_note', 'Every obligation generated from the current source is discharged, for all inputs and iterations; dependencies are represented by models, which are assumed and compared with the real functions at run time. Integers are mathematical.'),
        'theorems': [r for r in c['roots']],
    })
m = {'version': 1, 'setup_cmd': './check.sh build',
     'hooks': {'guard': 'none', 'enable': 'no hooks: contracts lie beside the code in /verif/spec and are laid over the package by the verifier', 'source_commits': []},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(d + '/MANIFEST.json', 'w'), indent=1)
