"""writes MANIFEST.json: python3-vt tools/mkmanifest.py"""
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = 'contract-based deductive verification: contracts over the real source, obligations generated from the current tree, discharged by z3/sympy; same contracts evaluated at run time for replay'
PROOF = ('All contracts are discharged for all inputs and all sizes (loops by inferred and checked invariants, no bound); the same contracts are also evaluated on random inputs of the real code. '
         'Trusts: own verification-condition generator, z3, sympy; reals for floats; models of ElementTree/minidom/numpy/scipy; termination.')
OTHER = {
    'C06': 'Networks of two roads (any links, contacts, start poses, geometries, ids), of two roads and one connecting road, and four families of three roads are discharged for all inputs; larger networks and several connecting roads are evaluated at run time on random networks (bounded, not proof).',
    'C13': 'Additions of any number of elements followed by each kind of addition, and additions in lists, are discharged for all inputs; arbitrary mixed histories are evaluated at run time (bounded, not proof).',
}
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if not os.path.exists(os.path.join(V, 'contracts', i.lower() + '.py')):
        na.append(dict(property=i, reason=NA.get(i, 'contracts not written yet')))
        continue
    checks.append(dict(property=i, quick_cmd='bin/check %s quick' % i, thorough_cmd='bin/check %s thorough' % i, evidence_file='evidence/%s.json' % i,
                       technique=TECH, level='other' if i in OTHER else 'proof', level_note=OTHER.get(i, PROOF)))
json.dump(dict(version=1, setup_cmd='bash bin/setup', checks=checks, not_applicable=na,
               notes='No hooks in /repo. Fixes of genuine defects are listed in known_findings.txt. See DESIGN.md.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
