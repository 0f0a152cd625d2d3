#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]

NA = {
    'X01': 'a probabilistic statement about the hasher of the standard library; no static argument over this source decides it; which hasher is used is H01',
    'X02': 'an asymptotic cost summed over whole histories (amortised, and in expectation over the hasher); only its structural part, constant work of '
           'ring and single-element operations and logarithmic depth of the forest, is visible in the code, and C11, K07, D04 and D08 decide that',
}



def main():
    from vp import registry
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in NA:
            na.append({'property': i, 'reason': NA[i]})
            continue
        if registry.get(i) is None:
            na.append({'property': i, 'reason': 'the check is not built yet'})
            continue
        t, n = registry.notes(i)
        checks.append({'property': i, 'quick_cmd': 'python3 check.py --property ' + i, 'thorough_cmd': 'python3 check.py --property ' + i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': 'other', 'level_note': n})
    m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks: the analysis reads the unmodified source. Every check type-checks /repo with the client crate in witness/ and analyses the MIR of /repo.'}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


main()
