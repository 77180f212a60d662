#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and bin/props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'bin'))
import props
ids = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NA = {
}
checks, na = [], []
for p in ids:
    i = p['id']
    if i in props.PROPS:
        P = props.PROPS[i]
        specs = sorted({j.get('spec', 'CoreTrace') for j in P['jobs']} | {m['spec'] for m in P.get('mc', [])})
        checks.append(dict(property=i, quick_cmd='python3 bin/check.py %s quick' % i,
            thorough_cmd='python3 bin/check.py %s thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique='TLA+ specification (%s): TLC model checking, and TLC trace validation of the real code run on model-generated and random programs' % ', '.join(specs),
            level=props.level(i), level_note=P.get('note') or props.NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check has been built for it yet')))
json.dump(dict(version=1, setup_cmd='bash bin/setup.sh', checks=checks, not_applicable=na,
    notes='TLA+ and TLC. No hooks in /repo: the sources are compiled unchanged against a virtual kernel in harness/ by redirecting the undefined system symbols of the object files. known_findings.txt lists the repaired defects.'),
    open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
