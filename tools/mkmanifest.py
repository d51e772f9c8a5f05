#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
na = dict(getattr(props, 'NA', {}))
checks = []
for i in ids:
    if i not in props.PROPS:
        na.setdefault(i, 'no check built yet')
        continue
    p = props.PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
        technique='symbolic execution of the LLVM IR of the real code, z3 verdicts over all inputs within bounds, native replay of counterexamples',
        level='model_checking', level_note=p.get('note', 'bounded: ' + p.get('bounds', 'see evidence coverage.jobs')) ))
m = dict(version=1, setup_cmd='bash engine/build.sh build', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(na.items())],
         notes='Machinery: engine/ (symbolic executor for LLVM IR on z3), harness/ (properties as harnesses), check.py (driver), props.py (jobs and bounds), DESIGN.md. No hooks in /repo.')
with open(os.path.join(H, 'MANIFEST.json'), 'w') as o:
    json.dump(m, o, indent=1); o.write('\n')
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'checks', len(na), 'n/a')
