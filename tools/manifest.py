#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and sim/targets.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(V, 'sim', 'targets.json')))
NA = {
 'F01': 'a pure function of its arguments: no schedule, clock, fault, stream or history for a simulator to control, so simulation would only be input generation under another name',
 'F02': 'a pure function of its arguments: no schedule, clock, fault, stream or history for a simulator to control',
 'F03': 'a pure function of its arguments: no schedule, clock, fault, stream or history for a simulator to control',
 'F04': 'a pure function of its arguments: no schedule, clock, fault, stream or history for a simulator to control',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in T:
        checks.append(dict(property=i, quick_cmd=f'python3 sim/run.py {i} quick', thorough_cmd=f'python3 sim/run.py {i} thorough',
            technique='deterministic simulation with fault injection: seeded search over call schedules and fault sequences against a reference model',
            level='exploration', level_note='real library code in a simulated process; every run is one seed, replayable and minimised on failure; coverage is sampled, not exhaustive'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'simulation of this property is designed in DESIGN.md but not built yet')))
m = dict(version=1, setup_cmd='python3 sim/build.py all', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); print(len(checks), 'checks', len(na), 'not applicable')
