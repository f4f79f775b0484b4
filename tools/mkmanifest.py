#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl and sim/props.py.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sim'))
from props import PROPS
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
    'C30': 'Pure arithmetic on values: no schedule, clock, I/O, fault or history for a simulator to decide.',
    'C31': 'Compile-time computation and fault-free round trips: nothing nondeterministic to simulate (the behaviour under faults is C06 and C25).',
    'C32': 'Pure functions of strings and numbers: no schedule, clock, I/O, fault or history for a simulator to decide.',
    'C33': 'Pure functions of two values: no schedule, clock, I/O, fault or history for a simulator to decide.',
}
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd='python3 sim/check.py %s quick' % i, thorough_cmd='python3 sim/check.py %s thorough' % i,
            technique='deterministic simulation with fault injection: seeded search over schedules, faults and histories, checked against ' + PROPS[i]['oracle'],
            level='exploration',
            level_note='Real code of ' + ', '.join(PROPS[i]['real']) + ' runs in the simulator; every violation is replayable from its seed and minimised. Not exhaustive. Assumes: ' + '; '.join(PROPS[i]['assumptions']) + '.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'No check yet.')))
m = dict(version=1, setup_cmd='python3 sim/check.py --selftest', checks=checks, not_applicable=na,
    notes='No hooks in /repo are needed: the simulator takes over operating system, pthread, clock, heap and atomic operations below the unchanged sources at link and compile time. See DESIGN.md. Replay a violation with: python3 sim/check.py --replay FILE')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
