"""Regenerates MANIFEST.json from sim/plan.py (claimed properties) and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim.plan import PLAN  # noqa

PURE = ('stateless pure function of its arguments: no fault, schedule, clock, I/O, randomness or history can change what it '
        'returns (its independence of history, allocator contents and threads is decided under C05-C08); correctness of the '
        'formula is input-space testing, not simulation of faults')
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if pid in PLAN:
        checks.append({
            'property': pid, 'quick_cmd': 'python3 check.py %s' % pid, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % pid,
            'technique': 'deterministic simulation with fault injection: seeded search over %s' % PLAN[pid].get(
                'search', 'scenarios and fault sequences'),
            'level': 'exploration',
            'level_note': PLAN[pid].get('note', 'seeded search: shows the property on every explored run, not on all; trusts '
                                        'the reference model in sim/, NumPy/SciPy and the seams in sim/seams.py')})
    else:
        na.append({'property': pid, 'reason': (PURE + ('' if pid not in ('C26', 'C27', 'C28') else '; as parts of a burst link under channel faults these functions are decided in C36')) if pid >= 'C23' else 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'All seams are run-time substitutions made before commpy is imported; no hook was added to /repo.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
