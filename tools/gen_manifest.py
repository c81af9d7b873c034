"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import registry          # noqa: E402

NOT = {
    'P01': 'A pure function of its input: no schedule, clock, I/O, randomness '
           'or second party takes part in a conversion to and from JSON, so a '
           'simulated run adds nothing to calling it. (What faults and '
           'threads can do to it is in N03, N04 and N05.)',
    'P02': 'Pure string and date conversions: nothing in them meets '
           'nondeterminism or faults.',
    'P03': 'Arithmetic on two integers: nothing in it meets nondeterminism '
           'or faults. (Resulting capacities are compared in C05.)',
    'P04': 'Pure operations on immutable descriptions: no schedule, clock, '
           'I/O or fault takes part.',
}
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
checks, missing = [], []
for p in props:
    id = p['id']
    e = registry.ENTRIES.get(id)
    if e is None:
        missing.append({'property': id, 'reason': NOT.get(
            id, 'No check yet: work in progress.')})
        continue
    checks.append({
        'property': id,
        'quick_cmd': f'python3 check.py {id} --tier quick',
        'thorough_cmd': f'python3 check.py {id} --tier thorough',
        'technique': 'deterministic simulation with fault injection: seeded '
                     'search over simulated runs' + e.technique,
        'level': 'exploration',
        'level_note': e.note or
        'Evidence by sampling: every sampled schedule and fault sequence is '
        'judged exactly, unsampled ones are not. ' +
        'Trusted: ' + '; '.join(e.stub) + ' (the simulated parts), and the '
        'reference model in sim/. ' + ('Assumes: ' + '; '.join(e.assumptions)
                                       if e.assumptions else ''),
    })
m = {
    'version': 1,
    'setup_cmd': 'python3 check.py --self-test',
    'hooks': {
        'guard': 'VERIF_REPO (not used: /repo contains no hooks)',
        'enable': 'nothing to enable: the simulator replaces the lock, clock, '
                  'entropy, file and network functions the code imports, from '
                  'outside, before importing it from /repo',
        'source_commits': [],
    },
    'checks': checks,
    'not_applicable': missing,
    'notes': 'check.py <ID> --replay FILE repeats a violation exactly. '
             'See DESIGN.md.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(missing), 'not applicable')
