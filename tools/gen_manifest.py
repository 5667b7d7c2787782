#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS, GROUPS
NA = {'P90': 'pure function of its argument: no schedule, clock, I/O, fault or multi-party behaviour for a simulation to vary',
      'P91': 'pure function of its argument: no schedule, clock, I/O, fault or multi-party behaviour for a simulation to vary',
      'P92': 'pure function of its arguments: no schedule, I/O, fault or multi-party behaviour for a simulation to vary'}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 run.py --build P01', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo: the seams are the pthread/libc/dl symbols, the Boost.Asio headers and the compiler instrumentation, all replaced at build time from /verif/sim. Every check rebuilds from /repo\'s working tree. Findings: known_findings.txt.'}
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 run.py %s' % i, 'thorough_cmd': 'python3 run.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
            'technique': 'deterministic simulation with fault injection (seeded search over schedules and faults)', 'level': 'exploration',
            'level_note': c.get('note', 'Sampled search: a clean batch is evidence for the schedules, faults and workloads explored, not proof. Real code: %s. Trusted: the simulator core and %s.' % (', '.join(GROUPS[c['group']]['sources']), '; '.join(GROUPS[c['group']].get('stubs', [])) or 'the harness oracle'))})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(m['checks']), 'checks', len(m['not_applicable']), 'n/a')
