#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the harnesses present (run by hand)."""
import json, os, re, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
checks, na = [], []
TECH = {'model_checking': 'explicit-state model checking: exhaustive bounded exploration of all operation histories, every model transition replayed on the real code',
        'exploration': 'bounded exhaustive enumeration of executions of the real code against a reference model (no sampling)',
        'fault_enumeration': 'stateless model checking: exhaustive enumeration of fault placements and rank schedules of the real code under a simulated communicator'}
for i in ids:
    src = os.path.join(V, 'harness', i + '.cc')
    if not os.path.exists(src):
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')}); continue
    m = re.search(r'VK_CHECK\("%s",\s*"(\w+)",\s*"(.*?)"\)\s*\{' % i, open(src).read(), re.S)
    lvl, rule = m.group(1), m.group(2)
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --quick' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
        'technique': TECH[lvl], 'level': lvl,
        'level_note': 'Exhaustive within the bound: ' + re.sub(r'"\s*"', '', rule) + '. Outside the bound nothing is claimed; trusts the reference model in the harness, g++ and the MPI/mesh stand-ins described in DESIGN.md.'})
json.dump({'version': 1, 'setup_cmd': 'g++ --version && python3 -m py_compile check.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. Each check compiles the sources in /repo/src it needs (no build products of /repo are used) together with its harness; see DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
