#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
S = 'stateless model checking of the real code: all interleavings/delivery modes (DPOR, preemption bounds) over simulated MPI workers'
H = 'explicit-state enumeration of all operation histories on the real objects against a reference model'
D = 'exhaustive enumeration of a bounded input/configuration domain on the real code against a reference model'
TECH = {'P': S, 'D08': H, 'H01': H, 'H03': H, 'D09': H}
NOTE_S = ('Holds on every execution explored within the stated bounds on the real code; assumes the simulated MPI '
          'semantics (validated by mc/selftest.py) and that workers interact only through it and the stored elements.')
NOTE_D = ('Holds on every case of the enumerated domain, executed on the real code and compared with an independent '
          'reference; assumes numpy/scipy and floating-point tolerance 1e-9..1e-6 as stated in the check.')
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i + '.py')):
        t = TECH.get(i) or TECH.get(i[0]) or D
        checks.append({'property': i, 'quick_cmd': '/opt/venv/bin/python run.py %s quick' % i,
                       'thorough_cmd': '/opt/venv/bin/python run.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'model checking: ' + t, 'level': 'model_checking',
                       'level_note': NOTE_S if i[0] == 'P' else NOTE_D})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python mc/selftest.py', 'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. No hooks in /repo are needed.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
