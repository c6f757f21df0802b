#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claimed are the properties that have a module in checks/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': 'python3 run.py --property %s --tier quick' % i,
            'thorough_cmd': 'python3 run.py --property %s --tier thorough' % i,
            'technique': 'deterministic simulation with fault injection: ' + TECH[i],
            'level': 'exploration',
            'level_note': NOTES[i],
            'evidence_file': 'evidence/%s.json' % i})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the simulator replaces libgomp at link time, MPI through the comm argument, and system calls through LD_PRELOAD', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'Checks are seeded by VERIF_SEED and rebuild the extension from /repo (instrumented, linked with the simulated OpenMP runtime) on every run, cached by content hash. Replay: python3 run.py --property ID --replay FILE.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
