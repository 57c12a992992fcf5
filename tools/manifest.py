#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks there are."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
CALC = 'TLA+ trace validation (TLC): answers of the real program against an executable specification'
SESS = 'TLA+ trace validation (TLC) of sessions and database snapshots, plus model checking of the store and session specifications'
TECH = {}
NOTE = {
 'calc': 'Every answer of the real program is recomputed by TLC from the specification; exhaustive up to the bounds named in the evidence, seeded beyond. Trusts TLC, its Java integer override and the terminal emulator.',
}
exec(open(os.path.join(V, 'tools', 'notes.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'notes.py')) else None
have = check.table()
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'technique': TECH.get(i, CALC), 'level': 'model_checking', 'level_note': NOTE.get(i, NOTE['calc'])})
    else:
        na.append({'property': i, 'reason': NOTE.get('na' + i, 'no check yet')})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks drive the unmodified program as a black box (pseudo-terminal, one-shot runs, LD_PRELOAD shim, the SQLite file); there are no hooks in /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
