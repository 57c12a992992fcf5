#!/usr/bin/env python3
"""newbug.py SPEC.json: makes /verif/seeded/<id> from {id, property, needs, what_it_breaks, edits:[[file, old, new], ...],
demo: text of demo.sh, files: {name: text}} ; the edits are made in /tmp/plant/repo."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import plant
b = json.load(open(sys.argv[1])) if sys.argv[1].endswith('.json') else None
def make(b):
    plant.fresh()
    for f, old, new in b['edits']:
        p = os.path.join(plant.COPY, 'src', f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = os.path.join(V, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(plant.sh('git diff')[1])
    json.dump({k: b[k] for k in ('property', 'needs', 'what_it_breaks')}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'demo.sh'), 'w').write(b['demo'])
    for n, t in b.get('files', {}).items():
        open(os.path.join(d, n), 'w').write(t)
if b: make(b)
