#!/usr/bin/env python3
"""sweep.py [ID...]: plants each bug in the scratch copy and runs its property's check; one line per bug."""
import json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(plant.VERIF, 'seeded')))
for b in ids:
    d = os.path.join(plant.VERIF, 'seeded', b)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    plant.fresh()
    code, out = plant.sh(['git', 'apply', os.path.join(d, 'patch.diff')])
    if code:
        print(b, 'DOES NOT APPLY'); continue
    t = time.time()
    code, out = plant.sh(['python3', os.path.join(plant.VERIF, 'check.py'), meta['property']], cwd=plant.VERIF,
                         env={'BCALC_REPO': plant.COPY, 'CARGO_TARGET_DIR': ''})
    hit = 'VIOLATION property=' + meta['property'] in out
    print('%-40s %s exit %d (%d s) %s' % (b, 'caught' if code == 1 and hit else 'MISSED', code, time.time() - t,
                                          '' if code == 1 and hit else out.strip()[-300:]), flush=True)
plant.fresh()
