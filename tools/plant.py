#!/usr/bin/env python3
"""plant.py ID [check...]: confirms a planted bug in a scratch copy of /repo (builds, passes the tests,
its demo tells the two apart), then runs checks against that copy. Default check: its property's.
plant.py --make ID: takes the scratch copy's current difference as the patch.
The scratch copy is /tmp/plant/repo; it is made when it is not there."""
import json
import os
import subprocess
import sys
import tempfile
import shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = '/tmp/plant/repo'


def sh(cmd, cwd=COPY, env=None, timeout=1800):
    e = dict(os.environ, CARGO_TARGET_DIR=COPY + '/target', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
             CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, shell=isinstance(cmd, str),
                       timeout=timeout)
    return r.returncode, r.stdout.decode('utf-8', 'replace')


def fresh():
    if not os.path.isdir(COPY):
        os.makedirs(os.path.dirname(COPY), exist_ok=True)
        subprocess.run(['cp', '-a', '/repo', COPY], check=True)
    head = subprocess.run(['git', '-C', '/repo', 'rev-parse', 'HEAD'], stdout=subprocess.PIPE).stdout.decode().strip()
    sh('git fetch -q /repo HEAD; git checkout -q -f %s; git clean -fdq' % head)


def touch():
    for d, _, fs in os.walk(COPY + '/src'):
        for f in fs:
            os.utime(os.path.join(d, f))


def demo(folder):
    with tempfile.TemporaryDirectory(dir='/tmp') as t:
        for f in os.listdir(folder):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
                shutil.copy2(os.path.join(folder, f), t)
        return sh(['bash', os.path.join(t, 'demo.sh')], timeout=300)


def main():
    if sys.argv[1] == '--fresh':
        fresh()
        return 0
    if sys.argv[1] == '--make':
        d = os.path.join(VERIF, 'seeded', sys.argv[2])
        os.makedirs(d, exist_ok=True)
        code, out = sh('git diff')
        open(os.path.join(d, 'patch.diff'), 'w').write(out)
        return 0
    bug = sys.argv[1]
    nocheck = '--no-check' in sys.argv
    norun = '--no-confirm' in sys.argv
    checks = [a for a in sys.argv[2:] if not a.startswith('-')]
    d = os.path.join(VERIF, 'seeded', bug)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    fresh()
    if not norun:
        touch()
        code, out = sh('cargo build --offline --locked')
        assert code == 0, out
        code, out = demo(d)
        print('demo on the unchanged tree:', code, '' if code == 0 else out)
    code, out = sh(['git', 'apply', os.path.join(d, 'patch.diff')])
    assert code == 0, out
    touch()
    code, out = sh('cargo build --offline --locked')
    assert code == 0, out
    if not norun:
        code, out = sh('cargo test --offline --locked 2>&1 | grep -E "test result|FAILED|failed"')
        print('tests:', out.strip())
        code, out = demo(d)
        print('demo with the change:', code, '   ', out.strip()[-300:])
    res = 0
    if not nocheck:
        for c in checks or [meta['property']]:
            code, out = sh(['python3', os.path.join(VERIF, 'check.py'), c], cwd=VERIF, env={'BCALC_REPO': COPY, 'CARGO_TARGET_DIR': ''})
            print('%s on %s: exit %d\n%s' % (c, bug, code, out[-700:]))
    fresh()
    return res


if __name__ == '__main__':
    sys.exit(main())
