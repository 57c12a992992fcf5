"""Building, running TLC on traces, and the frame every check shares."""
import fcntl
import glob
import hashlib
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

import drive

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BCALC_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SPEC = os.path.join(VERIF, 'spec')
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
SHARD_TIMEOUT = int(os.environ.get('BCALC_SHARD_TIMEOUT') or (240 if TIER == 'quick' and sys.argv[2:3] != ['thorough'] else 1500))
WORKERS = max(2, min(8, os.cpu_count() or 8))
SHIM = os.path.join(BUILD, 'shim.so')
CLASSES = os.path.join(BUILD, 'classes')


class ToolError(Exception):
    pass


class TookLong(ToolError):
    def __init__(self, what, level):
        super().__init__(what)
        self.level = level          # of the behaviour TLC was at, if it said


def scratch_root():
    return '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else '/tmp'


# ---- building -------------------------------------------------------------------------------
def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        try:
            with open(p, 'rb') as f:
                h.update(f.read())
        except OSError:
            h.update(b'?')
    return h.hexdigest()


def build_tools():
    """The shim and the Java class: built from the committed sources when they are not there."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        src = glob.glob(os.path.join(VERIF, 'java', '*.java')) + [os.path.join(VERIF, 'shim', 'shim.c')]
        want = digest(src)
        stamp = os.path.join(BUILD, 'stamp')
        if os.path.exists(stamp) and open(stamp).read() == want and os.path.exists(SHIM):
            return
        os.makedirs(CLASSES, exist_ok=True)
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-Wall', '-o', SHIM,
                        os.path.join(VERIF, 'shim', 'shim.c'), '-ldl'], check=True)
        subprocess.run(['javac', '-nowarn', '-cp', TLA, '-d', CLASSES,
                        *glob.glob(os.path.join(VERIF, 'java', '*.java'))], check=True,
                       stderr=subprocess.DEVNULL)
        with open(stamp, 'w') as f:
            f.write(want)


def build_binary():
    """Builds /repo's working tree (as /opt/vp/build.sh does) and returns the program's path."""
    env = dict(os.environ)
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh && env -0'], stdout=subprocess.PIPE,
                         check=False)
    if out.returncode == 0:
        for item in out.stdout.split(b'\0'):
            k, _, v = item.decode('utf-8', 'replace').partition('=')
            if k.startswith('CARGO') or k in ('HOME', 'PATH', 'RUSTUP_TOOLCHAIN', 'RUSTC_WRAPPER'):
                env[k] = v
    env.setdefault('CARGO_NET_OFFLINE', 'true')
    target = os.path.join(REPO, 'target')
    env['CARGO_TARGET_DIR'] = target
    os.makedirs(target, exist_ok=True)
    binary = os.path.join(target, 'debug', 'bcalc')
    src = []
    for d, dirs, files in os.walk(REPO):
        dirs[:] = [x for x in dirs if x not in ('target', '.git')]
        src += [os.path.join(d, f) for f in files]
    with open(os.path.join(target, '.verif-lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = digest(src)
        stamp = os.path.join(target, '.verif-stamp')
        have = open(stamp).read() if os.path.exists(stamp) else ''
        if have != want + ' ' + (digest([binary]) if os.path.exists(binary) else ''):
            # Not cargo's time stamps but the contents decide whether to build again.
            for d in glob.glob(os.path.join(target, 'debug', '.fingerprint', 'bcalc-*')):
                shutil.rmtree(d, ignore_errors=True)
            r = subprocess.run(['cargo', 'build', '--offline', '--locked', '--bin', 'bcalc'],
                               cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise ToolError('the build failed:\n' + r.stdout.decode('utf-8', 'replace')[-3000:])
            with open(stamp, 'w') as f:
                f.write(want + ' ' + digest([binary]))
    return binary


# ---- TLC ------------------------------------------------------------------------------------
def tlc_cmd(module, cfg, meta, workers=1, mem='1500m', extra=(), jvm=()):
    return ['java', '-Xss256m', '-Xmx' + mem, '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
            *jvm, '-cp', TLA + ':' + CLASSES,
            '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:BcalcOverrides',
            '-Dtlc2.TLCGlobals.progressInterval=5', '-Dtlc2.TLC.progressInterval=5',
            'tlc2.TLC', '-workers', str(workers), '-noGenerateSpecTE', '-nowarning', '-metadir', meta,
            *extra, '-config', os.path.join(SPEC, cfg + '.cfg'), os.path.join(SPEC, module + '.tla')]


def run_tlc(module, cfg=None, env=None, workers=1, mem='1500m', timeout=900, extra=(), jvm=()):
    """Runs TLC; returns its output. ToolError on anything but a completed check."""
    meta = tempfile.mkdtemp(prefix='tlc', dir=scratch_root())
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(tlc_cmd(module, cfg or module, meta, workers, mem, extra, jvm), env=e, cwd=meta,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        levels = re.findall(r'^Progress\((\d+)\)', (ex.stdout or b'').decode('utf-8', 'replace'), re.M)
        raise TookLong('TLC took too long on %s' % module, int(levels[-1]) if levels else None) from ex
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout.decode('utf-8', 'replace')


def printed(out):
    """The JSON values a specification printed."""
    res = []
    for line in out.splitlines():
        if line.startswith('"{') and line.endswith('}"'):
            try:
                res.append(json.loads(json.loads(line)))
            except ValueError:
                pass
    return res


def count_states(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def defined(v):
    return all(map(defined, v.values() if isinstance(v, dict) else v)) if isinstance(v, (dict, list, tuple)) else v is not None


def definite(v):
    # the specification's values have nothing that corresponds to null
    if isinstance(v, dict):
        return {k: definite(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [definite(x) for x in v]
    return '!null' if v is None else v


def validate(events, module='TraceCalc', env=None, path=None, timeout=900, cfg=None):
    """Does the specification accept these events? -> (index of the first rejected event or None, info)"""
    own = path is None
    if own:
        fd, path = tempfile.mkstemp(prefix='trace', suffix='.ndjson', dir=scratch_root())
        os.close(fd)
    with open(path, 'w') as f:
        for ev in events:
            f.write(json.dumps(ev if defined(ev) else definite(ev), ensure_ascii=True, separators=(',', ':')) + '\n')
    e = {'TRACE': path}
    e.update(env or {})
    try:
        code, out = run_tlc(module, cfg, env=e, timeout=timeout)
    finally:
        if own:
            os.unlink(path)
    p = printed(out)
    acc = [x for x in p if 'accepted' in x]
    gen, _ = count_states(out)
    at = re.findall(r'^/\\ l = (\d+)', out, re.M)
    if code != 0 and at and 'nested' in out and not re.search('OutOfMemory|StackOverflow|overrides.Json', out):
        # An event that has no meaning in the specification (a text where a number belongs, say) is not one of its events
        n = max(map(int, at)) - 1
        err = out[out.find('Error:'):][:600]
        return n, {'states': gen, 'reject': [{'reject': n + 1, 'error': err}], 'expected': {'reject': n + 1, 'error': err}}
    if code != 0 or not acc:
        raise ToolError('TLC failed on %s:\n%s' % (module, out[-3000:]))
    n = acc[-1]['accepted']
    if n == len(events):
        return None, {'states': gen}
    rej = [x for x in p if x.get('reject') == n + 1]
    return n, {'states': gen, 'reject': rej[-8:], 'expected': rej[-1] if rej else None}


def judge(events, owner, again, module, focus, tries=4, recorded=None, timeout=None):
    """Validates the traces of many units (owner: the unit of every event). One that is rejected is run once more by itself
    (again(unit) -> events), several times if need be; if it is not rejected then, it is left out and the rest is validated.
    -> (states, None or what was rejected, rejections that could not be repeated)"""
    env, states, unconfirmed = {'FOCUS': focus} if focus else {}, 0, []
    stuck = 0
    while events:
        try:
            bad, info = validate(events, module, env=env, timeout=timeout or SHARD_TIMEOUT)
        except TookLong as ex:
            # A unit whose answers take the specification too long says nothing; the others still do
            stuck += 1
            if stuck > 2 or ex.level is None:
                raise
            last = max(i for i, o in enumerate(owner) if o == owner[min(ex.level - 1, len(owner) - 1)])
            unconfirmed.append('not judged (it takes the specification too long): ' + str({x: y for x, y in events[last].items() if x != 'db'})[:300])
            events, owner = events[last + 1:], owner[last + 1:]
            continue
        states += info['states']
        if bad is None:
            break
        k = owner[bad]
        for t in range(tries + 1):
            drive.Session.waited = 0
            if t < tries:
                ev = again(k)
            elif recorded and recorded(k):      # what was recorded, on its own
                ev = [e for e, o in zip(events, owner) if o == k]
            else:
                break
            n, info = validate(ev, module, env=env)
            if n is not None:
                return states, {'k': k, 'before': ev[:n], 'event': ev[n], 'specification': info['reject']}, unconfirmed
        unconfirmed.append(str({x: y for x, y in events[bad].items() if x != 'db'})[:600])
        last = max(i for i, o in enumerate(owner) if o == k)
        events, owner = events[last + 1:], owner[last + 1:]
    return states, None, unconfirmed


def model_check(module, cfg=None, workers=WORKERS, mem='8g', timeout=900, env=None, extra=()):
    """Exhaustive check of a model. Returns (ok, states, distinct, output)."""
    code, out = run_tlc(module, cfg, workers=workers, mem=mem, timeout=timeout, env=env, extra=extra)
    ok = code == 0 and 'No error has been found' in out
    if not ok and code not in (10, 11, 12, 13):
        raise ToolError('TLC failed on %s:\n%s' % (module, out[-3000:]))
    gen, distinct = count_states(out)
    return ok, gen, distinct, out


# ---- checks ---------------------------------------------------------------------------------
class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


class Check:
    """Collects what was covered; turns violations into the required output."""

    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.found = [], {}, []
        self.assumptions = []
        self.known = []
        self.scratch = tempfile.mkdtemp(prefix='bcalc-%s-' % prop, dir=scratch_root())

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def left(self, quick=600, thorough=3 * 3600):
        """Seconds left of this run's budget."""
        return (thorough if self.thorough else quick) - (time.time() - self.t0)

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def known_finding(self, name):
        """Is this in the committed file of genuine defects that are not repaired? If so it is only reported."""
        head = 'known: property=%s %s: ' % (self.prop, name)
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                if line.startswith(head):
                    self.known.append('%s: %s' % (name, line[len(head):].strip()))
                    return True
        return False

    def violation(self, what, replay):
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (self.prop, len(self.found) + 1))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'what': what, 'replay': replay}, f, indent=1)
        self.found.append((what, path))

    def finish(self, error=None):
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'events_validated': self.events,
               'samples': self.samples or ['(none)']}
        cov.update(self.notes)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': SEED, 'level': 'model_checking',
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.found)}
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for what in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        for what, path in self.found:
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  ' + what)
        if self.found:
            return 1
        if error:
            print('ERROR in check %s: %s' % (self.prop, error))
            return 2
        print('OK property=%s: %d events in %d traces accepted, %d states, %.1f s'
              % (self.prop, self.events, self.traces, self.states, time.time() - self.t0))
        return 0


def _job(args):
    fn, a = args
    try:
        return ('ok', fn(*a))
    except Exception as ex:                                     # noqa: BLE001
        return ('error', str(ex) if isinstance(ex, ToolError) else '%s\n%s' % (ex, traceback.format_exc()))


def pool_map(fn, arglists, workers=WORKERS, stop=None):
    """fn(*args) for every args, in parallel; stops early once `stop(result)` is true."""
    out = []
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(workers, maxtasksperchild=8) as pool:
        for kind, r in pool.imap_unordered(_job, [(fn, a) for a in arglists]):
            if kind == 'error':
                pool.terminate()
                raise ToolError(r)
            out.append(r)
            if stop and stop(r):
                pool.terminate()
                break
    return out


def rng(*parts):
    return random.Random('/'.join(str(p) for p in (SEED, *parts)))
