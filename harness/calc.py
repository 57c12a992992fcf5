"""Runs lines through the real program (sessions without saved data, or one-shot) and has
TraceCalc judge the answers."""
import os
import shutil
import subprocess
import tempfile

import drive
import lib
from drive import Died, Session, Stuck, patience

DEFAULTS = dict(radix=10, out=0, prec=5, extra=10, frac=False, commas=False, upper=False)


def cfg_args(cfg):
    a = []
    if 'radix' in cfg:
        a += ['-r', str(cfg['radix'])]
    if cfg.get('out'):
        a += ['--convert-to-radix', str(cfg['out'])]
    if 'prec' in cfg:
        a += ['-p', str(cfg['prec'])]
    if 'extra' in cfg:
        a += ['--extra-precision', str(cfg['extra'])]
    for k, f in (('frac', '-f'), ('commas', '-c'), ('upper', '-u')):
        if cfg.get(k):
            a.append(f)
    return a


def run_session(binary, cfg, lines, scratch, timeout=30.0, cols=200, alt=False):
    """-> events"""
    ev = [{'e': 'start', 'cfg': cfg, 'has': ['vars']}]
    s = Session(binary, ['--no-db', *(['-a'] if alt else []), *cfg_args(cfg)], cols=cols, rows=50,
                shim=lib.SHIM, scratch=scratch, timeout=timeout, wait=False)
    try:
        try:
            if not s.wait_prompt(0):
                ev.append({'e': 'line', 'text': '', 'out': ['!ended at start', *tail(s)]})
                return ev
            for text in lines:
                out = s.line(text)
                if out is None:
                    ev.append({'e': 'line', 'text': text, 'out': ['!ended', *tail(s)]})
                    return ev
                ev.append({'e': 'line', 'text': text, 'out': out})
        except Stuck:
            ev.append({'e': 'line', 'text': text if lines else '', 'out': ['!no answer']})
        except (Died, OSError) as ex:
            ev.append({'e': 'line', 'text': text if lines else '', 'out': ['!ended', repr(ex)]})
        return ev
    finally:
        s.close()


def run_recalled(binary, args, cols, text, scratch):
    """A saved line is recalled, submitted, and followed by another line. -> events (the text is cut short)"""
    import store
    d = tempfile.mkdtemp(prefix='data', dir=scratch)
    store.build_db(d, {'hist': [[1, text]], 'cap': 100})
    ev = [{'e': 'start', 'cfg': {}, 'has': ['vars']}]
    s = Session(binary, args, cols=cols, rows=20, shim=lib.SHIM, data_dir=d, scratch=scratch, timeout=60.0, wait=False)
    try:
        for k in (None, 'up', 'enter', '1', 'left', 'enter'):
            try:
                ok = s.wait_prompt(0) if k is None else s.key(k)
            except Stuck:
                ok = None
            except (Died, OSError):
                ok = False
            ev.append({'e': 'line', 'text': '%s..., %s' % (text[:20], k), 'out': ['ok'] if ok else ['!no answer'] if ok is None else ['!ended', *tail(s)]})
            if not ok:
                break
        return ev
    finally:
        s.close()
        shutil.rmtree(d, ignore_errors=True)


def tail(s):
    return [x for x in s.err.decode('utf-8', 'replace').split('\n') if x][-3:]


def oneshot(binary, cfg, text, timeout=30.0, flag='-i', env=None):
    """-> (exit status, stdout, stderr); status None on a timeout"""
    e = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'RUST_BACKTRACE': '0'}
    e.update(env or {})
    arg = [flag + '=' + text] if flag.startswith('--') else [flag, text]
    if flag == '-i':
        arg = ['-i' + text] if text[:1] not in ('', '=') else ['--input=' + text]
    try:
        r = subprocess.run([binary, *cfg_args(cfg), *arg], stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=patience(timeout))
    except subprocess.TimeoutExpired:
        Session.waited += 1
        return None, '', ''
    return r.returncode, r.stdout.decode('utf-8', 'replace'), r.stderr.decode('utf-8', 'replace')


def oneshot_event(binary, cfg, text):
    code, out, err = oneshot(binary, cfg, text)
    if code is None:
        lines = ['!no answer']
    elif code != 0 or (out and err) or not (out + err).endswith('\n'):
        lines = ['!exit %s' % code, out, err]
    else:
        # an error has to be on stderr, a result on stdout
        lines = (out or err)[:-1].split('\n')
        if bool(err) != (err[:7] == 'Error: ') or (out and out.startswith('Error: ')):
            lines = ['!wrong stream', out, err]
    return {'e': 'line', 'text': text, 'out': lines}


def run_oneshots(binary, cfg, lines):
    ev = []
    for t in lines:             # every run is a new session
        ev += [{'e': 'start', 'cfg': cfg, 'has': []}, oneshot_event(binary, cfg, t)]
    return ev


def run_unit(binary, unit, scratch):
    if unit.get('oneshot'):
        return run_oneshots(binary, unit['cfg'], unit['lines'])
    return run_session(binary, unit['cfg'], unit['lines'], scratch, alt=unit.get('alt', False))


def shard(binary, units, focus, scratch):
    """Runs the units, validates the trace. A unit: {cfg, lines, oneshot?}"""
    events, owner = [], []
    drive.Session.waited = 0
    for u, unit in enumerate(units):
        if drive.Session.waited > 8:       # no more needs to be seen
            break
        ev = run_unit(binary, unit, scratch)
        owner += [(u, i) for i in range(len(ev))]
        events += ev
    bad, info, states, left = None, {'states': 0}, 0, []
    while events:
        try:
            bad, info = lib.validate(events, env={'FOCUS': focus}, timeout=lib.SHARD_TIMEOUT)
            break
        except lib.TookLong as ex:      # a unit that takes the specification too long says nothing; the others still do
            if ex.level is None or len(left) == 2:
                raise
            at = min(ex.level - 1, len(events) - 1)
            left.append(str(events[at])[:300])
            states += at
            k = max(i for i, o in enumerate(owner) if o[0] == owner[at][0]) + 1
            events, owner = events[k:], owner[k:]
    res = {'units': len(units), 'events': len(events), 'states': info['states'] + states, 'bad': None, 'left': left,
           'sample': [e for e in events if e['e'] == 'line'][:1] + [e for e in events if e['e'] == 'line'][-1:]}
    if bad is not None:
        u, i = owner[bad]
        res['bad'] = dict(unit=units[u], upto=i, event=events[bad], expected=info['expected'])
    return res


def confirm(binary, bad, focus, scratch):
    """The rejected line once more, on its own if that is enough. -> replay or None"""
    unit, n = bad['unit'], bad['upto']
    tries = [dict(unit, lines=unit['lines'][n - 1:n])] if n > 1 else []
    if n > 12:
        tries.append(dict(unit, lines=unit['lines'][n - 10:n]))
    tries += [dict(unit, lines=unit['lines'][:n])] * 4
    for t in tries:
        Session.waited = 0
        ev = run_unit(binary, t, scratch)
        r, info = lib.validate(ev, env={'FOCUS': focus})
        if r is not None:
            return {'flags': cfg_args(t['cfg']), 'oneshot': bool(t.get('oneshot')),
                    'lines': t['lines'], 'answer': ev[r], 'specification': info['expected']}
    return None


def run_check(check, binary, units, focus='full', per_shard=None, budget=None):
    """Distributes the units over processes; reports a confirmed violation."""
    total = sum(len(u['lines']) + 1 for u in units)
    per = per_shard or max(200, min(6000, total // lib.WORKERS + 1))
    shards, cur, n = [], [], 0
    for u in units:
        cur.append(u)
        n += len(u['lines']) + 1
        if n >= per:
            shards.append(cur)
            cur, n = [], 0
    if cur:
        shards.append(cur)
    res = lib.pool_map(shard, [(binary, s, focus, check.scratch) for s in shards])
    for r in res:
        check.events += r['events']
        check.traces += r['units']
        check.states += r['states']
        check.transitions += max(0, r['states'] - 1)
        for s in r['sample']:
            check.sample(s)
        if r['left']:
            check.notes.setdefault('not_judged_too_long', []).extend(r['left'])
    for r in res:
        if r['bad'] is not None:
            rep = confirm(binary, r['bad'], focus, check.scratch)
            if rep is None:
                check.notes.setdefault('unconfirmed', []).append(str(r['bad'])[:500])
                continue
            check.violation('%r -> %r, which the specification does not allow (%s)'
                            % (rep['lines'][-1], rep['answer']['out'], str(rep['specification'])[:400]), rep)
            return False
    return True


def oneshot_raw(binary, args, timeout=30.0):
    try:
        r = subprocess.run([binary, *args], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=patience(timeout),
                           env={'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'RUST_BACKTRACE': '0'})
    except subprocess.TimeoutExpired:
        Session.waited += 1
        return -999, '', 'no answer'
    return r.returncode, r.stdout.decode('utf-8', 'replace'), r.stderr.decode('utf-8', 'replace')
