"""C18, C19, C26, C27: kills at every disk operation; interleaved transactions; real contention."""
import errno
import itertools
import os
import shutil
import tempfile
import time

import calc
import drive
import lib
import power
import store
from checks_store import model, some_line, NAMES
from drive import Stuck


def run_on(check, fn, units, binary, focus, n=None):
    """Spreads units over processes; one TLC run for each share."""
    k = min(len(units), n or lib.WORKERS * max(1, len(units) // 300))
    res = lib.pool_map(conc_shard, [(fn, binary, units[i::k], focus, check.scratch) for i in range(k)], stop=lambda r: r['bad'] is not None)
    for r in res:
        check.events += r['events']
        check.traces += r['n']
        check.states += r['states']
        check.transitions += max(0, r['states'] - 1)
        for s in r['sample']:
            check.sample(s)
        for key, v in r['notes'].items():
            check.notes[key] = check.notes.get(key, 0) + v
        if r['unconfirmed']:
            check.notes.setdefault('unconfirmed', []).extend(r['unconfirmed'])
    for r in res:
        if r['bad'] is not None:
            b = r['bad']
            check.violation('%s\n  specification: %s' % (str(b['event'])[:700], str(b['specification'])[:900]), b)
            return False
    return True


def conc_shard(fn, binary, units, focus, scratch):
    events, owner, notes = [], [], {}
    drive.Session.waited = 0
    for k, u in enumerate(units):
        if drive.Session.waited > 8:       # no more needs to be seen
            break
        ev, nt = fn(binary, u, scratch)
        events += ev
        owner += [k] * len(ev)
        for key, v in nt.items():
            notes[key] = notes.get(key, 0) + v
    res = {'n': len(units), 'events': len(events), 'states': 0, 'bad': None, 'notes': notes,
           'sample': [store.strip(e) for e in events if e['e'] in ('killed', 'answer', 'round', 'burst')][-1:]}
    # what happens with real contention need not happen again, a wrong outcome is one all the same, so it counts if it is
    # rejected again, or if the recorded history alone is
    res['states'], bad, res['unconfirmed'] = lib.judge(events, owner, lambda k: fn(binary, units[k], scratch)[0], 'TraceSession', focus, 6,
                                                       lambda k: units[k].get('free'))
    if bad:
        res['bad'] = {'unit': units[bad['k']], 'steps': [store.strip(e) for e in bad['before']], 'event': bad['event'],
                      'specification': bad['specification']}
    return res


# ---- C18 --------------------------------------------------------------------------------------
def copy_snapshot(data_dir, scratch):
    """The tables as they are found by whoever opens them next (without disturbing the files)."""
    import sqlite3
    d = tempfile.mkdtemp(prefix='copy', dir=scratch)
    try:
        shutil.copytree(os.path.join(data_dir, 'bcalc'), os.path.join(d, 'bcalc'))
        con = sqlite3.connect(store.db_path(d))
        try:
            con.execute('SELECT count(*) FROM sqlite_master').fetchall()
        finally:
            con.close()
        return store.snapshot(store.db_path(d))
    except (sqlite3.Error, OSError) as ex:
        return {'rows': [], 'front': 0, 'back': 0, 'cap': '0', 'vars': [], 'meta': [0, 0], 'rest': [], 'bad': [repr(ex)]}
    finally:
        shutil.rmtree(d, ignore_errors=True)


AFTER = ['$a', '$b', '9', '/histcap']


def killed(binary, unit, scratch):
    """unit: {before: [lines], line, others?: bool, every?: n}: the line is killed at its 1st, 2nd, ... disk operation, each time
    from the same saved data."""
    events, notes = [], {'kill_points': 0}
    base = store.Runner(binary, scratch)
    try:
        base.open('p', {})
        for t in unit['before']:
            base.line('p', t)
        base.end('p')
        events += base.events
        if base.dead:
            return events, notes
        n = unit.get('first', 1)
        while n < 400:
            r = store.Runner(binary, scratch)
            try:
                shutil.copytree(os.path.join(base.dir, 'bcalc'), os.path.join(r.dir, 'bcalc'))
                r.events = [{'e': 'given', 'db': r.snap()}]
                r.open('p', {})
                if r.dead:
                    events += r.events
                    return events, notes
                for t in unit.get('warm', []):
                    r.line('p', t)
                if unit.get('others'):
                    r.open('q', {})
                    r.line('q', '$a')
                s = r.ses['p']
                s.cset('KILLAT', n)
                s.cset('ARMED', 1)
                ended = s.line(unit['line'])
                if ended is not None:
                    s.cset('ARMED', 0)
                    r.events.append({'e': 'line', 's': 'p', 'text': unit['line'], 'out': ended, 'db': r.snap()})
                    r.end('p')
                    events += r.events
                    return events, notes
                notes['kill_points'] += 1
                r.events.append({'e': 'killed', 's': 'p', 'text': unit['line'], 'db': copy_snapshot(r.dir, scratch)})
                r.ses.pop('p').close()
                if unit.get('others') and n % 2:
                    r.line('q', '$b')
                r.open('t', {})
                for t in AFTER:
                    if not r.dead:
                        r.line('t', t)
                if unit.get('others') and not r.dead:
                    r.line('q', '8')
                events += r.events
                if r.dead:
                    return events, notes
            finally:
                r.close()
            n += unit.get('step', 1)
        return events, notes
    finally:
        base.close()


def killed_start(binary, unit, scratch):
    """Kills a start at every disk operation, on saved data that is or is not there yet."""
    events, notes = [], {'kill_points': 0}
    n = 1
    while n < 200:
        r = store.Runner(binary, scratch)
        try:
            if unit.get('given') is not None:
                store.build_db(r.dir, unit['given'])
                r.events.append({'e': 'given', 'db': r.snap()})
            s = r.start('p', {})
            s.cset('KILLAT', n)
            s.cset('ARMED', 1)
            try:
                up = s.wait_prompt(0)
            except Stuck:
                up = False
            r.ses.pop('p').close()
            if not up:
                notes['kill_points'] += 1
            r.open('t', {})
            for t in AFTER:
                if not r.dead:
                    r.line('t', t)
            events += r.events
            if r.dead or up:
                return events, notes
        finally:
            r.close()
        n += 1
    return events, notes


def killed_any(binary, unit, scratch):
    return (killed_start if unit.get('start') else killed)(binary, unit, scratch)


def c18(check, binary):
    rnd = lib.rng('C18', check.tier)
    model(check, 'MC_Bcalc', cfg='MC_CrashTwice' if check.thorough else 'MC_Crash')
    full = ['/histcap 3', '$a = 1/3', '$b = 22', '2']        # the next line evicts the assignment of $a
    room = ['$a = 1/3', '$b = -22', '1']
    units = []
    targets = ['$a = 5', '$a = $a + 1', '$c = $a + $b', '$a + $b', '1', '1 +', '$nope', '$a = 1/0', '/histcap 1', '/histcap 2', '/histcap 50',
               '/purgevar $a $b', '/reloadvar $a $b', '/histcap', '', '$b = $a * $a', '/r 7', '/nope']
    befores = [[], room, full, ['/histcap 1', '$a = 3'], ['/histcap 2', '$a = 3', '$b = $a']]
    for b in befores:
        for t in targets:
            if check.thorough or b in (room, full) or rnd.random() < .4:
                units.append({'before': b, 'line': t})
    for b in (room, full):
        for t in rnd.sample(targets, len(targets) if check.thorough else 6):
            units.append({'before': b, 'line': t, 'others': True, 'first': 1 if check.thorough else rnd.choice([1, 2]), 'step': 1 if check.thorough else 2})
            units.append({'before': b, 'line': t, 'warm': ['$a', '$b'], 'first': 1 if check.thorough else rnd.choice([1, 2]), 'step': 1 if check.thorough else 2})
    # longer histories and values: several pages change
    big = ['/histcap 60'] + ['%d + %s' % (i, '1' * 190) for i in range(40)] + ['$a = 3^2000', '$b = 4']
    for t in ('/histcap 2', '$a = 5', '$b = 7^1500', '1 ' * 90):
        units.append({'before': big, 'line': t, 'first': rnd.choice([1, 2, 3]), 'step': 1 if check.thorough else 4})
    # values of other sizes, names and lines of other lengths
    odd = ['/histcap 4', '$a = -3^60/7^40', '$anotherverylongnameofavariableindeed = 1/3', '$c = 2^70']
    for t in ('$a = 5', '$a = 123456789012345678901234567890/7^30', '$a = -1/2^65', '$c = -5/3^90', '$anotherverylongnameofavariableindeed = 2', '$a = $c', '$d = $a * $c', '$a + %s1' % (' ' * 270),
              '$d = $anotherverylongnameofavariableindeed + 1/2^70', '/purgevar $anotherverylongnameofavariableindeed'):
        units.append({'before': odd, 'line': t, 'first': rnd.choice([1, 2]), 'step': 1 if check.thorough else 2})
    units.append({'start': True})
    units.append({'start': True, 'given': {'hist': [[1, 'x'], [2, 'y']], 'cap': 2, 'vars': [['$a', '1', '3', 1]]}})
    for _ in range(200 if check.thorough else 6):
        w = dict(set=25, copy=15, use=15, purge=5, reload=5, cap=15, bad=5, plain=10)
        names = NAMES[:3]
        clean = lambda: next(x for x in iter(lambda: some_line(rnd, names, w), None) if 'sqrt' not in x and '^(' not in x)
        units.append({'before': [clean() for _ in range(rnd.randint(1, 12))], 'line': clean(), 'others': rnd.random() < .4,
                      'first': rnd.choice([1, 2, 3]), 'step': 1 if check.thorough else 3})
    rnd.shuffle(units)
    check.notes['rule'] = 'the line is killed before its n-th disk operation, for every n, then the saved data is opened again'
    run_on(check, killed_any, units, binary, 'out hist cap vals by')


# ---- C27 --------------------------------------------------------------------------------------
# how an operation on the disk fails: error, how many in a row, whether a write is half done, which operations (0: all), whether reads do
WAYS = {'once': (errno.EIO, 1, 0, 0, 0), 'twice': (errno.EIO, 2, 1, 0, 0), 'full': (errno.ENOSPC, 10 ** 6, 1, 1 << 1 | 1 << 2 | 1 << 6 | 1 << 7, 0),
        'full once': (errno.ENOSPC, 1, 1, 1 << 1 | 1 << 2 | 1 << 6 | 1 << 7, 0), 'dead': (errno.EIO, 10 ** 6, 0, 0, 0),
        'dead halfway': (errno.EIO, 10 ** 6, 1, 0, 1), 'read': (errno.EIO, 1, 0, 1 << 9, 1), 'read-only': (errno.EROFS, 10 ** 6, 0, 0, 0),
        'denied': (errno.EACCES, 1, 0, 0, 0)}


def arm(s, way, n):
    err, times, half, kinds, reads = WAYS[way]
    for k, v in (('ERRNO', err), ('FAILS', times), ('HALF', half), ('KINDS', kinds), ('READS', reads), ('FAILAT', n), ('ARMED', 1)):
        s.cset(k, v)


def ended(r, name, text, scratch, start=False):
    s = r.ses.pop(name)
    ev = {'e': 'failed', 's': name, **({} if text is None else {'text': text}), 'code': s.code if s.code is not None else -99, 'err': calc.tail(s),
          'modes': s.termios_restored(), 'inalt': s.term.alt is not None}
    s.close()
    if os.path.exists(store.db_path(r.dir)) and not start:
        ev['db'] = copy_snapshot(r.dir, scratch)
    r.events.append(ev)


def failing(binary, unit, scratch):
    """unit: {before, line or None, way, others?, alt?, keys?}: the n-th disk operation of the line (of the start) fails in this way, for
    every n, each time from the same saved data."""
    events, notes = [], {'failures': 0, 'ended': 0, 'told': 0, 'answered_all_the_same': 0}
    base = store.Runner(binary, scratch)
    try:
        if unit['before'] is not None:
            base.open('p', {})
            for t in unit['before']:
                base.line('p', t)
            base.end('p')
            events += base.events
        if base.dead:
            return events, notes
        n, last = unit.get('first', 1), False
        while n < 400 and not last:
            r = store.Runner(binary, scratch, unit.get('alt', False))
            try:
                if unit['before'] is not None:
                    shutil.copytree(os.path.join(base.dir, 'bcalc'), os.path.join(r.dir, 'bcalc'))
                    r.events = [{'e': 'given', 'db': r.snap()}]
                if unit['line'] is None:
                    s = r.start('p', {})
                    arm(s, unit['way'], n)
                    try:
                        up = s.wait_prompt(0)
                    except Stuck:
                        up, s.code = False, -99
                    last = not s.cget('FAILED')
                    s.cset('ARMED', 0)
                    if up:
                        r.events.append({'e': 'open', 's': 'p', 'cfg': {}, 'db': r.snap()})
                    else:
                        notes['ended'] += 1
                        ended(r, 'p', None, scratch, True)
                else:
                    r.open('p', {})
                    for t in unit.get('warm', []):
                        r.line('p', t)
                    if unit.get('others'):
                        r.open('q', {})
                        r.line('q', '$a')
                    if r.dead:
                        return events + r.events, notes
                    s = r.ses['p']
                    arm(s, unit['way'], n)
                    out, text = '', unit['line']
                    try:
                        if unit.get('up'):
                            # recalls the line, then submits what there is
                            text = unit['before'][-unit['up']]
                            up = all(s.key('up') for _ in range(unit['up']))
                            last = not s.cget('FAILED')
                            s.cset('ARMED', 0)
                            if up:
                                start = s.term.query_pos[-1][0]
                                out = s.answer(start, len(text)) if s.key('enter') else None
                            else:
                                text = out = None
                        else:
                            out = s.line(text)
                            last = not s.cget('FAILED')
                    except Stuck:
                        out = ['!no answer']
                    s.cset('ARMED', 0)
                    if out is None:
                        notes['ended'] += 1
                        ended(r, 'p', text, scratch)
                    else:
                        fault = not last and bool(out) and out[0].startswith('Runtime Error: ')
                        r.events.append({'e': 'faulted' if fault else 'line', 's': 'p', 'text': text, 'out': out,
                                         'db': copy_snapshot(r.dir, scratch)})
                        notes['told' if fault else 'answered_all_the_same'] += not last
                notes['failures'] += not last
                if unit.get('others'):
                    r.line('q', '$b')
                if 'p' in r.ses and not r.dead:
                    r.line('p', '$a')
                if not r.dead:
                    r.open('t', {})
                for t in AFTER:
                    if not r.dead:
                        r.line('t', t)
                if unit.get('others') and not r.dead:
                    r.line('q', '8')
                events += r.events
                if r.dead:
                    return events, notes
            finally:
                r.close()
            n += unit.get('step', 1)
        return events, notes
    finally:
        base.close()


def c27(check, binary):
    rnd = lib.rng('C27', check.tier)
    model(check, 'MC_Failing')
    ok, gen, _, out = lib.model_check('MC_Failing', 'MC_FailingCareless')
    if ok or 'Invariant Inv is violated' not in out:
        raise lib.ToolError('MC_FailingCareless should be violated')
    check.states += gen
    full = ['/histcap 3', '$a = 1/3', '$b = 22', '2']        # the next line evicts the assignment of $a
    room = ['$a = 1/3', '$b = -22', '1']
    big = ['/histcap 60'] + ['%d + %s' % (i, '1' * 190) for i in range(40)] + ['$a = 3^2000', '$b = 4']
    targets = ['$a = 5', '$a = $a + 1', '$c = $a + $b', '$a + $b', '1', '1 +', '$nope', '$a = 1/0', '/histcap 1', '/histcap 2', '/histcap 50',
               '/purgevar $a $b', '/reloadvar $a $b', '/histcap', '', '$b = $a * $a', '/r 7', '/nope']
    units = []
    for b in (room, full):
        for t in targets:
            for way in WAYS:
                if check.thorough or rnd.random() < .3:
                    units.append({'before': b, 'line': t, 'way': way, 'others': rnd.random() < .3, 'alt': rnd.random() < .2,
                                  'warm': rnd.choice([[], [], ['$a', '$b']]),
                                  'first': 1 if check.thorough else rnd.choice([1, 2, 3]), 'step': 1 if check.thorough else 3})
    # each read of a line that is the first to need the variables
    for b in (room, full):
        for t in ('$a + $b', '$c = $b', '/reloadvar $a $b', '$nope + $a'):
            units.append({'before': b, 'line': t, 'way': 'read', 'warm': [], 'first': 1, 'step': 1})
    odd = ['/histcap 4', '$a = -3^60/7^40', '$anotherverylongnameofavariableindeed = 1/3', '$c = 2^70']
    for t in ('$a = 5', '$a = 123456789012345678901234567890/7^30', '$a = -1/2^65', '$d = $a * $c', '$a + %s1' % (' ' * 270), '/purgevar $anotherverylongnameofavariableindeed'):
        for way in rnd.sample(sorted(WAYS), len(WAYS) if check.thorough else 2):
            units.append({'before': odd, 'line': t, 'way': way, 'first': rnd.choice([1, 2]), 'step': 1 if check.thorough else 3})
    for way in ('once', 'dead', 'read', 'dead halfway', 'denied'):
        for up in (1, 2, 3):
            units.append({'before': room, 'line': '', 'up': up, 'way': way, 'others': rnd.random() < .3})
    for t in ('/histcap 2', '$a = 5', '$b = 7^1500', '1 ' * 90):
        for way in rnd.sample(sorted(WAYS), len(WAYS) if check.thorough else 2):
            units.append({'before': big, 'line': t, 'way': way, 'first': rnd.choice([1, 2, 3]), 'step': 1 if check.thorough else 5})
    for way in WAYS:
        for b in (None, room):
            units.append({'before': b, 'line': None, 'way': way, 'alt': rnd.random() < .2})
    rnd.shuffle(units)
    check.notes['rule'] = 'the n-th disk operation of a line or a start, for every n, fails in one of %d ways, then the saved data is used again' % len(WAYS)
    run_on(check, failing, units, binary, 'out hist cap vals by')


# ---- C26 --------------------------------------------------------------------------------------
def unplugged(binary, unit, scratch):
    """unit: {before: [lines] or None, steps: [[session, line]...], extra: n, real: share}: the lines are answered once; for every point
    of what they did to the disk, what a loss of power there may leave is laid out elsewhere and opened."""
    notes = {'loss_points': 0, 'disks': 0, 'restarts': 0}
    rnd = lib.rng('power', unit['id'])
    r = store.Runner(binary, scratch)
    log = os.path.join(r.dir, 'log')
    where = os.path.join(r.dir, 'data')
    r.dir, whole = where, r.dir
    try:
        os.mkdir(where)
        if unit.get('given') is not None:
            store.build_db(r.dir, unit['given'])
            r.events.append({'e': 'given', 'db': r.snap()})
        elif unit['before'] is not None:
            r.open('b', {})
            for t in unit['before']:
                if not r.dead:
                    r.line('b', t)
            if not r.dead:
                r.end('b')
        if r.dead:
            return r.events, notes
        disk = power.Disk(where)
        open(log, 'w').close()
        r.env = {'SHIM_LOG': log}
        phases = []                             # [operations until then, event, session, line]

        def mark(s, text):
            phases.append([len(power.read_log(log)), r.events.pop(), s, text])
        for s in dict.fromkeys(x[0] for x in unit['steps']):
            r.open(s, {})
            mark(s, None)
        for s, t in unit['steps']:
            if not r.dead:
                r.line(s, t)
                mark(s, t)
        r.env = None
        ops = power.read_log(log)
        at, seen = 0, set()
        for k, (until, ev, s, text) in enumerate(phases):
            seen = {x for x in seen if x[0] == k}
            for i in range(at, until + 1):
                # the last point of a phase lies behind its event
                if i == until:
                    r.events.append(ev)
                notes['loss_points'] += 1
                if 'db' in ev and ev['db']['bad']:
                    return r.events, notes
                begun = text if at < i < until else ''
                for im in disk.images(rnd, unit['extra']):
                    key = (k, i == until, hash(frozenset(im.items())))
                    if key not in seen:
                        seen.add(key)
                        notes['disks'] += 1
                        lost = lost_then(binary, im, scratch, notes, rnd.random() < unit['real'])
                        r.events.append(dict(lost, e='lost', s=s, text=begun or '', begun=bool(begun)))
                if i < until:
                    disk.do(ops[i])
            at = until
        if not disk.is_what_there_is():
            notes['not_explained_by_the_log'] = 1
            r.events = [e for e in r.events if e['e'] != 'lost']
        return r.events, notes
    finally:
        r.close()
        shutil.rmtree(whole, ignore_errors=True)


def lost_then(binary, image, scratch, notes, real):
    d = tempfile.mkdtemp(prefix='lost', dir=scratch)
    try:
        power.lay(image, d)
        if not real:
            db = copy_snapshot(d, scratch)
            # nothing there yet: what counts is what the next start makes of it
            if db['bad'] not in (['no file'], ['tables: []']) and not str(db['bad']).startswith('["FileNotFoundError'):
                return {'db': db, 'then': []}
        notes['restarts'] += 1
        r = store.Runner(binary, scratch)
        shutil.rmtree(r.dir)
        r.dir = d
        try:
            r.open('t', {})
            for t in AFTER:
                if not r.dead:
                    r.line('t', t)
            return {'db': r.events[1]['db'], 'then': [{k: v for k, v in e.items() if k in ('text', 'out', 'db')} for e in r.events[2:]]}
        finally:
            r.close()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c26(check, binary):
    rnd = lib.rng('C26', check.tier)
    for cfg in ['MC_Power', *(['MC_PowerLong'] if check.thorough else [])]:
        model(check, 'MC_Power', cfg=cfg)
    # each of the syncs is needed: without it the model shows a loss
    for cfg in ('MC_PowerNoJournal', 'MC_PowerNoHeader', 'MC_PowerNoTables'):
        ok, gen, _, out = lib.model_check('MC_Power', cfg)
        if ok or 'Invariant Inv is violated' not in out:
            raise lib.ToolError('%s should be violated' % cfg)
        check.states += gen
    lines = ['$a = 5', '$a = $a + 1', '$c = $a + $b', '$a + $b', '1', '1 +', '$nope', '$a = 1/0', '/histcap 1', '/histcap 2', '/histcap 50',
             '/purgevar $a $b', '/reloadvar $a $b', '/histcap', '', '$b = $a * $a', '/r 7', '/nope', '$b = 2', '22', '$d = 1/7', '$d', '$a = -1/3^50', '$b = 2^70/7^30', '$a = $b * $b']
    befores = [None, ['/histcap 4', '$a = -3^60/7^40', '$anotherverylongnameofavariableindeed = 1/3', '$c = 2^70'], ['$a = 1/3', '$b = -22', '1'], ['/histcap 3', '$a = 1/3', '$b = 22', '2'], ['/histcap 1', '$a = 3'], ['/histcap 2', '$a = 3', '$b = $a']]
    big = ['/histcap 60'] + ['%d + %s' % (i, '1' * 190) for i in range(40)] + ['$a = 3^2000', '$b = 4']
    units = []
    for k in range(200 if check.thorough else 32):
        names = 'pp' if k % 3 else 'pq'
        n = rnd.randint(3, 5)
        units.append({'before': befores[k % len(befores)], 'steps': [[rnd.choice(names), rnd.choice(lines)] for _ in range(n)]})
    for k in range(12 if check.thorough else 2):
        units.append({'before': big, 'steps': [['p', t] for t in rnd.sample(['/histcap 2', '$a = 5', '$b = 7^1500', '1 ' * 90, '$a = $a + 1', '9'], 3)]})
    for k, u in enumerate(units):
        u.update(id=k, extra=6 if check.thorough else 3, real=.3 if check.thorough else .1)
    check.notes['rule'] = 'at every disk operation of some lines: no, all, and random subsets of the writes that are not yet synced are on the disk'
    run_on(check, unplugged, units, binary, 'out hist cap vals by power')


# ---- C19 --------------------------------------------------------------------------------------
class Gated:
    """Sessions whose transactions are let through one at a time."""

    def __init__(self, runner):
        self.r = runner
        self.state = {}

    def submit(self, name, text):
        s = self.r.ses[name]
        self.state[name] = {'q': s.term.queries, 'start': s.term.query_pos[-1][0], 'text': text, 'txns': 0, 'done': False}
        s.send(text.encode() + b'\r')
        self.settle(name)

    def settle(self, name, timeout=20):
        """Until the session waits at its gate or has answered."""
        s, st = self.r.ses[name], self.state[name]
        end = drive.now() + timeout
        while True:
            if s.cget('AT_GATE'):
                return 'gate'
            if s.term.queries > st['q'] and s.replied == s.term.queries and s.settled(s.wake_mark):
                st['done'] = True
                return 'answer'
            if s.exited():
                s.drain()
                st['done'] = True
                return 'ended'
            if drive.now() > end:
                raise Stuck()
            s.pump(.05)

    def let(self, name):
        s = self.r.ses[name]
        n = s.cget('GRANTS')
        s.grant()
        end = drive.now() + 20
        while s.cget('GRANTS') == n:
            if drive.now() > end:
                raise Stuck()
            time.sleep(.0005)

    def step(self, name):
        """One transaction. -> 'gate' or 'answer' afterwards"""
        self.let(name)
        k = self.settle(name)
        self.r.events.append({'e': 'txn', 's': name, 'text': self.state[name]['text'], 'db': self.r.snap()})
        return k

    def answer(self, name):
        s, st = self.r.ses[name], self.state[name]
        if s.exited():
            out = ['!ended', *calc.tail(s)]
        else:
            out = s.answer(st['start'], len(st['text']))
        self.r.events.append({'e': 'answer', 's': name, 'out': out, 'db': self.r.snap()})


def gated(binary, unit, scratch):
    """unit: {before: [[session, line]...], lines: {session: [lines]}, order: [session...]}: the order is followed as long as it can be; then
    whoever can goes on."""
    notes = {'gated_transactions': 0}
    r = store.Runner(binary, scratch)
    try:
        for name in unit['lines']:
            r.open(name, {})
        for name, t in unit['before']:
            if not r.dead:
                r.line(name, t)
        if r.dead:
            return r.events, notes
        g = Gated(r)
        todo = {n: list(t) for n, t in unit['lines'].items()}
        at = {}
        for n in todo:
            r.ses[n].cset('GATE', 1)
            g.submit(n, todo[n].pop(0))
        order = list(unit['order'])
        live = set(unit['lines'])
        try:
            while live:
                n = order.pop(0) if order else sorted(live)[0]
                if n not in live:
                    continue
                k = g.step(n)
                notes['gated_transactions'] += 1
                if k != 'gate':
                    g.answer(n)
                    if todo[n] and k == 'answer':
                        g.submit(n, todo[n].pop(0))
                    else:
                        live.discard(n)
        except Stuck:
            r.events.append({'e': 'answer', 's': n, 'out': ['!no answer'], 'db': r.snap()})
        return r.events, notes
    finally:
        for s in r.ses.values():
            s.cset('GATE', 0)
        r.close()


def held(binary, unit, scratch):
    """unit: {before, lines: {p: line, q: line}, first: p, at: k, wait?: seconds, start?: [session...]}: p is stopped when it asks for the
    right to write for the k-th time (after it got the right to read); q then does its line, or waits for p; p goes on after a while.
    The sessions of start are started while p is stopped."""
    notes = {'held': 0}
    r = store.Runner(binary, scratch)
    try:
        names = list(unit['lines'])
        if unit.get('recall'):
            store.build_db(r.dir, {'hist': [[1, '8'], [2, '9'], [3, '$z']], 'cap': 100})
            r.events.append({'e': 'given', 'db': r.snap()})
        for name in names:
            r.open(name, {})
        for name, t in unit['before']:
            if not r.dead:
                r.line(name, t)
        if r.dead:
            return r.events, notes
        if unit.get('recall'):      # walks into the lines that were there before the session, and back
            k = len(unit['before']) + unit['recall']
            for name in names:
                r.ses[name].send(b'\x1b[A' * k + b'\x1b[B' * k)
        p = unit['first']
        g = Gated(r)
        sp = r.ses[p]
        sp.cset('GATE2', 1)
        g.submit(p, unit['lines'][p])
        k = 1
        while sp.cget('AT_GATE') and k < unit['at']:
            g.let(p)
            g.settle(p)
            k += 1
        if sp.cget('AT_GATE'):
            notes['held'] += 1
        for q in names:
            if q != p:
                s = r.ses[q]
                g.state[q] = {'q': s.term.queries, 'start': s.term.query_pos[-1][0], 'text': unit['lines'][q], 'txns': 0, 'done': False}
                s.send(unit['lines'][q].encode() + b'\r')
        for q in unit.get('start', []):
            r.start(q, {})
        long = drive.now() + unit.get('wait', 0)
        # until every other session has answered or is waiting for the lock
        end = drive.now() + 3
        others = [q for q in names if q != p]
        while drive.now() < end:
            waiting = [q for q in others if not (r.ses[q].term.queries > g.state[q]['q'] and r.ses[q].settled(r.ses[q].wake_mark))]
            for q in others:
                r.ses[q].pump(.01)
            if all(r.ses[q].cget('BUSY') for q in waiting):
                break
        while drive.now() < long:
            for q in others + unit.get('start', []):
                r.ses[q].pump(.02)
        if unit.get('wait'):
            notes['held_long'] = notes.get('held_long', 0) + 1
        sp.cset('GATE2', 0)
        if sp.cget('AT_GATE'):
            g.let(p)
        lines = []
        for q in names:
            try:
                g.settle(q)
                s = r.ses[q]
                out = ['!ended', *calc.tail(s)] if s.exited() else s.answer(g.state[q]['start'], len(unit['lines'][q]))
            except Stuck:
                out = ['!no answer']
            lines.append([q, unit['lines'][q], out])
        r.events.append({'e': 'round', 'lines': lines, 'db': r.snap()})
        if any(o[:1] in (['!ended'], ['!no answer']) for _, _, o in lines):
            return r.events, notes
        down = []
        for q in unit.get('start', []):
            try:
                if not r.ses[q].wait_prompt(0, 20):
                    down.append([q, calc.tail(r.ses[q])])
            except Stuck:
                down.append([q, 'stuck'])
            r.events.append({'e': 'open', 's': q, 'cfg': {}, 'db': r.snap()})
        if down:
            r.events[-1]['db']['bad'].append('these did not start: %r' % down)
            return r.events, notes
        for q in names + unit.get('start', []):
            r.line(q, '7')
        return r.events, notes
    finally:
        for s in r.ses.values():
            s.cset('GATE2', 0)
        r.close()


def collect(r, name, q, start, text, timeout=60):
    s = r.ses[name]
    end = drive.now() + timeout
    while not (s.term.queries > q and s.replied == s.term.queries and s.settled(s.wake_mark)):
        if s.exited():
            s.drain()
            return ['!ended', *calc.tail(s)]
        if drive.now() > end:
            return ['!no answer']
        s.pump(.002)
    return s.answer(start, len(text))


def free(binary, unit, scratch):
    """unit: {n: sessions, rounds: [[line per session]...], together: start all at once}: lines submitted at the same time."""
    notes = {'rounds': 0}
    r = store.Runner(binary, scratch)
    try:
        names = ['s%d' % i for i in range(unit['n'])]
        if unit.get('together'):
            for n in names:
                r.start(n, {})
            down = []
            for n in names:
                try:
                    if not r.ses[n].wait_prompt(0, 60):
                        down.append([n, calc.tail(r.ses[n])])
                except Stuck:
                    down.append([n, 'stuck'])
            for n in names:
                ev = {'e': 'open', 's': n, 'cfg': {}}
                if n == names[-1]:
                    ev['db'] = r.snap()
                    if down:
                        ev['db']['bad'].append('these did not start: %r' % down)
                r.events.append(ev)
            if down:
                return r.events, notes
        else:
            for n in names:
                r.open(n, {})
        for t in unit.get('before', []):
            r.line(names[0], t)
        for lines in unit['rounds']:
            if r.dead:
                break
            marks = []
            for n, t in zip(names, lines):
                s = r.ses[n]
                marks.append((s.term.queries, s.term.query_pos[-1][0]))
                s.wake_mark = s.cget('WAKES')
            for n, t in zip(names, lines):
                r.ses[n].send(t.encode() + b'\r')
            outs = [[n, t, collect(r, n, m[0], m[1], t)] for n, t, m in zip(names, lines, marks)]
            r.events.append({'e': 'round', 'lines': outs, 'db': r.snap()})
            notes['rounds'] += 1
            if any(o[2][:1] in (['!ended'], ['!no answer']) for o in outs):
                break
        return r.events, notes
    finally:
        r.close()


def burst(binary, unit, scratch):
    """unit: {n, each: lines per session, cap?, vars?}: every session submits its lines one after another, all sessions at once."""
    notes = {'burst_lines': 0}
    r = store.Runner(binary, scratch)
    try:
        names = ['s%d' % i for i in range(unit['n'])]
        for n in names:
            r.open(n, {})
        if unit.get('cap'):
            r.line(names[0], '/histcap %d' % unit['cap'])
        if r.dead:
            return r.events, notes
        todo = {n: list(unit['lines'][n]) for n in names}
        done = {n: [] for n in names}
        cur = {}
        end = drive.now() + 120
        while any(todo.values()) or cur:
            for n in names:
                s = r.ses[n]
                if n in cur:
                    t, q, start = cur[n]
                    s.pump(0)
                    if s.term.queries > q and s.replied == s.term.queries and s.settled(s.wake_mark):
                        done[n].append([t, s.answer(start, len(t))])
                        del cur[n]
                    elif s.exited():
                        done[n].append([t, ['!ended', *calc.tail(s)]])
                        del cur[n]
                        todo[n] = []
                if n not in cur and todo[n]:
                    t = todo[n].pop(0)
                    cur[n] = (t, s.term.queries, s.term.query_pos[-1][0])
                    s.wake_mark = s.cget('WAKES')
                    s.send(t.encode() + b'\r')
            if drive.now() > end:
                for n in cur:
                    done[n].append([cur[n][0], ['!no answer']])
                break
        notes['burst_lines'] += sum(len(v) for v in done.values())
        r.events.append({'e': 'burst', 'lines': [[n, done[n]] for n in names], 'db': r.snap()})
        return r.events, notes
    finally:
        r.close()


def conc_any(binary, unit, scratch):
    return {'gated': gated, 'held': held, 'free': free, 'burst': burst}[unit['kind']](binary, unit, scratch)


# how many transactions a line has is not assumed: orders are longer than any line needs
def orders(rnd, n, k, limit):
    allo = list(itertools.product('pq', repeat=k))
    return allo if len(allo) <= limit else rnd.sample(allo, limit)


def c19(check, binary):
    rnd = lib.rng('C19', check.tier)
    model(check, 'MC_Bcalc', cfg='MC_Bcalc')
    model(check, 'MC_Bcalc', cfg='MC_BcalcThree')
    model(check, 'MC_Locks')
    # the model shows why none of the transactions may read before it asks for the right to write
    ok, gen, _, out = lib.model_check('MC_Locks', 'MC_LocksDefer')
    if ok or 'Invariant Inv is violated' not in out:
        raise lib.ToolError('MC_LocksDefer should be violated')
    check.states += gen
    m = 12 if check.thorough else 1
    units = []
    lines = ['$a = 5', '$a + $b', '$a = $b + 1', '1', '/histcap 1', '/histcap 4', '/purgevar $a', '/reloadvar $a', '$a / 0', '$c', '/histcap']
    before = [[['p', '$a = 1'], ['p', '$b = 2']],
              [['p', '/histcap 2'], ['p', '$a = 1'], ['q', '$b = 2']],
              [['p', '/histcap 1'], ['q', '$a = 3']],
              [['p', '/histcap 3'], ['p', '$b = 7'], ['q', '$a = $b']]]
    # one line each, in every order of the transactions
    pairs = list(itertools.product(lines, lines))
    for b in before:
        for x, y in pairs:
            for o in (orders(rnd, 2, 5, 32) if check.thorough else rnd.sample(list(itertools.product('pq', repeat=5)), 2)):
                units.append({'kind': 'gated', 'before': b, 'lines': {'p': [x], 'q': [y]}, 'order': list(o)})
    # a line of one session while another does several, so that the line is evicted before it is done
    for _ in range(120 * m):
        x, ys = rnd.choice(lines), [rnd.choice(lines) for _ in range(3)]
        o = ['p'] * rnd.randint(0, 2) + [rnd.choice('qqp') for _ in range(12)]
        units.append({'kind': 'gated', 'before': rnd.choice(before), 'lines': {'p': [x, rnd.choice(lines)], 'q': ys}, 'order': o})
    for _ in range(60 * m):
        o = [rnd.choice('pqr') for _ in range(16)]
        units.append({'kind': 'gated', 'before': rnd.choice(before), 'lines': {n: [rnd.choice(lines) for _ in range(2)] for n in 'pqr'}, 'order': o})
    # stopped between reading and writing
    for x, y in (pairs if check.thorough else rnd.sample(pairs, 50)):
        for at in (1, 2):
            units.append({'kind': 'held', 'before': rnd.choice(before), 'lines': {'p': x, 'q': y}, 'first': 'p', 'at': at, 'recall': rnd.choice([0, 0, 1, 2])})
    # stopped for so long that whoever waits must wait patiently, at a line or at the start
    for x in (lines if check.thorough else rnd.sample(lines[:8], 4)):
        units.append({'kind': 'held', 'before': rnd.choice(before), 'lines': {'p': x, 'q': rnd.choice(lines)}, 'first': 'p', 'at': 2,
                      'wait': 2.5, 'start': ['r'], 'recall': rnd.choice([1, 2, 3])})
    # at the same time
    for _ in range(24 * m):
        n = rnd.choice([2, 2, 3])
        units.append({'kind': 'free', 'free': True, 'n': n, 'together': rnd.random() < .5, 'before': rnd.choice([[], ['/histcap 2'], ['/histcap 1', '$a = 1'], ['$a = 1', '$b = 3']]),
                      'rounds': [[rnd.choice(lines) for _ in range(n)] for _ in range(8)]})
    for _ in range(6 * m):
        units.append({'kind': 'free', 'free': True, 'n': rnd.choice([5, 8]), 'together': True, 'rounds': []})
    for k in range(6 * m):
        n = rnd.choice([2, 3, 4])
        each = 40
        cap = [None, 5, 1000][k % 3]
        ls = {}
        for i in range(n):
            own = []
            for j in range(each):
                tag = '%d' % (1000 * (i + 1) + j)
                v = '$v%d' % i
                own.append(tag if cap == 5 else rnd.choice([tag, '%s = %s' % (v, tag), '%s + %s' % (v, tag), '%s + %s' % (tag, tag), tag + ' +', tag + ' / 0']))
            ls['s%d' % i] = own
        units.append({'kind': 'burst', 'free': True, 'n': n, 'cap': cap or 1000, 'lines': ls})
    rnd.shuffle(units)
    check.notes['rule'] = 'transactions of two and three sessions let through in chosen orders; sessions stopped between reading and writing; real contention'
    run_on(check, conc_any, units, binary, 'out hist cap vals by')
