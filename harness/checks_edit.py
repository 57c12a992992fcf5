"""C12, C13, C14, C21: the line editor, the walk through earlier lines, the screen, the ways out."""
import itertools
import json
import os
import re

import edit
import gen
import drive
import lib
from checks_store import model
from drive import KEYS

IGNORED = ['c-a', 'c-e', 'c-k', 'c-w', 'c-l', 'tab', 'btab', 'pgup', 'pgdn', 'ins', 'f1', 'f5', 'a-x', 'a-1', 'e-acute', 'pi', 'emoji',
           'c-space', 'a-left', 'a-right', 'cs-left', 'cs-right', 'c-b', 'c-g', 'c-h', 'c-p', 'c-u', 'c-y', 'c-bslash', 'a-paren', 'a-d', 'a-n',
           'cs-c', 'f12', 'nel', 'nbsp', 'cjk', 'a-emoji', 'ca-d', 'ca-n', 'esc', 'c-j', 'c-o', 'c-q', 'c-r', 'c-s', 'c-t', 'c-v', 'c-x', 'c-rbracket',
           'c-caret', 'c-underscore', 'focus-in', 'focus-out', 'mouse', 'mouse-old', 'u-a-a', 'u-super-a', 'u-c-a', 'u-cs-n', 'u-ca-m', 'u-a-d', 'u-e-acute', 'f3', 'menu', 'caps']
NUMBERED = ['c-m', 'u-c-n', 'u-a', 'u-s-a', 'u-s-A', 'u-s-1', 'u-(', 'u-bs']
NAMED = ['a-up', 'a-del', 'c-del', 'c-up', 'c-down', 'c-home', 'c-end']
MOVES = ['left', 'right', 'c-left', 'c-right', 's-left', 's-right', 'home', 'end', 'c-n', 'c-m']
KEYS.update({'c-b': b'\x02', 'c-g': b'\x07', 'c-h': b'\x08', 'c-p': b'\x10', 'c-u': b'\x15', 'c-y': b'\x19', 'c-bslash': b'\x1c', 'a-paren': b'\x1b(',
             'a-d': b'\x1bd', 'a-n': b'\x1bn', 'a-up': b'\x1b[1;3A', 'a-del': b'\x1b[3;3~', 'cs-c': b'\x1b[67;6u', 'f12': b'\x1b[24~',
             'nel': b'\xc2\x85', 'nbsp': b'\xc2\xa0', 'cjk': b'\xe4\xb8\xad', 'a-emoji': b'\x1b\xf0\x9f\x98\x80', 'ca-d': b'\x1b\x04', 'ca-n': b'\x1b\x0e',
             'c-j': b'\n', 'c-o': b'\x0f', 'c-q': b'\x11', 'c-r': b'\x12', 'c-s': b'\x13', 'c-t': b'\x14', 'c-v': b'\x16', 'c-x': b'\x18',
             'c-rbracket': b'\x1d', 'c-caret': b'\x1e', 'c-underscore': b'\x1f', 'focus-in': b'\x1b[I', 'focus-out': b'\x1b[O',
             'mouse': b'\x1b[<0;5;1M', 'mouse-old': b'\x1b[M !!', 'u-a-a': b'\x1b[97;3u', 'u-super-a': b'\x1b[97;9u', 'u-c-a': b'\x1b[97;5u',
             'u-cs-n': b'\x1b[110;6u', 'u-ca-m': b'\x1b[109;7u', 'u-a-d': b'\x1b[100;3u', 'u-e-acute': b'\x1b[233u',
             'f3': b'\x1bOR', 'menu': b'\x1b[57363u', 'caps': b'\x1b[57358u',
             'c-m': b'\x1b[109;5u', 'u-c-n': b'\x1b[110;5u', 'u-a': b'\x1b[97u', 'u-s-a': b'\x1b[97;2u', 'u-s-A': b'\x1b[65;2u', 'u-s-1': b'\x1b[49;2u',
             'u-(': b'\x1b[40u', 'u-bs': b'\x1b[127u', 'u-c-d': b'\x1b[100;5u', 'u-c-c': b'\x1b[99;5u', 'u-c-z': b'\x1b[122;5u',
             'home1': b'\x1b[1~', 'end4': b'\x1b[4~', 'homeO': b'\x1bOH', 'endO': b'\x1bOF'})

# keys with every combination of Shift (2), Alt (3) and Control (5): m2-home, m7-x, ...
for _d in range(1, 10):
    for _k, _c in (('up', 'A'), ('down', 'B'), ('right', 'C'), ('left', 'D'), ('home', 'H'), ('end', 'F')):
        KEYS['m%d-%s' % (_d, _k)] = b'\x1b[1;%d%s' % (_d, _c.encode())
    KEYS['m%d-del' % _d] = b'\x1b[3;%d~' % _d
    KEYS['m%d-bs' % _d] = b'\x1b[127;%du' % _d
    KEYS['m%d-enter' % _d] = b'\x1b[13;%du' % _d
    for _c in range(32, 127):
        KEYS['m%d-%c' % (_d, _c)] = b'\x1b[%d;%du' % (_c, _d)
MODIFIED = [k for k in KEYS if re.match(r'm\d-(up|down|left|right|home|end|del|bs)$', k)]
MODIFIED_CHARS = [k for k in KEYS if re.match(r'm\d-.$', k) and k not in ('m5-c', 'm5-d', 'm5-z')]


def shard(binary, units, focus, scratch):
    events, owner = [], []
    drive.Session.waited = 0
    for k, u in enumerate(units):
        if drive.Session.waited > 8:       # no more needs to be seen
            break
        ev = edit.run(binary, u, scratch)
        events += ev
        owner += [k] * len(ev)
    seen = [e for e in events if e['e'] in ('enter', 'exit', 'size')]
    res = {'n': len(units), 'events': len(events), 'keys': sum(len(e['keys']) for e in events if e['e'] == 'keys'), 'states': 0, 'bad': None,
           'lines': sum(e['e'] == 'enter' for e in events), 'exits': sum(e['e'] == 'exit' for e in events),
           'sample': [{k: v for k, v in e.items() if k != 'db'} for e in seen[-1:]]}
    res['states'], bad, res['unconfirmed'] = lib.judge(events, owner, lambda k: edit.run(binary, units[k], scratch), 'TraceEditor', focus)
    if bad:
        res['bad'] = {'unit': units[bad['k']], 'steps': [{k: v for k, v in e.items() if k != 'db'} for e in bad['before'][-12:]],
                      'event': bad['event'], 'specification': bad['specification']}
    return res


def typed_lines(unit):
    """About what lines a unit submits: only used to leave out those that are costly to answer, never to judge."""
    saved = [t for _, t in (unit.get('given') or {}).get('hist', [])]
    own, out = [], []
    at, edits, pos = 0, {}, 0

    def text(i):
        back = saved[::-1]
        return edits[i] if i in edits else '' if i == 0 else own[-i] if i <= len(own) else back[i - len(own) - 1]

    def key(k):
        nonlocal at, edits, pos
        t = text(at)
        m = re.match(r'(?:m(\d)|(?:([acsu])))-(.+)$', k)
        mods, base = (m.group(1) or m.group(2), m.group(3)) if m else ('', k)
        if base in ('left', 'right'):
            d = {'': 1, '1': 1, 'c': 15, 's': 15, '2': 15, '5': 15}.get(mods, 0)
            pos = max(0, min(len(t), pos + (d if base == 'right' else -d)))
        elif base == 'home':
            pos = 0
        elif base == 'end':
            pos = len(t)
        elif base in ('bs', 'del'):
            i = pos - 1 if base == 'bs' else pos
            if 0 <= i < len(t):
                edits[at] = t[:i] + t[i + 1:]
                pos = i
        elif base in ('up', 'down'):
            n = at + (1 if base == 'up' else -1)
            if 0 <= n <= len(own) + len(saved):
                at = n
                pos = len(text(at))
        elif base == 'enter':
            out.append(t)
            own.append(t)
            at, edits, pos = 0, {}, 0
        elif len(base) == 1 and mods in ('', '1', '2'):
            edits[at] = t[:pos] + base + t[pos:]
            pos += 1
    for op in unit['ops']:
        if op[0] == 'enter':
            key('enter')
        elif op[0] in ('keys', 'each', 'ahead'):
            for k in op[1]:
                key(k)
    return out


def costly(t):
    """A power that has, or may have, a great many digits."""
    rest = re.sub(r'\^\s*-?\s*(\d{1,4}(?![\w.^ ])|\d{1,3}(?= *([-+*/%(]|$))|\((2\^\d|-?\d{1,2})(\)(?! *\^)|(?=[-,($]|$))|sqrt \d|$)', '', t)
    return '^' in rest and not t.lstrip().startswith('@')      # a line that begins with @ is not evaluated


def run_edit(check, units, binary, focus):
    n = len(units)
    units = [u for u in units if not any(costly(t) for t in typed_lines(u))]
    check.notes['left_out_as_costly'] = n - len(units)
    k = min(len(units), lib.WORKERS * max(1, len(units) // 500))
    for r in lib.pool_map(shard, [(binary, units[i::k], focus, check.scratch) for i in range(k)], stop=lambda r: r['bad'] is not None):
        check.events += r['events']
        check.traces += r['n']
        check.states += r['states']
        check.transitions += max(0, r['states'] - 1)
        for s in r['sample']:
            check.sample(s)
        for key in ('keys', 'lines', 'exits'):
            check.notes[key] = check.notes.get(key, 0) + r[key]
        if r['unconfirmed']:
            check.notes.setdefault('unconfirmed', []).extend(r['unconfirmed'])
        if r['bad'] and not check.found:
            b = r['bad']
            check.violation('%s\n  specification: %s' % (str(b['event'])[:700], str(b['specification'])[:900]), b)


def generated(check, keys, steps, length, saved, cap, rnd, limit=None):
    """Paths that TLC enumerates from Gen_Editor."""
    path = os.path.join(check.scratch, 'keys.ndjson')
    with open(path, 'w') as f:
        f.write(''.join(json.dumps(x) + '\n' for x in keys))
    code, out = lib.run_tlc('Gen_Editor', env={'KEYS': path, 'STEPS': str(steps), 'LENGTH': str(length), 'SAVED': str(saved), 'CAP': str(cap)})
    if code != 0:
        raise lib.ToolError('Gen_Editor:\n' + out[-2000:])
    ps = [tuple(p['path']) for p in lib.printed(out) if 'path' in p]
    pre = {p[:i] for p in ps for i in range(len(p))}
    ps = sorted(p for p in ps if p not in pre)
    g, d = lib.count_states(out)
    check.states += d
    check.transitions += g
    n = len(ps)
    if limit and n > limit:
        ps = rnd.sample(ps, limit)
    check.notes.setdefault('generated_by_TLC', []).append(
        {'keys': keys, 'longest_path': steps, 'longest_line': length, 'saved_lines': saved, 'capacity': cap, 'transitions': g, 'distinct_states': d,
         'maximal_paths': n, 'replayed': len(ps)})
    return ps


def batches(rnd, keys):
    """Keys in bursts; an escape key has to come alone."""
    ops, cur = [], []
    for k in keys:
        if k == 'esc':
            if cur:
                ops.append(('keys', cur))
            ops.append(('keys', ['esc']))
            cur = []
            continue
        cur.append(k)
        if rnd.random() < .2:
            ops.append(('keys', cur))
            cur = []
    if cur:
        ops.append(('keys', cur))
    return ops


def typed(rnd, n, chars):
    return [rnd.choice(chars) for _ in range(n)]


ASCII = [chr(c) for c in range(32, 127)]
PLAIN = list('0123456789+-*/%() .,_$ab=')


def some_keys(rnd, n, w):
    kinds = list(w)
    out = []
    while len(out) < n:
        k = rnd.choices(kinds, [w[x] for x in kinds])[0]
        if k == 'type':
            out += typed(rnd, rnd.choice([1, 1, 2, 5, 12]), rnd.choice([PLAIN, list('()'), list('12+'), list('(1)')]))
        elif k == 'ascii':
            out += typed(rnd, rnd.choice([1, 3]), [c for c in ASCII if c != '^'])
        elif k == 'move':
            out += [rnd.choice(MOVES)] * rnd.choice([1, 1, 1, 2, 3])
        elif k == 'cut':
            out += [rnd.choice(['bs', 'del'])] * rnd.choice([1, 1, 2, 4])
        elif k == 'none':
            out.append(rnd.choice(IGNORED + NAMED + NUMBERED + rnd.sample(MODIFIED, 12) + rnd.sample(MODIFIED_CHARS, 12)))
        elif k == 'walk':
            out += [rnd.choice(['up', 'up', 'down'])] * rnd.choice([1, 1, 2, 5])
    return out


def c12(check, binary):
    rnd = lib.rng('C12', check.tier)
    model(check, 'MC_Editor', cfg='MC_Editor')
    m = 15 if check.thorough else 1
    units = []
    # from every state of short lines, every key; then a mark where the cursor is
    ps = generated(check, ['(', ')', '1', 'bs', 'del', 'left', 'right', 'home', 'end', 'c-n'], 7 if check.thorough else 6, 5 if check.thorough else 4, 0, 1000, rnd,
                   None if check.thorough else 3800)
    for i in range(0, len(ps), 40):
        ops = []
        for p in ps[i:i + 40]:
            ops += [('keys', [*p, '9']), ('enter',)]
        units.append(dict(db=i % 3 == 0, alt=i % 80 == 0, cols=80, rows=24, see=False, ops=ops))
    # longer lines
    for k in range(160 * m):
        ops = []
        for _ in range(rnd.choice([3, 8])):
            style = rnd.random()
            keys = []
            if style < .35:         # nothing but characters is evaluated
                keys = ['@'] + some_keys(rnd, rnd.choice([5, 40, 120]), dict(ascii=30, type=10, move=25, cut=12, none=12))
            elif style < .7:
                keys = typed(rnd, rnd.choice([14, 15, 16, 17, 29, 30, 31, 60]), PLAIN) + some_keys(rnd, rnd.choice([10, 40]), dict(move=50, type=15, cut=20, none=8))
            elif style < .9:        # parentheses
                keys = typed(rnd, rnd.choice([4, 12, 40]), list('(()))1'))
                for _ in range(rnd.choice([2, 6])):
                    keys += [rnd.choice(['home', 'end', 'left', 'right', 'c-left', 'c-right'])] * rnd.choice([0, 1, 2, 3]) + ['c-n'] + rnd.choice([[], ['1'], ['del'], ['c-n', '2']])
            else:
                keys = some_keys(rnd, 40, dict(type=30, move=25, cut=20, none=20, walk=10))
            ops += batches(rnd, keys + [rnd.choice('0123456789')]) + [('enter',)]
        units.append(dict(db=rnd.random() < .5, alt=rnd.random() < .3, cols=rnd.choice([60, 80, 200]), rows=24, see=False, ops=ops))
    # very long lines, edited all over
    for k in range(12 * m):
        n = rnd.choice([200, 254, 255, 256, 257, 300, 511, 513, 1000])
        keys = ['@'] + typed(rnd, n, PLAIN + list('()'))
        for _ in range(rnd.choice([3, 8])):
            keys += [rnd.choice(['c-left', 'c-right', 'c-left', 's-left', 'home', 'end', 'left'])] * rnd.choice([1, 2, 5, 17]) + \
                rnd.choice([['7'], ['bs'], ['del'], ['(', '8', ')'], ['bs'] * 4, ['del'] * 4, ['c-n', '6'], typed(rnd, 20, PLAIN)])
        ops = batches(rnd, keys + ['5']) + [('enter',)] + batches(rnd, ['up', 'c-left', 'bs', '3', 'home', 'del', '4']) + [('enter',)]
        units.append(dict(db=k % 2 == 0, alt=k % 3 == 0, cols=rnd.choice([40, 80, 200]), rows=24, see=False, ops=ops))
    # each place of a line at which a machine's number might end
    for n, key in itertools.product((15, 16, 63, 127, 128, 254, 255, 256, 257, 511, 512), ('del', 'bs', '7', 'left', 'right', '(')):
        if check.thorough or rnd.random() < .5:
            keys = ['@'] + typed(rnd, n + rnd.choice([1, 2, 40]), PLAIN) + ['home'] + ['c-right'] * (n // 15) + ['right'] * (n % 15)
            units.append(dict(db=rnd.random() < .5, alt=rnd.random() < .2, cols=rnd.choice([80, 200]), rows=24, see=False,
                              ops=[('keys', keys), ('keys', [key]), ('keys', ['8', 'right', key, '9']), ('enter',)]))
    # parentheses nested deeply, left and come back to from each level
    for n in (8, 10, 11, 17, 33, 100) if not check.thorough else range(2, 120):
        text = '@' + '(' * n + '1' + ')' * n + rnd.choice(['', '2', ')'])
        ops = [('keys', list(text) + ['home'])]
        for _ in range(8):
            ops += [('keys', ['home'] + ['right'] * rnd.choice([1, 1, 2, n // 2, n, rnd.randint(1, 2 * n + 1)])), ('keys', ['c-n']), ('keys', [rnd.choice('3456')]), ('keys', ['left', 'c-n', '7'])]
        units.append(dict(db=False, alt=False, cols=200, rows=24, see=False, ops=ops + [('enter',)]))
    # every character, every key that does nothing, in the middle of a line
    for alt in (False, True):
        ops = [('keys', ['@'] + ASCII), ('enter',), ('keys', ['@', *'12345', 'left', 'left'])]
        for k in IGNORED:
            ops += [('keys', [k]), ('keys', ['7'])]
        ops += [('enter',), ('keys', ['@', *'(1)', 'left'])]
        for k in NUMBERED * 2:
            ops += [('keys', [k]), ('keys', ['7', 'left', 'left'])]
        ops += [('enter',)]
        for k in IGNORED + ['home1', 'end4', 'homeO', 'endO'] * 0:
            ops += [('keys', ['@', 'a', 'b', 'left']), ('keys', [k]), ('keys', ['c']), ('enter',)]
        units.append(dict(db=True, alt=alt, cols=150, rows=24, see=False, ops=ops))
        # every key and every character with every combination of modifiers
        ops = []
        for i in range(0, len(MODIFIED), 4):
            ops += [('keys', ['@', *'1234567890abcdefghijklmno', *['left'] * rnd.choice([0, 3, 12])])]
            for k in MODIFIED[i:i + 4]:
                ops += [('keys', [k, '(' if k[3:] in ('up', 'down') else ')'])]
            ops += [('enter', 'm%d-enter' % rnd.randint(1, 9))]
        some = list(MODIFIED_CHARS) if check.thorough or not alt else rnd.sample(MODIFIED_CHARS, 250)
        rnd.shuffle(some)
        for i in range(0, len(some), 20):
            ops += [('keys', ['@', '(', ')', 'left', 'left'] + some[i:i + 20]), ('enter',)]
        units.append(dict(db=alt, alt=alt, cols=150, rows=24, see=False, ops=ops))
    rnd.shuffle(units)
    check.notes['rule'] = 'keys against the line that is submitted: the saved line, or its echo without saved data'
    run_edit(check, units, binary, 'hist echo')


def c13(check, binary):
    rnd = lib.rng('C13', check.tier)
    model(check, 'MC_Editor', cfg='MC_Walk')
    m = 12 if check.thorough else 1
    units = []
    for saved, cap in ((2, 3), (3, 3), (0, 2), (1, 1)):
        ps = generated(check, ['1', 'bs', 'up', 'down', 'enter', 'other'], 8 if check.thorough else 7, 3, saved, cap, rnd, 6000 if check.thorough else 420)
        for p in ps:
            ops, cur = [], []
            for k in [*p, '9', 'enter']:
                if k in ('enter', 'other'):
                    if cur:
                        ops.append(('keys', cur))
                        cur = []
                    ops.append(('enter',) if k == 'enter' else ('other', 'q', '7'))
                else:
                    cur.append(k)
            units.append(dict(db=True, alt=rnd.random() < .2, cols=60, rows=12, see=rnd.random() < .5, ops=ops, others=['q'] if 'other' in p else [],
                              given={'hist': [[i + 1, '(%d)' % (i + 1)] for i in range(saved)], 'cap': cap}))
    for _ in range(260 * m):
        saved = rnd.choice([0, 1, 2, 5, 30, 99])
        cap = rnd.choice([max(saved, 1), saved + 1, saved + 2, 100])
        ids = sorted(rnd.sample(range(1, 1000), saved))
        db = rnd.random() < .8
        ops = []
        for _ in range(rnd.choice([4, 10, 25])):
            x = rnd.random()
            if x < .18 and db:
                ops.append(('other', 'q', rnd.choice(['7', '$q = 2', '1 +', '', '8 8'])))
            elif x < .22 and db:
                ops.append(('other', 'q', '/histcap %d' % rnd.choice([1, 2, 3, 5, cap])))
            elif x < .45:
                ops += [('keys', [rnd.choice(['up', 'down', 'up'])] * rnd.choice([1, 1, 2, 3, 8, 40]))]
            elif x < .6:
                ops += batches(rnd, some_keys(rnd, rnd.choice([1, 4]), dict(type=30, move=20, cut=20)))
            elif x < .75:
                ops += batches(rnd, some_keys(rnd, rnd.choice([6, 15]), dict(type=10, move=10, cut=15, walk=40)))
            elif x < .8:
                ops.append(('keys', ['up'] * rnd.choice([1, 3]) + list('12') + ['up', 'down', 'bs']))
            else:
                ops.append(('enter',))
        ops += [('keys', [rnd.choice(['up', 'down', '1'])]), ('keys', ['5']), ('enter',)]
        u = dict(db=db, alt=rnd.random() < .2, cols=100, rows=20, see=rnd.random() < .5, ops=ops, others=['q'] if db else [])
        if db and (saved or rnd.random() < .5):
            u['given'] = {'hist': [[i, rnd.choice(['1 + %d' % i, '%d' % i, '$a = %d' % i, '', '((%d' % i])] for i in ids], 'cap': cap}
        units.append(u)
    # drafts and edits of earlier lines, left and come back to over any distance
    for k in range(30 * m):
        saved = rnd.choice([0, 0, 20, 60])
        own = rnd.choice([1, 3, 12, 40])
        ops = []
        for i in range(own):
            ops += [('keys', list('%d' % (100 + i))), ('enter',)]
        for _ in range(3):
            d = 0
            ops.append(('keys', list(rnd.choice(['5', '12', '((1', '1 + '])) + rnd.choice([[], ['left'], ['home']])))
            for _ in range(rnd.choice([1, 2, 4])):
                n = rnd.randint(1, own + saved + 1)
                ops += [('keys', ['up'] * n), ('keys', rnd.choice([[], ['bs'], ['3'], ['home', 'del'], ['left', '4']]))]
                ops += [('keys', ['down'] * rnd.choice([n, n, n - 1, n // 2, 1]))]
                ops += [('keys', rnd.choice([['left'], ['bs', '6'], ['9'], ['home', '2']]))]
            if rnd.random() < .7:
                ops.append(('keys', ['down'] * 110))
            else:
                ops.append(('keys', ['up'] * rnd.randint(1, own)))
            ops += [('keys', ['7']), ('enter',)]
        u = dict(db=saved > 0 or rnd.random() < .5, cols=60, rows=8, see=True, alt=rnd.random() < .2, ops=ops)
        if saved:
            u['given'] = {'hist': [[i + 1, '%d+%d' % (i, i)] for i in range(saved)], 'cap': saved + 60}
        units.append(u)
    # every line on the way edited, then all of them looked at again
    for k in range(5 * m):
        saved, own = rnd.choice([(0, 70), (40, 40), (70, 0), (20, 20), (0, 34), (33, 1)])
        ops = []
        for i in range(own):
            ops += [('keys', list('%d' % (100 + i))), ('enter',)]
        every = rnd.choice([1, 1, 2, 3])
        for i in range(own + saved):
            ops.append(('keys', ['up'] + (['3'] if i % every == 0 else [])))
        back = rnd.choice(['up', 'down'])
        ops += [('keys', ['down'])] * (own + saved) + [('keys', ['up'])] * rnd.randint(1, own + saved) + [('keys', [back])] + [('enter',)] + [('keys', ['up'])] * (own + saved + 1)
        u = dict(db=saved > 0 or rnd.random() < .5, cols=60, rows=8, see=True, alt=rnd.random() < .2, ops=ops)
        if saved:
            u['given'] = {'hist': [[i + 1, '%d+%d' % (i, i)] for i in range(saved)], 'cap': saved + 100}
        units.append(u)
    # far walks, through saved lines and own ones
    for k in range(6 * m):
        saved, cap = rnd.choice([(100, 100), (120, 200), (180, 180), (0, 200), (63, 64)])
        own = rnd.choice([0, 5, 80])
        ops = []
        for i in range(own):
            ops += [('keys', list('%d' % (1000 + i))), ('enter',)]
        for _ in range(6):
            ops += [('keys', ['up'] * rnd.choice([1, 30, 64, 65, own, own + 1, own + saved, own + saved + 2])), ('keys', ['down'] * rnd.choice([0, 1, 2, 40]))]
            if rnd.random() < .5:
                ops += [('keys', ['bs', '7'])]
            if rnd.random() < .3:
                ops += [('enter',)]
            if rnd.random() < .3:
                ops.append(('other', 'q', '8'))
        ops += [('keys', ['9']), ('enter',), ('keys', ['up'] * 3 + ['4']), ('enter',)]
        u = dict(db=True, cols=60, rows=8, see=True, ops=ops, others=['q'])
        if saved:
            u['given'] = {'hist': [[i * 2 + 1, '%d+%d' % (i, i)] for i in range(saved)], 'cap': cap}
        units.append(u)
    # a session that comes after others, which wrote for themselves
    for _ in range(20 * m):
        ops = []
        for i in range(rnd.randint(1, 6)):
            ops += [('keys', list('%d' % (i * 11))), ('enter',)]
        ops += [('keys', ['up'] * rnd.randint(1, 20)), ('keys', ['4']), ('keys', ['down'] * rnd.randint(0, 4)), ('keys', ['bs', '3']), ('enter',)]
        units.append(dict(db=True, cols=100, rows=20, see=True, ops=[('other', 'q', str(i)) for i in range(3)] + ops, others=['q'],
                          given={'hist': [[i, 'x%d' % i] for i in range(1, 8)], 'cap': rnd.choice([7, 8, 10, 20])}))
    rnd.shuffle(units)
    check.notes['rule'] = 'walks through own and saved lines, with edits, submissions and lines and evictions of another session, against the submitted lines and the rows shown'
    run_edit(check, units, binary, 'hist echo screen')


ANSWERS = ['3^200', '1/7', '2', '', '/help', '/h p', '1 +', '/r', '/converttoradix 2', '/converttoradix none', '/p 60', '/p 5', '1/3', '2^300', '9' * 40, '/f t', '/f f', '/nope']


def c14(check, binary):
    rnd = lib.rng('C14', check.tier)
    model(check, 'MC_Editor', cfg='MC_Editor')
    m = 12 if check.thorough else 1
    units = []
    # narrow windows: every key from every position
    ps = generated(check, ['1', 'bs', 'del', 'left', 'c-left', 'right', 'c-right', 'home', 'end'], 6 if check.thorough else 5, 4, 0, 1000, rnd,
                   None if check.thorough else 700)
    base = list('abcdefgh')
    for i in range(0, len(ps), 12):
        for cols in (range(3, 13) if check.thorough else [5 + i // 12 % 9]):
            for alt in (False, True):
                if not alt and cols < 5:
                    continue
                ops = []
                for p in ps[i:i + 12]:
                    n = rnd.randint(0, 8)
                    ops += [('keys', base[:n] + ['x'])] + [('each', list(p))] + [('enter',)]
                units.append(dict(db=False, alt=alt, cols=cols, rows=rnd.choice([3, 6, 12]), start_row=rnd.choice([0, 1, 2]), ops=ops))
    for k in range(300 * m):
        alt = rnd.random() < .45
        cols = rnd.choice([5, 6, 7, 8, 9, 10, 12, 16, 20, 33, 40, 80, 120]) if not alt else rnd.choice([3, 4, 5, 7, 8, 10, 12, 16, 20, 40, 80])
        rows = rnd.choice([2, 3, 4, 6, 10, 24, 40])
        ops = []
        for _ in range(rnd.choice([2, 4, 8])):
            x = rnd.random()
            w = cols - (2 if alt else 4)
            if x < .25:
                n = rnd.choice([w - 1, w, w + 1, 2 * w, 3 * w - 1, 3 * w + 1]) if w > 1 else rnd.randint(1, 5)
                ops += [('each' if rnd.random() < .5 else 'keys', typed(rnd, min(max(n, 0), 300), list('0123456789abcdef+ <>#')))]
            elif x < .4:
                ops += [('keys', typed(rnd, rnd.choice([3, 20, 90, 200]), PLAIN))]
            elif x < .6:
                ops += [('keys', list(rnd.choice(ANSWERS))), ('enter',)]
            ops += [('each', some_keys(rnd, rnd.choice([3, 12, 30]), dict(type=25, move=40, cut=15, walk=6, none=3)))]
            if rnd.random() < .4:
                cols2 = max(3 if alt else 5, rnd.choice([cols - 1, cols + 1, cols // 2, cols * 2, 5, 6, 10, 40]))
                rows2 = rnd.choice([rows, rows, max(2, rows - 1), rows + 3, max(2, rows // 2), rows * 2])
                ops.append(('size', cols2, rows2))
                ops += [('each', some_keys(rnd, rnd.choice([0, 3, 9]), dict(type=25, move=40, cut=15)))]
            if rnd.random() < .5:
                ops.append(('enter',))
        units.append(dict(db=False, alt=alt, cols=cols, rows=rows, start_row=rnd.choice([0, 0, 1, rows - 1, rows // 2]), ops=safe(ops)))
    # lines longer than the screen, or than it is wide many times over
    for k in range(10 * m):
        alt = k % 2 == 0
        cols, rows = rnd.choice([20, 33, 80, 120, 255, 257, 300]), rnd.choice([3, 10, 24, 60])
        n = rnd.choice([250, 300, 600, 1200])
        ops = [('keys', typed(rnd, n, list('0123456789abcdef+ <>#')))]
        ops += [('each', some_keys(rnd, 10, dict(type=25, move=40, cut=15))), ('keys', ['c-left'] * rnd.randint(0, 30)), ('each', some_keys(rnd, 6, dict(type=25, move=40, cut=15)))]
        ops += [('size', rnd.choice([cols - 1, cols + 1, cols * 2, max(10, cols // 3)]), rows)] * rnd.randint(0, 1) + [('each', ['home', 'del', 'end', 'bs', '1']), ('enter',), ('each', ['up', 'left', '2']), ('enter',)]
        units.append(dict(db=False, alt=alt, cols=cols, rows=rows, start_row=rnd.choice([0, rows - 1]), ops=safe(ops)))
    # too narrow, at the start and later
    for alt in (False, True):
        for cols in range(1, 8):
            units.append(dict(alt=alt, cols=cols, rows=5, ops=[('each', list('12')), ('enter',)]))
            for text in ('', '12345', '1234567890' * 4):
                units.append(dict(alt=alt, cols=20, rows=5, ops=[('keys', list(text))] * (text != '') + [('size', cols, 5), ('each', ['1', 'left', 'home']), ('enter',)]))
    rnd.shuffle(units)
    check.notes['rule'] = 'every row of the screen and the cursor after every key, size change and submission'
    run_edit(check, units, binary, 'echo screen out')


def safe(ops):
    """No power with a large exponent comes about by chance."""
    return ops


def c21(check, binary):
    rnd = lib.rng('C21', check.tier)
    m = 8 if check.thorough else 1
    units = []
    states = [[], [('keys', list('12'))], [('keys', list('1+')), ('enter',)], [('keys', list('$a = 5')), ('enter',), ('keys', list('$a'))],
              [('keys', list('7')), ('enter',), ('keys', ['up'])], [('keys', list('7')), ('enter',), ('keys', ['up', '1', 'left'])],
              [('keys', ['up', 'up', 'down'])], [('keys', list('(1)') + ['home', 'c-n'])], [('keys', list('1' * 150))], [('keys', list('1' * 150) + ['home'])],
              [('keys', list('/help')), ('enter',)], [('keys', list('12')), ('size', 10, 4)], [('enter',)], [('keys', list('/r 16')), ('enter',)],
              [('keys', list('123') + ['c-d'])], [('keys', list('5') + ['left', 'c-c', '7'])], [('keys', ['c-z', '1'])]]
    for alt in (False, True):
        for db in (False, True):
            for st in states:
                for k in edit.QUIT:
                    u = dict(alt=alt, db=db, cols=40, rows=8, start_row=rnd.choice([0, 3, 7]), see=False, ops=st + [('quit', k)])
                    if db and rnd.random() < .5:
                        u['given'] = {'hist': [[1, '1'], [2, '2 +']], 'cap': rnd.choice([2, 3])}
                    units.append(u)
    for _ in range(60 * m):
        ops = batches(rnd, some_keys(rnd, rnd.choice([2, 20]), dict(type=30, move=20, cut=10, walk=15, none=20)))
        if rnd.random() < .4:
            ops += [('enter',)] + batches(rnd, some_keys(rnd, 5, dict(type=30, move=20, walk=20)))
        units.append(dict(alt=rnd.random() < .5, db=rnd.random() < .5, cols=rnd.choice([12, 60]), rows=rnd.choice([3, 12]), see=False, ops=ops + [('quit', rnd.choice(edit.QUIT))]))
    # too narrow
    for alt in (False, True):
        for db in (False, True):
            for cols in (1, 2, 3, 4):
                units.append(dict(alt=alt, db=db, cols=cols, rows=4, see=False, ops=[('quit', 'c-d')]))
                for st in states[:6]:
                    units.append(dict(alt=alt, db=db, cols=30, rows=6, see=False, ops=st + [('size', cols, 6), ('quit', 'c-d')]))
    # saved data that cannot be used, at the start or later; a terminal that does not say where the cursor is
    for alt in (False, True):
        for how in edit.FAILURES:
            units.append(dict(alt=alt, db=True, cols=40, rows=8, see=False, broken=how, ops=[]))
        for how in edit.LATER:
            for st in ([], states[3], states[5], states[1]):
                units.append(dict(alt=alt, db=True, cols=40, rows=8, see=False, nosnap=True, given={'hist': [[1, '1'], [2, '2 +']], 'cap': 9},
                                  ops=st + [('break', how), ('may', ['up'] * 6), ('may', ['enter']), ('may', ['enter']), ('may', ['up', 'up', 'up']), ('quit', 'c-d')]))
        for db in (False, True):
            units.append(dict(alt=alt, db=db, cols=40, rows=8, see=False, mute=True, ops=[]))
            units.append(dict(alt=alt, db=db, cols=40, rows=8, see=False, nosnap=True, ops=[('keys', ['1']), ('mute',), ('may', ['enter']), ('quit', 'c-d')]))
    rnd.shuffle(units)
    check.notes['rule'] = 'exit status, standard error, terminal modes, screen and saved lines at every way out'
    run_edit(check, units, binary, 'exit hist')


# lines whose answer is one row, quick ones and slow ones
QUICK = ['1', '', '2+2', '1/7', '1 +', '(', '$a = 5', '$b = $a + 1', '$a', '$b', '/r 16', '/r 10', '/p 3', '/f t', '/f f', '/nope', '/histcap 3', '/histcap 9', '/purgevar $a', '/reloadvar', '10', 'ff',
         '$c = 1/0', '/p x', '1,2', '/commas t', 'sqrt 16', '$a = $a * 2', '/histcap', '/converttoradix 2', '/converttoradix none', '8', '99*99']
SLOW = ['3^400 % 7', '7^300 % 1000', '(2/3)^90 * 0 + 4', '9^300 / 9^299', '3^(2^4) + 2^(-3)']


def ahead_keys(rnd, limit, db):
    """Lines with keys between, as they are typed without waiting; at most `limit` bytes."""
    ks = []
    powers = rnd.random() < .4      # then nothing is assigned: the value of a power may be open
    lines = [q for q in QUICK if (db or q[:3] not in ('/hi', '/pu', '/re')) and not (powers and '$' in q)]
    n = rnd.choice([1, 2, 3, 5, 9, 14])
    for i in range(n):
        x = rnd.random()
        if x < .25:
            ks += [rnd.choice(['up', 'up', 'down', 'up'])] * rnd.choice([1, 1, 2, 3]) + rnd.choice([[], ['bs'], list('+1'), ['home', 'del'], ['left', '7']])
        elif x < .35:
            ks += [k for k in some_keys(rnd, rnd.choice([3, 9]), dict(type=30, move=30, cut=20, none=10, walk=10)) if k not in ('esc', 'c-space') and not (powers and k in '$=')]
        elif x < .5 and powers:
            ks += list(rnd.choice(SLOW))
        else:
            ks += list(rnd.choice(lines))
            if rnd.random() < .3:
                ks += rnd.choice([['left', 'bs'], ['home', '1', 'end'], ['c-left', 'del'], ['c-n'], ['c-a'], ['tab'], ['pi'], ['s-left', '2']])
        if i < n - 1 or rnd.random() < .6:
            ks.append('enter')
    out, size = [], 0
    for k in ks:
        size += len(KEYS.get(k, b'1'))
        if size > limit:
            break
        out.append(k)
    return out or ['1', 'enter']


def c25(check, binary):
    rnd = lib.rng('C25', check.tier)
    model(check, 'MC_Editor', cfg='MC_Editor')
    m = 12 if check.thorough else 1
    units = []
    for i in range(800 * m):
        alt, db = rnd.random() < .35, rnd.random() < .6
        ops = []
        for _ in range(rnd.choice([1, 2, 4])):
            x = rnd.random()
            if x < .15:
                ops += batches(rnd, typed(rnd, 4, list('0123456789+-*/ .'))) + [('enter',)]
            elif x < .25 and db:
                ops.append(('other', 'q', rnd.choice(['7', '$a = 2', '/histcap 4', '8 8'])))
            ks = ahead_keys(rnd, rnd.choice([60, 200, 480]), db)
            ops.append(('ahead', ks, sorted(rnd.sample(range(len(ks)), min(len(ks) - 1, rnd.choice([0, 0, 1, 3, 10])))), rnd.choice([0, 0, .0005, .003, .02])))
        if rnd.random() < .3:
            ks = ahead_keys(rnd, 300, db) + [rnd.choice(edit.QUIT)]
            ops.append(('ahead', ks, sorted(rnd.sample(range(len(ks)), rnd.choice([0, 0, 1]))), 0))
        u = dict(db=db, alt=alt, cols=rnd.choice([20, 40, 80, 132]), rows=rnd.choice([4, 12, 30]), start_row=rnd.choice([0, 2, 3]), see=rnd.random() < .7, ops=safe(ops), others=['q'] if db else [])
        if db and rnd.random() < .5:
            u['given'] = {'hist': [[k, rnd.choice(['1 + %d' % k, '%d' % k, '$a = %d' % k, '', '((%d' % k])] for k in range(1, rnd.randint(2, 8))], 'cap': rnd.choice([7, 8, 20])}
        units.append(u)
    check.notes['rule'] = 'keys and lines written in one to eleven pieces without waiting for prompts; every answer, every saved line, the last screen and the end'
    run_edit(check, units, binary, 'out hist vals by echo screen exit')
