"""C08, C09, C15, C16, C17, C20, C23: sessions, variables, settings and the saved data."""
import hashlib
import json
import os
import shutil
import subprocess
import tempfile

import calc
import gen
import lib
import store
from drive import Session, Stuck

NAMES = ['$a', '$b', '$c', '$A', '$ab', '$', '$1', '$B_']
BAD_LINES = ['1 +', '$a +', '$b + $a)', '1/0', '$a / 0', '$a + $nope', '$nope + $a', '$nope', '$a = $nope', '$b = 1/0', '$a = ', '= 3',
             '$a = $b = 3', '1..2 + $a', '$a + q', '@', '$a # 2', '/nope', '/nope $a', '/', '/ p', '/r 99', '/r 1', '/r x', '/r 2 3',
             '/p 300', '/p 200 200', '/p -1', '/p $a', '/f maybe', '/commas 1', '/upper yes', '/converttoradix 17', '/converttoradix $a',
             '/histcap 0', '/histcap -3', '/histcap 1.5', '/histcap x', '/histcap 2 3', '/histcap $a', '/purgevar a', '/purgevar 1',
             '/purgevar $a 1', '/purgevar $a, $b', '/reloadvar b', '/reloadvar $a +', '/h nope', '/help $a', 'sqrt -1', '$a = sqrt(-4)',
             '$a ^ (1/2 - 1/2 + 0) + (0-2)^.5', '0 ^ -1', '$a = 0^(-2)', '5 % 0', '$b = 5 % (1 - 1)', 'max()', '$a = max()', '$a + max()',
             '((1)', '$a $b', '1 $a', '$a = (2', '$a = 2)', '$a = 2,', 'max(1,,$a)', '$a = 9 9', '$a = 7 $b']


def value_text(rnd):
    k = rnd.random()
    if k < .3:
        return rnd.choice(['0', '1', '-1', '2', '7', '10', '1/3', '-1/3', '22/7', '.5', '-.25'])
    if k < .5:
        return '%s%s' % (rnd.choice(['', '-']), gen.digits(rnd, rnd.choice([1, 18, 19, 20, 40, 90]), 10) or '3')
    if k < .7:
        return '%s%s.%s' % (rnd.choice(['', '-']), gen.digits(rnd, rnd.choice([1, 5, 30]), 10), gen.digits(rnd, rnd.choice([1, 5, 30]), 10))
    if k < .85:
        return '%s%d/%d' % (rnd.choice(['', '-']), rnd.randrange(1, 10 ** rnd.choice([1, 5, 30])), rnd.randrange(1, 10 ** rnd.choice([1, 5, 30])))
    return rnd.choice(['sqrt 2', '-(sqrt 3)', '10^(1/3)', '2^100', '(-3)^41', '(2/3)^-20', '2^(-70)', 'abs -4', 'max(1/3, 1/4)'])


def use(rnd, names):
    a, b = rnd.choice(names), rnd.choice(names)
    return rnd.choice(['%s' % a, '%s' % a, '%s + %s' % (a, b), '%s * 2 - %s' % (a, b), 'max(%s, %s)' % (a, b), '-%s' % a, '(%s)' % a,
                       '%s - %s' % (a, a), 'abs %s' % a])


def some_line(rnd, names, w):
    """w: weights of the kinds of lines."""
    kinds = list(w)
    k = rnd.choices(kinds, [w[x] for x in kinds])[0]
    a, b = rnd.choice(names), rnd.choice(names)
    if k == 'set':
        return '%s = %s' % (a, value_text(rnd))
    if k == 'copy':
        return rnd.choice(['%s = %s' % (a, b), '%s = %s + 1' % (a, a), '%s = %s * %s' % (a, a, b), '%s = -%s' % (a, a), '%s = %s / 3' % (a, b)])
    if k == 'use':
        return use(rnd, names)
    if k == 'plain':
        return rnd.choice(['1', '2 + 2', '', '  ', '1/3', '(4)', 'max(1, 2)', '-5'])
    if k == 'bad':
        return rnd.choice(BAD_LINES).replace('$a', a).replace('$b', b)
    if k == 'purge':
        return '/purgevar ' + ' '.join(rnd.choice(names) for _ in range(rnd.choice([0, 1, 1, 1, 2, 3])))
    if k == 'reload':
        return '/reloadvar ' + ' '.join(rnd.choice(names) for _ in range(rnd.choice([0, 1, 1, 1, 2, 3])))
    if k == 'cap':
        return rnd.choice(['/histcap', '/histcap %d' % rnd.choice([1, 1, 2, 2, 3, 4, 5, 7, 12])])
    if k == 'bigcap':
        return rnd.choice(['/histcap 4294967296', '/histcap 9223372036854775807', '/histcap 101', '/histcap 100', '/histcap 18446744073709551616'])
    if k == 'setting':
        return rnd.choice(['/r 16', '/r 10', '/r 2', '/p 3', '/p 20 2', '/p 0', '/f t', '/f f', '/commas t', '/commas f', '/upper t', '/upper f',
                           '/converttoradix 7', '/converttoradix none', '/p', '/r', '/help', '/h p', '/f', '/commas', '/upper', '/converttoradix'])
    raise ValueError(k)


def in_radix(line, radix):
    return line


def scenario(rnd, n, names, w, sessions=2, cap=None, cfgs=None, restart=.08):
    """Random interleaving of sessions."""
    ops, live, k = [], [], 0
    if cap is not None:
        ops += [('open', 's0', {}), ('line', 's0', '/histcap %d' % cap)]
        live = ['s0']
        k = 1
    while len(ops) < n:
        if not live or (len(live) < sessions and rnd.random() < .15):
            ops.append(('open', 's%d' % k, rnd.choice(cfgs) if cfgs else {}))
            live.append('s%d' % k)
            k += 1
        elif rnd.random() < restart:
            s = live.pop(rnd.randrange(len(live)))
            ops.append(('end', s))
        else:
            ops.append(('line', rnd.choice(live), some_line(rnd, names, w)))
    return {'ops': ops, 'alt': rnd.random() < .15}


def generated(check, lines, steps, sessions, cap=None, limit=None, rnd=None):
    """Behaviours enumerated by TLC from Gen_Session: every transition within the bounds, each by a shortest path;
    paths that are prefixes of others are left out."""
    path = os.path.join(check.scratch, 'lines.ndjson')
    with open(path, 'w') as f:
        f.write(''.join(json.dumps(x) + '\n' for x in lines))
    env = {'LINES': path, 'STEPS': str(steps), 'SESSIONS': str(sessions)}
    if cap:
        env['CAP'] = str(cap)
    code, out = lib.run_tlc('Gen_Session', env=env)
    if code != 0:
        raise lib.ToolError('Gen_Session:\n' + out[-2000:])
    paths = [tuple(tuple(x) for x in p['path']) for p in lib.printed(out) if 'path' in p]
    prefixes = {p[:i] for p in paths for i in range(len(p))}
    paths = sorted(p for p in paths if p not in prefixes)
    gen_states, distinct = lib.count_states(out)
    check.states += distinct
    check.transitions += gen_states
    n = len(paths)
    if limit and n > limit:
        paths = rnd.sample(paths, limit)
    check.notes.setdefault('generated_by_TLC', []).append(
        {'alphabet': lines, 'longest_path': steps, 'sessions': sessions, 'capacity': cap or 100, 'transitions': gen_states,
         'distinct_states': distinct, 'maximal_paths': n, 'replayed': len(paths)})
    out = []
    for p in paths:
        ops = [(o[0], o[1], {}) if o[0] == 'open' else o for o in p]
        sc = {'ops': ops}
        if cap:
            sc['given'] = {'hist': [], 'cap': cap}
        out.append(sc)
    return out


def model(check, name, env=None, cfg=None):
    ok, g, d, out = lib.model_check(name, cfg, env=env)
    check.states += d
    check.transitions += g
    check.notes.setdefault('models', []).append({'model': name, 'states': g, 'distinct': d})
    if not ok:
        raise lib.ToolError('the model %s has an error (the specification, not the program):\n%s' % (name, out[-3000:]))


# ---- C08 --------------------------------------------------------------------------------------
def long_names(rnd):
    groups = []
    for n in (6, 8, 9, 12, 16, 20, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000):
        base = '$' + ''.join(rnd.choice('abcdefgh') for _ in range(n - 1))
        k = rnd.randrange(1, n)
        groups.append([base, base.upper(), base[:k] + base[k].upper() + base[k + 1:], base + 'x', base + 'X', base + '_', base[:-1], base[:-1] + 'z', base[:k] + '_' + base[k + 1:], '$z' + base[2:]])
    return groups


def c08(check, binary):
    rnd = lib.rng('C08', check.tier)
    m = 30 if check.thorough else 1
    w = dict(set=25, copy=20, use=35, purge=7, reload=5, setting=8, bad=6, plain=2)
    # without saved data
    units = []
    for k in range(60 * m):
        names = rnd.sample(NAMES, rnd.choice([1, 2, 3, 5]))
        cfg = gen.random_cfg(rnd, True) if k % 3 == 0 else {}
        cfg.pop('radix', None)
        units.append(dict(cfg=cfg, lines=[some_line(rnd, names, w) for _ in range(60)], alt=k % 5 == 0))
    # names that differ only a little
    close = ['$a', '$A', '$aa', '$a1', '$a_', '$_a', '$a.', '$', '$$', '$$a', '$0', '$00', '$1', '$01', '$sqrt', '$max', '$MAX', '$a' * 3, '$a$', '$"', "$'",
             '$x\'y', '$a;', '$a:', '$é'[:1], '$' + 'n' * 60, '$' + 'n' * 61, '$%d' % 10 ** 25, '$!', '$#', '$[', '$~', '$\\', '$|', '$?', '$<', '$`']
    close = sorted(set(close))
    lines = ['%s = %d/7' % (n, i + 1) for i, n in enumerate(close)] + close + ['%s = %s + 1' % (n, n) for n in reversed(close)] + close
    lines += ['/purgevar ' + close[3]] + close + ['/purgevar ' + ' '.join(close[5:9])] + close
    units.append(dict(cfg={'frac': True}, lines=lines))
    # long names that differ in one place only: in the case of a letter, at the end, in the middle
    longs = long_names(rnd)
    for group in longs:
        lines = ['%s = %d/7' % (n, i + 1) for i, n in enumerate(group)] + group + ['/purgevar ' + group[0]] + group + ['%s = %s + 1' % (group[1], group[2])] + group
        units.append(dict(cfg={'frac': True}, lines=lines))
    # a great number of variables, and values of more than a thousand digits
    many = ['$v%d' % i for i in range(150)] + ['$%s' % (c * k) for c in 'xyZ' for k in range(1, 12)]
    lines = ['%s = %d/7' % (n, i) for i, n in enumerate(many)]
    for _ in range(150 * m):
        a, b = rnd.choice(many), rnd.choice(many)
        lines.append(rnd.choice(['%s = %s + 1' % (a, b), '%s' % a, '%s - %s' % (a, b), '/purgevar %s' % a if rnd.random() < .3 else b]))
    units.append(dict(cfg={'frac': True}, lines=lines + many))
    for k in (2100, 4000, 9000) if check.thorough else (2100, 3000):
        units.append(dict(cfg={'prec': 2}, lines=['$a = 3^%d' % k, '$b = -(2/7)^%d' % k, '$c = $a * $b', '$a = $a + $b', '$a - 3^%d' % k, '$a - $b - 3^%d' % k, '$c / $b - 3^%d' % k, '$b = $a',
                                                  '$a = 1', '$b - 3^%d + (2/7)^%d' % (k, k), '$a']))
    # the value is kept in full whatever the display does
    for c in ({'prec': 0, 'extra': 0}, {'prec': 1}, {'frac': True}, {'commas': True, 'upper': True, 'out': 16}, {'out': 2, 'prec': 3}, {'prec': 0, 'extra': 20}):
        lines = []
        for _ in range(12 * m):
            v = value_text(rnd)
            if 'sqrt' in v or '^(1/3)' in v:
                v = '5/7'
            lines += ['$x = ' + v, '$x', '$y = $x * 3', '$x - (%s)' % v, '/p 30', '/f t', '$x', '$y', '$y - $x - $x - $x', '/f f', '/p %d' % c.get('prec', 5),
                      '/r 16', '$x', '/r 10', '$x = $x + $x', '$x - $y + (%s)' % v]
        units.append(dict(cfg=c, lines=lines))
    if not calc.run_check(check, binary, units):
        return
    # with saved data, also seen by later and other sessions
    sc = [scenario(rnd, 40, rnd.sample(NAMES, rnd.choice([1, 2, 3])), dict(w, cap=2), rnd.choice([1, 2, 3]), rnd.choice([None, None, 2, 4]),
                   [{}, {'radix': 12}, {'prec': 0, 'extra': 0}, {'frac': True}]) for _ in range(160 * m)]
    sc += generated(check, ['$a = 1', '$a', '$a = $a + 1', '$b = $a', '$b', '$A', '/purgevar $a', '/reloadvar $a', '$a = 1/0'], 6 if check.thorough else 5, 2,
                    limit=None if check.thorough else 700, rnd=rnd)
    for group in longs:
        names = group[:5]
        ops = [('open', 's', {'frac': True})] + [('line', 's', '%s = %d/7' % (n, i + 1)) for i, n in enumerate(names)] + [('end', 's'), ('open', 't', {'frac': True})] + \
              [('line', 't', n) for n in names] + [('line', 't', '/purgevar ' + names[1])] + [('line', 't', n) for n in names] + [('end', 't'), ('open', 'u', {'frac': True})] + \
              [('line', 'u', n) for n in names]
        sc.append({'ops': ops})
    store.run_check(check, binary, sc, 'out vals')


# ---- C09 --------------------------------------------------------------------------------------
PROBES = ['/r', '/p', '/f', '/commas', '/upper', '/converttoradix']


def c09(check, binary):
    rnd = lib.rng('C09', check.tier)
    m = 30 if check.thorough else 1
    sc = []
    # each failing line, from several situations, with everything looked at before and after
    for k, bad in enumerate(BAD_LINES * (2 if check.thorough else 1)):
        cfg = gen.random_cfg(rnd, True)
        cfg.pop('radix', None)
        ops = [('open', 's', cfg), ('line', 's', '$a = %s' % value_text(rnd)), ('line', 's', '$b = 3/7'), ('line', 's', '/histcap %d' % rnd.choice([3, 6, 40]))]
        ops += [('line', 's', p) for p in rnd.sample(PROBES, 2)]
        ops += [('line', 's', bad)]
        ops += [('line', 's', p) for p in PROBES + ['/histcap', '$a', '$b', '$nope']]
        ops += [('line', 's', bad), ('line', 's', '$a = $a + 1'), ('line', 's', bad), ('line', 's', '$a'), ('end', 's'), ('open', 't', {}),
                ('line', 't', '$a'), ('line', 't', '$b')]
        sc.append({'ops': ops})
    w = dict(set=15, copy=10, use=15, bad=45, purge=3, reload=3, cap=4, setting=10, plain=2)
    for _ in range(150 * m):
        sc.append(scenario(rnd, 40, rnd.sample(NAMES, rnd.choice([1, 2, 3])), w, rnd.choice([1, 2]), rnd.choice([None, 2, 3, 8]),
                           [{}, {'frac': True}, {'radix': 16, 'out': 10}, {'prec': 2}]))
    sc += generated(check, ['$a = 1', '$b = $a', '$a = $b + 1/0', '$b + $a)', '$a = $a $b', '/histcap 2', '/histcap 0', '/purgevar $a 1', '/reloadvar $b +', '/r 99'],
                    6 if check.thorough else 5, 1, limit=None if check.thorough else 600, rnd=rnd)
    # failing lines that are long, whatever is wrong with them, and whatever comes first in them
    pads = [lambda n: ' + '.join(['1'] * (n // 4)), lambda n: '1 + ' + '(' * (n // 2 - 4) + '2' + ')' * (n // 2 - 4), lambda n: '1 +' + ' ' * (n - 5) + ' 1', lambda n: '$a + ' * (n // 5) + '1']
    wrongs = ['%s + ]', '%s +', '(%s', '%s)', '%s / 0', '%s + $nope', '$a = %s 2', '$b = %s / (1 - 1)', '/histcap %s', '/purgevar $a %s', '/reloadvar $b + %s', '/r 1%s', '/p %s',
              '%s + 2a', '$a = $b = %s', '0 ^ (0 - (%s))', '0x1 %s', '/commas %s x', '/f %s y', '/mix %s', '/upper %s -', '/converttoradix %s 99', '$%s = 1', '$a %s = ,']
    long = [w % pads[(i + k) % len(pads)](rnd.choice([40, 59, 61, 64, 80, 100, 130, 260])) for i in range(2 * m if m > 1 else 2) for k, w in enumerate(wrongs)]
    for k in range(0, len(long), 4):
        ops = [('open', 's', rnd.choice([{}, gen.random_cfg(rnd, True), {'commas': True, 'upper': True}])), ('line', 's', '$a = 12345/7'), ('line', 's', '$b = 3/7')]
        for set_first in ('/commas true', '/upper true', '/f true', '/converttoradix 16', '/r 10', '/p %d' % rnd.choice([0, 3, 40])):
            ops += [('line', 's', set_first)] * rnd.choice([0, 1, 1])
        for bad in long[k:k + 4]:
            ops += [('line', 's', bad)] + [('line', 's', p) for p in PROBES + ['/histcap', '$a', '$b']]
        sc.append({'ops': ops})
    if not store.run_check(check, binary, sc, 'out cap vals by'):
        return
    # without saved data: generated garbage between probes of the whole state
    units = []
    for _ in range(20 * m):
        lines = ['$a = 22/7', '$b = -5']
        for _ in range(12):
            g = rnd.choice(BAD_LINES) if rnd.random() < .5 else gen.garbage(rnd)
            if '^' in g or any(x in g for x in ('sqrt', '\t')):
                g = rnd.choice(BAD_LINES)
            lines += [g] + PROBES + ['$a', '$b', '$a * $b']
        units.append(dict(cfg=gen.random_cfg(rnd, True), lines=lines))
    calc.run_check(check, binary, units)


# ---- C15 --------------------------------------------------------------------------------------
def c15(check, binary):
    rnd = lib.rng('C15', check.tier)
    m = 30 if check.thorough else 1
    model(check, 'MC_Store')
    w = dict(set=8, copy=3, use=8, plain=25, bad=20, purge=2, reload=2, cap=25, setting=5, bigcap=2)
    sc = [scenario(rnd, 45, NAMES[:3], w, rnd.choice([1, 2, 3]), rnd.choice([None, 1, 2, 3, 5])) for _ in range(150 * m)]
    # odd texts are recorded as they are
    texts = ['', ' ', '   ', '1', '1', '1 ', ' 1', "'", '"', "'; DROP TABLE input_history; --", '%s', '\\n', '/', '//', '/ ', '/histcap', '-', '--', '$', '# 1', '< >',
             'a' * 150, '1' + ' ' * 90 + '1', '(' * 60, 'NULL', '0x41', '1e9', '~!@#$%^&*()_+', '`', '{}', '[x]', '?', ':a', '@a', '_']
    for k in range(3):
        rnd.shuffle(texts)
        sc.append({'ops': [('open', 's', {})] + [('line', 's', t) for t in texts] + [('line', 's', '/histcap 7'), ('end', 's'), ('open', 't', {}), ('line', 't', '2')]})
    # lines of thousands of characters
    for n in (1000, 2500, 4100) if not check.thorough else (1000, 2500, 3001, 4095, 4097, 5000, 9000):
        sc.append({'ops': [('open', 's', {}), ("line", "s", "x" * n), ('line', 's', '2'), ('end', 's'), ('open', 't', {}), ('line', 't', '3')]})
    # the default capacity is reached and passed
    for start, n in ((0, 106), (97, 8), (103, 4)):
        ops = [('open', 's', {})] + [('line', 's', str(i)) for i in range(n)] + \
              [('end', 's'), ('open', 't', {}), ('line', 't', '/histcap 99'), ('line', 't', '/histcap 101'), ('line', 't', 'x'), ('line', 't', 'y'), ('line', 't', 'z'), ('line', 't', '/histcap 5'),
               ('line', 't', '1')]
        if start:
            given = {'hist': [[i + 1, 'line %d' % i] for i in range(min(start, 100))], 'cap': 100}
            sc.append({'given': given, 'ops': ops[:1] + ops[-9:] if False else ops})
        else:
            sc.append({'ops': ops, 'blind': False})
    # full histories of about the default capacity, cut to about as many
    for _ in range(8 * m):
        n = rnd.randint(90, 130)
        ops = [('open', 's', {})]
        for _ in range(3):
            ops += [('line', 's', '/histcap %d' % (n + rnd.choice([-40, -3, -2, -1, 0, 1, 2]))), ('line', 's', 'x'), ('line', 's', 'y')]
        sc.append({'given': {'hist': [[i + 1, 'line %d' % i] for i in range(n)], 'cap': n}, 'ops': ops})
    for size, to in ((99, 98), (100, 99), (101, 99), (102, 100), (103, 99), (110, 100), (101, 100)):
        sc.append({'given': {'hist': [[i + 1, 'line %d' % i] for i in range(size)], 'cap': size}, 'ops': [('open', 's', {}), ('line', 's', '/histcap %d' % to), ('line', 's', '1')]})
    # histories whose ids start high (older sessions evicted the rest), any capacity
    for _ in range(12 * m):
        n, first, cap = rnd.randint(0, 9), rnd.choice([1, 7, 1000, 2 ** 30]), rnd.randint(1, 12)
        n = min(n, cap)
        ids, at = [], first
        for _ in range(n):
            ids.append(at)
            at += rnd.choice([1, 1, 1, 2])
        given = {'hist': [[i, 'old %d' % i] for i in ids], 'cap': cap}
        body = scenario(rnd, 18, NAMES[:2], w, 2)
        sc.append(dict(body, given=given))
    a = ['1', '1 +', '/histcap 1', '/histcap 2', '/histcap 3', '/histcap']
    sc += generated(check, a, 7 if check.thorough else 6, 2, limit=None if check.thorough else 700, rnd=rnd)
    sc += generated(check, a, 9 if check.thorough else 7, 1, 2, limit=None if check.thorough else 500, rnd=rnd)
    store.run_check(check, binary, sc, 'class hist cap')


# ---- C16 --------------------------------------------------------------------------------------
def c16(check, binary):
    rnd = lib.rng('C16', check.tier)
    m = 30 if check.thorough else 1
    w = dict(set=30, copy=12, use=20, purge=10, reload=20, bad=3, plain=2, setting=4)
    sc = [scenario(rnd, 40, rnd.sample(NAMES, rnd.choice([1, 2, 3])), w, rnd.choice([2, 3]), None,
                   [{}, {'radix': 16}, {'prec': 0, 'extra': 0}, {'frac': True}, {'commas': True, 'upper': True}], restart=.12) for _ in range(150 * m)]
    # many values round trip through a restart and a reload
    for _ in range(25 * m):
        ops = [('open', 'p', {}), ('open', 'q', {'frac': True})]
        names = ['$v%d' % i for i in range(6)]
        for n in names:
            ops.append(('line', 'p', '%s = %s' % (n, value_text(rnd))))
        for n in names[:3]:
            ops.append(('line', 'q', n))
        for n in names[:3]:
            ops.append(('line', 'p', '%s = %s * 3' % (n, n)))
        for n in names[:3]:
            ops.append(('line', 'q', n))
        ops += [('line', 'q', '/reloadvar ' + ' '.join(names)), ('line', 'q', ' + '.join(names)), ('end', 'p'), ('open', 'r', {'frac': True, 'radix': rnd.randint(2, 16)})]
        ops += [('line', 'r', n) for n in names] + [('line', 'r', '/purgevar ' + names[0]), ('line', 'q', names[0]), ('line', 'q', '/reloadvar ' + names[0]), ('line', 'q', names[0]),
                                                    ('line', 'r', names[0])]
        sc.append({'ops': ops})
    # names that mean something to SQL, and hardly differ
    odd = ['$%', '$_', "$'", '$"', '$x;', "$a'b", '$a"b', '$a%', '$a_', '$ab', '$aB', '$?', '$:a', '$@a', '$NULL', '$null', '$`', '$[a]', '$\\', '$' + 'n' * 70, '$' + 'n' * 71, '$', '$1', '$01']
    for _ in range(6 * m):
        names = rnd.sample(odd, 9)
        ops = [('open', 'p', {}), ('open', 'q', {'frac': True})] + [('line', 'p', '%s = %d/7' % (n, i)) for i, n in enumerate(names)]
        ops += [('line', 'q', '/reloadvar ' + ' '.join(rnd.sample(names, 5))), ('line', 'p', '/purgevar ' + ' '.join(rnd.sample(names, 2))), ('line', 'p', '%s = 99' % rnd.choice(names))]
        ops += [('line', 'q', n) for n in names] + [('line', 'q', '/reloadvar ' + n) for n in names] + [('end', 'q'), ('open', 'q', {'radix': 12})] + [('line', 'q', n) for n in names]
        sc.append({'ops': ops})
    # long names that differ in one place only
    for group in rnd.sample(long_names(rnd), 6 if not check.thorough else 23):
        names = rnd.sample(group, 5)
        ops = [('open', 'p', {}), ('open', 'q', {'frac': True})] + [('line', 'p', '%s = %d/7' % (n, i)) for i, n in enumerate(names)] + [('line', 'q', n) for n in names]
        ops += [('line', 'p', '/purgevar ' + names[1]), ('line', 'p', names[2] + ' = 99'), ('line', 'q', '/reloadvar ' + ' '.join(names[:4]))] + [('line', 'q', n) for n in names]
        ops += [('end', 'q'), ('open', 'q', {})] + [('line', 'q', n) for n in names]
        sc.append({'ops': ops})
    # commands with many variables; purging long values
    for _ in range(4 * m):
        names = ['$v%d' % i for i in range(rnd.choice([8, 13, 30]))]
        some = rnd.sample(names, len(names) - 2)
        ops = [('open', 'p', {}), ('open', 'q', {'frac': True})] + [('line', 'p', '%s = %d/7' % (n, i)) for i, n in enumerate(names)]
        ops += [('line', 'q', '/reloadvar ' + ' '.join(some))] + [('line', 'q', n) for n in names] + [('line', 'p', '%s = -1 - %d' % (n, i)) for i, n in enumerate(names)]
        ops += [('line', 'q', ' + '.join(names)), ('line', 'q', '/reloadvar ' + ' '.join(names)), ('line', 'q', '/purgevar ' + ' '.join(rnd.sample(names, len(names) - 3)))]
        ops += [('line', 'p', '/reloadvar ' + ' '.join(names))] + [('line', 'q', n) for n in names] + [('end', 'p'), ('open', 'p', {})] + [('line', 'p', n) for n in names]
        sc.append({'ops': ops})
    for v in ('2^700', '-(3^500)', '1/7^260', '(2/3)^1000', '10^80', '1/10^300', '9^9 + 1/2^64'):
        sc.append({'ops': [('open', 'p', {}), ('open', 'q', {}), ('line', 'p', '$a = ' + v), ('line', 'p', '$b = $a + 1'), ('line', 'q', '$a - $b'), ('line', 'p', '/purgevar $a'), ('line', 'q', '/reloadvar $a'),
                           ('line', 'p', '/reloadvar $a $b'), ('line', 'q', '$a - $b'), ('end', 'p'), ('open', 'r', {}), ('line', 'r', '$a'), ('line', 'r', '$b - ' + v), ('line', 'q', '/purgevar $b $a'), ('line', 'r', '/reloadvar $b')]})
    # a great number of variables
    many = ['$v%d' % i for i in range(90)]
    sc.append({'ops': [('open', 'p', {})] + [('line', 'p', '%s = %d/9' % (n, i)) for i, n in enumerate(many)] + [('end', 'p'), ('open', 'q', {'frac': True}), ('line', 'q', '/histcap 500')]
               + [('line', 'q', n) for n in many] + [('line', 'q', '/purgevar ' + ' '.join(many[10:15])), ('line', 'q', ' + '.join(many[15:])), ('line', 'q', many[9]), ('line', 'q', many[12])]})
    # very long values
    for n in (400, 1500, 5000) if not check.thorough else (400, 1500, 6000, 15000):
        sc.append({'ops': [('open', 'p', {}), ('line', 'p', '$a = 3^%d' % n), ('line', 'p', '$b = -(7/11)^%d' % n), ('end', 'p'), ('open', 'q', {'frac': True}),
                           ('line', 'q', '$a - 3^%d' % n), ('line', 'q', '$b + (7/11)^%d' % n), ('line', 'q', '$b'), ('line', 'q', '/reloadvar $a'),
                           ('line', 'q', '/reloadvar $b'), ('line', 'q', '$b + (7/11)^%d' % n)]})
    # values written by an earlier session
    vals = [['$a', '123456789012345678901234567890', '7', 1], ['$b', '-1', '3', 2], ['$c', '0', '1', 2], ['$d', '-98765432109876543210', '1', 3]]
    sc.append({'given': {'hist': [[1, 'x'], [2, 'y'], [3, 'z']], 'cap': 100, 'vars': vals},
               'ops': [('open', 'p', {'frac': True})] + [('line', 'p', v[0]) for v in vals] + [('line', 'p', '/reloadvar $a $b $c $d')]})
    sc += generated(check, ['$a = 1', '$a = 2', '$a', '/purgevar $a', '/reloadvar $a', '$b = $a', '$b'], 7 if check.thorough else 6, 2, limit=None if check.thorough else 900, rnd=rnd)
    store.run_check(check, binary, sc, 'out vals')


# ---- C17 --------------------------------------------------------------------------------------
def c17(check, binary):
    rnd = lib.rng('C17', check.tier)
    m = 30 if check.thorough else 1
    model(check, 'MC_Store')
    w = dict(set=14, copy=14, use=22, purge=6, reload=10, bad=14, plain=16, cap=8, setting=2)
    sc = [scenario(rnd, 45, rnd.sample(NAMES, rnd.choice([2, 3, 4])), w, rnd.choice([1, 2, 3]), rnd.choice([1, 2, 3, 4, 6])) for _ in range(170 * m)]
    # a variable is used in each possible way just before it would go, and then left alone
    ways = ['$a', '$a + 1', '1 + $a', '$b = $a', '$a = $a', '$a = 5', '$a = 1/0', '1/0 + $a', '$a +', '($a', 'max(1, $a', '$nope + $a', '$a + $nope', '/reloadvar $a',
            '/reloadvar $b $a', 'max($b, $a)', '$a $a', '$a = $a $a', '-$a', '  $a  ', '$a=', '$a, 1', '0 * $a', '$nope = $a', 'abs($a', '/purgevar $b',
            '/reloadvar $nope', '$A', '$aa', '$a2', '/r $a', '/help $a', '/nope $a', '$a @', '/purgevar $a']
    for cap in (2, 3):
        for way in ways:
            ops = [('open', 's', {}), ('line', 's', '/histcap %d' % (cap + 1)), ('line', 's', '$b = 4'), ('line', 's', '$a = 3')]
            ops += [('line', 's', '1')] * (cap - 1) + [('line', 's', way)] + [('line', 's', str(i)) for i in range(cap + 2)]
            sc.append({'ops': ops})
    # lines that mention many variables
    for way in ('%s', '%s + 1/0', '%s +', '(%s', '%s $nope', '$nope + %s', '/reloadvar %s', '/purgevar %s', '%s @', '$v0 = %s') * (4 if check.thorough else 1):
        n = rnd.choice([6, 9, 12, 20])
        names = ['$v%d' % i for i in range(n)]
        used = rnd.sample(names, n - 1)
        ops = [('open', 's', {}), ('open', 't', {}), ('line', 's', '/histcap %d' % (n + 2))] + [('line', 's', '%s = %d' % (x, i)) for i, x in enumerate(names)]
        ops += [('line', rnd.choice('st'), way % (' ' if way[0] == '/' else rnd.choice([' + ', ' * ', ' - '])).join(used))] + [('line', 's', '1')] * (n + 1)
        sc.append({'ops': ops + [('line', 't', x) for x in names]})
    # the same in a session that already has a copy in memory, while another session does the evicting
    for way in ways[:20]:
        ops = [('open', 's', {}), ('open', 't', {}), ('line', 's', '/histcap 3'), ('line', 's', '$b = 4'), ('line', 's', '$a = 3'), ('line', 't', way)]
        ops += [('line', 't', '1'), ('line', 's', '2'), ('line', 't', '$b'), ('line', 's', '$a'), ('line', 't', '3'), ('line', 's', '4'), ('line', 's', '5'), ('line', 't', '$a')]
        sc.append({'ops': ops})
    sc += generated(check, ['$a = 1', '$a', '$b = $a', '1 +', '$a +', '/purgevar $a', '/reloadvar $a'], 7 if check.thorough else 6, 1, 2, limit=None if check.thorough else 700, rnd=rnd)
    sc += generated(check, ['$a = 1', '$b', '$a + $b)', '1', '/histcap 1', '/histcap 3'], 7 if check.thorough else 5, 2, 2, limit=None if check.thorough else 500, rnd=rnd)
    store.run_check(check, binary, sc, 'class by vals')


# ---- C20 --------------------------------------------------------------------------------------
def listing(d):
    out = []
    for root, dirs, files in os.walk(d):
        out += [os.path.relpath(os.path.join(root, x), d) + '/' for x in dirs]
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as h:
                out.append('%s:%s' % (os.path.relpath(p, d), hashlib.sha256(h.read()).hexdigest()[:16]))
    return sorted(out)


def place(kind, root):
    """The data directory variable for one of the situations; None: not set."""
    d = os.path.join(root, 'data')
    if kind == 'unset':
        return None
    if kind == 'missing':
        return os.path.join(root, 'not', 'there')
    if kind == 'file':
        open(d, 'w').write('a file')
        return d
    os.mkdir(d)
    if kind in ('saved', 'newer'):
        store.build_db(d, {'hist': [[1, '$a = 7'], [2, '$z']], 'cap': 2, 'vars': [['$a', '7', '1', 1], ['$z', '1', '3', 2]], 'minimum': 9 if kind == 'newer' else 1})
    if kind == 'broken':
        os.mkdir(os.path.join(d, 'bcalc'))
        open(store.db_path(d), 'wb').write(b'not a database at all' * 60)
    if kind == 'blocked':
        open(os.path.join(d, 'bcalc'), 'w').write('in the way')
    return d


def nostore(binary, unit, scratch):
    root = tempfile.mkdtemp(prefix='c20', dir=scratch)
    ev = []
    s = twin = None
    try:
        data = place(unit['place'], root)
        env = {'HOME': root, 'XDG_DATA_HOME': root, 'TMPDIR': root}
        cfg = unit['cfg']
        if unit['mode'] == 'oneshot':
            if data:
                env['_B_UTIL_DATA_DIR'] = data
            for t in unit['lines']:
                ev.append({'e': 'start', 'cfg': cfg, 'has': [], 'files': listing(root)})
                arg = ['-i' + t] if t[:1] not in ('', '=') else ['--input=' + t]
                flags = ['--no-db'] if unit.get('nodb') else []
                try:
                    r = subprocess.run([binary, *flags, *calc.cfg_args(cfg), *arg], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                       cwd=root, env=dict(env, PATH='/usr/bin:/bin'), timeout=30)
                    o = (r.stdout or r.stderr).decode('utf-8', 'replace')
                    out, code = o[:-1].split('\n'), r.returncode
                except subprocess.TimeoutExpired:
                    out, code = ['!no answer'], -1
                ev.append({'e': 'line', 'text': t, 'out': out, 'files': listing(root)})
                ev.append({'e': 'end', 'code': code, 'files': listing(root)})
            return ev
        flags = ['--no-db'] if unit['mode'] == 'nodb' else []
        ev.append({'e': 'start', 'cfg': cfg, 'has': ['vars'], 'files': listing(root)})
        s = Session(binary, [*flags, *calc.cfg_args(cfg)], shim=lib.SHIM, scratch=scratch, data_dir=data, env=env, cwd=root, wait=False)
        if unit.get('twin'):
            other = tempfile.mkdtemp(prefix='twin', dir=scratch)
            twin = Session(binary, calc.cfg_args(cfg), shim=lib.SHIM, scratch=scratch, data_dir=other)
        try:
            if not s.wait_prompt(0):
                ev.append({'e': 'line', 'text': '', 'out': ['!ended at start', *calc.tail(s)], 'files': []})
                return ev
            for t in unit['lines']:
                out = s.line(t)
                if out is None:
                    ev.append({'e': 'line', 'text': t, 'out': ['!ended', *calc.tail(s)], 'files': []})
                    return ev
                e = {'e': 'line', 'text': t, 'out': out, 'files': listing(root)}
                if twin:
                    e['twin'] = twin.line(t) or ['!ended']
                ev.append(e)
            s.send(b'\x04')
            code = s.wait_exit()
        except Stuck:
            ev.append({'e': 'line', 'text': t if unit['lines'] else '', 'out': ['!no answer'], 'files': []})
            return ev
        ev.append({'e': 'end', 'code': code, 'files': listing(root)})
        return ev
    finally:
        for x in (s, twin):
            if x:
                x.close()
        shutil.rmtree(root, ignore_errors=True)
        if twin:
            shutil.rmtree(other, ignore_errors=True)


def nostore_shard(binary, units, scratch):
    events, owner = [], []
    for k, u in enumerate(units):
        ev = nostore(binary, u, scratch)
        events += ev
        owner += [k] * len(ev)
    states, bad, unconfirmed = lib.judge(events, owner, lambda k: nostore(binary, units[k], scratch), 'TraceNoStore', None, 3)
    res = {'n': len(units), 'events': len(events), 'states': states, 'bad': bad, 'sample': events[1:2], 'unconfirmed': unconfirmed}
    if bad:
        bad.update(unit=units[bad['k']], before=[store.strip(e) for e in bad['before'][-12:]])
    return res


def c20(check, binary):
    rnd = lib.rng('C20', check.tier)
    m = 20 if check.thorough else 1
    units = []
    places = ['unset', 'missing', 'file', 'empty', 'saved', 'newer', 'broken', 'blocked']
    w = dict(set=15, copy=10, use=20, purge=6, reload=8, cap=8, setting=14, bad=12, plain=4)
    for k in range(12 * m):
        for pl in places:
            if pl == 'unset':
                mode = 'nodb' if k % 2 else 'session'
            else:
                mode = 'nodb'
            names = ['$a', '$b', '$z']
            cfg = gen.random_cfg(rnd, True)
            cfg.pop('radix', None)
            lines = [rnd.choice(['$a', '$z', '/reloadvar $a', '/histcap', '/purgevar $a'])] + [some_line(rnd, names, w) for _ in range(25)] + \
                ['/histcap', '/histcap 4', '/reloadvar $a', '/help', '/help histcap', '/help reloadvar', '/help purgevar']
            if k % 3 == 0:
                many = ['$m%d' % i for i in range(12)]
                lines += ['%s = %d' % (x, i) for i, x in enumerate(many)] + [' + '.join(many), '/purgevar ' + ' '.join(many[:7]), '/reloadvar ' + ' '.join(many)] + many[5:9]
            units.append(dict(place=pl, mode=mode, cfg=cfg, lines=lines, twin=k % 2 == 0))
            lines = [some_line(rnd, names, w) for _ in range(5)] + ['$a', '$z', '/reloadvar $a', '/histcap 1', '$a = 3', '/purgevar $a']
            units.append(dict(place=pl, mode='oneshot', cfg=cfg, lines=lines, nodb=k % 3 == 0))
    k = min(len(units), lib.WORKERS * (m if m > 1 else 1))
    for r in lib.pool_map(nostore_shard, [(binary, units[i::k], check.scratch) for i in range(k)], stop=lambda r: r['bad'] is not None):
        check.events += r['events']
        check.traces += r['n']
        check.states += r['states']
        check.transitions += max(0, r['states'] - 1)
        for s in r['sample']:
            check.sample({k: v for k, v in s.items() if k != 'files'})
        if r['unconfirmed']:
            check.notes.setdefault('unconfirmed', []).extend(r['unconfirmed'])
        if r['bad'] and not check.found:
            b = r['bad']
            check.violation('%s: %s\n  specification: %s' % (b['unit']['place'], str(b['event'])[:500], str(b['specification'])[:500]), b)
    check.notes['rule'] = 'sessions and one-shot runs next to no, empty, good, newer, broken and blocked saved data'


# ---- C23 --------------------------------------------------------------------------------------
def startup(binary, unit, scratch):
    """Opens given saved data a number of times."""
    r = store.Runner(binary, scratch)
    root = r.dir
    try:
        if unit.get('place') is not None:       # [name of the directory, what the sessions are told, from where]
            name, told, cwd = unit['place']
            r.dir = os.path.join(root, name)
            r.cwd = os.path.join(root, cwd)
            os.makedirs(r.dir, exist_ok=True)
            os.makedirs(r.cwd, exist_ok=True)
            if told == 'link':
                os.symlink(r.dir, os.path.join(r.cwd, told))
            r.as_given = told.replace('ROOT', root)
        if unit.get('given') is not None:
            store.build_db(r.dir, unit['given'])
            r.events.append({'e': 'given', 'db': r.snap()})
        for k, op in enumerate(unit['ops']):
            if r.dead:
                break
            if op[0] == 'open':
                s = r.start('s%d' % k, op[1])
                try:
                    up = s.wait_prompt(0)
                except Stuck:
                    up = None
                db = r.snap()
                if up:
                    r.events.append({'e': 'open', 's': 's%d' % k, 'cfg': op[1], 'db': db})
                    r.end('s%d' % k)
                else:
                    code = s.code if up is False else 0
                    r.events.append({'e': 'refused', 'code': code, 'err': calc.tail(s), 'db': db})
                    r.ses.pop('s%d' % k).close()
            elif op[0] == 'oneshot':
                calc.oneshot(binary, {}, op[1], env={'_B_UTIL_DATA_DIR': r.dir})
                r.events.append({'e': 'end', 's': 'none', 'db': r.snap()})
            elif op[0] == 'work':
                r.open('w%d' % k, {})
                for t in op[1]:
                    if not r.dead:
                        r.line('w%d' % k, t)
                if not r.dead:
                    r.end('w%d' % k)
            elif op[0] == 'unusable':
                keep = r.dir
                r.dir = os.path.join(keep, 'x%d' % k)
                if op[1] == 'file':
                    open(r.dir, 'w').write('x')
                elif op[1] == 'blocked':
                    os.mkdir(r.dir)
                    open(os.path.join(r.dir, 'bcalc'), 'w').write('x')
                elif op[1] == 'broken':
                    os.makedirs(os.path.join(r.dir, 'bcalc'))
                    open(store.db_path(r.dir), 'wb').write(b'not a database at all' * 60)
                elif op[1] == 'isdir':
                    os.makedirs(store.db_path(r.dir))
                elif op[1] == 'dangling':
                    os.mkdir(r.dir)
                    os.symlink('nowhere', os.path.join(r.dir, 'bcalc'))
                elif op[1] == 'notutf8':
                    os.mkdir(r.dir)
                    os.mkdir(os.path.join(os.fsencode(r.dir), b'\xff'))
                    r.dir = os.fsdecode(os.path.join(os.fsencode(r.dir), b'\xff'))
                elif op[1] == 'loop':
                    os.symlink(r.dir, r.dir)
                elif op[1] == 'missing':
                    pass
                s = r.start('u', {})
                try:
                    up = s.wait_prompt(0)
                except Stuck:
                    up = None
                r.events.append({'e': 'unusable', 'code': s.code if up is False else 0, 'err': calc.tail(s)})
                r.ses.pop('u').close()
                if os.path.isfile(r.dir) or os.path.islink(r.dir):
                    os.unlink(r.dir)
                r.dir = keep
        return r.events
    finally:
        r.dir = root
        r.close()


def startup_shard(binary, units, scratch):
    events, owner = [], []
    for k, u in enumerate(units):
        ev = startup(binary, u, scratch)
        events += ev
        owner += [k] * len(ev)
    states, bad, unconfirmed = lib.judge(events, owner, lambda k: startup(binary, units[k], scratch), 'TraceSession', 'class hist cap vals by', 3)
    res = {'n': len(units), 'events': len(events), 'states': states, 'bad': bad, 'sample': [store.strip(e) for e in events[1:2]],
           'unconfirmed': unconfirmed}
    if bad:
        bad.update(unit=units[bad['k']], before=[store.strip(e) for e in bad['before'][-12:]])
    return res


def random_given(rnd):
    n = rnd.choice([0, 1, 2, 3, 5, 10, 30])
    cap = max(n, 1) + rnd.choice([0, 0, 1, 5, 100])
    ids, at = [], rnd.choice([1, 1, 5, 900])
    for _ in range(n):
        ids.append(at)
        at += rnd.choice([1, 1, 2])
    hist = [[i, rnd.choice(['1', '', '$a', 'x y', '/r 3', "it's", '$a = 1'])] for i in ids]
    vs = [[v, str(rnd.randint(-9, 9) * 10 ** rnd.choice([0, 30]) + 1), rnd.choice(['1', '10000000000000000000000']), rnd.choice(ids)]
          for v in rnd.sample(NAMES, rnd.randint(0, 4))] if ids else []
    for v in vs:        # keep fractions in lowest terms
        if v[2] != '1':
            v[1] = rnd.choice(['1', '-3', '7', '99999999999999999999999999'[:rnd.choice([1, 21])]])
    return {'hist': hist, 'cap': cap, 'vars': vs}


def c23(check, binary):
    rnd = lib.rng('C23', check.tier)
    m = 30 if check.thorough else 1
    units = []
    for k in range(84 * m):
        g = random_given(rnd)
        opens = [('open', gen.random_cfg(rnd)) for _ in range(rnd.randint(1, 4))]
        kind = k % 6
        if kind == 0:
            g = None
            opens += [('work', ['$a = 1/3', '1 +', '/histcap 5']), ('open', {}), ('open', {'radix': 2})]
        elif kind == 1:
            g['minimum'] = rnd.choice([2, 2, 3, 10, 2 ** 31 - 1])
            g['version'] = rnd.choice([1, 2, g['minimum']])
        elif kind == 2:
            g['version'] = rnd.choice([1, 2, 2, 3, 7])        # newer, but says that it can be used; with what this version does not know
            more = ["INSERT INTO meta_int VALUES (4, 42)", "INSERT INTO meta_int VALUES (-7, 1), (100, 0)", "INSERT INTO input_history_tags VALUES (3, NULL)",
                    "INSERT INTO input_history_tags SELECT 9, max(id) FROM input_history", "CREATE TABLE notes(a TEXT, b)", "CREATE INDEX by_text ON input_history(input)",
                    "CREATE VIEW texts AS SELECT input FROM input_history", "ALTER TABLE input_history ADD COLUMN at INTEGER DEFAULT 12345", "ALTER TABLE variable_history ADD COLUMN note TEXT DEFAULT 'x'",
                    "ALTER TABLE meta_int ADD COLUMN note TEXT DEFAULT 'y'", "ALTER TABLE input_history_tags ADD COLUMN note TEXT DEFAULT 'y'", "PRAGMA user_version = 7", "PRAGMA application_id = 77"]
            g['sql'] = [more[(k // 6) % len(more)]] + rnd.sample([x for x in more if 'ALTER' not in x], 2)
            g['sql'] = list(dict.fromkeys(g['sql']))
            if any('notes' in x for x in g['sql']):
                g['sql'].append("INSERT INTO notes VALUES ('one', 1), ('two', NULL)")
            g['sql'].sort(key=lambda x: 'ALTER' in x)        # the tables are filled before they get columns
            if not any('max(id)' in x or 'ALTER' in x for x in g['sql']):
                opens += [('work', ['$a', '$b = 2', '/purgevar $b', '/histcap %d' % rnd.choice([1, 2, 50]), '1']), ('open', {}), ('oneshot', '1 + 1')]
        elif kind == 3:
            opens += [('work', ['$a', '$b = 2', '/histcap %d' % rnd.choice([1, 2, 50])]), ('open', {}), ('oneshot', '1 + 1'), ('oneshot', '$a')]
        elif kind == 4:
            g['minimum'] = rnd.choice([0, 1, -1])
        units.append({'given': g, 'ops': opens})
    for kind in ('file', 'blocked', 'broken', 'isdir', 'missing', 'dangling', 'notutf8', 'loop'):
        units.append({'given': random_given(rnd), 'ops': [('unusable', kind), ('open', {})]})
    # however the directory is called, and however the sessions are told of it
    names = ['data', 'a b', 'é ü', 'x%41', 'x?mode=ro', 'x#y', '~', '-n', 'file:x', 'file:', ':memory:', "it's", 'a"b', 'bcalc', '$HOME', 'x;y', 'n' * 200, 'saved_data.sqlite', 'a/b/c', '.hidden']
    for k, name in enumerate(names * (1 if m == 1 else 4)):
        g = random_given(rnd) if rnd.random() < .6 else None
        ops = [('open', {}), ('work', ['$a = 1/3', '1 +', '/histcap 5', '$a']), ('open', {'radix': 3}), ('work', ['$a', '/purgevar $a'])]
        for place in rnd.sample([[name, name, ''], [name, 'ROOT/' + name, ''], [name, '../' + name, 'else'], [name, name + '/', ''], [name, 'link', 'else'], [name, './' + name, ''],
                                 [name, '', name], [name, '.', name]], 2 if m == 1 else 8):
            units.append({'given': g, 'ops': ops, 'place': place})
    k = min(len(units), lib.WORKERS * (m if m > 1 else 1))
    for r in lib.pool_map(startup_shard, [(binary, units[i::k], check.scratch) for i in range(k)], stop=lambda r: r['bad'] is not None):
        check.events += r['events']
        check.traces += r['n']
        check.states += r['states']
        check.transitions += max(0, r['states'] - 1)
        for s in r['sample']:
            check.sample(s)
        if r['unconfirmed']:
            check.notes.setdefault('unconfirmed', []).extend(r['unconfirmed'])
        if r['bad'] and not check.found:
            b = r['bad']
            check.violation('%s\n  specification: %s' % (str(b['event'])[:700], str(b['specification'])[:700]), b)
    check.notes['rule'] = 'given saved data of many shapes and versions opened repeatedly; unusable directories'
