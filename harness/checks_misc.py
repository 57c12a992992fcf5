"""C22: one-shot evaluation against the session."""
import calc
import gen
import lib


def split(text):
    """Output -> list of lines; what does not end with a newline is marked."""
    if text == '':
        return []
    return text[:-1].split('\n') if text.endswith('\n') else ['!unfinished', text]


def pairs(binary, unit, scratch):
    ev = calc.run_session(binary, unit['cfg'], unit['lines'], scratch, alt=unit.get('alt', False))[1:]
    out = []
    for e in ev:
        code, so, se = calc.oneshot(binary, unit['cfg'], e['text'], flag=unit.get('flag', '-i'))
        out.append({'e': 'pair', 'cfg': unit['cfg'], 'text': e['text'], 'out': e['out'],
                    'code': -1 if code is None else code, 'stdout': split(so), 'stderr': split(se)})
    return out


def pair_shard(binary, units, scratch):
    events, owner = [], []
    for u in units:
        ev = pairs(binary, u, scratch)
        events += ev
        owner += [u] * len(ev)
    bad, info = lib.validate(events, 'TraceOneShot')
    if bad is not None:             # once more, alone
        u = dict(owner[bad], lines=[events[bad]['text']])
        ev = pairs(binary, u, scratch)
        again, info2 = lib.validate(ev, 'TraceOneShot')
        info = info2 if again is not None else info
        bad = {'unit': u, 'event': ev[0], 'expected': info2.get('expected')} if again is not None else None
    return {'n': len(events), 'units': len(units), 'states': info['states'], 'bad': bad, 'sample': events[:1] + events[-1:]}


SETTERS = ['/r 3', '/p 2 1', '/p 9', '/f t', '/f f', '/commas t', '/upper t', '/converttoradix 7', '/converttoradix none', '/r', '/p', '/f',
           '/commas', '/upper', '/converttoradix', '/help', '/h', '/h p', '/help help', '/help histcap', '/help purgevar', '/help reloadvar',
           '/h x', '/', '/ ', '/x', '/R', '/r 17', '/p 256', '/f x', '/p 1 2 3', '/histcap', '/histcap 5', '/histcap x',
           '/reloadvar $a', '/reloadvar', '/purgevar $a', '/purgevar', '/purgevar a', '  /p', ' /p 3', '/p  ', '/comma', '/comma t',
           '$a', '$a = 5', '$a = 1/0', '$a + 1/0', '1/0 + $a', '$a = $b', '$', '$ = 1', 'max($a)', 'max() + $a', '$a + max()', '1 + + $a', '$a = ',
           '$a $b', '(($a', 'sqrt -1 + $a', '0 * $a', '$a ^ 0']


def c22(check, binary):
    rnd = lib.rng('C22', check.tier)
    n = 25 if check.thorough else 1
    units = []
    cfgs = [{}] + [gen.random_cfg(rnd) for _ in range(48 * n)]
    for k, c in enumerate(cfgs):
        r = c.get('radix', 10)
        lines = []
        for _ in range(36):
            x = rnd.random()
            if x < .3:
                lines.append(gen.exact_expr(rnd, rnd.randint(1, 3), lambda: gen.literal(rnd, r), r)[:400])
            elif x < .4:
                lines.append(gen.literal(rnd, r))
            elif x < .55:
                lines.append(gen.join(rnd, gen.mutate(rnd, gen.good_expr(rnd, 2, ('num',), True)))[:200])
            elif x < .7:
                lines.append(gen.join(rnd, gen.good_expr(rnd, 2, ('num',), True))[:200])
            elif x < .8:
                lines.append(rnd.choice(['', ' ', '    ', '0', '-0', 'max()', '1/0', '0^-1', 'sqrt -1', '1 %0', '-1', '-1/11', '-sqrt 10', '10%-11', '1.', '.1', '(', '1)', '=', '--1', '-- 1', '-i', '--input', '-r 2', '-h', '--help', '-V']))
            elif x < .9:
                lines.append(rnd.choice(['sqrt 10', '10^(1/11)', '(1/10)^(1/11)', '-10^(1/11)', '(-10)^(1/11)', 'sqrt 11 + sqrt 10', 'sqrt(10)*sqrt(10)', '10^(-1/10)', '1000000/11', 'abs(-1000000000)', '-1011110.111', '111111111.11111111']))
            else:
                g = gen.garbage(rnd)
                lines.append(g if '^' not in g and '$' not in g and not g.lstrip().startswith('/') else '1')
        # nothing that changes the session's state
        lines = [x for x in lines if '=' not in x and not x.lstrip().startswith('/')]
        units.append(dict(cfg=c, lines=lines, alt=rnd.random() < .3, flag='--input' if k % 2 else '-i'))
    for c in cfgs[:3 if not check.thorough else 20]:
        units += [dict(cfg=c, lines=[x]) for x in SETTERS]
    rnd.shuffle(units)
    shards = [units[i::lib.WORKERS] for i in range(lib.WORKERS)]
    for r in lib.pool_map(pair_shard, [(binary, s, check.scratch) for s in shards if s]):
        check.events += r['n']
        check.traces += r['units']
        check.states += r['states']
        check.transitions += max(0, r['states'] - 1)
        for s in r['sample']:
            check.sample(s)
        if r['bad'] and not check.found:
            b = r['bad']
            check.violation('%r under %s: session %r, one-shot exit %s stdout %r stderr %r' % (
                b['event']['text'], calc.cfg_args(b['unit']['cfg']), b['event']['out'], b['event']['code'],
                b['event']['stdout'], b['event']['stderr']), b)
    check.notes['rule'] = 'the same line under the same flags in a session without saved data and as --input'
