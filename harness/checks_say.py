"""C24: an error message says what is the case."""
import calc
import gen
import lib
import store
from checks_calc import sequence_lines, units_of
from checks_store import BAD_LINES, NAMES, model, scenario

WORDS = ['x', 'pi', '2x', '1e5', '0x10', '1.2.3', '..', '.', '_', '__', 'SQRT', 'Max', 'sqr', 'sqrt4', 'abs_', 'q', 'foo.bar', "'", '"', '#', '@', '!', '[1]', 'g', 'G7',
         'a_', '1_g', '9.9.', '._.', '0b1', 'none', '&', '~', '`', '{', '<', '\\', '?x', ':', 'min2', 'ab$', 'x$y', "it's", 'F.G']
CAUSES = ['1/0', '0^-1', '5 % 0', '(1 - 1)^(-2)', 'sqrt(-4)', '(-8)^(1/2)', '(-1)^.5', '(-2)^(3/4)', '(-.25)^(-1/2)', 'max()', 'min()', '$nope', '$', '$q.r', '$UP',
          'max(1, min())', 'sqrt(-1/9)', '7 % (2 - 2)', '0^(-1/2)', '1/(3 - 3)', '(-16)^.25']
FINE = ['1', '2.5', '$a', '$b', '(-8)^(1/3)', '4^.5', 'max(1, 2)', '0^0', 'abs -3', '2^-1', '(-27)^(-1/3)', '0', '(-1)^2', '9 % 4']


def failing_expr(rnd, depth, p):
    """Something with a few causes in it."""
    if depth <= 0 or rnd.random() < .2:
        return '(%s)' % rnd.choice(CAUSES if rnd.random() < p else FINE)
    sub = lambda: failing_expr(rnd, depth - 1, p)
    k = rnd.random()
    if k < .6:
        return '(%s %s %s)' % (sub(), rnd.choice('+-*/%'), sub())
    if k < .8:
        return '%s(%s)' % (rnd.choice(['max', 'min']), ', '.join(sub() for _ in range(rnd.randint(1, 3))))
    if k < .9:
        return '%s%s' % (rnd.choice(['-', 'abs ', '- -', 'max ', 'min ']), sub())
    return '(%s ^ %s)' % (sub(), rnd.choice(['0', '1', '2', '-1', '(-2)', '(1/0)', '$nope', '(0 - 1)']))


INTS = ['0', '1', '2', '16', '17', '-1', '-2', '- 10', '--10', '- -3', '1 - -', '1.5', '10.25', '.5', '-.5', '1_6.5', '256', '300', '200 100', '300 300', '5 300', '5 -1', '-5 300', '100 200', '246',
        '9223372036854775807', '9223372036854775808', '-9223372036854775808', '99999999999999999999', '1 2', '1 2 3', '1 2 3 4', '-1 -2 -3', '5 -', '-', '5 - 5', '(5)', '5)', '=5', '5,', ',5', '5 + 5', '5*5', '5/2', '5%2', '5^2',
        '$a', '5 $a', '$a $b', 'sqrt 4', 'abs 5', 'max', 'min 3', 'ten', '10x', 'a b', 'A', 'x 1.5', '1.5 x', '1.5 $a', '$a 1.5', '1.2.3', '/5', '/r', '/', '/x y', '_', '1 99999999999999999999 $a', '1.5 -- 3',
        '0.0', '2.0', '-0', '00', '1/', '@', "'5'"]
VARS = ['a', '1', '$a 1', '1 $a', '$a, $b', '$a + $b', '($a)', '$a=5', '$a 1.5', '1/3', '.25', '007.50', '$a -', '-$a', 'sqrt', '$a abs', 'max $a', 'min', '$a * $b', '$a / $b', '$a % $b', '$a ^ 2', 'a b', '$a a', 'nope $b', '/x', '/', '/$a', ')', '(',
        '=', ',', '@', '1.2.3', '10_000', '1e9', '$a 123456789012345678901234567890.5']
BOOLS = ['x', 'tr', 'truee', '1', '0', 'yes', 't f', '-t', 'none', '/t', '$a', '"true"', 't,', 'on']
HELPS = ['x', 'HELP', 'he', 'help help', '/help', '/p', '1', '$a', 'hel p', 'p p', '   nope   ', 'f,', 'none', '-', 'histcapp', "o'clock", 'RADIX']


def command_lines(rnd):
    lines = []
    for c in ('radix', 'r', 'converttoradix', 'precision', 'p', 'histcap'):
        lines += ['/%s %s' % (c, a) for a in INTS]
        lines += ['/%s%s%s' % (c, rnd.choice([' ', '  ']), ' '.join(rnd.choice(INTS) for _ in range(rnd.randint(2, 4)))) for _ in range(25)]
    for c in ('purgevar', 'reloadvar'):
        lines += ['/%s %s' % (c, a) for a in VARS]
        lines += ['/%s %s' % (c, ' '.join(rnd.choice(VARS + ['$a', '$b']) for _ in range(rnd.randint(2, 4)))) for _ in range(25)]
    for c in ('upper', 'commas', 'comma', 'fractional', 'f'):
        lines += ['/%s %s' % (c, a) for a in BOOLS]
    lines += ['/%s %s' % (c, a) for c in ('help', 'h') for a in HELPS]
    names = gen.CMDS
    lines += ['/' + v for w in names for v in (w.upper(), w + 's', w[:-1], w + '=', '/' + w, w + '(1)', w + ',t') if v not in names]
    lines += ['  /nope', '/nope nope', '/', '/ help', "/'", '/"x"', '/$a', '/1', '/-']
    return lines


def c24(check, binary):
    rnd = lib.rng('C24', check.tier)
    m = 12 if check.thorough else 1
    model(check, 'MC_Parser', cfg='MC_ParserLong' if check.thorough else 'MC_Parser')
    model(check, 'MC_Parser', cfg='MC_ParserAllLong' if check.thorough else 'MC_ParserAll')
    lines = []
    # lines that do not follow the grammar
    for n in (1, 2, 3):
        lines += list(sequence_lines(rnd, gen.TOKENS, n))
    four = list(sequence_lines(rnd, gen.CORE, 4))
    lines += four if check.thorough else rnd.sample(four, 9000)
    for _ in range(6000 * m):
        toks = gen.good_expr(rnd, rnd.randint(1, 3), ('num', 'var'))
        if len(toks) > 60:
            continue
        if rnd.random() < .2:
            toks = ['$w', '='] + toks
        lines.append(gen.join(rnd, gen.mutate(rnd, toks)))
    for _ in range(150 * m):
        k = rnd.choice([5, 10, 30, 60])
        toks = rnd.choice([['('] * k + ['7'] + [')'] * k,
                           sum((['max', '(', rnd.choice('123'), ','] for _ in range(k)), []) + ['2'] + [')'] * k,
                           ['max', '('] + ['1', ','] * k + ['1', ')'],
                           [rnd.choice(['-', 'abs', 'max', 'min']) for _ in range(k)] + ['7']])
        lines.append(gen.join(rnd, gen.mutate(rnd, toks)))
    # what each kind of token is called, where it does not belong
    for t in gen.TOKENS + ['1.5', '.25', '$long_name']:
        lines += ['%s =' % t, '1 %s = 2' % t, '= %s' % t, 'sqrt %s' % t, 'max %s' % t, '(%s' % t, '%s)' % t, '1 + %s' % t, '%s + 1' % t, '%s, 1' % t, '(%s, 1)' % t, 'abs %s *' % t, '%s %s' % (t, t),
                  'max(%s,' % t, 'max(,%s)' % t, 'min(1, %s)' % t, '$x = %s' % t, '$x = $y = %s' % t, '- %s' % t, 'abs - - %s' % t, 'min - %s' % t, '()%s' % t, '%s()' % t]
    rnd.shuffle(lines)
    units = [dict(cfg={'radix': rnd.choice([10, 10, 16, 11])}, lines=['$v = 3'] + lines[i:i + 400]) for i in range(0, len(lines), 400)]
    # words that are no numbers
    lines = []
    for w in WORDS:
        lines += [w, w + ' 4', '4 ' + w, '4 + ' + w, '(' + w + ')', '$q = ' + w, '  ' + w + '  ', w + '+1', '1+' + w, 'max(' + w + ', 2)', '1/0 + ' + w, w + ' + 1/0', '1 2 ' + w, '(' + w, w + ' = 1', '$nope ' + w]
    for _ in range(600 * m):
        n = rnd.choice([1, 2, 3, 3, 4])
        lines.append(''.join(rnd.choice(['', ' ', ' + ', '(', ')', ' * ', ', ', '-', '1 ', ' $v', 'sqrt ']) + ' ' + rnd.choice(WORDS + ['1', '7', 'ff', '1.5', 'max', '$v']) for _ in range(n)))
    for r in (10, 2, 8, 16, 12):
        some = lines if r == 10 else rnd.sample(lines, 250) + [d + x for d in '0123456789abcdefABCDEFgG' for x in ('', '1', '.1', '1.1', '_')]
        units += [dict(cfg={'radix': r}, lines=['$v = 1'] + some[i:i + 400]) for i in range(0, len(some), 400)]
    # evaluations that fail: the first cause from left to right
    lines = []
    for a in CAUSES:
        lines += [a, '$z = ' + a, '(%s)' % a, 'abs(%s)' % a, '1 + ' + a, '-(%s)' % a]
        for b in CAUSES:
            lines += ['(%s) %s (%s)' % (a, rnd.choice('+-*/%'), b)]
        for b in FINE:
            lines += ['(%s) %s (%s)' % (a, rnd.choice('+-*/%'), b), '(%s) %s (%s)' % (b, rnd.choice('+-*/%'), a)]
        for o in '/%^':
            lines += ['(%s) %s 0' % (a, o), '0 %s (%s)' % (o, a), '(%s) %s (%s)' % (a, o, rnd.choice(CAUSES))]
    for _ in range(1500 * m):
        e = failing_expr(rnd, rnd.randint(1, 4), rnd.choice([.1, .3, .5]))
        if len(e) < 600:
            lines.append(rnd.choice(['', '', '', '$z = ']) + e)
    setup = ['$a = 4', '$b = -2/3']
    for c in ({}, {'frac': True, 'prec': 2}, {'out': 7, 'prec': 0, 'extra': 0}):
        some = lines if not c else rnd.sample(lines, len(lines) // 3)
        units += [dict(cfg=c, lines=setup + some[i:i + 400]) for i in range(0, len(some), 400)]
    # commands
    cmds = command_lines(rnd)
    for c in ({}, {'radix': 16, 'prec': 200, 'extra': 20}):
        units += units_of(cmds, c, 400)
    # one-shot: nothing saved and no variables; other blanks and characters
    odd = ['1 + \u00e9', '\u00e9', '/\u00e9', '/r \u0665', 'x \u00e9', '1/0 \u00e9', '\u00a01', '$a \u20ac', '/nope \u00e9', '(\u00e9', '\u200b', '\u2212 3', '$\u00e9 = 1',
           '$z = 1/0', '$z = 5', '$z = $z', '$z = max()', '$z =', '$z = q', '1/0 + $z', '$z + 1/0', '$z + (', '$z q', 'x\ty', 'x\ny', '\tq', '1 +\n', '/r\t1', '/p\n300\t1', '/nope\tx', '/help\tnope\n',
           '/purgevar $a', '/purgevar a', '/purgevar', '/histcap', '/histcap 5', '/histcap 0', '/reloadvar $a', '/reloadvar', '/reloadvar 1']
    some = odd + rnd.sample(lines, 60 * m) + rnd.sample(cmds, 60 * m) + rnd.sample(four, 40 * m)
    units += [dict(cfg={}, lines=some[i:i + 60], oneshot=True) for i in range(0, len(some), 60)]
    check.notes['rule'] = 'token sequences up to length 4, mutated lines, words in all radices, failing evaluations with several causes, every command with refused arguments'
    if not calc.run_check(check, binary, units, focus='message'):
        return
    # with saved data
    w = dict(set=12, copy=8, use=14, bad=60, purge=6, reload=6, cap=3, setting=4)
    sc = [scenario(rnd, 40, rnd.sample(NAMES, 2), w, rnd.choice([1, 2]), rnd.choice([None, 3]), [{}, {'radix': 16}, {'frac': True}]) for _ in range(24 * m)]
    for ls in (cmds, rnd.sample(lines, 200 * m)):
        for i in range(0, len(ls), 200):
            sc.append({'ops': [('open', 's', {}), ('line', 's', '$a = 4'), ('line', 's', '$b = -2/3')] + [('line', 's', x) for x in ls[i:i + 200]], 'blind': True})
    store.run_check(check, binary, sc, 'says')
