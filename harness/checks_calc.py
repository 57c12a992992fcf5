"""C01-C07, C10, C11: lines without saved data, judged by TraceCalc."""
import itertools
from fractions import Fraction

import calc
import gen
import lib


def units_of(lines, cfg, size=400, **kw):
    return [dict(cfg=cfg, lines=lines[i:i + size], **kw) for i in range(0, len(lines), size)]


# ---- C01 --------------------------------------------------------------------------------------
def c01(check, binary):
    rnd = lib.rng('C01', check.tier)
    n = 40 if check.thorough else 4
    units = []
    # every pair of small operands under every operator
    vals = ['0', '1', '-1', '2', '-2', '3', '-3', '5', '-5', '7', '-7', '.5', '-.5', '1.5', '-1.5', '2.5', '-2.5',
            '(1/3)', '(-1/3)', '(7/3)', '(-7/3)', '10', '-10', '100000000000000000000', '-99999999999999999999',
            '18446744073709551616', '4294967295', '(1/18446744073709551615)', '.000000000000000000001']
    grid = ['(%s) %s (%s)' % (a, op, b) for a in vals for b in vals for op in '+-*/%']
    grid += ['%s((%s), (%s))' % (f, a, b) for f in ('max', 'min') for a in vals for b in vals]
    grid += ['%s(%s)' % (f, a) for f in ('abs', '-', 'max', 'min') for a in vals]
    exps = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257]
    grid += ['(%s) ^ %s' % (a, e) for a in vals for e in exps]
    grid += ['(%s) ^ (-%s)' % (a, e) for a in vals for e in exps]
    grid += ['2^%d' % e for e in range(0, 300)] + ['(2/3)^-%d' % e for e in range(0, 80)]
    grid += ['(-3)^%d' % e for e in range(0, 70)]
    units += units_of(grid, {'frac': True})
    # the same with the operands held by variables, including assignments from expressions
    for r in [10] * 3 * n + [2, 3, 7, 8, 12, 16] * n:
        lines = []
        for v in 'abcd':
            lines.append('$%s = %s%s' % (v, rnd.choice(['', '-']), gen.literal(rnd, r, True)))
        for _ in range(100):
            leaf = lambda: rnd.choice([lambda: '$' + rnd.choice('abcd'), lambda: gen.literal(rnd, r)])()
            e = gen.exact_expr(rnd, rnd.randint(1, 3), leaf, r)
            lines.append(('$%s = ' % rnd.choice('abcd') if rnd.random() < .05 and len(e) < 60 else '') + e)
        units.append(dict(cfg={'frac': True, 'radix': r}, lines=lines))
    # deep random trees over literals
    for r in [10] * 6 * n + [2, 5, 8, 11, 16] * n:
        lines = [gen.exact_expr(rnd, rnd.randint(2, 5), lambda: gen.literal(rnd, r), r) for _ in range(60)]
        units.append(dict(cfg={'frac': True, 'radix': r}, lines=lines))
    # large operands: up to hundreds of digits
    lines = []
    for _ in range(40 * n):
        leaf = lambda: gen.literal(rnd, 10) if rnd.random() < .3 else \
            rnd.choice(['', '-']) + gen.digits(rnd, rnd.choice([19, 20, 39, 77, 154, 155, 300]), 10) \
            + rnd.choice(['', '.' + gen.digits(rnd, rnd.choice([1, 20, 100]), 10)])
        lines.append(gen.exact_expr(rnd, rnd.randint(1, 2), lambda: '(' + leaf() + ')'))
    units += units_of(lines, {'frac': True}, 100)
    # long chains of one operation
    lines = []
    for op in '+-*':
        for k in (2, 3, 10, 60, 150):
            lines.append((' %s ' % op).join(gen.digits(rnd, rnd.randint(1, 3), 10) for _ in range(k)))
    lines.append(' + '.join('1/%d' % i for i in range(1, 60)))
    lines.append(' - '.join('1/%d' % i for i in range(1, 60)))
    lines.append(' * '.join('%d/%d' % (i, i + 3) for i in range(1, 60)))
    units += units_of(lines, {'frac': True})
    # values around the sizes at which a representation may change, up to thousands of digits
    lines = []
    sizes = [31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 16384]
    def huge(k):
        base = rnd.choice([2, 2, 2, 3, 5, 7, 10])
        k = max(1, int(k / {2: 1, 3: 1.585, 5: 2.322, 7: 2.807, 10: 3.322}[base]) + rnd.choice([-1, 0, 0, 1]))
        return '(%s%d^%d %s %d)' % (rnd.choice(['', '', '-']), base, k, rnd.choice('+-'), rnd.choice([0, 1, 1, 3, 12345, 2 ** 32 - 1, 2 ** 64 - 1]))
    for k in sizes:
        for _ in range(n):
            m = rnd.choice(sizes[:sizes.index(k) + 1])
            a, b = rnd.sample([huge(k), huge(m)], 2)
            lines += ['%s %s %s' % (a, o, b) for o in rnd.sample('+-*/%', 3)]
            lines += ['%s * %s %% %s' % (a, b, huge(k)), '(%s * %s) / %s' % (a, b, a), '%s(%s, %s + 1)' % (rnd.choice(['max', 'min']), a, a),
                      'abs(%s / %s)' % (a, b), '%s + %s * 1/%d' % (a, b, rnd.choice([3, 7, 2 ** 20])), '-%s - %s' % (a, b)]
    for e in [300, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2048, 3000, 4095, 4096, 4097, 5000, 8000, 10000]:
        for b in rnd.sample(['2', '-2', '3', '-3', '(1/2)', '(-2/3)', '7', '10', '-.1', '1.5', '1', '-1', '0', '(1/10)'], 4):
            lines += ['%s^%d' % (b, e)] + (['%s^-%d' % (b, e)] if b != '0' else [])
            lines += ['%s^%d - %s^%d' % (b, e, b, e - 1)] if b not in ('10', '-.1', '(1/10)') else []
    units += units_of(lines, {'frac': True}, 60)
    # many arguments, equal and nearly equal ones among them
    lines = []
    for _ in range(25 * n):
        base = Fraction(rnd.randrange(-50, 50), rnd.randrange(1, 9))
        near = [base, base + Fraction(1, 10 ** rnd.choice([1, 20, 40])), -base, base - 1, base * 2, Fraction(int(base)), Fraction(0), base + Fraction(1, 3)]
        args = [rnd.choice(near) for _ in range(rnd.choice([2, 3, 4, 5, 6, 8, 12]))]
        f, g = rnd.choice(['max', 'min']), rnd.choice(['max', 'min'])
        a = ['(%s)' % gen.ratio_text(q) for q in args]
        i = rnd.randrange(len(a))
        a[i] = '%s(%s)' % (g, ', '.join('(%s)' % gen.ratio_text(rnd.choice(near)) for _ in range(rnd.randint(1, 4)))) if rnd.random() < .3 else a[i]
        lines.append('%s(%s)' % (f, rnd.choice([', ', ',']).join(a)))
    for k in (10, 14, 15, 16, 17, 20, 31, 32, 33, 64, 65, 100, 130):
        for at in (0, k // 2, k - 1, rnd.randrange(k)):
            args = [str(rnd.randint(-9, 9)) for _ in range(k)]
            args[at] = rnd.choice(['77', '-77', '1/7 + 9', '-10'])
            lines.append('%s(%s)' % (rnd.choice(['max', 'min']), ', '.join(args)))
    # bases whose powers stay small, with exponents of any size
    for e in [2 ** k + d for k in (31, 32, 40, 53, 63, 64, 65, 127, 128, 200) for d in (-1, 0, 1)] + [10 ** 30, 10 ** 30 + 1, 3 ** 70]:
        lines += ['%s ^ %s%d' % (b, s, e) for b in ('1', '(-1)', '0', '(2 - 3)') for s in ('', '-') if not (b == '0' and s)] + ['0 ^ (0 - %d)' % e]
    units += units_of(lines, {'frac': True})
    # the value does not depend on precision or on fractional output
    for _ in range(6 * n):
        c = gen.random_cfg(rnd)
        r = c.get('radix', 10)
        lines = [gen.exact_expr(rnd, rnd.randint(1, 3), lambda: gen.literal(rnd, r), r) for _ in range(30)]
        units.append(dict(cfg=c, lines=lines))
        units.append(dict(cfg=c, lines=[x for x in lines[:6] if len(x) < 2000], oneshot=True))
    check.notes['rule'] = 'operand grid x operators, random exact trees, big operands, chains'
    calc.run_check(check, binary, units)


# ---- C02, C03 ---------------------------------------------------------------------------------
def sequence_lines(rnd, alphabet, n, keep=None):
    for seq in itertools.product(alphabet, repeat=n):
        if keep and not keep(seq):
            continue
        yield gen.spell(rnd, seq)


def setv():
    return ['$v = 11/3']


def c02(check, binary):
    rnd = lib.rng('C02', check.tier)
    units = []
    # the program's algorithm, as a specification of its own, is the grammar
    from checks_store import model
    model(check, 'MC_Parser', cfg='MC_ParserLong' if check.thorough else 'MC_Parser')
    cfg = {'frac': True, 'prec': 3, 'extra': 3}
    lines = []
    # every well-formed chain: operand op operand op operand ..., operands with prefixes
    ops = '+-*/%^'
    for k in (1, 2, 3):
        for c in itertools.product(ops, repeat=k):
            lines.append('7 ' + ' '.join('%s %s' % (o, '325'[i]) for i, o in enumerate(c)))
            lines.append('-7 ' + ' '.join('%s -%s' % (o, '321'[i]) for i, o in enumerate(c)))
            lines.append('7.5' + ''.join('%s%s' % (o, '321'[i]) for i, o in enumerate(c)))
    if check.thorough:
        for k in (4, 5):
            for c in itertools.product(ops, repeat=k):
                lines.append('7 ' + ' '.join('%s %s' % (o, '32531'[i]) for i, o in enumerate(c)))
    else:
        for c in itertools.product(ops, repeat=4):
            lines.append('7 ' + ' '.join('%s %s' % (o, '3253'[i]) for i, o in enumerate(c)))
    pre = ['-', '--', '---', '- -', 'abs ', 'abs-', '-abs ', 'max ', 'min -', 'sqrt ', '-sqrt ', 'sqrt abs -',
           'abs(-2)', 'max(3, 2)', 'min(1,-4)', '-(3)', '-max(2, 5)', 'max -', 'max min ', 'min max -', '-sqrt(9)']
    for p in pre:
        x = p if p.endswith(')') else p + '4'
        for o in ops:
            for y in ('2', '-2', '(-1)', 'abs -2', 'max -2', 'max(1, 2)', 'sqrt 4', '- - 2'):
                lines.append('%s%s%s' % (x, rnd.choice(['', ' ']) + o + rnd.choice(['', ' ']), y))
                lines.append('9 - %s %s %s' % (x, o, y))
                lines.append('9%s%s %s 3' % (o, x, rnd.choice(ops)))
    lines += [p + q + '16' for p in pre if not p.endswith(')') for q in pre if not q.endswith(')')]
    # every token sequence of up to four tokens that could be well-formed
    for n in (1, 2, 3, 4):
        lines += list(sequence_lines(rnd, gen.CORE, n)) if n < 4 or check.thorough else \
            [x for x in sequence_lines(rnd, gen.CORE, n, lambda s: s[-1] in '7$v)' and s[0] not in '+*%^),=')]
    # random larger ones
    for _ in range(40000 if check.thorough else 6000):
        toks = gen.good_expr(rnd, rnd.randint(1, 4), ('num', 'var'))
        if len(toks) > 60:
            continue
        lines.append(gen.join(rnd, toks))
    # long ones, where the operands of later operators come from far back
    for _ in range(600 if check.thorough else 60):
        toks = gen.good_expr(rnd, rnd.choice([4, 5, 6]), ('num', 'var'))
        if 60 < len(toks) < 400:
            lines.append(gen.join(rnd, toks))
    for k in (5, 9, 17, 33, 65, 130):
        for _ in range(3):
            lines.append('9' + ''.join('%s%s%s' % (rnd.choice('+-*/%+-'), rnd.choice(['', '', '-', 'abs ', 'max ', '- -']), rnd.choice('123579')) for _ in range(k)))
            lines.append('(' * k + '7' + ''.join(' %s %s)' % (rnd.choice('+-*/%'), rnd.choice('1235')) for _ in range(k)))
            lines.append(''.join('(%s %s ' % (rnd.choice('1235'), rnd.choice('+-*/%')) for _ in range(k)) + '7' + ')' * k)
            lines.append(''.join('%s(%s, ' % (rnd.choice(['max', 'min']), rnd.choice(['1', '2+1', '-3', '5%3'])) for _ in range(min(k, 60))) + '2' + ')' * min(k, 60))
    rnd.shuffle(lines)
    for i in range(0, len(lines), 400):
        units.append(dict(cfg=cfg, lines=setv() + lines[i:i + 400]))
    # one-shot: the other kinds of blanks, between any two tokens
    wide = []
    for _ in range(1500 if check.thorough else 150):
        toks = gen.good_expr(rnd, rnd.randint(1, 3))
        if len(toks) < 30:
            wide.append(''.join(t + rnd.choice([' ', '\t', '\n', '\r', '\f', '\t ', '\n\n']) for t in toks))
            if rnd.random() < .5:
                wide[-1] = rnd.choice(['\t', '\n', ' \r', '\f']) + wide[-1]
    for i in range(0, len(wide), 50):
        units.append(dict(cfg=cfg, lines=wide[i:i + 50], oneshot=True))
    check.notes['rule'] = 'all operator chains, prefix combinations, short token sequences, random well-formed lines'
    calc.run_check(check, binary, units)


def c03(check, binary):
    rnd = lib.rng('C03', check.tier)
    cfg = {'frac': True, 'prec': 2, 'extra': 2}
    lines = []
    for n in (0, 1, 2, 3):
        lines += list(sequence_lines(rnd, gen.TOKENS, n))
    n4 = list(sequence_lines(rnd, gen.CORE, 4))
    lines += n4
    if check.thorough:
        lines += list(sequence_lines(rnd, gen.CORE, 5))
    # random mutations of well-formed lines
    for _ in range(60000 if check.thorough else 9000):
        toks = gen.good_expr(rnd, rnd.randint(1, 3), ('num', 'var'))
        if len(toks) > 40:
            continue
        if rnd.random() < .2:
            toks = ['$w', '='] + toks
        if rnd.random() < .85:
            toks = gen.mutate(rnd, toks)
        lines.append(gen.join(rnd, toks))
    # long and deeply nested lines, whole or with one thing wrong
    for _ in range(1200 if check.thorough else 150):
        k = rnd.choice([5, 10, 30, 60, 100, 150])
        z = rnd.random()
        if z < .3:
            toks = ['('] * k + ['7'] + [')'] * k
        elif z < .5:
            toks = sum((['max', '(', rnd.choice('123'), ','] for _ in range(k)), []) + ['2'] + [')'] * k
        elif z < .65:
            toks = ['7'] + sum(([rnd.choice('+-*'), rnd.choice('123')] for _ in range(k)), [])
        elif z < .75:
            toks = ['max', '('] + ['1', ','] * k + ['1', ')']
        elif z < .85:
            toks = [rnd.choice(['-', 'abs', 'max', 'min']) for _ in range(k)] + ['7']
        else:
            toks = gen.good_expr(rnd, 5, ('num', 'var'))
            if len(toks) > 500:
                continue
        if rnd.random() < .2:
            toks = ['$w', '='] + toks
        if rnd.random() < .6:
            i = rnd.choice([0, len(toks) - 1, rnd.randrange(len(toks))])
            if rnd.random() < .5:
                del toks[i]
            else:
                toks.insert(i + rnd.choice([0, 1]), rnd.choice(gen.TOKENS))
        lines.append(gen.join(rnd, toks))
    # words, case, blanks
    words = ['sqrt', 'abs', 'max', 'min', 'SQRT', 'Abs', 'MAX', 'sqr', 'sqrtt', 'sqrt4', 'abs_', '_abs', 'maxx', 'min1',
             'x', 'pi', 'e', 'mod', 'a', 'f', '$', '$$', '$1', '$sqrt', '#', '!', '2x', '2!', '1e5', '0x10', '1.2.3',
             '..', '.', '_', '__', '1_', '_1', "'", '"', ';', ':', '[1]', '{1}', '<', '>', '\\', '|', '&', '~', '`', '?', '@']
    for w in words:
        lines += [w, w + ' 4', w + '(4)', '4 ' + w, '4 + ' + w, '(' + w + ')', '$q = ' + w, w + ' = 4', '  ' + w + '  ',
                  w + '+1', '1+' + w, w + ',' + w, 'max(' + w + ', 2)', w + w]
    lines += ['', ' ', '   ', '= 4', '$a = ', '$a = $b = 4', '$a == 4', '($a) = 4', '-$a = 4', '$a + 1 = 4', '$a $b = 4',
              '4 = $a', '$a = (4', '$a = 4)', '$a = 4,', '$a = ()', '((4)', '(4))', '()', '(())', '4 ()', '() 4', 'max()',
              'max(,)', 'max(1,)', 'max(,1)', 'max(1,,2)', 'max 1, 2', '1, 2', '(1, 2)', 'max((1, 2))', 'max(1 2)', 'max',
              'max,', 'max)', 'max(', 'max(1', 'max(1,', 'sqrt', 'sqrt()', 'sqrt(1, 2)', 'sqrt)', 'sqrt,', 'sqrt +', 'sqrt + 4',
              'abs * 2', 'max * 2', 'max + 2', '1 2', '1 (2)', '(1) 2', '(1)(2)', '$v 2', '2 $v', '2 sqrt 4', 'sqrt 4 4',
              'max(1)(2)', 'max 1 2', '+', '-', '--', '1 +', '1 -', '+ 1', '* 1', '1 * * 2', '1 + + 2', '1 - + 2', '1 + - 2',
              '1 - - 2', '1 ^ ^ 2', '1 % % 2', '-', '- -', '(-)', '(- 1)', '(1 -)', '(+)', '-()', 'max(-)', 'max(1, -)']
    # one thing wrong, at each place of a function's arguments and of a group
    for k in list(range(1, 11)) + [16, 31, 32, 33, 64]:
        args = ['1', ','] * k + ['2']
        for f in rnd.sample(['max', 'min', ''], 2):
            for i in sorted(set(list(range(len(args))) if k < 9 else [0, 1, 2, len(args) - 3, len(args) - 2, len(args) - 1])):
                lines += [' '.join([f, '('] + x + [')']) for x in (args[:i] + args[i + 1:], args[:i] + rnd.choice([[','], ['+'], ['1'], ['('], [')'], ['=']]) + args[i:])]
            lines += [' '.join([f, '('] + args + x) for x in ([',', ')'], [')', ')'], [], [')', ','], [')', '3'])]
    # words side by side with nothing between
    bits = ['sqrt', 'abs', 'max', 'min', '$v', '$w', '$', '4', '.5', 'f', '_', '1.']
    for x, y in itertools.product(bits, repeat=2):
        lines += [x + y, '-' + x + y, x + y + ' 4', x + y + '(4)', '2+' + x + y]
    for _ in range(600 if check.thorough else 150):
        lines.append(''.join(rnd.choice(bits + ['+', '(', ')', ',', '-']) for _ in range(rnd.choice([3, 4, 5]))))
    rnd.shuffle(lines)
    units = []
    for i in range(0, len(lines), 400):
        units.append(dict(cfg=cfg, lines=setv() + lines[i:i + 400]))
    # one-shot: text the keys cannot produce (tabs, newlines, non-ASCII) and the same classes of line
    odd = ['1\t+\t2', '1\n+ 2', '\t\t3', '1\r', '2\f+ 3', '1+\u00e9', '\u00e9', '\u03c0', '\u20ac5', '1\u00a0+ 2', '\u0661', '\uff11',
           '1 + 2\u200b', '\u2212 3', '3 \u00d7 4', '1\u0002', '\u007f1', '\t/p', '/p\u00e9', '/\u00e9', '   /r\t5', '\u00e9/p']
    units.append(dict(cfg={}, lines=[x for x in odd if '\u0000' not in x] + lines[:300 if check.thorough else 120], oneshot=True))
    check.notes['rule'] = 'all token sequences up to length 4 (5 thorough), mutated well-formed lines, odd words and text'
    calc.run_check(check, binary, units, focus='class')


# ---- C04 --------------------------------------------------------------------------------------
def c04(check, binary):
    rnd = lib.rng('C04', check.tier)
    units = []
    for r in range(2, 17):
        top = gen.DIG[r - 1]
        over = gen.DIG[r] if r < 16 else 'g'
        alpha = ['0', '1', top, top.upper() if top.upper() != top else '2', over, '.', '_']
        lines = []
        for n in (1, 2, 3, 4) if check.thorough else (1, 2, 3):
            lines += [''.join(s) for s in itertools.product(alpha, repeat=n)]
        if not check.thorough:
            lines += [''.join(rnd.choice(alpha) for _ in range(4)) for _ in range(300)]
        # every printable character on its own, after, before and inside a number
        for c in gen.PRINTABLE:
            lines += [x for x in (c, '1' + c, c + '1', '1' + c + '1') if not x.lstrip().startswith('/')]
        for c in gen.DIG + gen.DIG.upper():
            lines += [c + '.' + c, '.' + c + c, c + '_' + c + '.', '1' + c + '.1']
        lines += ['$a = 1', '$ = 1', '$1 = 1', '$abs = 1']
        # ways other programs write numbers; here these are digits or errors like any others
        for _ in range(6):
            s = gen.digits(rnd, rnd.randint(1, 4), r)
            lines += [x + s for x in ('0x', '0X', '0b', '0B', '0o', '0O', '0d', '0t', 'x', '#', '\\x', '&h', '&', '~', '!', "'", '0.x', '_0x', '00x', '1r', 'r')]
            lines += [s + x for x in ('h', 'H', 'b', 'B', 'o', 'd', 'e5', 'E5', 'e1', 'e+1', 'e-1', 'E+2', '%', '!', 'k', 'M', 'L', 'u', 'f', 'i', 'j',
                                      'x', 'x' + s, 'p2', 'r', '#', "'" + s, ':' + s, ';' + s, '~' + s, '\\' + s, '&' + s, '|' + s)]
            lines += [w + s for w in ('abs', 'sqrt', 'min', 'max', 'abs_', 'abs.', '_abs', 'ab_s ', 'a_bs ', 'ab.s ', 'Abs ', 'ABS ', 'abs ', 'absabs ', 'abssqrt ')]
            lines += [s + w for w in ('abs', 'abs 1', '$a', '$', '$1', '_$a', '.$a')]
        lines += ['abs$a', 'sqrt$a', 'max$a', 'min$a', 'abs$', 'sqrt$1', 'abs$abs', '$a$', '$a$a', '$a$1', '$abs$a', '1$a', '$aabs 1', '$a_', 'abs-$a', 'abs(1)$a', 'beef', 'DEAD', 'fab', 'a', 'F', 'ee', 'bad', 'Dad', 'e', 'pi', 'mod', 'b1', 'ans']
        # every digit in long numbers
        for _ in range(600 if check.thorough else 60):
            s = gen.mix_case(rnd, gen.digits(rnd, rnd.randint(1, 45), r))
            for _ in range(rnd.randint(0, 4)):
                i = rnd.randint(0, len(s))
                s = s[:i] + '_' + s[i:]
            if rnd.random() < .7:
                i = rnd.randint(0, len(s))
                s = s[:i] + '.' + s[i:]
            if rnd.random() < .15:
                i = rnd.randint(0, len(s))
                s = s[:i] + rnd.choice('._' + over + over.upper() + 'gz$') + s[i:]
            lines.append(s)
        # boundaries between tokens
        for _ in range(60):
            a, b = gen.literal(rnd, r), gen.literal(rnd, r)
            lines += [a + rnd.choice('+-*') + b, a + ' ' + b, 'max(' + a + ',' + b + ')', '(' + a + ')', '-' + a, 'abs ' + a,
                      'abs' + a, a + 'abs', 'max' + a, 'sqrt' + a]
        # variable names are never numbers or functions
        for w in ('$a', '$1', '$sqrt', '$max', '$_', '$', '$$', '$.', '$a.b', '$A', '$' + top, '$#!', '$a$b', '$"', "$a'b"):
            lines += [w, w + ' = 1', w + '+1', w + '(1)', w + ' 1', w, '1' + w, w + ',1', 'max(' + w + ',1)', w + '=2', w]
        units += units_of([x for x in lines if not x.lstrip().startswith('/')], {'radix': r, 'frac': True, 'out': 10})
        units.append(dict(cfg={'radix': r, 'frac': True, 'out': 10},
                          lines=[x for x in rnd.sample(lines, 25) if not x.lstrip().startswith('/')], oneshot=True))
        # long literals, and words with nothing between
        long = []
        for n in (40, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400, 513) if check.thorough else rnd.sample([40, 50, 63, 64, 65, 66, 80], 4) + rnd.sample([100, 127, 128, 129, 200, 255, 256, 257, 300], 4):
            d = gen.mix_case(rnd, gen.digits(rnd, n, r))
            i, j = rnd.randint(0, n), rnd.randint(0, n)
            long += [d, d[:i] + '.' + d[i:], d[:j] + '_' + d[j:], '.' + d, '0' * n + d[:9], d[:3] + '.' + d[3:] + '_', d[:i] + over + d[i:] + '1']
            if n < 300:
                long += ['_'.join(d), '.' + '_'.join(d)]
        units.append(dict(cfg={'radix': r, 'frac': True, 'out': 10}, lines=long))
        bits = ['sqrt', 'abs', 'max', '$a', '$b', '$', '1', '.1', top, '_', '1.']
        units.append(dict(cfg={'radix': r, 'frac': True, 'out': 10}, lines=['$a = 1', '$b = 10', '$ = 11'] + [x + y for x, y in itertools.product(bits, repeat=2)] +
                          [''.join(rnd.choice(bits) for _ in range(3)) for _ in range(20)]))
        # literals under a radix that was changed by command
        units.append(dict(cfg={'frac': True, 'out': 10, 'radix': rnd.randint(2, 16)},
                          lines=['/radix %d' % r] + [x for x in rnd.sample(lines, 60) if not x.lstrip().startswith('/')]))
    check.notes['rule'] = 'all strings of up to 3 (4) characters over digits around the radix, point, underscore; each printable character; long literals; 15 radices'
    calc.run_check(check, binary, units)


# ---- C05 --------------------------------------------------------------------------------------
def boundary_values(rnd, r, p, n):
    """Values around everything that matters when printing with p digits in radix r."""
    k = r ** p
    out = []
    for _ in range(n):
        c = rnd.random()
        if c < .2:        # half way and next to it
            m = rnd.choice([0, 1, r - 1, r, k - 1, k, k + 1, rnd.randrange(0, r ** rnd.randint(1, 8))])
            q = Fraction(2 * m + 1, 2 * k)
            q += rnd.choice([0, 0, Fraction(1, k * r ** rnd.randint(1, 6)), -Fraction(1, k * r ** rnd.randint(1, 6)), Fraction(1, 10 ** 60), -Fraction(1, 10 ** 60)])
        elif c < .4:      # carries: all digits the highest one
            q = Fraction(r ** rnd.randint(0, 9)) - Fraction(rnd.choice([1, 2, 3]), k * rnd.choice([1, 2, 3, r, r * r]))
        elif c < .55:     # group boundaries
            g = r ** (3 * rnd.randint(0, 4) + rnd.choice([-1, 0, 0, 1]) if rnd.random() < .9 else rnd.randint(0, 40)) if r else 1
            q = Fraction(g) + rnd.choice([0, -1, 1, Fraction(1, 2), Fraction(-1, 2), Fraction(1, 3), -Fraction(1, 2 * k)])
        elif c < .7:      # exact with trailing zeros
            q = Fraction(rnd.randrange(0, r ** rnd.randint(1, 6)) * r ** rnd.randint(0, 4), r ** rnd.randint(0, p + 2))
        elif c < .8:
            q = Fraction(rnd.randrange(0, 1000), rnd.randrange(1, 1000))
        elif c < .85:
            q = Fraction(1, rnd.choice([2, 3, 7, k, 2 * k, 3 * k, k + 1, r ** (p + 1), 10 ** 30]))
        elif c < .9:
            q = Fraction(rnd.randrange(0, 20))
        else:
            q = Fraction(rnd.randrange(0, 10 ** rnd.randint(1, 40)), rnd.randrange(1, 10 ** rnd.randint(1, 40)))
        out.append(q if rnd.random() < .6 else -q)
    return out


def c05(check, binary):
    rnd = lib.rng('C05', check.tier)
    units = []
    precs = [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 15, 16, 20, 31, 32, 64, 100, 128, 200, 255]

    def unit(r, out, p, flags, n, **kw):
        cfg = {'radix': r, 'prec': p, 'extra': rnd.choice([0, 10])}
        if out:
            cfg['out'] = out
        for f in flags:
            cfg[f] = True
        lines = [gen.ratio_text(q, r) for q in boundary_values(rnd, out or r, p, n)]
        lines += ['0', '-0', '1', '-1', gen.ratio_text(Fraction(-1, 10 ** 9), r), '0/' + gen.to_radix(7, r)]
        units.append(dict(cfg=cfg, lines=lines, **kw))

    sets = [()] + [c for k in (1, 2, 3) for c in itertools.combinations(('frac', 'commas', 'upper'), k)]
    # every pair of radices
    for r in range(2, 17):
        for out in [0] + list(range(2, 17)):
            for _ in range(8 if check.thorough else 1):
                unit(r, out, rnd.choice(precs[:13]), rnd.choice(sets), 25 if check.thorough else 18)
    # every precision in radix 10 and another
    for p in range(0, 256) if check.thorough else precs:
        for flags in sets if check.thorough else rnd.sample(sets, 3):
            unit(10, 0, p, flags, 25)
            unit(rnd.randint(2, 16), rnd.choice([0, rnd.randint(2, 16)]), p, flags, 12)
    # every combination of flags, in depth, and in one-shot mode
    for flags in sets:
        for r in (10, 16, 2):
            for _ in range(6 if check.thorough else 1):
                unit(r, 0, rnd.choice(precs[:8]), flags, 80)
        unit(rnd.choice([10, 16]), rnd.choice([0, 16]), rnd.choice([0, 2, 5]), flags, 10, oneshot=True)
    # values of very many digits on either side of the bar
    for _ in range(40 if check.thorough else 8):
        r, p = rnd.choice([10, 10, 16, 2, 7]), rnd.choice([0, 1, 5, 20, 100])
        lines = []
        for n in (300, 900, 1300, 2100, 3000):
            a, b = rnd.choice([2, 3, 7]), rnd.choice([3, 7, 10, 11])
            w = [gen.to_radix(v, r) for v in (a, n, b, n // 2, rnd.choice([0, 1, n // 2]))]
            lines += ['%s^%s / %s^%s' % (w[0], w[1], w[2], w[3]), '-(%s^%s + 1) / (%s^%s - 1)' % (w[0], w[3], w[2], w[3]), '1 / %s^%s' % (w[2], w[4]), '1 - 1 / %s^%s' % (w[2], w[1])]
        cfg = {'radix': r, 'prec': p}
        for f in rnd.choice(sets):
            cfg[f] = True
        if rnd.random() < .4:
            cfg['out'] = rnd.randint(2, 16)
        units.append(dict(cfg=cfg, lines=lines))
    # the format settings changed within a session
    for _ in range(60 if check.thorough else 12):
        lines = []
        for _ in range(50):
            k = rnd.random()
            if k < .12:
                lines.append('/p %d' % rnd.choice(precs[:12]))
            elif k < .2:
                lines.append('/converttoradix ' + rnd.choice(['none', '2', '3', '8', '10', '11', '12', '13', '14', '15', '16']))
            elif k < .3:
                lines.append(rnd.choice(['/commas ', '/upper ', '/f ']) + rnd.choice(['t', 'f']))
            else:
                p = rnd.choice([0, 1, 2, 3, 5])
                q = boundary_values(rnd, rnd.choice([10, 16, 2, 12]), p, 1)[0]
                lines.append(gen.ratio_text(q, 10))
        units.append(dict(cfg={}, lines=lines))
    check.notes['rule'] = 'radix pairs x precision x flags; values at rounding, carry, grouping and trimming boundaries'
    calc.run_check(check, binary, units)


# ---- C06 --------------------------------------------------------------------------------------
def root_lines(rnd, r, n):
    lines = []

    def lit(q):
        s = gen.ratio_text(abs(q), r)
        return '(%s%s)' % ('-' if q < 0 else '', s)

    def num(k):
        return gen.to_radix(k, r)
    for _ in range(n):
        d = rnd.choice([2, 2, 2, 3, 3, 4, 5, 6, 7, 9, 10, 13, 20, 31, 50, 99, 100])
        k = rnd.random()
        if k < .2:          # perfect powers and their neighbours
            b = rnd.randrange(0, 10 ** max(1, min(8, 40 // d)))
            q = Fraction(b ** d) + rnd.choice([0, 0, 0, 1, -1, Fraction(1, 10 ** 40), -Fraction(1, 10 ** 40)])
        elif k < .35:       # perfect powers of fractions
            a, b = rnd.randrange(1, 60), rnd.randrange(1, 60)
            q = Fraction(a, b) ** min(d, 12)
        elif k < .55:       # between 0 and 1
            q = Fraction(rnd.randrange(1, 10 ** 6), 10 ** rnd.randint(6, 40))
        elif k < .7:
            q = Fraction(rnd.randrange(0, 10 ** rnd.randint(1, 40)))
        elif k < .8:
            q = 1 + rnd.choice([1, -1]) * Fraction(1, 10 ** rnd.randint(1, 40))
        elif k < .9:
            q = Fraction(rnd.randrange(1, 10 ** 20), rnd.randrange(1, 10 ** 20))
        else:
            q = Fraction(rnd.randrange(0, 40))
        if rnd.random() < .25:
            q = -q
        c = rnd.random()
        if c < .3:
            lines.append(('sqrt ' if rnd.random() < .5 else 'sqrt') + lit(q))
        elif c < .6:
            lines.append('%s ^ (1/%s)' % (lit(q), num(d)))
        elif c < .75 and q != 0:
            lines.append('%s ^ (-1/%s)' % (lit(q), num(d)))
        elif c < .92:
            m = rnd.choice([2, 3, 4, 5, 7])
            if q == 0 or len(str(q)) > 45:
                q = Fraction(rnd.randrange(2, 50), rnd.choice([1, 1, 7]))
            lines.append('%s ^ (%s%s/%s)' % (lit(q), rnd.choice(['', '-']), num(m), num(d)))
        else:               # decimal exponents, not near a whole number
            e = Fraction(rnd.choice([5, 15, 25, 12, 37, 49, 51, 99, 101]), rnd.choice([10, 100]) if r == 10 else r)
            b = Fraction(rnd.randrange(2, 60), rnd.choice([1, 1, 3, 100]))
            lines.append('%s ^ (%s)' % (lit(b), gen.ratio_text(e, r)))
    return lines


def c06(check, binary):
    rnd = lib.rng('C06', check.tier)
    units = []
    m = 12 if check.thorough else 1
    combos = [(5, 10), (0, 0), (0, 1), (1, 0), (3, 0), (0, 10), (10, 0), (20, 20), (2, 2), (15, 40), (40, 0)]
    for r in [10] * 10 + list(range(2, 17)):
        for out in (0, rnd.randint(2, 16)):
            for _ in range(m):
                p, x = rnd.choice(combos)
                cfg = {'radix': r, 'prec': p, 'extra': x, 'frac': rnd.random() < .75}
                if out:
                    cfg['out'] = out
                units.append(dict(cfg=cfg, lines=root_lines(rnd, r, 40)))
    # large precisions, low degrees
    for p, x in [(100, 100), (255, 255), (200, 56), (128, 128), (0, 255), (255, 0), (250, 6)]:
        for r in (10, 16, 2):
            lines = [y for y in root_lines(rnd, r, 60) if y.startswith('sqrt')][:8]
            units.append(dict(cfg={'radix': r, 'prec': p, 'extra': x, 'frac': True}, lines=lines + ['sqrt 10', 'sqrt(1/11)', '10^(1/11)', '(-10)^(1/11)']))
    # decimals as long as the precision, whose root is exact
    for p, x in [(255, 0), (200, 55), (100, 10), (60, 0), (30, 10)]:
        for r in (10, 12, 16):
            lines = []
            for _ in range(40 if check.thorough else 8):
                d = rnd.choice([2, 3, 5, 7, 13])
                m = rnd.randint(1, p)
                k = rnd.choice([1, r - 1, r + 1, rnd.randrange(1, 10 ** 4), rnd.randrange(1, 10 ** 12)])
                lit = '(%s/%s^%s)' % (gen.to_radix(k, r), gen.to_radix(r, r), gen.to_radix(m, r))
                eps = rnd.choice(['', '', '', ' + 1/%s^%s' % (gen.to_radix(r, r), gen.to_radix(d * m + p, r)), ' - 1/%s^%s' % (gen.to_radix(r, r), gen.to_radix(d * m + p, r))])
                lines.append('(%s^%s%s) ^ (1/%s)' % (lit, gen.to_radix(d, r), eps, gen.to_radix(d, r)))
            units.append(dict(cfg={'radix': r, 'prec': p, 'extra': x, 'frac': rnd.random() < .5}, lines=lines))
    # systematic: all small radicands and degrees
    lines = ['%s%d ^ (%s1/%d)' % (s, a, e, d) for s in ('', '-') for e in ('', '-') for a in range(0, 33) for d in range(2, 7)]
    lines = [x.replace('-', '(-', 1).replace(' ^', ') ^', 1) if x[0] == '-' else x for x in lines]
    lines += ['sqrt %d' % a for a in range(0, 150)] + ['sqrt -%d' % a for a in range(0, 6)]
    lines += ['(1/%d) ^ (1/%d)' % (a, d) for a in range(1, 20) for d in range(2, 6)]
    lines += ['sqrt .%s%d' % ('0' * z, a) for z in (0, 1, 3, 5, 9, 20, 39) for a in (1, 2, 4, 9, 5)]
    lines += ['%d ^ (1/%d)' % (b ** d, d) for b in range(2, 13) for d in range(2, 38) if b ** d < 10 ** 40]
    lines += ['(-%d) ^ (1/%d)' % (b ** d, d) for b in range(2, 8) for d in range(2, 38) if b ** d < 10 ** 40]
    # numbers of many digits on either side of the bar whose root is short, and neighbours
    for _ in range(300 if check.thorough else 60):
        d = rnd.choice([2, 3, 5, 7, 9, 11, 30, 101])
        a, b = rnd.choice([(1, rnd.randint(2, 99)), (rnd.randint(2, 99), 1), (rnd.randint(2, 9), rnd.choice([2, 5, 8, 10, 16, 20, 25, 3, 7]))])
        e = rnd.choice([d, d, 2 * d, 3 * d, 5 * d]) if d < 30 else d
        lines.append('(%s%d/%d)^%d ^ (%s1/%d)' % ('-' if d % 2 and e % 2 and rnd.random() < .3 else '', a, b, e, rnd.choice(['', '', '-']), d))
    lines += ['(1/%d)^%d ^ (1/%d)' % (b, e, d) for b, e, d in ((2, 3001, 1001), (2, 3100, 1000), (3, 2000, 400), (10, 1000, 333), (7, 1200, 1200), (2, 4097, 800), (2, 9000, 899))]
    lines += ['(%d)^%d ^ (1/%d)' % (b, e, d) for b, e, d in ((2, 3001, 1001), (-3, 2001, 667), (10, 1000, 333), (-7, 1201, 1201))]
    # degrees at the edge of the machine words, where the value is exactly known
    lines += ['%s ^ (1/%d)' % (b, d) for b in ('0', '1', '(-1)') for d in (3, 101, 65537, 4294967295, 4294967297, 18446744073709551617)]
    units += units_of(lines, {'frac': True}, 120)
    units += units_of(lines[::4], {'prec': 0, 'extra': 0}, 120)
    units += units_of(lines[1::4], {'prec': 3, 'extra': 1}, 120)
    units.append(dict(cfg={'frac': True}, lines=lines[::40], oneshot=True))
    check.notes['rule'] = 'radicands up to 40 digits either side of the point, degrees up to 100, perfect powers and neighbours, all radices, precision corner cases'
    calc.run_check(check, binary, units)


# ---- C07 --------------------------------------------------------------------------------------
def random_command(rnd):
    c = rnd.choice(gen.CMDS + ['', 'x', 'HELP', 'radix5'])
    a = rnd.choice(['', ' ', ' t', ' f', ' true', ' FALSE', ' 1', ' 10', ' 16', ' 17', ' 2', ' 0', ' -1', ' none', ' None',
                    ' 5 5', ' 255', ' 256', ' 200 55', ' 200 56', ' 1 2 3', ' $a', ' $a $b', ' a', ' .', ' 1.5', ' -', ' --1',
                    ' 9223372036854775807', ' 9223372036854775808', ' ' + gen.garbage(rnd, 6), ' help', ' /p', ' ' + rnd.choice(gen.CMDS)])
    return '/' + c + a


def heavy(line):
    """Would this line legitimately take long, or use up the memory? (see C07's statement)"""
    import re
    t = re.sub(r'[\s_]', '', line)
    n = 0
    for m in re.finditer(r'\^', t):
        n += 1
        rest = t[m.end():m.end() + 14]
        if re.match(r'[-(]*(?:[A-Za-z$]|[0-9]*\.?[0-9]{4}|.*\^)', rest) and re.search(r'[0-9a-fA-F]{4}|\^|[a-z$(]', rest):
            return True
    return n > 2 or bool(re.search(r'\*\*', t) and False)


def tame_garbage(rnd):
    while True:
        g = gen.garbage(rnd)
        if not heavy(g):
            return g


DEEP = {'nested-parentheses-20000': '(' * 20000 + '1' + ')' * 20000, 'open-parentheses-20000': '(' * 20000, 'stacked-minus-100000': '-' * 100000 + '1',
        'nested-functions-20000': 'max(' * 20000 + '1' + ')' * 20000, 'stacked-abs-25000': 'abs ' * 25000 + '1',
        'sum-of-50000': '1+' * 50000 + '1', 'power-chain-40000': '1^' * 40000 + '1', 'function-of-40000': 'max(' + '1,' * 40000 + '1)',
        'minus-and-space-50000': '- ' * 50000, 'numbers-40000': '1 ' * 40000, 'operators-60000': '*' * 60000, 'commas-60000': ',' * 60000}


def c07(check, binary):
    rnd = lib.rng('C07', check.tier)
    units = []
    n = 20 if check.thorough else 1
    for _ in range(60 * n):
        cfg = gen.random_cfg(rnd)
        if cfg.get('prec', 0) + cfg.get('extra', 0) > 60:
            cfg.pop('extra', None)
        lines = []
        for _ in range(120):
            k = rnd.random()
            if k < .45:
                lines.append(tame_garbage(rnd))
            elif k < .6:
                lines.append(random_command(rnd))
            elif k < .75:
                lines.append(gen.join(rnd, gen.mutate(rnd, gen.good_expr(rnd, 3, ('num', 'var'), True)))[:300])
            elif k < .9:
                lines.append(gen.exact_expr(rnd, 3, lambda: gen.small(rnd))[:300])
            else:
                lines += root_lines(rnd, 10, 1)
        lines = [x for x in lines if not heavy(x)]
        units.append(dict(cfg=cfg, lines=lines, alt=rnd.random() < .2))
    # degenerate arithmetic under every radix and under extreme precision
    zero = ['0', '(1-1)', '-0', '0.0', '(0/5)', '(2%2)', 'abs 0', 'max(0, 0)']
    deg = []
    for z in zero:
        deg += ['1/' + z, '1 %' + z, z + '^' + z, z + '^(-1)', z + '^(1/2)' if True else '', z + '^(-1/10)', 'sqrt ' + z, z + '/' + z,
                z + '%' + z, 'sqrt -' + z, '1^' + z, '(-1)^' + z, '1/sqrt ' + z, '1%sqrt ' + z, z + '^sqrt 10', z + '^-sqrt 10']
    deg += ['max()', 'min()', 'max() + 1', 'sqrt(-1)', '(-1)^(1/10)', '(-1)^(1/11)', '(-1)^(.1)', 'sqrt 10^-1', '10^-10', '1^-1', 'sqrt sqrt sqrt 10',
            'sqrt(sqrt(10)) ^ 10', '10^sqrt 1', '10^(1/101)', '(1/10)^(1/101)', '10 ^ (1/11111111111111)', '10^sqrt 10', '10^-sqrt 10', '(1/11)^(1/1111111111111)', '(-10)^(1/11111111111111)', '11^10.0101', '10^(1/1000001)', 'sqrt 10 ^ sqrt 10', '1 ^ (1/1111111111111111111)', '(-1)^(1/1111111111111111111)', '$a = 1/0',
            '$a', '$a = $a', '$ = 1', '$', '$ + $', '1%1', '-1%1', '1%-1', '-10%11', '10%-11', '$a = sqrt 10', '$a % $a', '$a/$a', '0/$a', '$a^0', '$a^-1', '0%$a',
            '/p', '/r', '/f', '/commas', '/upper', '/converttoradix', '/help', '/h h']
    for c in [{}, {'prec': 0, 'extra': 0}, {'prec': 255, 'extra': 255}, {'prec': 255, 'extra': 0}, {'prec': 0, 'extra': 255}, {'frac': True},
              {'commas': True, 'upper': True}, {'prec': 200, 'extra': 56, 'frac': True}] + [{'radix': r, 'out': o} for r in range(2, 17) for o in (0, 2, 16, 10)]:
        units.append(dict(cfg=c, lines=deg))
    units.append(dict(cfg={}, lines=deg, oneshot=True))
    units.append(dict(cfg={'prec': 255, 'extra': 255, 'frac': True}, lines=deg[::5], oneshot=True))
    # every command with every one-character argument, and every line of one and two characters
    lines = []
    for c in ('h', 'help', 'r', 'radix', 'converttoradix', 'p', 'precision', 'upper', 'comma', 'commas', 'f', 'fractional', 'histcap', 'purgevar', 'reloadvar', '', 'x'):
        lines += ['/%s %s' % (c, a) for a in gen.PRINTABLE] + ['/%s%s' % (c, a) for a in '/ $-.,()'] + \
                 ['/%s %s' % (c, a) for a in ('//', '/ /', '- -', '$ $', '--', '$$', '-/', '/h', '/x y', '. .', '_', '__', '= =', '((', '))', ', ,', '-.', '-_', '1-', '-1-', '1 -', '1 2 -', '1-2', '- 1 - 2')]
    units += units_of(lines, {}, 500)
    two = [a + b for a in gen.PRINTABLE for b in gen.PRINTABLE]
    units += units_of(list(gen.PRINTABLE) + (two if check.thorough else rnd.sample(two, 2500)), {'radix': 16}, 500)
    # precision and extra precision set by command to every corner, then roots and fractions
    lines = []
    for p in (0, 1, 2, 127, 128, 254, 255):
        for x in (0, 1, 2, 127, 128, 254, 255):
            lines += ['/p %d %d' % (p, x), 'sqrt 2', '1/3', '/f t', 'sqrt 2', '/f f', '/p', '2^(1/3)', '123456789.987654321']
    units += units_of(lines, {}, 90)
    # long lines, deep nesting (hundreds)
    long = ['(' * k + '1' + ')' * k for k in (10, 100, 200, 300)] + ['-' * k + '1' for k in (10, 100, 300)] + \
           ['abs ' * k + '1' for k in (10, 75)] + ['max(' * k + '1' + ')' * k for k in (10, 70)] + ['(' * 300, ')' * 300, '-' * 300, '1' * 400, '.' * 300, '_' * 300, '$' * 300,
            '1+' * 150 + '1', '1/' * 150 + '3', '9' * 150 + '*' + '9' * 150, '2-' * 150, ',' * 300, '=' * 300, '/' * 300, '/' + 'x' * 300, ' ' * 300, ' ' * 300 + '1',
            '1%' * 150 + '1', '$x' * 150, '$x=' * 100, 'sqrt' * 75, 'sqrt ' * 8 + '10', 'max(' + '1,' * 148 + '1)', '1 ' * 150]
    units.append(dict(cfg={}, lines=long))
    units.append(dict(cfg={'radix': 2, 'commas': True}, lines=long, alt=True))
    units.append(dict(cfg={}, lines=long, oneshot=True))
    far = ['(' * 500 + '1' + ')' * 500, '(' * 1000, 'abs -' * 350 + '1', 'max(1,' * 250 + '1' + ')' * 250, '1' * 1500, '1+' * 700 + '1', '1-(' * 400, '2%' * 500 + '3', '$x' * 600,
           'x' * 1500, '/' + 'r' * 1500, '/p ' + '1' * 1200, '/r ' + '0' * 1200 + '2', '/r 10', '1.' + '0' * 1200 + '1', ' ' * 1500, '1' + ' ' * 1400 + '+ 1', '-' * 1000, ',' * 1000]
    units.append(dict(cfg={}, lines=far))
    units.append(dict(cfg={'frac': True}, lines=far, alt=True))
    units.append(dict(cfg={'radix': 3}, lines=far, oneshot=True))
    odd = ['\u00e9', '\t', '\n', '1\n2', '\u0000'.replace('\u0000', ' '), '\u007f', '\U0001f600', '/\u00e9', '/p \u00e9', '\u2028', '$\u00e9', '1+\u00e9', '\u00e9=1', ' \u00a0/p', '\u0130', '/\u0130', '/f \u0130', '\ufeff1']
    for c in ({}, {'radix': 16, 'frac': True}):
        units.append(dict(cfg=c, lines=odd + [tame_garbage(rnd) for _ in range(150 * n)], oneshot=True))
    check.notes['rule'] = 'random text, commands, degenerate arithmetic, corner settings, long and nested lines; an answer and a living program are required'
    check.assumptions.append('lines whose exact value, or a value on the way to it, has many thousands of digits are outside of the property')
    calc.run_check(check, binary, units, focus='alive')
    if check.found:
        return
    # saved lines that take more rows than a terminal can number, recalled and submitted
    for args, cols, n in (([], 5, 200000), (['-a'], 3, 66000), (['-a'], 5, 200000), ([], 80, 300000)):
        ev = calc.run_recalled(binary, args, cols, '1' + ' ' * (n - 2) + '@', check.scratch)
        bad, info = lib.validate(ev, env={'FOCUS': 'alive'})
        check.events += len(ev)
        if bad is not None:
            ev = calc.run_recalled(binary, args, cols, '1' + ' ' * (n - 2) + '@', check.scratch)
            if lib.validate(ev, env={'FOCUS': 'alive'})[0] is not None:
                check.violation('a recalled line of %d characters in %d columns: %s' % (n, cols, ev), {'characters': n, 'columns': cols, 'flags': args, 'events': ev})
                return
    # expressions nested ten thousand deep and more, each on its own: a known finding (see DESIGN.md) unless it is answered
    for name, text in DEEP.items():
        ev = calc.run_oneshots(binary, {}, [text])
        check.events += 1
        bad, info = lib.validate(ev, env={'FOCUS': 'alive'}) if len(text) < 300 else (None if not ev[-1]['out'][0].startswith('!') else 1, {})
        if bad is not None and not check.known_finding(name):
            check.violation('%s: %s' % (name, str(ev[-1]['out'])[:300]), {'text': name, 'out': ev[-1]['out']})


# ---- C10 --------------------------------------------------------------------------------------
QUERIES = ['/r', '/converttoradix', '/p', '/upper', '/commas', '/f']


def probe_lines(radix_hint=10):
    return QUERIES + ['1011.1/11', '-1000000', '10/11', '$q = 111111111/100', 'sqrt 10']


def c10(check, binary):
    rnd = lib.rng('C10', check.tier)
    units = []
    ints = ['', ' ', '   ', '0', '1', '2', '3', '8', '10', '15', '16', '17', '18', '36', '-1', '-2', '-10', '- 10', '--10', '1.5', '10.0', '16.', '.5', '1_6', '016', '0x10',
            'a', 'f', 'ten', '$a', '2 3', '2,3', '16 ', '  16', '1 6', '(16)', '8+8', 'none', 'None', 'NONE', 'none 2', 'non', 'nonee', 'true', 't', '255', '256', '257', '258', '266', '65536', '65546',
            '4294967306', '9223372036854775807', '9223372036854775808', '18446744073709551626', '18446744073709551632', '-246', '-240', '/r', '=', '10=', '-', '10-', '10 -', '-10 5', '5 -10', '5 5 5', '5 5 5 5', '2 2']
    bools = ['', ' ', 't', 'f', 'true', 'false', 'T', 'F', 'TRUE', 'FALSE', 'True', 'fAlSe', ' t ', '  false  ', 'tr', 'tru', 'truee', 'fals', 'yes', 'no', '1', '0', 'on', 'off', 't t', 't f', 'true false', 'tf', 'ft', '-t', '(t)', 'none', '"true"', '/t', '10', 'a']
    # every argument to every setting command, queried before and after, from several states
    for c in ('radix', 'r', 'converttoradix', 'precision', 'p', 'upper', 'commas', 'comma', 'fractional', 'f'):
        args = list(dict.fromkeys(ints + bools)) if check.thorough else (ints if c in ('radix', 'r', 'converttoradix', 'precision', 'p') else bools + ints[3:12])
        for start in ({}, {'radix': 16, 'out': 2, 'prec': 3, 'extra': 4, 'frac': True, 'commas': True, 'upper': True}) if check.thorough else ({'radix': 12, 'prec': 2},):
            lines = []
            for a in args:
                lines += ['/%s %s' % (c, a) if a or rnd.random() < .5 else '/' + c]
                lines += probe_lines() if check.thorough else QUERIES + ['-1000000/11']
            units += units_of(lines, start, 700)
    # every accepted value
    lines = []
    for v in range(-1, 20):
        lines += ['/r %d' % v, '/r', '10', '/converttoradix %d' % v, '/converttoradix', '/r 10', '200.5', '/converttoradix none']
    for p in range(0, 257) if check.thorough else [0, 1, 2, 5, 10, 100, 127, 128, 200, 244, 245, 246, 254, 255, 256]:
        for x in [None] + ([0, 1, 10, 127, 128, 254, 255, 256] + [255 - p, 256 - p] if True else []):
            if x is not None and x < 0:
                continue
            lines += ['/p %d%s' % (p, '' if x is None else ' %d' % x), '/p']
    units += units_of(lines, {}, 600)
    # flags against commands: the flag puts the session in the state the command reports
    for _ in range(400 if check.thorough else 50):
        c = gen.random_cfg(rnd)
        units.append(dict(cfg=c, lines=probe_lines()))
    for r in range(2, 17):
        units.append(dict(cfg={'radix': r}, lines=probe_lines()))
        units.append(dict(cfg={'out': r}, lines=probe_lines()))
    for p in (range(0, 256) if check.thorough else range(0, 256, 17)):
        units.append(dict(cfg={'prec': p}, lines=['/p', '1/7']))
        units.append(dict(cfg={'extra': p}, lines=['/p', '/f t', 'sqrt 2']))
    # random histories of setting commands and evaluations
    for _ in range(400 if check.thorough else 50):
        lines = []
        for _ in range(60):
            k = rnd.random()
            if k < .5:
                c = rnd.choice(['radix', 'r', 'converttoradix', 'precision', 'p', 'upper', 'commas', 'comma', 'fractional', 'f'])
                a = rnd.choice(bools if c in ('upper', 'commas', 'comma', 'fractional', 'f') else ints) if rnd.random() < .8 else rnd.choice(bools + ints)
                if rnd.random() < .4:
                    a = rnd.choice({'r': ['2', '10', '16', '7'], 'radix': ['2', '10', '16', '12'], 'converttoradix': ['2', '16', 'none', '9'], 'p': ['0', '3', '5 2', '9 0'],
                                    'precision': ['1', '4 4', '20']}.get(c, ['t', 'f', 'True', 'FALSE']))
                lines.append('/%s %s' % (c, a))
            elif k < .7:
                lines.append(rnd.choice(QUERIES))
            else:
                lines.append(rnd.choice(['1000000', '-10101.101', '1/11', '-100/11', '$q = 1111.01', '$q', '$q * 10', '1001001001/10', '0', '-1/111111111']))
        units.append(dict(cfg=gen.random_cfg(rnd), lines=lines))
    if not calc.run_check(check, binary, units):
        return
    # with saved data: the capacity, too, in any radix and among the other settings
    import store
    caps = ['', ' ', '5', '9', '10', '11', '16', '20', '1_0', '100', '101', '0', '-1', '- 1', '-0', '1.5', '10.0', 'a', 'f', '2 3', 'ten', 'none', '(5)', '5,',
            '9223372036854775807', '9223372036854775808', '18446744073709551626', '00012']
    scs = []
    for k in range(200 if check.thorough else 24):
        cfg = gen.random_cfg(rnd)
        if k % 2 == 0:
            cfg['radix'] = [16, 2, 12, 8, 11, 3][k // 2 % 6]
        ops = [('open', 's', cfg)]
        for _ in range(30):
            z = rnd.random()
            if z < .55:
                ops += [('line', 's', rnd.choice(['/histcap ', '/histcap  ']) + rnd.choice(caps)), ('line', 's', '/histcap')]
            elif z < .8:
                c = rnd.choice(['radix', 'r', 'converttoradix', 'precision', 'p', 'upper', 'commas', 'comma', 'fractional', 'f'])
                ops.append(('line', 's', '/%s %s' % (c, rnd.choice(bools if c in ('upper', 'commas', 'comma', 'fractional', 'f') else ints))))
            else:
                ops.append(('line', 's', rnd.choice(QUERIES + ['-1000/11', '1111'])))
        ops += [('line', 's', q) for q in QUERIES] + [('end', 's'), ('open', 't', {}), ('line', 't', '/histcap'), ('line', 't', '/r')]
        scs.append({'ops': ops})
    if not store.run_check(check, binary, scs, 'out cap'):
        return
    flag_ranges(check, binary)


def flag_ranges(check, binary):
    """Out-of-range flags are refused at start; in-range ones are not. Judged by TraceStart."""
    ev = []
    vals = [str(v) for v in range(-1, 20)] + ['', 'a', 'none', '255', '256', '257', '300', '-1', '1.5', '10.0', '0x10', '65546', '18446744073709551626', ' 5', '+5', '016']
    for flag in ('-r', '--radix', '--convert-to-radix', '-p', '--precision', '--extra-precision'):
        for v in vals:
            code, out, err = calc.oneshot_raw(binary, ['%s=%s' % (flag, v) if flag.startswith('--') else flag + v, '-i', '1'])
            ev.append({'e': 'flag', 'flag': flag, 'value': v, 'code': code, 'out': out, 'err': bool(err)})
    bad, info = lib.validate(ev, 'TraceFlags')
    check.events += len(ev)
    check.traces += 1
    check.states += info['states']
    check.sample(ev[0])
    if bad is not None:
        e = ev[bad]
        again = calc.oneshot_raw(binary, ['%s=%s' % (e['flag'], e['value']) if e['flag'].startswith('--') else e['flag'] + e['value'], '-i', '1'])
        check.violation('flag %s with value %r: exit status %s, which the specification does not allow' % (e['flag'], e['value'], again[0]), {'event': e})


# ---- C11 --------------------------------------------------------------------------------------
def c11(check, binary):
    rnd = lib.rng('C11', check.tier)
    names = gen.CMDS
    lines = []
    for w in names + ['', 'x', '/', '//', '-', '$a', '1', '1+1']:
        for v in {w, w.upper(), w.capitalize(), w + 's', w[:-1], w[1:], ' ' + w, w + ' ', w + '=', w + ',', w + '(1)', '/' + w, w + '/', w + '.', '_' + w, w + '_', w + w, w[:2], w[:1], w + '+1', w + ';', '\\' + w}:
            for lead in ('', '   '):
                lines.append(lead + '/' + v)
                if rnd.random() < (1 if check.thorough else .3):
                    lines.append(lead + '/' + v + ' ' + rnd.choice(['t', '5', '$a', 'help', 'x', '']))
    for w in names + ['x', '', 'HELP', 'he', 'help help', '/help', '/p', '1', '$a', 'hel p', 'p p', ' p', 'p ', '   r   ', 'f,', 'helpx', 'var', 'purge', 'radix 5', '-', 'histcapp', 'none']:
        lines += ['/help ' + w, '/h ' + w, '/help  ' + w + ' ', ' /h  ' + w]
    # a slash elsewhere is a division, never a command
    lines += ['6/p', '6/2', '6 /2', '(/p)', '6/ p', '$a = 6/2', '- /p', '1/help', '1 /help', '(6)/2', '$a/2', '$a/help', '$ /p', '+/p', ', /p', '1\\/p', './p']
    # the aliases do what the commands do
    pairs = [('h', 'help'), ('f', 'fractional'), ('r', 'radix'), ('p', 'precision'), ('comma', 'commas')]
    for a, c in pairs:
        for arg in ('', ' t', ' f', ' 3', ' 16', ' 10', ' 3 3', ' x', ' none', ' ' + a, ' ' + c):
            for w in (a, c):
                lines += ['/' + w + arg, '/' + a, '/' + c, '/r', '/p', '/f', '/commas', '-1234567/8']
            lines += ['/r 10', '/p 5 10', '/f f', '/commas f']
    lines += ['/histcap', '/histcap 5', '/histcap x', '/reloadvar $a', '/reloadvar', '/reloadvar a', '/purgevar', '/purgevar $a', '/purgevar a', '/purgevar $a $b', '/purgevar $a,$b', '/purgevar 1']
    units = units_of(lines, {}, 500) + units_of(rnd.sample(lines, len(lines) // 2), {'radix': 16, 'prec': 2}, 500)
    units.append(dict(cfg={}, lines=lines if check.thorough else lines[::4] + ['/help', '/histcap', '/reloadvar $a', '/purgevar $a', '/help histcap', '/help purgevar', '/help reloadvar', '/h'], oneshot=True))
    # blanks that the keys cannot produce end the name, too
    wide = []
    for w in names + ['x', 'rr', 'helphelp']:
        for b in '\t\n\r\f':
            wide += ['/%s%s' % (w, b), '/%s%s%s' % (w, b, rnd.choice(['t', '16', 'radix', '$a', '3 3']))]
        wide.append('%s/%s%s%s' % (rnd.choice('\t\n\r\f'), w, rnd.choice(['\t \t', '\n\n', ' \r', '\f ']), rnd.choice(['t', '16', 'radix', '$a', '3 3', 'x'])))
    for i in range(0, len(wide), 60):
        units.append(dict(cfg={}, lines=wide[i:i + 60], oneshot=True))
    if not calc.run_check(check, binary, units):
        return
    check.notes['rule'] = 'every name and alias with prefixes, suffixes, case and blanks around it; help for each; availability without saved data, in one-shot mode'
    # with saved data all of them are there
    import store
    rnd.shuffle(lines)
    lines = lines if check.thorough else lines[::2]
    lines += ['/help', '/h', '/histcap', '/reloadvar $a', '/reloadvar', '/purgevar $a', '/purgevar', '/histcap 50'] + ['/help ' + w for w in names]
    sc = [{'ops': [('open', 's', {})] + [('line', 's', x) for x in ['$a = 4', '$b = 1'] + lines[i:i + 150]], 'blind': True} for i in range(0, len(lines), 150)]
    store.run_check(check, binary, sc, 'out cap vals')
