"""Inputs for the calculator: exhaustive small ones and seeded random ones."""
import itertools
from fractions import Fraction

DIG = '0123456789abcdef'


def to_radix(n, r):
    if n == 0:
        return '0'
    s, m = '', abs(n)
    if r in (10, 16, 2, 8):
        s = {10: '%d', 16: '%x', 8: '%o'}.get(r, '') % m if r != 2 else bin(m)[2:]
    else:
        while m:
            m, d = divmod(m, r)
            s = DIG[d] + s
    return '-' + s if n < 0 else s


def mix_case(rnd, s):
    return ''.join(c.upper() if rnd.random() < .3 else c for c in s)


def digits(rnd, n, r):
    return ''.join(rnd.choice(DIG[:r]) for _ in range(n))


def literal(rnd, r=10, big=False):
    """A well-formed number literal."""
    k = rnd.random()
    if k < .35:
        return to_radix(rnd.randrange(0, 13), r)
    if k < .5:
        return to_radix(rnd.choice([0, 1, 2, r - 1, r, r + 1, r * r, r ** 5, r ** 5 - 1]), r)
    if k < .75:
        s = digits(rnd, rnd.randint(1, 6), r)
        t = digits(rnd, rnd.randint(0, 5), r)
        return rnd.choice([s, s + '.' + t, '.' + s, s + '.'])
    if k < .85:
        s = digits(rnd, rnd.randint(1, 9), r)
        i = rnd.randint(0, len(s))
        s = s[:i] + '_' + s[i:]
        if rnd.random() < .5:
            i = rnd.randint(0, len(s))
            s = s[:i] + '.' + s[i:]
        return mix_case(rnd, s)
    n = rnd.choice([18, 19, 20, 21, 38, 39, 40, 60, 120]) if big or rnd.random() < .5 else rnd.randint(6, 17)
    s = digits(rnd, n, r)
    if rnd.random() < .4:
        i = rnd.randint(0, len(s))
        s = s[:i] + '.' + s[i:]
    return mix_case(rnd, s)


def small(rnd):
    return rnd.choice(['0', '1', '2', '3', '.5', '1.5', '10', '7', '0.25', '-1', '-2', '-.5', '-3', '2.5'])


def exact_expr(rnd, depth, leaf, r=10):
    """An expression over the exact operations, with parentheses around every operation."""
    if depth <= 0 or rnd.random() < .15:
        return leaf()
    sub = lambda: exact_expr(rnd, depth - 1, leaf, r)
    k = rnd.random()
    if k < .18:
        return '(%s + %s)' % (sub(), sub())
    if k < .36:
        return '(%s - %s)' % (sub(), sub())
    if k < .52:
        return '(%s * %s)' % (sub(), sub())
    if k < .66:
        return '(%s / %s)' % (sub(), sub())
    if k < .78:
        return '(%s %% %s)' % (sub(), sub())
    if k < .84:
        return '(-%s)' % sub()
    if k < .88:
        return 'abs(%s)' % sub()
    if k < .94:
        return '%s(%s)' % (rnd.choice(['max', 'min']), ', '.join(sub() for _ in range(rnd.randint(1, 4))))
    e = rnd.choice([0, 1, 2, 3, 4, 5, 7, -1, -2, -3, 8])
    return '(%s ^ %s)' % (sub(), to_radix(e, r) if e >= 0 else '(-%s)' % to_radix(-e, r))


def ratio_text(q, r=10):
    s = to_radix(abs(q.numerator), r)
    if q.denominator != 1:
        s += '/' + to_radix(q.denominator, r)
    return ('-' if q < 0 else '') + s


# ---- token sequences ------------------------------------------------------------------------
TOKENS = ['2', '3', '$v', '+', '-', '*', '/', '%', '^', '(', ')', ',', '=', 'sqrt', 'abs', 'max', 'min']
CORE = ['7', '$v', '+', '-', '*', '%', '^', '(', ')', ',', '=', 'abs', 'max']
NUMS = ['7', '3', '5', '2', '4', '6', '8', '9']


def spell(rnd, toks, spread=None):
    """Token sequence -> text; numbers get distinct values; the blanks are random but keep
    words apart."""
    out, k = '', 0
    prev = ''
    for t in toks:
        if t.isdigit():
            t = NUMS[k % len(NUMS)]
            k += 1
        word = t[0].isalnum() or t[0] == '$'
        pword = bool(prev) and (prev[0].isalnum() or prev[0] == '$')
        gap = rnd.choice(['', ' ', '', '  ', ' ']) if spread is None else spread
        if word and pword and not gap:
            gap = ' '
        out += (gap if prev else '') + t
        prev = t
    return out


def sequences(alphabet, n):
    return itertools.product(alphabet, repeat=n)


def good_expr(rnd, depth, atoms=('num',), prefix=True):
    """Random well-formed token sequence with few parentheses, to exercise the grouping."""
    def operand(d):
        k = rnd.random()
        if d <= 0 or k < .45:
            return [rnd.choice(NUMS)] if rnd.random() < .8 or 'var' not in atoms else ['$v']
        if k < .6:
            return ['-'] + operand(d - 1)
        if k < .68 and prefix:
            return ['abs'] + operand(d - 1)
        if k < .76 and prefix:
            f = rnd.choice(['max', 'min'])
            o = operand(d - 1)
            return [f] + o
        if k < .86 and prefix:
            f = rnd.choice(['max', 'min'])
            args = [f, '(']
            for i in range(rnd.randint(1, 3)):
                args += ([','] if i else []) + expr(d - 1)
            return args + [')']
        return ['('] + expr(d - 1) + [')']

    def expr(d):
        out = operand(d)
        for _ in range(rnd.choice([0, 1, 1, 2, 3, 4])):
            op = rnd.choice(['+', '-', '*', '/', '%', '^'])
            # exponents stay small: an operand of ^ is a single small number or a negation of one
            if op == '^':
                out += [op] + rnd.choice([['2'], ['3'], ['1'], ['0'], ['-', '1'], ['-', '2'], ['-', '-', '2'],
                                          ['abs', '2'], ['max', '-', '1'], ['(', '1', '+', '1', ')']])
            else:
                out += [op] + operand(d - 1)
        return out
    return expr(depth)


def mutate(rnd, toks):
    toks = list(toks)
    for _ in range(rnd.choice([1, 1, 2, 3])):
        k = rnd.random()
        i = rnd.randint(0, len(toks))
        if k < .4 and toks:
            del toks[min(i, len(toks) - 1)]
        elif k < .75:
            toks.insert(i, rnd.choice(TOKENS))
        elif len(toks) > 1:
            j = rnd.randrange(len(toks) - 1)
            toks[j], toks[j + 1] = toks[j + 1], toks[j]
    return toks


def join(rnd, toks):
    out, prev = '', ''
    for t in toks:
        word = t[0].isalnum() or t[0] == '$'
        pword = bool(prev) and (prev[0].isalnum() or prev[0] == '$')
        gap = rnd.choice(['', ' ', '', '   '])
        out += (gap or (' ' if word and pword else '')) + t if prev else t
        prev = t
    return out


PRINTABLE = ''.join(chr(c) for c in range(32, 127))


def garbage(rnd, n=None):
    n = n or rnd.choice([1, 2, 3, 5, 8, 13, 30, 80, 200])
    k = rnd.random()
    if k < .35:
        return ''.join(rnd.choice(PRINTABLE) for _ in range(n))
    if k < .6:
        return ''.join(rnd.choice('0123456789.+-*/%^()=,$_ abf') for _ in range(n))
    return join(rnd, [rnd.choice(TOKENS + ['0', '.5', '10', '$', '_', '.', 'x']) for _ in range(n)])


# ---- settings -------------------------------------------------------------------------------
def random_cfg(rnd, small_prec=False):
    c = {}
    if rnd.random() < .6:
        c['radix'] = rnd.randint(2, 16)
    if rnd.random() < .4:
        c['out'] = rnd.randint(2, 16)
    if rnd.random() < .6:
        c['prec'] = rnd.choice([0, 1, 2, 3, 5, 7, 10, 20] + ([] if small_prec else [50, 100, 200, 255]))
    if rnd.random() < .4:
        c['extra'] = rnd.choice([0, 1, 2, 5, 10] + ([] if small_prec else [50, 255]))
    for k in ('frac', 'commas', 'upper'):
        if rnd.random() < .3:
            c[k] = True
    return c


CMDS = ['commas', 'comma', 'converttoradix', 'fractional', 'f', 'help', 'h', 'histcap', 'precision', 'p',
        'purgevar', 'radix', 'r', 'reloadvar', 'upper']


def frac(n, d=1):
    return Fraction(n, d)
