"""Comparisons of symbolic numbers against the order of the integers they denote."""
import operator

import numgen
import numref
from common import Part, Violation
from numref import Inexact, TooBig

PROPERTY = 'C02'
RULE = ('positive results of random expression programs (as for C01) compared with each other, with their neighbours '
        '(n+1, n+k, 2n, b*n) and with integers, under <, <=, >, >=, ==, !=; an answer must be the one the integers give - '
        'written out, or by interval bounds on iterated logarithms.  near: a multiple of one power plus an integer against '
        'integers next to it.  sizes: the numbers size estimates are made of (integers, powers of ten, towers of tens).  '
        'Non-trivial: a comparison between two different symbolic numbers was answered.')
ASSUMPTIONS = ['pairs whose order the interval bounds leave open are not judged',
               'numbers of nearly the same value (within 10**9) written in two different ways are not compared']
OPS = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}
MIRROR = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}


def prepare(tier):
    numgen.load()


def gen(rng):
    base, ops = numgen.gen_ops(rng, rng.choice([2, 3, 5, 8]), ('-', 'neg', 'i-'), plain=True)
    return {'base': base, 'ops': ops, 'ints': [rng.choice([0, 1, 2, 10, 1000, -1, -7]) for _ in range(2)],
            'near': [[rng.choice([i, i, rng.randrange(50)]), rng.choice(['+', '-', '*', 'b', 'b']), rng.randrange(24)] for i in [rng.randrange(50)] for _ in range(4)]}


def positive(t):
    try:
        v = numref.value(t)
        return v > 10**6 if v is not None else numref.sign(t) > 0
    except (TooBig, Inexact):
        return False


def strip(t):
    return t[2] if isinstance(t, tuple) and t[0] == '+' and isinstance(t[1], int) else t


def check(ctx, case):
    numgen.load()
    numgen.clear()
    vals = []
    for _, r, s in numgen.run_ops(case['base'], case['ops']):
        if s is not None and not isinstance(r, int):
            # the order is judged by what the number is, not by what it should be
            t = numref.tree(r)
            if positive(t):
                vals.append((r, t))
    made = len(vals)
    for i, how, k in case['near'] if vals else ():
        n, t = vals[i % made]
        try:
            r = n + (1 + k % 9) if how == '+' else n - (1 + k % 9) if how == '-' else (2 + k % 8) * n if how == '*' \
                else case['base'] ** (1 + k % 3) * n
        except numgen.REFUSE:
            continue
        t = numref.tree(r)
        if not isinstance(r, int) and positive(t):
            vals.append((r, t))
    vals = vals[-8:]
    everything = vals + [(k, k) for k in case['ints']]
    for a, ta in everything:
        for b, tb in everything:
            if isinstance(a, int) and isinstance(b, int):
                continue
            try:
                want = numref.compare(ta, tb)
            except (TooBig, Inexact):
                ctx.cls('undecided')
                continue
            if want and strip(ta) != strip(tb):
                va, vb = numref.value(ta), numref.value(tb)
                if va is not None and vb is not None and abs(va - vb) < 10**9:
                    ctx.cls('almost the same value, written in two ways')
                    continue
            for name, op in OPS.items():
                if want == 0 and a is not b:
                    continue   # the same value written in two ways: C04
                try:
                    got = op(a, b)
                except numgen.REFUSE:
                    ctx.cls('refused')
                    continue
                ctx.cls(f'{type(a).__name__} {type(b).__name__}')
                if a is not b and type(a) is not int is not type(b):
                    ctx.nontrivial_case()
                if bool(got) != op(want, 0):
                    raise Violation(f'base {case["base"]} {case["ops"]}: {str(a)[:400]} {name} {str(b)[:400]} is said to be {got}')


# -- a power times an integer plus an integer, against any integer ---------------

def gen_near(rng):
    base = rng.choice([2, 2, 3, 5, 6, 7])
    return {'base': base, 'exp': rng.choice([rng.randrange(2, 40), rng.randrange(2, 400)]),
            'mul': rng.choice([1, 1, *(k for k in numgen.CONSTS if k > 0), rng.randrange(1, 10**6)]),
            'add': rng.choice([0, 0, *numgen.CONSTS, rng.randrange(-10**6, 10**6)]),
            'at': [rng.choice([0, 0, 1, -1, 2, -2, rng.randrange(-10, 11), rng.randrange(-10**6, 10**6)]) for _ in range(6)]}


def check_near(ctx, case):
    numgen.load()
    numgen.clear()
    base = case['base']
    try:
        n = case['add'] + case['mul'] * numgen.num.make_exp(base, case['exp'])
    except numgen.REFUSE:
        return
    v = case['add'] + case['mul'] * base ** case['exp']
    if isinstance(n, int):
        return
    if numref.exact(numref.tree(n)) != v:
        return    # C01
    p = base ** case['exp']
    for k in [v + d for d in case['at']] + [case['mul'], v // 2, 2 * v, p, p - 1, p + 1, -v, 0]:
        for name, op in OPS.items():
            if v == k and name != '<':
                continue    # a power is never equal to an integer, written as one: C04
            try:
                got = op(n, k), OPS[MIRROR[name]](k, n)
            except numgen.REFUSE:
                ctx.cls('refused')
                continue
            ctx.cls('above' if v > k else 'below')
            ctx.nontrivial_case()
            if got != (op(v, k),) * 2:
                raise Violation(f'{n} {name} {k} is said to be {got[0]}, the other way round {got[1]}; the number is {v}')


# -- size estimates ----------------------------------------------------------------

def gen_sizes(rng):
    return {'of': [rng.choice([['int', rng.randrange(0, 10**6)], ['exp', rng.randrange(2, 10**7)], ['tet', rng.randrange(3, 12)],
                               ['tet', rng.randrange(3, 300)]]) for _ in range(rng.choice([2, 3, 4]))]}


def check_sizes(ctx, case):
    num = numgen.load()
    numgen.clear()
    of = [(k, num.make_exp(10, k[1]) if k[0] == 'exp' else num.Tet(10, k[1]) if k[0] == 'tet' else k[1]) for k in case['of']]
    for (ka, na), a in of:
        for (kb, nb), b in of:
            if ka == kb == 'int':
                continue
            ia, ib = (['int', 'exp', 'tet'].index(ka), na), (['int', 'exp', 'tet'].index(kb), nb)
            for name, op in OPS.items():
                try:
                    got = op(a, b)
                except numgen.REFUSE:
                    ctx.cls('refused')
                    continue
                ctx.cls(f'{ka} {kb}')
                ctx.nontrivial_case()
                if bool(got) != op(ia, ib):
                    raise Violation(f'{a} {name} {b} is said to be {got}')


def parts(tier):
    k = 1 if tier == 'quick' else 50
    return [Part('order', 'rnd', gen, check, 30_000 * k, shrink=numgen.shrink_ops),
            Part('near', 'rnd', gen_near, check_near, 10_000 * k),
            Part('sizes', 'rnd', gen_sizes, check_sizes, 3_000 * k)]
