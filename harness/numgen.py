"""Random expression programs over the symbolic numbers of tm.num, with the
meaning of every value kept alongside as an expression tuple (numref)."""
from __future__ import annotations

import sys
from collections import defaultdict

import numref
from numref import Inexact, TooBig

num = None      # tm.num
REFUSE = ()
CONSTS = (1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 18, 24, 27, 30, 60, -1, -1, -2, -3, -5, -8, -12)
LEAST = 10**6   # symbolic parts are larger than this


def load():
    global num, REFUSE
    if num is None:
        sys.setrecursionlimit(2000)
        import tm.num
        num = tm.num
        REFUSE = (NotImplementedError, num.ExpModLimit, num.ModDepthLimit, AssertionError,
                  RecursionError, OverflowError)
    return num


def clear():
    for v in vars(num).values():
        if isinstance(v, defaultdict):
            v.clear()


def gen_ops(rng, size=None, without=(), plain=False):
    """(base, ops); ops refer to earlier values by index (modulo their number).
    Either towers, whose lowest exponents are far larger than the exponents
    that get multiplied out, or numbers of one level."""
    base = rng.choice([2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9])
    size = size or rng.choice([2, 4, 6, 8, 12, 16])
    towers = rng.random() < .7
    unit = {4: 2, 8: 3, 9: 2}.get(base, 1)
    ops = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        ops.append(['exp', rng.randrange(3000, 3900) // unit if towers else
                    rng.randrange(40, 60)])
    if towers:
        kinds = rng.choice([
            ['+i', '-', '+', '*i', '*', '^', '//', 'neg', 'i-', '*i', '+i'],
            ['+i', '+', '*i', '^', '//', '+i', '*i'],
            ['+i', '+', '*i', '*', '-', '-'],
            ['+i', '*i', '^', '//', 'geo', 'geo', '-i'],
            ['+i', '-', '+', '*i', '*', '^', '//', 'neg', 'i-', 'geo', 'div', '//i'],
        ])
    else:
        kinds = rng.choice([
            ['+i', '-', '+', '*i', '//', 'neg', 'i-', '*i', '+i', 'div', '//i'],
            ['+i', '*i', '*', '//', '+', '-i'],
        ])
    consts = [k for k in CONSTS if k > 0] if plain else CONSTS
    if plain and not towers:
        without = (*without, '*')   # a coefficient as large as the power it multiplies
    kinds = [k for k in kinds if k not in without]
    for _ in range(size):
        ops.append([rng.choice(kinds), rng.randrange(100), rng.randrange(100), rng.choice(consts)])
    if not towers and rng.random() < .3:
        ops.append([rng.choice(['^', 'geo']), rng.randrange(100), rng.randrange(100), rng.choice(consts)])
    return base, ops


def neg(t):
    return -t if isinstance(t, int) else ('*', -1, t)


def large(t) -> bool:
    """surely above LEAST"""
    v = numref.value(t)
    if v is not None:
        return v > LEAST
    return numref.sign(t) > 0


def run_ops(base, ops, on_refuse=None):
    """yields (op, value, meaning, operand meanings) for every value made"""
    vals = []
    products = set()   # meanings with a product of two symbolic numbers in them: no exponents
    for op in ops:
        kind = op[0]
        if kind == 'exp':
            r = num.make_exp(base, op[1])
            s = ('^', base, op[1])
            vals.append((r, s))
            yield op, r, s
            continue
        _, i, j, k = op
        a, sa = vals[i % len(vals)]
        b, sb = vals[j % len(vals)]
        try:
            # counts are positive: a negative number is only ever added to something
            if sa in products and kind == '^' or sb in products and kind == 'geo':
                continue
            if numref.sign(sa) < 0 and kind in ('*', '^', 'geo', 'div', 'i-') or numref.sign(sb) < 0 and kind in ('*', 'geo', '-'):
                continue
            if kind == '+i':
                f, s = (lambda: a + k), ('+', sa, k)
            elif kind == '-i':
                f, s = (lambda: a - k), ('+', sa, -k)
            elif kind == 'i-':
                f, s = (lambda: k - a), ('+', k, neg(sa))
            elif kind == '-':
                f, s = (lambda: a - b), ('+', sa, neg(sb))
            elif kind == '+':
                f, s = (lambda: a + b), ('+', sa, sb)
            elif kind == '*i':
                f, s = (lambda: k * a if j % 2 else a * k), ('*', k, sa)
            elif kind == '*':
                f, s = (lambda: a * b), ('*', sa, sb)
            elif kind == 'neg':
                f, s = (lambda: -a), neg(sa)
            elif kind == '^':
                if not large(sa):
                    continue
                f, s = (lambda: num.make_exp(base, a)), ('^', base, sa)
            elif kind == 'geo':   # what multiplying rules do: a*b**n + k(1 + b + ... + b**(n-1))
                if not large(sb):
                    continue
                k = abs(k)

                def f():
                    e = num.make_exp(base, b)
                    return a * e + k * (1 + ((e - base) // (base - 1)))
                e = ('^', base, sb)
                s = ('+', ('*', sa, e), ('*', k, ('/', ('+', e, -1), base - 1) if base > 2 else ('+', e, -1)))
            elif kind in ('//', 'div', '//i'):
                if kind == '//':
                    ds = [d for d in range(2, 17) if numref.residue(sa, d) == 0]
                    if not ds:
                        continue
                    d = ds[j % len(ds)]
                    f, s = (lambda: a // d), ('/', sa, d)
                elif kind == 'div':   # quotient of a divmod
                    d = abs(k) + 1
                    m = numref.residue(sa, d)
                    f, s = (lambda: divmod(a, d)), ('/', ('+', sa, -m), d)
                else:
                    d = base ** (1 + j % 4)
                    if numref.residue(sa, d):
                        continue
                    f, s = (lambda: a // d), ('/', sa, d)
        except TooBig:
            continue
        try:
            r = f()
        except REFUSE as err:
            if on_refuse:
                on_refuse(kind, err)
            continue
        if kind == 'div':
            r, rem = r
            if rem != m:
                yield [*op, 'rem', rem, m], None, None
                continue
        yield op, r, s
        if isinstance(r, int):
            continue
        vals.append((r, s))
        if kind == '*' or sa in products or kind in ('+', '-', 'geo') and sb in products:
            products.add(s)


def shrink_ops(case):
    ops = case['ops']
    n = len(ops)
    k = n
    while k:
        for i in range(0, n, k):
            rest = ops[:i] + ops[i + k:]
            if rest and rest[0][0] == 'exp':
                yield {**case, 'ops': rest}
        k //= 2
    for i, op in enumerate(ops):
        if op[0] != 'exp':
            for q in range(3):
                if op[1] != q:
                    yield {**case, 'ops': ops[:i] + [[op[0], q, *op[2:]]] + ops[i + 1:]}
                if op[2] != q:
                    yield {**case, 'ops': ops[:i] + [[*op[:2], q, op[3]]] + ops[i + 1:]}
            for q in (1, 2):
                if abs(op[3]) > q:
                    yield {**case, 'ops': ops[:i] + [[*op[:3], q]] + ops[i + 1:]}
        else:
            low = 3000 if op[1] >= 1000 else 40
            if op[1] > low:
                yield {**case, 'ops': ops[:i] + [['exp', low]] + ops[i + 1:]}
