"""Symbolic arithmetic: every result denotes what ordinary arithmetic gives."""
import numgen
import numref
from common import Part, Violation
from numref import Inexact, TooBig

PROPERTY = 'C01'
RULE = ('random programs of sums, differences, negations, products, exact quotients, divmods, powers and geometric sums '
        'over one base (2-9, exponents 40 and up), run on fresh interning tables; every result is compared with the same '
        'program on plain integers - written out when it has up to 60000 bits, by residues for six large moduli computed '
        'by an independent tower evaluator otherwise.  Non-trivial: an operation with a symbolic result was judged.')
ASSUMPTIONS = ['numbers too large to write out are compared by their residues for six moduli (two primes, three prime powers, 720720)']


def prepare(tier):
    numgen.load()


def gen(rng):
    base, ops = numgen.gen_ops(rng)
    return {'base': base, 'ops': ops}


def check(ctx, case):
    numgen.load()
    numgen.clear()
    for op, r, s in numgen.run_ops(case['base'], case['ops'], lambda k, e: ctx.cls(f'refused {k}')):
        if s is None:
            raise Violation(f'base {case["base"]} {case["ops"]}: {op[0]} by {abs(op[3]) + 1}: remainder {op[-2]}, not {op[-1]}')
        try:
            ok = numref.same(numref.tree(r), s)
        except Inexact:
            ok = False
        except TooBig:
            ok = None
        if ok is None:
            ctx.cls('undecided')
            continue
        if not isinstance(r, int):
            ctx.nontrivial_case()
        ctx.cls(f'{op[0]} ' + ('exact' if numref.value(s) is not None else 'residues'))
        if not ok:
            raise Violation(f'base {case["base"]} {case["ops"]}: after {op} the result is {str(r)[:300]}, expected {str(s)[:300]}')


def parts(tier):
    k = 1 if tier == 'quick' else 50
    return [Part('ops', 'rnd', gen, check, 40_000 * k, shrink=numgen.shrink_ops)]
