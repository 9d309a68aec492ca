"""Residues of symbolic numbers against an independent tower evaluator."""
from math import gcd

import numgen
import numref
from common import Part, Violation
from numref import Inexact, TooBig

PROPERTY = 'C03'
RULE = ('tables: every power of 2 whose residue modulo 2*3**k the code looks up in a table, and every residue class below '
        '4374.  powers: each base 2-9 and modulus 1-1500 with integer exponents 1-70 and larger ones, and with symbolic '
        'exponents.  trees: random expression programs (as for C01) and moduli up to several thousand (products of small '
        'primes, 2*3**k, random), by % and divmod.  Expected residues come from modular exponentiation by totient towers; and with a modulus '
        'that shares no factor with the base a power is answered when the remainder of its exponent by the order of the base is.  '
        'Non-trivial: a remainder of a symbolic number was answered.')
ASSUMPTIONS = ['moduli above 7 billion are not tried']

# the residue classes with a table entry (inputs worth trying; any other class may be refused)
KEYS = {
    4374: (267, 296, 655, 695, 696, 870, 896, 919, 989, 1004, 1231, 1258, 1307),
    13122: (296, 919, 1231, 1258, 2354, 2447, 2462, 2765, 3183, 3571, 3611, 3612),
    39366: (919, 2447, 2765, 3571, 4670, 5632, 6836, 7986, 9979, 11102, 11931),
    118098: (2447, 3571, 5632, 6836, 27163, 29009, 30914, 34230, 36223, 38175),
    354294: (6836, 29009, 30914, 41813, 42937, 73596, 75589, 84364, 105895),
    1062882: (29009, 84364, 149012, 223993, 243032, 278009, 309792, 311785),
    3188646: (223993, 309792, 597326, 632303, 737597, 792952, 857600),
    9565938: (223993, 737597, 857600, 1660208, 1855834, 2435556, 2758067),
    28697814: (857600, 1660208, 2758067, 7114889, 8233126, 8812848),
    86093442: (2758067, 7114889, 19989476, 20792084, 27944724),
    258280326: (7114889, 27944724, 77385104, 78187712),
    774840978: (7114889, 114038166, 250374596),
    2324522934: (265395215, 766935248),
    6973568802: (1541776226,),
}


def prepare(tier):
    numgen.load()


def answer(f):
    try:
        return f()
    except numgen.REFUSE:
        return None


def judge(ctx, n, t, mod, what=''):
    try:
        want = numref.residue(t, mod)
    except (TooBig, Inexact):
        ctx.cls('undecided')
        return
    got = answer(lambda: n % mod)
    if got is None:
        ctx.cls('refused')
    else:
        ctx.cls(f'{type(n).__name__} answered')
        if not isinstance(n, int):
            ctx.nontrivial_case()
        if got != want:
            raise Violation(f'{str(n)[:500]} % {mod} is said to be {got}, not {want} {what}')
    return want


# -- the tables ----------------------------------------------------------------

def gen_tables():
    for mod, keys in KEYS.items():
        for i in range(0, len(keys), 8):
            yield {'mod': mod, 'keys': list(keys[i:i + 8])}
    for k in range(1, 8):
        mod = 2 * 3 ** k
        for i in range(0, max(1, mod // 3), 60):
            yield {'mod': mod, 'keys': list(range(i, min(i + 60, mod // 3)))}
    for mod in KEYS:
        yield {'mod': mod, 'keys': [(7919 * j * j + j) % (mod // 3) for j in range(20)]}


def check_tables(ctx, case):
    num = numgen.load()
    numgen.clear()
    mod = case['mod']
    for key in case['keys']:
        for top in (3001, 3500):
            c = (key - pow(2, top, mod // 3)) % (mod // 3)
            n = num.make_exp(2, c + num.make_exp(2, top))
            judge(ctx, n, ('^', 2, ('+', c, ('^', 2, top))), mod)


# -- powers --------------------------------------------------------------------

def gen_powers():
    for base in range(2, 10):
        for lo in range(1, 1500, 25):
            yield {'base': base, 'mods': [lo, lo + 25]}


def order(b, mod):
    k, x = 1, b % mod
    while x != 1:
        k, x = k + 1, x * b % mod
    return k


def check_powers(ctx, case):
    num = numgen.load()
    numgen.clear()
    b = case['base']
    for mod in range(*case['mods']):
        for e in [*range(1, 71), 999, 1000, 4096, 10**6 + mod, 10**12 + 7 * mod]:
            n = num.make_exp(b, e)
            got = answer(lambda: n % mod)
            if got is not None:
                ctx.nontrivial_case()
                if got != pow(b, e, mod):
                    raise Violation(f'{n} % {mod} is said to be {got}, not {pow(b, e, mod)}')
        b2, e2 = 2 + mod % 8, 100 + mod % 37
        for c in (0, 1, 2, 5, mod % 31, mod):
            exp = c + num.make_exp(b2, e2)
            n = num.make_exp(b, exp)
            judge(ctx, n, ('^', b, ('+', c, ('^', b2, e2))), mod)
            # no factor in common: the answer depends on the remainder of the exponent alone
            if 1 < mod and gcd(b, mod) == 1 and answer(lambda: n % mod) is None and answer(lambda: exp % order(b, mod)) is not None:
                raise Violation(f'{n} % {mod} is refused, though {exp} % {order(b, mod)} is answered')


# -- trees ---------------------------------------------------------------------

SMALL = (2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13)


def mods(rng):
    out = []
    for _ in range(6):
        k = rng.random()
        if k < .3:
            m = rng.randrange(1, 40)
        elif k < .6:
            m = 1
            for _ in range(rng.randrange(1, 6)):
                m *= rng.choice(SMALL)
            m = m if m < 10_000 else 30
        elif k < .75:
            m = 2 * 3 ** rng.randrange(0, 8)
        elif k < .85:
            m = 2 ** rng.randrange(0, 13)
        else:
            m = rng.randrange(1, 5000)
        out.append(m)
    return out


def gen(rng):
    base, ops = numgen.gen_ops(rng)
    return {'base': base, 'ops': ops, 'mods': mods(rng)}


def check(ctx, case):
    numgen.load()
    numgen.clear()
    vals = []
    for _, r, s in numgen.run_ops(case['base'], case['ops']):
        if s is not None and not isinstance(r, int):
            vals.append(r)
    for n in vals[-6:]:
        t = numref.tree(n)
        for mod in case['mods']:
            want = judge(ctx, n, t, mod)
            if want is None:
                continue
            got = answer(lambda: divmod(n, mod))
            if got is None:
                continue
            q, r = got
            if r != want:
                raise Violation(f'divmod({str(n)[:500]}, {mod}): remainder {r}, not {want}')
            try:
                ok = numref.same(('+', ('*', mod, numref.tree(q)), r), t)
            except Inexact:
                ok = False
            except TooBig:
                ok = None
            if ok is False:
                raise Violation(f'divmod({str(n)[:500]}, {mod}): quotient {str(q)[:500]}')


def shrink(case):
    if len(case['mods']) > 1:
        for m in case['mods']:
            yield {**case, 'mods': [m]}
    yield from numgen.shrink_ops(case)


def parts(tier):
    k = 1 if tier == 'quick' else 40
    return [Part('tables', 'enum', gen_tables, check_tables, 0),
            Part('powers', 'enum', gen_powers, check_powers, 0),
            Part('trees', 'rnd', gen, check, 14_000 * k, shrink=shrink)]
