"""Canonical form, containment, printing."""
import re
from math import log10

import numgen
import numref
from common import Part, Violation
from numref import Inexact, TooBig

PROPERTY = 'C04'
RULE = ('identity: results of two random expression programs built after one another on the same tables: two of them are '
        'equal (==, hash, dictionary key) exactly when their expression trees are the same, and building one '
        'of the programs again, on fresh tables or after the other one, gives the same trees.  printing: str() of each '
        'result is read by an independent parser and must give back its tree (integers from 10**12 by their rounded '
        'logarithm); int(), and the printed form evaluated, must give the exact value where it can be written out; '
        'estimate() must be of the right size.  containment: an operand on the right side is found, and whatever is found '
        'is a subexpression.  Non-trivial: a symbolic number was judged.')
ASSUMPTIONS = ['estimate() is compared within one decimal digit per leaf']


def prepare(tier):
    numgen.load()


def gen(rng):
    base, ops = numgen.gen_ops(rng)
    _, ops2 = numgen.gen_ops(rng)
    if rng.random() < .5:
        ops2 = ops[:rng.randrange(1, len(ops) + 1)] + ops2[1:]
        ops2 = [o for o in ops2 if o[0] == 'exp'] + [o for o in ops2 if o[0] != 'exp']
    # the same kind of leaves in both
    big = [o[1] for o in ops if o[0] == 'exp']
    ops2 = [[o[0], big[i % len(big)]] if o[0] == 'exp' else o for i, o in enumerate(ops2)]
    return {'base': base, 'ops': ops, 'ops2': ops2}


def build(case, name):
    return [r for _, r, s in numgen.run_ops(case['base'], case[name]) if s is not None]


def check_identity(ctx, case):
    numgen.load()
    numgen.clear()
    one = build(case, 'ops')
    trees = [numref.tree(r) for r in one]
    two = build(case, 'ops2')
    trees2 = [numref.tree(r) for r in two]
    vals = list(zip(one + two, trees + trees2))[-24:]
    for a, ta in vals:
        d = {a: 1}
        for b, tb in vals:
            eq = ta == tb
            if (a == b) != eq or (a != b) == eq or (b in d) != eq or eq and hash(a) != hash(b):
                raise Violation(f'{str(a)[:300]} and {str(b)[:300]}: == says {a == b}, the expressions are '
                                + ('the same' if eq else 'different'))
            if not isinstance(a, int):
                ctx.nontrivial_case()
                ctx.cls('the same' if eq else 'different')
    again = [numref.tree(r) for r in build(case, 'ops')]
    if again != trees:
        raise Violation(f'built once more after the other program: {again} and before {trees}'[:1500])
    if any(a is not b for a, b in zip(one, build(case, 'ops')) if not isinstance(a, int)):
        raise Violation(f'built once more: a different object of the same expression in {str(one)[:600]}')
    numgen.clear()
    again = [numref.tree(r) for r in build(case, 'ops2')]
    if again != trees2:
        raise Violation(f'built on fresh tables: {again} and before {trees2}'[:1500])


# -- printing -----------------------------------------------------------------

TOKEN = re.compile(r'\(~10\^(\d+)\)|(\?\?\?)|(\d+)|(\*\*|//|[-+*()])')
WILD = object()


def read(text):
    toks, pos = [], 0
    while pos < len(text):
        if text[pos] == ' ':
            pos += 1
            continue
        m = TOKEN.match(text, pos)
        if not m:
            raise ValueError(f'cannot read {text[pos:pos + 20]!r}')
        pos = m.end()
        toks.append(('~', int(m[1])) if m[1] else ('?',) if m[2] else int(m[3]) if m[3] else m[4])
    at = 0

    def atom():
        nonlocal at
        t = toks[at]
        at += 1
        if isinstance(t, (int, tuple)):
            return t
        if t == '-':
            x = atom()
            return -x if isinstance(x, int) else ('~-', x[1]) if x[0] == '~' else ('*', -1, x)
        if t != '(':
            raise ValueError(f'unexpected {t}')
        x = atom()
        if toks[at] == ')':
            at += 1
            return x
        op = toks[at]
        at += 1
        y = atom()
        if toks[at] != ')':
            raise ValueError(f'unexpected {toks[at]}')
        at += 1
        return ({'+': '+', '*': '*', '//': '/', '**': '^'}[op], x, y)
    x = atom()
    if at != len(toks):
        raise ValueError('more text')
    return x


def leaves(t):
    return 1 if isinstance(t, int) else sum(leaves(x) for x in t[1:])


def fits(p, t) -> bool:
    if isinstance(p, int) or isinstance(t, int):
        if isinstance(p, tuple) and p[0] in ('~', '~-') and isinstance(t, int):
            return abs(t) >= 10**12 and (t < 0) == (p[0] == '~-') and abs(p[1] - log10(abs(t))) < .51
        return p == t and abs(t) < 10**12
    if p[0] == '?':
        return leaves(t) > 100
    return p[0] == t[0] and fits(p[1], t[1]) and fits(p[2], t[2])


def subs(t, out):
    out.add(t)
    if not isinstance(t, int):
        for x in t[1:]:
            subs(x, out)
    return out


def check_printing(ctx, case):
    num = numgen.load()
    numgen.clear()
    vals = []
    for _, r, s in numgen.run_ops(case['base'], case['ops']):
        if s is not None:
            vals.append((r, numref.tree(r)))
    for n, t in vals:
        if isinstance(n, int):
            got = num.show_number(n)
            if got != str(n) if abs(n) < 10**12 else not fits(read(got), n):
                raise Violation(f'{n} is shown as {got}')
            continue
        ctx.nontrivial_case()
        text = str(n)
        if leaves(t) <= 5000:
            try:
                ok = fits(read(text), t)
            except (ValueError, IndexError, KeyError) as err:
                raise Violation(f'{t} is printed as {text[:500]}: {err}') from None
            if not ok:
                raise Violation(f'{t} is printed as {text[:500]}')
            shown = num.show_number(n)
            if shown != text and leaves(t) <= 80:
                raise Violation(f'{text[:500]} is shown as {shown[:300]}')
        try:
            v = numref.value(t)
        except Inexact:
            v = None
        if v is not None and v.bit_length() < 20_000:
            ctx.cls('written out')
            if int(n) != v:
                raise Violation(f'int({text[:500]}) is {int(n)}, not {v}')
            if '~' not in text and '?' not in text and eval(text) != v:  # pylint: disable = eval-used
                raise Violation(f'{text[:500]} evaluates to something else than {v}')
        kids = subs(t, set())
        for m, tm in vals:
            if isinstance(m, int):
                continue
            inside = m in n
            if inside and tm not in kids:
                raise Violation(f'{str(m)[:300]} is said to be in {text[:300]}')
            x = t
            while not isinstance(x, int) and x != tm:
                x = x[1] if x[0] == '/' else x[2]
            if x == tm:
                ctx.cls('contained')
                if not inside:
                    raise Violation(f'{str(m)[:300]} is said not to be in {text[:300]}')


def gen_printing(rng):
    base, ops = numgen.gen_ops(rng)
    if rng.random() < .4:    # numbers that can be written out
        ops = [['exp', 40 + o[1] % 900] if o[0] == 'exp' else o for o in ops if o[0] not in ('^', 'geo', '*')]
    return {'base': base, 'ops': ops}


# -- size -----------------------------------------------------------------------

def gen_size(rng):
    base, ops = numgen.gen_ops(rng, None, ('-', 'neg', 'i-', '-i'), plain=True)
    return {'base': base, 'ops': [o if o[0] != '^' or rng.random() < .3 else ['+i', *o[1:]] for o in ops]}


def check_size(ctx, case):
    num = numgen.load()
    numgen.clear()
    for _, n, s in numgen.run_ops(case['base'], case['ops']):
        if s is None or isinstance(n, int):
            continue
        t = numref.tree(n)
        try:
            v = numref.value(t)
            if v is None:
                m = numref.mag(t)
                if m.k != 1 or m.hi > 1e9:
                    ctx.cls('more than a billion digits')
                    continue
                digits = m.hi * log10(2)
            else:
                digits = (v.bit_length() - .5) * log10(2) if v > 0 else 0
        except (TooBig, Inexact):
            continue
        if digits < 5:
            continue
        try:
            est = n.estimate()
        except numgen.REFUSE:
            continue
        ctx.nontrivial_case()
        if isinstance(est, num.Exp) and isinstance(est.exp, int) and est.base == 10:
            ctx.cls('digits')
            if abs(est.exp - digits) > 2 + leaves(t) + 1e-9 * digits:
                raise Violation(f'{str(n)[:400]}, a number of about {digits:.0f} digits, is estimated as {est}')
        else:
            ctx.cls('as a tower')


def shrink(case):
    if 'ops2' in case and len(case['ops2']) > 1:
        yield {**case, 'ops2': case['ops2'][:1]}
        for i in range(1, len(case['ops2'])):
            yield {**case, 'ops2': case['ops2'][:i] + case['ops2'][i + 1:]}
    yield from numgen.shrink_ops(case)


def parts(tier):
    k = 1 if tier == 'quick' else 40
    return [Part('identity', 'rnd', gen, check_identity, 10_000 * k, shrink=shrink),
            Part('printing', 'rnd', gen_printing, check_printing, 16_000 * k, shrink=shrink),
            Part('size', 'rnd', gen_size, check_size, 6_000 * k, shrink=shrink)]
