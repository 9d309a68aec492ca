"""Inferred rules replayed on the observations they were inferred from."""
import bridge
import numgen
import numref
from common import Part, Skip, Violation
from numref import Inexact, TooBig

PROPERTY = 'C08'
RULE = ('four successive observations of 1-5 runs, built from constant, additive, multiply-add, growing-quotient and '
        'unrelated sequences (part ints), from operation sequences on symbolic numbers (part symbolic), with near misses '
        'in one observation; the inferred rule, applied to each observation, must give the next one, and a verdict '
        '"endless" needs that no run shrinks in any observation.  Part rust: the same for the machine-word version.  '
        'Non-trivial: a rule or a verdict came out.')
ASSUMPTIONS = ['whether a pattern is recognised is judged for constant differences, for factors above one with a remainder smaller than the '
               'first value, and for symbolic values written with the one before inside (sums and products with a plain number first, '
               'powers); a refusal of the number arithmetic is accepted']
glue = None


def prepare(tier):
    global glue
    numgen.load()
    glue = bridge.load_extra('rules')


def seq(rng, small=False):
    k = rng.random()
    a = rng.choice([rng.randrange(1, 6), rng.randrange(1, 40), rng.randrange(1, 3000 if small else 10**12)])
    if k < .12:
        out = [a] * 4
    elif k < .42:
        d = rng.choice([-3, -2, -1, -1, 1, 1, 2, 3, 7, -20, 50, rng.randrange(-10**6, 10**6)])
        a += max(0, -3 * d)
        out = [a + i * d for i in range(4)]
    elif k < .62:
        m, b = rng.choice([1, 2, 2, 3, 4, 7]), rng.choice([0, 0, 1, 2, 3, 5, 9, -1, -2])
        out = [max(a, 3)]
        for _ in range(3):
            out.append(out[-1] * m + b)
    elif k < .72:     # quotient m, remainder growing past the divisor
        m = rng.choice([2, 3, 4])
        b = rng.randrange(-a, a + 1)
        out = [a]
        for _ in range(3):
            out.append(max(1, out[-1] * m + b))
    elif k < .84:     # three halves, five thirds ...
        p, q = rng.choice([(3, 2), (5, 3), (5, 2), (5, 4), (4, 3)])
        out = [a + 5]
        b = rng.randrange(0, 5)
        for _ in range(3):
            out.append(out[-1] * p // q + b)
    else:
        out = [rng.randrange(1, rng.choice([5, 50, 10**6])) for _ in range(4)]
    if rng.random() < .15:
        i = rng.randrange(4)
        out[i] = max(1, out[i] + rng.choice([-2, -1, 1, 2]))
    if rng.random() < .05:
        out.reverse()
    return [max(1, n) for n in out]


def gen_ints(rng, small=False):
    n = rng.choice([1, 1, 2, 3, 5])
    runs = [[rng.randrange(2), seq(rng, small)] for _ in range(n)]
    if rng.random() < .6:     # something that shrinks, so that it can be a rule
        d = rng.choice([1, 1, 2, 3])
        a = rng.randrange(3 * d + 1, 3 * d + 50)
        runs.append([rng.randrange(2), [a, a - d, a - 2 * d, a - 3 * d]])
    rng.shuffle(runs)
    return {'runs': runs}


def obs_of(case):
    sides = [[c for s, c in case['runs'] if s == side] for side in (0, 1)]
    index = {(s, i): c for s in (0, 1) for i, c in enumerate(sides[s])}
    return index, [tuple(tuple(c[t] for c in sides[s]) for s in (0, 1)) for t in range(4)]


def affine(c, low=None):
    """c[k+1] = m*c[k] + r with m > 1 and r smaller than the first value?"""
    a, b, c3, d = c
    if not a < b or (c3 - b) % (b - a):
        return False
    m = (c3 - b) // (b - a)
    r = b - m * a
    return m > 1 and d == m * c3 + r and (-a if low is None else low) <= r < a and a > 1


def suspect_fits(c, p, q):
    return len({b - a * p // q for a, b in zip(c, c[1:])}) == 1


def check_ints(ctx, case):
    import tm.rules as rules
    numgen.clear()
    index, obs = obs_of(case)
    allplus = all(len({b - a for a, b in zip(c, c[1:])}) == 1 for c in index.values())
    shrinks = any(b < a for c in index.values() for a, b in zip(c, c[1:]))
    simple = all(len({b - a for a, b in zip(c, c[1:])}) == 1 or affine(c) for c in index.values())
    try:
        rule = rules.make_rule(*obs)
    except rules.InfiniteRule:
        ctx.cls('endless')
        ctx.nontrivial_case()
        if shrinks:
            raise Violation(f'{obs}: called endless, but a run shrinks') from None
        return
    except rules.SuspectedRule as sus:
        ctx.cls('suspected')
        if simple:
            raise Violation(f'{obs}: every run follows n + d or m*n + r, but no rule was inferred') from None
        if not any(suspect_fits(c, *sus.args) for c in index.values() if len(set(c)) > 1):
            raise Violation(f'{obs}: said to look like {sus.args}, but no run does') from None
        return
    if rule is None:
        ctx.cls('none')
        if simple:
            raise Violation(f'{obs}: every run follows n + d or m*n + r, but no rule was inferred')
        return
    if any(affine(c) for c in index.values()):
        ctx.cls('rule with a factor')
    ctx.nontrivial_case()
    ctx.cls('rule')
    replay(obs, index, {(int(s), i): op for (s, i), op in rule.items()})
    if allplus and not shrinks:
        raise Violation(f'{obs}: nothing shrinks, but it is not called endless')


def replay(obs, index, rule):
    for p in rule:
        if p not in index:
            raise Violation(f'{obs}: rule {rule} changes a run that does not exist')
    for p, c in index.items():
        op = rule.get(p, 0)
        for a, b in zip(c, c[1:]):
            got = a + op if isinstance(op, int) else a * op[0] + op[1]
            if got != b:
                raise Violation(f'{obs}: rule {rule} takes run {p} from {a} to {got}, but {b} was observed')


def shrink_ints(case):
    for i in range(len(case['runs'])):
        yield {**case, 'runs': case['runs'][:i] + case['runs'][i + 1:]}


# -- Rust ------------------------------------------------------------------------

def gen_rust(rng):
    case = gen_ints(rng, small=rng.random() < .7)
    if rng.random() < .2:
        k = rng.randrange(len(case['runs']))
        d = rng.choice([1, -1, 5, 2**31 - 1, -2**31, 2**31, 2**31 + 1, 2**32 + 1, -2**32 - 1, 2**40])
        a = rng.randrange(1, 2**61) + max(0, -3 * d)
        case['runs'][k][1] = [a + i * d for i in range(4)]
    elif rng.random() < .1:
        k = rng.randrange(len(case['runs']))
        case['runs'][k][1] = [min(2**64 - 1, rng.choice([2**31, 2**32, 2**33]) * m + rng.randrange(3))
                              for m in (1, 2, 4, 8)]
    return case


def check_rust(ctx, case):
    if glue is None:
        raise Skip
    index, obs = obs_of(case)
    if any(n >= 2**64 for c in index.values() for n in c):
        raise Skip
    r = glue.x_make([(list(l), list(r)) for l, r in obs])
    if r is None:
        ctx.cls('none')
        if all(len({b - a for a, b in zip(c, c[1:])}) == 1 and abs(c[1] - c[0]) < 2**31 for c in index.values()):
            raise Violation(f'{obs}: every run changes by a constant, but no rule was inferred')
        if all(len({b - a for a, b in zip(c, c[1:])}) == 1 and abs(c[1] - c[0]) < 2**31 or affine(c, 0) and c[3] < 2**31
               for c in index.values()):
            raise Violation(f'{obs}: every run follows n + d or m*n + r, but no rule was inferred')
        return
    ctx.cls('rule')
    ctx.nontrivial_case()
    replay(obs, index, {(int(s), i): (a, b) if m else a for s, i, m, a, b in r})


# -- symbolic ------------------------------------------------------------------

def gen_sym(rng):
    base, ops = numgen.gen_ops(rng, rng.choice([1, 2, 4]), ('-', 'neg', 'i-', '*', '+'), plain=True)
    root = {4: 2, 8: 2, 9: 3}.get(base, base)
    runs = []
    for _ in range(rng.choice([1, 1, 2])):
        how = rng.choice(['plus', 'ops', 'ops', 'ops', 'ops'])
        if how == 'plus':
            steps = [['+', rng.choice([-3, -2, -1, 1, 2, 5])]]
        else:
            steps = []
            for _ in range(rng.choice([1, 2, 3, 4])):
                k = rng.choice(['+', '*', '**', '+', '//'])
                steps.append([k, root if k == '**' else rng.choice([2, 3, 4, root]) if k != '+' else
                              rng.choice([-3, -2, -1, 1, 2, 5])])
            if rng.random() < .6:
                steps = undo(steps, rng)
        runs.append([rng.randrange(2), rng.randrange(20), steps,
                     rng.choice([[rng.randrange(4), rng.choice([-1, 1])],
                                 [rng.randrange(1, 4), rng.choice([-1, 1]), 1]]) if rng.random() < .2 else None])
    if rng.random() < .6:
        runs.append([rng.randrange(2), -1, [20, 19, 18, 17], None])
    return {'base': base, 'ops': ops, 'runs': runs}


def undo(steps, rng):
    """x -> s(t(s^-1(x))): an increasing operation inside others, as in counts like 2**(2**n - 1) - 3"""
    inv = {'+': '+', '*': '//', '//': '*'}
    outer = steps[:rng.randrange(1, len(steps) + 1)]
    inner = rng.choice([[['+', rng.choice([1, 2, 3])]], [['*', rng.choice([2, 4])]], [['+', -1]], [['//', 2]]])
    un = []
    for k, v in reversed(outer):
        un.append(['~', v] if k == '**' else [inv[k], -v if k == '+' else v])
    return un + inner + outer


def run_steps(n, steps):
    for k, v in steps:
        if k == '+':
            n = n + v
        elif k == '*':
            n = v * n
        elif k == '//':
            if n % v:
                raise Skip
            n = n // v
        elif k == '**':
            n = numgen.num.make_exp(v, n)
        else:
            if type(n).__name__ != 'Exp' or n.base != v:
                raise Skip
            n = n.exp
        if isinstance(n, int):
            raise Skip
    return n


def positive(t):
    try:
        return numref.sign(t) > 0
    except (TooBig, Inexact):
        return False


def check_sym(ctx, case):
    import tm.rules as rules
    numgen.clear()
    vals = [r for _, r, s in numgen.run_ops(case['base'], case['ops']) if s is not None and not isinstance(r, int)]
    if not vals:
        raise Skip
    sides = [[], []]
    try:
        for s, pick, steps, miss in case['runs']:
            if pick < 0:
                sides[s].append(steps)
                continue
            c = [vals[pick % len(vals)]]
            for t in range(1, 4):
                c.append(run_steps(c[-1], steps))
                if miss and miss[2:] and miss[0] == t:   # a break after which it goes on regularly
                    c[t] = c[t] + miss[1]
                    if isinstance(c[t], int):
                        raise Skip
            if miss and not miss[2:]:
                c[miss[0]] = c[miss[0]] + miss[1]
            sides[s].append(c)
    except numgen.REFUSE:
        raise Skip from None
    trees = {(s, i): [numref.tree(n) for n in c] for s in (0, 1) for i, c in enumerate(sides[s])}
    if not all(positive(t) for c in trees.values() for t in c):
        raise Skip
    obs = [tuple(tuple(c[t] for c in sides[s]) for s in (0, 1)) for t in range(4)]
    desc = f'{[[[str(n)[:100] for n in s] for s in o] for o in obs]}'

    regular = all(written_inside(c) or constant(sides[s][i]) for (s, i), c in trees.items())

    def shrinks():
        for p, c in trees.items():
            for a, b in zip(c, c[1:]):
                try:
                    if numref.compare(b, a) < 0:
                        return p
                except (TooBig, Inexact):
                    pass
        return None
    try:
        rule = rules.make_rule(*obs)
    except rules.InfiniteRule:
        ctx.cls('endless')
        ctx.nontrivial_case()
        if (p := shrinks()) is not None:
            raise Violation(f'{desc}: called endless, but run {p} shrinks') from None
        return
    except (rules.SuspectedRule, rules.RuleLimit, *numgen.REFUSE) as err:
        ctx.cls(f'refused {type(err).__name__}')
        if regular and isinstance(err, (rules.SuspectedRule, rules.RuleLimit)):
            raise Violation(f'{desc}: each run grows by a constant or is written with its last value inside, but {err!r}') from None
        return
    if rule is None:
        ctx.cls('none')
        if regular:
            raise Violation(f'{desc}: each run grows by a constant or is written with its last value inside, but no rule was inferred')
        return
    if regular:
        ctx.cls('regular')
    ctx.cls('rule')
    ctx.nontrivial_case()
    for p, c in trees.items():
        op = rule.get(p, 0)
        for a, b in zip(c, c[1:]):
            try:
                t = means(a, op)
                if t is None:
                    continue
                ok = numref.same(t, b)
            except TooBig:
                continue
            except Inexact:
                # quotients and products of one rule may cancel
                ok = numref.same_rational(t, b)
            if ok is False:
                raise Violation(f'{desc}: rule {rule} takes run {p} from {a} to {t}, but {b} was observed')
            ctx.cls('op ' + ('plus' if isinstance(op, int) else ' '.join(k for k, _ in op[:2]) + (' ...' if len(op) > 2 else '')))


def constant(c):
    """the same difference each time, seen without comparing sizes"""
    try:
        d = [b - a for a, b in zip(c, c[1:])]
    except numgen.REFUSE:
        return False
    return all(isinstance(x, int) and x == d[0] for x in d)


def written_inside(c):
    """is each value written with the one before inside, in the same way each time, and no quotient anywhere?"""
    mark = ('here',)

    def cut(t, u):
        if t == u:
            return mark
        if not isinstance(t, tuple):
            return t
        if t[0] == '/':
            raise Skip
        if t[0] == '^':
            return ('^', t[1], cut(t[2], u))
        if not isinstance(t[1], int):
            raise Skip
        return (t[0], t[1], cut(t[2], u))
    try:
        around = [cut(b, a) for a, b in zip(c, c[1:])]
    except (Skip, RecursionError):
        return False
    return around[0] == around[1] == around[2] != mark and 'here' in repr(around[0])


def means(t, op):
    if isinstance(op, int):
        return ('+', t, op)
    for k, v in op:
        if k == '+':
            t = ('+', v, t)
        elif k == '*':
            t = ('*', v, t)
        elif k == '//':
            t = ('/', t, v)
        elif k == '**':
            t = ('^', v, t)
        else:
            from checks.c07 import power_of
            t = power_of(v, t)
            if t is None:
                return None
    return t


def shrink_sym(case):
    for i in range(len(case['runs'])):
        yield {**case, 'runs': case['runs'][:i] + case['runs'][i + 1:]}
    yield from numgen.shrink_ops(case)


def parts(tier):
    k = 1 if tier == 'quick' else 40
    return [Part('ints', 'rnd', gen_ints, check_ints, 200_000 * k, shrink=shrink_ints),
            Part('symbolic', 'rnd', gen_sym, check_sym, 100_000 * k, shrink=shrink_sym),
            Part('rust', 'rnd', gen_rust, check_rust, 120_000 * k, shrink=shrink_ints)]
