"""Closed-form rule application against one-by-one repetition."""
import bridge
import numgen
import numref
from common import Part, Skip, Violation
from numref import Inexact, TooBig

PROPERTY = 'C07'
RULE = ('random rules (sums, multiply-adds, operation sequences over 1-5 runs) on random counts.  Part ints: integer counts, '
        'repeated one application at a time (or, for sums on big counts, by exact integer arithmetic).  Part symbolic: '
        'symbolic counts and numbers of applications, results compared as integers where they can be written out and by '
        'residues otherwise.  Part ops: operation sequences against step-by-step meaning.  Part rust: the same for the '
        'machine-word version, whose counts must decline instead of wrapping.  Non-trivial: the rule was applied '
        'at least twice, or to a symbolic count.')
ASSUMPTIONS = ['multipliers are at least 2, as for every rule that is inferred',
               'a rule that refuses (limit on residues or depth) may leave the tape unfinished']
glue = None


def prepare(tier):
    global glue
    numgen.load()
    glue = bridge.load_extra('rules')


class Shelf:
    def __init__(self, counts):
        self.d = dict(counts)

    def get_count(self, index):
        return self.d[index]

    def set_count(self, index, val):
        if index not in self.d:
            raise Violation(f'wrote to run {index}')
        self.d[index] = val


# -- integers -------------------------------------------------------------------

def big_int(rng):
    return rng.choice([rng.randrange(1, 8), rng.randrange(1, 60), rng.randrange(1, 2000), rng.randrange(1, 10**6),
                       rng.randrange(1, 10**30), 2**rng.randrange(1, 70) + rng.randrange(-1, 2)])


def gen_ints(rng):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    pos = rng.sample([(s, i) for s in (0, 1) for i in range(4)], n + 1)
    mult = rng.random() < .4
    rule, counts = [], []
    dec = rng.choice([1, 1, 1, 2, 3])
    for k, (s, i) in enumerate(pos):
        c = rng.randrange(1, 60) if mult else big_int(rng)
        counts.append([s, i, max(c, 1)])
        if k == n and rng.random() < .8:
            continue      # a run the rule does not mention
        if k < dec and rng.random() < .9:
            op = -rng.choice([1, 1, 1, 2, 2, 3, 4, 5, 7, 12, 30])
            if rng.random() < .3:     # exact multiples: the remainder must not be zero
                counts[-1][2] = -op * rng.randrange(1, 40)
        elif mult and rng.random() < .7:
            m = rng.choice([2, 2, 3, 4, 5, 8])
            op = [m, rng.choice([0, 0, 1, 2, 3, 7, 20, -1, -2, -5])]
            if op[1] < 0 and counts[-1][2] * m + op[1] <= counts[-1][2]:
                counts[-1][2] += 20
        else:
            op = rng.choice([0, 1, 1, 2, 3, 5, 10, 100])
        rule.append([s, i, op])
    rng.shuffle(rule)
    return {'rule': rule, 'counts': counts}


def times_of(rule, counts):
    """largest number of applications that keeps every decreasing count positive"""
    t = [(counts[p] - 1) // -op for p, op in rule.items() if isinstance(op, int) and op < 0]
    return min(t) if t else None


def check_ints(ctx, case):
    import tm.rules as rules
    rule = {(s, i): op if isinstance(op, int) else tuple(op) for s, i, op in case['rule']}
    counts = {(s, i): n for s, i, n in case['counts']}
    numgen.clear()
    times = times_of(rule, counts)
    tape = Shelf(counts)
    try:
        got = rules.apply_rule(rule, tape)
    except (rules.RuleLimit, *numgen.REFUSE) as err:
        ctx.cls('refused')
        if all(isinstance(op, int) for op in rule.values()):
            raise Violation(f'{rule} on {counts}: refused ({err!r}) with sums only') from None
        return
    if not times:
        ctx.cls('not applicable')
        if got is not None or tape.d != counts:
            raise Violation(f'{rule} on {counts}: reported {got}, left {tape.d}; it cannot be applied')
        return
    mults = any(not isinstance(op, int) for op in rule.values())
    if mults and times > 3000:
        raise Skip
    want = dict(counts)
    if times <= 3000:
        for _ in range(times):
            for p, op in rule.items():
                want[p] = want[p] + op if isinstance(op, int) else want[p] * op[0] + op[1]
    else:
        for p, op in rule.items():
            want[p] += op * times
    if times > 1:
        ctx.nontrivial_case()
    ctx.cls(('multiplying' if mults else 'sums') + (', once' if times == 1 else ''))
    if got != times:
        raise Violation(f'{rule} on {counts}: applied {got} times instead of {times}')
    for p in want:
        try:
            v = numref.exact(numref.tree(tape.d[p]))
        except TooBig:
            continue
        except Inexact:
            v = None
        if v != want[p]:
            raise Violation(f'{rule} on {counts}, {times} times: run {p} becomes {str(tape.d[p])[:300]} '
                            f'instead of {str(want[p])[:300]}')


def shrink_ints(case):
    for i in range(len(case['rule'])):
        yield {**case, 'rule': case['rule'][:i] + case['rule'][i + 1:]}
    used = {(s, i) for s, i, _ in case['rule']}
    for k, (s, i, n) in enumerate(case['counts']):
        if (s, i) not in used:
            yield {**case, 'counts': case['counts'][:k] + case['counts'][k + 1:]}
        for m in (n // 2, n - 1):
            if 1 <= m < n:
                yield {**case, 'counts': case['counts'][:k] + [[s, i, m]] + case['counts'][k + 1:]}


# -- symbolic ------------------------------------------------------------------

def gen_sym(rng):
    base, ops = numgen.gen_ops(rng, rng.choice([1, 2, 4, 6]), ('-', 'neg', 'i-'), plain=True)
    rule = []
    for k in range(rng.choice([1, 2, 2, 3, 4])):
        if k == 0 or rng.random() < .3:
            op = -rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 9])
        elif rng.random() < .35:
            op = [rng.choice([base, base, 2, 3, 4]), rng.choice([0, 1, 2, 3, 5])]
        else:
            op = rng.choice([1, 1, 2, 3, 4, 6, 8])
        # an index into the symbolic numbers made, or an integer
        rule.append([rng.randrange(40) if k == 0 or rng.random() < .5 else -rng.randrange(1, 1000), op])
    rng.shuffle(rule)
    return {'base': base, 'ops': ops, 'rule': rule}


def positive(t):
    try:
        v = numref.value(t)
        return v > 10**6 if v is not None else numref.sign(t) > 0
    except (TooBig, Inexact):
        return False


def sym_counts(case):
    vals = []
    for _, r, s in numgen.run_ops(case['base'], case['ops']):
        if s is not None and not isinstance(r, int):
            t = numref.tree(r)
            if positive(t):
                vals.append((r, t))
    return vals


def once(t, times, op):
    if isinstance(op, int):
        return ('+', t, ('*', op, times))
    m, a = op
    e = ('^', m, times)
    geo = ('+', e, -1) if m == 2 else ('/', ('+', e, -1), m - 1)
    return ('+', ('*', t, e), ('*', a, geo))


def check_sym(ctx, case):
    import tm.rules as rules
    numgen.clear()
    vals = sym_counts(case)
    if not vals:
        raise Skip
    counts, means, rule = {}, {}, {}
    for k, (v, op) in enumerate(case['rule']):
        p = (k % 2, k // 2)
        counts[p], means[p] = vals[v % len(vals)] if v >= 0 else (-v, -v)
        rule[p] = op if isinstance(op, int) else tuple(op)
    desc = f'base {case["base"]}, rule {rule} on { {p: str(n)[:150] for p, n in counts.items()} }'
    tape = Shelf(counts)
    try:
        got = rules.apply_rule(rule, tape)
    except (rules.RuleLimit, *numgen.REFUSE):
        ctx.cls('refused')
        return
    # the number of applications
    cands = []
    try:
        for p, op in rule.items():
            if isinstance(op, int) and op < 0:
                r = (numref.residue(means[p], -op) - 1) % -op + 1
                q = ('/', ('+', means[p], -r), -op)
                v = numref.value(q)
                cands.append(q if v is None else v)
        least = cands[0] if cands else 0
        for q in cands[1:]:
            if numref.compare(q, least) < 0:
                least = q
    except (TooBig, Inexact):
        ctx.cls('order of counts undecided')
        return
    if least == 0:
        ctx.cls('not applicable')
        if got is not None or any(tape.d[p] is not counts[p] for p in counts):
            raise Violation(f'{desc}: reported {got}, left {tape.d}; it cannot be applied')
        return
    if got is None:
        raise Violation(f'{desc}: not applied')
    ctx.cls('symbolic times' if not isinstance(least, int) else 'integer times')
    ctx.nontrivial_case()
    if numref.same(numref.tree(got), least) is False:
        raise Violation(f'{desc}: applied {str(got)[:300]} times, not {str(least)[:300]}')
    for p, op in rule.items():
        want = once(means[p], least, op)
        try:
            t = numref.tree(tape.d[p])
            ok = numref.same(t, want)
        except TooBig:
            ok = None
        except Inexact:
            ok = False
        if ok is None:
            ctx.cls('result too big to judge')
        if ok is False:
            raise Violation(f'{desc}: run {p} becomes {str(tape.d[p])[:300]}, which differs from '
                            f'{str(want)[:300]}')


def shrink_sym(case):
    for i in range(len(case['rule'])):
        yield {**case, 'rule': case['rule'][:i] + case['rule'][i + 1:]}
    yield from numgen.shrink_ops(case)


# -- operation sequences ----------------------------------------------------------

def gen_ops(rng):
    base, ops = numgen.gen_ops(rng, rng.choice([1, 2, 4]), ('-', 'neg', 'i-', '*', '+'), plain=True)
    seq = []
    root = {4: 2, 8: 2, 9: 3}.get(base, base)     # as inferred: powers are kept over their root
    for _ in range(rng.choice([1, 2, 2, 3, 4, 6])):
        k = rng.choice(['+', '+', '*', '**', '~', '//'])
        seq.append([k, root if k in '~**' and k != '*' else rng.choice([2, 3, 4, 5, 8]) if k in '*//' else
                    rng.choice([-7, -4, -2, -1, 1, 2, 3, 6])])
    d = rng.choice([1, 1, 2, 3])
    return {'base': base, 'ops': ops, 'seq': seq, 'pick': rng.randrange(20),
            'dec': [d * rng.randrange(0, 6) + rng.randrange(1, d + 1), -d]}


def check_ops(ctx, case):
    import tm.rules as rules
    numgen.clear()
    vals = sym_counts(case)
    if not vals:
        raise Skip
    start, mean = vals[case['pick'] % len(vals)]
    n, d = case['dec']
    times = (n - 1) // -d
    # what the sequence means
    t = mean
    try:
        for _ in range(times):
            for k, v in case['seq']:
                if k == '+':
                    t = ('+', v, t)
                elif k == '*':
                    t = ('*', v, t)
                elif k == '//':
                    if numref.residue(t, v):
                        raise Skip       # quotients are exact in the rules that are inferred
                    t = ('/', t, v)
                elif k == '**':
                    if not positive(t):
                        raise Skip
                    t = ('^', v, t)
                else:
                    t = power_of(v, t)
                if t is None:
                    break
            if t is None:      # logarithm of what is not written as a power
                raise Skip
    except (TooBig, Inexact):
        raise Skip from None
    rule = {(0, 0): d, (1, 0): tuple(map(tuple, case['seq']))}
    tape = Shelf({(0, 0): n, (1, 0): start})
    desc = f'base {case["base"]}, rule {rule} on {n}, {str(start)[:300]}'
    try:
        got = rules.apply_rule(rule, tape)
    except (rules.RuleLimit, *numgen.REFUSE):
        ctx.cls('refused')
        return
    if got != (times or None):
        raise Violation(f'{desc}: applied {got} times instead of {times}')
    if times == 0:
        if tape.d != {(0, 0): n, (1, 0): start}:
            raise Violation(f'{desc}: changed to {tape.d}')
        return
    ctx.nontrivial_case()
    ctx.cls(f'{min(times, 5)} times')
    if tape.d[0, 0] != n + d * times:
        raise Violation(f'{desc}: the count becomes {tape.d[0, 0]}')
    try:
        ok = numref.same(numref.tree(tape.d[1, 0]), t)
    except TooBig:
        return
    except Inexact:
        ok = False
    if ok is False:
        raise Violation(f'{desc}: becomes {str(tape.d[1, 0])[:300]}, which differs from {str(t)[:300]}')


def power_of(base, t):
    """the exponent; None where t is not written as a power"""
    while isinstance(t, tuple) and t[0] == '+' and isinstance(t[1], int):
        if isinstance(t[2], tuple) and t[2][0] == '+' and isinstance(t[2][1], int):
            t = ('+', t[1] + t[2][1], t[2][2])
        elif t[1] == 0:
            t = t[2]
        else:
            break
    return t[2] if isinstance(t, tuple) and t[0] == '^' and t[1] == base else None


# -- Rust -----------------------------------------------------------------------

def word(rng):
    return rng.choice([rng.randrange(1, 8), rng.randrange(1, 100), rng.randrange(1, 10**6), rng.randrange(1, 2**64),
                       min(2**64 - 1, 2**rng.randrange(1, 65) - rng.randrange(3) or 1)]) or 1


def gen_rust(rng):
    n = rng.choice([1, 2, 2, 3, 4, 5])
    pos = rng.sample([(s, i) for s in (0, 1) for i in range(4)], n + 1)
    rule, counts = [], []
    for k, (s, i) in enumerate(pos):
        counts.append([s, i, word(rng)])
        if k == n and rng.random() < .8:
            continue
        dec = k == 0 or rng.random() < .3
        op = rng.choice([1, 1, 1, 2, 2, 3, 5, 12, 1000, 2**31 - 1])
        if dec and op < 1000 and rng.random() < .3:
            counts[-1][2] = op * rng.randrange(1, 1000)
        rule.append([s, i, -op if dec else op])
    if rng.random() < .05:
        rule = [[s, i, abs(op)] for s, i, op in rule]
    return {'rule': rule, 'counts': counts}


def check_rust(ctx, case):
    if glue is None:
        raise Skip
    rule = {(s, i): op for s, i, op in case['rule']}
    counts = {(s, i): n for s, i, n in case['counts']}
    got, after = glue.x_apply([(bool(s), i, op) for s, i, op in case['rule']],
                              [(bool(s), i, n) for s, i, n in case['counts']])
    after = {(int(s), i): n for s, i, n in after}
    times = times_of(rule, counts)
    if times:
        want = {p: n + rule.get(p, 0) * times for p, n in counts.items()}
        if any(n >= 2**64 for n in want.values()) or any(
                abs(op) * times >= 2**64 for op in rule.values()):
            ctx.cls('beyond the machine word')
            ctx.nontrivial_case()
            if got is None and after == counts:
                return    # declining is right
            if any(n >= 2**64 for n in want.values()):
                raise Violation(f'{rule} on {counts}: reported {got}, left {after}; the counts do not fit')
        else:
            ctx.nontrivial_case() if times > 1 else None
    else:
        times, want = None, counts
        ctx.cls('not applicable')
    if got != times or after != want:
        raise Violation(f'{rule} on {counts}: applied {got} times, giving {after}; should be {times} times, {want}')


def parts(tier):
    k = 1 if tier == 'quick' else 40
    return [Part('ints', 'rnd', gen_ints, check_ints, 80_000 * k, shrink=shrink_ints),
            Part('symbolic', 'rnd', gen_sym, check_sym, 30_000 * k, shrink=shrink_sym),
            Part('ops', 'rnd', gen_ops, check_ops, 30_000 * k, shrink=numgen.shrink_ops),
            Part('rust', 'rnd', gen_rust, check_rust, 40_000 * k, shrink=shrink_ints)]
