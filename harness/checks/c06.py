"""Footprints of simulated stretches: perturb everything outside them."""
import random

import bridge
import progs
import ref
from checks.c05 import rand_span, spans
from common import Part, Skip, Violation

PROPERTY = 'C06'
RULE = ('part footprint: a random canonical tape and a random history of steps (with skips), '
        'count reads and count writes on the instrumented tape; then the parts of the tape outside the recorded '
        'depth (and, where no edge was recorded, anything beyond) are replaced at random and the '
        'history replayed: every scanned colour, step count and count read must be the same, and '
        'the instrumented tape must stay equal to a plain tape.  Part rules: every rule the '
        'accelerated simulator proves on a random program, set up on fresh tapes '
        'that agree with the recorded signature, must hold step by step on the base machine.  '
        'Non-trivial: something was replaced / the rule was reached by simulation.')
ASSUMPTIONS = ['part rules looks only at rules proved without other rules, with runs long enough for '
               'one application (counts above 12 plus the decrease)',
               'part rust-fired does not judge an application on which a run that the rule leaves alone has another '
               'length (2 or more) than at its earlier applications']


def gen(rng):
    C = rng.choice([2, 2, 3, 3, 4])
    scan = rng.randrange(C)
    case = {'C': C, 'l': rand_span(rng, scan, C, False), 'scan': scan, 'r': rand_span(rng, scan, C, False),
            'ops': [], 'seed': rng.getrandbits(32)}
    if rng.random() < .3:
        case['l'] += [[C + 1, 1], [1, 2]]
        case['r'] += [[C + 1, 2], [1, 1]]
    sk = rng.random()
    sh = rng.random() < .5
    sweep = rng.random() < .6
    for _ in range(rng.choice([1, 2, 3, 4, 6, 10, 20])):
        k = rng.random()
        if k < .12:
            case['ops'].append(['get', int(rng.random() < .5), rng.randrange(4)])
        elif k < .17:
            case['ops'].append(['set', int(rng.random() < .5), rng.randrange(4), rng.choice([1, 2, 5])])
        else:
            if sweep:
                if rng.random() < .3:
                    sh = not sh
            else:
                sh = rng.random() < .5
            # colour -1: the colour on top of the side pushed to
            case['ops'].append(['step', int(sh), rng.choice([-1, *range(C)]), int(rng.random() < sk)])
    return case


def replay(t, ops, plain):
    """run ops on an instrumented tape; what it saw"""
    seen = []
    used = []
    old = [list(t.tape.lspan), list(t.tape.rspan)]   # runs still in place
    for op in ops:
        spans_ = (t.tape.lspan, t.tape.rspan)
        for side in (0, 1):
            old[side] = [b for b in old[side] if any(b is x for x in spans_[side])]
        if op[0] == 'step':
            _, sh, color, skip = op
            if color == -1:
                push = spans_[1 - sh]
                color = push[0].color if push else 0
            used.append(['step', sh, color, skip])
            t.step(bool(sh), color, bool(skip))
            if plain is not None:
                plain.step(bool(sh), color, bool(skip))
        else:
            _, side, i, *v = op
            if plain is not None and (i >= len(spans_[side]) or not any(
                    spans_[side][i] is b for b in old[side])):
                continue
            used.append(op)
            seen.append(t.get_count((side, i)))
            if v:
                t.set_count((side, i), v[0])
                if plain is not None:
                    plain.set_count((side, i), v[0])
        seen.append(t.scan)
        if plain is not None and (spans(plain) != spans(t.tape) or t.signature != plain.signature
                                  or t.scan != plain.scan):
            raise Violation(f'instrumented tape {spans(t.tape)}, plain tape {spans(plain)}')
    return seen, used


def check(ctx, case):
    from tm.tape import Block, EnumTape, Tape

    def mk(l, scan, r):
        return Tape([Block(c, n) for c, n in l], scan, [Block(c, n) for c, n in r])
    l, scan, r = case['l'], case['scan'], case['r']
    base = mk(l, scan, r)
    et = base.to_enum()
    seen, used = replay(et, case['ops'], mk(l, scan, r))
    if spans(base) != (l, scan, r):
        raise Violation('the tape under study was changed by the replay')
    off, edges = et.offsets, et.edges
    if not (0 <= off[0] <= len(l) and 0 <= off[1] <= len(r)):
        raise Violation(f'depth {off} beyond the tape')
    rng = random.Random(case['seed'])
    for _ in range(4):
        new = []
        for side, span in enumerate((l, r)):
            k = off[side]
            if edges[side]:
                new.append(span)
                continue
            tail = rand_span(rng, None, case['C'], False) if rng.random() < .8 else []
            while tail and k and tail[0][0] == span[k - 1][0]:
                tail = tail[1:]
            if k and not tail and span[k - 1][0] == 0:
                tail = [[1, 1]]
            new.append(span[:k] + tail)
        if new == [l, r]:
            continue
        ctx.nontrivial_case()
        ctx.cls('edge' if any(edges) else 'no edge')
        t2 = EnumTape(mk(new[0], scan, new[1]))
        try:
            seen2, _ = replay(t2, used, None)
        except IndexError:
            seen2 = 'out of tape'
        if seen2 != seen:
            raise Violation(
                f'tape {(l, scan, r)} ops {used}: recorded depth {off} edges {edges}, but on '
                f'{(new[0], scan, new[1])} the stretch sees {seen2} instead of {seen}')


def shrink(case):
    ops = case['ops']
    k = len(ops)
    while k:
        for i in range(0, len(ops), k):
            yield {**case, 'ops': ops[:i] + ops[i + k:]}
        k //= 2
    for s in 'lr':
        if case[s]:
            yield {**case, s: case[s][1:]}
            for i, (c, v) in enumerate(case[s]):
                if v > 1:
                    q = [list(b) for b in case[s]]
                    q[i][1] = v - 1
                    yield {**case, s: q}


# -- proved rules -------------------------------------------------------------

def gen_rule(rng):
    return {'prog': progs.rich_prog(rng), 'lim': rng.choice([200, 400, 800]), 'seed': rng.getrandbits(32)}


def proofs(prog, lim, cap=6):
    """(prover, [(state, tape, rule)]): the tapes on which rules were first
    returned in a run of the accelerated simulator"""
    import tm.machine as tmm
    found, seen = [], set()
    real = tmm.Prover

    class Spy(real):
        def try_rule(self, cycle, state, tape):
            before = spans(tape)
            before = tuple([list(map(tuple, s)) if isinstance(s, list) else s for s in before])
            rule = super().try_rule(cycle, state, tape)
            if rule is not None and id(rule) not in seen and len(found) < cap:
                seen.add(id(rule))
                found.append((state, before, rule))
            return rule
    tmm.Prover = Spy
    try:
        m = tmm.Machine(prog).run(sim_lim=lim)
    finally:
        tmm.Prover = real
    return m.prover, found


def apply_once(rule, spans_):
    after = [[list(b) for b in s] for s in spans_]
    for (side, i), d in rule.items():
        b = after[side][i]
        if isinstance(d, int):
            b[1] += d
        elif isinstance(d[0], int):
            b[1] = b[1] * d[0] + d[1]
        else:
            return None
        if b[1] <= 0:
            return None
    if sum(n for s in after for _, n in s) > 10**5:
        return None
    return after


def check_rules(ctx, case):
    bridge.load_rust()
    from tm.tape import Block, Tape
    prog = case['prog']
    rng = random.Random(case['seed'])
    try:
        prover, found = proofs(prog, case['lim'])
    except (RecursionError, NotImplementedError, OverflowError, AssertionError):  # numbers too big
        raise Skip from None
    for state, (l, scan, r), rule in found:
        if not all(isinstance(n, int) for _, n in l + r) or sum(n for _, n in l + r) > 10**5:
            ctx.cls('tape too large')
            continue
        after = apply_once(rule, (l, r))
        if after is None:
            ctx.cls('rule too large')
            continue

        def steps(l, r, after):
            a, ah = ref.flat(l, scan, r)
            b, bh = ref.flat(after[0], scan, after[1])
            return ref.follow(prog, state, a, ah, state, b, bh, 10**6)
        n = steps(l, r, after)
        if n == -2:
            raise Violation(f'{prog!r}: rule {rule} proved on {(l, scan, r)} in state {state}, but the '
                            'machine reaches an undefined slot instead')
        if n < 0:
            ctx.cls('own tape: out of steps')
            continue
        for _ in range(12):
            new = []
            for span in (l, r):
                k = rng.randrange(len(span) + 1)
                if rng.random() < .3:
                    new.append(list(span))
                    continue
                tail = [tuple(b) for b in rand_span(rng, None, 3, False)] if rng.random() < .7 else []
                while tail and k and tail[0][0] == span[k - 1][0]:
                    tail = tail[1:]
                if k and not tail and span[k - 1][0] == 0:
                    tail = [(1, 1)]
                if tail and k < len(span) and tail[0][0] == span[k][0] and (tail[0][1] == 1) == (span[k][1] == 1):
                    tail[0] = (tail[0][0], 2 if tail[0][1] == 1 else 1)
                new.append(list(span[:k]) + tail)
            if new == [l, r]:
                continue
            t2 = Tape([Block(*b) for b in new[0]], scan, [Block(*b) for b in new[1]])
            if prover.get_rule(state, t2) is not rule:
                ctx.cls('not covered')
                continue
            after2 = apply_once(rule, new)
            if after2 is None:
                continue
            n2 = steps(*new, after2)
            ctx.cls('covered')
            ctx.nontrivial_case()
            if n2 != n:
                raise Violation(
                    f'{prog!r}: rule {rule} proved in state {state} on {(l, scan, r)} ({n} steps) is taken to hold on '
                    f'{(new[0], scan, new[1])}, where the machine '
                    + (f'needs {n2} steps' if n2 > 0 else 'never gets to its result'))


# -- the Rust side ---------------------------------------------------------------

glue = {}


def prepare(tier):
    for kind in ('tape', 'trace'):
        glue[kind] = bridge.load_extra(kind)
    ref.lib()
    progs.corpus(), progs.rich()


def rust_ops(used):
    return [(0, bool(o[1]), o[2], bool(o[3]), 0) if o[0] == 'step' else
            (2 if len(o) > 3 else 1, bool(o[1]), o[2], False, o[3] if len(o) > 3 else 0) for o in used]


def check_rust(ctx, case):
    """as footprint, on the Rust tape; which runs may be read is decided on the Python one"""
    from tm.tape import Block, EnumTape, Tape
    if glue['tape'] is None:
        raise Skip
    foot = glue['tape'].x_footprint

    def mk(l, scan, r):
        return Tape([Block(c, n) for c, n in l], scan, [Block(c, n) for c, n in r])
    l, scan, r = case['l'], case['scan'], case['r']
    try:
        _, used = replay(mk(l, scan, r).to_enum(), case['ops'], mk(l, scan, r))
    except Violation:
        raise Skip from None
    ops = rust_ops(used)

    def go(l, r):
        cells, head = ref.flat(l, scan, r)
        return foot(list(cells), head, ops)
    (bl, bs, br), seen, off, lim = go(l, r)
    if ([list(b) for b in bl], bs, [list(b) for b in br]) != (l, scan, r):
        raise Skip
    if not (0 <= off[0] <= len(l) and 0 <= off[1] <= len(r)):
        raise Violation(f'depth {off} beyond the tape')
    rng = random.Random(case['seed'])
    for _ in range(4):
        new = []
        for side, span in enumerate((l, r)):
            k = off[side]
            if lim[side]:
                new.append(span)
                continue
            tail = rand_span(rng, None, case['C'], False) if rng.random() < .8 else []
            while tail and k and tail[0][0] == span[k - 1][0]:
                tail = tail[1:]
            if k and not tail and span[k - 1][0] == 0:
                tail = [[1, 1]]
            new.append(span[:k] + tail)
        if new == [l, r]:
            continue
        ctx.nontrivial_case()
        _, seen2, _, _ = go(*new)
        if seen2 != seen:
            raise Violation(
                f'tape {(l, scan, r)} ops {used}: recorded depth {off} limits {lim}, but on '
                f'{(new[0], scan, new[1])} the stretch sees {seen2} instead of {seen}')


def check_fired(ctx, case):
    """every rule the fast runner applies must hold on the tape it is applied to"""
    if glue['trace'] is None:
        raise Skip
    prog = case['prog']
    try:
        found = glue['trace'].x_trace(prog, case['lim'], 60, 2000)
    except bridge.PanicException as err:
        if 'overflow' in str(err):
            raise Skip from None
        raise
    budget = 10_000_000
    fixed = {}      # rule -> the runs it left alone at its valid applications
    for state, (l, scan, r), times, (l2, scan2, r2) in found:
        size = sum(n for _, n in l + r)
        diffs = tuple((side, i, (y[1] - x[1]) / times) for side, (x_, y_) in enumerate(((l, l2), (r, r2)))
                      for i, (x, y) in enumerate(zip(x_, y_)) if x[1] != y[1])
        rule = (state, scan, diffs)
        rest = [[None if any(d[:2] == (side, i) for d in diffs) else tuple(b) for i, b in enumerate(s)]
                for side, s in enumerate((l, r))]
        # a run of the proof that the rule does not change is taken to be "long
        # enough" whatever its length: outside the property's domain
        other_len = rule in fixed and all(
            any(x and y and x[0] == y[0] and x[1] != y[1] and min(x[1], y[1]) > 1
                for a, b in zip(rest, old) for x, y in zip(a, b)) for old in fixed[rule])
        if size + sum(n for _, n in l2 + r2) > 4000:
            ctx.cls('tape too large')
            continue
        a, ah = ref.flat(l, scan, r)
        b, bh = ref.flat(l2, scan2, r2)
        n = ref.follow(prog, state, a, ah, state, b, bh, 5_000_000 if size <= 30 else 300_000)
        if n == -1 and size > 30:
            ctx.cls('too long to follow')
            budget -= 300_000
        elif n < 0 and other_len:
            ctx.cls('fixed run of another length')
        elif n < 0:
            raise Violation(f'{prog!r}: the rule applied {times} times in state {state} on {(l, scan, r)} gives '
                            f'{(l2, scan2, r2)}, which the machine does not reach')
        else:
            ctx.nontrivial_case()
            ctx.cls('followed')
            fixed.setdefault(rule, []).append(rest)
            budget -= n
        if budget <= 0:
            break


def parts(tier):
    n = 60_000 if tier == 'quick' else 3_000_000
    m = 8_000 if tier == 'quick' else 400_000
    return [Part('footprint', 'rnd', gen, check, n, shrink=shrink),
            Part('rules', 'rnd', gen_rule, check_rules, m, shrink=progs.shrink_case(nums=('lim',))),
            Part('rust-footprint', 'rnd', gen, check_rust, n, shrink=shrink),
            Part('rust-fired', 'rnd', gen_rule, check_fired, m, shrink=progs.shrink_case(nums=('lim',)))]
