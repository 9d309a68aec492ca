"""The accelerated simulator (Python) against cell-by-cell simulation."""
import contextlib
import io
import re

import bridge
import progs
import ref
from common import Part, Skip, Violation

PROPERTY = 'C09'
RULE = ('programs: published ones, ones known to make rules fire, mutations of both, and random tree-normal-form '
        'tables, with random simulation limits.  Part ending: every reported undefined slot or spin-out, with its '
        'marks, steps and blank-tape events, against a one-cell-at-a-time simulator.  Part trace: '
        'the configurations shown while running are parsed and each must be reached from the '
        'one before by the base machine.  Part huge: reported endings too long to simulate are compared '
        'between the two accelerated simulators.  Non-trivial: a rule was applied, or (ending) the run '
        'ended after 10 or more steps.')
ASSUMPTIONS = ['steps and blank events are compared only in runs without rule applications, where they are exact',
               'a trace is followed as long as the shown counts are literal and a jump costs at most 2 million steps']

rs = None
REFUSE = (RecursionError, NotImplementedError, OverflowError)
KIND = {ref.LIMIT: 'limit', ref.UNDEF: 'undfnd', ref.SPIN: 'spnout', ref.BLANKREC: 'infrul'}
CATS = ('cfglim', 'infrul', 'limrul', 'spnout', 'undfnd', 'xlimit')


def prepare(tier):
    global rs
    rs = bridge.load_rust()
    ref.lib()
    progs.corpus(), progs.rich()
    import tm.machine  # noqa: F401


def gen(rng):
    prog = progs.rich_prog(rng) if rng.random() < .6 else progs.any_prog(rng, w=(5, 4, 2))
    return {'prog': prog, 'lim': rng.choice([1, 2, 5, 20, 50, 100, 200, 300, 500, rng.randrange(1, 1000)])}


def machine(prog, lim, **kw):
    """a finished run, its one category"""
    from tm.machine import Machine
    m = Machine(prog, **kw)
    refusing(m, lambda: m.run(sim_lim=lim))
    return m, category(m)


def refusing(m, go):
    """giving up with an exception is no report; it may happen once counts
    are too big to write out"""
    try:
        go()
    except REFUSE:
        raise Skip from None
    except AssertionError:
        if all(isinstance(n, int) for side in m.tape.counts for n in side):
            raise
        raise Skip from None


def category(m):
    cats = [c for c in CATS if getattr(m, c) is not None]
    if len(cats) != 1:
        raise Violation(f'the run reports {cats or "no ending"}')
    return cats[0]


def check_ending(ctx, case):
    prog, lim = case['prog'], case['lim']
    m, kind = machine(prog, lim)
    want = ref.run(prog, max_steps=300_000, stop_blank=True)
    real = KIND.get(want.status, 'limit')
    if real == 'limit' and kind in ('undfnd', 'spnout'):
        want = ref.run(prog, max_steps=50_000_000, stop_blank=True)
        real = KIND.get(want.status, 'limit')
    rules = m.rulapp != 0
    ctx.cls(f'{kind}/{real}' + ('/rules' if rules else ''))

    def bad(msg):
        raise Violation(f'{prog!r} lim {lim}: {msg}; reported {kind} steps {m.steps} marks {m.marks} undfnd {m.undfnd} '
                        f'rulapp {m.rulapp} blanks {m.blanks}; simulated {want}')
    if m.simple_termination != (m.undfnd[0] if kind == 'undfnd' else m.spnout):
        bad(f'simple termination {m.simple_termination}')
    if kind in ('undfnd', 'spnout'):
        if want.steps >= 10 or rules:
            ctx.nontrivial_case()
        if real == 'limit':
            if not rules:
                bad('the machine does not end that soon')
            return
        if real != kind:
            bad('wrong ending')
        if m.marks != want.marks:
            bad('wrong marks')
        if kind == 'undfnd' and tuple(m.undfnd[1]) != (want.state, want.color):
            bad('wrong slot')
        if not rules:
            if m.steps != want.steps or m.simple_termination != want.steps:
                bad('wrong steps')
            if dict(m.blanks) != want.blanks:
                bad('wrong blank events')
            if m.cycles != want.cycles:
                bad('wrong cycles')
        else:
            if m.steps not in (-1, want.steps):
                bad('wrong steps')
            if any(want.blanks.get(st) != n and (n != -1 or st not in want.blanks) for st, n in m.blanks.items()):
                bad('wrong blank events')
    elif kind == 'xlimit' and not rules:
        short = ref.run(prog, max_steps=10**7, max_cycles=lim, stop_blank=True)
        if short.status != ref.LIMIT:
            bad(f'the run ended within the limit: {short}')
        if short.steps < 10**7 and (m.steps, m.marks, dict(m.blanks)) != (short.steps, short.marks, short.blanks):
            bad(f'wrong state of affairs at the limit: {short}')
    elif kind == 'infrul' and not rules and real == 'infrul' and m.blanks == want.blanks and m.steps > want.steps:
        bad('wrong steps')


BLK = re.compile(r'^\[?(\d+)\]?(?:\^(.+))?$')


def parse_trace(text):
    out = []
    for line in text.splitlines():
        try:
            cyc, step, slot, tape = line.split(' | ')
            step = None if step == '...' else int(step)
            int(slot[1:])
            if int(cyc) != len(out):
                raise Violation(f'line {len(out) + 1} of the displayed run says cycle {int(cyc)}: {line[:200]}')
        except ValueError:
            raise Skip() from None  # shown in another way
        left, right, scan = [], [], None
        for tok in tape.split(' '):
            mt = BLK.match(tok)
            if not mt:
                return out
            if tok.startswith('['):
                scan = int(mt[1])
                continue
            if mt[2] is not None and not mt[2].isdigit():
                return out
            (left if scan is None else right).append((int(mt[1]), int(mt[2] or 1)))
        out.append((ord(slot[0]) - 65, int(slot[1:]), left[::-1], scan, right,
                    step))
    return out


def check_trace(ctx, case):
    from tm.machine import Machine
    prog, lim = case['prog'], case['lim']
    m = Machine(prog)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        refusing(m, lambda: m.run(sim_lim=lim, watch_tape=True))
    confs = parse_trace(buf.getvalue())
    if not confs:
        return
    s, c, l, scan, r, step = confs[0]
    if (s, scan, l, r) != (0, 0, [], []):
        raise Violation(f'{prog!r}: starts at {confs[0]}')
    budget = 6_000_000
    for k in range(1, len(confs)):
        ps, pc, pl, pscan, pr, pstep = confs[k - 1]
        s, c, l, scan, r, step = confs[k]
        if c != scan:
            raise Violation(f'{prog!r}: shown slot colour {c}, scanned {scan}')
        if (ps, pl, pscan, pr) == (s, l, scan, r) and k == len(confs) - 1:
            continue  # the last configuration, shown once more
        n1 = sum(n for _, n in pl + pr)
        n2 = sum(n for _, n in l + r)
        if n1 > 200_000 or n2 > 200_000:
            ctx.cls('too long to go on')
            break
        a, ah = ref.flat(pl, pscan, pr)
        b, bh = ref.flat(l, scan, r)
        n = ref.follow(prog, ps, a, ah, s, b, bh, min(budget, 2_000_000))
        jump = step is None or pstep is None or n < 0
        if n == -1 and jump:
            ctx.cls('jump too long')
            break
        if n < 0 or (not jump and n != step - pstep):
            raise Violation(f'{prog!r}: cycle {k}: from {confs[k - 1]} the machine does not get to {confs[k]}'
                            + (f' in {step - pstep} steps but {n}' if not jump else ''))
        if step is None and n > 1:
            ctx.nontrivial_case()
            ctx.cls('rule-era jumps')
        budget -= n
        if budget <= 0:
            break


def check_huge(ctx, case):
    prog, lim = case['prog'], case['lim']
    try:
        got = rs.run_prover(prog, lim)
    except bridge.PanicException as err:
        if 'overflow' in str(err):   # stopped instead of reporting
            raise Skip from None
        raise
    kind2 = got.result.n
    if kind2 not in ('undfnd', 'spnout', 'infrul'):
        return
    m, kind = machine(prog, lim)
    if kind not in ('undfnd', 'spnout', 'infrul'):
        return
    if m.rulapp:
        ctx.nontrivial_case()
    ctx.cls(kind + ('/rules' if m.rulapp else ''))
    if kind != kind2:
        raise Violation(f'{prog!r} lim {lim}: {kind} and {kind2}')
    if m.cycles == got.cycles and kind != 'infrul' and m.susrul is None:
        try:
            n = int(m.rulapp)
        except REFUSE:
            return
        ctx.cls('rule applications compared')
        if n != got.rulapp:
            raise Violation(f'{prog!r} lim {lim}: {n} and {got.rulapp} rule applications')
    if kind != 'infrul':
        try:
            marks = int(m.marks)
        except REFUSE:
            return
        if marks != got.marks:
            raise Violation(f'{prog!r} lim {lim}: {kind}, marks {m.marks} and {got.marks}')
    if kind == 'undfnd' and tuple(m.undfnd[1]) != tuple(got.undfnd[1]):
        raise Violation(f'{prog!r} lim {lim}: slots {m.undfnd} and {got.undfnd}')


def gen_huge(rng):
    return {'prog': progs.rich_prog(rng), 'lim': rng.choice([300, 700, 1500])}


def gen_trace(rng):
    return {'prog': progs.rich_prog(rng), 'lim': rng.choice([60, 150, 300])}


def parts(tier):
    k = 1 if tier == 'quick' else 40
    sh = progs.shrink_case(nums=('lim',))
    return [Part('ending', 'rnd', gen, check_ending, 16_000 * k, shrink=sh),
            Part('trace', 'rnd', gen_trace, check_trace, 6_000 * k, shrink=sh),
            Part('huge', 'rnd', gen_huge, check_huge, 8_000 * k, shrink=sh)]
