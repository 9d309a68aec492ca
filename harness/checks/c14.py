"""quick_term_or_rec against simulation and an independent recurrence finder."""
import bridge
import progs
import ref
from common import Part, Violation

PROPERTY = 'C14'
RULE = ('programs: random tree-normal-form tables, mutated and published ones, with random limits.  A yes must mean that '
        'the plain machine reaches no undefined slot in 100 thousand steps and, when the limit covers at most 700 '
        'steps, that it spins out or that a search through its whole history finds a recurrence.  A no must '
        'mean that the machine neither spins out within the limit nor shows a recurrence in a sixth of it.  '
        'Non-trivial: the answer was yes, or the machine stops after 20 or more steps.')
ASSUMPTIONS = ['programs start with 1RB']
rs = None


def prepare(tier):
    global rs
    rs = bridge.load_rust()
    ref.lib()
    progs.corpus()


def gen(rng):
    lim = rng.choice([2, 3, 5, 10, 20, 50, 100, 150, 300, 500, 1000, 3000, rng.randrange(1, 400)])
    prog = progs.any_prog(rng)
    while not prog.startswith('1RB'):
        prog = progs.any_prog(rng)
    return {'prog': prog, 'lim': lim}


def check(ctx, case):
    prog, lim = case['prog'], case['lim']
    got = rs.py_quick_term_or_rec(prog, lim)
    end = ref.run(prog, max_steps=100_000)
    inlim = ref.run(prog, max_cycles=lim)
    what = f'{prog!r} with limit {lim}'
    if got not in (True, False):
        raise Violation(f'{what}: answers {got!r}')
    if end.steps >= 20 and end.status == ref.UNDEF or got:
        ctx.nontrivial_case()
    ctx.cls(f'{got}/{end.kind}')
    if got:
        if end.status == ref.UNDEF:
            raise Violation(f'{what}: said to spin out or recur, but it reaches an undefined slot after {end.steps} steps')
        if inlim.status == ref.LIMIT and inlim.steps <= 700:
            ctx.cls('yes, recurrence searched')
            if ref.linrec(prog, inlim.steps + 2) is None:
                raise Violation(f'{what}: said to spin out or recur, but within these {inlim.steps} steps it '
                                'does neither')
        return
    if end.status == ref.SPIN and end.cycles < lim:
        raise Violation(f'{what}: not recognised, though it spins out after {end.cycles} cycles')
    if end.status == ref.LIMIT:
        reach = min(400, (lim - 40) // 6)
        if reach > 2:
            pair = ref.linrec(prog, reach)
            ctx.cls('no, recurrence searched')
            if pair is not None:
                raise Violation(f'{what}: not recognised, though the configuration after {pair[0]} steps '
                                f'recurs after {pair[1]}')


def parts(tier):
    k = 1 if tier == 'quick' else 60
    return [Part('verdict', 'rnd', gen, check, 60_000 * k, shrink=progs.shrink_case(nums=('lim',)))]
