"""run_prover (accelerated, Rust) against cell-by-cell and big-number simulation."""
import bridge
import progs
import ref
from checks import c09
from common import Part, Skip, Violation

PROPERTY = 'C12'
RULE = ('programs: published ones, ones known to make rules fire, mutations of both, and random tree-normal-form tables, '
        'with random limits.  Part ending: every reported undefined slot, spin-out or endless run, with marks, steps and '
        'blank events, against a one-cell-at-a-time simulator.  Part words: programs run further, so that '
        'counts grow past the machine word; reports are compared with the arbitrary-precision accelerated simulator, '
        'as are marks and rule applications when both get to the limit.  '
        'Non-trivial: a rule was applied, or the run ended after 10 or more steps.')
ASSUMPTIONS = ['steps and blank events are compared only in runs without rule applications, where they are exact']
rs = None
KIND = c09.KIND


def prepare(tier):
    global rs
    c09.prepare(tier)
    rs = c09.rs


def gen(rng):
    prog = progs.rich_prog(rng) if rng.random() < .7 else progs.any_prog(rng, w=(5, 4, 2))
    return {'prog': prog, 'lim': rng.choice([1, 3, 10, 50, 100, 200, 300, 500, 800, rng.randrange(1, 2000)])}


def run(prog, lim):
    try:
        return rs.run_prover(prog, lim)
    except bridge.PanicException as err:   # giving up on a count too big is no report
        if 'overflow' in str(err):
            raise Skip from None
        raise


def check(ctx, case):
    prog, lim = case['prog'], case['lim']
    got = run(prog, lim)
    kind = got.result.n
    rules = got.rulapp != 0
    want = ref.run(prog, max_steps=100_000, stop_blank=True)
    if want.status == ref.LIMIT and (kind in ('undfnd', 'spnout') or kind == 'infrul' and rules):
        want = ref.run(prog, max_steps=20_000_000 if kind != 'infrul' else 5_000_000, stop_blank=True)
    real = KIND.get(want.status, 'limit')
    ctx.cls(f'{kind}/{real}' + ('/rules' if rules else ''))
    if rules:
        ctx.nontrivial_case()

    def bad(msg):
        raise Violation(f'{prog!r} lim {lim}: {msg}; reported {kind} steps {got.steps} cycles {got.cycles} marks {got.marks} '
                        f'rulapp {got.rulapp} blanks {got.blanks} slot {got.undfnd}; simulated {want}')
    if kind in ('undfnd', 'spnout'):
        if want.steps >= 10:
            ctx.nontrivial_case()
        if real == 'limit':
            if not rules:
                bad('the machine does not end that soon')
            return
        if real != kind:
            bad('wrong ending')
        if got.marks != want.marks:
            bad('wrong marks')
        if kind == 'undfnd' and tuple(got.undfnd[1]) != (want.state, want.color):
            bad('wrong slot')
        if not rules and (got.steps != want.steps or got.simple_termination != want.steps):
            bad('wrong steps')
        if not rules and got.cycles != want.cycles:
            bad('wrong cycles')
        if not rules and dict(got.blanks) != want.blanks or not set(got.blanks) <= set(want.blanks):
            bad('wrong blank events')
    elif kind == 'infrul':
        if real in ('undfnd', 'spnout'):
            bad('called endless')
        if not rules and real == 'infrul' and dict(got.blanks) == want.blanks and got.steps > want.steps:
            bad('wrong steps')
    elif kind == 'xlimit' and not rules:
        short = ref.run(prog, max_steps=10**7, max_cycles=lim, stop_blank=True)
        if short.status != ref.LIMIT:
            bad(f'the run ended within the limit: {short}')
        if short.steps < 10**7 and (got.steps, got.marks, dict(got.blanks)) != (short.steps, short.marks, short.blanks):
            bad(f'wrong state of affairs at the limit: {short}')


def small(n):
    return isinstance(n, int) and n < 2**24


def watch_counts():
    """a list whose element tells whether a rule made some count big"""
    import tm.tape
    real = getattr(tm.tape.Tape.set_count, 'real', tm.tape.Tape.set_count)
    big = [False]

    def set_count(self, index, val):
        if not small(val):
            big[0] = True
        return real(self, index, val)
    set_count.real = real
    tm.tape.Tape.set_count = set_count
    return big


def gen_words(rng):
    return {'prog': progs.rich_prog(rng), 'lim': rng.choice([500, 1000, 3000, 6000, 12000])}


def check_words(ctx, case):
    prog, lim = case['prog'], case['lim']
    got = run(prog, lim)
    kind2 = got.result.n
    if got.rulapp:
        ctx.nontrivial_case()
    if kind2 not in ('undfnd', 'spnout', 'infrul', 'xlimit') or kind2 == 'xlimit' and lim > 3000:
        ctx.cls(kind2)
        return
    big = watch_counts()
    m, kind = c09.machine(prog, min(lim, 3000))
    ctx.cls(f'{kind2}/{kind}' + ('/rules' if m.rulapp else ''))
    if kind == kind2 == 'xlimit':
        if big[0] or not (small(m.rulapp) and small(m.marks)):
            return   # declining to go on with big counts is no error
        real = int(m.rulapp), int(m.marks)
        if real != (got.rulapp, got.marks):
            raise Violation(f'{prog!r} lim {lim}: {got.rulapp} rule applications and {got.marks} marks at the limit, '
                            f'with big numbers {real[0]} and {real[1]}')
        return
    if 'xlimit' in (kind, kind2):
        return
    if kind not in ('undfnd', 'spnout', 'infrul'):
        return
    if kind != kind2:
        raise Violation(f'{prog!r} lim {lim}: {kind2}, with big numbers {kind}')
    if kind != 'infrul':
        try:
            marks = int(m.marks)
        except c09.REFUSE:
            raise Violation(f'{prog!r} lim {lim}: marks {got.marks}, with big numbers {m.marks}') from None
        if marks != got.marks:
            raise Violation(f'{prog!r} lim {lim}: {kind}, marks {got.marks}, with big numbers {m.marks}')
    if kind == 'undfnd' and tuple(m.undfnd[1]) != tuple(got.undfnd[1]):
        raise Violation(f'{prog!r} lim {lim}: slots {got.undfnd} and {m.undfnd}')


def parts(tier):
    k = 1 if tier == 'quick' else 40
    sh = progs.shrink_case(nums=('lim',))
    return [Part('ending', 'rnd', gen, check, 30_000 * k, shrink=sh),
            Part('words', 'rnd', gen_words, check_words, 7_000 * k, shrink=sh)]
