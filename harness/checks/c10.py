"""Verdicts of endlessness against long cell-by-cell simulation."""
import progs
import ref
from checks import c09
from common import Part, Violation

PROPERTY = 'C10'
RULE = ('programs: published ones, ones known to make rules fire, mutations of both and random tree-normal-form tables, '
        'run by the accelerated simulator with random limits, plain or through macros (block sizes 1-5, '
        'back-symbol 1-3, chosen automatically, nested), and programs grown to stay inside their first macro cell for long.  Whenever it says endless, the plain machine is simulated for '
        '200 thousand to 20 million steps and must neither reach an undefined slot nor spin out; whenever the plain '
        'machine ends within 200 thousand steps the run must not be called endless.  Exactly one ending is reported, '
        'and a limit only when the limit was reached.  Non-trivial: the verdict was endless, or the '
        'machine ends after 50 or more steps.')
ASSUMPTIONS = ['through macros a spin-out of the plain machine may be reported as endless (it is); only halting refutes the verdict']
prepare = c09.prepare


def gen(rng):
    k = rng.random()
    prog = progs.rich_prog(rng) if k < .6 else progs.any_prog(rng, w=(5, 4, 2))
    return {'prog': prog, 'lim': rng.choice([5, 20, 100, 200, 300, 500, rng.randrange(1, 1000)])}


def gen_macro(rng):
    case = gen(rng)
    k = rng.random()
    if k < .45:
        case['blocks'] = rng.choice([1, 2, 2, 3, 3, 4, 5])
    elif k < .7:
        case['backsym'] = rng.choice([1, 1, 2, 3])
    elif k < .85:
        case['blocks'], case['backsym'] = rng.choice([2, 3]), rng.choice([1, 2])
    else:
        case['opt_macro'] = rng.choice([10, 50, 200])
    case['lim'] = min(case['lim'], 300)
    if rng.random() < .15:
        from checks import c13
        case = {**c13.confined(rng), 'lim': case['lim']}
    return case


def check(ctx, case):
    prog, lim = case['prog'], case['lim']
    opts = {k: case[k] for k in ('blocks', 'backsym', 'opt_macro') if k in case}
    m, kind = c09.machine(prog, lim, **opts)
    want = ref.run(prog, max_steps=200_000)
    real = c09.KIND[want.status]
    if real != 'limit' and want.steps >= 50:
        ctx.nontrivial_case()
    if kind == 'infrul':
        ctx.nontrivial_case()
        if real == 'limit' and m.rulapp:
            want = ref.run(prog, max_steps=20_000_000)
            real = c09.KIND.get(want.status, 'limit')
    ctx.cls(f'{kind}/{real}' + ('/rules' if m.rulapp else ''))

    def bad(msg):
        raise Violation(f'{prog!r} lim {lim} {opts}: {msg}; reported {kind} steps {m.steps} undfnd {m.undfnd} '
                        f'rulapp {m.rulapp} blanks {m.blanks}; simulated {want}')
    if kind == 'infrul' and (real == 'undfnd' or (real == 'spnout' and not opts)):
        bad('called endless')
    if kind == 'spnout' and real == 'undfnd':
        bad('called endless')
    if kind == 'undfnd' and real == 'spnout':
        bad('called halting')
    if kind == 'xlimit' and m.cycles != lim - 1:
        bad(f'limit reported after {m.cycles} cycles')
    if kind == 'cfglim' and m.prover.config_count < 100_000:
        bad('limit on configurations reported with few of them')


def parts(tier):
    k = 1 if tier == 'quick' else 40
    sh = progs.shrink_case(nums=('lim',))
    return [Part('plain', 'rnd', gen, check, 24_000 * k, shrink=sh),
            Part('macro', 'rnd', gen_macro, check, 10_000 * k, shrink=sh)]
