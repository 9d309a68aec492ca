"""run_quick_machine against cell-by-cell simulation."""
import bridge
import progs
import ref
from common import Part, Violation

PROPERTY = 'C11'
RULE = ('programs drawn as random tree-normal-form tables (2-7 states, 2-6 colours, 0..n slots '
        'undefined), mutated published programs and published programs, with a random simulation '
        'limit; the published runner must report the same ending, step count, marks, blank events '
        'and last slot as a one-cell-at-a-time simulator.  Non-trivial: at least 10 steps were run.')
ASSUMPTIONS = ['programs start with a defined first instruction', 'colours are single digits']

rs = None


def prepare(tier):
    global rs
    rs = bridge.load_rust()
    ref.lib()


def gen(rng):
    return {'prog': progs.any_prog(rng), 'lim': rng.choice([1, 2, 3, 5, 10, 30, 100, 300, 1000, 1000, 3000, rng.randrange(1, 5000)])}


def check(ctx, case):
    prog, lim = case['prog'], case['lim']
    want = ref.run(prog, max_steps=5 * 10**7, max_cycles=lim, stop_blank=True)
    if want.status == ref.MEM or want.steps >= 5 * 10**7:
        return
    got = rs.run_quick_machine(prog, lim)
    ctx.cls(want.kind)
    if want.steps >= 10:
        ctx.nontrivial_case()
    slot = (want.state, want.color)
    exp = {
        'result': {ref.LIMIT: 'xlimit', ref.UNDEF: 'undfnd', ref.SPIN: 'spnout', ref.BLANKREC: 'infrul'}[want.status],
        'steps': want.steps,
        'marks': want.marks,
        'blanks': want.blanks,
        'undfnd': (want.steps, slot) if want.status == ref.UNDEF else None,
        'spnout': want.steps if want.status == ref.SPIN else None,
        'xlimit': want.steps if want.status == ref.LIMIT else None,
        'infrul': want.steps if want.status == ref.BLANKREC else None,
        'simple_termination': want.steps if want.status in (ref.UNDEF, ref.SPIN) else None,
        'cfglim': None,
        'rulapp': 0,
    }
    if want.status in (ref.UNDEF, ref.SPIN):
        exp['cycles'] = want.cycles
    act = {k: getattr(got, k) for k in exp}
    act['result'] = act['result'].n
    if act != exp:
        diff = {k: (act[k], exp[k]) for k in exp if act[k] != exp[k]}
        raise Violation(f'{prog!r} lim {lim}: (reported, simulated) {diff}')


def parts(tier):
    n = 60_000 if tier == 'quick' else 3_000_000
    return [Part('random', 'rnd', gen, check, n, shrink=progs.shrink_case(nums=('lim',)))]
