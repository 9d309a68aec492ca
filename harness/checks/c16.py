"""Segment verdicts against simulation of halting programs."""
import bridge
import progs
import ref
from common import Part, Skip, Violation

PROPERTY = 'C16'
RULE = ('programs: random tree-normal-form tables with some slots left undefined, mutated and published ones, with random '
        'numbers of segments.  The plain machine is run 20 thousand steps (a million for the published ones): '
        'when it reaches an undefined slot the verdict must be open.  Part wide: programs that halt after 20 to 20 thousand steps, with 7 to 12 segments, where the search is cut off.  Verdicts for two numbers of segments must fit '
        'together, and the answer is a number of segments between 2 and the one asked for.  '
        'Non-trivial: the program reaches an undefined slot, or the verdict excludes that.')
ASSUMPTIONS = ['programs start with 1RB']
rs = None


def prepare(tier):
    global rs
    rs = bridge.load_rust()
    ref.lib()
    progs.corpus()


def gen(rng):
    while True:
        k = rng.random()
        if k < .7:
            rows = progs.tnf(rng, dims=rng.choice([None, (2, 2), (3, 2), (2, 3), (4, 2), (2, 4), (3, 3), (5, 2)]))
        else:
            rows = ref.parse(progs.corpus_pick(rng))
            if k < .9:
                rows = progs.mutate(rng, rows)
        if rng.random() < .3:
            s, c = rng.randrange(len(rows)), rng.randrange(len(rows[0]))
            if (s, c) != (0, 0):
                rows[s][c] = None
        prog = ref.show(rows)
        if prog.startswith('1RB'):
            return {'prog': prog, 'segs': [rng.randrange(2, 5), rng.choice([3, 4, 5, 6, 7])]}


def check(ctx, case):
    prog = case['prog']
    w = ref.run(prog, max_steps=20_000)
    if w.status == ref.LIMIT and w.marks > 30:
        w = ref.run(prog, max_steps=300_000)
    halts = w.status == ref.UNDEF
    lo, hi = sorted(case['segs'])
    a, b = rs.py_segment_cant_halt(prog, lo), rs.py_segment_cant_halt(prog, hi)
    ctx.cls(f'{"halts" if halts else "does not halt"}, {"open" if b is None else "excluded"}')
    if halts or b is not None:
        ctx.nontrivial_case()
    for d, v in ((lo, a), (hi, b)):
        if v is not None and halts:
            raise Violation(f'{prog!r}: said with {d} segments never to halt (found at {v}), but it does after {w.steps} steps')
        if v is not None and not 2 <= v <= d:
            raise Violation(f'{prog!r}: answer {v} for {d} segments')
    if a is not None and a != b or a is None and b is not None and b <= lo:
        raise Violation(f'{prog!r}: {a} for {lo} segments but {b} for {hi}')


def gen_wide(rng):
    while True:
        k = rng.random()
        if k < .5:
            rows = progs.tnf(rng, dims=rng.choice([(2, 4), (3, 3), (3, 4), (2, 5), (2, 6), (4, 3), (5, 2), (6, 2), (4, 4), (3, 5)]))
        else:
            rows = ref.parse(progs.corpus_pick(rng))
            if k < .9:
                rows = progs.mutate(rng, rows)
        if rng.random() < .5:
            s, c = rng.randrange(len(rows)), rng.randrange(len(rows[0]))
            if (s, c) != (0, 0):
                rows[s][c] = None
        prog = ref.show(rows)
        if prog.startswith('1RB'):
            return {'prog': prog, 'segs': rng.randrange(7, 13)}


def check_wide(ctx, case):
    """many cells for programs that halt late: the search has to be given up"""
    prog = case['prog']
    w = ref.run(prog, max_steps=20_000)
    if w.status != ref.UNDEF or w.steps < 20:
        raise Skip
    v = rs.py_segment_cant_halt(prog, case['segs'])
    ctx.nontrivial_case()
    ctx.cls('halts late')
    if v is not None:
        raise Violation(f'{prog!r}: said with {case["segs"]} segments never to halt (found at {v}), but it does after {w.steps} steps')


def parts(tier):
    k = 1 if tier == 'quick' else 60
    return [Part('verdict', 'rnd', gen, check, 60_000 * k, shrink=progs.shrink_case()),
            Part('wide', 'rnd', gen_wide, check_wide, 120_000 * k, shrink=progs.shrink_case(nums=('segs',)))]
