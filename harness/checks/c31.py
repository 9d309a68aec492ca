"""Regular growth is noticed and skipped, again and again."""
import contextlib
import io
from collections import defaultdict

import bridge
import progs
import ref
from checks.c09 import REFUSE, category, parse_trace, refusing
from common import Part, Skip, Violation

PROPERTY = 'C31'
RULE = ('programs: published ones, ones known to make rules fire, mutations of both, random tree-normal-form tables.  '
        'Part noticed / rust-noticed / macro-noticed: the run is followed here move by move (a move through a run of one colour counts as one); when some state and '
        'tape outline comes up nine times in a row at distances that are equal or change by a constant amount, with every count growing or shrinking linearly, '
        'an accelerated run over as many moves must have skipped something or have ended otherwise than by its limit or for having met too many outlines.  '
        'Part again: wherever a shown run skips, every later arrival at the same state and outline with counts no smaller must skip again.  '
        'Part nested / rust-nested: among the cycles of the accelerated run itself, no state and outline comes nine times in a row at such distances '
        'with counts n + d or m*n + r (r below the first count) without a skip.  '
        'Non-trivial: such a repetition, or such an arrival, occurs.')
ASSUMPTIONS = ['a repetition with one block on either side that only moves cells from one to the other is not counted (the project leaves it alone)',
               'nine sightings: five to notice, three to confirm, one to spare']
rs = None
glue = {}
NEED = 9


def prepare(tier):
    global rs
    rs = bridge.load_rust()
    ref.lib()
    progs.corpus(), progs.rich()
    import tm.machine  # noqa: F401


def moves(instr, lim):
    """(state, scan, left, right) before every move; blocks nearest first"""
    st, scan, left, right = 0, 0, [], []
    for _ in range(lim):
        yield st, scan, left, right
        got = instr(st, scan)
        if got is None:
            return
        color, shift, nxt = got
        pull, push = (right, left) if shift else (left, right)
        if st == nxt and scan == 0 and not pull:
            return
        n = 1
        if st == nxt and pull and pull[0][0] == scan:
            n += pull.pop(0)[1]
        if pull:
            c = pull[0][0]
            if pull[0][1] == 1:
                pull.pop(0)
            else:
                pull[0][1] -= 1
        else:
            c = 0
        if push and push[0][0] == color:
            push[0][1] += n
        elif push or color:
            push.insert(0, [color, n])
        st, scan = nxt, c
        if color == 0 and not left and not right and scan == 0:
            return  # what follows on a blank tape is judged elsewhere


def outline(scan, left, right):
    return scan, tuple((c, n == 1) for c, n in left), tuple((c, n == 1) for c, n in right)


def regular(instr, lim):
    """the first repetition that has to be noticed"""
    seen = defaultdict(list)
    for k, (st, scan, left, right) in enumerate(moves(instr, lim)):
        rows = seen[st, outline(scan, left, right)]
        rows.append((k, [n for _, n in left], [n for _, n in right]))
        if len(rows) < NEED:
            continue
        last = rows[-NEED:]
        ks = [r[0] for r in last]
        gaps = [b - a for a, b in zip(ks, ks[1:])]
        if len({b - a for a, b in zip(gaps, gaps[1:])}) != 1:
            continue
        cols = list(zip(*(r[1] + r[2] for r in last)))
        diffs = [{b - a for a, b in zip(col, col[1:])} for col in cols]
        if any(len(d) > 1 for d in diffs):
            continue
        if len(left) == len(right) == 1:
            continue
        return st, (scan, left, right), ks
    return None


def table(prog):
    rows = ref.parse(prog)
    return lambda st, c: rows[st][c] if st < len(rows) and c < len(rows[st]) else None


def gen(rng):
    prog = progs.rich_prog(rng) if rng.random() < .5 else progs.any_prog(rng, w=(5, 4, 2))
    return {'prog': prog, 'lim': rng.choice([100, 200, 300, 500, 800])}


def judge(ctx, what, found, rules, kind, extra):
    ctx.nontrivial_case()
    ctx.cls('skipped' if rules else kind)
    if not rules and kind in ('xlimit', 'cfglim'):   # far from as many outlines as are kept
        st, (scan, left, right), ks = found
        raise Violation(f'{what}: nothing skipped in {extra} cycles, although state {st} comes with outline {left} [{scan}] {right} at '
                        f'{ks}')


def check_noticed(ctx, case):
    from tm.machine import Machine
    prog, lim = case['prog'], case['lim']
    found = regular(table(prog), lim)
    if found is None:
        return
    m = Machine(prog)
    refusing(m, lambda: m.run(sim_lim=lim))
    judge(ctx, repr(prog), found, m.rulapp != 0, category(m), lim)


def check_rust(ctx, case):
    prog, lim = case['prog'], case['lim']
    found = regular(table(prog), lim)
    if found is None:
        return
    try:
        got = rs.run_prover(prog, lim)
    except bridge.PanicException as err:
        if 'overflow' in str(err):
            raise Skip from None
        raise
    judge(ctx, f'{prog!r} (Rust)', found, got.rulapp != 0, got.result.n, lim)


def gen_macro(rng):
    case = gen(rng)
    case['opts'] = rng.choice([{'blocks': 2}, {'blocks': 2}, {'blocks': 3}, {'blocks': 4}, {'backsym': 1}, {'backsym': 1}, {'backsym': 2}, {'backsym': 3}])
    return case


def check_macro(ctx, case):
    from tm.machine import Machine
    from tm.macro import MacroInfLoop
    prog, lim = case['prog'], case['lim']
    m = Machine(prog, **case['opts'])

    def instr(st, c):
        try:
            return m.program[st, c]
        except (KeyError, MacroInfLoop):
            return None
    found = regular(instr, lim)
    if found is None:
        return
    refusing(m, lambda: m.run(sim_lim=lim))
    judge(ctx, f'{prog!r} {case["opts"]}', found, m.rulapp != 0, category(m), lim)


def check_again(ctx, case):
    from tm.machine import Machine
    prog, lim = case['prog'], case['lim']
    m = Machine(prog)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        refusing(m, lambda: m.run(sim_lim=lim, watch_tape=True))
    confs = parse_trace(buf.getvalue())
    instr = table(prog)
    fired = {}
    for k in range(len(confs) - 2):
        st, _, left, scan, right, _ = confs[k]
        nst, _, nleft, nscan, nright, _ = confs[k + 1]
        # a skip keeps state, scanned colour and the number of blocks; a move cannot keep all three
        skip = (st, scan, len(left), len(right)) == (nst, nscan, len(nleft), len(nright))
        key = st, outline(scan, left, right)
        counts = [n for _, n in left + right]
        if key in fired:
            ctx.nontrivial_case()
        if skip:
            fired.setdefault(key, counts)
        elif key in fired and all(a >= b for a, b in zip(counts, fired[key])):
            raise Violation(f'{prog!r}: cycle {k}: state {st} with {left} [{scan}] {right} is not skipped, though counts {fired[key]} were')


# -- on top of what is skipped already --------------------------------------------

def plain(col, most=None):
    """the counts follow n + d, or m*n + r with r below the first of them"""
    if most and max(col) >= 2**60:
        return False  # the Rust side works out differences in 64 bits, sign included
    if len({b - a for a, b in zip(col, col[1:])}) == 1:
        return True
    if most and max(col) > most:
        return False
    m, r = divmod(col[1], col[0])
    return any(m > 1 and abs(r) < col[0] and all(b == m * a + r for a, b in zip(col, col[1:])) for m, r in ((m, r), (m + 1, r - col[0])))


def repeating(rows, most=None):
    """rows: (state, scan, left, right, skipped), one for each cycle.  State and outline come nine times in a row,
    never skipped, at equal or regularly changing distances, with plain counts"""
    seen = defaultdict(list)
    some = False
    for k, (st, scan, left, right, skipped) in enumerate(rows):
        key = st, outline(scan, left, right)
        if skipped:
            some = True
            seen[key].clear()
            continue
        past = seen[key]
        past.append((k, [n for _, n in [*left, *right]]))
        if len(past) < NEED:
            continue
        last = past[-NEED:]
        ks = [r[0] for r in last]
        gaps = [b - a for a, b in zip(ks, ks[1:])]
        if len({b - a for a, b in zip(gaps, gaps[1:])}) != 1 or len(left) == len(right) == 1:
            continue
        if all(plain(col, most) for col in zip(*(r[1] for r in last))):
            return f'state {st} comes with {left} [{scan}] {right} at {ks}, never skipped'
    return some


def judge_nested(ctx, what, rows, most=None):
    bad = repeating(rows, most)
    if isinstance(bad, str):
        raise Violation(f'{what}: {bad}')
    if bad:
        ctx.nontrivial_case()


def gen_nested(rng):
    prog = progs.rich_prog(rng) if rng.random() < .7 else progs.any_prog(rng, w=(5, 4, 2))
    return {'prog': prog, 'lim': rng.choice([200, 400, 800, 1200]),
            'opts': rng.choice([{}, {}, {}, {'blocks': 2}, {'blocks': 3}, {'backsym': 1}])}


def check_nested(ctx, case):
    from tm.machine import Machine
    prog, lim = case['prog'], case['lim']
    m = Machine(prog, **case['opts'])
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        refusing(m, lambda: m.run(sim_lim=lim, watch_tape=True))
    confs = parse_trace(buf.getvalue())
    rows = []
    for (st, _, left, scan, right, _), (nst, _, nleft, nscan, nright, _) in zip(confs, confs[1:]):
        rows.append((st, scan, left, right, (st, scan, len(left), len(right)) == (nst, nscan, len(nleft), len(nright))))
    judge_nested(ctx, f'{prog!r} {case["opts"]}', rows)


def check_rust_nested(ctx, case):
    if 'trace' not in glue:
        glue['trace'] = bridge.load_extra('trace')
    if glue['trace'] is None:
        raise Skip
    prog, lim = case['prog'], case['lim']
    try:
        rows, _ = glue['trace'].x_walk(prog, lim)
    except bridge.PanicException as err:
        if 'overflow' in str(err):
            raise Skip from None
        raise
    judge_nested(ctx, f'{prog!r} (Rust)', [(st, scan, left, right, skipped) for st, (left, scan, right), skipped in rows], 2**31)


def parts(tier):
    k = 1 if tier == 'quick' else 40
    sh = progs.shrink_case(nums=('lim',))
    return [Part('noticed', 'rnd', gen, check_noticed, 12_000 * k, shrink=sh),
            Part('rust-noticed', 'rnd', gen, check_rust, 20_000 * k, shrink=sh),
            Part('macro-noticed', 'rnd', gen_macro, check_macro, 6_000 * k, shrink=sh),
            Part('again', 'rnd', gen, check_again, 4_000 * k, shrink=sh),
            Part('nested', 'rnd', gen_nested, check_nested, 3_000 * k, shrink=sh),
            Part('rust-nested', 'rnd', gen, check_rust_nested, 12_000 * k, shrink=sh)]
