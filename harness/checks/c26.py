"""The automatic block size against the measure it is defined by."""
import bridge
import progs
import ref
from common import Part, Violation

PROPERTY = 'C26'
RULE = ('programs: random tree-normal, mutated and published ones, some with undefined slots; probe lengths 0 to 3000 run-length steps. '
        'A run-length walk written for this check finds the step that was taken from the most runs, and the compressed length is '
        'computed for every size from 1 to just under half the tape.  '
        'Non-trivial: the tape measured has at least 6 cells and the size is not settled by the probe ending.')
ASSUMPTIONS = ['a tape has as many cells as lie between its outermost marks and the head, the head\'s own included; its runs are those '
               'on both sides of the head',
               'the compressed length for size k is the length less k for every block of k cells, at a multiple of k that leaves more '
               'than 2k cells to the right end, that equals the next one']
rs = None


def prepare(tier):
    global rs
    rs = bridge.load_rust()
    ref.lib()
    progs.corpus()


def walk(rows, steps):
    """(ended, [(runs, cells after the step)] reduced to the first maximum)"""
    sides = ([], [])          # runs [color, count] from far to near
    scan = state = best = 0
    cells = None
    for _ in range(steps):
        i = rows[state][scan] if state < len(rows) and scan < len(rows[0]) else None
        if i is None:
            return True, None
        pr, right, nxt = i
        pull, push = (sides[1], sides[0]) if right else (sides[0], sides[1])
        if nxt == state and scan == 0 and not pull:
            return True, None
        runs = len(sides[0]) + len(sides[1])
        n = 1
        if nxt == state and pull and pull[-1][0] == scan:
            n += pull.pop()[1]
        if push and push[-1][0] == pr:
            push[-1][1] += n
        elif push or pr:
            push.append([pr, n])
        if pull:
            scan = pull[-1][0]
            pull[-1][1] -= 1
            if not pull[-1][1]:
                pull.pop()
        else:
            scan = 0
        state = nxt
        if runs > best:
            best = runs
            cells = [c for c, k in sides[0] for _ in range(k)] + [scan] + [c for c, k in reversed(sides[1]) for _ in range(k)]
    return False, cells


def compressed(t, k):
    n = len(t)
    size = n
    i = 0
    while n - i > 2 * k:
        if t[i:i + k] == t[i + k:i + 2 * k]:
            size -= k
        i += k
    return size


def best_size(t):
    sizes = [(compressed(t, k), k) for k in range(1, len(t) // 2)]
    return min(sizes)[1] if sizes else 1


def gen(rng):
    k = rng.random()
    if k < .15:
        prog = progs.rich_prog(rng)
    else:
        prog = progs.any_prog(rng, w=(4, 4, 3))
    n = rng.choice([rng.randrange(4), rng.randrange(60), rng.randrange(20, 200), rng.randrange(700), rng.randrange(700), 300, 600,
                    rng.randrange(3000)])
    return {'prog': prog, 'steps': n}


def check(ctx, case):
    rows = ref.parse(case['prog'])
    got = rs.py_opt_block(case['prog'], case['steps'])
    ended, t = walk(rows, case['steps'])
    if ended or t is None:
        want = 1
        ctx.cls('the probe ended' if ended else 'never a mark')
    else:
        want = best_size(t)
        if len(t) >= 6:
            ctx.nontrivial_case()
        ctx.cls(f'size {min(want, 9)}' + ('+' if want > 8 else ''))
    if got != want:
        more = '' if ended or t is None else f' (tape of {len(t)}: {compressed(t, got) if 0 < got < len(t) else "-"} against {compressed(t, want)})'
        raise Violation(f'{case["prog"]!r}, {case["steps"]} steps: size {got}, should be {want}{more}')


def parts(tier):
    k = 1 if tier == 'quick' else 40
    return [Part('size', 'rnd', gen, check, 40_000 * k, shrink=progs.shrink_case(nums=('steps',)))]
