"""Backward-reasoning verdicts against simulation."""
import os

import bridge
import progs
import ref
from common import Part, Violation

PROPERTY = 'C15'
RULE = ('programs: random tree-normal-form tables, mutated and published ones, with random depths; an eighth are programs whose backward search branches until it is given up, and mutations of them.  The plain machine is run '
        '20 thousand steps (200 thousand where it matters): when it reaches an undefined slot, erases its tape or spins out, '
        'the corresponding verdict must be open at every depth.  Verdicts at two depths must fit together: an '
        'answer found at one depth is the answer at every greater depth, and never a larger number than the depth.  '
        'Non-trivial: the event happens, or the verdict excludes it.')
ASSUMPTIONS = ['programs start with 1RB', 'the tape counts as erased when a step writes a blank and leaves no marks']
rs = None
_branching = None


def prepare(tier):
    global rs
    rs = bridge.load_rust()
    ref.lib()
    progs.corpus()


def gen(rng):
    if rng.random() < .13:
        return gen_wide(rng)
    prog = progs.any_prog(rng)
    while not prog.startswith('1RB'):
        prog = progs.any_prog(rng)
    return {'prog': prog, 'depths': [rng.randrange(0, 6), rng.choice([3, 5, 8, 12, 20, 30, 45])]}


def check(ctx, case):
    prog = case['prog']
    w = ref.run(prog, max_steps=20_000)
    if w.status == ref.LIMIT:
        w = ref.run(prog, max_steps=200_000) if w.marks > 30 else w
    happens = {'halt': w.status == ref.UNDEF, 'blank': w.nblanks > 0, 'spin_out': w.status == ref.SPIN}
    lo, hi = sorted(case['depths'])
    bad = []
    for name, yes in happens.items():
        ask = getattr(rs, 'py_cant_' + name)
        a, b = ask(prog, lo), ask(prog, hi)
        ctx.cls(f'{name}: {"happens" if yes else "does not happen"}, {"open" if b is None else "excluded"}')
        if yes or b is not None:
            ctx.nontrivial_case()
        for d, v in ((lo, a), (hi, b)):
            if v is not None and yes:
                bad.append(Violation(f'{prog!r}: said at depth {d} never to {name} (found at {v}), but it does ({w.kind} after '
                                f'{w.steps} steps, blank after {w.blanks})', key=excuse(prog, name)))
            if v is not None and not 0 <= v <= d:
                raise Violation(f'{prog!r}: answer {v} at depth {d} ({name})')
        if a is not None and a != b or a is None and b is not None and b < lo:
            raise Violation(f'{prog!r}: {name} answers {a} at depth {lo} but {b} at depth {hi}')
    for v in sorted(bad, key=lambda v: v.key is not None):
        raise v


def branching():
    """programs whose backward search branches so much that it is given up, collected by climbing"""
    global _branching
    if _branching is None:
        with open(os.path.join(bridge.VERIF, 'corpus', 'branching.txt')) as fp:
            _branching = fp.read().split('\n')[:-1]
    return _branching


def gen_wide(rng):
    while True:
        prog = rng.choice(branching())
        if rng.random() < .8:
            prog = ref.show(progs.mutate(rng, ref.parse(prog)))
        if prog.startswith('1RB'):
            return {'prog': prog, 'depths': [rng.randrange(2, 20), rng.choice([20, 45, 60])]}


def excuse(prog, name):
    """the two known ways in which programs are misjudged (known_findings.json)"""
    rows = ref.parse(prog)
    keys = [(s, c) for s, r in enumerate(rows) for c, i in enumerate(r) if i]
    ins = [rows[s][c] for s, c in keys]
    if name == 'halt' and (max(i[2] for i in ins) > max(s for s, _ in keys) or
                           max(i[0] for i in ins) > max(c for _, c in keys)):
        return 'only-a-target'
    reach, todo = {0}, [0]
    while todo:
        for i in rows[todo.pop()]:
            if i and i[2] not in reach:
                reach.add(i[2])
                todo.append(i[2]) if i[2] < len(rows) else None
    if not any(i and i[2] == 0 for s in reach if s < len(rows) for i in rows[s]):
        return 'no-way-back-to-A'
    return None


def parts(tier):
    k = 1 if tier == 'quick' else 60
    return [Part('verdict', 'rnd', gen, check, 92_000 * k, shrink=progs.shrink_case())]
