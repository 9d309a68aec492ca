"""Generated C programs, compiled and run."""
import os
import re
import shutil
import subprocess
import tempfile

import bridge
import progs
import ref
from bridge import HarnessError
from common import child_limits, Part, Skip, Violation

PROPERTY = 'C22'
RULE = ('random tree-normal, mutated and published programs up to 20 states and 8 colors, most of which stop within 100 thousand '
        'steps, halting slots either left undefined or written as moves to "_".  The text make_c gives is compiled with the '
        "header of the structured programs and run; the header's own final assertion is given the step and mark counts of the plain "
        'simulator.  Programs that go on are watched for a moment: they must not stop.  '
        'Non-trivial: the program takes at least 5 steps.')
ASSUMPTIONS = ['an undefined slot is carried out as "print 1, go right, halt", as the project does; the run also stops as soon as the '
               'tape is blank after a step',
               'the tape is long enough (the tape length in the text is enlarged)',
               'at most 26 states, at most 10 colors']
C = None
INC = None
USE_MARKS = True


def prepare(tier):
    global C, INC, USE_MARKS
    bridge.load_rust()
    from tools import c
    C = c
    INC = os.path.join(bridge.REPO, 'machines', 'structured')
    ref.lib()
    progs.corpus()
    # does the header still call its counter MARKS?
    try:
        run_c(C.make_c('1RB 1LB  1LA ...'), 6, 4, 2)
    except HarnessError:
        USE_MARKS = False


def run_c(text, steps, marks, wait):
    """exit status, or None when it went on"""
    d = tempfile.mkdtemp(prefix='c22_', dir='/tmp')
    try:
        with open(f'{d}/p.c', 'w') as fp:
            fp.write(re.sub(r'(#\s*define\s+TAPELEN)\s+\d+', rf'\g<1> {400_000 if steps >= 0 else 200_000_000}', text))
        x = '(STEPS > 100000 ? STEPS : -1)' if steps < 0 else f'(MARKS == {marks} ? {steps} : -1)' if USE_MARKS and marks is not None else str(steps)
        p = subprocess.run(['gcc', '-O0', '-w', '-I', INC, f'-DXLIMIT={x}', '-o', f'{d}/p', f'{d}/p.c'],
                           capture_output=True, text=True)
        if p.returncode:
            raise HarnessError(p.stderr[:2000])
        try:
            r = subprocess.run([f'{d}/p'], capture_output=True, text=True, timeout=wait, cwd=d,
                               preexec_fn=child_limits(int(wait) + 5))
        except subprocess.TimeoutExpired:
            return None
        return r.returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)


def expected(rows, lim):
    """(steps, marks) at the stop, or None"""
    S = len(rows)
    cut = [[None if i and i[2] >= S else i for i in r] for r in rows]
    a = ref.run(cut, lim)
    if a.status != ref.UNDEF:
        a = ref.run(cut, lim)
    k = min(a.blanks.values(), default=None)
    if k is not None:
        return k, 0
    if a.status != ref.UNDEF:
        return None
    pr = (rows[a.state][a.color] or (1,))[0]
    marks = a.marks + (pr != 0) - (a.color != 0)
    return a.steps + 1, marks


def gen(rng):
    while True:
        k = rng.random()
        if k < .6:
            rows = progs.tnf(rng)
        else:
            rows = ref.parse(progs.corpus_pick(rng, (20, 8)))
            if k < .8:
                rows = progs.mutate(rng, rows)
        if any(i and (i[2] >= len(rows) or i[0] >= len(rows[0])) for r in rows for i in r):
            continue
        if rng.random() < .3 and len(rows) < 18:      # more states, renamed: letters up to T
            n = rng.randrange(len(rows) + 1, 21)
            names = [0] + sorted(rng.sample(range(1, n), len(rows) - 1))
            big = [[None] * len(rows[0]) for _ in range(n)]
            for s, r in enumerate(rows):
                big[names[s]] = [i and (i[0], i[1], names[i[2]]) for i in r]
            rows = big
        rows = [[(1, True, 30) if i is None and rng.random() < .3 else i for i in r] for r in rows]
        w = expected(rows, 20_000)
        if w is None and rng.random() < .985:
            continue
        if w and w[0] < 5 and rng.random() < .8:
            continue
        return {'prog': ref.show(rows)}


def check(ctx, case):
    rows = ref.parse(case['prog'])
    if any(i and (len(rows) <= i[2] != 30 or i[0] >= len(rows[0])) for r in rows for i in r):
        raise Skip
    w = expected(rows, 100_000)
    text = C.make_c(case['prog'])
    try:
        r = run_c(text, *(w or (-7, None)), 20 if w else .1)
    except HarnessError as err:
        raise Violation(f'{case["prog"]!r}: the C program does not compile: {str(err)[:400]}')
    ctx.cls('stops' if w else 'goes on')
    if w and w[0] >= 5:
        ctx.nontrivial_case()
    if w and r != 0:
        raise Violation(f'{case["prog"]!r}: should stop after {w[0]} steps with {w[1]} marks, the C program '
                        + ('goes on' if r is None else f'ends with {r}'))
    if not w and r == -6:
        raise Violation(f'{case["prog"]!r}: should not stop within 100000 steps, the C program does')


def parts(tier):
    k = 1 if tier == 'quick' else 25
    return [Part('compiled', 'rnd', gen, check, 1800 * k, shrink=progs.shrink_case())]
