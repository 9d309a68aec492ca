"""Instruction sequences and tree normal forms against step-by-step simulation."""
import contextlib
import io
import itertools
import re

import bridge
import progs
import ref
from checks.c20 import relabel
from common import Part, Skip, Violation

PROPERTY = 'C21'
RULE = ('seq: random tree-normal, mutated and published programs; the program is revealed slot by slot and each partial '
        'program is run from the blank tape by the plain simulator (when it has not ended within 50 thousand steps, only '
        'what was listed up to there is compared).  tnf: programs with states and colors renamed at random; the renamed text '
        'must be the one in which the names appear in the order in which the run (up to 1000 accelerated steps) first mentions them, '
        'with everything never mentioned in any order.  Non-trivial: at least 3 slots are revealed; the text is changed.')
ASSUMPTIONS = ['programs start with 1RB (seq); every state and color mentioned has a row and a column']
M = None


def prepare(tier):
    global M
    bridge.load_rust()
    import instr_seq as script
    from tools import instr_seq, tree_norm
    M = (instr_seq, tree_norm, script)
    progs.corpus()


def tidy(rows):
    S, C = ref.dims(rows)
    return all(i is None or i[2] < S and i[0] < C for r in rows for i in r)


def gen_seq(rng):
    while True:
        rows = ref.parse(progs.any_prog(rng, maxdim=(8, 8)))
        if rows[0][0] == (1, True, 1) and tidy(rows):
            return {'prog': ref.show(rows)}


def check_seq(ctx, case):
    rows = ref.parse(case['prog'])
    if rows[0][0] != (1, True, 1) or not tidy(rows):
        raise Skip
    S, C = ref.dims(rows)
    part = [[None] * C for _ in range(S)]
    part[0][0] = rows[0][0]
    want = []
    ends = True
    for _ in range(S * C - 1):
        r = ref.run(part, 50_000)
        if r.status != ref.UNDEF:
            ends = r.status == ref.SPIN
            break
        want.append((ref.show(part), r.steps, (r.state, r.color)))
        if rows[r.state][r.color] is None:
            break
        part[r.state][r.color] = rows[r.state][r.color]
    seq = M[0].instr_seq(case['prog'])
    got = [tuple(x) for x in (seq if ends else itertools.islice(seq, len(want)))]
    ctx.cls('complete' if ends else 'followed up to an endless run')
    if len(want) >= 3:
        ctx.nontrivial_case()
    if got != want:
        k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Violation(f'{case["prog"]!r}: entry {k} is {got[k] if k < len(got) else "missing"}, '
                        f'should be {want[k] if k < len(want) else "absent"}')
    if ends:
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            M[2].format_sequence(case['prog'] + '\n')
        rx = re.compile(r'"([^"]*)": \( *(\d+), \'(.)(.)\'\)')
        shown = [(m[1], int(m[2]), (ord(m[3]) - 65, int(m[4]))) for m in rx.finditer(out.getvalue())]
        if shown != want:
            raise Violation(f'{case["prog"]!r}: the script printed {shown}, should be {want}')


def late(rng):
    """a program that goes on to a state of its own from a slot it meets late"""
    for _ in range(40):
        rows = ref.parse(progs.rich_prog(rng) if rng.random() < .7 else progs.any_prog(rng))
        S, C = ref.dims(rows)
        if not tidy(rows) or S > 7 or C > 6:
            continue
        t, h, st, first = {}, 0, 0, {}
        for k in range(2500):
            sc = t.get(h, 0)
            first.setdefault((st, sc), k)
            i = rows[st][sc]
            if i is None:
                break
            t[h] = i[0]
            h += 1 if i[1] else -1
            st = i[2]
        slot = max(first, key=first.get)
        if first[slot] < 150:
            continue
        more = rng.random() < .3
        rows = [list(r) + [None] * more for r in rows]
        i = rows[slot[0]][slot[1]]
        rows[slot[0]][slot[1]] = (C if more else rng.randrange(C), rng.random() < .5, S if rng.random() < .8 or not more else rng.randrange(S))
        rows.append([None if rng.random() < .3 else (rng.randrange(C + more), rng.random() < .5, rng.randrange(S + 1)) for _ in range(C + more)])
        return {'prog': ref.show(relabel(rng, rows))}
    return None


def gen_tnf(rng):
    if rng.random() < .1 and (case := late(rng)):
        return case
    while True:
        rows = ref.parse(progs.any_prog(rng, maxdim=(10, 8)))
        if tidy(rows):
            rows = relabel(rng, rows)
            if rng.random() < .2:
                S, C = ref.dims(rows)
                rows.append([None if rng.random() < .5 else (rng.randrange(C), rng.random() < .5, rng.randrange(S + 1))
                             for _ in range(C)])
                rows = relabel(rng, rows)
            return {'prog': ref.show(rows)}


def check_tnf(ctx, case):
    rows = ref.parse(case['prog'])
    if not tidy(rows):
        raise Skip
    S, C = ref.dims(rows)
    out = M[1].tree_norm(case['prog'])
    got = ref.parse(out)
    # order of mention along the run
    so, co = [0], [0]
    t, h, st, cyc, last = {}, 0, 0, 0, None
    while len(so) < S or len(co) < C:
        sc = t.get(h, 0)
        i = rows[st][sc]
        if i is None:
            break
        if last != (st, sc) or i[2] != st:
            cyc += 1
        if cyc > 1000 or len(t) > 3000:
            break
        last = (st, sc)
        if i[0] not in co:
            co.append(i[0])
        if i[2] not in so:
            so.append(i[2])
        t[h] = i[0]
        h += 1 if i[1] else -1
        st = i[2]
    if cyc > 256 or len(t) > 2900:
        ctx.cls('followed long')
    if ref.dims(got) != (S, C):
        raise Violation(f'{case["prog"]!r} became {out!r}: other dimensions')
    if out != case['prog']:
        ctx.nontrivial_case()
    ctx.cls(f'{len(so)} of {S} states, {len(co)} of {C} colors mentioned')
    # a renaming: states so[k] -> k and colors co[k] -> k, the others somehow
    # (read off the instructions of the mentioned ones, then checked)
    fs = {s: k for k, s in enumerate(so)}
    fc = {c: k for k, c in enumerate(co)}
    todo = [(s, c) for s in so for c in co]
    rest_s = [s for s in range(S) if s not in fs]
    rest_c = [c for c in range(C) if c not in fc]

    def matches(fs, fc):
        return all(got[fs[s]][fc[c]] == (rows[s][c] and (fc[rows[s][c][0]], rows[s][c][1], fs[rows[s][c][2]]))
                   for s in range(S) for c in range(C))
    if len(rest_s) <= 5 and len(rest_c) <= 5:
        if len(rest_s) > 4 and len(rest_c) > 3:
            raise Skip
        for ps in itertools.permutations(range(len(so), S)):
            for pc in itertools.permutations(range(len(co), C)):
                if matches({**fs, **dict(zip(rest_s, ps))}, {**fc, **dict(zip(rest_c, pc))}):
                    break
            else:
                continue
            break
        else:
            raise Violation(f'{case["prog"]!r} became {out!r}: not the renaming in which the run first mentions states '
                            f'{so} and colors {co} in order')
    else:
        for s, c in todo:
            a, b = got[fs[s]][fc[c]], rows[s][c]
            if (a is None) != (b is None) or a and (a[1] != b[1] or fs.get(b[2], a[2]) != a[2] or fc.get(b[0], a[0]) != a[0]):
                raise Violation(f'{case["prog"]!r} became {out!r}: slot {(s, c)} is not renamed properly')
    a, b = ref.run(rows, 2000), ref.run(got, 2000)
    if (a.status, a.steps, a.marks) != (b.status, b.steps, b.marks):
        raise Violation(f'{case["prog"]!r} became {out!r}: it does something else')


def parts(tier):
    k = 1 if tier == 'quick' else 60
    sh = progs.shrink_case()
    return [Part('tnf', 'rnd', gen_tnf, check_tnf, 24_000 * k, shrink=sh),
            Part('seq', 'rnd', gen_seq, check_seq, 24_000 * k, shrink=sh)]
