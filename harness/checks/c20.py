"""Normalisation against simulation and an independently computed normal form."""
import bridge
import progs
import ref
from common import Part, Skip, Violation

PROPERTY = 'C20'
RULE = ('norm: random, mutated and published programs after a random renaming of states and colors and a random mirroring, '
        'with spare states and colors added, or starting with some blank-writing steps.  Original and normalised program are '
        'run 3000 steps each and their endings, steps, marks and final tapes compared; where the order of first mention fixes every name the '
        'whole text is compared with a normal form computed independently.  swap: two renamings compared with renaming by '
        'hand.  expand: compact listings written by hand.  Non-trivial: normalising changes the text.')
ASSUMPTIONS = ['every state and color that is mentioned has a row and a column',
               'programs that write only blanks at first come out as if started in the first state that writes a mark '
               '(leading blank-writing steps do not count), as the project intends']
N = None


def prepare(tier):
    global N
    bridge.load_rust()
    from tools import normalize
    N = normalize
    progs.corpus()


def relabel(rng, rows, starts=True):
    S, C = ref.dims(rows)
    ps = [0] + rng.sample(range(1, S), S - 1)
    pc = [0] + rng.sample(range(1, C), C - 1)
    m = rng.random() < .5
    out = [[None] * C for _ in range(S)]
    for s in range(S):
        for c in range(C):
            i = rows[s][c]
            if i:
                out[ps[s]][pc[c]] = (pc[i[0]], i[1] ^ m, ps[i[2]])
    return out


def gen(rng):
    while True:
        rows = ref.parse(progs.any_prog(rng, maxdim=(12, 10)))
        S, C = ref.dims(rows)
        if all(i is None or i[2] < S and i[0] < C for r in rows for i in r):
            break
    if rng.random() < .15:     # a random tail of states that write blanks first
        k = rng.choice([1, 1, 2, 3])
        rows = [[i and (i[0], i[1], i[2] + k) for i in r] for r in rows]
        head = []
        for j in range(k):
            head.append([(0, rng.random() < .5, j + 1)] + [
                None if rng.random() < .4 else (rng.randrange(C), rng.random() < .5, rng.randrange(S + k))
                for _ in range(C - 1)])
        rows = head + rows
        S += k
        rows = [rows[0]] + rows[1:]
    if rng.random() < .2:
        k = rng.choice([1, 2])
        rows += [[None if rng.random() < .6 else (rng.randrange(C), rng.random() < .5, rng.randrange(S + k))
                  for _ in range(C)] for _ in range(k)]
    if rng.random() < .15 and C < 9:
        rows = [r + [None] * rng.choice([1]) for r in rows]
    return {'prog': ref.show(relabel(rng, rows))}


def canon(rows):
    """rows renamed into order of first mention; None when that order does not
    name every column before it is read"""
    S, C = ref.dims(rows)
    mirror = not rows[0][0][1]
    so, co = [0], [0]
    r = 0
    while r < len(so):
        c = 0
        while c < len(co):
            i = rows[so[r]][co[c]]
            if i:
                if i[0] not in co:
                    co.append(i[0])
                if i[2] not in so:
                    so.append(i[2])
            c += 1
        if any(rows[so[r]][x] for x in range(C) if x not in co):
            return None
        r += 1
    if any(i for s in range(S) if s not in so for i in rows[s]) or any(r[c] for c in range(C) if c not in co for r in rows):
        return None
    return [[rows[s][c] and (co.index(rows[s][c][0]), rows[s][c][1] ^ mirror, so.index(rows[s][c][2])) for c in co]
            for s in so]


def wellordered(rows):
    for k in (0, 2):
        m = 0
        for r in rows:
            for i in r:
                if i:
                    if i[k] > m + 1:
                        return False
                    m = max(m, i[k])
    return True


def check(ctx, case):
    prog = case['prog']
    rows = ref.parse(prog)
    S, C = ref.dims(rows)
    if any(i and (i[2] >= S or i[0] >= C) for r in rows for i in r):
        raise Skip
    out = N.normalize(prog)
    if out != prog:
        ctx.nontrivial_case()
    got = ref.parse(out)
    if len(got) > S or any(len(r) != len(got[0]) for r in got) or len(got[0]) > C:
        raise Violation(f'{prog!r} became {out!r}: not a table within the old dimensions')
    start, lead, seen = 0, 0, set()
    while rows[start][0] and rows[start][0][0] == 0 and start not in seen:
        seen.add(start)
        start = rows[start][0][2]
        lead += 1
    if rows[start][0] is None or rows[start][0][0] == 0:
        # never writes anything
        ctx.cls('never writes')
        start = lead = 0
        live = False
    else:
        ctx.cls('leading blank steps' if lead else 'writes at once')
        live = True
    a = ref.run(rows, 3000, want_tape=True)
    b = ref.run(got, 3000 - lead, want_tape=True)
    if (a.status, a.steps - lead, a.marks) != (b.status, b.steps, b.marks):
        raise Violation(f'{prog!r} became {out!r}: {a.kind} after {a.steps} steps with {a.marks} marks, '
                        f'but {b.kind} after {b.steps} steps ({lead} leading) with {b.marks}')
    ta = [int(x != 0) for x in a.tape.strip(b'\0')]
    tb = [int(x != 0) for x in b.tape.strip(b'\0')]
    if ta != tb and ta[::-1] != tb:
        raise Violation(f'{prog!r} became {out!r}: the final tapes differ')
    if got[0][0] is not None and not got[0][0][1]:
        raise Violation(f'{prog!r} became {out!r}: the first move is to the left')
    if not live:
        return

    def sw(x):
        return start if x == 0 else 0 if x == start else x
    k = canon([[i and (i[0], i[1], sw(i[2])) for i in rows[sw(s)]] for s in range(S)])
    if k is None:
        ctx.cls('order leaves names open')
        return
    ctx.cls('order fixes all names')
    if got != k:
        raise Violation(f'{prog!r} became {out!r}, normal form is {ref.show(k)!r}')
    if not wellordered(got):
        raise Violation(f'{prog!r} became {out!r}: not in order of first mention')
    again = N.normalize(out)
    if again != out:
        raise Violation(f'{prog!r} became {out!r} and then {again!r}')


def gen_swap(rng):
    g = gen(rng)
    rows = ref.parse(g['prog'])
    S, C = ref.dims(rows)
    return {'prog': g['prog'], 'ops': [[rng.random() < .5, rng.randrange(S), rng.randrange(S), rng.randrange(C), rng.randrange(C)]
                                       for _ in range(rng.choice([1, 2, 3]))]}


def check_swap(ctx, case):
    rows = ref.parse(case['prog'])
    S, C = ref.dims(rows)
    n = N.Normalizer(case['prog'])
    for st, a, b, c, d in case['ops']:
        if a >= S or b >= S or c >= C or d >= C:
            raise Skip
        if st:
            n.swap_states(a, b)
            f = {a: b, b: a}
            rows = [[i and (i[0], i[1], f.get(i[2], i[2])) for i in rows[f.get(s, s)]] for s in range(S)]
        else:
            n.swap_colors(c, d)
            f = {c: d, d: c}
            rows = [[r[f.get(x, x)] and (f.get(r[f.get(x, x)][0], r[f.get(x, x)][0]),) + r[f.get(x, x)][1:] for x in range(C)]
                    for r in rows]
    if ref.show(rows) != case['prog']:
        ctx.nontrivial_case()
    if len({(s, c): i for (s, c), i in n.used_instr_slots}) != sum(i is not None for r in rows for i in r):
        raise Violation(f'{case}: instructions lost')
    got = [[n.prog[s][c] for c in range(C)] for s in range(S)]
    if got != rows:
        raise Violation(f'{case}: {got}, should be {rows}')


def gen_expand(rng):
    g = gen(rng)
    return {'prog': g['prog'], 'undef': [rng.choice(['---', '---', '1RZ', '1LZ', '0RZ', '2RZ', '1R-', '0L-']) for _ in range(3)],
            'end': rng.choice(['', '', '\n'])}


def check_expand(ctx, case):
    rows = ref.parse(case['prog'])
    k = [0]

    def cell(i):
        if i is not None:
            return ref.show_ins(i)
        k[0] += 1
        u = case['undef'][k[0] % 3]
        return u if len(u) == 3 else u * 3
    compact = '_'.join(''.join(cell(i) for i in r) for r in rows)
    got = N.expand(compact + case['end'])
    if k[0]:
        ctx.nontrivial_case()
    if got != case['prog']:
        raise Violation(f'{compact!r} expanded to {got!r}, should be {case["prog"]!r}')


def parts(tier):
    k = 1 if tier == 'quick' else 60
    sh = progs.shrink_case()
    return [Part('norm', 'rnd', gen, check, 40_000 * k, shrink=sh),
            Part('swap', 'rnd', gen_swap, check_swap, 8_000 * k, shrink=sh),
            Part('expand', 'rnd', gen_expand, check_expand, 8_000 * k, shrink=sh)]
