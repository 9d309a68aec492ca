"""The run-length tape against a flat tape."""
import random

from common import Part, Violation

PROPERTY = 'C05'
RULE = ('a history: a random canonical tape (0-5 runs a side, counts 1-7 or huge), then 1-60 '
        'operations (step with a colour, direction and skip flag; copy; change a count; read every '
        'observer), mirrored on a flat cell list; contents, step counts, observers and '
        'canonical form are compared after every operation, and every copy taken on the way '
        'must still show the tape of the moment it was taken.  Non-trivial: some step skipped a '
        'run, merged runs or used up a run.')
ASSUMPTIONS = ['tapes start canonical, as every reachable tape is']


def rand_span(rng, scan, C, big):
    n = rng.choice([0, 0, 1, 1, 2, 2, 3, 4, 5])
    out, prev = [], None
    for i in range(n):
        c = rng.randrange(C)
        if c == prev or (i == n - 1 and c == 0):
            c = (c + 1) % C
            if c == prev or c == 0:
                c = next((x for x in range(1, C) if x != prev), None)
                if c is None:
                    break
        out.append([c, rng.choice([10**6, 10**15]) if big and rng.random() < .3
                    else rng.choice([1, 1, 1, 2, 2, 3, 4, 7])])
        prev = c
    while out and out[-1][0] == 0:
        out.pop()
    return out


def gen(rng):
    C = rng.choice([2, 2, 3, 3, 4, 5])
    big = rng.random() < .1
    blank = rng.random() < .3
    scan = 0 if blank else rng.randrange(C)
    case = {'l': [] if blank else rand_span(rng, scan, C, big), 'scan': scan,
            'r': [] if blank else rand_span(rng, scan, C, big), 'ops': []}
    nops = rng.choice([1, 3, 8, 20, 60])
    sk = rng.random()
    style = rng.random()
    sh = rng.random() < .5
    for _ in range(nops):
        k = rng.random()
        if k < .07:
            case['ops'].append(['clone'])
        elif k < .1:
            case['ops'].append(['set', int(rng.random() < .5), rng.randrange(4), rng.choice([1, 2, 3, 9])])
        elif k < .13:
            case['ops'].append(['enum'])
        else:
            if style < .5:      # sweeps, as real machines make
                if rng.random() < .25:
                    sh = not sh
            else:
                sh = rng.random() < .5
            case['ops'].append(['step', int(sh), rng.randrange(C), int(rng.random() < sk)])
    return case


class Flat:
    """cells as runs are too big to write out: list of [colour, count] with
    every cell counted, recomputed from scratch (never merged in place)"""

    def __init__(self, l, scan, r):
        self.l, self.scan, self.r = [list(b) for b in l], scan, [list(b) for b in r]

    @staticmethod
    def canon(span):
        out = []
        for c, n in span:
            if n <= 0:
                continue
            if out and out[-1][0] == c:
                out[-1][1] += n
            else:
                out.append([c, n])
        while out and out[-1][0] == 0:
            out.pop()
        return out

    def step(self, shift, color, skip):
        pull, push = (self.r, self.l) if shift else (self.l, self.r)
        n = 1
        if skip and pull and pull[0][0] == self.scan:
            n += pull[0][1]
            pull = pull[1:]
        nxt = 0
        if pull:
            nxt = pull[0][0]
            pull = [[nxt, pull[0][1] - 1]] + pull[1:]
        push = [[color, n]] + push
        pull, push = self.canon(pull), self.canon(push)
        self.l, self.r = (push, pull) if shift else (pull, push)
        self.scan = nxt
        return n


def spans(t):
    return ([[b.color, b.count] for b in t.lspan], t.scan, [[b.color, b.count] for b in t.rspan])


def sig_of(l, scan, r):
    return (scan, tuple((c,) if n == 1 else c for c, n in l),
            tuple((c,) if n == 1 else c for c, n in r))


def observe(t, m, rng):
    want = (m.l, m.scan, m.r)
    if spans(t) != want:
        raise Violation(f'tape {spans(t)} instead of {want}')

    def eq(what, a, b):
        if a != b:
            raise Violation(f'{what}: {a!r} instead of {b!r} on {want}')
    eq('blank', bool(t.blank), m.scan == 0 and not m.l and not m.r)
    eq('marks', t.marks, int(m.scan != 0) + sum(n for c, n in m.l + m.r if c))
    eq('at_edge(right)', bool(t.at_edge(True)), m.scan == 0 and not m.r)
    eq('at_edge(left)', bool(t.at_edge(False)), m.scan == 0 and not m.l)
    eq('span_lens', tuple(t.span_lens), (len(m.l), len(m.r)))
    eq('counts', tuple(map(list, t.counts)), ([n for _, n in m.l], [n for _, n in m.r]))
    sig = sig_of(m.l, m.scan, m.r)
    eq('signature', t.signature, sig)
    for side, span in enumerate((m.l, m.r)):
        for i, (_, n) in enumerate(span):
            eq(f'get_count{side, i}', t.get_count((side, i)), n)

    def shown(c, n):
        return f'{c}' if n == 1 else f'{c}^{n}'
    if all(n < 10**12 for _, n in m.l + m.r):
        eq('str', str(t), ' '.join([shown(*b) for b in reversed(m.l)] + [f'[{m.scan}]'] + [shown(*b) for b in m.r]))
    # compatibility with any signature: colours of the covered runs agree
    for _ in range(2):
        ls = sig[1][:rng.randrange(len(sig[1]) + 1)]
        r_ = sig[2][:rng.randrange(len(sig[2]) + 1)]
        sc = sig[0]
        k = rng.randrange(6)
        if k == 0:
            sc += 1
        elif k == 1 and ls:
            i = rng.randrange(len(ls))
            ls = ls[:i] + (5 if rng.random() < .5 else (5,),) + ls[i + 1:]
        elif k == 2 and r_:
            i = rng.randrange(len(r_))
            r_ = r_[:i] + (5 if rng.random() < .5 else (5,),) + r_[i + 1:]
        elif k == 3:
            ls = sig[1] + (1,)
        elif k == 4:
            r_ = sig[2] + ((1,),)
        if rng.random() < .5:  # singleness plays no part
            ls = tuple(x[0] if isinstance(x, tuple) else (x,) for x in ls)
        b = [x[0] if isinstance(x, tuple) else x for x in ls]
        c = [x[0] if isinstance(x, tuple) else x for x in r_]
        want_c = sc == m.scan and b == [c for c, _ in m.l][:len(b)] and c == [c for c, _ in m.r][:len(c)] \
            and len(b) <= len(m.l) and len(c) <= len(m.r)
        eq(f'sig_compatible{(sc, ls, r_)}', bool(t.sig_compatible((sc, ls, r_))), want_c)


def check(ctx, case):
    from tm.tape import Block, Tape

    def mk(s):
        return [Block(c, n) for c, n in s]
    rng = random.Random(len(case['ops']))
    if not case['l'] and not case['r'] and case['scan'] == 0:
        t = Tape()
    else:
        t = Tape(mk(case['l']), case['scan'], mk(case['r']))
    m = Flat(case['l'], case['scan'], case['r'])
    copies = []
    observe(t, m, rng)
    for op in case['ops']:
        if op[0] == 'step':
            _, sh, color, skip = op
            pull, push = (m.r, m.l) if sh else (m.l, m.r)
            if (skip and pull and pull[0][0] == m.scan) or (push and push[0][0] == color) \
                    or (pull and pull[0][1] == 1):
                ctx.nontrivial_case()
            a, b = t.step(bool(sh), color, bool(skip)), m.step(sh, color, skip)
            if a != b:
                raise Violation(f'step {op} returned {a} instead of {b}')
        elif op[0] == 'clone':
            c = t.clone()
            copies.append((c, (list(map(list, m.l)), m.scan, list(map(list, m.r)))))
            if len(copies) % 2:       # go on with the copy, keep the original
                t, copies[-1] = c, (t, copies[-1][1])
            ctx.cls('copies')
        elif op[0] == 'enum':
            e = t.to_enum()
            copies.append((e.tape, (list(map(list, m.l)), m.scan, list(map(list, m.r)))))
            if e.signature != t.signature or e.scan != t.scan:
                raise Violation('instrumented copy differs')
        else:
            _, side, i, n = op
            span = m.r if side else m.l
            if i >= len(span):
                continue
            span[i][1] = n
            t.set_count((side, i), n)
        observe(t, m, rng)
    for c, want in copies:
        if spans(c) != want:
            raise Violation(f'a copy taken earlier now shows {spans(c)} instead of {want}')


def shrink(case):
    ops = case['ops']
    n = len(ops)
    k = n // 2
    while k:
        for i in range(0, n, k):
            yield {**case, 'ops': ops[:i] + ops[i + k:]}
        k //= 2
    for s in 'lr':
        if case[s]:
            yield {**case, s: case[s][:-1]} if len(case[s]) < 2 or case[s][-2][0] else {**case, s: []}
            for i, (c, v) in enumerate(case[s]):
                if v > 1:
                    q = [list(b) for b in case[s]]
                    q[i][1] = 1 if v > 3 else v - 1
                    yield {**case, s: q}


def parts(tier):
    return [Part('history', 'rnd', gen, check, 40_000 if tier == 'quick' else 2_000_000, shrink=shrink)]
