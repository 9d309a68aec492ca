"""Generators and shrinkers for Turing-machine programs (text form)."""
from __future__ import annotations

import os
import random

import ref
from bridge import VERIF

DIMS = [(2, 2), (3, 2), (2, 3), (4, 2), (2, 4), (5, 2), (3, 3), (2, 5), (6, 2), (2, 6), (4, 3), (3, 4), (7, 2)]
WEIGHTS = [3, 12, 12, 16, 16, 14, 14, 8, 6, 4, 5, 5, 3]

_corpus = None


def corpus():
    """{dims: [program]} of programs people have published or enumerated"""
    global _corpus
    if _corpus is None:
        _corpus = {}
        with open(os.path.join(VERIF, 'corpus', 'progs.txt')) as fp:
            for line in fp:
                p = line.rstrip('\n')
                rows = ref.parse(p)
                _corpus.setdefault(ref.dims(rows), []).append(p)
    return _corpus


def corpus_pick(rng: random.Random, maxdim=(8, 6)) -> str:
    c = corpus()
    keys = [k for k in sorted(c) if k[0] <= maxdim[0] and k[1] <= maxdim[1]]
    k = rng.choices(keys, [min(len(c[k]), 400) ** 0.7 for k in keys])[0]
    return rng.choice(c[k])


def mutate(rng: random.Random, rows, undef_ok=True):
    rows = [list(r) for r in rows]
    S, C = ref.dims(rows)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        s, c = rng.randrange(S), rng.randrange(C)
        if (s, c) == (0, 0):
            continue
        i = rows[s][c]
        k = rng.randrange(6)
        if i is None or k == 0:
            rows[s][c] = (rng.randrange(C), rng.random() < .5, rng.randrange(S))
        elif k == 1:
            rows[s][c] = (rng.randrange(C), i[1], i[2])
        elif k == 2:
            rows[s][c] = (i[0], not i[1], i[2])
        elif k == 3:
            rows[s][c] = (i[0], i[1], rng.randrange(S))
        elif k == 4 and undef_ok:
            rows[s][c] = None
        else:
            s2, c2 = rng.randrange(S), rng.randrange(C)
            if (s2, c2) != (0, 0):
                rows[s][c], rows[s2][c2] = rows[s2][c2], rows[s][c]
    return rows


def tnf(rng: random.Random, dims=None, lim=300):
    S, C = dims or rng.choices(DIMS, WEIGHTS)[0]
    full = S * C
    tries = 6 if rng.random() < .8 else 1
    for _ in range(tries):
        rows = _tnf1(rng, S, C, full, lim)
        if ref.run(rows, 40).steps >= 40:
            break
    return rows


def _tnf1(rng, S, C, full, lim):
    u = rng.choices([0, 1, 2, 3, rng.randrange(full)], [4, 10, 3, 2, 1])[0]
    return ref.gen_tnf(rng.getrandbits(64), S, C, max(2, full - u), lim,
                       1 if rng.random() < .25 else 0)


def any_prog(rng: random.Random, maxdim=(7, 6), w=(6, 3, 1)) -> str:
    """tree-normal random programs, mutated known ones, known ones"""
    k = rng.choices(range(3), w)[0]
    if k == 0:
        rows = tnf(rng)
    else:
        rows = ref.parse(corpus_pick(rng, maxdim))
        if k == 1:
            rows = mutate(rng, rows)
    return ref.show(rows)


def shrinks(p: str):
    """simpler programs, big cuts first; keeps A0 = 1RB-like start"""
    try:
        rows = ref.parse(p)
    except Exception:
        return
    S, C = ref.dims(rows)
    if S > 2:  # drop the last state when nothing refers to it
        if all(i is None or i[2] < S - 1 for r in rows[:-1] for i in r):
            yield ref.show(rows[:-1])
    if C > 2 and all(i is None or i[0] < C - 1 for r in rows for i in r[:-1]):
        yield ref.show([r[:-1] for r in rows])
    for s in range(S):
        for c in range(C):
            if (s, c) != (0, 0) and rows[s][c] is not None:
                q = [list(r) for r in rows]
                q[s][c] = None
                yield ref.show(q)
    for s in range(S):
        for c in range(C):
            i = rows[s][c]
            if i is None or (s, c) == (0, 0):
                continue
            for j in ((0, i[1], i[2]), (i[0], True, i[2]), (i[0], i[1], 0),
                      (max(0, i[0] - 1), i[1], i[2]), (i[0], i[1], max(0, i[2] - 1))):
                if j != i:
                    q = [list(r) for r in rows]
                    q[s][c] = j
                    yield ref.show(q)


def shrink_case(field='prog', nums=()):
    """shrinker for dict cases holding a program and some numbers"""
    def go(case):
        for p in shrinks(case[field]):
            yield {**case, field: p}
        for n in nums:
            v = case.get(n)
            if isinstance(v, int) and v > 1:
                for w in (v // 2, v - v // 10 - 1 if v > 10 else v - 1):
                    if w >= 1:
                        yield {**case, n: w}
    return go


_rich = None


def rich():
    """programs on which the accelerated simulators prove and apply rules"""
    global _rich
    if _rich is None:
        with open(os.path.join(VERIF, 'corpus', 'rich.txt')) as fp:
            _rich = [line.rstrip('\n') for line in fp]
    return _rich


def rich_prog(rng: random.Random) -> str:
    k = rng.random()
    if k < .45:
        return rng.choice(rich())
    if k < .8:
        return ref.show(mutate(rng, ref.parse(rng.choice(rich()))))
    return any_prog(rng, w=(3, 4, 4))


def confined(rng: random.Random, S: int, C: int, k: int, pos: int = 0, climb: int = 150, cap: int = 3000) -> str:
    """a program that, started in A at a cell of a blank window of k cells,
    works inside the window for a long time before it leaves it (or stops
    at a slot not filled in); found by filling in slots as they are met and
    then climbing"""
    def instr(p):
        sh = p == 0 if p in (0, k - 1) and k > 1 else rng.random() < .5
        return rng.randrange(C), sh, rng.randrange(S)

    def inside(rows, free):
        cells, st, p, n, seen, last = [0] * k, 0, pos, 0, set(), None
        while n < cap:
            key = st, p, tuple(cells)
            if key in seen:
                return -2, last
            seen.add(key)
            last = st, cells[p]
            i = rows[st][cells[p]]
            if i is None:
                if not free:
                    return n, last
                i = rows[st][cells[p]] = instr(p)
            cells[p] = i[0]
            p += 1 if i[1] else -1
            st = i[2]
            n += 1
            if not 0 <= p < k:
                return n, last
        return -2, last

    best = None
    for _ in range(4):
        rows = [[None] * C for _ in range(S)]
        n, last = inside(rows, True)
        if best is None or n > best[0]:
            best = n, last, rows
    for _ in range(climb):
        rows = [list(r) for r in best[2]]
        s, c = best[1] if rng.random() < .4 else (rng.randrange(S), rng.randrange(C))
        rows[s][c] = instr(rng.randrange(k))
        n, last = inside(rows, True)
        if n >= best[0]:
            best = n, last, rows
    rows = best[2]
    if rng.random() < .2:
        s, c = best[1]
        rows[s][c] = None
    for r in rows:
        for c in range(C):
            if r[c] is None and (S, C) != (1, 1) and rng.random() < .6:
                r[c] = instr(rng.randrange(k))
    if all(i is None for r in rows for i in r):
        rows[0][0] = instr(0)
    return ref.show(rows)
