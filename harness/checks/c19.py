"""Graph facts against plain graph algorithms."""
import random

import bridge
import progs
import ref
from common import Part, Skip, Violation

PROPERTY = 'C19'
RULE = ('programs: random tables whose arrows are dense, sparse, chains, rings or rings joined by a few arrows (up to 12 states '
        'and 6 colors), published ones and mutations.  Every fact is recomputed from the arrows with plain set algebra, '
        'reachability by closure, and reduction by applying the elementary reductions in random order until none applies.  '
        'Non-trivial: the graph is connected but not by a direct arrow from the last state, or does not reduce to nothing.')
ASSUMPTIONS = ['the elementary reductions commute (checked: two random orders are compared in every case)']
rs = None
G = None


def prepare(tier):
    global rs, G
    rs = bridge.load_rust()
    from tools import graph
    G = graph
    progs.corpus()


def gen(rng):
    k = rng.random()
    if k < .2:
        return {'prog': progs.corpus_pick(rng, (12, 8)), 'order': rng.getrandbits(16)}
    if k < .3:
        return {'prog': ref.show(progs.mutate(rng, ref.parse(progs.corpus_pick(rng, (12, 8))))), 'order': rng.getrandbits(16)}
    S = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 12])
    C = rng.choice([2, 2, 2, 3, 4, 6])
    u = rng.choice([0, 0, .1, .3, .5])
    perm = list(range(S))
    if rng.random() < .7:
        rng.shuffle(perm)
    kind = rng.choice(['any', 'any', 'near', 'ring', 'chain', 'few'])
    few = [rng.randrange(S) for _ in range(rng.choice([2, 3]))]
    at = {s: i for i, s in enumerate(perm)}

    def target(s, c):
        if kind == 'any':
            return rng.randrange(S)
        if kind == 'near':
            return perm[max(0, min(S - 1, at[s] + rng.choice([-1, 0, 1, 2])))]
        if kind == 'ring':
            return perm[(at[s] + 1) % S] if c == 0 or rng.random() < .7 else rng.choice([s, rng.randrange(S)])
        if kind == 'chain':
            return perm[min(S - 1, at[s] + 1)] if rng.random() < .8 else rng.choice([s, rng.randrange(S)])
        return rng.choice(few) if rng.random() < .8 else rng.randrange(S)
    rows = [[None if rng.random() < u else (rng.randrange(C), rng.random() < .5, target(s, c)) for c in range(C)]
            for s in range(S)]
    if rng.random() < .5:
        rows[0][0] = (1, True, 1)
    return {'prog': ref.show(rows), 'order': rng.getrandbits(16)}


def reduced(graph, rng, sources):
    g = {k: set(v) for k, v in graph.items()}
    while True:
        ops = []
        for s in g:
            if s in g[s]:
                ops.append(('self', s))
                continue
            ways_in = sum(s in v for v in g.values())
            if not g[s] or (sources and not ways_in):
                ops.append(('drop', s))
            elif len(g[s]) == 1 or ways_in == 1:
                ops.append(('merge', s))
        if not ops:
            return g
        kind, s = rng.choice(ops)
        if kind == 'self':
            g[s].discard(s)
            continue
        out = g.pop(s)
        for v in g.values():
            if s in v:
                v.discard(s)
                if kind == 'merge':
                    v |= out


def shape(g):
    return len(g), sum(map(len, g.values())), tuple(sorted((len(g[s]), sum(s in v for v in g.values())) for s in g))


def check(ctx, case):
    prog = case['prog']
    rows = ref.parse(prog)
    S, C = ref.dims(rows)
    if any(i and i[2] >= S for r in rows for i in r):
        raise Skip  # a state that is only ever a target
    g = G.Graph(prog)
    exits = {s: {i[2] for i in r if i} for s, r in enumerate(rows)}
    entries = {s: {t for t in exits if s in exits[t]} for s in exits}
    refl = {s for s in exits if s in exits[s]}
    zrefl = {s for s, r in enumerate(rows) if r[0] and r[0][2] == s}
    order = [i[2] for r in rows for i in r if i]
    first = [order.index(s) if s in order else -1 for s in range(1, S)]
    ways = {s: exits[s] - {s} for s in exits}
    todo, reach = list(ways[S - 1]), set()
    while todo:
        s = todo.pop()
        if s not in reach:
            reach.add(s)
            todo += ways[s]
    conn = all(ways.values()) and 0 in reach

    def same(what, got, want):
        if got != want:
            raise Violation(f'{prog!r}: {what} {got!r}, should be {want!r}')

    same('states', tuple(g.states), tuple(range(S)))
    same('colors', tuple(g.colors), tuple(range(C)))
    same('arrows', {s: tuple(t) for s, t in g.arrows.items()},
         {s: tuple(i[2] if i else None for i in r) for s, r in enumerate(rows)})
    same('exit points', g.exit_points, exits)
    same('entry points', g.entry_points, entries)
    same('reflexive states', g.reflexive_states, refl)
    same('zero-reflexive states', g.zero_reflexive_states, zrefl)
    same('irreflexive', g.is_irreflexive, not refl)
    same('zero-reflexive', g.is_zero_reflexive, bool(zrefl))
    ed = all(len(v) == C for v in entries.values())
    xd = all(len(v) == C for v in exits.values())
    same('entries dispersed', g.entries_dispersed, ed)
    same('exits dispersed', g.exits_dispersed, xd)
    same('dispersed', g.is_dispersed, ed and xd)
    same('normal', g.is_normal, -1 not in first and first == sorted(first))
    same('connected', g.is_connected, conn)
    same('connected (fast)', rs.py_is_connected(prog, S), conn)
    same('letters', str(g), ''.join(chr(65 + i[2]) if i else '.' for r in rows for i in r))

    rng = random.Random(case['order'])
    left = reduced(exits, rng, False)
    other = reduced(exits, rng, False)
    core = reduced(exits, rng, True)
    if len(left) != len(other):
        raise RuntimeError('the elementary reductions do not commute')
    r = g.reduced
    # states nothing leads to: the project drops some of them, so only what
    # holds with and without them is required
    if not left and not g.is_simple or core and g.is_simple:
        raise Violation(f'{prog!r}: simple {g.is_simple}, but reducing leaves {left}')
    same('simple', g.is_simple, not r)
    for s in r:
        if s in r[s]:
            raise Violation(f'{prog!r}: reduced graph {r} keeps a self-arrow')
        if len(r[s]) < 2 or sum(s in v for v in r.values()) == 1 or not r[s] <= set(r):
            raise Violation(f'{prog!r}: reduced graph {r} can be reduced further at {s}')
    same('reduced graph, by size', shape(reduced(r, rng, True)), shape(core))
    same('exit points afterwards', g.exit_points, exits)
    ctx.cls(('connected' if conn else 'unconnected') + (', simple' if not left else ', irreducible'))
    if (conn and 0 not in ways[S - 1]) or left:
        ctx.nontrivial_case()


def parts(tier):
    k = 1 if tier == 'quick' else 60
    return [Part('facts', 'rnd', gen, check, 40_000 * k, shrink=progs.shrink_case())]
