"""Drawings parsed back and compared with the program."""
import random
import re
import shutil
import subprocess

import bridge
import progs
import ref
from common import Part, Skip, Violation

PROPERTY = 'C27'
RULE = ('random tables up to 12 states and 8 colors (a few beyond), sparse and dense, tree-normal, mutated and published programs, halting '
        'moves included.  The text make_dot gives is parsed and its edges compared, as a multiset with colors, with the defined slots; '
        'the order of the colors is pinned by the one instruction that reads each symbol.  '
        'A share of the texts is handed to dot, which must draw the same edges.  Non-trivial: at least three edges.')
ASSUMPTIONS = ['the color of a read symbol is the same in every drawing, and different from that of other symbols',
               'dot is installed (the share that uses it is left out otherwise)']
D = None
DOT = shutil.which('dot')
PALETTE: dict = {}


def prepare(tier):
    global D
    bridge.load_rust()
    from tools import dot
    D = dot
    ref.lib()
    progs.corpus()
    PALETTE.clear()
    # the color of each read symbol, from one-instruction programs
    for c in range(8):
        row = ['...'] * 8
        row[c] = '1RB'
        e = edges(D.make_dot(' '.join(row) + '  ' + ' '.join(['...'] * 8)))
        if len(e) == 1:
            PALETTE[c] = e[0][2]


def name(s):
    return chr(65 + s)


EDGE = re.compile(r'^\s*"?(\w+)"?\s*->\s*"?(\w+)"?\s*\[(.*?)\]\s*;?\s*$')


def edges(text):
    out = []
    for line in text.splitlines():
        if '->' in line and 'label=' not in line.split('->')[0]:
            m = EDGE.match(line)
            if not m:
                raise Violation(f'not an edge: {line!r}')
            c = re.search(r'color\s*=\s*"?\s*([#\w]+)\s*"?', m[3])
            out.append((m[1], m[2], c[1] if c else ''))
    return out


def gen(rng):
    k = rng.random()
    if k < .6:
        S, C = rng.choice([(2, 2), (3, 2), (2, 3), (5, 2), (2, 5), (4, 4), (3, 6), (2, 8), (12, 2), (8, 8), (10, 3), (26, 2), (7, 7), (1, 2)])
        dense = rng.choice([.2, .6, .9, 1])
        rows = [[(rng.randrange(C), rng.random() < .5, rng.randrange(S)) if rng.random() < dense else None for _ in range(C)]
                for _ in range(S)]
        prog = ref.show(rows)
    else:
        prog = progs.any_prog(rng, maxdim=(20, 8), w=(4, 3, 3))
    return {'prog': prog, 'halts': rng.random() < .2, 'draw': False}


def gen_draw(rng):
    return {**gen(rng), 'draw': True}


def check(ctx, case):
    prog = case['prog']
    if case['halts'] and '...' in prog:
        prog = prog.replace('...', '1R_', 1)
    rows = [r.split(' ') for r in prog.split('  ')]
    want = sorted((name(s), i[2:], PALETTE.get(c, f'symbol {c}'))
                  for s, r in enumerate(rows) for c, i in enumerate(r) if i != '...')
    if not want:
        raise Skip
    text = D.make_dot(prog)
    got = sorted(edges(text))
    if len(set(PALETTE.values())) != 8 or len(PALETTE) != 8:
        raise Violation(f'colors of the read symbols: {PALETTE}')
    if len(want) >= 3:
        ctx.nontrivial_case()
    ctx.cls('with a halting move' if any(t == '_' for _, t, _ in want) else 'plain')
    if got != want:
        raise Violation(f'{prog!r}: missing {[e for e in want if e not in got][:4]}, '
                        f'extra {[e for e in got if e not in want][:4]}, {len(got)} edges for {len(want)} instructions')
    if case['draw']:
        if not DOT:
            raise Skip
        p = subprocess.run([DOT, '-Tplain'], input=text, capture_output=True, text=True, timeout=60)
        if p.returncode:
            raise Violation(f'{prog!r}: dot says {p.stderr[:300]}')
        drawn = []
        for line in p.stdout.splitlines():
            f = line.split()
            if f[0] == 'edge':
                drawn.append((f[1].strip('"'), f[2].strip('"'), f[-1].strip('"')))
        ctx.cls('drawn')
        if sorted((a, b) for a, b, _ in drawn) != [(a, b) for a, b, _ in want]:
            raise Violation(f'{prog!r}: dot draws {drawn}')


def parts(tier):
    k = 1 if tier == 'quick' else 30
    return [Part('edges', 'rnd', gen, check, 60_000 * k, shrink=progs.shrink_case()),
            Part('drawn', 'rnd', gen_draw, check, 400 * k, shrink=progs.shrink_case())]
