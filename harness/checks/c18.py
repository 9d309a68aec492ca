"""Program texts, tables, slots and instructions there and back."""
import bridge
import progs
import ref
from common import Part, Violation

PROPERTY = 'C18'
RULE = ('texts: random rectangular tables up to 60 states and 10 colors with few or many undefined slots, published programs, '
        'surrounding blanks and line ends; tables and stated dimensions (also wider than needed) made directly; every slot, '
        'state and instruction up to 60 states.  Our own reader says what the table is.  '
        'Non-trivial: the program has an undefined slot, more than 2 colors or more than 2 states.')
ASSUMPTIONS = ['texts are in the standard layout: two blanks between states, one between instructions, one digit for a color, '
               'one letter for a state (A, B, ... in character order), three dots for an undefined slot']
rs = None
T = None


def prepare(tier):
    global rs, T
    rs = bridge.load_rust()
    import tools
    from tools import normalize
    from tm import parse, show
    T = (tools, normalize, parse, show)
    progs.corpus()


def rows_gen(rng):
    if rng.random() < .25:
        return ref.parse(progs.corpus_pick(rng, (30, 10)))
    S = rng.choice([1, 2, 2, 3, 4, 5, 6, 7, 8, 12, 26, 27, 40, 60])
    C = rng.choice([1, 2, 2, 3, 4, 5, 6, 8, 10])
    u = rng.choice([0, .1, .3, .6, .9, 1])
    ms, mc = rng.choice([(S, C), (max(1, S - 1), C), (S, max(1, C - 1)), (1, C)])
    return [[None if rng.random() < u else (rng.randrange(mc), rng.random() < .5, rng.randrange(ms))
             for _ in range(C)] for _ in range(S)]


def gen(rng):
    return {'prog': ref.show(rows_gen(rng)), 'pad': [rng.choice(['', '', ' ', '\n', '  ']), rng.choice(['', '', '\n', ' ', '  \n'])],
            'more': [rng.choice([0, 0, 1, 3]), rng.choice([0, 0, 1, 2])]}


def name(s):
    return chr(65 + s)


def same(what, got, want):
    if got != want:
        raise Violation(f'{what}: {got!r}, should be {want!r}')


def check(ctx, case):
    text = case['prog']
    tools, norm, parse, show = T
    rows = ref.parse(text)
    S, C = ref.dims(rows)
    table = {(s, c): i for s, r in enumerate(rows) for c, i in enumerate(r) if i is not None}
    if S > 2 or C > 2 or len(table) < S * C:
        ctx.nontrivial_case()
    ctx.cls('complete' if len(table) == S * C else 'partial')
    comp = parse.tcompile(text)
    same(f'table of {text!r}', comp, table)
    padded = case['pad'][0] + text + case['pad'][1]
    same(f'table of {padded!r}', parse.tcompile(padded), table)
    same(f'text of {text!r} with its dimensions', show.show_comp(comp, (S, C)), text)
    # without dimensions: the smallest table holding all mentions, at least 2 x 2
    ms = max([2] + [max(s, i[2]) + 1 for (s, _), i in table.items()])
    mc = max([2] + [max(c, i[0]) + 1 for (_, c), i in table.items()])
    for given, (a, b) in ((None, (ms, mc)), ('more', (S + case['more'][0], C + case['more'][1]))):
        want = ref.show([[table.get((s, c)) for c in range(b)] for s in range(a)])
        if b > 10:
            continue
        got = show.show_comp(comp) if given is None else show.show_comp(comp, (a, b))
        same(f'text of {text!r} shown with {given}', got, want)
        same(f'{want!r} read again', parse.tcompile(got), table)
    # the toolbox readers
    same(f'toolbox table of {text!r}', tools.parse(text), rows)
    same(f'dimensions of {text!r}', tools.get_params(text), (S, C))
    n = norm.Normalizer(text)
    same(f'normalizer of {text!r}', str(n), text)
    same(f'states of {text!r}', n.states, set(range(S)))
    same(f'colors of {text!r}', n.colors, set(range(C)))
    same(f'used instructions of {text!r}', dict(n.used_instr_slots), table)
    for slot, ins in table.items():
        same(f'{text!r}[{slot}]', n[slot], ins)
    if S > 1:
        w = norm.init_prog(S, C)
        same(f'initial program for {S}, {C}', w, ref.show([[(1, True, 1) if (s, c) == (0, 0) else None for c in range(C)]
                                                         for s in range(S)]))
        same('initial normalizer', str(norm.Normalizer.init(S, C)), w)


def pieces():
    for s in range(60):
        yield {'state': s}
        for c in range(10):
            yield {'slot': [s, c]}
            for r in (False, True):
                yield {'instr': [c, r, s]}
    yield {'state': None}
    yield {'instr': None}


def check_piece(ctx, case):
    tools, norm, parse, show = T
    ctx.nontrivial_case()
    if 'state' in case:
        s = case['state']
        same(f'state {s}', show.show_state(s), '.' if s is None else name(s))
    elif 'slot' in case:
        s, c = case['slot']
        same(f'slot {case}', show.show_slot((s, c)), f'{name(s)}{c}')
        same(f'slot {name(s)}{c}', parse.read_slot(f'{name(s)}{c}'), (s, c))
    else:
        i = case['instr'] and tuple(case['instr'])
        t = '...' if i is None else f'{i[0]}{"R" if i[1] else "L"}{name(i[2])}'
        same(f'instruction {i}', show.show_instr(i), t)
        same(f'instruction {t}', rs.read_instr(t), i)


def parts(tier):
    k = 1 if tier == 'quick' else 40
    return [Part('pieces', 'enum', pieces, check_piece, 0),
            Part('text', 'rnd', gen, check, 24_000 * k, shrink=progs.shrink_case())]
