"""Macro machines against the machine they stand for."""
import random

import progs
import ref
from checks import c09
from common import Part, Skip, Violation

PROPERTY = 'C13'
RULE = ('random, mutated and published programs under block macros (1-6 cells), back-symbol macros (1-4) and nestings, dimensions '
        'stated or inferred, a fifth of the programs grown to stay inside their first macro cell for long.  Part instr: from the blank start, macro instructions are asked for in random order; '
        'the meaning of each macro colour and state (its cells, base state, side) is learned from the answers and every '
        'answer must be what simulating the cells inside the window gives.  Part walk: a macro run is expanded cell '
        'by cell and must pass through configurations of the base machine in order.  Part ending: the macro '
        'run of the accelerated simulator ends as the base machine ends.  Non-trivial: an '
        'instruction took more than one base step / the walk made 10 macro steps / the run ended.')
ASSUMPTIONS = ['back-symbol machines work on the mirror image of the tape, which is allowed']


def prepare(tier):
    c09.prepare(tier)
    import tm.macro  # noqa: F401


def gen(rng):
    prog = rng.choice([progs.rich_prog, progs.any_prog])(rng)
    S, C = ref.dims(ref.parse(prog))
    k = rng.random()
    case = {'prog': prog, 'seed': rng.getrandbits(32), 'params': rng.random() < .4}
    top = 12 if C == 2 else 7 if C == 3 else 5
    if k < .5:
        case['blocks'] = rng.randrange(2, min(7, top + 1))
    elif k < .8:
        case['backsym'] = rng.choice([1, 1, 2, 2, 3, 4])
        case['backsym'] = min(case['backsym'], top - 3)
    else:
        case['blocks'] = rng.choice([2, 2, 3])
        case['backsym'] = 1 if C > 2 else rng.choice([1, 1, 2])
    if rng.random() < .2:
        case.update(confined(rng))
        case.pop('blocks' if 'backsym' in case else 'backsym', None)
    return case


def confined(rng):
    """a program that stays inside its first macro cell for long"""
    S, C, k = rng.choice([(2, 2, 2), (3, 2, 2), (5, 2, 2), (6, 2, 2), (7, 2, 2), (6, 2, 3), (4, 2, 4), (2, 2, 5), (2, 2, 6),
                          (4, 3, 2), (5, 3, 2), (2, 4, 2), (3, 3, 3)])
    if rng.random() < .6:
        return {'prog': progs.confined(rng, S, C, k), 'blocks': k}
    k = max(k, 3) if C == 2 else 3
    return {'prog': progs.confined(rng, S, C, k, k - 1), 'backsym': k - 1}


class Base:
    """a base machine given by its table"""

    def __init__(self, prog):
        self.rows = ref.parse(prog)
        self.packed = ref.pack(self.rows)
        self.S, self.C = self.packed[1], self.packed[2]

    def window(self, state, cells, pos, lim):
        r, st, cells, pos, n = ref.window(self.packed, state, bytes(cells), pos, lim)
        return {ref.LIMIT: 'endless', ref.UNDEF: 'undefined', 10: 'left', 11: 'right'}[r], st, tuple(cells), n

    configs = None


class Over:
    """a base machine given by an (already checked) inner macro"""

    def __init__(self, inner):
        self.inner = inner

    def window(self, state, cells, pos, lim):
        from tm.macro import MacroInfLoop
        cells, seen, n = list(cells), set(), 0
        while True:
            if pos < 0 or pos >= len(cells):
                return 'left' if pos < 0 else 'right', state, tuple(cells), n
            key = (state, pos, tuple(cells))
            if key in seen:
                return 'endless', state, tuple(cells), n
            seen.add(key)
            try:
                c, sh, nxt = self.inner[state, cells[pos]]
            except KeyError:
                return 'undefined', state, tuple(cells), n
            except MacroInfLoop:
                return 'endless', state, tuple(cells), n
            cells[pos] = c
            pos += 1 if sh else -1
            state = nxt
            n += 1


class Learned:
    """what the numbers of a macro machine stand for"""

    def __init__(self, kind, cells, base, prog):
        self.kind, self.cells, self.base, self.prog = kind, cells, base, prog
        # block: colour <-> cells, state <-> (state, side entered)
        # back-symbol: state <-> (state, cells, side the cells are on)
        if kind == 'block':
            self.colors = {0: (0,) * cells}
            self.states = {0: (0, 'left')}
        else:
            self.colors = {0: 0}
            self.states = {0: (0, (0,) * cells, 'left')}
        self.rcolors = {v: k for k, v in self.colors.items()}
        self.rstates = {v: k for k, v in self.states.items()}

    def expect(self, slot):
        """(outcome, meaning of colour, meaning of state, shift, base steps)"""
        state, color = slot
        lim = None
        if self.kind == 'block':
            st, side = self.states[state]
            cells = self.colors[color]
            pos = 0 if side == 'left' else len(cells) - 1
        else:
            st, back, side = self.states[state]
            c = self.colors[color]
            cells = back + (c,) if side == 'left' else (c,) + back
            pos = len(cells) - 1 if side == 'left' else 0
        n = len(cells)
        lim = self.base.S * n * self.base.C ** n + 2 if isinstance(self.base, Base) else None
        out, st2, cells2, steps = self.base.window(st, cells, pos, lim)
        if out in ('undefined', 'endless'):
            return out, None, None, None, steps
        if self.kind == 'block':
            return 'ok', cells2, (st2, 'left' if out == 'right' else 'right'), out == 'right', steps
        if out == 'right':
            return 'ok', cells2[0], (st2, cells2[1:], 'left'), False, steps
        return 'ok', cells2[-1], (st2, cells2[:-1], 'right'), True, steps

    def bind(self, fwd, rev, num, meaning, what):
        if fwd.get(num, meaning) != meaning or rev.get(meaning, num) != num:
            raise Violation(f'{self.prog!r}: {what} {num} stands for {fwd.get(num)} and {meaning} '
                            f'(known as {rev.get(meaning)})')
        fwd[num], rev[meaning] = meaning, num

    def ask(self, macro, slot):
        from tm.macro import MacroInfLoop
        out, color, state, shift, steps = self.expect(slot)
        try:
            got = macro[slot]
        except KeyError:
            got = 'undefined'
        except MacroInfLoop:
            got = 'endless'
        where = f'{self.prog!r} {self.kind}-{self.cells} slot {slot} = {self.states[slot[0]]}, {self.colors[slot[1]]}'
        if out != 'ok' or isinstance(got, str):
            if out != got:
                raise Violation(f'{where}: {got} instead of {out} (after {steps} steps) {color, state}')
            return None, steps
        c, sh, nxt = got
        if bool(sh) != shift:
            raise Violation(f'{where}: moves {"right" if sh else "left"} where the machine ends with {color, state}')
        self.bind(self.colors, self.rcolors, c, color, 'colour')
        self.bind(self.states, self.rstates, nxt, state, 'state')
        return got, steps


def build(case):
    """[(macro, Learned)], innermost first"""
    from tm.macro import MacroProg, make_macro
    prog = case['prog']
    rows = ref.parse(prog)
    kw = {k: case[k] for k in ('blocks', 'backsym') if k in case}
    if case.get('params'):
        kw['params'] = ref.dims(rows)
    macro = make_macro(prog, **kw)
    base = Base(prog)
    out = []
    if 'blocks' in case and 'backsym' in case:
        inner = make_macro(prog, **{k: v for k, v in kw.items() if k != 'backsym'})
        out.append((inner, Learned('block', case['blocks'], base, prog)))
        out.append((macro, Learned('backsym', case['backsym'], Over(inner), prog)))
    elif 'blocks' in case:
        out.append((macro, Learned('block', case['blocks'], base, prog)))
    else:
        out.append((macro, Learned('backsym', case['backsym'], base, prog)))
    return out


def check_instr(ctx, case):
    rng = random.Random(case['seed'])
    macros = build(case)
    for depth, (macro, known) in enumerate(macros):
        if depth:
            # over colours the inner machine really has
            for c in macros[0][1].colors:
                known.bind(known.colors, known.rcolors, c, c, 'colour')
        elif known.kind == 'backsym':
            for c in range(known.base.C):
                known.bind(known.colors, known.rcolors, c, c, 'colour')
        seen = set()
        for _ in range(60):
            slot = rng.choice(sorted(known.states)), rng.choice(sorted(known.colors))
            if depth:
                try:
                    got, steps = known.ask(macro, slot)
                except AssertionError:
                    continue  # a combination of inner colours never met
            else:
                got, steps = known.ask(macro, slot)
            seen.add(slot)
            if steps > 1:
                ctx.nontrivial_case()
            ctx.cls(f'{known.kind} ' + ('ok' if got else 'undefined or endless'))


def expand(known, l, scan, r, state):
    """base cells, head index, base state of a one-level macro configuration;
    l nearest first"""
    if known.kind == 'block':
        st, side = known.states[state]
        cells, head = [], None
        for c in reversed(l):
            cells += known.colors[c]
        head = len(cells) + (0 if side == 'left' else known.cells - 1)
        for c in [scan, *r]:
            cells += known.colors[c]
        return cells, head, st
    st, back, side = known.states[state]
    # mirror image: the macro tape's left is the base tape's right
    left, right = list(reversed(r)), list(l)
    if side == 'left':
        cells = left + list(back)
        head = len(cells)
        cells += [scan] + right
    else:
        head = len(left)
        cells = left + [scan] + list(back) + right
    return cells, head, st


def check_walk(ctx, case):
    if 'blocks' in case and 'backsym' in case:
        case = {k: v for k, v in case.items() if k != ('blocks' if case['seed'] % 2 else 'backsym')}
    (macro, known), = build(case)
    if known.kind == 'backsym':
        for c in range(known.base.C):
            known.bind(known.colors, known.rcolors, c, c, 'colour')
    prog = case['prog']
    l, scan, r, state = [], 0, [], 0
    prev = expand(known, l, scan, r, state)
    for k in range(120):
        slot = state, scan
        got, steps = known.ask(macro, slot)
        if got is None:
            break
        c, sh, nxt = got
        if sh:
            l.insert(0, c)
            scan = r.pop(0) if r else 0
        else:
            r.insert(0, c)
            scan = l.pop(0) if l else 0
        state = nxt
        cur = expand(known, l, scan, r, state)
        if steps > 10**4:
            break
        n = ref.follow(prog, prev[2], prev[0], prev[1], cur[2], cur[0], cur[1], steps)
        if n < 0:
            raise Violation(f'{prog!r} {known.kind}-{known.cells}: macro step {k}: the base machine does not get from '
                            f'{prev} to {cur} in {steps} steps')
        prev = cur
        if k >= 10:
            ctx.nontrivial_case()


def check_ending(ctx, case):
    prog = case['prog']
    kw = {k: case[k] for k in ('blocks', 'backsym', 'opt_macro') if k in case}
    if case.get('params'):
        kw['params'] = ref.dims(ref.parse(prog))
    try:
        m, kind = c09.machine(prog, case['lim'], **kw)
    except AssertionError as err:
        raise Violation(f'{prog!r} {kw}: assertion failed') from err
    want = ref.run(prog, max_steps=300_000)
    real = c09.KIND[want.status]
    ctx.cls(f'{kind}/{real}' + ('/rules' if m.rulapp else ''))

    def bad(msg):
        raise Violation(f'{prog!r} {kw} lim {case["lim"]}: {msg}: reported {kind} {m.undfnd} cycles {m.cycles}; '
                        f'simulated {want}')
    if kind in ('undfnd', 'spnout', 'infrul'):
        ctx.nontrivial_case()
    if kind == 'undfnd':
        if real == 'limit':
            if not m.rulapp:
                bad('ended too early')
            return
        if real != 'undfnd':
            bad('wrong ending')
        if tuple(m.undfnd[1]) != (want.state, want.color):
            bad('wrong slot')
    elif kind in ('spnout', 'infrul') and real == 'undfnd':
        bad('wrong ending')
    elif kind == 'xlimit' and not m.rulapp and real in ('undfnd', 'spnout') and want.steps + 2 < case['lim']:
        bad('ended base machine not noticed')


def gen_ending(rng):
    case = gen(rng)
    if rng.random() < .2:
        case = {k: v for k, v in case.items() if k in ('prog', 'params')}
        case['opt_macro'] = rng.choice([10, 100, 300])
    case['lim'] = rng.choice([50, 200, 400])
    return case


def shrink(case):
    yield from progs.shrink_case(nums=('blocks', 'backsym', 'lim'))(case)
    if 'blocks' in case and 'backsym' in case:
        yield {k: v for k, v in case.items() if k != 'backsym'}
        yield {k: v for k, v in case.items() if k != 'blocks'}


def parts(tier):
    k = 1 if tier == 'quick' else 40
    return [Part('instr', 'rnd', gen, check_instr, 20_000 * k, shrink=shrink),
            Part('walk', 'rnd', gen, check_walk, 12_000 * k, shrink=shrink),
            Part('ending', 'rnd', gen_ending, check_ending, 12_000 * k, shrink=shrink)]
