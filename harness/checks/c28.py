"""The Rust macro machines against the machine they stand for."""
import random

import bridge
import progs
import ref
from bridge import PanicException
from checks import c13
from checks.c13 import Base, Learned
from common import Part, Skip, Violation

PROPERTY = 'C28'
RULE = ('random, mutated and published programs under Rust block macros (1-6 cells), back-symbol macros (1-4) and nestings, some '
        'grown to stay inside their first macro cell for long.  Part instr: macro instructions are asked for in random order among the states '
        'and colors met; the meaning of each number is learned from the answers and every answer must be what simulating the cells '
        'inside the window gives.  Part endless: the prover runs the macro machine; when it finds a rule without end, the plain machine must not reach an '
        'undefined slot in 200 thousand to 20 million steps.  Non-trivial: an instruction took more than one base step / an endless rule was found, or the plain machine '
        'stops after 20 or more steps.')
ASSUMPTIONS = ['an instruction that is undefined and one that never leaves the cell are not told apart (neither is answered)',
               'the glue in rustbridge/extra_macros.rs fits the crate (otherwise nothing is judged)']
glue = None


def prepare(tier):
    global glue
    bridge.load_rust()
    glue = bridge.load_extra('macros')
    ref.lib()
    progs.corpus()


def gen(rng):
    case = c13.gen(rng)
    case.pop('params')
    if rng.random() < .05:
        case = {'prog': case['prog'], 'seed': case['seed'], 'blocks': 1}
    return case


class Short:
    """the back-symbol macro as it is with finding F4: going on to the right
    it keeps one symbol less than it should"""

    def __init__(self, k, base, S, C):
        self.k, self.base, self.S, self.C = k, base, S, C
        self.tapes = {0: (0,) * k}
        self.colors = {}
        self.known = {}

    def color(self, tape):
        if tape not in self.colors:
            n = 0
            for c in tape:
                n = n * self.C + c
            self.colors[tape] = n
            self.tapes[n] = tape
        return self.colors[tape]

    def answer(self, slot):
        if not self.known.get(slot):
            self.known[slot] = self.work_out(slot)
        return self.known[slot]

    def work_out(self, slot):
        stco, right = divmod(slot[0], 2)
        st, num = divmod(stco, self.C ** self.k)
        back = self.tapes[num]
        cells = (slot[1], *back) if right else (*back, slot[1])
        lim = self.base.S * len(cells) * self.base.C ** len(cells) + 2 if isinstance(self.base, Base) else None
        out, st, cells, _ = self.base.window(st, cells, 0 if right else len(cells) - 1, lim)
        if out == 'left':
            return cells[self.k - 1], True, 1 + 2 * (st * self.C ** self.k + self.color(cells[:self.k - 1]))
        if out == 'right':
            return cells[0], False, 2 * (st * self.C ** self.k + self.color(cells[1:]))
        return None


def excuse(prog, blocks, backsym, got):
    """whether all that was answered is what F4 makes of it"""
    S, C = dims(prog)
    base = Base(prog)
    if blocks:
        base = c13.Over(Inner(ask_inner(prog, blocks)))
        S, C = 2 * S, C ** blocks
    m = Short(backsym, base, S, C)
    for slot, ins in got:
        try:
            want = m.answer(tuple(slot))
        except Unasked:
            break
        except (KeyError, IndexError):
            return None
        if (tuple(ins[0]) if ins else None) != want:
            return None
    return 'symbol-lost-going-right'


def ask_inner(prog, blocks):
    pairs = [(i, j) for n in (6, 20) for i in range(n) for j in range(n)]
    return glue.x_macro(prog, dims(prog), blocks, 0, pairs)


def dims(prog):
    return ref.dims(ref.parse(prog))


def check_instr(ctx, case):
    if glue is None:
        raise Skip()
    prog = case['prog']
    rng = random.Random(case['seed'])
    picks = [(rng.randrange(1000), rng.randrange(1000)) for _ in range(60)]
    blocks, backsym = case.get('blocks', 0), case.get('backsym', 0)
    try:
        got = glue.x_macro(prog, dims(prog), blocks, backsym, picks)
    except PanicException as err:
        raise Violation(f'{prog!r} {blocks}/{backsym}: {err}') from err
    try:
        judge_all(ctx, prog, blocks, backsym, got)
    except Violation as v:
        if backsym and getattr(v, 'outer', False):
            v.key = excuse(prog, blocks, backsym, got)
        raise


def judge_all(ctx, prog, blocks, backsym, got):
    base = Base(prog)
    if blocks and backsym:
        # the inner macro as it answers by itself, judged first
        inner = ask_inner(prog, blocks)
        judge(ctx, Learned('block', blocks, base, prog), inner)
        known = Learned('backsym', backsym, c13.Over(Inner(inner)), prog)
        for _, ins in inner:
            for c, _, _ in ins:
                known.bind(known.colors, known.rcolors, c, c, 'color')
    else:
        known = Learned('block', blocks, base, prog) if blocks else Learned('backsym', backsym, base, prog)
    if backsym and not blocks:
        for c in range(base.C):
            known.bind(known.colors, known.rcolors, c, c, 'color')
    try:
        judge(ctx, known, got)
    except Violation as v:
        v.outer = v.upto
        raise


class Unasked(Exception):
    pass


class Inner(dict):
    def __init__(self, found):
        super().__init__()
        for slot, ins in found:
            self[tuple(slot)] = ins[0] if ins else None

    def __missing__(self, slot):
        raise Unasked

    def __getitem__(self, slot):
        got = super().__getitem__(slot)
        if got is None:
            raise KeyError(slot)
        return got


def judge(ctx, known, got):
    for n, found in enumerate(got):
        try:
            if judge_one(ctx, known, *found):
                return
        except Violation as v:
            v.upto = n + 1
            raise


def judge_one(ctx, known, slot, ins):
    slot = tuple(slot)
    try:
        out, color, state, shift, steps = known.expect(slot)
    except Unasked:
        ctx.cls('inner instruction not asked for')
        return True
    where = f'{known.prog!r} {known.kind}-{known.cells} slot {slot} = {known.states[slot[0]]}, {known.colors[slot[1]]}'
    if steps > 1:
        ctx.nontrivial_case()
    ctx.cls(f'{known.kind} {out}')
    if (out == 'ok') != bool(ins):
        raise Violation(f'{where}: {ins or "no answer"} instead of {out} (after {steps} steps) {color, state}')
    if not ins:
        return False
    (c, sh, nxt), = ins
    if bool(sh) != shift:
        raise Violation(f'{where}: moves {"right" if sh else "left"} where the machine ends with {color, state}')
    known.bind(known.colors, known.rcolors, c, color, 'color')
    known.bind(known.states, known.rstates, nxt, state, 'state')
    return False


def check_endless(ctx, case):
    if glue is None:
        raise Skip()
    prog, lim = case['prog'], case['lim']
    blocks, backsym = case.get('blocks', 0), case.get('backsym', 0)
    try:
        yes = glue.x_infinite(prog, dims(prog), blocks, backsym, lim)
    except PanicException as err:
        if 'overflow' in str(err):
            raise Skip() from err
        raise Violation(f'{prog!r} {blocks}/{backsym}: {err}') from err
    w = ref.run(prog, max_steps=2_000_000 if yes else 200_000)
    if yes and w.status == ref.LIMIT and w.marks > 100:
        w = ref.run(prog, max_steps=20_000_000)
    ctx.cls(f'{"endless" if yes else "open"}, {w.kind}')
    if yes or w.status == ref.UNDEF and w.steps >= 20:
        ctx.nontrivial_case()
    if yes and w.status == ref.UNDEF:
        key = None
        if backsym:
            rng = random.Random(prog)
            got = glue.x_macro(prog, dims(prog), blocks, backsym, [(rng.randrange(1000), rng.randrange(1000)) for _ in range(100)])
            key = excuse(prog, blocks, backsym, got)
        raise Violation(f'{prog!r} blocks {blocks} backsym {backsym} limit {lim}: said to be endless, but stops: {w}', key=key)


def gen_endless(rng):
    case = gen(rng)
    if rng.random() < .15:
        case.pop('blocks', None)
        case.pop('backsym', None)
    case['lim'] = rng.choice([50, 200, 400, 800])
    del case['seed']
    return case


def parts(tier):
    k = 1 if tier == 'quick' else 40
    return [Part('instr', 'rnd', gen, check_instr, 30_000 * k, shrink=progs.shrink_case(nums=('blocks', 'backsym'))),
            Part('endless', 'rnd', gen_endless, check_endless, 10_000 * k, shrink=progs.shrink_case(nums=('blocks', 'backsym', 'lim')))]
