"""The same questions in another order, in a process of their own."""
import hashlib
import os
import random
import select
import signal
import time

import bridge
import progs
import ref
from common import Part, Skip, Violation

PROPERTY = 'C29'
RULE = ('two to seven tasks (accelerated runs with and without macros, among them runs with symbolic counts; sums on symbolic numbers; '
        'the quick and fast runners; verdicts; normal forms; instruction sequences; C texts and drawings; graph facts) are carried out one after another in a '
        'fresh process, and in another order in another fresh process; each task must give the same answer both times.  '
        'Tasks of a case share programs, dimensions or macro sizes on purpose; an eighth of the cases are macros of one size over '
        'programs with different numbers of states that stay inside their first macro cell for long.  Non-trivial: two of the tasks are accelerated runs or sums.')
ASSUMPTIONS = ['an answer is compared through its printed form (ending, steps, cycles, marks, rule applications, blank events, tape)']
rs = None
FNS = {}


def prepare(tier):
    global rs
    rs = bridge.load_rust()
    ref.lib()
    progs.corpus(), progs.rich()
    import tm.machine
    import tm.num
    import tools.c
    import tools.dot
    import tools.graph
    import tools.instr_seq
    import tools.normalize
    import tools.tree_norm
    FNS.update(
        normalize=tools.normalize.normalize, tree_norm=tools.tree_norm.tree_norm,
        instr_seq=lambda p: list(tools.instr_seq.instr_seq(p)), make_c=tools.c.make_c, make_dot=tools.dot.make_dot,
        graph=lambda p: graph_facts(tools.graph.Graph(p)),
        quick=lambda p: result(rs.run_quick_machine(p, 500)), fast=lambda p: result(rs.run_prover(p, 500)),
        cant_halt=lambda p: rs.py_cant_halt(p, 12), cant_blank=lambda p: rs.py_cant_blank(p, 12),
        cant_spin_out=lambda p: rs.py_cant_spin_out(p, 12), segment=lambda p: rs.py_segment_cant_halt(p, 5),
        rec=lambda p: rs.py_quick_term_or_rec(p, 300), opt_block=lambda p: rs.py_opt_block(p, 200))


def graph_facts(g):
    return [g.is_connected, g.is_normal, g.is_dispersed, g.is_simple, sorted(g.reflexive_states)]


def result(r):
    return [r.steps, r.cycles, r.marks, r.rulapp, sorted(r.blanks.items()), r.undfnd, r.spnout, r.infrul, r.xlimit]


def macro_opts(rng):
    k = rng.random()
    if k < .35:
        return {}
    if k < .6:
        return {'blocks': rng.choice([2, 2, 3, 4])}
    if k < .8:
        return {'backsym': rng.choice([1, 1, 2])}
    if k < .9:
        return {'blocks': 2, 'backsym': 1}
    return {'opt_macro': rng.choice([50, 300])}


def gen(rng):
    if rng.random() < .12:
        return boxes(rng)
    n = rng.choice([2, 2, 3, 4, 5, 7])
    pool = [progs.rich_prog(rng) if rng.random() < .75 else progs.any_prog(rng) for _ in range(rng.choice([1, 2, 3, n]))]
    opts = macro_opts(rng)
    tasks = []
    for _ in range(n):
        p = rng.choice(pool)
        if rng.random() < .15:
            p = ref.show(progs.mutate(rng, ref.parse(p)))
        k = rng.random()
        if k < .65:
            t = ['run', p, rng.choice([50, 100, 200, 300, 600]), opts if rng.random() < .6 else macro_opts(rng)]
        elif k < .75:
            t = ['num', rng.getrandbits(32)]
        else:
            t = ['fn', p, rng.choice(list(FNS) or ['normalize'])]
        tasks.append(t)
    order = list(range(n))
    rng.shuffle(order)
    if order == list(range(n)):
        order.reverse()
    return {'tasks': tasks, 'order': order}


def boxes(rng):
    """macros of one size, for programs that stay inside their first macro cell for long and others"""
    C = rng.choice([2, 2, 2, 3])
    k = rng.choice([2, 2, 3, 4] if C == 2 else [2, 2, 3])
    sizes = rng.sample([2, 3, 4, 5, 6, 7] if C == 2 else [2, 3, 4, 5], 2)
    if rng.random() < .5:
        C, k, sizes = 2, 2, [rng.choice([2, 2, 3]), rng.choice([6, 7, 7, 7])]
    opts = {'blocks': k}
    if rng.random() < .25:
        opts['backsym'] = 1
    elif k > 2 and rng.random() < .4:
        opts = {'backsym': k - 1}
    tasks = [['run', progs.confined(rng, S, C, k, k - 1 if 'blocks' not in opts else 0), 40, opts] for S in sizes]
    if rng.random() < .5:
        S = min(sizes)
        tasks[sizes.index(S)][1] = ref.show(progs.tnf(rng, (S, C)))
    return {'tasks': tasks, 'order': [1, 0]}


def do(task):
    try:
        if task[0] == 'run':
            from tm.machine import Machine
            _, p, lim, opts = task
            m = Machine(p, **opts).run(sim_lim=lim)
            return repr([(c, getattr(m, c)) for c in ('cfglim', 'infrul', 'limrul', 'spnout', 'undfnd', 'xlimit')]) + \
                f' steps {m.steps} cycles {m.cycles} marks {m.marks} rulapp {m.rulapp} blanks {sorted(m.blanks.items())}' + \
                f' state {m.tape} configs {m.prover.config_count}'
        if task[0] == 'num':
            return sums(task[1])
        return repr(FNS[task[2]](task[1]))
    except BaseException as err:
        return f'{type(err).__name__}: {str(err)[:200]}'


def sums(seed):
    """a few sums on symbolic numbers"""
    from tm.num import make_exp
    rng = random.Random(seed)
    base = rng.choice([2, 3, 5, 6])
    xs = [make_exp(base, rng.randrange(40, 90)) for _ in range(2)]
    out = []
    for _ in range(rng.randrange(2, 8)):
        a, b = rng.choice(xs), rng.choice([*xs, rng.randrange(1, 50)])
        k = rng.random()
        try:
            r = a + b if k < .4 else a - b if k < .5 else a * b if k < .75 else make_exp(base, a) if k < .85 else a % rng.randrange(2, 200)
        except (NotImplementedError, RecursionError, OverflowError, ValueError) as err:
            r = type(err).__name__
        out.append(str(r))
        if not isinstance(r, (int, str)):
            xs.append(r)
    return repr(out)


def answers(tasks, order):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(10)
            out = {}
            for i in order:
                s = do(tasks[i])
                out[i] = s if len(s) < 3000 else s[:2900] + hashlib.sha256(s.encode()).hexdigest()
            with os.fdopen(w, 'wb') as fp:
                fp.write('\0'.join(out[i] for i in sorted(out)).encode())
        finally:
            os._exit(0)
    os.close(w)
    data, end = b'', time.time() + 60
    while time.time() < end:
        if select.select([r], [], [], 5)[0]:
            more = os.read(r, 1 << 20)
            if not more:
                break
            data += more
    else:
        os.kill(pid, signal.SIGKILL)
    os.close(r)
    os.waitpid(pid, 0)
    got = data.decode().split('\0')
    if len(got) != len(tasks):
        raise Skip()
    return got


def check(ctx, case):
    tasks = case['tasks']
    a = answers(tasks, range(len(tasks)))
    b = answers(tasks, case['order'])
    for t in tasks:
        ctx.cls(t[0] if t[0] != 'fn' else t[2])
    if sum(t[0] != 'fn' for t in tasks) > 1:
        ctx.nontrivial_case()
    for t, x, y in zip(tasks, a, b):
        if x != y:
            raise Violation(f'{t}: {x[:600]} in the order given, {y[:600]} in the order {case["order"]}')


def shrink(case):
    n = len(case['tasks'])
    for i in range(n):
        if n > 2:
            yield {'tasks': case['tasks'][:i] + case['tasks'][i + 1:],
                   'order': [k - (k > i) for k in case['order'] if k != i]}
    for i, t in enumerate(case['tasks']):
        if t[0] == 'run' and t[3]:
            yield {**case, 'tasks': case['tasks'][:i] + [[*t[:3], {}]] + case['tasks'][i + 1:]}
        if t[0] in ('run', 'fn'):
            for p in progs.shrinks(t[1]):
                yield {**case, 'tasks': case['tasks'][:i] + [[t[0], p, *t[2:]]] + case['tasks'][i + 1:]}


def parts(tier):
    k = 1 if tier == 'quick' else 40
    return [Part('orders', 'rnd', gen, check, 1_500 * k, shrink=shrink)]
