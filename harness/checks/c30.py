"""The command-line tools, line by line."""
import os
import re
import shutil
import subprocess
import sys
import tempfile

import bridge
import progs
import ref
from common import Part, Skip, Violation, child_limits

PROPERTY = 'C30'
RULE = ('a tool (normalize, normalize --tree, c_prog, instr_seq, just_so with each of its goals, run, measure, dump_macros, dump_graphs) is '
        'started as a process of its own, its output going to a pipe, and given one to forty programs (just_so up to 200), some of them more '
        'than once, the last with or without a line end, for normalize some in the compact notation.  What it prints has to be what the library '
        'function behind it says about each line alone, in the order of the lines; the layout is rebuilt by this check, and for run '
        'the ending, steps and marks of a machine without macros are those of the reference simulator.  '
        'Non-trivial: at least two lines, and the answers to them differ.')
ASSUMPTIONS = ['programs the library refuses or panics on, and programs that do not end within 1500 cycles (run, measure, dump_macros), are '
               'not put in',
               'just_so runs with as many workers as there are processors']
CATS = ('cfglim', 'infrul', 'limrul', 'spnout', 'undfnd', 'xlimit')
CLI = os.path.join(bridge.VERIF, 'harness', 'cli.py')
rs = None


def prepare(tier):
    global rs
    rs = bridge.load_rust()
    ref.lib()
    progs.corpus(), progs.rich()
    import tm.machine
    import tools.c
    import tools.dot
    import tools.instr_seq
    import tools.normalize
    import tools.tree_norm


def tool(script, args, text, cwd=None):
    env = {k: v for k, v in os.environ.items() if k != 'PYTHONUNBUFFERED'}
    p = subprocess.run([sys.executable, CLI, script, *args], input=text, capture_output=True, text=True, env=env, cwd=cwd,
                       timeout=120, preexec_fn=child_limits(60))
    if p.returncode:
        raise Violation(f'{script} {" ".join(args)} on {text!r} ends with {p.returncode}: {p.stderr[-600:]}')
    return p.stdout


def compact(prog):
    return '_'.join(''.join('---' if i == '...' else i for i in row.split(' ')) for row in prog.split('  '))


def some(rng, n, maxdim=(7, 6)):
    out = []
    for _ in range(n):
        if out and rng.random() < .15:
            out.append(rng.choice(out))
        else:
            out.append(progs.any_prog(rng, maxdim=maxdim))
    return out


def gen_text(rng):
    name = rng.choice(['normalize', 'normalize', 'tree', 'c_prog', 'instr_seq'])
    lines = some(rng, rng.choice([1, 2, 3, 5, 10, 25, 40]), (8, 8))
    if name == 'normalize':
        small = [p if rng.random() < .6 else compact(p) for p in lines]
        lines = small
    return {'tool': name, 'lines': lines, 'end': rng.random() < .8}


def text_of(case):
    return '\n'.join(case['lines']) + ('\n' if case.get('end', True) else '')


def unpack_compact(p):
    return '  '.join(' '.join('...' if 'Z' in row[i:i + 3] or '-' in row[i:i + 3] else row[i:i + 3] for i in range(0, len(row), 3))
                     for row in p.split('_'))


def answer(name, line):
    from tools.c import make_c
    from tools.instr_seq import instr_seq
    from tools.normalize import normalize
    from tools.tree_norm import tree_norm
    if name == 'normalize':
        return (unpack_compact(line) if ' ' not in line else normalize(line)) + '\n'
    if name == 'tree':
        return tree_norm(line) + '\n'
    if name == 'c_prog':
        return make_c(line) + '\n'
    rows = ''.join(f'        "{part}": ({str(step).rjust(2)}, \'{chr(65 + slot[0])}{slot[1]}\'),\n' for part, step, slot in instr_seq(line))
    return f'    "{line}": {{\n{rows}    }},\n'


def seq_ends(prog, cap=20_000):
    """do the runs of its instruction sequence all end?"""
    rows = ref.parse(prog)
    known = [[None] * len(rows[0]) for _ in rows]
    known[0][0] = (1, True, 1)
    for _ in range(len(rows) * len(rows[0])):
        r = ref.run(known, max_steps=cap)
        if r.kind == 'undefined':
            if r.state >= len(rows) or r.color >= len(rows[0]) or rows[r.state][r.color] is None:
                return True
            known[r.state][r.color] = rows[r.state][r.color]
        else:
            return r.kind == 'spinout'
    return True


def check_text(ctx, case):
    name = case['tool']
    lines, want = [], []
    for line in case['lines']:
        if name == 'instr_seq' and not seq_ends(line):
            continue
        try:
            want.append(answer(name, line))
        except Exception:
            continue       # what the library refuses is not for this property
        lines.append(line)
    if not lines:
        raise Skip()
    ctx.cls(name)
    if len(set(want)) > 1:
        ctx.nontrivial_case()
    script, args = ('normalize.py', ['--tree']) if name == 'tree' else (f'{name}.py', [])
    got = tool(script, args, text_of({**case, 'lines': lines}))
    if got != ''.join(want):
        raise Violation(f'{name} on {lines}: {first_diff(got, "".join(want))}')


def first_diff(got, want):
    g, w = got.split('\n'), want.split('\n')
    for i, (x, y) in enumerate(zip(g, w)):
        if x != y:
            return f'line {i + 1} is {x[:300]!r}, should be {y[:300]!r}'
    return f'{len(g)} lines instead of {len(w)}'


GOALS = {'': 'py_cant_spin_out', '--spinout': 'py_cant_spin_out', '--halt': 'py_cant_halt', '--blank': 'py_cant_blank',
         '--segment': 'py_segment_cant_halt'}


def gen_filter(rng):
    goal = rng.choice(list(GOALS))
    case = {'goal': goal, 'lines': some(rng, rng.choice([1, 3, 17, 40, 100, 200]), (4, 4)), 'end': rng.random() < .8}
    if goal != '--segment' and rng.random() < .8:
        case['cycles'] = rng.choice([1, 2, 3, 5, 8, 12, 25, 60])
    return case


def check_filter(ctx, case):
    goal, cycles = case['goal'], case.get('cycles')
    fn = getattr(rs, GOALS[goal])
    n = cycles or (20 if goal == '--segment' else 2000)
    lines, want = [], []
    for p in case['lines']:
        if goal != '--segment' and n > 60 and fn(p, 25) is None:
            continue       # could take long
        try:
            keep = fn(p, n) is None
        except BaseException as err:
            if isinstance(err, (KeyboardInterrupt, SystemExit)):
                raise
            continue
        lines.append(p)
        if keep:
            want.append(p)
    if n > 60:
        lines += [p for p in case['lines'][:3] if p not in lines]
        want = None
    if not lines:
        raise Skip()
    if want is None:
        want = [p for p in lines if fn(p, n) is None]
    ctx.cls(goal or 'no goal given')
    if 0 < len(want) < len(lines):
        ctx.nontrivial_case()
    got = tool('just_so.py', ([goal] if goal else []) + (['--cycles', str(cycles)] if cycles else []), text_of({**case, 'lines': lines}))
    if got != ''.join(p + '\n' for p in want):
        raise Violation(f'just_so {goal} {cycles}: of {len(lines)} programs {len(want)} are to be kept, printed {got.count(chr(10))}; '
                        f'{first_diff(got, "".join(p + chr(10) for p in want))}')


def gen_run(rng):
    name = rng.choice(['run', 'run', 'run', 'measure', 'dump_macros'])
    lines = []
    for _ in range(rng.choice([1, 2, 3, 6, 12])):
        lines.append(progs.rich_prog(rng) if rng.random() < .4 else progs.any_prog(rng, maxdim=(5, 4)))
        if rng.random() < .1:
            lines.append(rng.choice(lines))
    return {'tool': name, 'lines': lines, 'end': rng.random() < .8}


def machine(prog, probe):
    from tm.machine import Machine
    m = Machine(prog, opt_macro=probe).run(sim_lim=1500)
    return None if m.xlimit is not None else m


def table(prog):
    return {(q, c): i for q, row in enumerate(ref.parse(prog)) for c, i in enumerate(row) if i is not None}


def close(shown, n):
    """is it this integer, or the size of it?"""
    if shown == str(n):
        return len(shown) <= 12 or n < 10 ** 12
    mt = re.fullmatch(r'(-?)\(~10\^(\d+)\)', shown)
    return bool(mt) and n >= 10 ** 9 and abs(int(mt[2]) - (len(str(n)) - .5)) <= 1.01


def check_summary(prog, i, line, rows, m):
    head, _, tail = line.partition(' || ')
    size = rs.py_opt_block(prog, 8000)
    mt = re.fullmatch(r'(\d+) \| (.*?)(?: \((\d+)-cell block macro\))?', head)
    if not mt or mt[1] != str(i) or table(mt[2]) != table(prog) or int(mt[3] or 1) != size:
        raise Violation(f'run: line {line!r} for program {i}, {prog!r}')
    got = {}
    for part in tail.split(' | '):
        k, _, v = part.partition(': ')
        if k in got:
            raise Violation(f'run on {prog!r}: {k} twice in {line!r}')
        got[k] = v
    want = {'CYCLES': m.cycles, 'MARKS': m.marks, 'TPCFGS': m.prover.config_count}
    for cat in CATS:
        if (v := getattr(m, cat)) is not None:
            want[cat.upper()] = v
    if not isinstance(m.rulapp, int) or m.rulapp:
        want['RULAPP'] = m.rulapp
    if set(got) != set(want):
        raise Violation(f'run on {prog!r}: {line!r} but {want}')
    for k, v in want.items():
        if k in ('MARKS', 'RULAPP') and isinstance(v, int):
            ok = close(got[k], v)
        elif k == 'MARKS':
            from tm.machine import show_number
            ok = got[k] == show_number(v)
        elif isinstance(v, (int, str, tuple)):
            ok = got[k] == str(v)
        else:
            ok = got[k] == '...'
        if not ok:
            raise Violation(f'run on {prog!r}: {k} {got[k]!r}, should be {v}')
    # the rows: one for each cycle
    if len(rows) not in (m.cycles + 1, m.cycles + 2):
        raise Violation(f'run on {prog!r}: {len(rows)} rows for {m.cycles} cycles')
    for n, row in enumerate(rows):
        parts = row.split(' | ')
        if len(parts) != 4 or parts[0].strip() != str(n):
            raise Violation(f'run on {prog!r}: row {n} is {row!r}')
    from tm.macro import MacroProg
    if isinstance(m.program, MacroProg):
        return 'through a macro'
    if m.undfnd is None and m.spnout is None or m.rulapp or m.steps == -1:
        return 'by a rule'
    r = ref.run(prog, max_steps=10 ** 6, max_cycles=-1)
    if m.undfnd is not None:
        s, (q, c) = m.undfnd
        if got['UNDFND'] != f'({r.steps}, ({q}, {c}))':
            raise Violation(f'run on {prog!r}: {line!r}, but the machine stops after {r.steps} steps')
    elif got['SPNOUT'] != str(r.steps):
        raise Violation(f'run on {prog!r}: {line!r}, but the machine spins out after {r.steps} steps')
    if got['MARKS'] != str(r.marks):
        raise Violation(f'run on {prog!r}: {line!r}, but there are {r.marks} marks')
    return 'plainly'


def check_run(ctx, case):
    from tm.macro import MacroProg
    from tools.normalize import normalize
    name = case['tool']
    lines, ms = [], []
    for p in case['lines']:
        try:
            m = machine(p, 8000 if name == 'run' else 2000)
            if m is None:
                continue
            if name == 'measure':
                m.est = m.marks if isinstance(m.marks, int) else m.marks.estimate()
            if name == 'dump_macros' and isinstance(m.program, MacroProg):
                from tm.macro import show_comp
                m.dump = normalize(show_comp(m.program.instrs)) + '\n'
            str(m.marks)
        except Exception:
            continue
        lines.append(p)
        ms.append(m)
    if not lines:
        raise Skip()
    got = tool(f'{name}.py', [], text_of({**case, 'lines': lines}))
    if name == 'measure':
        from tm.machine import show_number
        want = ''.join(f'{"infrul" if m.infrul else m.limrul}\n        "{p}": (\n            {m.cycles},\n            "{m.est}",\n'
                       f'            "{m.est}",\n            "{show_number(m.rulapp)}",\n        ),\n' for p, m in zip(lines, ms))
        if got != want:
            raise Violation(f'measure on {lines}: {first_diff(got, want)}')
    elif name == 'dump_macros':
        want = ''.join(getattr(m, 'dump', '') for m in ms)
        if got != want:
            raise Violation(f'dump_macros on {lines}: {first_diff(got, want)}')
    else:
        rows, i = [], 0
        for line in got.split('\n')[:-1]:
            if ' || ' not in line:
                rows.append(line)
                continue
            if i == len(lines):
                raise Violation(f'run on {lines}: one line too many: {line!r}')
            ctx.cls(check_summary(lines[i], i, line, rows, ms[i]))
            rows, i = [], i + 1
        if rows or i < len(lines):
            raise Violation(f'run on {lines}: {i} summaries and {len(rows)} rows more')
    ctx.cls(name)
    if len(set(lines)) > 1:
        ctx.nontrivial_case()


def gen_draw(rng):
    return {'lines': some(rng, rng.choice([1, 2, 3])), 'end': rng.random() < .8}


def check_draw(ctx, case):
    from tools.dot import make_dot
    if not shutil.which('dot'):
        raise Skip()
    lines = case['lines']
    home = tempfile.mkdtemp(prefix='bbs-draw-')
    try:
        env_tmp = os.environ.get('TMPDIR')
        os.environ['TMPDIR'] = home
        try:
            out = os.path.join(home, 'out')
            os.mkdir(out)
            tool('dump_graphs.py', [], text_of(case), cwd=out)
        finally:
            if env_tmp is None:
                del os.environ['TMPDIR']
            else:
                os.environ['TMPDIR'] = env_tmp
        want = {p.replace(' ', '_') + '.png': p for p in lines}
        got = os.listdir(out)
        if set(got) != set(want):
            raise Violation(f'dump_graphs on {lines} leaves {sorted(got)}')
        for name, p in want.items():
            with open(os.path.join(out, name), 'rb') as fp:
                pic = fp.read()
            ref_pic = subprocess.run(['dot', '-T', 'png'], input=make_dot(p).encode(), capture_output=True, timeout=60).stdout
            if pic != ref_pic:
                raise Violation(f'dump_graphs on {lines}: {name} does not show {p!r}')
    finally:
        shutil.rmtree(home, ignore_errors=True)
    ctx.cls('drawn')
    if len(want) > 1:
        ctx.nontrivial_case()


def shrink(case):
    ls = case['lines']
    if len(ls) > 3:
        yield {**case, 'lines': ls[:len(ls) // 2]}
        yield {**case, 'lines': ls[len(ls) // 2:]}
    if len(ls) > 1:
        for i in range(len(ls)):
            yield {**case, 'lines': ls[:i] + ls[i + 1:]}
    if not case.get('end', True):
        yield {**case, 'end': True}


def parts(tier):
    k = 1 if tier == 'quick' else 30
    return [Part('texts', 'rnd', gen_text, check_text, 600 * k, shrink=shrink),
            Part('filter', 'rnd', gen_filter, check_filter, 400 * k, shrink=shrink),
            Part('runs', 'rnd', gen_run, check_run, 700 * k, shrink=shrink),
            Part('drawings', 'rnd', gen_draw, check_draw, 80 * k, shrink=shrink)]
