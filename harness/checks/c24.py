"""Structured C programs walked along with their Turing machines."""
import glob
import hashlib
import os
import re
import shutil
import subprocess
import tempfile

import bridge
import ref
from bridge import HarnessError
from common import child_limits, Part, Skip, Violation

PROPERTY = 'C24'
RULE = ('every program under machines/structured is compiled in one unit with a monitor (clang, a callback at every store) that '
        'walks the Turing machine along: at each move of the head the color left behind, the direction and the color found must be '
        "the machine's; whole tapes are compared at random moments and at the end, where the program's own counters must agree too. "
        'Cases are (program, moves followed, moments).  Non-trivial: at least 20 moves followed.')
ASSUMPTIONS = ['files that carry no PROGRAM line are held against the machine their name is known for',
               'a program may end only where its machine halts, has erased its last mark, or is at the edge of what it visited, '
               'about to move on blanks for good; it must end at a halt or an erased tape',
               '9340.c prepares 1_111 in five moves of its own before its machine starts in state A',
               'programs that return before making a move are followed with that return left out']
# published in the repository's own tables (test/prog_data.py, the comments of the files)
KNOWN = {
    '21': '1RB 1R_  1LB 0RC  1LC 1LA',
    '34': '1RB 1LB  1LA 1LC  1RC 0LC',
    '31315': '1RB 1LC  0LC 0RD  1RD 1LE  1RE 1LA  1LA 0LB',
    '32779477': '1RB 1LC  1RD 1RB  0RD 0RC  1LD 1LA',
    '47176870': '1RB 1LC  1RC 1RB  1RD 0LE  1LA 1LD  1R_ 0LA',
    '66345': '1RB 0LC  1LD 0LA  1RC 1RD  1LA 0LD',
}
# the only halting slot of 21 is in state A, going left
KNOWN['21'] = '1RB 1L_  1LB 0RC  1LC 1LA'
PREPARED = {'9340': [(1, 1), (0, 1), (1, 1), (1, 1), (1, 1)]}
BIN: dict = {}
DIR = None


def machine_of(name, text):
    m = re.search(r'(?m)^\s*#\s*define\s+PROGRAM\s+"([^"]*)"', text)
    return m[1] if m else KNOWN.get(name)


def build(path, out, early):
    name = os.path.basename(path)[:-2]
    p = subprocess.run(['clang', '-O0', '-w', '-fsanitize-coverage=trace-stores,trace-pc-guard', f'-DXLIMIT={name}',
                        f'-DPROG_FILE="{path}"', *(['-DMON_NO_EARLY_RETURN'] if early else []), '-o', out + '.tmp',
                        os.path.join(bridge.VERIF, 'harness', 'monitor.c'), '-I', os.path.dirname(path)],
                       capture_output=True, text=True)
    if p.returncode:
        raise HarnessError(f'{name}: {p.stderr[:2000]}')
    os.replace(out + '.tmp', out)


def prepare(tier):
    global DIR
    DIR = os.path.join(bridge.REPO, 'machines', 'structured')
    h = hashlib.sha256()
    files = sorted(glob.glob(DIR + '/*.c'))
    for f in files + sorted(glob.glob(DIR + '/*.h')) + [os.path.join(bridge.VERIF, 'harness', 'monitor.c')]:
        with open(f, 'rb') as fp:
            h.update(f.encode() + fp.read())
    os.makedirs(bridge.BUILD, exist_ok=True)
    out = os.path.join(bridge.BUILD, 'mon_' + h.hexdigest()[:16])
    for old in os.listdir(bridge.BUILD):
        if old.startswith('mon_') and not out.endswith(old):
            shutil.rmtree(os.path.join(bridge.BUILD, old), ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    for f in files:
        name = os.path.basename(f)[:-2]
        with open(f) as fp:
            prog = machine_of(name, fp.read())
        if prog is None:
            continue
        rows = ref.parse(prog)
        b = os.path.join(out, name)
        # plain as built for the stable tests: does it do anything?
        if not os.path.exists(b):
            build(f, b, False)
            BIN[name] = (b, rows)
            r, _ = follow(name, 50, [])
            if r[0] == 'END' and int(r[1]) == 0:
                build(f, b, True)
        BIN[name] = (b, rows)
    if not BIN:
        raise HarnessError('no structured program found')


def follow(name, limit, checks):
    b, rows = BIN[name]
    S, C = len(rows), len(rows[0])
    table = ' '.join(f'{i[0]} {int(i[1])} {min(i[2], S)}' if i else '0 0 -1' for r in rows for i in r)
    fd, rep = tempfile.mkstemp(prefix='c24_', dir='/tmp')
    os.close(fd)
    try:
        env = {'MON_S': str(S), 'MON_C': str(C), 'MON_TABLE': table, 'MON_LIMIT': str(limit),
               'MON_CHECKS': ','.join(map(str, sorted(checks))), 'MON_FILE': rep,
               'MON_SETUP': ' '.join(f'{p} {s}' for p, s in PREPARED.get(name, []))}
        try:
            # a loop that makes no move never comes back
            p = subprocess.run([b], env=env, capture_output=True, text=True, timeout=60 + limit / 2e6, cwd='/tmp',
                               preexec_fn=child_limits(int(90 + limit / 2e6)))
        except subprocess.TimeoutExpired:
            return None, None
        with open(rep) as fp:
            return (fp.read().split(' ', 2) + ['', ''])[:3], p
    finally:
        os.unlink(rep)


def check(ctx, case):
    name = case['file']
    if name not in BIN:
        raise Skip
    r, p = follow(name, case['moves'], case['at'])
    if r is None:
        raise Violation(f'{name}.c keeps running without moving the head')
    if r[0] == 'BAD':
        raise Violation(f'{name}.c, move {r[1]}: {r[2]}')
    if r[0] == 'LIMIT':
        ctx.cls(f'{name}: followed')
        if int(r[1]) >= 20:
            ctx.nontrivial_case()
        return
    if r[0] != 'END':
        raise Violation(f'{name}.c ended abnormally ({p.returncode}): {p.stderr[:300]}')
    why = int(r[2].split()[1])
    ctx.cls(f'{name}: ended ' + {0: '?', 1: 'at a halt', 2: 'on a blank tape', 3: 'at an undefined slot',
                                 4: 'where it spins out'}[why])
    if why == 0:
        raise Violation(f'{name}.c ends after {r[1]} moves, where its machine goes on')
    ctx.nontrivial_case()


def shrink(case):
    if case['at']:
        yield {**case, 'at': []}
    k = case['moves']
    while k > 1:
        k //= 2
        yield {**case, 'moves': k}


def cases(moves):
    def gen():
        for name in sorted(BIN):
            yield {'file': name, 'moves': moves, 'at': sorted({int(moves ** (i / 8)) for i in range(9)})}
    return gen


def prefixes(rng):
    m = int(10 ** rng.uniform(0, 5.5)) + 1
    return {'file': rng.choice(sorted(BIN)), 'moves': m, 'at': sorted(rng.randint(1, m) for _ in range(rng.randint(0, 8)))}


def parts(tier):
    q = tier == 'quick'
    return [Part('whole runs', 'enum', cases(10 ** 8 if q else 2 * 10 ** 10), check, 0, shrink=shrink),
            Part('prefixes', 'rnd', prefixes, check, 1200 if q else 40_000, shrink=shrink)]
