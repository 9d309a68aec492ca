"""The batch runners, compiled and fed random program lists."""
import ctypes
import hashlib
import os
import re
import shutil
import subprocess

import bridge
import progs
import ref
from bridge import HarnessError
from common import child_limits, Part, Skip, Violation

PROPERTY = 'C23'
RULE = ('each runner is compiled from /repo, as it is and with other step limits, and fed lists of 1 to 60 programs of its '
        'dimensions: tree-normal ones with the undefined slots going to H, random ones, wide ones followed by narrow ones. '
        'A plain simulator says which are reported and how.  Non-trivial: a list of at least two programs with '
        'one reported after another left marks on the tape.')
ASSUMPTIONS = ['input as the Makefile makes it: 1RB and blanks removed, one program a line, every line ended',
               'every slot is filled; halting is a move to state H; a machine also stops when it has erased its last mark or '
               'is about to loop on blanks from the edge of what it visited']
DIMS = [(2, 2), (2, 3), (2, 4), (3, 2), (4, 2), (5, 2)]
LIMITS = [3, 20, 107, 2000]
_lib = None
BIN: dict = {}
DEFAULT: dict = {}


def prepare(tier):
    global _lib
    _lib = ctypes.CDLL(ref.build_c(os.path.join(bridge.VERIF, 'harness', 'refbatch.c')))
    _lib.ref_batch.restype = ctypes.c_int64
    _lib.ref_batch.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_int64, ctypes.c_void_p]
    ref.lib()
    d = os.path.join(bridge.REPO, 'machines')
    h = hashlib.sha256()
    for f in sorted(os.listdir(d)):
        if f.endswith(('.c', '.h')):
            with open(os.path.join(d, f), 'rb') as fp:
                h.update(f.encode() + fp.read())
    out = os.path.join(bridge.BUILD, 'batch_' + h.hexdigest()[:16])
    for old in os.listdir(bridge.BUILD):
        if old.startswith('batch_') and not out.endswith(old):
            shutil.rmtree(os.path.join(bridge.BUILD, old), ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    jobs = []
    for S, C in DIMS:
        src = os.path.join(d, f'{S}-{C}.c')
        p = subprocess.run(['gcc', '-E', '-dM', src], capture_output=True, text=True)
        m = re.search(r'#define XLIMIT +\(?(\d+)', p.stdout)
        if not m:
            raise HarnessError(f'no step limit in {src}: {p.stderr}')
        DEFAULT[S, C] = int(m[1])
        with open(src) as fp:
            text = fp.read()
        for lim in [None] + LIMITS:
            t = text
            if lim is not None:
                t, k = re.subn(r'(?m)^( *# *define +XLIMIT) .*$', rf'\1 {lim}', text)
                if not k:
                    continue
            path = os.path.join(out, f'{S}-{C}-{lim}')
            BIN[S, C, lim] = path
            if os.path.exists(path):
                continue
            with open(path + '.c', 'w') as fp:
                fp.write(t)
            jobs.append((path, subprocess.Popen(['gcc', '-O2', '-w', '-I', d, '-o', path + '.tmp', path + '.c'],
                                                stderr=subprocess.PIPE, text=True)))
    for path, j in jobs:
        if j.wait():
            raise HarnessError(f'{path}: {j.stderr.read()}')
        os.replace(path + '.tmp', path)


def expected(rows, S, C, lim):
    b = bytearray()
    for r in rows:
        for i in r:
            b += bytes([i[0], i[1], i[2] if i[2] < S else S])
    m = ctypes.c_int64()
    k = _lib.ref_batch(bytes(b), S, C, lim, ctypes.byref(m))
    return k, m.value


def one(rng, S, C):
    k = rng.random()
    if k < .75:
        rows = progs.tnf(rng, dims=(S, C))
        # what it never gets to, and one that stops it
        if rng.random() < .3:
            s, c = rng.randrange(S), rng.randrange(C)
            rows[s][c] = None
    else:
        rows = [[None if rng.random() < .1 else (rng.randrange(C), rng.random() < .5, rng.randrange(S)) for _ in range(C)]
                for _ in range(S)]
    if rng.random() < .3:   # many marks, long reach
        for r in rows:
            for c in range(C):
                if r[c] and rng.random() < .3:
                    r[c] = (rng.randrange(1, C), r[c][1], r[c][2])
    rows[0][0] = (1, True, 1)
    return ref.show([[i or (rng.choice([1, 1, 1, 0]), rng.random() < .8, 7) for i in r] for r in rows])


def gen_for(default):
    def gen(rng):
        S, C = rng.choice(DIMS)
        lim = None if default else rng.choice(LIMITS)
        n = rng.choice([1, 2, 3, 8, 20, 60])
        out = []
        while len(out) < n:
            p = one(rng, S, C)
            if default and DEFAULT[S, C] > 10 ** 6:
                # leave out those that run on: a limit of 10^7 and more steps
                # is reached by a few short-reaching ones only
                k, _ = expected(ref.parse(p), S, C, 50_000)
                if not k:
                    if rng.random() > .01 or ref.run([[None if i[2] == 7 else i for i in r] for r in ref.parse(p)],
                                                     20_000).hi > 300:
                        continue
            out.append(p)
        return {'dims': [S, C], 'lim': lim, 'progs': out}
    return gen


def check(ctx, case):
    S, C = case['dims']
    lim = case['lim']
    if (S, C, lim) not in BIN:
        raise Skip
    want = []
    left = shown = False
    for n, p in enumerate(case['progs'], 1):
        k, m = expected(ref.parse(p), S, C, lim or DEFAULT[S, C])
        if k and k < (lim or DEFAULT[S, C]):
            want.append(f'{n} | {p} | {k} | {m}')
            if left:
                shown = True
            left = left or m > 0
        else:
            left = True
    text = ''.join(p.removeprefix('1RB').replace(' ', '') + '\n' for p in case['progs'])
    # its memory goes with the limit: 1 GB for five states
    r = subprocess.run([BIN[S, C, lim]], input=text, capture_output=True, text=True, timeout=150,
                       preexec_fn=child_limits(160))
    if shown:
        ctx.nontrivial_case()
    ctx.cls(f'{S}-{C}, ' + ('its own limit' if lim is None else f'limit {lim}'))
    got = r.stdout.split('\n')
    if r.returncode or got[-2:] != ['done', '']:
        raise Violation(f'{S}-{C} runner (limit {lim}) ended with {r.returncode}: {r.stdout[-200:]!r} {r.stderr[-200:]!r}')
    got = got[:-2]
    if got != want:
        k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Violation(f'{S}-{C} runner (limit {lim}), line {k}: {got[k] if k < len(got) else "missing"!r}, '
                        f'should be {want[k] if k < len(want) else "absent"!r}')


def shrink(case):
    ps = case['progs']
    n = len(ps)
    for w in (n // 2, n // 4, 1):
        if w:
            for i in range(0, n, w):
                if n > w:
                    yield {**case, 'progs': ps[:i] + ps[i + w:]}


def parts(tier):
    k = 1 if tier == 'quick' else 30
    return [Part('lists', 'rnd', gen_for(False), check, 30_000 * k, shrink=shrink),
            Part('as is', 'rnd', gen_for(True), check, 480 * k, shrink=shrink)]
