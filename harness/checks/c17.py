"""The list of enumerated programs against an independent enumerator."""
import ctypes
import os

import bridge
import ref
from common import Part, Violation

PROPERTY = 'C17'
RULE = ('cases: dimensions, whether a slot is kept free for halting, how long a machine is followed between two undefined '
        'slots, and how many threads enumerate (a fresh pool each time).  The complete list is compared, as a multiset, with '
        'that of an independent enumerator with a flat tape (small scopes: exhaustive inside each case).  '
        'Non-trivial: the list has at least 30 programs.')
ASSUMPTIONS = ['the time a machine is followed is measured in run-length steps, as elsewhere in the project',
               'thread schedules are sampled (number of threads, load), not enumerated']
rs = None
_lib = None


def prepare(tier):
    global rs, _lib
    rs = bridge.load_rust()
    _lib = ctypes.CDLL(ref.build_c(os.path.join(bridge.VERIF, 'harness', 'refenum.c')))
    L, I, P = ctypes.c_int64, ctypes.c_int, ctypes.c_void_p
    _lib.ref_enum.restype = L
    _lib.ref_enum.argtypes = [I, I, I, L, L, P, P]
    _lib.ref_enum_free.argtypes = [P]


def expected(S, C, keep, lim, most):
    t, n = ctypes.c_void_p(), ctypes.c_int64()
    k = _lib.ref_enum(S, C, keep, lim, most, ctypes.byref(t), ctypes.byref(n))
    text = ctypes.string_at(t.value, n.value).decode() if t.value else ''
    _lib.ref_enum_free(t)
    return (None if k > most else text.split('\n')[:-1])


def listed(case):
    """in a process of its own, so that the pool has the threads asked for"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 3
        try:
            os.environ['RAYON_NUM_THREADS'] = str(case['threads'])
            try:
                ps = rs.tree_progs((case['states'], case['colors']), case['halt'], case['lim'])
                data = '\n'.join(ps).encode()
                code = 0
            except BaseException as err:
                data, code = repr(err).encode(), 4
            with os.fdopen(w, 'wb') as fp:
                fp.write(data)
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as fp:
        data = fp.read().decode()
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    if code:
        raise Violation(f'{case}: enumeration failed ({code}): {data[:300]}')
    return data.split('\n') if data else []


def check(ctx, case):
    S, C = case['states'], case['colors']
    want = expected(S, C, int(case['halt']), case['lim'], 20_000_000)
    got = listed(case)
    ctx.cls(f'{S}x{C}')
    if len(got) >= 30:
        ctx.nontrivial_case()
    sw, sg = set(want), set(got)
    if len(sw) != len(want):
        raise RuntimeError('the reference lists a program twice')
    where = f'{S} states, {C} colors, halt {case["halt"]}, limit {case["lim"]}, {case["threads"]} threads'
    if len(sg) != len(got):
        seen = set()
        dup = next(p for p in got if p in seen or seen.add(p))
        raise Violation(f'{where}: {dup!r} is listed {got.count(dup)} times')
    if sw != sg:
        a, b = sorted(sw - sg), sorted(sg - sw)
        raise Violation(f'{where}: {len(a)} programs missing, {len(b)} too many; '
                        + (f'missing {a[0]!r}' if a else f'not of the tree: {b[0]!r}'))


def gen(rng):
    k = rng.random()
    S, C = (2, 2) if k < .3 else (3, 2) if k < .68 else (2, 3)
    lim = rng.choice([rng.randrange(1, 12), rng.randrange(12, 60), rng.randrange(60, 400), 876])
    return {'states': S, 'colors': C, 'halt': rng.random() < .5, 'lim': lim, 'threads': rng.choice([1, 2, 3, 8, 16])}


def big(quick):
    few = [(5, 2, True, 2), (2, 6, True, 2), (4, 2, True, 60), (2, 4, True, 60), (2, 5, True, 2), (3, 3, True, 2), (4, 2, False, 4), (2, 4, False, 3)]
    more = [(S, C, h, lim) for S, C in [(4, 2), (2, 4)] for h in (True, False) for lim in (3, 9, 50, 300, 876)]
    cases = few if quick else few + more

    def go():
        for S, C, h, lim in cases:
            for t in ([8] if quick or S * C >= 10 else [1, 3, 8]):  # the large ones take gigabytes each
                yield {'states': S, 'colors': C, 'halt': h, 'lim': lim, 'threads': t}
    return go


def parts(tier):
    q = tier == 'quick'
    return [Part('small', 'rnd', gen, check, 800 if q else 10_000),
            Part('four', 'enum', big(q), check, 0)]
