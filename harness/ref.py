"""Python face of refsim.c plus program text helpers of our own."""
from __future__ import annotations

import ctypes
import fcntl
import hashlib
import os
import subprocess
from dataclasses import dataclass

from bridge import BUILD, HarnessError

HERE = os.path.dirname(os.path.abspath(__file__))


class _Res(ctypes.Structure):
    _fields_ = [(n, ctypes.c_int64) for n in
                ('status', 'steps', 'cycles', 'state', 'color', 'marks',
                 'head', 'lo', 'hi')] + [
        ('blank_step', ctypes.c_int64 * 32), ('nblanks', ctypes.c_int64)]


LIMIT, UNDEF, SPIN, BLANKREC, MEM = range(5)
STATUS = ['limit', 'undefined', 'spinout', 'blankrec', 'mem']


def build_c(src: str, flags=('-O2', '-shared', '-fPIC')) -> str:
    with open(src, 'rb') as fp:
        key = hashlib.sha256(fp.read() + repr(flags).encode()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, os.path.basename(src)[:-2] + '_' + key + '.so')
    with open(os.path.join(BUILD, 'lockc'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(out):
            p = subprocess.run(['gcc', *flags, '-o', out + '.tmp', src],
                               capture_output=True, text=True)
            if p.returncode:
                raise HarnessError(p.stderr)
            os.replace(out + '.tmp', out)
    return out


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(build_c(os.path.join(HERE, 'refsim.c')))
        P = ctypes.c_void_p
        _lib.ref_run.argtypes = [
            ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_int64,
            ctypes.c_int64, ctypes.c_int, ctypes.POINTER(_Res),
            P, P, P]
        _lib.ref_linrec.argtypes = [
            ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_int, P, P]
        _lib.gen_tnf.argtypes = [
            ctypes.c_uint64, ctypes.c_int, ctypes.c_int, ctypes.c_int,
            ctypes.c_int64, ctypes.c_int, ctypes.c_char_p]
        _lib.ref_free.argtypes = [P]
        L, I, B = ctypes.c_int64, ctypes.c_int, ctypes.c_char_p
        _lib.ref_follow.restype = L
        _lib.ref_follow.argtypes = [B, I, I, I, B, L, L, I, B, L, L, L]
        _lib.ref_window.argtypes = [B, I, I, P, P, L, P, L, P]
    return _lib


# -- programs -------------------------------------------------------------
# our own form: list (state) of list (colour) of None | (colour, right, state)

def parse(text: str):
    rows = []
    for row in text.split('  '):
        r = []
        for ins in row.split(' '):
            if ins == '...':
                r.append(None)
            else:
                assert len(ins) == 3 and ins[1] in 'LR', ins
                r.append((int(ins[0]), ins[1] == 'R', ord(ins[2]) - 65))
        rows.append(r)
    return rows


def show_ins(i) -> str:
    return '...' if i is None else f'{i[0]}{"R" if i[1] else "L"}{chr(65 + i[2])}'


def show(rows) -> str:
    return '  '.join(' '.join(show_ins(i) for i in r) for r in rows)


def dims(rows):
    return len(rows), len(rows[0])


def pack(rows) -> bytes:
    """byte table; references to states/colours outside the table widen it"""
    S, C = len(rows), max(len(r) for r in rows)
    for r in rows:
        for i in r:
            if i is not None:
                S, C = max(S, i[2] + 1), max(C, i[0] + 1)
    out = bytearray(b'\xff' * (3 * S * C))
    for s, r in enumerate(rows):
        for c, i in enumerate(r):
            if i is not None:
                k = 3 * (s * C + c)
                out[k], out[k + 1], out[k + 2] = i[0], int(i[1]), i[2]
    return bytes(out), S, C


def unpack(b: bytes, S: int, C: int):
    return [[None if b[3 * (s * C + c)] == 255 else
             (b[3 * (s * C + c)], bool(b[3 * (s * C + c) + 1]), b[3 * (s * C + c) + 2])
             for c in range(C)] for s in range(S)]


@dataclass
class Run:
    status: int
    steps: int
    cycles: int
    state: int
    color: int
    marks: int
    head: int
    lo: int
    hi: int
    blanks: dict
    nblanks: int
    tape: bytes | None = None

    @property
    def kind(self):
        return STATUS[self.status]


def run(prog, max_steps=10**6, max_cycles=-1, stop_blank=False, want_tape=False) -> Run:
    if isinstance(prog, str):
        prog = parse(prog)
    b, S, C = pack(prog)
    r = _Res()
    if want_tape:
        t, l, h = ctypes.c_void_p(), ctypes.c_int64(), ctypes.c_int64()
        lib().ref_run(b, S, C, max_steps, max_cycles, int(stop_blank), ctypes.byref(r),
                      ctypes.byref(t), ctypes.byref(l), ctypes.byref(h))
        tape = ctypes.string_at(t.value, h.value - l.value + 1)
        lib().ref_free(t)
    else:
        lib().ref_run(b, S, C, max_steps, max_cycles, int(stop_blank), ctypes.byref(r),
                      None, None, None)
        tape = None
    return Run(r.status, r.steps, r.cycles, r.state, r.color, r.marks, r.head, r.lo, r.hi,
               {s: r.blank_step[s] for s in range(min(32, S)) if r.blank_step[s] >= 0},
               r.nblanks, tape)


def linrec(prog, max_steps):
    if isinstance(prog, str):
        prog = parse(prog)
    b, S, C = pack(prog)
    i, j = ctypes.c_int(), ctypes.c_int()
    if lib().ref_linrec(b, S, C, max_steps, ctypes.byref(i), ctypes.byref(j)):
        return i.value, j.value
    return None


def gen_tnf(seed: int, S: int, C: int, budget: int, lim: int = 200, fill: int = 0):
    buf = ctypes.create_string_buffer(3 * S * C)
    lib().gen_tnf(seed & (2**64 - 1), S, C, budget, lim, fill, buf)
    return unpack(buf.raw, S, C)


# -- configurations ---------------------------------------------------------

def follow(prog, state, cells, head, tstate, tcells, thead, max_steps):
    """steps until the target configuration (up to translation) is reached;
    -1 out of steps, -2 undefined instruction, -3 out of memory"""
    if isinstance(prog, str):
        prog = parse(prog)
    b, S, C = pack(prog)
    return lib().ref_follow(b, S, C, state, bytes(cells), len(cells), head,
                            tstate, bytes(tcells), len(tcells), thead, max_steps)


def window(packed, state, cells, head, max_steps):
    """(status, state, cells, head, steps): run inside the window"""
    b, S, C = packed
    st = ctypes.c_int(state)
    h, k = ctypes.c_int64(head), ctypes.c_int64()
    buf = ctypes.create_string_buffer(bytes(cells), len(cells))
    r = lib().ref_window(b, S, C, ctypes.byref(st), buf, len(cells), ctypes.byref(h),
                         max_steps, ctypes.byref(k))
    return r, st.value, buf.raw, h.value, k.value


def flat(lspan, scan, rspan):
    """cells and head index of a run-length tape: spans as (colour, count)
    pairs, nearest the head first"""
    left = b''.join(bytes([c]) * n for c, n in reversed(lspan))
    return left + bytes([scan]) + b''.join(bytes([c]) * n for c, n in rspan), len(left)
