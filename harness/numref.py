"""Reference meaning of symbolic numbers: expression tuples
    int | ('+', a, b) | ('*', a, b) | ('/', a, den) | ('^', base, e)
with exact values where they can be written out, exact residues otherwise,
and interval bounds for what is too big for both."""
from __future__ import annotations

from fractions import Fraction
from functools import lru_cache
from math import floor, log2

BITS = 60_000


class TooBig(Exception):
    pass


class Inexact(Exception):
    """a quotient that is no integer, or a negative power"""


def tree(n):
    """a number of the code under test, as an expression tuple"""
    out, stack = {}, [(n, False)]
    while stack:
        x, ready = stack.pop()
        if isinstance(x, int):
            continue
        if id(x) in out:
            continue
        kind = type(x).__name__
        if kind == 'Add' or kind == 'Mul':
            kids = [x.l, x.r]
        elif kind == 'Div':
            kids = [x.num]
        elif kind == 'Exp':
            kids = [x.exp]
        else:
            raise TooBig(kind)
        if not ready:
            stack.append((x, True))
            stack += [(k, False) for k in kids]
            continue
        ks = [k if isinstance(k, int) else out[id(k)] for k in kids]
        out[id(x)] = (('+', *ks) if kind == 'Add' else ('*', *ks) if kind == 'Mul'
                      else ('/', ks[0], x.den) if kind == 'Div' else ('^', x.base, ks[0]))
    return int(n) if isinstance(n, int) else out[id(n)]


@lru_cache(300_000)
def exact(t) -> int:
    """the value; TooBig when it (or a part) has more than BITS bits"""
    if isinstance(t, int):
        if t.bit_length() > BITS:
            raise TooBig
        return t
    k = t[0]
    if k == '^':
        e = exact(t[2])
        if e < 0:
            raise Inexact(t)
        if e * t[1].bit_length() > BITS:
            raise TooBig
        return t[1] ** e
    if k == '/':
        q, r = divmod(exact(t[1]), t[2])
        if r:
            raise Inexact(t)
        return q
    a, b = exact(t[1]), exact(t[2])
    v = a + b if k == '+' else a * b
    if v.bit_length() > BITS:
        raise TooBig
    return v


def value(t):
    try:
        return exact(t)
    except TooBig:
        return None


def factor(n: int) -> dict[int, int]:
    out, p = {}, 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1 if p == 2 else 2
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


@lru_cache(100_000)
def totient(n: int) -> int:
    r = n
    for p in factor(n):
        r = r // p * (p - 1)
    return r


@lru_cache(300_000)
def residue(t, m: int) -> int:
    """value(t) mod m, exactly (the value of t must be an integer)"""
    if m == 1:
        return 0
    if isinstance(t, int):
        return t % m
    k = t[0]
    if k == '+':
        return (residue(t[1], m) + residue(t[2], m)) % m
    if k == '*':
        return residue(t[1], m) * residue(t[2], m) % m
    if k == '/':
        q, r = divmod(residue(t[1], m * t[2]), t[2])
        if r:
            raise Inexact(t)
        return q % m
    base, e = t[1], t[2]
    v = value(e)
    if v is not None:
        if v < 0:
            raise Inexact(t)
        return pow(base, v, m)
    # e is astronomically large: base**e = base**(e mod phi + phi) for e >= log2 m
    if sign(e) <= 0:
        if sign(e) == 0:
            return 1 % m
        raise Inexact(t)
    phi = totient(m)
    return pow(base, residue(e, phi) + phi * max(1, -(-m.bit_length() // phi)), m)


# -- size ----------------------------------------------------------------------

_iv = None


def _mp():
    global _iv
    if _iv is None:
        import mpmath
        mpmath.iv.prec = 400
        _iv = mpmath.iv
    return _iv


@lru_cache(100_000)
def bounds(t):
    """an interval around the value; TooBig when even that cannot be held"""
    iv = _mp()
    v = value(t)
    if v is not None:
        return iv.mpf(v)
    if isinstance(t, int):
        return iv.mpf(t)
    k = t[0]
    if k == '^':
        e = bounds(t[2])
        if e.b > iv.mpf(2) ** 40_000:
            raise TooBig
        return iv.mpf(t[1]) ** e
    if k == '/':
        return bounds(t[1]) / t[2]
    a, b = bounds(t[1]), bounds(t[2])
    return a + b if k == '+' else a * b


class Mag:
    """|value| in exp2^k([lo, hi]); exp2^0 is the identity"""
    __slots__ = 'k', 'lo', 'hi'

    def __init__(self, k, lo, hi):
        e = 1e-11
        self.k, self.lo, self.hi = k, lo - abs(lo) * e - e, hi + abs(hi) * e + e
        while self.hi > 1e200 or self.k == 0 and self.lo > 1e6:
            self.k += 1
            self.lo = log2(max(self.lo, 2)) * (1 - e) - e
            self.hi = log2(self.hi) * (1 + e) + e


def _lift(m, k):
    """m at level k or None when it is too small to have one"""
    lo, hi = m.lo, m.hi
    for _ in range(k - m.k):
        if hi <= 4:
            return None
        lo, hi = log2(max(lo, 1)) - 1e-11, log2(hi) + 1e-11
    return lo, hi


def _above(a, b, gap=2.1) -> bool:
    """surely a > b (at level 0 and 1: 2**gap times as large)"""
    k = max(a.k, b.k, 1)
    x, y = _lift(a, k), _lift(b, k)
    if x is None:
        return False
    if y is None:
        return x[0] > 5
    return x[0] > y[1] + (gap if k == 1 else 1e-6) and x[0] > 3


def _prod(a, b):
    if a.k == b.k == 0:
        return Mag(0, max(a.lo, 0) * max(b.lo, 0), a.hi * b.hi)
    la, lb = _log(a), _log(b)
    return _exp2(_sum(la, lb))


def _log(m):
    if m.k == 0:
        return Mag(0, log2(max(m.lo, 1)), log2(max(m.hi, 1)))
    return Mag(m.k - 1, m.lo, m.hi)


def _exp2(m):
    if m.k == 0 and m.hi < 500:
        return Mag(0, 2.0 ** m.lo, 2.0 ** m.hi)
    return Mag(m.k + 1, m.lo, m.hi)


def _sum(a, b):
    if a.k == b.k == 0:
        return Mag(0, max(a.lo, 0) + max(b.lo, 0), a.hi + b.hi)
    k = max(a.k, b.k)
    x, y = _lift(a, k), _lift(b, k)
    if x is None or y is None:
        lo, hi = x or y
    else:
        lo, hi = max(x[0], y[0]), max(x[1], y[1])
    # twice the larger one at most
    return Mag(k, lo, hi + (1 if k == 1 else 1e-3))


@lru_cache(300_000)
def mag(t) -> Mag:
    v = value(t)
    if v is not None or isinstance(t, int):
        n = abs(t if v is None else v)
        if n < 10**12:
            return Mag(0, float(n), float(n))
        b = n.bit_length()
        top = n >> max(0, b - 64)
        x = log2(top) + max(0, b - 64)
        return Mag(1, x, x)
    k = t[0]
    if k == '^':
        if t[1] == 2:
            return _exp2(mag(t[2]))
        return _exp2(_prod(mag(t[2]), Mag(0, log2(t[1]), log2(t[1]))))
    if k == '/':
        a = mag(t[1])
        d = log2(t[2])
        if a.k == 1 and a.lo > d + 1:
            return Mag(1, a.lo - d, a.hi - d)
        if a.k > 1 and a.lo > 200 and d < 1e6:
            return Mag(a.k, a.lo - 1e-3, a.hi)
        raise TooBig
    if 0 in (sign(t[1]), sign(t[2])):
        return Mag(0, 0., 0.) if k == '*' else mag(t[1] if sign(t[2]) == 0 else t[2])
    a, b = mag(t[1]), mag(t[2])
    if k == '*':
        return _prod(a, b)
    if sign(t[1]) == sign(t[2]):
        return _sum(a, b)
    if not _above(a, b):
        a, b = b, a
    if not _above(a, b):
        raise TooBig
    return Mag(a.k, a.lo - (1 if a.k == 1 else 1e-3), a.hi)


@lru_cache(300_000)
def sign(t) -> int:
    """TooBig when unknown"""
    v = value(t)
    if v is not None:
        return (v > 0) - (v < 0)
    if isinstance(t, int):
        return (t > 0) - (t < 0)
    if t[0] == '^':
        return 1
    if t[0] == '/':
        return sign(t[1])
    if t[0] == '*':
        return sign(t[1]) * sign(t[2])
    a, b = sign(t[1]), sign(t[2])
    if a == b or b == 0:
        return a
    if a == 0:
        return b
    try:
        x, y = mag(t[1]), mag(t[2])
        if _above(x, y):
            return a
        if _above(y, x):
            return b
    except TooBig:
        pass
    x = bounds(t)
    if x.a > 0:
        return 1
    if x.b < 0:
        return -1
    raise TooBig


# -- sums of multiples of powers of one base ------------------------------------
# A number is a frozenset of (exponent, coefficient): coefficients are fractions
# other than 0, exponents such sums themselves with a
# constant at most 1 above a multiple of 1000.

NOTHING = frozenset()


def _poly_make(terms) -> frozenset:
    out = {}
    for e, q in terms:
        out[e] = out.get(e, 0) + q
    for q in out.values():
        if q.numerator.bit_length() + q.denominator.bit_length() > 400_000:
            raise TooBig
    if len(out) > 60:
        raise TooBig
    return frozenset((e, q) for e, q in out.items() if q)


def _poly_add(a, b):
    return _poly_make([*a, *b])


def _poly_scale(a, q):
    return _poly_make((e, c * q) for e, c in a)


def _poly_power(base, e):
    """base ** e"""
    const = next((q for x, q in e if not x), Fraction(0))
    rest = floor(const) - (floor(const) + 500) // 1000 * 1000
    return frozenset([(_poly_add(e, [(NOTHING, Fraction(-rest))]), Fraction(base) ** rest)])


@lru_cache(50_000)
def poly(t, base):
    if isinstance(t, int):
        return _poly_make([(NOTHING, Fraction(t))])
    if t[0] == '^':
        if t[1] != base:
            raise TooBig
        return _poly_power(base, poly(t[2], base))
    a = poly(t[1], base)
    if t[0] == '/':
        return _poly_scale(a, Fraction(1, t[2]))
    b = poly(t[2], base)
    if t[0] == '+':
        return _poly_add(a, b)
    out = []
    for ea, qa in a:
        for eb, qb in b:
            (e, q), = _poly_power(base, _poly_add(ea, eb))
            out.append((e, q * qa * qb))
    return _poly_make(out)


def poly_sign(p, base) -> int:
    terms = list(p)
    if not terms:
        return 0
    top, q = terms[0]
    for e, c in terms[1:]:
        if poly_sign(_poly_add(e, _poly_scale(top, -1)), base) > 0:
            top, q = e, c
    for e, c in terms:
        if e != top:
            # is this term smaller by more than there are terms?
            x = abs(c / q) * len(terms)
            k = max(0, x.numerator.bit_length() - x.denominator.bit_length() + 1)   # x < 2**k
            gap = _poly_add(_poly_add(top, _poly_scale(e, -1)), [(NOTHING, Fraction(-k))])
            if poly_sign(gap, base) <= 0:
                raise TooBig
    return 1 if q > 0 else -1


def _base(t):
    while not isinstance(t, int):
        if t[0] == '^':
            return t[1]
        t = t[2] if not isinstance(t[2], int) else t[1]
    return 2


def compare(a, b) -> int:
    """-1, 0, 1; TooBig when undecided"""
    if a == b:
        return 0
    try:
        base = _base(('+', a, b))
        return poly_sign(_poly_add(poly(a, base), _poly_scale(poly(b, base), -1)), base)
    except (TooBig, RecursionError):
        return _compare(a, b)


def _compare(a, b) -> int:
    if a == b:
        return 0
    va, vb = value(a), value(b)
    if va is not None and vb is not None:
        return (va > vb) - (va < vb)
    if type(a) is tuple and type(b) is tuple and a[0] == b[0] == '^' and a[1] == b[1]:
        return compare(a[2], b[2])
    return sign(('+', a, ('*', -1, b)))


PRIMES = (1_000_003, 65_537, 2**20, 3**12, 5**6 * 7**4, 720_720)


def same(a, b) -> bool | None:
    """do two expressions have the same value?  Exact where possible, by
    residues otherwise (None: cannot tell)"""
    if a == b:
        return True
    va, vb = value(a), value(b)
    if va is not None and vb is not None:
        return va == vb
    try:
        return all(residue(a, m) == residue(b, m) for m in PRIMES)
    except TooBig:
        return None


def field(t, p: int) -> int:
    """value(t) modulo a prime, quotients as in the rationals; Inexact inside exponents"""
    if isinstance(t, int):
        return t % p
    if t[0] == '+':
        return (field(t[1], p) + field(t[2], p)) % p
    if t[0] == '*':
        return field(t[1], p) * field(t[2], p) % p
    if t[0] == '/':
        return field(t[1], p) * pow(t[2], -1, p) % p
    return residue(t, p)


def same_rational(a, b) -> bool | None:
    try:
        return all(field(a, p) == field(b, p) for p in (1_000_003, 65_537, 998_244_353, 2_147_483_647))
    except (TooBig, Inexact):
        return None
