"""Integers known to be small.

A bounded integer is kept as the sign extension of a bit-vector that is just
wide enough for its range; arithmetic that provably cannot leave the range of
the machine type (interval arithmetic on the operands) is done at the width of
the result, so the solver never sees a 32-bit multiplier for 4-bit operands.
Anything that may wrap falls back to the full-width operation."""
import z3
from . import cond as K

TAB = {}        # id of the full-width term -> (short, lo, hi)


def bits(lo, hi):
    n = 1
    while not (-(1 << (n - 1)) <= lo and hi < (1 << (n - 1))):
        n += 1
    return n


def _fit(e, n):
    """signed bit-vector e at width n (value known to fit)"""
    k = e.size()
    if k == n:
        return e
    return z3.SignExt(n - k, e) if k < n else z3.Extract(n - 1, 0, e)


def mk(e, lo, hi, w):
    """the value of e (signed, within lo..hi), as a w-bit integer"""
    if lo == hi:
        return lo & ((1 << w) - 1)
    n = bits(lo, hi)
    s = z3.simplify(_fit(e, n))
    if z3.is_bv_value(s):
        return s.as_signed_long() & ((1 << w) - 1)
    if n >= w:
        K._keep.append(s)
        return s
    full = z3.SignExt(w - n, s)
    K._keep.append(full)
    TAB[full.get_id()] = (s, lo, hi)
    return full


def peel(x, w):
    if type(x) is int:
        v = x - (1 << w) if x >> (w - 1) else x
        return (None, v, v)
    if not z3.is_bv(x):
        return None
    return TAB.get(x.get_id())


def _at(p, n):
    if p[0] is None:
        return z3.BitVecVal(p[1], n)
    return _fit(p[0], n)


def _quot(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def binop(name, x, y, w):
    p, q = peel(x, w), peel(y, w)
    if p is None or q is None:
        return None
    _, a, b = p
    _, c, d = q
    if name in ('add', 'sub', 'mul'):
        vs = [a + c, b + d] if name == 'add' else [a - d, b - c] if name == 'sub' \
            else [a * c, a * d, b * c, b * d]
        f = {'add': lambda s, t: s + t, 'sub': lambda s, t: s - t, 'mul': lambda s, t: s * t}[name]
    elif name == 'shl' and c == d and 0 <= c < w:
        q = (None, 1 << c, 1 << c)
        vs = [a << c, b << c]
        f = lambda s, t: s * t
    elif name in ('lshr', 'ashr') and c == d and 0 <= c < w and (a >= 0 or name == 'ashr'):
        vs = [a >> c, b >> c]
        f = lambda s, t: s >> t
        q = (None, c, c)
        if bits(a, b) <= c:
            return None
    elif name in ('sdiv', 'udiv'):
        if name == 'udiv' and (a < 0 or c < 0):
            return None
        ds = [t for t in (c, d, -1, 1) if c <= t <= d and t != 0]
        if not ds:
            return None
        vs = [_quot(s, t) for s in (a, b) for t in ds] + [0]
        f = lambda s, t: s / t
    elif name in ('srem', 'urem'):
        if name == 'urem' and (a < 0 or c < 0):
            return None
        m = max(abs(c), abs(d)) - 1
        if m < 0:
            return None
        vs = [0, max(a, -m) if a < 0 else 0, min(b, m) if b > 0 else 0]
        f = z3.SRem
    elif name in ('and', 'or', 'xor'):
        n = max(bits(a, b), bits(c, d))
        vs = [-(1 << (n - 1)), (1 << (n - 1)) - 1]
        if name == 'and' and (a >= 0 or c >= 0):
            vs = [0, min(v for v, u in ((b, a), (d, c)) if u >= 0)]
        elif a >= 0 and c >= 0:
            vs = [0, vs[1]]
        f = {'and': lambda s, t: s & t, 'or': lambda s, t: s | t, 'xor': lambda s, t: s ^ t}[name]
    else:
        return None
    lo, hi = min(vs), max(vs)
    if bits(lo, hi) > w:
        return None
    n = max(bits(lo, hi), bits(*p[1:]), bits(*q[1:]))
    return mk(f(_at(p, n), _at(q, n)), lo, hi, w)


# LLVM predicates: 32 eq 33 ne 34 ugt 35 uge 36 ult 37 ule 38 sgt 39 sge 40 slt 41 sle
def compare(p, x, y, w):
    u, v = peel(x, w), peel(y, w)
    if u is None or v is None:
        return None
    a, b = u[1:]
    c, d = v[1:]
    if 34 <= p <= 37:
        if a < 0 or c < 0:
            return None
        p += 4
    if p in (32, 33):
        if b < c or d < a:
            return p == 33
        n = max(bits(a, b), bits(c, d))
        e = _at(u, n) == _at(v, n)
        return e if p == 32 else z3.Not(e)
    if p in (40, 41):
        a, b, c, d, u, v = c, d, a, b, v, u
        p -= 2
    if p == 38:
        if a > d:
            return True
        if b <= c:
            return False
    else:
        if a >= d:
            return True
        if b < c:
            return False
    n = max(bits(a, b), bits(c, d))
    s, t = _at(u, n), _at(v, n)
    return s > t if p == 38 else s >= t


def trunc(x, w, to):
    p = peel(x, w)
    if p is None or bits(*p[1:]) > to:
        return None
    return mk(p[0], p[1], p[2], to)


def sext(x, w, to):
    p = peel(x, w)
    return None if p is None else mk(p[0], p[1], p[2], to)


def zext(x, w, to):
    p = peel(x, w)
    return None if p is None or p[1] < 0 else mk(p[0], p[1], p[2], to)


def ite(c, x, y, w):
    p, q = peel(x, w), peel(y, w)
    if p is None or q is None:
        return None
    lo, hi = min(p[1], q[1]), max(p[2], q[2])
    n = bits(lo, hi)
    return mk(z3.If(c, _at(p, n), _at(q, n)), lo, hi, w)


def iabs(x, w):
    p = peel(x, w)
    if p is None or p[1] == -(1 << (w - 1)):
        return None
    _, a, b = p
    if a >= 0:
        return x
    hi = max(-a, b)
    n = bits(-hi, hi)
    e = _at(p, n)
    return mk(z3.If(e < 0, -e, e), 0, hi, w)


def to_int(x, w, signed):
    """z3 integer value of a bit-vector term"""
    p = peel(x, w)
    if p is not None and (signed or p[1] >= 0):
        x, signed = p[0], True
    return z3.BV2Int(x, is_signed=signed)
