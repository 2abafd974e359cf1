"""Exact real arithmetic over symbolic inputs.

A symbolic `double` is a rational function in *atoms*:  RF = num / (cd * prod D^e)
 * num  - polynomial with integer coefficients, dict {packed monomial: int}
 * cd   - positive integer
 * den  - tuple of (factor id, exponent); factors are primitive polynomials
Atoms are solver constants: inputs, square roots (s>=0, s*s == radicand),
applications of uninterpreted functions (exp, log, ...), fresh unknowns.
The normal form only shortens what the solver is asked; the verdict is the
solver's.
"""
from fractions import Fraction
from math import gcd
from functools import reduce

SH = 8            # bits per exponent in a packed monomial
MASK = (1 << SH) - 1


class Atoms:
    def __init__(self):
        self.names = []
        self.kind = []          # 'in','sqrt','uf','fresh','int'
        self.info = []
        self.index = {}
        self.sq = {}            # atom id -> radicand poly (s*s -> poly)
        self.sqmask = 0         # mask of bits (exp>=2 test uses 0xFE)
        self.factors = []       # denominators: list of poly
        self.findex = {}

    def new(self, name, kind, info=None):
        i = len(self.names)
        self.names.append(name)
        self.kind.append(kind)
        self.info.append(info)
        return i

    def named(self, name, kind='in', info=None):
        if name in self.index:
            return self.index[name]
        i = self.new(name, kind, info)
        self.index[name] = i
        return i

    def factor_id(self, p):
        k = pkey(p)
        f = self.findex.get(k)
        if f is None:
            f = len(self.factors)
            self.factors.append(p)
            self.findex[k] = f
        return f


AT = Atoms()


def reset():
    global AT
    AT = Atoms()
    return AT


# ---------------------------------------------------------------- polynomials
def pkey(p):
    return tuple(sorted(p.items()))


def pconst(c):
    return {0: c} if c else {}


def patom(i):
    return {1 << (SH * i): 1}


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            del r[m]
    return r


def pneg(a):
    return {m: -c for m, c in a.items()}


def pscale(a, k):
    if k == 1:
        return a
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


def pmul_raw(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def preduce(p):
    """replace s^2 by its radicand until every sqrt atom has exponent <= 1"""
    if not AT.sq:
        return p
    while True:
        hit = None
        for m in p:
            if m & AT.sqmask:
                hit = m
                break
        if hit is None:
            return p
        out = {}
        for m, c in p.items():
            if m & AT.sqmask:
                # pick the highest offending atom
                for a in sorted(AT.sq, reverse=True):
                    e = (m >> (SH * a)) & MASK
                    if e >= 2:
                        rest = m - ((e - (e & 1)) << (SH * a))
                        q = {rest: c}
                        for _ in range(e // 2):
                            q = pmul_raw(q, AT.sq[a])
                        break
                for m2, c2 in q.items():
                    v = out.get(m2, 0) + c2
                    if v:
                        out[m2] = v
                    else:
                        del out[m2]
            else:
                v = out.get(m, 0) + c
                if v:
                    out[m] = v
                else:
                    del out[m]
        p = out


def pmul(a, b):
    r = pmul_raw(a, b)
    if AT.sqmask:
        for m in r:
            if m & AT.sqmask:
                return preduce(r)
    return r


def ppow(a, n):
    r = {0: 1}
    for _ in range(n):
        r = pmul(r, a)
    return r


def pcontent(p):
    g = 0
    for c in p.values():
        g = gcd(g, c)
        if g == 1:
            return 1
    return g


def pisconst(p):
    return not p or (len(p) == 1 and 0 in p)


def mono_exps(m):
    r = []
    i = 0
    while m:
        e = m & MASK
        if e:
            r.append((i, e))
        m >>= SH
        i += 1
    return r


def mono_gcd(p):
    it = iter(p)
    g = next(it)
    for m in it:
        if not g:
            return 0
        # componentwise min
        r = 0
        x, y, s = g, m, 0
        while x and y:
            e = min(x & MASK, y & MASK)
            r |= e << s
            x >>= SH
            y >>= SH
            s += SH
        g = r
    return g


def patoms(p):
    acc = 0
    for m in p:
        acc |= m
    out = []
    i = 0
    while acc:
        if acc & MASK:
            out.append(i)
        acc >>= SH
        i += 1
    return out


def pdivexact(a, b):
    """a / b if exact else None (lex order on packed monomials)"""
    if not a:
        return {}
    lb = max(b)
    cb = b[lb]
    r = dict(a)
    q = {}
    steps = 0
    lim = 4 * len(a) + 64
    while r:
        la = max(r)
        # need lb | la componentwise
        x, y = la, lb
        ok = True
        while y:
            if (x & MASK) < (y & MASK):
                ok = False
                break
            x >>= SH
            y >>= SH
        if not ok:
            return None
        ca = r[la]
        if ca % cb:
            return None
        c = ca // cb
        m = la - lb
        q[m] = c
        for mb, c2 in b.items():
            mm = mb + m
            v = r.get(mm, 0) - c * c2
            if v:
                r[mm] = v
            else:
                del r[mm]
        steps += 1
        if steps > lim:
            return None
    return q


def peval(p, env):
    tot = 0
    for m, c in p.items():
        t = c
        for a, e in mono_exps(m):
            t = t * env[a] ** e
        tot += t
    return tot


# ---------------------------------------------------------- rational functions
class RF:
    __slots__ = ('num', 'cd', 'den')

    def __init__(self, num, cd=1, den=()):
        self.num = num
        self.cd = cd
        self.den = den

    def __repr__(self):
        return 'RF(%s)' % rf_str(self)


def rf_atom(i):
    return RF(patom(i))


def to_rf(v):
    if isinstance(v, RF):
        return v
    v = Fraction(v)
    return RF(pconst(v.numerator), v.denominator)


def norm(num, cd, den):
    """-> RF or Fraction"""
    if not num:
        return Fraction(0)
    if cd != 1:
        g = gcd(pcontent(num), cd)
        if g != 1:
            num = {m: c // g for m, c in num.items()}
            cd //= g
    if den:
        nd = []
        for f, e in den:
            D = AT.factors[f]
            if len(D) == 1:                      # a single atom
                (dm, _), = D.items()
                k = e
                while k:
                    for m in num:
                        # dm is one atom with exponent 1
                        if not (m & (dm * MASK)):
                            break
                    else:
                        num = {m - dm: c for m, c in num.items()}
                        k -= 1
                        continue
                    break
                if k:
                    nd.append((f, k))
            else:
                k = e
                while k and len(num) >= len(D) and len(num) < 3000:
                    q = pdivexact(num, D)
                    if q is None:
                        break
                    num = q
                    k -= 1
                if k:
                    nd.append((f, k))
        den = tuple(nd)
    if not den and pisconst(num):
        return Fraction(num.get(0, 0), cd)
    return RF(num, cd, den)


def denmul(den):
    r = {0: 1}
    for f, e in den:
        for _ in range(e):
            r = pmul(r, AT.factors[f])
    return r


def lcmden(d1, d2):
    """lcm and the cofactors of both"""
    if d1 == d2:
        return d1, (), ()
    a, b = dict(d1), dict(d2)
    L, c1, c2 = [], [], []
    for f in sorted(set(a) | set(b)):
        x, y = a.get(f, 0), b.get(f, 0)
        m = max(x, y)
        L.append((f, m))
        if m > x:
            c1.append((f, m - x))
        if m > y:
            c2.append((f, m - y))
    return tuple(L), tuple(c1), tuple(c2)


def radd(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    if isinstance(a, Fraction) and not a:
        return b
    if isinstance(b, Fraction) and not b:
        return a
    a, b = to_rf(a), to_rf(b)
    L, c1, c2 = lcmden(a.den, b.den)
    g = gcd(a.cd, b.cd)
    n1 = pscale(a.num, b.cd // g)
    n2 = pscale(b.num, a.cd // g)
    if c1:
        n1 = pmul(n1, denmul(c1))
    if c2:
        n2 = pmul(n2, denmul(c2))
    return norm(padd(n1, n2), a.cd // g * b.cd, L)


def rneg(a):
    if isinstance(a, Fraction):
        return -a
    return RF(pneg(a.num), a.cd, a.den)


def rsub(a, b):
    return radd(a, rneg(b))


def rmul(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a * b
    if isinstance(a, Fraction):
        a, b = b, a
    if isinstance(b, Fraction):
        if not b:
            return b
        return norm(pscale(a.num, b.numerator), a.cd * b.denominator, a.den)
    d = dict(a.den)
    for f, e in b.den:
        d[f] = d.get(f, 0) + e
    den = tuple(sorted(d.items()))
    an, bn = a.num, b.num
    if den:
        # cancel cheaply before multiplying out
        x = norm(an, 1, b.den) if b.den else None
        y = norm(bn, 1, a.den) if a.den else None
        if x is not None or y is not None:
            x = to_rf(x) if x is not None else RF(an)
            y = to_rf(y) if y is not None else RF(bn)
            d = dict(x.den)
            for f, e in y.den:
                d[f] = d.get(f, 0) + e
            an, bn = x.num, y.num
            den = tuple(sorted(d.items()))
            return norm2(pmul(an, bn), a.cd * b.cd * x.cd * y.cd, den)
    return norm2(pmul(an, bn), a.cd * b.cd, den)


norm2 = norm


def factor_poly(p):
    """p = c * prod atoms^e * rest ; -> (c, [(factor id, e)])"""
    c = pcontent(p)
    lead = p[max(p)]
    if lead < 0:
        c = -c
    if c != 1:
        p = {m: v // c for m, v in p.items()}
    fs = []
    g = mono_gcd(p)
    if g:
        p = {m - g: v for m, v in p.items()}
        for i, e in mono_exps(g):
            fs.append((AT.factor_id(patom(i)), e))
    if not pisconst(p):
        # divide by known factors
        for fid in range(len(AT.factors)):
            D = AT.factors[fid]
            if len(D) < 2 or len(D) > len(p):
                continue
            e = 0
            while True:
                q = pdivexact(p, D)
                if q is None:
                    break
                p = q
                e += 1
            if e:
                fs.append((fid, e))
        if pisconst(p):
            c *= p[0]
        else:
            fs.append((AT.factor_id(p), 1))
    return c, fs


def rinv(b):
    """1/b, b a nonzero RF"""
    c, fs = factor_poly(b.num)
    num = pscale(denmul(b.den), b.cd)
    if c < 0:
        num = pneg(num)
        c = -c
    d = {}
    for f, e in fs:
        d[f] = d.get(f, 0) + e
    return norm(num, c, tuple(sorted(d.items())))


def rdiv(a, b):
    if isinstance(b, Fraction):
        return rmul(a, 1 / b)
    return rmul(a, rinv(b))


# ---------------------------------------------------------------- printing
def poly_str(p, limit=12):
    if not p:
        return '0'
    out = []
    for k, (m, c) in enumerate(sorted(p.items(), reverse=True)):
        if k >= limit:
            out.append('... (%d terms)' % len(p))
            break
        t = [str(c)] if c != 1 or not m else []
        for a, e in mono_exps(m):
            t.append(AT.names[a] + ('^%d' % e if e > 1 else ''))
        out.append('*'.join(t))
    return ' + '.join(out)


def rf_str(r):
    if isinstance(r, (Fraction, float, int)):
        return str(r)
    s = poly_str(r.num)
    if r.cd == 1 and not r.den:
        return s
    d = [str(r.cd)] if r.cd != 1 else []
    for f, e in r.den:
        d.append('(%s)%s' % (poly_str(AT.factors[f]), '^%d' % e if e > 1 else ''))
    return '(%s)/(%s)' % (s, '*'.join(d))


# ---------------------------------------------------------------- literals
def simplest(x):
    """simplest rational that rounds to the double x (Stern-Brocot); exact
    value when that rational has a denominator above 10^9"""
    import math
    if x == 0 or x != x or x in (float('inf'), float('-inf')):
        return Fraction(0) if x == 0 else x
    f = Fraction(x)
    if f.denominator == 1:
        return f
    if x < 0:
        return -simplest(-x)
    lo = (Fraction(math.nextafter(x, 0.0)) + f) / 2
    hi = (Fraction(math.nextafter(x, math.inf)) + f) / 2

    def sb(lo, hi):
        fl = lo.numerator // lo.denominator
        if fl == lo and False:
            return Fraction(fl)
        if fl + 1 <= hi:
            return Fraction(fl) if fl >= lo else Fraction(fl + 1)
        if fl == lo:
            return Fraction(fl)
        r = sb(1 / (hi - fl), 1 / (lo - fl))
        return fl + 1 / r
    s = sb(lo, hi)
    return s if s.denominator <= 10 ** 9 else f
