"""Models of what the IR leaves external: harness intrinsics, LLVM intrinsics,
libc / libm / libstdc++ entry points."""
import struct
from fractions import Fraction
from math import inf, nan, isnan
import re
import z3
from . import realalg as R
from .realalg import RF
from . import cond as K
from . import narrow as N
from .cond import Cond, creal, cbool, POS, NEG, ZERO

M64 = (1 << 64) - 1


def nop(M, st, a):
    return None


def zero(M, st, a):
    return 0


# ---------------------------------------------------------------- harness API
def _name(M, st, p):
    from .machine import cstr
    nm = cstr(st, p)
    k = st.count.get(nm, 0)
    st.count[nm] = k + 1
    return nm if k == 0 else '%s#%d' % (nm, k)


def vp_real(M, st, a):
    nm = _name(M, st, a[0])
    i = R.AT.named(nm, 'in', {})
    v = R.rf_atom(i)
    st.inputs.append((nm, 'r', i))
    return v


def vp_int(M, st, a):
    """a bounded integer in 64 bits"""
    from .machine import sx
    nm = _name(M, st, a[0])
    lo, hi = sx(a[1], 64), sx(a[2], 64)
    v = z3.BitVec(nm, min(64, N.bits(lo, hi)))
    K._keep.append(v)
    st.inputs.append((nm, 'i', v))
    M.fact(st, cbool(z3.And(v >= lo, v <= hi)))
    return N.mk(v, lo, hi, 64)


def vp_bool(M, st, a):
    nm = _name(M, st, a[0])
    v = z3.Bool(nm)
    st.inputs.append((nm, 'b', v))
    return cbool(v)


def vp_choice(M, st, a):
    """nondeterministic 0..n-1, concretised by forking"""
    n = a[1]
    from .machine import cstr, Fork
    nm0 = cstr(st, a[0])
    k = st.count.get(nm0, 0)
    nm = nm0 if k == 0 else '%s#%d' % (nm0, k)
    v = z3.BitVec(nm, 64)
    key = ('choice', nm)
    # decide the values one by one (idempotent until the last one is known)
    val = None
    for x in range(n - 1):
        c = cbool(v == x)
        d = st.decided.get(c.key)
        if d is None:
            raise Fork(c)
        if d:
            val = x
            break
    if val is None:
        val = n - 1
        if n > 1:
            M.fact(st, cbool(v == val))
    st.count[nm0] = k + 1
    st.inputs.append((nm, 'c', val))
    return val


def _cond(v):
    if isinstance(v, Cond) or v is True or v is False:
        return v
    if type(v) is int:
        return v != 0
    return cbool(v != 0)


def vp_assume(M, st, a):
    from .machine import Stop
    c = _cond(a[0])
    if c is True:
        return
    if c is False:
        raise Stop('assume')
    d = st.decided.get(c.key)
    if d is True:
        return
    if d is False:
        raise Stop('assume')
    if c.kind == 'r':
        m = M.sign(st, c.a)
        from .cond import OPMASK
        if not (m & ~OPMASK[c.b]):
            return
        if not (m & OPMASK[c.b]):
            raise Stop('assume')
    if M.ask(st, c) is False:
        raise Stop('assume')
    M.fact(st, c)


def vp_axiom(M, st, a):
    """a fact about abstracted functions; not evaluated natively"""
    c = _cond(a[0])
    if c is True:
        return
    if c is False:
        raise M.unsup('axiom is false')
    M.fact(st, c)


def vp_check(M, st, a):
    from .machine import cstr
    cid = cstr(st, a[1])
    c = _cond(a[0])
    st.trace.append(('check', cid, c))
    _check(M, st, cid, c)


def _check(M, st, cid, c, msg=''):
    if c is True:
        M.obligation(st, cid, 'check', False, msg)
        return
    if c is False:
        M.obligation(st, cid, 'check', None, msg)
        from .machine import Stop
        raise Stop('check failed: ' + cid)
    d = st.decided.get(c.key)
    if d is True:
        M.obligation(st, cid, 'check', False, msg)
        return
    M.obligation(st, cid, 'check', c.neg(), msg)


def _num_check(M, st, x, y, cid, op, tr):
    for v in (x, y):
        if type(v) is float:
            st.trace.append((tr, cid, None))
            M.obligation(st, cid, 'check', None, 'non-finite value (%s)' % v)
            from .machine import Stop
            raise Stop('check failed: ' + cid)
    st.trace.append((tr, cid, (x, y)))
    c = M.fcmp(st, x, y, op)
    _check(M, st, cid, c)


def vp_check_eq(M, st, a):
    from .machine import cstr
    _num_check(M, st, a[0], a[1], cstr(st, a[2]), '==', 'eq')


def vp_check_le(M, st, a):
    from .machine import cstr
    _num_check(M, st, a[0], a[1], cstr(st, a[2]), '<=', 'le')


def vp_eq(M, st, a):
    """exact equality as a boolean (the native build allows for rounding)"""
    for v in a[:2]:
        if type(v) is float:
            return 0
    return M.fcmp(st, a[0], a[1], '==')


def vp_lemma(M, st, a):
    """a check whose conclusion may be used by what follows"""
    vp_check(M, st, a)
    c = _cond(a[0])
    if c is not True and st.decided.get(c.key) is None:
        M.fact(st, c)


def vp_cover(M, st, a):
    from .machine import cstr
    cid = cstr(st, a[0])
    st.trace.append(('cover', cid))


def vp_fail(M, st, a):
    from .machine import cstr, Stop
    cid = cstr(st, a[0])
    st.trace.append(('check', cid, False))
    M.obligation(st, cid, 'check', None, '')
    raise Stop('check failed: ' + cid)


def vp_abstract(M, st, a):
    """replace a rational function by a fresh atom with a defining equation"""
    x = a[0]
    if type(x) is not RF:
        return x
    if not x.den and x.cd == 1 and len(x.num) == 1 and list(x.num.values()) == [1]:
        m = next(iter(x.num))
        ex = R.mono_exps(m)
        if len(ex) == 1 and ex[0][1] == 1:
            return x
    AT = R.AT
    k = ('abs', x.cd, R.pkey(x.num), x.den)
    i = AT.index.get(k)
    if i is None:
        from .machine import creal_raw
        i = AT.named(k, 'def', {})
        AT.names[i] = 'v_%d' % i
        d = R.pscale(R.denmul(x.den), x.cd)
        eq = R.padd(R.pmul(R.patom(i), d), R.pneg(x.num))
        AT.info[i] = {'defs': [creal_raw(eq, '==')], 'val': x}
    # carry over a known sign
    s = 7
    pn = M.cmp0(st, x, '<')
    if pn is True:
        s = NEG
    elif pn is False:
        s = ZERO | POS
        if M.cmp0(st, x, '==') is False:
            s = POS
    if s != 7:
        st.signs[((1 << (R.SH * i), 1),)] = s
        # keep it visible to the solver as well
        from .machine import creal_raw
        c = creal_raw(R.patom(i), '<') if s == NEG else creal_raw(R.pneg(R.patom(i)), '<' if s == POS else '<=')
        if c.key not in st.decided:
            st.decided[c.key] = True
            st.pc.append(c)
    return R.rf_atom(i)


def vp_const(M, st, a):
    """is the value a compile-time constant of the path (no symbols)?"""
    return int(not isinstance(a[0], RF))


def vp_end(M, st, a):
    from .machine import Stop
    raise Stop('end')


# --------------------------------------------------------------------- libm
def fabs(M, st, a):
    x = a[0]
    if type(x) is float:
        return abs(x)
    if type(x) is Fraction:
        return abs(x)
    return x if M.decide_c(st, M.cmp0(st, x, '>=')) else R.rneg(x)


def l_sqrt(M, st, a):
    return M.sqrt(st, a[0])


def fma(M, st, a):
    return M.fadd(st, M.fmul(st, a[0], a[1]), a[2])


def fmax(M, st, a):
    x, y = a
    if type(x) is float and isnan(x):
        return y
    if type(y) is float and isnan(y):
        return x
    return y if M.decide_c(st, M.fcmp(st, x, y, '<')) else x


def fmin(M, st, a):
    x, y = a
    if type(x) is float and isnan(x):
        return y
    if type(y) is float and isnan(y):
        return x
    return y if M.decide_c(st, M.fcmp(st, y, x, '<')) else x


def _floorlike(mode):
    def f(M, st, a):
        x = a[0]
        if type(x) is float:
            return x
        return Fraction(M.conc_floor(st, x, mode))
    return f


def l_round(M, st, a):
    x = a[0]
    if type(x) is float:
        return x
    if type(x) is Fraction:
        n = abs(x) + Fraction(1, 2)
        v = n.numerator // n.denominator
        return Fraction(v if x >= 0 else -v)
    # some integer within 1/2 of x
    AT = R.AT
    k = ('round', x.cd, R.pkey(x.num), x.den)
    i = AT.index.get(k)
    if i is None:
        i = AT.named(k, 'int', {})
        nm = 'round_%d' % i
        AT.names[i] = nm
        zi = z3.Int(nm)
        AT.info[i] = {'z': z3.ToReal(zi), 'vars': {nm}, 'defs': [], 'fn': 'round', 'arg': x}
    r = R.rf_atom(i)
    d = R.rsub(r, x)
    for c in (M.cmp0(st, R.rsub(d, Fraction(1, 2)), '<='), M.cmp0(st, R.radd(d, Fraction(1, 2)), '>=')):
        if c is not True and c is not False and c.key not in st.decided:
            M.fact(st, c)
    return r


def _mathuf(name, pyf, pos=False):
    def f(M, st, a):
        x = a[0]
        if type(x) is float:
            try:
                return pyf(x)
            except (ValueError, OverflowError):
                return nan
        if name in ('log', 'log2', 'log10', 'log1p'):
            z = R.radd(x, Fraction(1)) if name == 'log1p' else x
            if M.decide_c(st, M.fcmp(st, z, Fraction(0), '<=')):
                s = M.decide_c(st, M.fcmp(st, z, Fraction(0), '=='))
                return -inf if s else nan
        if type(x) is Fraction:
            if name == 'exp' and x == 0:
                return Fraction(1)
            if name == 'log' and x == 1:
                return Fraction(0)
            if name in ('sin', 'tan', 'atan', 'sinh', 'asin', 'cbrt') and x == 0:
                return Fraction(0)
            if name in ('cos', 'cosh') and x == 0:
                return Fraction(1)
            if name == 'log2':
                n, d = x.numerator, x.denominator
                if n == 1 and d & (d - 1) == 0:
                    return Fraction(-(d.bit_length() - 1))
                if d == 1 and n & (n - 1) == 0:
                    return Fraction(n.bit_length() - 1)
                # keep comparisons with integers exact
                return M.uf(st, name, (x,))
            if name == 'exp2' and x.denominator == 1:
                return Fraction(2) ** x.numerator
            v = pyf(x.numerator / x.denominator)
            if v != v or v in (inf, -inf):
                return v
            return R.simplest(v) if name not in ('exp', 'log') else _keep_uf(M, st, name, x, v)
        inner = {'log': 'exp', 'exp': 'log'}.get(name)
        if inner and type(x) is RF and not x.den and x.cd == 1 and len(x.num) == 1:
            (m, c), = x.num.items()
            ex = R.mono_exps(m)
            if c == 1 and len(ex) == 1 and ex[0][1] == 1:
                info = R.AT.info[ex[0][0]]
                if isinstance(info, dict) and info.get('fn') == inner:
                    return info['arg']
        return M.uf(st, name, (x,), pos)
    return f


def _keep_uf(M, st, name, x, v):
    return Fraction(v)


def l_pow(M, st, a):
    x, y = a
    if type(x) is float or type(y) is float:
        return nan
    if type(y) is Fraction:
        if y.denominator == 1 and abs(y) <= 64:
            n = abs(y.numerator)
            r = Fraction(1)
            for _ in range(n):
                r = M.fmul(st, r, x)
            return r if y >= 0 else M.fdiv(st, Fraction(1), r)
        if y == Fraction(1, 2):
            return M.sqrt(st, x)
        if type(x) is Fraction:
            if x == 2 and y.denominator == 1:
                return Fraction(2) ** y.numerator
            return R.simplest(float(x) ** float(y))
    return M.uf(st, 'pow', (x, y))


def l_ldexp(M, st, a):
    from .machine import sx
    x, k = a
    k = M.conc_int(st, k, 32)
    if type(x) is float:
        return x
    return R.rmul(x, Fraction(2) ** sx(k, 32))


def l_hypot(M, st, a):
    return M.sqrt(st, M.fadd(st, M.fmul(st, a[0], a[0]), M.fmul(st, a[1], a[1])))


def l_copysign(M, st, a):
    x = fabs(M, st, [a[0]])
    return x if M.fsign(st, a[1]) >= 0 else M.fneg(st, x)


def fmod_(M, st, x, y):
    if type(x) is float or type(y) is float:
        return nan
    q = M.fdiv(st, x, y)
    k = M.conc_floor(st, q, 'trunc')
    return M.fsub(st, x, M.fmul(st, Fraction(k), y))


def l_fmod(M, st, a):
    return fmod_(M, st, a[0], a[1])


def l_nextafter(M, st, a):
    """a neighbour: strictly on the side of the second argument, arbitrarily
    close (relative distance at most 2^-52)"""
    x, y = a
    s = M.fsign(st, M.fsub(st, y, x))
    if s == 0:
        return x
    if type(x) is Fraction:
        import math
        return Fraction(math.nextafter(float(x), float(y)))
    i = M.fresh('ulp')
    r = R.rf_atom(i)
    M.fact(st, creal(R.pneg(R.patom(i)), '<'))
    lim = R.radd(fabs(M, st, [x]), Fraction(1))
    c = M.cmp0(st, R.rsub(R.rmul(r, Fraction(2) ** 52), lim), '<=')
    if isinstance(c, Cond):
        M.fact(st, c)
    return R.radd(x, r) if s > 0 else R.rsub(x, r)


def round_float(M, st, x):
    """float(x) for a symbolic real: relative error at most 2^-24"""
    AT = R.AT
    k = ('f32', x.cd, R.pkey(x.num), x.den)
    i = AT.index.get(k)
    if i is None:
        i = AT.named(k, 'fresh', {})
        AT.names[i] = 'ferr_%d' % i
        from .machine import creal_raw
        e = R.patom(i)
        big = 1 << 24
        AT.info[i] = {'defs': [creal_raw(R.padd(R.pscale(e, big), {0: -1}), '<='),
                               creal_raw(R.padd(R.pscale(e, -big), {0: -1}), '<=')]}
    return R.rmul(x, R.radd(Fraction(1), R.rf_atom(i)))


# ---------------------------------------------------------------- allocation
def op_new(M, st, a):
    n = M.conc_int(st, a[0], 64)
    if n > (1 << 28):
        from .machine import Violation
        raise Violation('memory', 'allocation of %d bytes' % n)
    return st.alloc(n, 'heap')


def l_calloc(M, st, a):
    n = M.conc_int(st, a[0], 64) * M.conc_int(st, a[1], 64)
    return st.alloc(n, 'heap', bg=0)


def l_realloc(M, st, a):
    n = M.conc_int(st, a[1], 64)
    p = st.alloc(n, 'heap')
    if a[0]:
        o = st.mem[a[0] >> 32]
        M.memcpy(st, p, a[0], min(n, o.size))
        op_delete(M, st, [a[0]])
    return p


def op_delete(M, st, a):
    from .machine import Violation
    p = a[0]
    if type(p) is not int:
        p = M.conc_int(st, p, 64)
    if p == 0:
        return
    o = st.mem.get(p >> 32)
    if o is None or o.kind != 'heap' or (p & 0xffffffff):
        raise Violation('memory', 'invalid pointer freed')
    if not o.alive:
        raise Violation('memory', 'object freed twice')
    o = st.wobj(p >> 32)
    o.alive = False
    o.cells = {}


def l_posix_memalign(M, st, a):
    n = M.conc_int(st, a[2], 64)
    p = st.alloc(n, 'heap')
    M.store(st, a[0], ('p', 64, 8), p)
    return 0


def l_aligned_alloc(M, st, a):
    return op_new(M, st, [a[1]])


def l_memcpy(M, st, a):
    M.memcpy(st, a[0], a[1], a[2])
    return a[0]


def l_memset(M, st, a):
    v = a[1]
    if type(v) is not int:
        from .machine import simp
        v = simp(z3.Extract(7, 0, v)) if v.size() > 8 else v
    M.memset(st, a[0], v, a[2])
    return a[0]


def _byte(M, st, p):
    v = M.load(st, p, ('i', 8, 1))
    return v


def l_strlen(M, st, a):
    n = 0
    while True:
        v = _byte(M, st, a[0] + n)
        if type(v) is not int:
            if M.decide_c(st, cbool(v == 0)):
                return n
        elif v == 0:
            return n
        n += 1


def l_bcmp(M, st, a):
    n = M.conc_int(st, a[2], 64)
    for i in range(n):
        x, y = _byte(M, st, a[0] + i), _byte(M, st, a[1] + i)
        if type(x) is int and type(y) is int:
            if x != y:
                return 1 if x > y else 0xffffffff
        else:
            from .machine import bv
            if not M.decide_c(st, cbool(bv(x, 8) == bv(y, 8))):
                if type(x) is int and type(y) is int:
                    return 1 if x > y else 0xffffffff
                return 1 if M.decide_c(st, cbool(z3.UGT(bv(x, 8), bv(y, 8)))) else 0xffffffff
    return 0


def l_strcmp(M, st, a):
    i = 0
    from .machine import bv
    while True:
        x, y = _byte(M, st, a[0] + i), _byte(M, st, a[1] + i)
        if type(x) is int and type(y) is int:
            if x != y:
                return 1 if x > y else 0xffffffff
            if x == 0:
                return 0
        else:
            if not M.decide_c(st, cbool(bv(x, 8) == bv(y, 8))):
                return 1 if M.decide_c(st, cbool(z3.UGT(bv(x, 8), bv(y, 8)))) else 0xffffffff
            if M.decide_c(st, cbool(bv(x, 8) == 0)):
                return 0
        i += 1


def l_memchr(M, st, a):
    n = M.conc_int(st, a[2], 64)
    from .machine import bv
    c = a[1] & 255
    for i in range(n):
        x = _byte(M, st, a[0] + i)
        if type(x) is int:
            if x == c:
                return a[0] + i
        elif M.decide_c(st, cbool(x == c)):
            return a[0] + i
    return 0


# ----------------------------------------------------------------- failures
def _viol(kind, text):
    def f(M, st, a):
        from .machine import Violation
        raise Violation(kind, text)
    return f


def l_assert_fail(M, st, a):
    from .machine import Violation, cstr
    try:
        msg = '%s at %s:%d' % (cstr(st, a[0]), cstr(st, a[1]), a[2])
    except Exception:
        msg = 'assertion'
    raise Violation('assert', 'assertion failed: ' + msg)


def throw_(M, st, a):
    from .machine import Violation
    raise Violation('throw', 'uncaught exception in ' + ' < '.join(reversed(M.where(st)[-3:])))


def cxa_throw(M, st, a):
    from .machine import Throw
    M.typeids()
    raise Throw(a[0], M._gname[a[1]])


def lib_throw(name):
    """std::__throw_xxx(...)"""
    m = re.match(r'_ZSt\d+__throw_(out_of_range|bad_array_new_length|[a-z_]+?)(_fmt)?(v|PK.*|m.*|i.*)$', name)
    k = m.group(1) if m else 'exception'
    t = '_ZTISt%d%s' % (len(k), k)

    def f(M, st, a):
        from .machine import Throw
        M.typeids()
        raise Throw(st.alloc(64, 'heap', 'exception'), t if t in M._bases else '_ZTISt9exception')
    return f


def begin_catch(M, st, a):
    st.extra['caught'] = st.extra.get('caught', ()) + (a[0],)
    return a[0]


def end_catch(M, st, a):
    st.extra['caught'] = st.extra.get('caught', (0,))[:-1]


def rethrow(M, st, a):
    from .machine import Throw
    p = st.extra['caught'][-1]
    raise Throw(p, st.extra['exctype', p])


def typeid_for(M, st, a):
    return M.typeids()[M._gname[a[0]]] if a[0] else 0


def guard_acquire(M, st, a):
    o = M.load(st, a[0], ('i', 8, 1))
    return 0 if o else 1


def guard_release(M, st, a):
    M.store(st, a[0], ('i', 8, 1), 1)


# ------------------------------------------------------- unordered containers
FAST_BKT = [1, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13]
PRIMES = [17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167,
          179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823]


def bucket_count(n):
    """as libstdc++ chooses it (the order of iteration depends on it)"""
    if n < len(FAST_BKT):
        return FAST_BKT[n]
    return next(p for p in PRIMES if p >= n)


def next_bkt(M, st, a):
    """_Prime_rehash_policy::_M_next_bkt"""
    n = M.conc_int(st, a[1], 64)
    p = bucket_count(n)
    if n:
        M.store(st, a[0] + 8, ('i', 64, 8), p)
    return p


def need_rehash(M, st, a):
    """_Prime_rehash_policy::_M_need_rehash, load factor 1: {bool, size_t}"""
    nb, ne, ni = (M.conc_int(st, x, 64) for x in a[1:4])
    nxt = M.load(st, a[0] + 8, ('i', 64, 8))
    if ne + ni > nxt:
        want = max(ne + ni, 0 if nxt else 11)
        p = bucket_count(max(want + 1, 2 * nb)) if want >= nb else nb
        M.store(st, a[0] + 8, ('i', 64, 8), p)
        if want >= nb:
            return (1, p)
    return (0, 0)


def hash_bytes(M, st, a):
    n = M.conc_int(st, a[1], 64)
    h = 14695981039346656037
    for i in range(n):
        v = _byte(M, st, a[0] + i)
        if type(v) is not int:
            v = M.conc_int(st, v, 8)
        h = ((h ^ v) * 1099511628211) & M64
    return h


PT = ('p', 64, 8)


def list_hook(M, st, a):
    """_List_node_base { next, prev }: put the node before the position"""
    node, pos = a[0], a[1]
    prev = M.load(st, pos + 8, PT)
    M.store(st, node, PT, pos)
    M.store(st, node + 8, PT, prev)
    M.store(st, prev, PT, node)
    M.store(st, pos + 8, PT, node)


def list_unhook(M, st, a):
    nxt, prev = M.load(st, a[0], PT), M.load(st, a[0] + 8, PT)
    M.store(st, prev, PT, nxt)
    M.store(st, nxt + 8, PT, prev)


def list_swap(M, st, a):
    x, y = a[0], a[1]
    nx, px, ny, py = (M.load(st, q, PT) for q in (x, x + 8, y, y + 8))
    for me, other, n, p in ((x, y, ny, py), (y, x, nx, px)):
        if n == other:
            n = p = me
        M.store(st, me, PT, n)
        M.store(st, me + 8, PT, p)
        M.store(st, n + 8, PT, me)
        M.store(st, p, PT, me)


def rb_insert(M, st, a):
    raise NotImplementedError


# ------------------------------------------------------------ llvm intrinsics
def _isym2(name, pyf, zf, w):
    from .machine import sx, bv, simp

    def f(M, st, a):
        x, y = a
        if type(x) is int and type(y) is int:
            return pyf(x, y)
        return simp(zf(bv(x, w), bv(y, w)))
    return f


def _minmax(name, w):
    from .machine import sx, bv, simp
    sgn = name[0] == 's'
    mx = name.endswith('max')

    def f(M, st, a):
        x, y = a
        if type(x) is int and type(y) is int:
            kx, ky = (sx(x, w), sx(y, w)) if sgn else (x, y)
            return x if (kx > ky) == mx else y
        v = N.compare(38 if sgn else 34, x, y, w)
        if v is True or v is False:
            return x if v == mx else y
        if v is not None:
            v = N.ite(v, x, y, w) if mx else N.ite(v, y, x, w)
            if v is not None:
                return v
        zx, zy = bv(x, w), bv(y, w)
        c = (zx > zy) if sgn else z3.UGT(zx, zy)
        return simp(z3.If(c, zx, zy) if mx else z3.If(c, zy, zx))
    return f


def _iabs(w):
    from .machine import sx, simp

    def f(M, st, a):
        x = a[0]
        if type(x) is int:
            return abs(sx(x, w)) & ((1 << w) - 1)
        v = N.iabs(x, w)
        return simp(z3.If(x < 0, -x, x)) if v is None else v
    return f


def _ovf(name, w):
    """llvm.{s,u}{add,sub,mul}.with.overflow"""
    from .machine import sx, bv, simp
    sgn = name[0] == 's'
    op = name[1:4]
    mask = (1 << w) - 1

    def f(M, st, a):
        x, y = a
        if type(x) is int and type(y) is int:
            kx, ky = (sx(x, w), sx(y, w)) if sgn else (x, y)
            r = kx + ky if op == 'add' else kx - ky if op == 'sub' else kx * ky
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sgn else (0, mask)
            return (r & mask, int(not lo <= r <= hi))
        if sgn:
            v = N.binop(op, x, y, w)
            if v is not None:
                return (v, 0)
        zx, zy = bv(x, w), bv(y, w)
        ext = (lambda e: z3.SignExt(w, e)) if sgn else (lambda e: z3.ZeroExt(w, e))
        ex, ey = ext(zx), ext(zy)
        wide = ex + ey if op == 'add' else ex - ey if op == 'sub' else ex * ey
        r = z3.Extract(w - 1, 0, wide)
        o = cbool(ext(r) != wide)
        return (simp(r), int(o) if o is True or o is False else o)
    return f


def _fshl(w, left):
    from .machine import bv, simp
    mask = (1 << w) - 1

    def f(M, st, a):
        x, y, s = a
        if all(type(v) is int for v in a):
            s %= w
            if not left:
                s = (w - s) % w
                if s == 0:
                    return y
            return ((x << s) | (y >> (w - s) if s else 0)) & mask
        raise M.unsup('funnel shift of a symbolic integer')
    return f


def _cttz(w, lead):
    from .machine import simp

    def f(M, st, a):
        x = M.conc_int(st, a[0], w)
        if x == 0:
            return w
        if lead:
            return w - x.bit_length()
        return (x & -x).bit_length() - 1
    return f


def _ctpop(w):
    def f(M, st, a):
        return bin(M.conc_int(st, a[0], w)).count('1')
    return f


def _bswap(w):
    def f(M, st, a):
        x = M.conc_int(st, a[0], w)
        return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
    return f


def _usubsat(w):
    from .machine import bv, simp

    def f(M, st, a):
        x, y = a
        if type(x) is int and type(y) is int:
            return max(0, x - y)
        zx, zy = bv(x, w), bv(y, w)
        return simp(z3.If(z3.ULT(zx, zy), z3.BitVecVal(0, w), zx - zy))
    return f


def l_abs(w):
    return _iabs(w)


def isfpclass(M, st, a):
    x, m = a
    if type(x) is float:
        c = 0x3 if isnan(x) else (0x200 if x > 0 else 0x4)
        return int(bool(c & m))
    s = M.fsign(st, x)
    c = {0: 0x40, 1: 0x180, -1: 0x18}[s]     # zero / (sub)normal
    return int(bool(c & m))


def assume_(M, st, a):
    return None


# ------------------------------------------------------------------- iostream
def stream(M, st, a):
    return a[0] if a else 0


import math

TABLE = {
    'vp_real': vp_real, 'vp_int': vp_int, 'vp_bool': vp_bool, 'vp_choice': vp_choice,
    'vp_assume': vp_assume, 'vp_axiom': vp_axiom, 'vp_check': vp_check, 'vp_check_eq': vp_check_eq,
    'vp_check_le': vp_check_le, 'vp_cover': vp_cover, 'vp_abstract': vp_abstract, 'vp_const': vp_const,
    'vp_fail': vp_fail, 'vp_eq': vp_eq, 'vp_lemma': vp_lemma, 'vp_end': vp_end,
    'sqrt': l_sqrt, 'sqrtf': l_sqrt, 'fabs': fabs, 'fma': fma, 'fmax': fmax, 'fmin': fmin,
    'floor': _floorlike('floor'), 'ceil': _floorlike('ceil'), 'trunc': _floorlike('trunc'),
    'round': l_round, 'nearbyint': l_round, 'rint': l_round,
    'exp': _mathuf('exp', math.exp, True), 'log': _mathuf('log', math.log),
    'exp2': _mathuf('exp2', lambda x: 2.0 ** x, True), 'log2': _mathuf('log2', math.log2),
    'log10': _mathuf('log10', math.log10), 'log1p': _mathuf('log1p', math.log1p),
    'expm1': _mathuf('expm1', math.expm1),
    'sin': _mathuf('sin', math.sin), 'cos': _mathuf('cos', math.cos), 'tan': _mathuf('tan', math.tan),
    'atan': _mathuf('atan', math.atan), 'acos': _mathuf('acos', math.acos), 'asin': _mathuf('asin', math.asin),
    'cbrt': _mathuf('cbrt', lambda x: math.copysign(abs(x) ** (1 / 3), x)),
    'pow': l_pow, 'ldexp': l_ldexp, 'scalbn': l_ldexp, 'hypot': l_hypot, 'copysign': l_copysign,
    'fmod': l_fmod, 'nextafter': l_nextafter,
    '_Znwm': op_new, '_Znam': op_new, 'malloc': op_new, 'calloc': l_calloc, 'realloc': l_realloc,
    '_ZnwmSt11align_val_t': op_new, '_ZnwmRKSt9nothrow_t': op_new, '_ZnamRKSt9nothrow_t': op_new,
    '_ZdlPv': op_delete, '_ZdaPv': op_delete, '_ZdlPvm': op_delete, '_ZdaPvm': op_delete,
    '_ZdlPvSt11align_val_t': op_delete, '_ZdlPvmSt11align_val_t': op_delete, 'free': op_delete,
    '_ZdlPvRKSt9nothrow_t': op_delete,
    'posix_memalign': l_posix_memalign, 'aligned_alloc': l_aligned_alloc,
    'memcpy': l_memcpy, 'memmove': l_memcpy, 'memset': l_memset, 'strlen': l_strlen,
    'bcmp': l_bcmp, 'memcmp': l_bcmp, 'strcmp': l_strcmp, 'memchr': l_memchr,
    '__assert_fail': l_assert_fail, 'abort': _viol('abort', 'abort() called'),
    'exit': _viol('abort', 'exit() called'),
    '_ZSt9terminatev': _viol('throw', 'std::terminate called'),
    '__clang_call_terminate': _viol('throw', 'std::terminate called'),
    '__cxa_throw': cxa_throw, '__cxa_rethrow': rethrow, '_Unwind_Resume': throw_,
    '__cxa_get_exception_ptr': lambda M, st, a: a[0],
    '__cxa_allocate_exception': op_new, '__cxa_free_exception': nop,
    '__cxa_begin_catch': begin_catch, '__cxa_end_catch': end_catch, '__cxa_pure_virtual': throw_,
    '__cxa_guard_acquire': guard_acquire, '__cxa_guard_release': guard_release,
    '__cxa_guard_abort': nop, '__cxa_atexit': zero, 'atexit': zero,
    '_ZNSt8ios_base4InitC1Ev': nop, '_ZNSt8ios_base4InitD1Ev': nop,
    '_ZNSt8__detail15_List_node_base7_M_hookEPS0_': list_hook,
    '_ZNSt8__detail15_List_node_base9_M_unhookEv': list_unhook,
    '_ZNSt8__detail15_List_node_base4swapERS0_S1_': list_swap,
    '_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm': next_bkt,
    '_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm': need_rehash,
    '_ZSt11_Hash_bytesPKvmm': hash_bytes,
    'puts': zero, 'printf': zero, 'putchar': zero, 'fprintf': zero, 'fflush': zero, 'fputs': zero,
    '__errno_location': lambda M, st, a: errno_loc(M, st),
    'abs': None,
}


def errno_loc(M, st):
    p = st.extra.get('errno')
    if p is None:
        p = st.alloc(8, 'global', 'errno', bg=0)
        st.extra['errno'] = p
    return p


_cache = {}


def lookup(M, name):
    if name in _cache:
        return _cache[name]
    r = _lookup(M, name)
    _cache[name] = r
    return r


def _lookup(M, name):
    t = TABLE.get(name)
    if t is not None:
        return t
    if name.startswith('llvm.eh.typeid.for'):
        return typeid_for
    if name.startswith('llvm.'):
        return _intrinsic(name)
    from . import lapack
    if name in lapack.TABLE:
        return lapack.TABLE[name]
    if name.endswith('f') and name[:-1] in ('fabs', 'floor', 'ceil', 'round', 'exp', 'log', 'pow', 'sin', 'cos'):
        return TABLE[name[:-1]]
    if name.startswith('_ZSt') and '__throw' in name:
        return lib_throw(name)
    if name == 'abs':
        return l_abs(32)
    if name in ('labs', 'llabs'):
        return l_abs(64)
    # output only: streams are not part of any property
    import re
    if re.match(r'_ZNSo|_ZNSolsE|_ZStlsI|_ZNSt8ios_base|_ZNSi|_ZSt16__ostream_insert|_ZNSt9basic_iosI|'
                r'_ZNKSt9basic_iosI|_ZNSt13basic_ostream|_ZSt4endl|_ZSt5flush|_ZNKSt5ctypeIcE|_ZNSt5ctypeIcE|_ZNKSt8ios_base', name):
        return stream
    # exception objects are built only to be thrown
    if re.match(r'_ZNSt\d+(runtime_error|logic_error|out_of_range|invalid_argument|length_error|'
                r'overflow_error|domain_error|range_error|underflow_error|bad_alloc|exception|bad_cast)[CD]', name):
        return nop
    return None


def _intrinsic(name):
    p = name.split('.')
    n = p[1]
    if n in ('lifetime', 'dbg', 'assume', 'experimental', 'invariant', 'sideeffect', 'donothing', 'prefetch',
             'stackrestore', 'var'):
        if name.startswith('llvm.experimental.constrained'):
            return None
        return nop
    if n in ('memcpy', 'memmove'):
        return l_memcpy
    if n == 'memset':
        return l_memset
    f = {'fabs': fabs, 'sqrt': l_sqrt, 'fma': fma, 'fmuladd': fma, 'maxnum': fmax, 'minnum': fmin,
         'maximum': fmax, 'minimum': fmin, 'floor': TABLE['floor'], 'ceil': TABLE['ceil'],
         'trunc': TABLE['trunc'], 'round': l_round, 'rint': l_round, 'nearbyint': l_round, 'roundeven': l_round,
         'exp': TABLE['exp'], 'exp2': TABLE['exp2'], 'log': TABLE['log'], 'log2': TABLE['log2'],
         'log10': TABLE['log10'], 'pow': l_pow, 'powi': None, 'copysign': l_copysign,
         'sin': TABLE['sin'], 'cos': TABLE['cos'], 'ldexp': l_ldexp}.get(n)
    if f is not None:
        if p[2].startswith('v'):
            return _vectorised(f)
        return f
    if n == 'powi':
        def powi(M, st, a):
            from .machine import sx
            return l_pow(M, st, [a[0], Fraction(sx(a[1], 32))])
        return powi
    if n == 'is' and p[2] == 'fpclass':
        return isfpclass
    if n == 'is' and p[2] == 'constant':
        return zero
    if n == 'expect':
        return lambda M, st, a: a[0]
    if n == 'trap':
        return _viol('abort', 'trap')
    if n == 'objectsize':
        return lambda M, st, a: M64
    if n == 'stacksave':
        return zero
    if n == 'threadlocal':
        return lambda M, st, a: a[0]
    if n == 'launder' or n == 'strip':
        return lambda M, st, a: a[0]
    if n == 'eh':
        return zero
    w = None
    for q in p[2:]:
        if q[:1] == 'i' and q[1:].isdigit():
            w = int(q[1:])
    if w:
        if n in ('umax', 'umin', 'smax', 'smin'):
            return _minmax(n, w)
        if n == 'abs':
            return _iabs(w)
        if n in ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul') and p[2] == 'with':
            return _ovf(n, w)
        if n == 'usub' and p[2] == 'sat':
            return _usubsat(w)
        if n == 'fshl':
            return _fshl(w, True)
        if n == 'fshr':
            return _fshl(w, False)
        if n == 'ctlz':
            return _cttz(w, True)
        if n == 'cttz':
            return _cttz(w, False)
        if n == 'ctpop':
            return _ctpop(w)
        if n == 'bswap':
            return _bswap(w)
    return None


def _vectorised(f):
    def g(M, st, a):
        return tuple(f(M, st, list(x)) for x in zip(*a))
    return g
