"""Models of the LAPACK routines behind xt::linalg::inv, solve and cholesky, in exact arithmetic.

Column-major storage, as in LAPACK.  Rows are exchanged only when the pivot is zero (LAPACK takes the largest
entry): inverse and solution do not depend on the order.
"""
from fractions import Fraction

F64 = ('d', 64, 8)


def _i(M, st, p):
    from .machine import sx
    return sx(M.conc_int(st, M.load(st, p, ('i', 32, 4)), 32), 32)


def _seti(M, st, p, v):
    M.store(st, p, ('i', 32, 4), v & 0xffffffff)


def _get(M, st, p, rows, cols, ld):
    return [[M.load(st, p + 8 * (i + j * ld), F64) for j in range(cols)] for i in range(rows)]


def _put(M, st, p, A, ld):
    for i, r in enumerate(A):
        for j, v in enumerate(r):
            M.store(st, p + 8 * (i + j * ld), F64, v)


def _zero(M, st, x):
    return M.decide_c(st, M.fcmp(st, x, Fraction(0), '=='))


def _lu(M, st, A):
    """-> pivots, info; A is overwritten"""
    m, n = len(A), len(A[0]) if A else 0
    piv, info = [], 0
    for k in range(min(m, n)):
        r = k
        while r < m and _zero(M, st, A[r][k]):
            r += 1
        if r == m:
            piv.append(k)
            info = info or k + 1
            continue
        piv.append(r)
        A[k], A[r] = A[r], A[k]
        for i in range(k + 1, m):
            f = M.fdiv(st, A[i][k], A[k][k])
            A[i][k] = f
            for j in range(k + 1, n):
                A[i][j] = M.fsub(st, A[i][j], M.fmul(st, f, A[k][j]))
    return piv, info


def _solve(M, st, A, piv, B):
    """B is overwritten with the solution of L U x = P B"""
    n = len(A)
    for k, r in enumerate(piv):
        B[k], B[r] = B[r], B[k]
    for c in range(len(B[0]) if B else 0):
        for i in range(n):
            for k in range(i):
                B[i][c] = M.fsub(st, B[i][c], M.fmul(st, A[i][k], B[k][c]))
        for i in reversed(range(n)):
            for k in range(i + 1, n):
                B[i][c] = M.fsub(st, B[i][c], M.fmul(st, A[i][k], B[k][c]))
            B[i][c] = M.fdiv(st, B[i][c], A[i][i])


def dgetrf(M, st, a):
    m, n, ld = _i(M, st, a[0]), _i(M, st, a[1]), _i(M, st, a[3])
    A = _get(M, st, a[2], m, n, ld)
    piv, info = _lu(M, st, A)
    _put(M, st, a[2], A, ld)
    for k, r in enumerate(piv):
        _seti(M, st, a[4] + 4 * k, r + 1)
    _seti(M, st, a[5], info)


def dgetri(M, st, a):
    n, ld, lw = _i(M, st, a[0]), _i(M, st, a[2]), _i(M, st, a[5])
    if lw == -1:
        M.store(st, a[4], F64, Fraction(max(1, n)))
        _seti(M, st, a[6], 0)
        return
    A = _get(M, st, a[1], n, n, ld)
    for k in range(n):
        if _zero(M, st, A[k][k]):
            _seti(M, st, a[6], k + 1)
            return
    piv = [_i(M, st, a[3] + 4 * k) - 1 for k in range(n)]
    B = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    _solve(M, st, A, piv, B)
    _put(M, st, a[1], B, ld)
    _seti(M, st, a[6], 0)


def dgesv(M, st, a):
    n, k, ld, ldb = _i(M, st, a[0]), _i(M, st, a[1]), _i(M, st, a[3]), _i(M, st, a[6])
    A = _get(M, st, a[2], n, n, ld)
    piv, info = _lu(M, st, A)
    _put(M, st, a[2], A, ld)
    for q, r in enumerate(piv):
        _seti(M, st, a[4] + 4 * q, r + 1)
    if not info:
        B = _get(M, st, a[5], n, k, ldb)
        _solve(M, st, A, piv, B)
        _put(M, st, a[5], B, ldb)
    _seti(M, st, a[7], info)


def dpotrf(M, st, a):
    up = M.load(st, a[0], ('i', 8, 1)) in (ord('U'), ord('u'))
    n, ld = _i(M, st, a[1]), _i(M, st, a[3])
    A = _get(M, st, a[2], n, n, ld)
    at = (lambda i, j: (j, i)) if up else (lambda i, j: (i, j))
    info = 0
    for j in range(n):
        x, y = at(j, j)
        d = A[x][y]
        for k in range(j):
            p, q = at(j, k)
            d = M.fsub(st, d, M.fmul(st, A[p][q], A[p][q]))
        if not M.decide_c(st, M.fcmp(st, d, Fraction(0), '>')):
            info = j + 1
            break
        A[x][y] = M.sqrt(st, d)
        for i in range(j + 1, n):
            u, v = at(i, j)
            s = A[u][v]
            for k in range(j):
                p, q = at(i, k)
                r, t = at(j, k)
                s = M.fsub(st, s, M.fmul(st, A[p][q], A[r][t]))
            A[u][v] = M.fdiv(st, s, A[x][y])
    _put(M, st, a[2], A, ld)
    _seti(M, st, a[4], info)


TABLE = {'dgetrf_': dgetrf, 'dgetri_': dgetri, 'dgesv_': dgesv, 'dpotrf_': dpotrf}
