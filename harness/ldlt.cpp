// ldlt_ext: verdict, certificate, square root.
#include "mat.hpp"
#include <ellcpp/oracles/ldlt_ext.hpp>

// reference: ratios of leading principal minors by fraction-free elimination.
// Returns the first row whose minor is not positive (n if there is none).
struct Ref
{
    int n, stop;
    double minor[MAXM];
    Ref(const Arr& A, int n_)
        : n {n_}
        , stop {n_}
    {
        double a[MAXM][MAXM];
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                a[i][j] = A(i, j);
        double prev = 1; // Bareiss: a[k][k] is the k-th leading minor
        for (int k = 0; k < n; ++k)
        {
            minor[k] = a[k][k];
            if (!(minor[k] > 0))
            {
                stop = k;
                return;
            }
            for (int i = k + 1; i < n; ++i)
                for (int j = k + 1; j < n; ++j)
                    a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) / prev;
            prev = a[k][k];
        }
    }
};
static double quad(const Arr& A, const Arr& v, int a, int b)
{
    double s = 0;
    for (int i = a; i < b; ++i)
        for (int j = a; j < b; ++j)
            s += v(i) * A(i, j) * v(j);
    return s;
}

static void verdict(int n, ldlt_ext& Q, const Arr& A, bool ok)
{
    Ref r(A, n);
    vp_check(ok == (r.stop == n), "accepts-iff-positive-definite");
    vp_check(Q.is_spd() == ok, "is_spd-agrees");
    if (ok)
    {
        vp_cover("spd");
        return;
    }
    vp_cover("not-spd");
    vp_check(Q.p.first == 0 && Q.p.second == std::size_t(r.stop) + 1, "stops-at-the-first-failing-block");
}
static void certificate(int n, ldlt_ext& Q, const Arr& A)
{
    double ep = Q.witness();
    int a = Q.p.first, b = Q.p.second;
    vp_check(0 <= a && a < b && b <= n, "certificate-block");
    bool nz = false;
    for (int i = b - 1; i >= a && !nz; --i)
        nz = Q.v(i) != 0;
    vp_check(nz, "certificate-nonzero");
    vp_check(ep >= 0, "certificate-sign");
    vp_check_eq(quad(A, Q.v, a, b), -ep, "certificate-value");
    Arr B = symm("B", n);
    vp_check_eq(Q.sym_quad(B), quad(B, Q.v, a, b), "sym_quad");
}
static void fact(int n)
{
    Arr A = symm("A", n);
    ldlt_ext Q(n);
    bool ok = Q.factorize(A);
    verdict(n, Q, A, ok);
}
CASE fact1() { fact(1); }
CASE fact2() { fact(2); }
CASE fact3() { fact(3); }
CASE fact4() { fact(4); }
CASE fact5() { fact(5); }
CASE fact6() { fact(6); }

// lazily evaluated: which elements are asked for, and that nothing of an
// earlier factorisation is left behind
static void lazy(int n, bool again)
{
    ldlt_ext Q(n);
    if (again)
    {
        Arr C = symm("C", n);
        if (!Q.factorize(C))
            Q.witness();
    }
    Arr A = symm("A", n);
    std::size_t top = 0;
    bool ok = Q.factor([&](std::size_t i, std::size_t j) {
        vp_check(j <= i && i < std::size_t(n), "asks-for-the-lower-triangle");
        if (i > top)
            top = i;
        return A(i, j);
    });
    verdict(n, Q, A, ok);
    if (ok)
        return;
    vp_check(top + 1 == Q.p.second, "asks-for-nothing-beyond-the-failing-block");
    certificate(n, Q, A);
}
CASE lazy2() { lazy(2, false); }
CASE lazy3() { lazy(3, false); }
CASE lazy4() { lazy(4, false); }
CASE lazy5() { lazy(5, false); }
CASE again2() { lazy(2, true); }
CASE again3() { lazy(3, true); }
CASE again4() { lazy(4, true); }

static void wit(int n)
{
    Arr A = symm("A", n);
    ldlt_ext Q(n);
    if (Q.factorize(A))
    {
        vp_cover("spd");
        return;
    }
    vp_cover("not-spd");
    certificate(n, Q, A);
}
CASE wit1() { wit(1); }
CASE wit2() { wit(2); }
CASE wit3() { wit(3); }
CASE wit4() { wit(4); }
CASE wit5() { wit(5); }
CASE wit6() { wit(6); }

// semidefinite mode: a rejection comes with a strictly negative direction and
// positive semidefinite matrices (here: every Gram matrix) are accepted
template <typename F>
static bool semi(ldlt_ext& Q, F f)
{
    return Q.factor<F&, true>(f);
}
static void semid(int n)
{
    Arr A = symm("A", n);
    ldlt_ext Q(n);
    auto f = [&](std::size_t i, std::size_t j) { return A(i, j); };
    bool ok = semi(Q, f);
    vp_check(Q.is_spd() == ok, "is_spd-agrees");
    if (ok)
    {
        vp_cover("semi-accepted");
        for (int i = 0; i < n; ++i)
            for (int j = 0; j <= i; ++j)
                vp_check(i == j ? A(i, i) >= 0 : A(i, i) * A(j, j) >= A(i, j) * A(i, j),
                    Q.p.first == 0 ? "semi-accepts-psd-only" : "semi-zero-pivot");
        return;
    }
    vp_cover("semi-rejected");
    double ep = Q.witness();
    vp_check(ep > 0, "semi-certificate-negative");
    vp_check_eq(quad(A, Q.v, Q.p.first, Q.p.second), -ep, "semi-certificate-value");
}
CASE semi1() { semid(1); }
CASE semi2() { semid(2); }
CASE semi3() { semid(3); }
CASE semi4() { semid(4); }

static void root(int n)
{
    Arr A = symm("A", n);
    ldlt_ext Q(n);
    if (!Q.factorize(A))
        return;
    vp_cover("root");
    Arr R = Q.sqrt();
    for (int i = 0; i < n; ++i)
    {
        vp_check(R(i, i) > 0, "positive-diagonal");
        for (int j = 0; j < i; ++j)
            vp_check_eq(R(i, j), 0., "upper-triangular");
        for (int j = 0; j < n; ++j)
        {
            double s = 0;
            for (int k = 0; k < n; ++k)
                s += R(k, i) * R(k, j);
            vp_check_eq(s, A(i, j), "R'R=A");
        }
    }
    // asking again gives the same root, and the factorisation is still there
    vp_check(Q.is_spd(), "still-positive-definite");
    Arr S = Q.sqrt();
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            vp_check_eq(S(i, j), R(i, j), "same-root-again");
}
CASE root1() { root(1); }
CASE root2() { root(2); }
CASE root3() { root(3); }
CASE root4() { root(4); }
CASE root5() { root(5); }
