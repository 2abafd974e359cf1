// Monomials and posynomials of geometric programming, in logarithms.
#include "mat.hpp"
#include <ellip/posynomial.hpp>
#include <valarray>
#include <vector>

using Mono = monomial<double>;
using Posy = posynomial<double>;
using Val = std::valarray<double>;
constexpr int N = 2; // variables

struct Term // c x0^a0 x1^a1, with the logarithm of c
{
    double b, a[N];
    double at(const Val& y) const
    {
        double f = b;
        for (int j = 0; j < N; ++j)
            if (a[j] != 0) // the same split into cases as in the code keeps the arguments of exp alike
                f += a[j] * y[j];
        return f;
    }
};
static Val val(const char* s)
{
    Val v(N);
    for (int i = 0; i < N; ++i)
        v[i] = real(s, i);
    return v;
}
static double pos(const char* s, int i)
{
    double c = real(s, i);
    vp_assume(c > 0);
    return c;
}
static Mono mono(int i, Term& t)
{
    const double c = pos("c", i);
    Val a(N);
    t.b = std::log(c);
    for (int j = 0; j < N; ++j)
        t.a[j] = a[j] = real("a", i, j);
    return Mono(c, a);
}
static void same(const Mono& m, const Term& t, const Val& y)
{
    const double f = t.at(y);
    vp_check_eq(m.lse(y), f, "monomial-value");
    Val g = val("g"); // whatever was there before
    vp_check_eq(m.log_exp_fvalue_with_gradient(y, g), f, "monomial-value");
    double h = 0;
    const Val g1 = m.lse_gradient(y, h), g2 = m.lse_gradient(y);
    vp_check_eq(h, f, "monomial-value");
    vp_check(g.size() == N && g1.size() == N && g2.size() == N, "gradient-size");
    for (int j = 0; j < N; ++j)
    {
        vp_check_eq(g[j], t.a[j], "monomial-gradient");
        vp_check_eq(g1[j], t.a[j], "monomial-gradient");
        vp_check_eq(g2[j], t.a[j], "monomial-gradient");
    }
    vp_cover("monomial");
}
CASE constructed()
{
    const double c = vp_real("c"), a0 = vp_real("a0"), a1 = vp_real("a1");
    vp_assume(c > 0);
    const double l = std::log(c), raw[] = {c, a0, a1};
    const Val y = val("y");
    Val a(N);
    a[0] = a0, a[1] = a1;
    same(Mono(c, a), {l, {a0, a1}}, y);
    same(Mono(c, {a0, a1}), {l, {a0, a1}}, y);
    same(Mono(N, raw), {l, {a0, a1}}, y);
    same(Mono(std::size_t(N), c), {l, {0, 0}}, y);
    same(Mono(N), {0, {0, 0}}, y);
    Mono m(N);
    m.set_coeff(c);
    same(m, {l, {0, 0}}, y);
}
CASE products()
{
    Term s, t;
    Mono m = mono(0, s), k = mono(1, t);
    const Mono m0 = m, k0 = k;
    const Val y = val("y");
    const double d = pos("d", 0), ld = std::log(d);
    same(m * k, {s.b + t.b, {s.a[0] + t.a[0], s.a[1] + t.a[1]}}, y);
    same(m / k, {s.b - t.b, {s.a[0] - t.a[0], s.a[1] - t.a[1]}}, y);
    same(m * d, {s.b + ld, {s.a[0], s.a[1]}}, y);
    same(d * m, {s.b + ld, {s.a[0], s.a[1]}}, y);
    same(m / d, {s.b - ld, {s.a[0], s.a[1]}}, y);
    same(d / m, {ld - s.b, {-s.a[0], -s.a[1]}}, y);
    same(sqrt(m), {s.b / 2, {s.a[0] / 2, s.a[1] / 2}}, y);
    same(m, s, y);
    same(k, t, y);
    m *= m;
    same(m, {2 * s.b, {2 * s.a[0], 2 * s.a[1]}}, y);
    k /= k;
    same(k, {0, {0, 0}}, y);
}

// a sum of terms: value and gradient of log f(exp(y)), by all of its functions
static void same(const Posy& P, const Term* t, int K, const Val& y)
{
    vp_check(P._M.size() == std::size_t(K), "number-of-terms");
    double sum = 0, top[N] {};
    for (int k = 0; k < K; ++k)
    {
        const double e = std::exp(t[k].at(y));
        sum += e;
        for (int j = 0; j < N; ++j)
            top[j] += t[k].a[j] * e;
    }
    const double f = K == 1 ? t[0].at(y) : std::log(sum);
    vp_check_eq(P.lse(y), f, "value");
    Val g = val("g"); // whatever was there before
    vp_check_eq(P.log_exp_fvalue_with_gradient(y, g), f, "value");
    double h = 0;
    const Val g1 = P.lse_gradient(y, h), g2 = P.log_exp_gradient(y);
    vp_check_eq(h, f, "value");
    vp_check(g.size() == N && g1.size() == N && g2.size() == N, "gradient-size");
    for (int j = 0; j < N; ++j)
    {
        vp_check_eq(g[j] * sum, top[j], "gradient");
        vp_check_eq(g1[j] * sum, top[j], "gradient");
        vp_check_eq(g2[j] * sum, top[j], "gradient");
    }
    vp_cover("posynomial");
}
static Posy posy(int first, int K, Term* t)
{
    Posy P(mono(first, t[0]));
    for (int k = 1; k < K; ++k)
        P += mono(first + k, t[k]);
    return P;
}
static Term times(const Term& s, const Term& t, int sign = 1)
{
    return {s.b + sign * t.b, {s.a[0] + sign * t.a[0], s.a[1] + sign * t.a[1]}};
}
static void sums(int K)
{
    Term t[4];
    const Val y = val("y");
    Posy P = posy(0, K, t);
    same(P, t, K, y);
    const Mono m = mono(K, t[K]);
    Posy Q(P);
    Q += m;
    same(Q, t, K + 1, y);
    same(P + m, t, K + 1, y);
    same(P, t, K, y);
    P = Q;
    same(P, t, K + 1, y);
}
CASE sum1() { sums(1); }
CASE sum2() { sums(2); }
CASE sum3() { sums(3); }
CASE two()
{
    Term t[2];
    Mono m = mono(0, t[0]), k = mono(1, t[1]);
    same(m + k, t, 2, val("y"));
}
static void scaled(int K)
{
    Term t[4], u[4], m;
    const Val y = val("y");
    const Posy P = posy(0, K, t);
    const Mono k = mono(K, m);
    const double d = pos("d", 0), ld = std::log(d);
    auto each = [&](auto f) {
        for (int i = 0; i < K; ++i)
            u[i] = f(t[i]);
        return u;
    };
    same(P * k, each([&](const Term& s) { return times(s, m); }), K, y);
    same(P / k, each([&](const Term& s) { return times(s, m, -1); }), K, y);
    same(P * d, each([&](const Term& s) { return Term {s.b + ld, {s.a[0], s.a[1]}}; }), K, y);
    same(P / d, each([&](const Term& s) { return Term {s.b - ld, {s.a[0], s.a[1]}}; }), K, y);
    same(P, t, K, y);
}
CASE scaled1() { scaled(1); }
CASE scaled2() { scaled(2); }
CASE scaled3() { scaled(3); }
static void product(int K, int L)
{
    Term t[4], s[4], u[16];
    const Val y = val("y");
    const Posy P = posy(0, K, t), Q = posy(K, L, s);
    for (int i = 0; i < K; ++i)
        for (int j = 0; j < L; ++j)
            u[i * L + j] = times(t[i], s[j]);
    same(P * Q, u, K * L, y);
    Posy R(P);
    R += Q;
    for (int i = 0; i < K; ++i)
        u[i] = t[i];
    for (int j = 0; j < L; ++j)
        u[K + j] = s[j];
    same(R, u, K + L, y);
    R = P;
    R += R;
    for (int i = 0; i < K; ++i)
        u[i] = u[K + i] = t[i];
    same(R, u, 2 * K, y);
}
CASE product11() { product(1, 1); }
CASE product12() { product(1, 2); }
CASE product22() { product(2, 2); }
CASE product31() { product(3, 1); }
