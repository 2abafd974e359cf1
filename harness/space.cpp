// Search spaces as a user sets them up: constructors, copies, set_xc, moves.
#include "ellh.hpp"
#include <ellcpp/ell1d.hpp>
#include <ellcpp/ell_stable.hpp>
#include <vector>

using Single = std::tuple<Arr, double>;
using Double = std::tuple<Arr, Arr>;

struct Ball // what the user asked for: sum_i (z_i - x_i)^2 / d_i <= 1
{
    int n;
    Arr x, d;
};
// one deep cut through the public interface, against the textbook formulas
template <typename S>
static void first_cut(S& E, const Ball& b, bool centre)
{
    const int n = b.n;
    Arr g = vec("g", n), y = E.xc();
    vp_check(y.size() == std::size_t(n), "centre-size");
    for (int i = 0; i < n; ++i)
        vp_check_eq(y(i), b.x(i), "initial-centre");
    double beta = vp_real("beta"), omega = 0;
    for (int i = 0; i < n; ++i)
        omega += b.d(i) * g(i) * g(i);
    vp_assume(omega > 0);
    double tau = std::sqrt(omega);
    vp_assume(beta >= 0);
    auto [st, tsq] = E.update(Single {g, beta});
    vp_check_eq(tsq, omega, "initial-extent");
    vp_check((st == CUTStatus::success) == (beta <= tau), "initial-success-iff");
    if (st != CUTStatus::success || !centre)
        return;
    vp_cover("cut");
    Arr w = E.xc();
    for (int i = 0; i < n; ++i)
        vp_check_eq(w(i), b.x(i) - (tau + n * beta) / (n + 1) * b.d(i) * g(i) / omega, "centre-after-the-first-cut");
}
static Ball sphere(int n)
{
    Ball b {n, vec("x", n), xt::zeros<double>({std::size_t(n)})};
    double r = vp_real("alpha");
    vp_assume(r > 0);
    for (int i = 0; i < n; ++i)
        b.d(i) = r;
    return b;
}
// a box's ellipsoid may be flat along some axes (not along all the gradient sees: omega > 0)
static Ball axes(int n)
{
    Ball b {n, vec("x", n), vec("d", n)};
    for (int i = 0; i < n; ++i)
        vp_assume(b.d(i) >= 0);
    return b;
}
template <int n>
static void ball()
{
    Ball b = sphere(n);
    const double alpha = b.d(0);
    ell E(alpha, b.x);
    first_cut(E, b, true);
}
template <int n>
static void box()
{
    Ball b = axes(n);
    ell E(b.d, b.x);
    first_cut(E, b, true);
}
CASE ball2() { ball<2>(); }
CASE ball3() { ball<3>(); }
CASE ball4() { ball<4>(); }
CASE box2() { box<2>(); }
CASE box3() { box<3>(); }
CASE box4() { box<4>(); }
template <int n>
static void stable_ball()
{
    Ball b = sphere(n);
    const double alpha = b.d(0);
    ell_stable E(alpha, b.x);
    first_cut(E, b, false);
}
template <int n>
static void stable_box()
{
    Ball b = axes(n);
    ell_stable E(b.d, b.x);
    first_cut(E, b, false);
}
CASE sball2() { stable_ball<2>(); }
CASE sball3() { stable_ball<3>(); }
CASE sbox2() { stable_box<2>(); }
CASE sbox3() { stable_box<3>(); }

// the same result of two runs (both undefined after a cut that leaves a single point)
static void alike(double a, double b, const char* id)
{
    if (a != a && b != b)
        return;
    vp_check_eq(a, b, id);
}
template <typename S>
static void same(const S& A, const S& B, int n, const char* id)
{
    Arr a = A.xc(), b = B.xc();
    for (int i = 0; i < n; ++i)
        alike(a(i), b(i), id);
}
// a fixed cut number k of the test history
template <typename S>
static std::tuple<CUTStatus, double> step(S& E, int n, int k, bool par)
{
    Arr g = xt::zeros<double>({std::size_t(n)});
    for (int i = 0; i < n; ++i)
        g(i) = real("g", k, i);
    double b = real("b", k);
    if (!par)
        return E.update(Single {g, b});
    Arr bb = xt::zeros<double>({std::size_t(2)});
    bb(0) = b;
    bb(1) = real("c", k);
    return E.update(Double {g, bb});
}
// A is cut; B, copied before, must not notice; cutting B the same way gives the same results
template <typename S, int n, bool par>
static void copies()
{
    Arr x = vec("x", n), d = vec("d", n);
    for (int i = 0; i < n; ++i)
        vp_assume(d(i) > 0);
    S A(d, x);
    A.no_defer_trick = vp_bool("no_defer");
    A.use_parallel_cut = vp_bool("use_parallel");
    bool nt = A.no_defer_trick, up = A.use_parallel_cut;
    S B = A.copy(), C = A.copy();
    vp_check(B.no_defer_trick == nt && B.use_parallel_cut == up, "copy-keeps-the-settings");
    std::vector<double> r;
    Arr g = vec("g", n);
    double beta = vp_real("beta"), beta1 = par ? vp_real("beta1") : 0.;
    double w = 0;
    for (int i = 0; i < n; ++i)
        w += g(i) * g(i) * d(i);
    vp_assume(w > 0);
    vp_assume(!par || beta < beta1);
    auto cut = [&](S& E) {
        if (!par)
            return E.update(Single {g, beta});
        Arr bb = xt::zeros<double>({std::size_t(2)});
        bb(0) = beta;
        bb(1) = beta1;
        return E.update(Double {g, bb});
    };
    auto [sa, ta] = cut(A);
    Arr a = A.xc();
    Arr b = B.xc();
    for (int i = 0; i < n; ++i)
        vp_check_eq(b(i), x(i), "copy-does-not-follow");
    B.set_xc(a);
    B.set_xc(x);
    auto [sb, tb] = cut(B);
    vp_check(sa == sb, "same-status");
    alike(ta, tb, "same-extent");
    same(A, B, n, "same-centre");
    Arr a1 = A.xc();
    for (int i = 0; i < n; ++i)
        vp_check_eq(a1(i), a(i), "original-does-not-follow");
    vp_cover("copied");
    if (par)
        return;
    // a copy of a cut space, and a space moved from it, go on like the original
    S D = A.copy();
    S F(std::move(B));
    double b2 = vp_real("b2");
    Arr h = xt::zeros<double>({std::size_t(n)});
    h(0) = 1.;
    auto [s1, t1] = A.update(Single {h, b2});
    auto [s2, t2] = D.update(Single {h, b2});
    auto [s3, t3] = F.update(Single {h, b2});
    vp_check(s1 == s2 && s1 == s3, "same-status");
    alike(t1, t2, "same-extent");
    alike(t1, t3, "same-extent");
    same(A, D, n, "same-centre");
    same(A, F, n, "same-centre");
    Arr c = C.xc();
    for (int i = 0; i < n; ++i)
        vp_check_eq(c(i), x(i), "copy-does-not-follow");
}
CASE copy2() { copies<ell, 2, false>(); }
CASE copy3() { copies<ell, 3, false>(); }
CASE pcopy2() { copies<ell, 2, true>(); }
CASE scopy2() { copies<ell_stable, 2, false>(); }
CASE scopy3() { copies<ell_stable, 3, false>(); }
CASE spcopy2() { copies<ell_stable, 2, true>(); }
CASE copy1d()
{
    double l = vp_real("l"), u = vp_real("u"), g = vp_real("g"), b = vp_real("b");
    vp_assume(l < u && g != 0);
    ell1d A(l, u), B(A);
    auto [sa, ta] = A.update(std::tuple<double, double>(g, b));
    vp_check_eq(B.xc(), (l + u) / 2., "copy-does-not-follow");
    double c = A.xc();
    auto [sb, tb] = B.update(std::tuple<double, double>(g, b));
    vp_check(sa == sb, "same-status");
    alike(ta, tb, "same-extent");
    vp_check_eq(B.xc(), c, "same-centre");
    vp_check_eq(A.xc(), c, "original-does-not-follow");
    vp_cover("copied");
}
