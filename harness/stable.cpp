// ell_stable against the same ellipsoid: its matrix is kept as
// M = L D^-1 L' (unit lower L(i,j) = Q(j,i), diagonal D^-1 ... Q(i,i) = 1/D),
// an arbitrary such state (lower part: scratch of earlier steps) and one cut.
#include "ellh.hpp"
#include <ellcpp/ell_stable.hpp>

struct Stable : ell_stable
{
    Stable(double kappa, Arr Q, Arr x)
        : ell_stable(1., std::move(x))
    {
        _kappa = kappa;
        _Q = std::move(Q);
    }
    double q(int i, int j) const { return _Q(i, j); }
    double kappa() const { return _kappa; }
};

static constexpr int MAXN = 4;
// inverse shape matrix of a stored factorisation
template <typename F>
static void inv_shape(int n, F q, double M[MAXN][MAXN])
{
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
        {
            M[i][j] = 0;
            for (int k = 0; k <= i && k <= j; ++k)
                M[i][j] += (i == k ? 1. : q(k, i)) * (j == k ? 1. : q(k, j)) / q(k, k);
        }
}

struct SIn
{
    int n;
    Arr x, g, Q;
    double kappa, v[MAXN], w[MAXN], Qg[MAXN], Rec[MAXN], omega, tsq, tau;
    double M(int i, int j) const
    {
        double m[MAXN][MAXN];
        inv_shape(n, [this](int a, int b) { return Q(a, b); }, m);
        return m[i][j];
    }
    explicit SIn(int n_)
        : n {n_}
        , x {vec("x", n_)}
        , g {xt::zeros<double>({std::size_t(n_)})}
        , Q {xt::zeros<double>({std::size_t(n_), std::size_t(n_)})}
        , kappa {vp_real("kappa")}
    {
        vp_assume(kappa > 0);
        for (int i = 0; i < n; ++i)
        {
            for (int j = 0; j < n; ++j)
                Q(i, j) = real("q", i, j);
            vp_assume(Q(i, i) > 0);
        }
        omega = 0;
        for (int i = 0; i < n; ++i)
        {
            // g = L v with v arbitrary: every g, in the coordinates of the factor
            v[i] = real("v", i);
            g(i) = v[i];
            for (int j = 0; j < i; ++j)
                g(i) += Q(j, i) * v[j];
            w[i] = v[i] * Q(i, i);
            omega += v[i] * w[i];
        }
        for (int i = n - 1; i >= 0; --i)
        {
            Qg[i] = w[i];
            for (int j = i + 1; j < n; ++j)
                Qg[i] -= Q(i, j) * Qg[j];
        }
        // the recorded defect: row i where row i - 1 is meant
        for (int i = n - 1; i >= 0; --i)
        {
            Rec[i] = w[i];
            for (int j = i + 1; j < n; ++j)
                Rec[i] -= (j == i + 1 ? Q(j, j) : Q(i + 1, j)) * Rec[j];
        }
        vp_assume(omega > 0);
        tsq = kappa * omega;
        tau = std::sqrt(tsq);
    }
};

static void untouched(const Stable& E, const SIn& s)
{
    Arr y = E.xc();
    vp_check_eq(E.kappa(), s.kappa, "shape-untouched");
    for (int i = 0; i < s.n; ++i)
    {
        vp_check_eq(y(i), s.x(i), "centre-untouched");
        for (int j = i; j < s.n; ++j)
            vp_check_eq(E.q(i, j), s.Q(i, j), "shape-untouched");
    }
}
static void moved(const Stable& E, const SIn& s, double rho, double sigma, double delta, bool single)
{
    Arr y = E.xc();
    const int n = s.n;
    double mu = sigma / (1. - sigma);
    if (single)
        for (int i = 0; i < n; ++i)
            vp_check(E.q(i, i) > 0, "positive-definite");
    // centre: right, or the recorded defect
    for (int i = 0; i < n; ++i)
    {
        double ok = s.x(i) - rho / s.omega * s.Qg[i], rec = s.x(i) - rho / s.omega * s.Rec[i];
        vp_check(vp_eq(y(i), ok) | vp_eq(y(i), rec), "centre-or-recorded");
    }
    // shape: right, or the recorded defect (off-diagonal entries of the factor)
    double oldt = s.omega / mu;
    bool rec = vp_eq(E.kappa(), s.kappa * delta);
    for (int j = 0; j < n; ++j)
    {
        double t = oldt + s.v[j] * s.v[j] * s.Q(j, j);
        rec = rec & vp_eq(E.q(j, j), s.Q(j, j) * oldt / t);
        for (int l = j + 1; l < n; ++l)
            rec = rec & vp_eq(E.q(j, l), s.Q(j, l) * (1. + s.v[j] * s.v[j] * s.Q(j, j) / t));
        oldt = t;
    }
    if (rec)
        vp_cover("recorded");
    if (!rec || n == 2)
    {
        double M[MAXN][MAXN];
        inv_shape(n, [&E](int i, int j) { return E.q(i, j); }, M);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j <= i; ++j)
                vp_check_eq(M[i][j] * s.kappa * delta, (s.M(i, j) + mu * s.g(i) * s.g(j) / s.omega) * E.kappa(),
                    rec ? "stable-shape" : "shape");
    }
    if (n == 2)
        for (int i = 0; i < n; ++i)
            vp_check_eq(y(i), s.x(i) - rho / s.omega * s.Qg[i], "stable-centre");
}
static void ref_single(const Stable& E, const SIn& s, CUTStatus st, double beta)
{
    const double n = s.n, tau = s.tau;
    if (st == CUTStatus::success)
    {
        vp_cover(beta == 0. ? "central" : "deep");
        vp_check((beta <= tau) & (n * beta >= -tau), "success-iff");
        if (!(beta < tau))
            return; // flat: the inverse does not exist
        double a = beta / tau;
        moved(E, s, tau * (1. + n * a) / (n + 1.), 2. * (1. + n * a) / ((n + 1.) * (1. + a)),
            n * n / (n * n - 1.) * (1. - a * a), true);
        return;
    }
    if (st == CUTStatus::nosoln)
    {
        vp_cover("nosoln");
        vp_check(beta > tau, "nosoln-iff");
    }
    else if (st == CUTStatus::noeffect)
    {
        vp_cover("noeffect");
        vp_check(n * beta < -tau, "noeffect-iff");
    }
    else
        vp_fail("status");
    untouched(E, s);
}
static void sdeep(int n)
{
    SIn s {n};
    double beta = vp_bool("central") ? 0. : vp_real("beta");
    // beta = tau: a flat ellipsoid
    vp_assume((beta < s.tau) | (beta > s.tau));
    Stable E(s.kappa, s.Q, s.x);
    auto r = E.update(std::tuple<Arr, double>(s.g, beta));
    vp_check_eq(std::get<1>(r), s.tsq, "tsq");
    ref_single(E, s, std::get<0>(r), beta);
}
CASE sdeep2() { sdeep(2); }
CASE sdeep3() { sdeep(3); }
CASE sdeep4() { sdeep(4); }

static void spar(int n, bool use)
{
    SIn s {n};
    // b0 = 0 and b0 = -b1 are special in the code, so they come as cases of their own
    long kind = vp_choice("kind", 3);
    double b1 = vp_real("b1"), b0 = kind == 0 ? 0. : kind == 1 ? -b1 : vp_real("b0");
    if (kind == 2)
        vp_assume(((b0 < 0) | (b0 > 0)) & ((b0 + b1 < 0) | (b0 + b1 > 0)));
    vp_assume((b0 < s.tau) | (b0 > s.tau));
    vp_assume((b1 > b0) | (b1 < b0));
    Stable E(s.kappa, s.Q, s.x);
    E.use_parallel_cut = use;
    auto r = E.update(std::tuple<Arr, Arr>(s.g, Arr {b0, b1}));
    vp_check_eq(std::get<1>(r), s.tsq, "tsq");
    auto st = std::get<0>(r);
    if (!use || b1 * b1 > s.tsq)
    {
        vp_cover("par-single");
        ref_single(E, s, st, b0);
        return;
    }
    if (b1 < b0)
    {
        vp_cover("par-empty");
        vp_check(st == CUTStatus::nosoln, "empty-slab-is-nosoln");
        untouched(E, s);
        return;
    }
    if (n * b0 * b1 < -s.tsq)
    {
        vp_cover("par-noeffect");
        vp_check(st == CUTStatus::noeffect, "par-noeffect");
        untouched(E, s);
        return;
    }
    vp_check(st == CUTStatus::success, "par-success");
    vp_cover(b0 == 0. ? "par-central" : b0 + b1 == 0. ? "par-symmetric" : "par-general");
    double N = n, a00 = b0 * b0 / s.tsq, a11 = b1 * b1 / s.tsq, a01 = b0 * b1 / s.tsq;
    double d = N * (a11 - a00) / 2.;
    double xi = std::sqrt((1. - a00) * (1. - a11) + d * d);
    double sigma = (N + 2. * (1. - N * N * (a00 - 2. * a01 + a11) / 4.) / (1. + a01 + xi)) / (N + 1.);
    double rho = sigma * (b0 + b1) / 2.;
    double delta = N * N / (N * N - 1.) * (1. - (a00 + a11) / 2. + xi / N);
    moved(E, s, rho, sigma, delta, false);
}
CASE spar2() { spar(2, true); }
CASE spar3() { spar(3, true); }
CASE spar2off() { spar(2, false); }
