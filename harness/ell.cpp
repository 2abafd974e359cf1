// ell: one cut.  Exact result of update() for an arbitrary state, against the
// textbook minimum-volume ellipsoid; containment, volume, definiteness.
#include "ellh.hpp"

struct In
{
    static constexpr int N = 4;
    int n;
    Arr x, g, Q;
    double kappa, P[N][N], Pg[N], omega, tau;

    explicit In(int n_, bool pos = true)
        : n {n_}
        , x {vec("x", n_)}
        , g {vec("g", n_)}
        , Q {symm("Q", n_)}
        , kappa {vp_real("kappa")}
    {
        vp_assume(kappa > 0);
        omega = 0;
        for (int i = 0; i < n; ++i)
        {
            Pg[i] = 0;
            for (int j = 0; j < n; ++j)
            {
                P[i][j] = kappa * Q(i, j);
                Pg[i] += P[i][j] * g(j);
            }
        }
        for (int i = 0; i < n; ++i)
            omega += Pg[i] * g(i);
        vp_assume(omega > 0);
        tau = std::sqrt(omega);
    }
};

static void untouched(const Ell& E, const In& s)
{
    Arr y = E.xc();
    for (int i = 0; i < s.n; ++i)
    {
        vp_check_eq(y(i), s.x(i), "centre-untouched");
        for (int j = 0; j < s.n; ++j)
            vp_check_eq(E.P(i, j), s.P[i][j], "shape-untouched");
    }
}
static void moved(const Ell& E, const In& s, double rho, double sigma, double delta)
{
    Arr y = E.xc();
    for (int i = 0; i < s.n; ++i)
    {
        vp_check_eq(y(i), s.x(i) - rho * s.Pg[i] / s.omega, "centre");
        for (int j = 0; j < s.n; ++j)
            vp_check_eq(E.P(i, j), delta * (s.P[i][j] - sigma * s.Pg[i] * s.Pg[j] / s.omega), "shape");
    }
}
// reference for a single cut g'(x-xc) + beta <= 0
static void ref_single(const Ell& E, const In& s, CUTStatus st, double beta)
{
    const double n = s.n, tau = s.tau;
    if (st == CUTStatus::success)
    {
        vp_cover(beta == 0. ? "central" : "deep");
        vp_check((beta <= tau) & (n * beta >= -tau), "success-iff");
        double a = beta / tau;
        moved(E, s, tau * (1. + n * a) / (n + 1.), 2. * (1. + n * a) / ((n + 1.) * (1. + a)),
            n * n / (n * n - 1.) * (1. - a * a));
        return;
    }
    if (st == CUTStatus::nosoln)
    {
        vp_cover("nosoln");
        vp_check(beta > tau, "nosoln-iff");
    }
    else if (st == CUTStatus::noeffect)
    {
        vp_cover("noeffect");
        vp_check(n * beta < -tau, "noeffect-iff");
    }
    else
        vp_fail("status");
    untouched(E, s);
}

static void deep(int n)
{
    In s {n};
    double beta = vp_real("beta");
    Ell E(s.kappa, s.Q, s.x);
    E.no_defer_trick = vp_choice("no_defer_trick", 2);
    E.use_parallel_cut = vp_choice("use_parallel_cut", 2);
    auto r = E.update(std::tuple<Arr, double>(s.g, beta));
    vp_check_eq(std::get<1>(r), s.omega, "tsq");
    ref_single(E, s, std::get<0>(r), beta);
}
CASE deep2() { deep(2); }
CASE deep3() { deep(3); }
CASE deep4() { deep(4); }

// the same cut handed over as an array of one element
static void arr1(int n)
{
    In s {n};
    double beta = vp_real("beta");
    Ell E(s.kappa, s.Q, s.x);
    E.use_parallel_cut = vp_choice("use_parallel_cut", 2);
    auto r = E.update(std::tuple<Arr, Arr>(s.g, Arr {beta}));
    vp_check_eq(std::get<1>(r), s.omega, "tsq");
    ref_single(E, s, std::get<0>(r), beta);
}
CASE arr2() { arr1(2); }
CASE arr3() { arr1(3); }

// parallel cuts  g'(x-xc) + b0 <= 0 <= g'(x-xc) + b1
static void par(int n, bool use, bool nd)
{
    In s {n};
    double b0 = vp_real("b0"), b1 = vp_real("b1");
    Ell E(s.kappa, s.Q, s.x);
    E.use_parallel_cut = use;
    E.no_defer_trick = nd;
    auto r = E.update(std::tuple<Arr, Arr>(s.g, Arr {b0, b1}));
    vp_check_eq(std::get<1>(r), s.omega, "tsq");
    auto st = std::get<0>(r);
    if (!use || b1 * b1 > s.omega)
    {
        vp_cover("par-single");
        ref_single(E, s, st, b0);
        return;
    }
    if (b1 < b0)
    {
        vp_cover("par-empty");
        vp_check(st == CUTStatus::nosoln, "empty-slab-is-nosoln");
        untouched(E, s);
        return;
    }
    if (n * b0 * b1 < -s.omega)
    {
        vp_cover("par-noeffect");
        vp_check(st == CUTStatus::noeffect, "par-noeffect");
        untouched(E, s);
        return;
    }
    vp_check(st == CUTStatus::success, "par-success");
    vp_cover(b0 == 0. ? "par-central" : b0 + b1 == 0. ? "par-symmetric" : "par-general");
    double N = n, a00 = b0 * b0 / s.omega, a11 = b1 * b1 / s.omega, a01 = b0 * b1 / s.omega;
    double d = N * (a11 - a00) / 2.;
    double xi = std::sqrt((1. - a00) * (1. - a11) + d * d);
    // sigma = (n + 2 (1 + a01 - xi) / (a0 + a1)^2) / (n + 1), division free form
    double sigma = (N + 2. * (1. - N * N * (a00 - 2. * a01 + a11) / 4.) / (1. + a01 + xi)) / (N + 1.);
    double rho = sigma * (b0 + b1) / 2.;
    double delta = N * N / (N * N - 1.) * (1. - (a00 + a11) / 2. + xi / N);
    moved(E, s, rho, sigma, delta);
}
CASE par2() { par(2, true, false); }
CASE par2nd() { par(2, true, true); }
CASE par3() { par(3, true, false); }
CASE par4() { par(4, true, false); }
CASE par2off() { par(2, false, false); }
CASE par3off() { par(3, false, true); }

// ------------------------------------------------------------------------
// Direct containment: Q = I, one coordinate axis as cut direction (the exact
// results above are equivariant under affine maps, so this loses nothing).
struct Norm
{
    int n, ax;
    double kappa, gam;
    Arr x, g, Q, z;
    Norm(int n_, int ax_, bool unit = false)
        : n {n_}
        , ax {ax_}
        , kappa {unit ? 1. : vp_real("kappa")}
        , gam {unit ? 1. : vp_real("gam")}
        , x {unit ? Arr {xt::zeros<double>({std::size_t(n_)})} : vec("x", n_)}
        , z {vec("z", n_)}
    {
        vp_assume(kappa > 0);
        vp_assume((gam > 0) | (gam < 0));
        g = xt::zeros<double>({std::size_t(n)});
        g(ax) = gam;
        Q = xt::eye<double>(std::size_t(n));
        double s = 0;
        for (int i = 0; i < n; ++i)
            s += z(i) * z(i);
        vp_assume(s <= kappa); // x + z is an arbitrary point of the ellipsoid
    }
};
// y = x + z must lie in the new ellipsoid, whose shape matrix stays diagonal
static void inside(const Ell& E, const Norm& s, bool flat)
{
    Arr c = E.xc();
    double prod = 1;
    for (int i = 0; i < s.n; ++i)
    {
        prod *= E.P(i, i);
        for (int j = 0; j < s.n; ++j)
            if (i != j)
                vp_check_eq(E.P(i, j), 0., "diagonal");
        if (i != s.ax)
            vp_check_eq(c(i), s.x(i), "along-axis");
    }
    double p = vp_abstract(E.P(s.ax, s.ax)), q = vp_abstract(E.P(!s.ax, !s.ax));
    for (int i = 0; i < s.n; ++i)
        if (i != s.ax)
            vp_check_eq(E.P(i, i), q, "isotropic");
    double d = s.z(s.ax) + s.x(s.ax) - c(s.ax), rest = 0;
    for (int i = 0; i < s.n; ++i)
        if (i != s.ax)
            rest += s.z(i) * s.z(i);
    if (flat)
    {
        vp_check_le(0., p, "p>=0");
        vp_check_le(0., q, "q>=0");
    }
    else
    {
        vp_check(p > 0, "p>0");
        vp_check(q > 0, "q>0");
    }
    vp_check_le(d * d * q + rest * p, p * q, "contains");
}
static void cdeep(int n, int ax)
{
    Norm s {n, ax};
    double beta = vp_real("beta");
    vp_assume(s.gam * s.z(ax) + beta <= 0);
    Ell E(s.kappa, s.Q, s.x);
    auto st = std::get<0>(E.update(std::tuple<Arr, double>(s.g, beta)));
    vp_check(st != CUTStatus::nosoln, "nosoln-only-when-empty");
    if (st != CUTStatus::success)
        return;
    double tau = std::sqrt(s.kappa * s.gam * s.gam);
    vp_cover("contains-deep");
    inside(E, s, !(beta < tau));
    // volume never grows
    double v0 = 1, v1 = 1;
    for (int i = 0; i < n; ++i)
    {
        v0 *= s.kappa;
        v1 *= E.P(i, i);
    }
    vp_check_le(v1, v0, "volume");
    if (n * beta > -tau)
        vp_check(v1 < v0, "volume-shrinks");
}
CASE cdeep2() { cdeep(2, 0); }
CASE cdeep3() { cdeep(3, 1); }
CASE cdeep4() { cdeep(4, 2); }

// Parallel cut in normal position: unit ball, cut along an axis with unit
// normal.  The new ellipsoid is  |y|^2 - t^2 + (t + rho)^2 / (1 - sigma) <= delta
// for a point y at height t along the axis.
static void cpar(int n, int ax)
{
    Norm s {n, ax, true};
    double b0 = vp_real("b0"), b1 = vp_real("b1");
    double t = vp_real("t"), q = vp_real("q"); // height and squared norm of an arbitrary point
    vp_assume((t * t <= q) & (q <= 1));
    vp_assume((t + b0 <= 0) & (t + b1 >= 0));
    vp_assume((b1 <= 1) & (b0 < 1) & (b1 > -1)); // a single cut or a single point otherwise
    Ell E(s.kappa, s.Q, s.x);
    auto st = std::get<0>(E.update(std::tuple<Arr, Arr>(s.g, Arr {b0, b1})));
    vp_check(st != CUTStatus::nosoln, "nosoln-only-when-empty");
    if (st != CUTStatus::success)
        return;
    vp_cover("contains-par");
    Arr c = E.xc();
    for (int i = 0; i < n; ++i)
    {
        for (int j = 0; j < n; ++j)
            if (i != j)
                vp_check_eq(E.P(i, j), 0., "diagonal");
        if (i != ax)
        {
            vp_check_eq(c(i), 0., "along-axis");
            vp_check_eq(E.P(i, i), E.P(!ax, !ax), "isotropic");
        }
    }
    // the step, as exact functions of the two offsets
    double N = n, bs = b0 + b1, h = N * bs * (b1 - b0) / 2.;
    double xi = std::sqrt((1. - b0 * b0) * (1. - b1 * b1) + h * h);
    double sig = bs == 0. ? (N + 2. * (1. - N * N * b0 * b0) / (1. - b0 * b0 + xi)) / (N + 1.)
                          : (N + 2. * (1. + b0 * b1 - xi) / (bs * bs)) / (N + 1.);
    double del = N * N / (N * N - 1.) * (1. - (b0 * b0 + b1 * b1) / 2. + xi / N);
    double rho = sig * bs / 2.;
    vp_check_eq(E.P(!ax, !ax), del, "delta");
    vp_check_eq(E.P(ax, ax), del * (1. - sig), "sigma");
    vp_check_eq(c(ax), -rho, "rho");
    double delta = vp_abstract(del), sigma = vp_abstract(sig);
    vp_check(delta > 0, "delta>0");
    if (b1 == b0) // the slab is a disc: so is the new ellipsoid
    {
        vp_cover("contains-disc");
        vp_check_eq(E.P(ax, ax), 0., "disc");
        vp_check_eq(t - c(ax), 0., "disc-centre");
        vp_check_le(q - t * t, delta, "contains");
        return;
    }
    vp_check(sigma < 1., "sigma<1");
    vp_check(sigma >= 0., "sigma>=0");
    if (n == 2)
        vp_check_le(delta * delta * (1. - sigma), 1., "volume");
    double m = sig / (1. - sig), M = vp_abstract(sigma / (1. - sigma)), d = t + rho;
    // slack of the new ellipsoid at y, and its sign
    vp_check_eq(del - (q - t * t) - (1. + m) * d * d, (1. - q) - m * (t + b0) * (t + b1), "slack");
    vp_check_le(0., (1. - q) - M * (t + b0) * (t + b1), "contains");
}
CASE cpar2() { cpar(2, 0); }
CASE cpar3() { cpar(3, 1); }
CASE cpar4() { cpar(4, 3); }
