// ell1d: the interval [xc - r, xc + r] and one cut  g (x - xc) + beta <= 0.
#include "sym.h"
#include <cmath>
#include <ellcpp/cut_config.hpp>
#include <ellcpp/ell1d.hpp>

// the half-width is private: the interval after a step is observed through the
// distance a second central cut moves the centre
static double radius(const ell1d& E)
{
    ell1d F(E);
    double c = F.xc();
    F.update(std::tuple<double, double>(1., 0.));
    return 2. * (c - F.xc());
}
CASE interval()
{
    double l = vp_real("l"), u = vp_real("u");
    vp_assume(l <= u);
    ell1d E(l, u);
    vp_check_eq(E.xc(), (l + u) / 2., "centre-of-the-interval");
    vp_check_eq(radius(E), (u - l) / 2., "half-width");
    double x = vp_real("x");
    E.set_xc(x);
    vp_check_eq(E.xc(), x, "set_xc");
    vp_check_eq(radius(E), (u - l) / 2., "half-width");
}
static void step(ell1d& E, double& lo, double& hi, const char* G, const char* B)
{
    double g = vp_real(G), beta = vp_real(B);
    vp_assume((g > 0) | (g < 0));
    double xc = (lo + hi) / 2., r = (hi - lo) / 2., tau = r * std::fabs(g);
    auto [st, tsq] = E.update(std::tuple<double, double>(g, beta));
    vp_check_eq(tsq, tau * tau, "tsq");
    if (st == CUTStatus::success)
    {
        vp_cover(beta == 0. ? "central" : "deep");
        vp_check((beta <= tau) & (beta >= -tau), "success-iff");
        // exactly the part of the interval the cut leaves
        double b = xc - beta / g;
        if (g > 0)
            hi = b;
        else
            lo = b;
    }
    else if (st == CUTStatus::nosoln)
    {
        vp_cover("nosoln");
        vp_check(beta > tau, "nosoln-iff");
    }
    else
    {
        vp_cover("noeffect");
        vp_check(st == CUTStatus::noeffect, "status");
        vp_check(beta < -tau, "noeffect-iff");
    }
    vp_check_eq(E.xc(), (lo + hi) / 2., "centre-of-what-is-left");
    vp_check_eq(radius(E), (hi - lo) / 2., "half-width-of-what-is-left");
}
CASE cut1()
{
    double l = vp_real("l"), u = vp_real("u");
    vp_assume(l <= u);
    ell1d E(l, u);
    step(E, l, u, "g", "beta");
}
CASE cut2()
{
    double l = vp_real("l"), u = vp_real("u");
    vp_assume(l <= u);
    ell1d E(l, u);
    step(E, l, u, "g", "beta");
    step(E, l, u, "g", "beta");
}
CASE cut3()
{
    double l = vp_real("l"), u = vp_real("u");
    vp_assume(l <= u);
    ell1d E(l, u);
    step(E, l, u, "g", "beta");
    step(E, l, u, "g", "beta");
    step(E, l, u, "g", "beta");
}
