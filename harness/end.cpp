// The drivers with the real interval space: what a caller can rely on after a
// whole solve, whatever convex problem stands behind the oracle.
#include "sym.h"
#include <cmath>
#include <ellcpp/cut_config.hpp>
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell1d.hpp>
#include <optional>
#include <utility>

using Cut = std::tuple<double, double>;

// the half-width is private: seen through the move of a copy's centre
static double radius(const ell1d& E)
{
    ell1d F(E);
    double c = F.xc();
    F.update(Cut(1., 0.));
    return 2. * (c - F.xc());
}
// find a point of [a, b]; cuts of any slope, as deep as the set allows
struct Interval
{
    double a, b;
    double last = 0;
    int queries = 0;
    double slope = 1;
    std::optional<Cut> operator()(double x)
    {
        ++queries;
        last = x;
        if (a <= x && x <= b)
            return {};
        double g = vp_real("g"), gap = x < a ? a - x : x - b;
        vp_assume(g > 0);
        slope = g;
        double beta = vp_real("share");
        vp_assume(beta >= 0 && beta <= 1);
        return Cut(x < a ? -g : g, beta * gap * g);
    }
};
static void feasibility(long max_it)
{
    double l = vp_real("l"), u = vp_real("u");
    vp_assume(l < u);
    Interval O {vp_real("a"), vp_real("b")};
    vp_assume(O.a <= O.b);
    double tol = vp_real("tol"), z = vp_real("z"); // any solution in the initial interval
    vp_assume(tol > 0 && tol < 1);
    ell1d E(l, u);
    auto r = cutting_plane_feas(O, E, Options {unsigned(max_it), tol});
    double c = E.xc(), h = radius(E);
    bool sol = (O.a <= z) & (z <= O.b) & (l <= z) & (z <= u);
    vp_check(O.queries <= max_it, "queries-bounded");
    if (r.feasible)
    {
        vp_cover("feasible");
        vp_check((O.a <= c) & (c <= O.b), "solution-solves-the-problem");
        vp_check((l <= c) & (c <= u), "solution-inside-the-initial-interval");
    }
    if (r.status == CUTStatus::nosoln)
    {
        vp_cover("nosoln");
        vp_check(!sol, "nosoln-means-none");
    }
    else
        vp_check(!sol | ((c - h <= z) & (z <= c + h)), "solutions-stay-inside");
    vp_check(r.status != CUTStatus::noeffect, "a-cut-through-or-past-the-centre-has-effect");
    if (r.status == CUTStatus::smallenough)
    {
        vp_cover("small");
        vp_check(h * h * O.slope * O.slope < tol, "small-means-small");
    }
    // every round at least halves the interval
    int cuts = O.queries - (r.feasible ? 1 : 0) - (r.status == CUTStatus::nosoln ? 1 : 0);
    double w = (u - l) / 2;
    for (int i = 0; i < cuts; ++i)
        w /= 2;
    vp_check_le(h, w, "halved-each-round");
}
CASE feas2() { feasibility(3); }
CASE feas3() { feasibility(4); }

// minimise any convex function: values and subgradients are free; z is any point,
// of value fz, which convexity ties to every answer given
struct Convex
{
    double z, fz;
    double best = 0, value = 0;
    bool improved = false;
    int queries = 0;
    std::tuple<Cut, bool> operator()(double x, double& t)
    {
        ++queries;
        double f = vp_real("f"), g = vp_real("g");
        vp_assume((g > 0) | (g < 0));
        vp_assume(fz >= f + g * (z - x));
        if (f < t)
        {
            t = f;
            best = x;
            improved = true;
            return {Cut(g, 0.), true};
        }
        return {Cut(g, f - t), false};
    }
};
static void optimise(long max_it)
{
    double l = vp_real("l"), u = vp_real("u");
    vp_assume(l < u);
    Convex O {vp_real("z"), vp_real("fz")};
    vp_assume((l <= O.z) & (O.z <= u));
    double tol = vp_real("tol"), t0 = vp_real("t"), t = t0;
    ell1d E(l, u);
    auto [x, r] = cutting_plane_dc(O, E, t, Options {unsigned(max_it), tol});
    double c = E.xc(), h = radius(E);
    vp_check(r.feasible == O.improved, "feasible-iff-improved");
    if (O.improved)
    {
        vp_cover("improved");
        vp_check(t < t0, "better-than-asked-for");
        vp_check_eq(x, O.best, "the-best-point-is-returned");
        vp_check((l <= x) & (x <= u), "best-point-inside-the-initial-interval");
    }
    else
        vp_check_eq(t, t0, "target-kept");
    if (r.status == CUTStatus::nosoln)
    {
        vp_cover("nosoln");
        vp_check(!(O.fz < t), "nosoln-means-none-better");
    }
    else
        vp_check(!(O.fz < t) | ((c - h <= O.z) & (O.z <= c + h)), "better-points-stay-inside");
    if (r.status == CUTStatus::smallenough)
        vp_cover("small");
}
CASE opt1() { optimise(2); }
CASE opt2() { optimise(3); }
CASE opt3() { optimise(4); }

// the same over chosen points only: the oracle evaluates a point d near the centre
// (a rounding of it), so its cut may pass behind the centre and have no effect
struct Discrete
{
    double z, fz;
    double best = 0;
    bool improved = false;
    int queries = 0, tries = 0;
    bool asked_again = false;
    std::tuple<Cut, double, bool, bool> operator()(double x, double& t, bool retry)
    {
        ++queries;
        tries = retry ? tries + 1 : 0;
        asked_again = asked_again || retry;
        double d = vp_real("d"), f = vp_real("fd"), g = vp_real("gd");
        vp_assume((x - 1 <= d) & (d <= x + 1));
        vp_assume((g > 0) | (g < 0));
        vp_assume(fz >= f + g * (z - d));
        bool better = f < t;
        if (better)
        {
            t = f;
            best = d;
            improved = true;
        }
        return {Cut(g, f - t + g * (x - d)), d, better, tries < 1};
    }
};
static void discrete(long max_it)
{
    double l = vp_real("l"), u = vp_real("u");
    vp_assume(l < u);
    Discrete O {vp_real("z"), vp_real("fz")};
    vp_assume((l <= O.z) & (O.z <= u));
    double tol = vp_real("tol"), t0 = vp_real("t"), t = t0;
    ell1d E(l, u);
    auto [x, r] = cutting_plane_q(O, E, t, Options {unsigned(max_it), tol});
    double c = E.xc(), h = radius(E);
    vp_check(r.feasible == O.improved, "feasible-iff-improved");
    if (O.improved)
    {
        vp_cover("improved");
        vp_check(t < t0, "better-than-asked-for");
        vp_check_eq(x, O.best, "the-best-point-is-returned");
    }
    else
        vp_check_eq(t, t0, "target-kept");
    if (O.asked_again)
        vp_cover("retried");
    vp_check(!(O.fz < t) | ((c - h <= O.z) & (O.z <= c + h)), "better-points-stay-inside");
}
CASE discrete1() { discrete(2); }
CASE discrete2() { discrete(3); }
CASE discrete3() { discrete(4); }
CASE feas4() { feasibility(5); }
CASE opt4() { optimise(5); }
