// Profit maximisation oracles: nominal, robust, discrete.
#include "mat.hpp"
#include <ellcpp/oracles/profit_oracle.hpp>
using Res = std::tuple<std::tuple<Arr, double>, bool>;

struct Data
{
    double p, A, k;
    Arr a, v;
    Data()
        : p {vp_real("p")}
        , A {vp_real("A")}
        , k {vp_real("k")}
        , a {vec("a", 2)}
        , v {vec("v", 2)}
    {
        vp_assume(p > 0 && A > 0 && k > 0 && v(0) > 0 && v(1) > 0);
    }
};
// a point given by its (positive) quantities, so that exp(y) is simple
static Arr point(const char* nm)
{
    Arr x = vec(nm, 2);
    vp_assume(x(0) > 0 && x(1) > 0);
    x(0) = std::log(x(0));
    x(1) = std::log(x(1));
    return x;
}
static void nominal(const Data& D, const Arr& y, double t, double t1, const Res& res)
{
    const auto& [cut, ok] = res;
    const auto& [g, h] = cut;
    vp_check(g.size() == 2, "gradient-size");
    const double lk = std::log(D.k), lpA = std::log(D.p * D.A);
    if (y(0) - lk > 0)
    {
        vp_cover("beyond-limit");
        vp_check(!ok, "limit-is-no-improvement");
        vp_check(t1 == t, "target-kept-on-rejection");
        vp_check_eq(g(0), 1, "limit-cut");
        vp_check_eq(g(1), 0, "limit-cut");
        vp_check_eq(h, y(0) - lk, "limit-cut");
        return;
    }
    const double x0 = std::exp(y(0)), x1 = std::exp(y(1));
    const double LC = lpA + D.a(0) * y(0) + D.a(1) * y(1), cost = D.v(0) * x0 + D.v(1) * x1;
    const double te = t + cost, lte = std::log(te), out = std::exp(LC);
    vp_axiom((lte < LC) == (te < out)); // log is increasing
    vp_check(ok == (te < out), "improves-iff-more-profitable");
    if (ok)
    {
        vp_cover("improved");
        vp_check_eq(t1, out - cost, "target-is-the-profit-here");
        vp_check(t1 > t, "target-improves");
        vp_check_eq(h, 0, "objective-cut-passes-the-point");
    }
    else
    {
        vp_cover("cut");
        vp_check(t1 == t, "target-kept-on-rejection");
        vp_check(h >= 0, "cut-not-behind-the-point");
    }
    // a point that earns at least the new target survives the cut
    double te1 = t1 + cost, lte1 = std::log(te1);
    if (ok)
        vp_check_eq(te1, out, "new-target-level"), te1 = out, lte1 = LC;
    double w0 = D.v(0) * x0 / te1, w1 = D.v(1) * x1 / te1;
    vp_check_eq(g(0), w0 - D.a(0), "gradient");
    vp_check_eq(g(1), w1 - D.a(1), "gradient");
    vp_check_eq(h, lte1 - LC, "cut-offset");
    w0 = vp_abstract(w0);
    w1 = vp_abstract(w1);
    Arr z = point("z");
    const double LCz = lpA + D.a(0) * z(0) + D.a(1) * z(1);
    const double tz = t1 + D.v(0) * std::exp(z(0)) + D.v(1) * std::exp(z(1)), ltz = std::log(tz);
    vp_axiom((ltz <= LCz) == (tz <= std::exp(LCz)));
    const double lin = w0 * (z(0) - y(0)) + w1 * (z(1) - y(1));
    vp_axiom(ltz >= lte1 + lin); // tangent of log(t + v'exp(.)), which is convex
    vp_assume(tz <= std::exp(LCz));
    vp_check(lin - D.a(0) * (z(0) - y(0)) - D.a(1) * (z(1) - y(1)) + (ok ? 0 : lte1 - LC) <= 0, "cut-keeps-better-points");
}
CASE profit()
{
    Data D;
    profit_oracle P(D.p, D.A, D.k, D.a, D.v);
    Arr y = point("y");
    double t = vp_real("t"), t1 = t;
    vp_assume(t >= 0);
    Res r = P(y, t1);
    nominal(D, y, t, t1, r);
}
static void same(const Res& r, double t, const Res& s, double u)
{
    vp_check(std::get<1>(r) == std::get<1>(s), "same-verdict");
    vp_check_eq(t, u, "same-target");
    const auto& [g, h] = std::get<0>(r);
    const auto& [g1, h1] = std::get<0>(s);
    vp_check(g.size() == 2 && g1.size() == 2, "gradient-size");
    vp_check_eq(g(0), g1(0), "same-gradient");
    vp_check_eq(g(1), g1(1), "same-gradient");
    vp_check_eq(h, h1, "same-offset");
}
// robust = nominal at the worst parameters of the uncertainty box
static void rb(int rounds)
{
    Data D;
    Arr e = vec("e", 2);
    double e3 = vp_real("e3");
    vp_assume(e(0) >= 0 && e(1) >= 0 && e3 >= 0 && D.p > e3 && D.k > e3);
    profit_rb_oracle R(D.p, D.A, D.k, D.a, D.v, e, e3);
    for (int i = 0; i < rounds; ++i)
    {
        double t = vp_real("t");
        vp_assume(t >= 0);
        Arr y = vec("y", 2);
        double t1 = t, t2 = t;
        Res r = R(y, t1);
        Arr b = vec("b", 2), w = D.a; // any elasticities in the box
        for (int j = 0; j < 2; ++j)
        {
            vp_assume(b(j) >= D.a(j) - e(j) && b(j) <= D.a(j) + e(j));
            w(j) = y(j) > 0 ? D.a(j) - e(j) : D.a(j) + e(j);
            vp_check(b(j) * y(j) >= w(j) * y(j), "worst-case-elasticity");
        }
        vp_cover("robust");
        Arr v = D.v;
        v(0) += e3;
        v(1) += e3;
        profit_oracle N(D.p - e3, D.A, D.k - e3, w, v);
        Res s = N(y, t2);
        same(r, t1, s, t2);
    }
}
CASE rb1() { rb(1); }
CASE rb2() { rb(2); }
// discrete: the nominal oracle at the nearest positive integers
static void discrete(bool again)
{
    Data D;
    profit_q_oracle Q(D.p, D.A, D.k, D.a, D.v);
    Arr x = vec("x", 2), y = x;
    vp_assume(x(0) > 0 && x(1) > 0);
    y(0) = std::log(x(0));
    y(1) = std::log(x(1));
    double t = vp_real("t"), t1 = t;
    vp_assume(t >= 0);
    auto [cut, yd, ok, more] = Q(y, t1, false);
    vp_check(more, "an-alternative-is-offered");
    vp_check(yd.size() == 2, "point-size");
    if (!again)
    {
        for (int j = 0; j < 2; ++j)
        {
            double q = std::exp(yd(j));
            vp_check(vp_eq(q, std::round(q)), "integer-point");
            vp_check(q > 0.5, "positive-point");
            vp_check(vp_eq(q, 1) ? x(j) <= 1.5000001 : x(j) >= q - 0.5000001 && x(j) <= q + 0.5000001, "nearest-point");
        }
    }
    else
    {
        y = vec("y2", 2);
        t = t1;
        auto [cut2, yd2, ok2, more2] = Q(y, t1, true);
        vp_check(!more2, "no-further-alternative");
        for (int j = 0; j < 2; ++j)
            vp_check_eq(yd(j), yd2(j), "same-point-on-retry");
        cut = cut2;
        ok = ok2;
    }
    vp_cover("discrete");
    double t2 = t;
    profit_oracle N(D.p, D.A, D.k, D.a, D.v);
    Res s = N(yd, t2);
    // the same linear function, written relative to y
    auto& [g, h] = std::get<0>(s);
    h += g(0) * (yd(0) - y(0)) + g(1) * (yd(1) - y(1));
    same(Res {cut, ok}, t1, s, t2);
}
CASE discrete1() { discrete(false); }
CASE discrete2() { discrete(true); }
