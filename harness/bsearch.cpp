// bsearch and bsearch_adaptor.
#include "sym.h"
#include <ellcpp/cut_config.hpp>
#include <ellcpp/cutting_plane.hpp>
#include <optional>
#include <utility>

template <typename T>
struct Thr // monotone: feasible from the threshold on
{
    T theta, lo, hi;
    int queries = 0;
    bool operator()(const T& t)
    {
        ++queries;
        vp_check((lo <= t) & (t <= hi), "query-inside-the-bracket");
        bool ok = theta <= t;
        if (ok)
            hi = t;
        else
            lo = t;
        return ok;
    }
};
template <typename T>
static void run(T l, T u, T theta, double tol, long max_it)
{
    vp_assume(l <= u);
    Thr<T> O {theta, l, u};
    std::pair<T, T> I {l, u};
    auto r = bsearch(O, I, Options {unsigned(max_it), tol});
    vp_check(O.queries <= max_it, "queries-bounded");
    vp_check(r.num_iters == std::size_t(O.queries) + 1, "num_iters");
    vp_check((l <= I.first) & (I.first <= I.second) & (I.second <= u), "bracket-inside");
    vp_check(r.feasible == (I.second != u), "feasible-iff-upper-moved");
    if (r.feasible)
    {
        vp_cover("feasible");
        vp_check(theta <= I.second, "upper-is-feasible");
    }
    if (I.first != l)
    {
        vp_cover("lower-moved");
        vp_check(I.first < theta, "lower-is-infeasible");
    }
    // the bracket that the answers determine, no more and no less
    vp_check((I.first == O.lo) & (I.second == O.hi), "bracket");
    if (r.status == CUTStatus::smallenough)
    {
        vp_cover("small");
        vp_check(double(I.second - I.first) < 2. * tol + (std::is_integral<T>::value ? 1. : 0.), "small-means-small");
    }
    else
    {
        vp_cover("budget");
        vp_check(r.status == CUTStatus::success, "status");
        vp_check(O.queries == max_it, "budget-used");
    }
    // halving
    double w = double(u - l);
    for (int i = 0; i < O.queries; ++i)
        w /= 2;
    if (!std::is_integral<T>::value)
        vp_check_eq(double(I.second - I.first), w, "halved-each-round");
}
CASE real5()
{
    double l = vp_real("l"), u = vp_real("u"), th = vp_real("theta"), tol = vp_real("tol");
    run<double>(l, u, th, tol, vp_int("max_it", 0, 5));
}
CASE real8()
{
    double l = vp_real("l"), u = vp_real("u"), th = vp_real("theta"), tol = vp_real("tol");
    run<double>(l, u, th, tol, vp_int("max_it", 0, 8));
}
CASE int8()
{
    long l = vp_int("l", -20, 20), u = vp_int("u", -20, 20), th = vp_int("theta", -30, 30);
    run<int>(int(l), int(u), int(th), 1e-8, 8);
}

// ------------------------------------------------------------------ adaptor
struct ASpace
{
    double c, id;
    int* copies;
    int* updates;
    bool original;
    double xc() const { return c; }
    void set_xc(double x) { c = x; }
    ASpace copy() const
    {
        ++*copies;
        return ASpace {c, id, copies, updates, false};
    }
    std::tuple<CUTStatus, double> update(double)
    {
        vp_check(!original, "caller's-space-is-not-cut");
        ++*updates;
        auto st = vp_int("st", 0, 2);
        if (st == 0)
            c = vp_real("xc");
        id = vp_real("id");
        return {st == 0 ? CUTStatus::success : st == 1 ? CUTStatus::nosoln : CUTStatus::noeffect, vp_real("tsq")};
    }
};
struct AOracle
{
    double t = -77, last = -77;
    int set = 0, queries = 0;
    bool accepted = false;
    void update(double x)
    {
        t = x;
        ++set;
        vp_check(queries == 0, "target-set-before-the-search");
    }
    std::optional<double> operator()(double x)
    {
        ++queries;
        last = x;
        if (vp_bool("accept"))
        {
            accepted = true;
            return {};
        }
        return vp_real("cut");
    }
};
CASE adaptor()
{
    int copies = 0, updates = 0;
    double x0 = vp_real("x0"), id0 = vp_real("id0"), t = vp_real("target");
    ASpace S {x0, id0, &copies, &updates, true};
    AOracle O;
    long max_it = vp_int("max_it", 0, 4);
    bsearch_adaptor<AOracle, ASpace> A(O, S, Options {unsigned(max_it), vp_real("tol")});
    bool ok = A(t);
    vp_check_eq(O.t, t, "target-handed-to-the-oracle");
    vp_check(O.set == 1, "target-set-once");
    vp_check(ok == O.accepted, "answer-iff-accepted");
    vp_check(O.queries <= max_it, "limit-handed-on");
    vp_check_eq(S.id, id0, "shape-of-the-space-kept");
    vp_check_eq(S.c, ok ? O.last : x0, "centre-moves-to-the-accepted-point-only");
    vp_check_eq(A.x_best(), S.c, "x_best");
    vp_cover(ok ? "accepted" : "rejected");
}
