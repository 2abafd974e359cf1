// The cutting-plane drivers against an adversarial oracle and search space:
// every answer (cut or no cut, improvement, status, size) is a free choice, so
// every history of up to the bounded number of rounds is covered.
#include "sym.h"
#include <ellcpp/cut_config.hpp>
#include <ellcpp/cutting_plane.hpp>
#include <optional>

struct Pt
{
    double v = -12345;
};
static constexpr int MAXIT = 5;

// what happened so far
struct Log
{
    int queries = 0, updates = 0;
    bool stopped = false;   // no further call is allowed
    bool feasible = false;  // the oracle accepted the current point
    CUTStatus last = CUTStatus::success;
    bool small = false;
    double cut = 0, at = 0; // last cut handed out, last point queried
    double best = -12345;   // point of the last improvement
    double t = 0;
    bool improved = false, retry = false;
};

struct Space
{
    Log* L;
    double c, tol;
    bool* more = nullptr; // cutting_plane_q only
    Pt xc() const { return Pt {c}; }
    std::tuple<CUTStatus, double> update(double cut)
    {
        vp_check(!L->stopped, "no-update-after-stop");
        vp_check(L->updates + 1 == L->queries, "one-update-per-cut");
        vp_check_eq(cut, L->cut, "update-with-the-oracle's-cut");
        ++L->updates;
        auto st = vp_int("st", 0, 2);
        double tsq = vp_real("tsq");
        L->last = st == 0 ? CUTStatus::success : st == 1 ? CUTStatus::nosoln : CUTStatus::noeffect;
        L->small = tsq < tol;
        if (L->last == CUTStatus::success)
            c = vp_real("xc");
        L->retry = L->last == CUTStatus::noeffect;
        if (L->small || L->last == CUTStatus::nosoln || (L->retry && !(more && *more)))
            L->stopped = true;
        return {L->last, tsq};
    }
};
struct OracleFeas
{
    Log& L;
    Space& S;
    std::optional<double> operator()(const Pt& x)
    {
        vp_check(!L.stopped, "no-query-after-stop");
        vp_check(L.queries == L.updates, "one-query-per-update");
        vp_check_eq(x.v, S.c, "query-at-current-centre");
        ++L.queries;
        L.at = x.v;
        if (vp_bool("accept"))
        {
            L.stopped = L.feasible = true;
            return {};
        }
        return L.cut = vp_real("cut");
    }
};
CASE feas()
{
    Log L;
    double tol = vp_real("tol");
    long max_it = vp_int("max_it", 0, MAXIT + 3);
    Space S {&L, vp_real("x0"), tol};
    OracleFeas O {L, S};
    auto r = cutting_plane_feas(O, S, Options {unsigned(max_it), tol});
    vp_check(r.feasible == L.feasible, "feasible-iff-accepted");
    vp_check(r.num_iters <= std::size_t(max_it < 1 ? 1 : max_it), "num_iters-bounded");
    vp_check(L.queries <= max_it, "queries-bounded");
    if (r.feasible)
    {
        vp_cover("feasible");
        vp_check_eq(S.c, L.at, "centre-is-the-accepted-point");
        vp_check(r.status == CUTStatus::success, "status");
        vp_check(r.num_iters == std::size_t(L.queries), "num_iters");
    }
    else if (L.updates && L.last != CUTStatus::success)
    {
        vp_cover("stopped");
        vp_check(r.status == L.last, "status-of-the-failed-cut");
        vp_check(r.num_iters == std::size_t(L.queries), "num_iters");
    }
    else if (L.updates && L.small)
    {
        vp_cover("small");
        vp_check(r.status == CUTStatus::smallenough, "status-smallenough");
        vp_check(r.num_iters == std::size_t(L.queries), "num_iters");
    }
    else
    {
        vp_cover("budget");
        vp_check(r.status == CUTStatus::success, "status");
        vp_check(L.queries + 1 >= max_it, "budget-used");
    }
}

struct OracleDC
{
    Log& L;
    Space& S;
    std::tuple<double, bool> operator()(const Pt& x, double& t)
    {
        vp_check(!L.stopped, "no-query-after-stop");
        vp_check(L.queries == L.updates, "one-query-per-update");
        vp_check_eq(x.v, S.c, "query-at-current-centre");
        vp_check_eq(t, L.t, "query-with-the-best-value");
        ++L.queries;
        bool shrunk = vp_bool("shrunk");
        if (shrunk)
        {
            double d = vp_real("gain");
            vp_assume(d > 0);
            t -= d;
            L.t = t;
            L.best = x.v;
            L.improved = true;
        }
        return {L.cut = vp_real("cut"), shrunk};
    }
};
CASE dc()
{
    Log L;
    double tol = vp_real("tol");
    long max_it = vp_int("max_it", 0, MAXIT);
    Space S {&L, vp_real("x0"), tol};
    OracleDC O {L, S};
    double t = L.t = vp_real("t");
    auto [x, r] = cutting_plane_dc(O, S, t, Options {unsigned(max_it), tol});
    vp_check_eq(t, L.t, "best-value-returned");
    vp_check(r.feasible == L.improved, "feasible-iff-improved");
    vp_check_eq(x.v, L.best, "x-is-the-best-point");
    vp_check(r.num_iters <= std::size_t(max_it < 1 ? 1 : max_it), "num_iters-bounded");
    vp_check(L.queries <= max_it, "queries-bounded");
    vp_check(L.queries == L.updates, "every-cut-applied");
    if (L.improved)
        vp_cover("improved");
    if (L.updates && L.last != CUTStatus::success)
    {
        vp_cover("stopped");
        vp_check(r.status == L.last, "status-of-the-failed-cut");
        vp_check(r.num_iters == std::size_t(L.queries), "num_iters");
    }
    else if (L.updates && L.small)
    {
        vp_cover("small");
        vp_check(r.status == CUTStatus::smallenough, "status-smallenough");
        vp_check(r.num_iters == std::size_t(L.queries), "num_iters");
    }
    else
    {
        vp_cover("budget");
        vp_check(r.status == CUTStatus::success, "status");
        vp_check(L.queries + 1 >= max_it, "budget-used");
    }
}

struct OracleQ
{
    Log& L;
    Space& S;
    bool& more;
    std::tuple<double, Pt, bool, bool> operator()(const Pt& x, double& t, bool retry)
    {
        vp_check(!L.stopped, "no-query-after-stop");
        vp_check(L.queries == L.updates, "one-query-per-update");
        vp_check_eq(x.v, S.c, "query-at-current-centre");
        vp_check_eq(t, L.t, "query-with-the-best-value");
        vp_check(retry == L.retry, "retry-iff-last-cut-had-no-effect");
        if (retry)
            vp_cover("retry");
        ++L.queries;
        bool shrunk = vp_bool("shrunk");
        Pt x0 {vp_real("xd")};
        if (shrunk)
        {
            double d = vp_real("gain");
            vp_assume(d > 0);
            t -= d;
            L.t = t;
            L.best = x0.v;
            L.improved = true;
        }
        more = vp_bool("more");
        return {L.cut = vp_real("cut"), x0, shrunk, more};
    }
};
CASE dq()
{
    Log L;
    double tol = vp_real("tol");
    long max_it = vp_int("max_it", 0, MAXIT - 1);
    bool more = true;
    Space S {&L, vp_real("x0"), tol, &more};
    OracleQ O {L, S, more};
    double t = L.t = vp_real("t");
    auto [x, r] = cutting_plane_q(O, S, t, Options {unsigned(max_it), tol});
    vp_check_eq(t, L.t, "best-value-returned");
    vp_check(r.feasible == L.improved, "feasible-iff-improved");
    vp_check_eq(x.v, L.best, "x-is-the-best-point");
    vp_check(r.num_iters <= std::size_t(max_it < 1 ? 1 : max_it), "num_iters-bounded");
    vp_check(L.queries <= max_it, "queries-bounded");
    vp_check(L.queries == L.updates, "every-cut-applied");
    if (L.improved)
        vp_cover("improved");
    if (L.stopped)
        vp_check(r.num_iters == std::size_t(L.queries), "num_iters");
    else
    {
        vp_cover("budget");
        vp_check(L.queries + 1 >= max_it, "budget-used");
    }
    if (L.updates && L.last == CUTStatus::nosoln)
    {
        vp_cover("stopped");
        vp_check(r.status == CUTStatus::nosoln, "status-of-the-failed-cut");
    }
    if (L.updates && L.small && L.last == CUTStatus::success)
    {
        vp_cover("small");
        vp_check(r.status == CUTStatus::smallenough, "status-smallenough");
    }
    if (!L.small)
        vp_check(r.status != CUTStatus::smallenough, "smallenough-only-when-small");
}
