// Low-pass filter oracle: passband, stopband and non-negativity rows in every
// rotation, with arbitrary matrices and points.
#include "mat.hpp"
#include <ellcpp/oracles/lowpass_oracle.hpp>

struct Problem
{
    int n, np, ns, nr;
    Arr Ap, As, Anr;
    double L, U;
};
static double row(const Arr& A, int k, const Arr& x, int n)
{
    double s = 0;
    for (int j = 0; j < n; ++j)
        s += A(k, j) * x(j);
    return s;
}
static void judge(const Problem& P, const Arr& x, double S, double S1, const std::tuple<std::tuple<Arr, Arr>, bool>& res)
{
    const auto& [cut, ok] = res;
    const auto& [g, f] = cut;
    const int n = P.n;
    bool good = x(0) >= 0;
    for (int k = 0; k < P.np && good; ++k)
        good = row(P.Ap, k, x, n) <= P.U && row(P.Ap, k, x, n) >= P.L;
    for (int k = 0; k < P.ns && good; ++k)
        good = row(P.As, k, x, n) <= S && row(P.As, k, x, n) >= 0;
    for (int k = 0; k < P.nr && good; ++k)
        good = row(P.Anr, k, x, n) >= 0;
    vp_check(ok == good, "accepts-iff-all-constraints-hold");
    vp_check(g.size() == std::size_t(n) && (f.size() == 1 || f.size() == 2), "cut-shape");
    if (ok)
    {
        vp_cover("improved");
        bool attained = false;
        for (int k = 0; k < P.ns; ++k)
        {
            double v = row(P.As, k, x, n);
            vp_check(v <= S1, "new-target-bounds-the-stopband");
            attained = attained || v == S1;
        }
        vp_check(attained, "new-target-is-the-stopband-level");
        vp_check(S1 <= S, "target-never-worse");
        vp_check(f(0) == 0, "objective-cut-passes-the-point");
    }
    else
    {
        vp_check(S1 == S, "target-kept-on-rejection");
        vp_check(f(0) > 0, "rejection-cut-excludes-the-point");
    }
    if (f.size() == 2)
    {
        vp_cover("parallel");
        vp_check(f(0) <= f(1), "parallel-offsets-ordered");
    }
    // a point that meets every constraint at the new target survives the cut
    Arr z = vec("z", n);
    vp_assume(z(0) >= 0);
    for (int k = 0; k < P.np; ++k)
        vp_assume(row(P.Ap, k, z, n) <= P.U && row(P.Ap, k, z, n) >= P.L);
    for (int k = 0; k < P.ns; ++k)
        vp_assume(row(P.As, k, z, n) <= S1 && row(P.As, k, z, n) >= 0);
    for (int k = 0; k < P.nr; ++k)
        vp_assume(row(P.Anr, k, z, n) >= 0);
    double lin = 0;
    for (int j = 0; j < n; ++j)
        lin += g(j) * (z(j) - x(j));
    vp_check(lin + f(0) <= 0, "cut-keeps-better-points");
    if (f.size() == 2)
        vp_check(lin + f(1) >= 0, "second-cut-keeps-better-points");
}
static void run(int n, int np, int ns, int nr, int rounds)
{
    Problem P {n, np, ns, nr, mat("P", np, n), mat("S", ns, n), mat("R", nr, n), vp_real("L"), vp_real("U")};
    vp_assume(P.L <= P.U);
    lowpass_oracle O(P.Ap, P.As, P.Anr, P.L, P.U);
    double S = vp_real("Sp");
    vp_assume(S >= 0);
    for (int i = 0; i < rounds; ++i)
    {
        Arr x = vec("x", n);
        double S1 = S;
        auto r = O(x, S1);
        if (i + 1 == rounds)
            judge(P, x, S, S1, r);
        S = S1;
    }
}
CASE one_1_1_1() { run(2, 1, 1, 1, 1); }
CASE one_2_2_2() { run(2, 2, 2, 2, 1); }
CASE one_3d() { run(3, 2, 2, 1, 1); }
CASE two_1_1_1() { run(2, 1, 1, 1, 2); }
CASE two_2_1_1() { run(2, 2, 1, 1, 2); }
CASE two_1_2_1() { run(2, 1, 2, 1, 2); }
CASE two_1_1_2() { run(2, 1, 1, 2, 2); }
CASE two_2_2_2() { run(2, 2, 2, 2, 2); }
CASE two_3_1_1() { run(2, 3, 1, 1, 2); }
CASE two_1_3_1() { run(2, 1, 3, 1, 2); }
CASE two_1_1_3() { run(2, 1, 1, 3, 2); }
CASE three_2_2_1() { run(2, 2, 2, 1, 3); }
CASE three_1_1_1() { run(2, 1, 1, 1, 3); }
