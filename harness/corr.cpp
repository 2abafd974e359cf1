// The correlation oracles (least squares, maximum likelihood) and their basis matrices.
#include "mat.hpp"
#include <../src/lsq_corr_ell.cpp>

// leading block of the first non-positive pivot, with the direction v (last component 1)
struct Elim
{
    int stop;
    double v[MAXM], d[MAXM];
    Elim(int m, const double A[MAXM][MAXM])
        : stop {m}
    {
        double U[MAXM][MAXM];
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < m; ++j)
                U[i][j] = A[i][j];
        for (int k = 0; k < m; ++k)
        {
            d[k] = U[k][k];
            if (!(U[k][k] > 0))
            {
                stop = k;
                break;
            }
            for (int i = k + 1; i < m; ++i)
            {
                double f = U[i][k] / U[k][k];
                for (int j = k; j < m; ++j)
                    U[i][j] -= f * U[k][j];
            }
        }
        if (stop == m)
            return;
        v[stop] = 1;
        for (int i = stop - 1; i >= 0; --i)
        {
            v[i] = 0;
            for (int j = i + 1; j <= stop; ++j)
                v[i] -= U[i][j] * v[j];
            v[i] /= U[i][i];
        }
    }
    double quad(const Arr& B) const
    {
        double s = 0;
        for (int i = 0; i <= stop; ++i)
            for (int j = 0; j <= stop; ++j)
                s += v[i] * B(i, j) * v[j];
        return s;
    }
    double times(const Arr& B, int i) const
    {
        double s = 0;
        for (int j = 0; j <= stop; ++j)
            s += B(i, j) * v[j];
        return s;
    }
};
static void combine(double S[MAXM][MAXM], int m, const std::vector<Arr>& F, const Arr& x)
{
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < m; ++j)
        {
            S[i][j] = 0;
            for (std::size_t k = 0; k < F.size(); ++k)
                S[i][j] += F[k](i, j) * x(k);
        }
}
static std::vector<Arr> basis(int n, int m)
{
    std::vector<Arr> F;
    for (int k = 0; k < n; ++k)
        F.push_back(symm(("F" + std::to_string(k) + "_").c_str(), m));
    return F;
}

static void lsq(int n, int m, int rounds)
{
    auto F = basis(n, m);
    Arr Y = mat("Y", m, m);
    auto F2 = F;
    lsq_oracle P(F2, Y);
    double t = vp_real("t");
    for (int q = 0; q < rounds; ++q)
    {
        Arr x = vec("x", n + 1), z = vec("z", n + 1);
        const Arr x0 = x;
        const double t0 = t;
        const auto r = P(x, t);
        const auto& [cut, better] = r;
        const auto& [g, f] = cut;
        vp_check(g.size() == std::size_t(n + 1), "gradient-size");
        double S[MAXM][MAXM], A[MAXM][MAXM], D[MAXM][MAXM], lin = f;
        for (int k = 0; k <= n; ++k)
            lin += g(k) * (z(k) - x0(k));
        combine(S, m, F, x0);
        Elim es(m, S);
        if (es.stop != m) // correlation matrix not positive definite
        {
            vp_cover("not-a-covariance");
            vp_check(!better && t == t0, "rejects-indefinite");
            vp_check(f >= 0, "cut-not-behind-the-point");
            double h = 0;
            for (int k = 0; k < n; ++k)
                h -= es.quad(F[k]) * z(k);
            vp_check_eq(lin, h, "cut-keeps-every-covariance");
            continue;
        }
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < m; ++j)
                D[i][j] = Y(i, j) - S[i][j];
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < m; ++j)
            {
                A[i][j] = i == j ? x0(n) : 0.;
                for (int k = 0; k < m; ++k)
                    A[i][j] -= D[k][i] * D[k][j];
            }
        Elim ea(m, A);
        if (ea.stop != m) // x[n] is no bound of the squared residual
        {
            vp_cover("not-a-bound");
            vp_check(!better && t == t0, "rejects-too-small-a-bound");
            vp_check(f >= 0, "cut-not-behind-the-point");
            double h = 0, sq = 0, vv = 0;
            for (int i = 0; i < m; ++i)
            {
                double a = ea.times(Y, i), b = 0;
                for (int k = 0; k < n; ++k)
                {
                    a -= ea.times(F[k], i) * z(k);
                    b += ea.times(F[k], i) * (z(k) - x0(k));
                }
                h += a * a;
                sq += b * b;
            }
            for (int j = 0; j <= ea.stop; ++j)
                vv += ea.v[j] * ea.v[j];
            vp_check_eq(h - z(n) * vv, lin + sq, "cut-keeps-every-feasible-point");
            continue;
        }
        vp_check(better == (x0(n) <= t0), "improves-iff-not-above-the-target");
        for (int k = 0; k < n; ++k)
            vp_check_eq(g(k), 0., "objective-gradient");
        vp_check_eq(g(n), 1., "objective-gradient");
        if (better)
        {
            vp_cover("improved");
            vp_check_eq(t, x0(n), "target-is-the-new-value");
            vp_check_eq(f, 0., "central-cut");
        }
        else
        {
            vp_cover("worse");
            vp_check(t == t0, "target-untouched");
            vp_check_eq(f, x0(n) - t0, "objective-cut");
        }
    }
}
CASE lsq_1_1() { lsq(1, 1, 1); }
CASE lsq_2_1() { lsq(2, 1, 1); }
CASE lsq_1_2() { lsq(1, 2, 1); }
CASE lsq_2_2() { lsq(2, 2, 1); }
CASE lsq_3_2() { lsq(3, 2, 1); }
CASE lsq_1_3() { lsq(1, 3, 1); }
CASE lsq_1_1twice() { lsq(1, 1, 2); }
CASE lsq_2_1twice() { lsq(2, 1, 2); }
CASE lsq_1_2twice() { lsq(1, 2, 2); }

static void sites(int n, int d, int m)
{
    Arr s = mat("s", n, d);
    const auto S = construct_poly_matrix(s, std::size_t(m));
    vp_cover("sites");
    vp_check(S.size() == std::size_t(m), "one-matrix-per-degree");
    for (int k = 0; k < m; ++k)
    {
        vp_check(S[k].dimension() == 2 && S[k].shape()[0] == std::size_t(n) && S[k].shape()[1] == std::size_t(n), "shape");
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
            {
                double q = 0;
                for (int l = 0; l < d; ++l)
                    q += (s(i, l) - s(j, l)) * (s(i, l) - s(j, l));
                double e = 1; // the square of the entry is the k-th power of the squared distance
                for (int l = 0; l < k; ++l)
                    e *= q;
                if (i == j)
                    e = k == 0;
                vp_check_eq(S[k](i, j) * S[k](i, j), e, "power-of-the-distance");
                vp_check(S[k](i, j) >= 0, "not-negative");
                vp_check_eq(S[k](i, j), S[k](j, i), "symmetric");
            }
    }
}
CASE sites_2_1_2() { sites(2, 1, 2); }
CASE sites_2_2_3() { sites(2, 2, 3); }
CASE sites_3_2_3() { sites(3, 2, 3); }
CASE sites_3_1_1() { sites(3, 1, 1); }
CASE sites_4_2_4() { sites(4, 2, 4); }

// maximum likelihood: log det S + tr(S^-1 Y) subject to 0 < S < 2 Y
static void inverse(int m, const double A[MAXM][MAXM], double B[MAXM][MAXM])
{
    if (m == 1)
    {
        B[0][0] = 1. / A[0][0];
        return;
    }
    double det = 0;
    if (m == 2)
    {
        det = A[0][0] * A[1][1] - A[0][1] * A[1][0];
        B[0][0] = A[1][1] / det;
        B[1][1] = A[0][0] / det;
        B[0][1] = -A[0][1] / det;
        B[1][0] = -A[1][0] / det;
        return;
    }
    for (int j = 0; j < 3; ++j)
        det += A[0][j] * (A[1][(j + 1) % 3] * A[2][(j + 2) % 3] - A[1][(j + 2) % 3] * A[2][(j + 1) % 3]);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            B[j][i] = (A[(i + 1) % 3][(j + 1) % 3] * A[(i + 2) % 3][(j + 2) % 3] -
                          A[(i + 1) % 3][(j + 2) % 3] * A[(i + 2) % 3][(j + 1) % 3]) / det;
}
static void mle(int n, int m, int rounds)
{
    auto F = basis(n, m);
    Arr Y = symm("Y", m);
    mle_oracle P(F, Y);
    double t = vp_real("t");
    for (int q = 0; q < rounds; ++q)
    {
        Arr x = vec("x", n), z = vec("z", n);
        const Arr x0 = x;
        const double t0 = t;
        const auto r = P(x, t);
        const auto& [cut, better] = r;
        const auto& [g, f] = cut;
        vp_check(g.size() == std::size_t(n), "gradient-size");
        double S[MAXM][MAXM], A[MAXM][MAXM], lin = f;
        for (int k = 0; k < n; ++k)
            lin += g(k) * (z(k) - x0(k));
        combine(S, m, F, x0);
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < m; ++j)
                A[i][j] = 2 * Y(i, j) - S[i][j];
        Elim ea(m, A), es(m, S);
        if (ea.stop != m || es.stop != m)
        {
            vp_check(!better && t == t0, "rejects-infeasible");
            vp_check(f >= 0, "cut-not-behind-the-point");
            // one of the two constraints, linear in the point, along a direction that shows the violation
            double ha = 0, hs = 0;
            if (ea.stop != m)
            {
                vp_cover("too-large");
                ha = -2 * ea.quad(Y);
                for (int k = 0; k < n; ++k)
                    ha += ea.quad(F[k]) * z(k);
            }
            if (es.stop != m)
            {
                vp_cover("not-a-covariance");
                for (int k = 0; k < n; ++k)
                    hs -= es.quad(F[k]) * z(k);
            }
            bool ok = (ea.stop != m && vp_eq(lin, ha)) || (es.stop != m && vp_eq(lin, hs));
            vp_check(ok, "cut-keeps-every-feasible-point");
            continue;
        }
        double V[MAXM][MAXM], W[MAXM][MAXM], tr = 0;
        inverse(m, S, V);
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < m; ++j)
            {
                W[i][j] = 0; // S^-1 Y S^-1
                for (int a = 0; a < m; ++a)
                    for (int b = 0; b < m; ++b)
                        W[i][j] += V[i][a] * Y(a, b) * V[b][j];
                tr += V[i][j] * Y(j, i);
            }
        for (int k = 0; k < n; ++k)
        {
            double d = 0;
            for (int i = 0; i < m; ++i)
                for (int j = 0; j < m; ++j)
                    d += (V[i][j] - W[i][j]) * F[k](j, i);
            vp_check_eq(g(k), d, "gradient-of-the-likelihood");
        }
        // log det S = 2 sum log sqrt(pivot); the same logarithm however it is grouped
        double ld = 0, ps = 1, pd = 1;
        for (int k = 0; k < m; ++k)
        {
            double l = std::log(std::sqrt(es.d[k]));
            vp_axiom(vp_eq(std::log(es.d[k]), 2. * l));
            ld += l;
            ps *= std::sqrt(es.d[k]);
            pd *= es.d[k];
        }
        vp_axiom(vp_eq(std::log(ps), ld));
        vp_axiom(vp_eq(std::log(pd), 2. * ld));
        double val = 2. * ld + tr;
        vp_check(better == (val < t0), "improves-iff-below-the-target");
        if (better)
        {
            vp_cover("improved");
            vp_check_eq(t, val, "target-is-the-likelihood");
            vp_check_eq(f, 0., "central-cut");
        }
        else
        {
            vp_cover("worse");
            vp_check(t == t0, "target-untouched");
            vp_check_eq(f, val - t0, "cut-offset");
        }
    }
}
CASE mle_1_1() { mle(1, 1, 1); }
CASE mle_2_1() { mle(2, 1, 1); }
CASE mle_1_2() { mle(1, 2, 1); }
CASE mle_2_2() { mle(2, 2, 1); }
CASE mle_1_3() { mle(1, 3, 1); }
CASE mle_1_1twice() { mle(1, 1, 2); }
CASE mle_2_3() { mle(2, 3, 1); }
CASE mle_3_2() { mle(3, 2, 1); }
CASE mle_1_2twice() { mle(1, 2, 2); }
CASE mle_2_2twice() { mle(2, 2, 2); }
CASE mle_1_1thrice() { mle(1, 1, 3); }
CASE lsq_2_3() { lsq(2, 3, 1); }
CASE lsq_2_2twice() { lsq(2, 2, 2); }
CASE lsq_1_1thrice() { lsq(1, 1, 3); }
CASE sites_3_3_4() { sites(3, 3, 4); }
CASE sites_5_2_3() { sites(5, 2, 3); }
CASE sites_3_2_6() { sites(3, 2, 6); }
