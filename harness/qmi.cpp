// Quadratic matrix inequality oracle: t I - F(x)'F(x) >= 0, F(x) = F0 - sum x_k F_k (n x m)
#include "mat.hpp"
#include <ellcpp/oracles/qmi_oracle.hpp>
#include <optional>
#include <vector>
using Cut = std::tuple<Arr, double>;

struct Ref
{
    int n, m, stop;
    double F[MAXM][MAXM], A[MAXM][MAXM], v[MAXM], ep;
    Ref(int n_, int m_, const Arr& F0, const std::vector<Arr>& Fs, const Arr& x, double t)
        : n {n_}
        , m {m_}
        , stop {m_}
    {
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < m; ++j)
            {
                F[i][j] = F0(i, j);
                for (std::size_t k = 0; k < Fs.size(); ++k)
                    F[i][j] -= Fs[k](i, j) * x(k);
            }
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < m; ++j)
            {
                A[i][j] = i == j ? t : 0.;
                for (int k = 0; k < n; ++k)
                    A[i][j] -= F[k][i] * F[k][j];
            }
        double U[MAXM][MAXM];
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < m; ++j)
                U[i][j] = A[i][j];
        for (int k = 0; k < m; ++k)
        {
            if (!(U[k][k] > 0))
            {
                stop = k;
                break;
            }
            for (int i = k + 1; i < m; ++i)
            {
                double f = U[i][k] / U[k][k];
                for (int j = k; j < m; ++j)
                    U[i][j] -= f * U[k][j];
            }
        }
        if (stop == m)
            return;
        v[stop] = 1;
        for (int i = stop - 1; i >= 0; --i)
        {
            v[i] = 0;
            for (int j = i + 1; j <= stop; ++j)
                v[i] -= U[i][j] * v[j];
            v[i] /= U[i][i];
        }
        ep = 0;
        for (int i = 0; i <= stop; ++i)
            for (int j = 0; j <= stop; ++j)
                ep -= v[i] * A[i][j] * v[j];
    }
    // (B v)_i over the failing block
    double times(const Arr& B, int i) const
    {
        double s = 0;
        for (int j = 0; j <= stop; ++j)
            s += B(i, j) * v[j];
        return s;
    }
    double timesF(int i) const
    {
        double s = 0;
        for (int j = 0; j <= stop; ++j)
            s += F[i][j] * v[j];
        return s;
    }
};
static void judge(int n, int m, int nx, const Arr& F0, const std::vector<Arr>& F, const Arr& x, double t,
    const std::optional<Cut>& cut)
{
    Ref r(n, m, F0, F, x, t);
    vp_check(!cut == (r.stop == m), "accepts-iff-positive-definite");
    if (!cut)
    {
        vp_cover("feasible");
        return;
    }
    vp_cover("cut");
    const auto& [g, ep] = *cut;
    vp_check(g.size() == std::size_t(nx), "gradient-size");
    vp_check(ep >= 0, "cut-not-behind-the-point");
    vp_check_eq(ep, r.ep, "cut-offset");
    // -v'A(z)v at any z exceeds the cut by a sum of squares, so points with A(z) >= 0 satisfy the cut
    Arr z = vec("z", nx);
    double lin = ep, h = 0, sq = 0;
    for (int k = 0; k < nx; ++k)
        lin += g(k) * (z(k) - x(k));
    for (int i = 0; i < n; ++i)
    {
        double a = r.times(F0, i), b = 0;
        for (int k = 0; k < nx; ++k)
        {
            a -= r.times(F[k], i) * z(k);
            b += r.times(F[k], i) * (z(k) - x(k));
        }
        h += a * a;
        sq += b * b;
    }
    for (int j = 0; j <= r.stop; ++j)
        h -= t * r.v[j] * r.v[j];
    vp_check_eq(h, lin + sq, "cut-keeps-every-feasible-point");
}
static void qmi(int n, int m, int nx, int rounds)
{
    std::vector<Arr> F;
    for (int k = 0; k < nx; ++k)
        F.push_back(mat(("F" + std::to_string(k) + "_").c_str(), n, m));
    Arr F0 = mat("B", n, m);
    auto F2 = F;
    qmi_oracle P(gsl::span<const Arr>(F2), F0);
    double t = 0;
    for (int i = 0; i < rounds; ++i)
    {
        if (i != 1) // second query: a new point with the same target
        {
            t = vp_real("t");
            P.update(t);
        }
        Arr x = vec("x", nx);
        judge(n, m, nx, F0, F, x, t, P(x));
    }
}
CASE qmi_1_1_1() { qmi(1, 1, 1, 1); }
CASE qmi_2_1_1() { qmi(2, 1, 1, 1); }
CASE qmi_1_2_1() { qmi(1, 2, 1, 1); }
CASE qmi_2_2_2() { qmi(2, 2, 2, 1); }
CASE qmi_2_3_1() { qmi(2, 3, 1, 1); }
CASE qmi_3_2_2() { qmi(3, 2, 2, 1); }
CASE qmi_2_3_2() { qmi(2, 3, 2, 1); }
CASE qmi_3_3_2() { qmi(3, 3, 2, 1); }
CASE qmi_3_3_1() { qmi(3, 3, 1, 1); }
CASE twice_1_1_1() { qmi(1, 1, 1, 3); }
CASE twice_2_2_1() { qmi(2, 2, 1, 2); }
CASE twice_2_2_2() { qmi(2, 2, 2, 2); }
