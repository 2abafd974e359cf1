// The three LMI oracles.
#include "mat.hpp"
#include <ellcpp/oracles/lmi0_oracle.hpp>
#include <ellcpp/oracles/lmi_old_oracle.hpp>
#include <ellcpp/oracles/lmi_oracle.hpp>
#include <optional>
#include <vector>
using Cut = std::tuple<Arr, double>;

// A(x) = F0 - sum x_k F_k (LMI) or sum x_k F_k (LMI0)
struct Ref
{
    int m, stop;
    double A[MAXM][MAXM], v[MAXM], ep;
    // direction that shows A is not positive definite: the leading block of the
    // first non-positive pivot, last component 1
    Ref(int m_, const Arr* F0, const std::vector<Arr>& F, const Arr& x)
        : m {m_}
        , stop {m_}
    {
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < m; ++j)
            {
                A[i][j] = F0 ? (*F0)(i, j) : 0.;
                for (std::size_t k = 0; k < F.size(); ++k)
                    A[i][j] += (F0 ? -1. : 1.) * F[k](i, j) * x(k);
            }
        double U[MAXM][MAXM]; // Gaussian elimination
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < m; ++j)
                U[i][j] = A[i][j];
        for (int k = 0; k < m; ++k)
        {
            if (!(U[k][k] > 0))
            {
                stop = k;
                break;
            }
            for (int i = k + 1; i < m; ++i)
            {
                double f = U[i][k] / U[k][k];
                for (int j = k; j < m; ++j)
                    U[i][j] -= f * U[k][j];
            }
        }
        if (stop == m)
            return;
        v[stop] = 1;
        for (int i = stop - 1; i >= 0; --i)
        {
            v[i] = 0;
            for (int j = i + 1; j <= stop; ++j)
                v[i] -= U[i][j] * v[j];
            v[i] /= U[i][i];
        }
        ep = 0;
        for (int i = 0; i <= stop; ++i)
            for (int j = 0; j <= stop; ++j)
                ep -= v[i] * A[i][j] * v[j];
    }
    double quad(const Arr& B) const
    {
        double s = 0;
        for (int i = 0; i <= stop; ++i)
            for (int j = 0; j <= stop; ++j)
                s += v[i] * B(i, j) * v[j];
        return s;
    }
};
static void judge(int m, int n, const Arr* F0, const std::vector<Arr>& F, const Arr& x, const std::optional<Cut>& cut)
{
    Ref r(m, F0, F, x);
    vp_check(!cut == (r.stop == m), "accepts-iff-positive-definite");
    if (!cut)
    {
        vp_cover("feasible");
        return;
    }
    vp_cover("cut");
    const auto& [g, ep] = *cut;
    vp_check(g.size() == std::size_t(n), "gradient-size");
    vp_check(ep >= 0, "cut-not-behind-the-point");
    vp_check_eq(ep, r.ep, "cut-offset");
    for (int k = 0; k < n; ++k)
        vp_check_eq(g(k), (F0 ? 1. : -1.) * r.quad(F[k]), "cut-gradient");
    // at any point z the cut is -v'A(z)v, so no point with A(z) >= 0 is lost
    Arr z = vec("z", n);
    double lhs = ep, rhs = F0 ? -r.quad(*F0) : 0.;
    for (int k = 0; k < n; ++k)
    {
        lhs += g(k) * (z(k) - x(k));
        rhs += (F0 ? 1. : -1.) * z(k) * r.quad(F[k]);
    }
    vp_check_eq(lhs, rhs, "cut-keeps-every-feasible-point");
}
static std::vector<Arr> mats(int n, int m)
{
    std::vector<Arr> F;
    for (int k = 0; k < n; ++k)
        F.push_back(symm(("F" + std::to_string(k) + "_").c_str(), m));
    return F;
}
template <typename O>
static void lmi(int n, int m, int rounds)
{
    auto F = mats(n, m);
    Arr F0 = symm("B", m);
    auto F2 = F;
    O P(gsl::span<const Arr>(F2), F0);
    for (int i = 0; i < rounds; ++i)
    {
        Arr x = vec("x", n);
        judge(m, n, &F0, F, x, P(x));
    }
}
static void lmi0(int n, int m, int rounds)
{
    auto F = mats(n, m);
    auto F2 = F;
    lmi0_oracle P {gsl::span<const Arr>(F2)};
    for (int i = 0; i < rounds; ++i)
    {
        Arr x = vec("x", n);
        judge(m, n, nullptr, F, x, P(x));
    }
}
CASE lmi_1_1() { lmi<lmi_oracle>(1, 1, 1); }
CASE lmi_1_2() { lmi<lmi_oracle>(1, 2, 1); }
CASE lmi_2_2() { lmi<lmi_oracle>(2, 2, 1); }
CASE lmi_3_2() { lmi<lmi_oracle>(3, 2, 1); }
CASE lmi_1_3() { lmi<lmi_oracle>(1, 3, 1); }
CASE lmi_2_3() { lmi<lmi_oracle>(2, 3, 1); }
CASE lmi_3_3() { lmi<lmi_oracle>(3, 3, 1); }
CASE lmi_2_2twice() { lmi<lmi_oracle>(2, 2, 2); }
CASE old_1_1() { lmi<lmi_old_oracle>(1, 1, 1); }
CASE old_2_2() { lmi<lmi_old_oracle>(2, 2, 1); }
CASE old_3_2() { lmi<lmi_old_oracle>(3, 2, 1); }
CASE old_2_3() { lmi<lmi_old_oracle>(2, 3, 1); }
CASE old_3_3() { lmi<lmi_old_oracle>(3, 3, 1); }
CASE old_2_2twice() { lmi<lmi_old_oracle>(2, 2, 2); }
CASE zero_1_1() { lmi0(1, 1, 1); }
CASE zero_2_2() { lmi0(2, 2, 1); }
CASE zero_3_2() { lmi0(3, 2, 1); }
CASE zero_2_3() { lmi0(2, 3, 1); }
CASE zero_3_3() { lmi0(3, 3, 1); }
CASE zero_2_2twice() { lmi0(2, 2, 2); }
