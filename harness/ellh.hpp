// shared by the ellipsoid harnesses
#pragma once
#include "sym.h"
#include <cmath>
#include <ellcpp/cut_config.hpp>
#include <ellcpp/ell.hpp>
#include <string>
#include <tuple>
using Arr = xt::xarray<double, xt::layout_type::row_major>;

// ell with its protected state made visible
struct Ell : ell
{
    Ell(double kappa, Arr Q, Arr x)
        : ell(kappa, std::move(Q), std::move(x))
    {
    }
    double P(int i, int j) const { return _kappa * _Q(i, j); }
};

static inline std::string nm(const char* p, int i) { return std::string(p) + std::to_string(i); }
static inline std::string nm(const char* p, int i, int j) { return nm(p, i) + std::to_string(j); }
static inline double real(const char* p, int i) { return vp_real(nm(p, i).c_str()); }
static inline double real(const char* p, int i, int j) { return vp_real(nm(p, i, j).c_str()); }

static inline Arr vec(const char* p, int n)
{
    Arr x = xt::zeros<double>({std::size_t(n)});
    for (int i = 0; i < n; ++i)
        x(i) = real(p, i);
    return x;
}
static inline Arr symm(const char* p, int n)
{
    Arr Q = xt::zeros<double>({std::size_t(n), std::size_t(n)});
    for (int i = 0; i < n; ++i)
        for (int j = 0; j <= i; ++j)
            Q(i, j) = Q(j, i) = real(p, i, j);
    return Q;
}
