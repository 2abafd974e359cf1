// Canonical signed digit strings.
#include "sym.h"
#include <cmath>
#include <string>
#include <string_view>
extern auto to_csd(double num, int places) noexcept -> std::string;
extern auto to_csdfixed(double num, unsigned int nnz) noexcept -> std::string;
extern auto to_decimal(std::string_view csd_str) noexcept -> double;

struct Reading
{
    double value; // what the digits stand for
    int digits, frac, nnz;
    double last; // weight of the last non-zero digit
};
// the format, and the value by the definition of a positional system
static Reading read(const std::string& s)
{
    Reading r {0., 0, 0, 0, 0.};
    bool point = false, prev = false, ok = !s.empty(), csd = true;
    int ints = 0;
    for (char c : s)
    {
        if (c == '.')
        {
            ok = ok && !point && ints > 0;
            point = true;
            continue;
        }
        ok = ok && (c == '0' || c == '+' || c == '-');
        bool nz = c != '0';
        csd = csd && !(nz && prev);
        prev = nz;
        ++r.digits;
        if (point)
            ++r.frac;
        else
            ++ints;
    }
    double w = 1.;
    for (int i = 1; i < ints; ++i)
        w *= 2.;
    for (char c : s)
    {
        if (c == '.')
            continue;
        if (c == '+' || c == '-')
        {
            r.value += c == '+' ? w : -w;
            r.last = w;
            ++r.nnz;
        }
        w /= 2.;
    }
    vp_check(ok, "format");
    vp_check(csd, "no-two-adjacent-non-zero-digits");
    return r;
}
static double power(int k)
{
    double w = 1.;
    for (; k > 0; --k)
        w /= 2.;
    return w;
}
template <int Bound, int Places>
static void csd()
{
    double num = vp_real("num");
    int places = (int)vp_choice("places", Places + 1);
    vp_assume(num >= -Bound && num <= Bound);
    std::string s = to_csd(num, places);
    Reading r = read(s);
    double e = num - r.value, tol = power(places) * 2. / 3.;
    vp_cover("converted");
    vp_check_le(e, tol, "error-above");
    vp_check_le(-e, tol, "error-below");
    vp_check(num == 0. || r.frac == places, "number-of-places");
    vp_check_eq(to_decimal(s), r.value, "read-back");
}
CASE csd_small() { csd<2, 5>(); }
CASE csd_mid() { csd<20, 2>(); }
CASE csd_wide() { csd<200, 0>(); }
CASE csd_tiny() { csd<1, 10>(); }
CASE csd_huge() { csd<2000, 0>(); }
CASE csd_deep() { csd<6, 7>(); }
// a number that has the requested places is represented exactly
template <int Bound, int Places>
static void exact()
{
    double num = (double)vp_int("k", -Bound, Bound) / (double)(1 << Places);
    std::string s = to_csd(num, Places);
    Reading r = read(s);
    vp_cover("exact");
    vp_check_eq(r.value, num, "exact-value");
    vp_check_eq(to_decimal(s), num, "exact-read-back");
    std::string t = to_csd(to_decimal(s), Places);
    vp_check(t == s, "canonical");
}
CASE exact0() { exact<40, 0>(); }
CASE exact3() { exact<60, 3>(); }
CASE exact7() { exact<500, 7>(); }
CASE exact5() { exact<200, 5>(); }
// any string of digits with at most one point
template <int Len>
static void reading()
{
    std::string s;
    int n = 1 + (int)vp_choice("length", Len);
    double v = 0., w = 1.;
    bool point = false;
    for (int i = 0; i < n; ++i)
    {
        long k = vp_choice("char", point ? 3 : 4);
        s += "0+-."[k];
        if (k == 3)
        {
            point = true;
            continue;
        }
        if (!point)
            v *= 2.;
        else
            w /= 2.;
        double d = k == 1 ? 1. : k == 2 ? -1. : 0.;
        v += point ? d * w : d;
    }
    vp_cover("read");
    vp_check_eq(to_decimal(s), v, "positional-value");
}
CASE decimal() { reading<5>(); }
CASE decimal_long() { reading<7>(); }

template <int Bound, int Places, int Nnz>
static void fixed_()
{
    double num = (double)vp_int("k", -Bound, Bound) / (double)(1 << Places);
    unsigned nnz = (unsigned)vp_choice("nnz", Nnz + 1);
    std::string s = to_csdfixed(num, nnz);
    Reading r = read(s);
    vp_check(r.nnz <= (int)nnz, "at-most-nnz");
    double e = num - r.value;
    vp_cover("fixed");
    if (r.nnz < (int)nnz)
        vp_check_eq(e, 0., "exact-when-digits-are-left");
    else if (nnz > 0)
    {
        vp_check_le(e, r.last / 3., "fixed-error-above");
        vp_check_le(-e, r.last / 3., "fixed-error-below");
    }
    vp_check_eq(to_decimal(s), r.value, "fixed-read-back");
}
CASE fixed2() { fixed_<30, 3, 2>(); }
CASE fixed3() { fixed_<60, 4, 3>(); }
CASE fixed4() { fixed_<200, 5, 4>(); }
CASE fixed5() { fixed_<500, 6, 6>(); }
