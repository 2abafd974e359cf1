// Fraction arithmetic and ordering over bounded integers.
#include "sym.h"
#include <cstdlib>
#include <py2cpp/fractions.hpp>
using F = fun::Fraction<int>;

static int num(const char* n, int b) { return (int)vp_int(n, -b, b); }
static int den(const char* n, int b)
{
    int d = num(n, b);
    vp_assume(d != 0);
    return d;
}
// common divisor check without calling the code under test
static void normal(const F& f)
{
    int n = f.numerator(), d = f.denominator();
    vp_check(d > 0, "denominator-positive");
    int m = n < 0 ? -n : n;
    bool reduced = n != 0 || d == 1;
    int a = m, b = d;
    while (b != 0)
    {
        int r = a % b;
        a = b;
        b = r;
    }
    vp_check(reduced && a == 1, "lowest-terms");
}
static void value(const F& f, int n, int d, const char* id)
{
    vp_check(f.numerator() * d == n * f.denominator(), id);
}
CASE make()
{
    int a = num("a", 30), b = den("b", 30);
    F f(a, b);
    normal(f);
    value(f, a, b, "value-of-construction");
    vp_cover("made");
}
template <int B, typename Op>
static void two(Op op)
{
    int a = num("a", B), b = den("b", B), c = num("c", B), d = den("d", B);
    op(F(a, b), F(c, d), a, b, c, d);
}
template <int B, typename Op>
static void one(Op op)
{
    int a = num("a", B), b = den("b", B), i = num("i", B);
    op(F(a, b), i, a, b);
}

#define BINARY(SUF, NB) \
CASE add##SUF() { two<NB>([](F x, F y, int a, int b, int c, int d) { F z = x + y; normal(z); value(z, a * d + b * c, b * d, "sum"); }); } \
CASE sub##SUF() { two<NB>([](F x, F y, int a, int b, int c, int d) { F z = x - y; normal(z); value(z, a * d - b * c, b * d, "difference"); }); } \
CASE mul##SUF() { two<NB>([](F x, F y, int a, int b, int c, int d) { F z = x * y; normal(z); value(z, a * c, b * d, "product"); }); } \
CASE quo##SUF() { two<NB>([](F x, F y, int a, int b, int c, int d) { vp_assume(c != 0); F z = x / y; normal(z); value(z, a * d, b * c, "quotient"); }); }
BINARY(, 4)
BINARY(_w, 6)
template <int B>
static void inplace_()
{
    two<B>([](F x, F y, int a, int b, int c, int d) {
        F z = x;
        long k = vp_choice("op", 4);
        vp_assume(k != 3 || c != 0);
        F& r = k == 0 ? (z += y) : k == 1 ? (z -= y) : k == 2 ? (z *= y) : (z /= y);
        vp_check(&r == &z, "in-place-returns-self");
        normal(z);
        if (k == 0)
            value(z, a * d + b * c, b * d, "in-place-sum");
        else if (k == 1)
            value(z, a * d - b * c, b * d, "in-place-difference");
        else if (k == 2)
            value(z, a * c, b * d, "in-place-product");
        else
            value(z, a * d, b * c, "in-place-quotient");
    });
}
CASE inplace() { inplace_<3>(); }
CASE inplace_w() { inplace_<5>(); }
template <int B>
static void scalar_()
{
    one<B>([](F x, int i, int a, int b) {
        F s = x + i, t = x - i, u = i + x, v = i - x;
        normal(s);
        normal(t);
        normal(u);
        normal(v);
        value(s, a + b * i, b, "sum-with-integer");
        value(t, a - b * i, b, "difference-with-integer");
        value(u, a + b * i, b, "integer-plus");
        value(v, b * i - a, b, "integer-minus");
        x += i;
        value(x, a + b * i, b, "in-place-sum-with-integer");
        normal(x);
        x -= i;
        value(x, a, b, "in-place-difference-with-integer");
        normal(x);
    });
}
CASE scalar() { scalar_<6>(); }
CASE scalar_w() { scalar_<12>(); }
template <int B>
static void scale_()
{
    one<B>([](F x, int i, int a, int b) {
        F p = x * i;
        normal(p);
        value(p, a * i, b, "product-with-integer");
        F r = i * x;
        normal(r);
        value(r, a * i, b, "integer-times");
        vp_assume(i != 0);
        F q = x / i;
        normal(q);
        value(q, a, b * i, "quotient-with-integer");
    });
}
CASE scale() { scale_<7>(); }
CASE scale_w() { scale_<12>(); }
CASE unary()
{
    int a = num("a", 30), b = den("b", 30);
    F x(a, b);
    F n = -x;
    normal(n);
    value(n, -a, b, "negation");
    F m = x.abs();
    normal(m);
    value(m, (a < 0) != (b < 0) ? -a : a, b, "absolute-value");
    vp_check(m.numerator() >= 0, "absolute-value-not-negative");
    F w(a);
    normal(w);
    value(w, a, 1, "value-of-an-integer");
    vp_assume(a != 0);
    F r = x;
    r.reciprocal();
    normal(r);
    value(r, b, a, "reciprocal");
    r.reciprocal();
    vp_check(r == x, "reciprocal-twice");
}
template <int B>
static void ordered()
{
    two<B>([](F x, F y, int a, int b, int c, int d) {
        int s = (b > 0) == (d > 0) ? 1 : -1, l = s * a * d, r = s * c * b;
        vp_check((x < y) == (l < r), "less");
        vp_check((x == y) == (l == r), "equal");
        vp_check((x > y) == (l > r), "greater");
        vp_check((x <= y) == (l <= r), "less-equal");
        vp_check((x >= y) == (l >= r), "greater-equal");
        vp_check((x != y) == (l != r), "not-equal");
        int k = x.cmp(y);
        vp_cover("ordered");
        vp_check((k < 0) == (l < r) && (k > 0) == (l > r), "cmp");
    });
}
CASE less() { ordered<6>(); }
CASE less_wide() { ordered<12>(); }
CASE less_scalar()
{
    one<15>([](F x, int i, int a, int b) {
        int l = b > 0 ? a : -a, r = b > 0 ? i * b : -i * b;
        vp_check((x < i) == (l < r), "less-than-integer");
        vp_check((x == i) == (l == r), "equal-to-integer");
        vp_check((x > i) == (l > r), "greater-than-integer");
        vp_check((x <= i) == (l <= r), "less-equal-integer");
        vp_check((x >= i) == (l >= r), "greater-equal-integer");
        vp_check((x != i) == (l != r), "not-equal-to-integer");
        vp_check((i < x) == (r < l) && (i > x) == (r > l) && (i == x) == (r == l), "integer-on-the-left");
    });
}
// what the network code does with it: sort out a chain of comparisons
CASE chain()
{
    int a = num("a", 4), b = den("b", 4), c = num("c", 4), d = den("d", 4), e = num("e", 3), f = den("f", 3);
    F x(a, b), y(c, d), z(e, f);
    if (x < y && y < z)
        vp_check(x < z, "transitive");
    if (!(x < y) && !(y < x))
        vp_check(x == y, "total");
}
