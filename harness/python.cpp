// Python's containers in C++: range, enumerate, set, dict; half of a number.
#include "mat.hpp"
#include <ellcpp/half_nonnegative.hpp>
#include <py2cpp/py2cpp.hpp>
#include <stdexcept>
#include <vector>

// ------------------------------------------------------------------ ranges
template <typename T>
static void check_range(T start, T stop, T lo, bool one)
{
    auto R = one ? py::range(stop) : py::range(start, stop);
    const T top = stop < start ? start : stop;
    std::size_t k = 0;
    const auto E = R.end();
    for (auto x : R)
    {
        vp_check(x == T(start + T(k)) && x < top, "counts-up-from-start");
        vp_check(R[k] == x, "index");
        vp_check(R.contains(x), "contains-its-elements");
        ++k;
        if (k > 64)
            break;
    }
    vp_check(start + T(k) == top, "stops-at-stop");
    vp_check(R.size() == k, "size");
    vp_check(R.empty() == (k == 0), "empty");
    vp_check((R.begin() == E) == (k == 0) && (R.begin() != E) == (k != 0), "begin-and-end");
    T x = T(vp_int("x", long(lo), 70));
    vp_check(R.contains(x) == (start <= x && x < stop), "contains");
    vp_cover(k ? "elements" : "no-elements");
}
CASE range_int() { check_range<int>(int(vp_int("start", -6, 6)), int(vp_int("stop", -6, 6)), -70, false); }
CASE range_one() { check_range<int>(0, int(vp_int("stop", -6, 12)), -70, true); }
CASE range_size() { check_range<std::size_t>(std::size_t(vp_int("start", 0, 8)), std::size_t(vp_int("stop", 0, 8)), 0, false); }
CASE range_long() { check_range<long>(vp_int("start", -20, 20), vp_int("stop", -20, 20), -70, false); }

// -------------------------------------------------------------- enumerations
CASE enumerate()
{
    int n = int(vp_choice("n", 5));
    std::vector<double> v, w;
    for (int i = 0; i < n; ++i)
    {
        v.push_back(real("v", i));
        w.push_back(real("w", i));
    }
    std::size_t k = 0;
    const auto v0 = v;
    for (auto&& [i, x] : py::enumerate(v))
    {
        vp_check(i == k, "numbered-from-zero");
        vp_check_eq(x, v0[k], "element");
        x = w[k]; // the element itself, not a copy
        ++k;
    }
    vp_check(k == std::size_t(n), "every-element-once");
    for (int i = 0; i < n; ++i)
        vp_check_eq(v[i], w[i], "write-through");
    k = 0;
    const auto& c = v;
    for (auto&& [i, x] : py::enumerate(c))
    {
        vp_check(i == k, "numbered-from-zero");
        vp_check_eq(x, w[k], "element");
        ++k;
    }
    vp_check(k == std::size_t(n), "every-element-once");
    k = 0;
    for (auto&& [i, x] : py::enumerate(std::vector<double>(v)))
    { // a temporary lives as long as the loop
        vp_check(i == k, "numbered-from-zero");
        vp_check_eq(x, w[k], "element");
        ++k;
    }
    vp_check(k == std::size_t(n), "every-element-once");
    vp_cover(n ? "elements" : "no-elements");
}
CASE half()
{
    int a = int(vp_int("a", 0, 2147483647));
    vp_check(algo::half_nonnegative(a) == a / 2, "half-int");
    long b = vp_int("b", 0, 9223372036854775807L);
    vp_check(algo::half_nonnegative(b) == b / 2, "half-long");
    unsigned c = unsigned(vp_int("c", 0, 4294967295L));
    vp_check(algo::half_nonnegative(c) == c / 2, "half-unsigned");
    double d = vp_real("d");
    vp_check_eq(algo::half_nonnegative(d) * 2., d, "half-real");
    vp_cover("half");
}

// ---------------------------------------------------------------------- sets
constexpr int U = 3; // keys 0 .. U-1
static int key(const char* s, int i) { return int(vp_int(nm(s, i).c_str(), 0, U - 1)); }

struct Bag // what should be in it
{
    bool in[U] {};
    double v[U] {};
    std::size_t count() const
    {
        std::size_t c = 0;
        for (bool b : in)
            c += b;
        return c;
    }
};
static void same_set(const py::set<int>& S, const Bag& b)
{
    vp_check(py::len(S) == b.count() && S.size() == b.count(), "len");
    vp_check(S.empty() == (b.count() == 0), "empty");
    for (int k = 0; k < U; ++k)
    {
        vp_check(S.contains(k) == b.in[k], "contains");
        vp_check((k < S) == b.in[k], "in");
    }
    Bag seen;
    for (int k : S)
    {
        vp_check(k >= 0 && k < U, "element");
        for (int j = 0; j < U; ++j)
            if (j == k)
            {
                vp_check(b.in[j] && !seen.in[j], "element-once");
                seen.in[j] = true;
            }
    }
    vp_check(seen.count() == b.count(), "every-element");
}
static void put(Bag& b, int k, bool in)
{
    for (int j = 0; j < U; ++j)
        if (j == k)
            b.in[j] = in;
}
static void set_start(py::set<int>& S, Bag& b, int steps, const char* name)
{
    for (int i = 0; i < steps; ++i)
    {
        int k = key(name, i);
        bool had = false, put_in = vp_bool(nm((std::string(name) + "in").c_str(), i).c_str());
        for (int j = 0; j < U; ++j)
            had = had || (j == k && b.in[j]);
        if (put_in)
            vp_check(S.insert(k).second == !had, "insert-says-whether-new");
        else
            vp_check(S.erase(k) == std::size_t(had), "erase-says-whether-there");
        put(b, k, put_in);
    }
}
static void sets(int steps, int more)
{
    py::set<int> S;
    Bag b;
    same_set(S, b);
    set_start(S, b, steps, "k");
    same_set(S, b);
    auto T = S.copy();
    Bag c = b;
    set_start(T, c, more, "m");
    same_set(T, c);
    same_set(S, b); // the original does not notice
    py::set<int> M(std::move(T));
    same_set(M, c);
    S = std::move(M);
    same_set(S, c);
    vp_cover("set");
}
CASE set2() { sets(2, 1); }
CASE set3() { sets(3, 1); }
CASE set4() { sets(4, 2); }
CASE set_from()
{
    int a = key("a", 0), d = key("a", 1), e = key("a", 2);
    Bag b;
    put(b, a, true);
    put(b, d, true);
    put(b, e, true);
    same_set(py::set<int> {a, d, e}, b);
    std::vector<int> v {a, d, e};
    same_set(py::set<int>(v.begin(), v.end()), b);
    vp_cover("set");
}

// ---------------------------------------------------------------------- dicts
using Dict = py::dict<int, double>;
static void same_dict(const Dict& D, const Bag& b)
{
    vp_check(py::len(D) == b.count() && D.size() == b.count(), "len");
    for (int k = 0; k < U; ++k)
    {
        vp_check(D.contains(k) == b.in[k], "contains");
        vp_check((k < D) == b.in[k], "in");
        bool threw = false;
        double v = 0;
        try
        {
            v = D[k];
        }
        catch (const std::out_of_range&)
        {
            threw = true;
        }
        vp_check(threw == !b.in[k], "missing-key-throws");
        if (!threw)
            vp_check_eq(v, b.v[k], "value");
    }
    Bag seen, pairs;
    for (auto k : D) // the keys
    {
        vp_check(k >= 0 && k < U, "key");
        for (int j = 0; j < U; ++j)
            if (j == k)
            {
                vp_check(b.in[j] && !seen.in[j], "key-once");
                seen.in[j] = true;
            }
    }
    vp_check(seen.count() == b.count(), "every-key");
    for (auto& [k, v] : D.items())
    {
        for (int j = 0; j < U; ++j)
            if (j == k)
            {
                vp_check(b.in[j] && !pairs.in[j], "item-once");
                vp_check_eq(v, b.v[j], "item-value");
                pairs.in[j] = true;
            }
    }
    vp_check(pairs.count() == b.count(), "every-item");
}
static void dict_step(Dict& D, Bag& b, int i, const char* name)
{
    int k = key(name, i);
    double v = real((std::string(name) + "v").c_str(), i);
    int kk = 0;
    while (kk < k)
        ++kk; // the key as a plain number
    switch (vp_choice(nm((std::string(name) + "op").c_str(), i).c_str(), 5))
    {
        case 0:
            D[k] = v;
            b.in[kk] = true;
            b.v[kk] = v;
            break;
        case 1:
            vp_check(D.erase(k) == std::size_t(b.in[kk]), "erase-says-whether-there");
            b.in[kk] = false;
            break;
        case 2:
            vp_check_eq(D.get(k, v), b.in[kk] ? b.v[kk] : v, "get");
            break;
        case 3:
            vp_check_eq(D[k], b.in[kk] ? b.v[kk] : 0., "default-value");
            if (!b.in[kk])
                b.v[kk] = 0.;
            b.in[kk] = true;
            break;
        default:
            for (auto& [q, x] : D.items())
                x += v;
            for (double& x : b.v)
                x += v;
    }
}
static void dicts(int steps, int more)
{
    Dict D;
    Bag b;
    same_dict(D, b);
    for (int i = 0; i < steps; ++i)
        dict_step(D, b, i, "k");
    same_dict(D, b);
    auto T = D.copy();
    Bag c = b;
    for (int i = 0; i < more; ++i)
        dict_step(T, c, i, "m");
    same_dict(T, c);
    same_dict(D, b);
    Dict M(std::move(T));
    same_dict(M, c);
    D = std::move(M);
    same_dict(D, c);
    vp_cover("dict");
}
CASE dict1() { dicts(1, 1); }
CASE dict2() { dicts(2, 1); }
CASE dict3() { dicts(3, 1); }
CASE dict4() { dicts(3, 2); }
CASE dict_from()
{
    int k = key("k", 0), l = key("k", 1);
    double v = vp_real("v"), w = vp_real("w");
    const Dict D {{k, v}, {l, w}};
    Bag b;
    for (int j = U - 1; j >= 0; --j)
    { // the first of two equal keys counts
        if (j == l)
            b.in[j] = true, b.v[j] = w;
        if (j == k)
            b.in[j] = true, b.v[j] = v;
    }
    same_dict(D, b);
    vp_cover("dict");
}
