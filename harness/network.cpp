// Network, cycle-ratio and optimal-scaling oracles.
#include "graph.hpp"
#include <ellcpp/oracles/cycle_ratio_oracle.hpp>
#include <ellcpp/oracles/network_oracle.hpp>
#include <ellcpp/oracles/optscaling_oracle.hpp>
using Vec = std::vector<double>;

static Vec reals(const char* p, int n)
{
    Vec r;
    for (int i = 0; i < n; ++i)
        r.push_back(real(p, i));
    return r;
}
// u[v] - u[u] <= w(e) for every edge
template <typename G, typename W>
static bool holds(const G& g, const Vec& u, const W& w)
{
    for (auto e : g.edges())
    {
        auto [a, b] = g.end_points(e);
        if (!(u[b] <= u[a] + w(e)))
            return false;
    }
    return true;
}

// b_e - t + c_e x: affine in x, with a target
template <typename G>
struct Affine
{
    const G* g;
    const Vec *b, *c, *d;
    double t = 0;
    using edge_t = typename G::edge_t;
    void update(double s) { t = s; }
    double at(const edge_t& e, double x, double y) const { return (*b)[g->id(e)] - t + (*c)[g->id(e)] * x + (*d)[g->id(e)] * y; }
    double eval(const edge_t& e, const Arr& x) const { return at(e, x(0), x(1)); }
    Arr grad(const edge_t& e, const Arr&) const { return Arr {(*c)[g->id(e)], (*d)[g->id(e)]}; }
};
template <typename G>
static void network(const G& g, bool start, int rounds)
{
    const int n = g.number_of_nodes(), m = g.number_of_edges();
    Vec b = reals("b", m), c = reals("c", m), d = reals("e", m), u = start ? reals("u", n) : Vec(n, 0.);
    Affine<G> h {&g, &b, &c, &d};
    network_oracle<G, Vec, Affine<G>> P(g, u, h);
    for (int i = 0; i < rounds; ++i)
    {
        if (i)
        {
            h.t = vp_real("t");
            P.update(h.t);
        }
        Arr x = vec("x", 2);
        auto cut = P(x);
        if (!cut)
        {
            vp_cover("feasible");
            vp_check(holds(g, u, [&](const auto& e) { return h.eval(e, x); }), "feasible-with-these-potentials");
            continue;
        }
        vp_cover("cut");
        auto& [gr, f] = *cut;
        vp_check(gr.size() == 2, "gradient-size");
        vp_check(f > 0, "cut-excludes-the-point");
        Arr z = vec("z", 2);
        Vec p = reals("p", n);
        vp_assume(holds(g, p, [&](const auto& e) { return h.eval(e, z); }));
        vp_check(gr(0) * (z(0) - x(0)) + gr(1) * (z(1) - x(1)) + f <= 0, "cut-keeps-every-feasible-point");
    }
}
CASE net_loop() { network(make_net(1, {{0, 0}, {0, 0}}), false, 1); }
CASE net_pair() { network(make_net(2, {{0, 1}, {1, 0}, {1, 1}}), true, 1); }
CASE net_ring3() { network(make_net(3, {{0, 1}, {1, 2}, {2, 0}}), false, 1); }
CASE net_ring3c() { network(make_net(3, {{0, 1}, {1, 2}, {2, 0}, {1, 0}}), false, 1); }
CASE net_bpair() { network(make_bnet(2, {{0, 1}, {1, 0}}), true, 1); }
CASE net_twice() { network(make_net(2, {{0, 1}, {1, 0}}), false, 2); }
CASE net_k3() { network(make_net(3, K3()), false, 1); }

template <typename G>
static void cycle(const G& g, bool start, int rounds)
{
    const int n = g.number_of_nodes(), m = g.number_of_edges();
    Vec cost = reals("c", m), time = reals("s", m), u = start ? reals("u", n) : Vec(n, 0.);
    using E = typename G::edge_t;
    auto get_cost = [&](const E& e) { return cost[g.id(e)]; };
    auto get_time = [&](const E& e) { return time[g.id(e)]; };
    cycle_ratio_oracle<G, Vec, decltype(get_cost), decltype(get_time)> P(g, u, get_cost, get_time);
    double t = vp_real("t");
    for (int i = 0; i < rounds; ++i)
    {
        double x = vp_real("x"), t1 = t;
        auto [cut, ok] = P(x, t1);
        auto [gr, f] = cut;
        auto at = [&](double y) { return [&, y](const E& e) { return cost[g.id(e)] - time[g.id(e)] * y; }; };
        if (ok)
        {
            vp_cover("improved");
            vp_check(t1 == x && x > t, "target-raised-to-the-point");
            vp_check(holds(g, u, at(x)), "improvement-is-feasible");
            vp_check(f == 0, "objective-cut-passes-the-point");
        }
        else
        {
            vp_check(t1 == t, "target-kept-on-rejection");
            vp_check(f > 0 || x == t, "cut-excludes-the-point");
            vp_cover(x > t ? "cycle-cut" : "target-cut");
        }
        double z = vp_real("z");
        Vec p = reals("p", n);
        vp_assume(z >= t1);
        vp_assume(holds(g, p, at(z)));
        vp_check(gr * (z - x) + f <= 0, "cut-keeps-better-points");
        if (!ok && x > t)
            vp_check(!holds(g, p, at(x)), "rejected-point-is-infeasible");
        t = t1;
    }
}
CASE cyc_loop() { cycle(make_net(1, {{0, 0}, {0, 0}}), true, 1); }
CASE cyc_pair() { cycle(make_net(2, {{0, 1}, {1, 0}, {1, 1}}), true, 1); }
CASE cyc_ring3() { cycle(make_net(3, {{0, 1}, {1, 2}, {2, 0}, {1, 0}}), false, 1); }
CASE cyc_bpair() { cycle(make_bnet(2, {{0, 1}, {1, 0}}), true, 1); }
CASE cyc_twice() { cycle(make_net(2, {{0, 1}, {1, 0}}), false, 2); }
CASE cyc_k3() { cycle(make_net(3, K3()), false, 1); }

template <typename G>
static void scaling(const G& g, bool start, int rounds)
{
    const int n = g.number_of_nodes(), m = g.number_of_edges();
    Vec cost = reals("c", m), u = start ? reals("u", n) : Vec(n, 0.);
    using E = typename G::edge_t;
    auto get_cost = [&](const E& e) -> double { return cost[g.id(e)]; };
    optscaling_oracle<G, Vec, decltype(get_cost)> P(g, u, get_cost);
    double t = vp_real("t");
    for (int i = 0; i < rounds; ++i)
    {
        Arr x = vec("x", 2);
        double t1 = t;
        auto [cut, ok] = P(x, t1);
        auto& [gr, f] = cut;
        // forward edges bound the upper value, backward edges the lower one
        auto at = [&](double hi, double lo) {
            return [&, hi, lo](const E& e) {
                auto [a, b] = g.end_points(e);
                return a < b ? hi - cost[g.id(e)] : cost[g.id(e)] - lo;
            };
        };
        vp_check(gr.size() == 2, "gradient-size");
        if (ok)
        {
            vp_cover("improved");
            vp_check_eq(t1, x(0) - x(1), "target-is-the-ratio-here");
            vp_check(t1 < t, "target-improves");
            vp_check(holds(g, u, at(x(0), x(1))), "improvement-is-feasible");
            vp_check(f == 0, "objective-cut-passes-the-point");
        }
        else
        {
            vp_check(t1 == t, "target-kept-on-rejection");
            vp_check(f >= 0, "cut-not-behind-the-point");
            vp_cover("rejected");
        }
        Arr z = vec("z", 2);
        Vec p = reals("p", n);
        vp_assume(z(0) - z(1) <= t1);
        vp_assume(holds(g, p, at(z(0), z(1))));
        vp_check(gr(0) * (z(0) - x(0)) + gr(1) * (z(1) - x(1)) + f <= 0, "cut-keeps-better-points");
        if (!ok && x(0) - x(1) < t)
            vp_check(!holds(g, p, at(x(0), x(1))), "rejected-point-is-infeasible");
        t = t1;
    }
}
CASE sc_pair() { scaling(make_net(2, {{0, 1}, {1, 0}}), true, 1); }
CASE sc_ring3() { scaling(make_net(3, {{0, 1}, {1, 2}, {2, 0}}), false, 1); }
CASE sc_ring3c() { scaling(make_net(3, {{0, 1}, {1, 2}, {2, 0}, {1, 0}}), false, 1); }
CASE sc_bpair() { scaling(make_bnet(2, {{0, 1}, {1, 0}}), true, 1); }
CASE sc_twice() { scaling(make_net(2, {{0, 1}, {1, 0}}), false, 2); }
CASE sc_k3() { scaling(make_net(3, K3()), false, 1); }
