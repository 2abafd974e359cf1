// Negative cycle detection.
#include "graph.hpp"
#include <netoptim/neg_cycle.hpp>

// C: a closed walk listed against its direction, no node twice
template <typename G, typename E>
static void closed(const G& g, const std::vector<E>& C)
{
    bool simple = true, chain = true;
    for (std::size_t i = 0; i < C.size(); ++i)
    {
        auto [u, v] = g.end_points(C[i]);
        chain = chain && g.end_points(C[(i + 1) % C.size()]).second == u;
        for (std::size_t j = 0; j < i; ++j)
            simple = simple && g.end_points(C[j]).second != v;
    }
    vp_check(chain, "edges-form-a-closed-walk");
    vp_check(simple, "cycle-is-simple");
}
template <typename T, typename G, typename Dist>
static void once(const G& g, negCycleFinder<G>& S, Dist& dist, const std::vector<T>& w)
{
    using E = typename G::edge_t;
    const std::size_t n = g.number_of_nodes(), m = g.number_of_edges();
    std::size_t calls = 0;
    auto weight = [&](const E& e) -> T {
        if (++calls > 6 * (m + 1) * (n + 2))
            vp_fail("stops-within-a-few-passes");
        return w[g.id(e)];
    };
    std::vector<T> before(n);
    for (std::size_t i = 0; i < n; ++i)
        before[i] = dist[i];
    auto C = S.find_neg_cycle(dist, weight);
    for (std::size_t i = 0; i < n; ++i)
        vp_check(dist[i] <= before[i], "potential-only-falls");
    if (C.empty())
    {
        vp_cover("no-cycle");
        for (auto e : g.edges())
        {
            auto [u, v] = g.end_points(e);
            vp_check(dist[v] <= dist[u] + w[g.id(e)], "potential-satisfies-every-edge");
        }
        return;
    }
    vp_cover("cycle");
    if (C.size() > 1)
        vp_cover("long-cycle");
    closed(g, C);
    T tot = 0;
    for (auto& e : C)
        tot += w[g.id(e)];
    vp_check(tot < 0, "cycle-weight-negative");
}
static std::vector<double> reals(const char* p, int n)
{
    std::vector<double> r;
    for (int i = 0; i < n; ++i)
        r.push_back(real(p, i));
    return r;
}
static std::vector<long> ints(const char* p, int n, long lo, long hi)
{
    std::vector<long> r;
    for (int i = 0; i < n; ++i)
        r.push_back(vp_int(nm(p, i).c_str(), lo, hi));
    return r;
}
template <typename G>
static void find(const G& g, bool start, int rounds)
{
    const int n = g.number_of_nodes(), m = g.number_of_edges();
    negCycleFinder<G> S(g);
    auto dist = start ? reals("d", n) : std::vector<double>(n, 0.);
    for (int i = 0; i < rounds; ++i)
        once<double>(g, S, dist, reals("w", m));
}
template <typename G>
static void findi(const G& g, long b)
{
    const int n = g.number_of_nodes(), m = g.number_of_edges();
    negCycleFinder<G> S(g);
    auto dist = std::vector<long>(n, 0);
    once<long>(g, S, dist, ints("w", m, -b, b));
}
CASE all_2_2() { find(make_net(2, any("e", 2, 2)), true, 1); }
CASE all_2_3() { find(make_net(2, any("e", 2, 3)), false, 1); }
CASE all_3_2() { find(make_net(3, any("e", 3, 2)), true, 1); }
CASE all_3_3() { find(make_net(3, any("e", 3, 3)), false, 1); }
CASE k3() { find(make_net(3, K3()), false, 1); }
CASE k3start() { find(make_net(3, {{0, 1}, {1, 2}, {2, 0}, {1, 0}}), true, 1); }
CASE bk3() { find(make_bnet(3, {{0, 1}, {1, 2}, {2, 0}, {0, 0}, {0, 2}}), false, 1); }
CASE ring4() { find(make_net(4, {{2, 3}, {1, 2}, {0, 1}, {3, 0}}), false, 1); }
CASE ring4chord() { find(make_net(4, {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {2, 0}}), false, 1); }
CASE ring5() { find(make_net(5, {{3, 4}, {2, 3}, {1, 2}, {0, 1}, {4, 0}}), false, 1); }
CASE two2() { find(make_net(4, {{0, 1}, {1, 0}, {2, 3}, {3, 2}}), false, 1); }
CASE int3() { findi(make_net(3, {{0, 1}, {1, 2}, {2, 0}, {1, 0}}), 9); }
CASE bint3() { findi(make_bnet(3, {{0, 1}, {1, 2}, {2, 0}}), 9); }
CASE twice2() { find(make_net(2, {{0, 1}, {1, 0}, {1, 1}}), false, 2); }
CASE twice3() { find(make_net(3, {{0, 1}, {1, 2}, {2, 0}}), false, 2); }
CASE none() { find(make_net(2, {}), true, 1); }
CASE all_3_4() { find(make_net(3, any("e", 3, 4)), false, 1); }
CASE all_2_4() { find(make_net(2, any("e", 2, 4)), false, 1); }
CASE k3d() { find(make_net(3, K3()), true, 1); }
CASE k3twice() { find(make_net(3, {{0, 1}, {1, 2}, {2, 0}, {1, 0}}), false, 2); }
CASE k4() { find(make_net(4, {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {1, 0}, {0, 2}, {3, 1}}), false, 1); }
