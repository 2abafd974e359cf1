// Minimum cost-to-time cycle ratio.
#include "graph.hpp"
#include <netoptim/min_cycle_ratio.hpp>

struct Cycle
{
    std::vector<std::size_t> e; // ids in order of travel
};
// all simple cycles (by their lowest node)
static void walk(const Ends& E, std::size_t n, std::size_t start, std::size_t at, unsigned seen, Cycle& c, std::vector<Cycle>& out)
{
    for (std::size_t k = 0; k < E.size(); ++k)
    {
        if (E[k].first != at)
            continue;
        std::size_t v = E[k].second;
        c.e.push_back(k);
        if (v == start)
            out.push_back(c);
        else if (v > start && !(seen >> v & 1))
            walk(E, n, start, v, seen | 1u << v, c, out);
        c.e.pop_back();
    }
}
static std::vector<Cycle> cycles(std::size_t n, const Ends& E)
{
    std::vector<Cycle> out;
    for (std::size_t s = 0; s < n; ++s)
    {
        Cycle c;
        walk(E, n, s, s, 1u << s, c, out);
    }
    return out;
}
template <typename G>
static void ratio(const G& g, const Ends& E, bool symbolic_time, bool start, std::size_t limit)
{
    const std::size_t n = g.number_of_nodes(), m = E.size();
    std::vector<double> cost, time, dist;
    for (std::size_t k = 0; k < m; ++k)
    {
        cost.push_back(real("c", k));
        if (symbolic_time)
        {
            time.push_back(real("t", k));
            vp_assume(time[k] > 0);
        }
        else
            time.push_back(double(1 + vp_choice(nm("t", k).c_str(), 2)));
    }
    for (std::size_t i = 0; i < n; ++i)
        dist.push_back(start ? real("d", i) : 0.);
    double r0 = vp_real("r"), r = r0;
    using Ed = typename G::edge_t;
    std::size_t calls = 0;
    auto get_cost = [&](const Ed& e) -> double {
        if (++calls > 5000)
            vp_fail("terminates");
        return cost[g.id(e)];
    };
    auto get_time = [&](const Ed& e) -> double { return time[g.id(e)]; };
    auto C = limit ? min_cycle_ratio(g, r, get_cost, get_time, dist, limit) : min_cycle_ratio(g, r, get_cost, get_time, dist);
    if (C.empty())
    {
        vp_cover("no-better-cycle");
        vp_check(r == r0, "ratio-kept-without-a-cycle");
    }
    else
    {
        vp_cover("critical-cycle");
        double a = 0, b = 0;
        bool chain = true;
        for (std::size_t i = 0; i < C.size(); ++i)
        {
            a += cost[g.id(C[i])];
            b += time[g.id(C[i])];
            chain = chain && g.end_points(C[(i + 1) % C.size()]).second == g.end_points(C[i]).first;
        }
        vp_check(chain, "critical-cycle-is-closed");
        vp_check_eq(a, r * b, "ratio-attained-by-the-cycle");
        vp_check(r < r0, "ratio-below-the-start");
    }
    if (limit)
        return;
    for (auto& c : cycles(n, E))
    {
        double a = 0, b = 0;
        for (auto k : c.e)
        {
            a += cost[k];
            b += time[k];
        }
        vp_check(a >= r * b, "no-cycle-below-the-ratio");
    }
}
template <bool Boost>
static void go(std::size_t n, const Ends& E, bool st, bool start, std::size_t limit = 0)
{
    if constexpr (Boost)
    {
        auto g = make_bnet(n, E);
        ratio(g, E, st, start, limit);
    }
    else
    {
        auto g = make_net(n, E);
        ratio(g, E, st, start, limit);
    }
}
CASE loop1() { go<false>(1, {{0, 0}}, true, true); }
CASE loop2() { go<false>(1, {{0, 0}, {0, 0}}, true, false); }
CASE pair2() { go<false>(2, {{0, 1}, {1, 0}}, true, true); }
CASE pair3() { go<false>(2, {{0, 1}, {1, 0}, {1, 1}}, false, false); }
CASE bpair3() { go<true>(2, {{0, 1}, {1, 0}, {0, 1}}, false, false); }
CASE ring3() { go<false>(3, {{0, 1}, {1, 2}, {2, 0}}, true, false); }
CASE ring3back() { go<false>(3, {{0, 1}, {1, 2}, {2, 0}, {1, 0}}, false, false); }
CASE limit1() { go<false>(2, {{0, 1}, {1, 0}, {0, 0}}, false, false, 1); }
CASE limit2() { go<false>(2, {{0, 0}, {0, 0}, {1, 1}}, false, false, 2); }
CASE pair4() { go<false>(2, {{0, 1}, {1, 0}, {1, 1}, {0, 0}}, false, false); }
CASE k3() { go<false>(3, K3(), false, false); }
CASE pair3t() { go<false>(2, {{0, 1}, {1, 0}, {1, 1}}, true, false); }
CASE ring3t() { go<false>(3, {{0, 1}, {1, 2}, {2, 0}, {1, 0}}, true, false); }
CASE loop3() { go<false>(1, {{0, 0}, {0, 0}, {0, 0}}, true, false); }
CASE ring4() { go<false>(4, {{0, 1}, {1, 2}, {2, 3}, {3, 0}}, false, true); }
CASE pair3d() { go<false>(2, {{0, 1}, {1, 0}, {1, 1}}, false, true); }
CASE any2_3() { go<false>(2, any("e", 2, 3), false, false); }
