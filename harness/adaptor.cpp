// The Boost graph adaptor: every view must show the graph that was built.
#include "mat.hpp"
#include <boost/graph/adjacency_list.hpp>
#include <boost/graph/graph_traits.hpp>
#include <py2cpp/nx2bgl.hpp>
#include <utility>
#include <vector>

template <typename Dir>
using Graph = boost::adjacency_list<boost::vecS, boost::vecS, Dir, boost::no_property, boost::property<boost::edge_weight_t, double>>;

// what was built: the ends and the weight of each edge
struct Built
{
    int n, m;
    std::size_t u[8], v[8];
    double w[8];
};
template <typename Dir, bool undirected>
static void views(int n, int before, int after)
{
    Built b {n, 0};
    Graph<Dir> g0(n);
    auto pick = [&](const char* s, int i) {
        return std::size_t(vp_int(nm(s, i).c_str(), 0, n - 1));
    };
    for (int i = 0; i < before; ++i)
    {
        b.u[i] = pick("u", i);
        b.v[i] = pick("v", i);
        b.w[i] = real("w", i);
        boost::add_edge(b.u[i], b.v[i], b.w[i], g0);
        ++b.m;
    }
    xn::grAdaptor<Graph<Dir>> G(std::move(g0));
    vp_check(G.number_of_edges() == std::size_t(b.m), "edges-taken-over");
    for (int i = before; i < before + after; ++i)
    {
        b.u[i] = pick("u", i);
        b.v[i] = pick("v", i);
        b.w[i] = real("w", i);
        auto [e, fresh] = G.add_edge(b.u[i], b.v[i]);
        vp_check(fresh, "edge-added");
        auto [s, t] = G.end_points(e);
        vp_check(s == b.u[i] && t == b.v[i], "ends-of-the-new-edge");
        boost::put(boost::edge_weight, G, e, b.w[i]);
        ++b.m;
    }
    vp_cover("built");
    vp_check(G.number_of_nodes() == std::size_t(n), "number-of-nodes");
    vp_check(G.number_of_edges() == std::size_t(b.m), "number-of-edges");
    std::size_t k = 0;
    for (auto v : G)
    {
        vp_check(v == k, "nodes-in-order");
        vp_check(v != G.null_vertex(), "null-is-no-node");
        ++k;
        if (k > std::size_t(n))
            break;
    }
    vp_check(k == std::size_t(n), "every-node-once");
    k = 0;
    for (auto it = G.cbegin(); it != G.cend() && k <= std::size_t(n); ++it)
        vp_check(*it == k++, "nodes-in-order");
    vp_check(k == std::size_t(n), "every-node-once");
    // an edge that is seen is recognised by its ends and its weight
    auto match = [&](const auto& e, const char* id, bool* seen) {
        auto [s, t] = G.end_points(e);
        vp_check(s == G.source(e) && t == G.target(e), "ends-are-source-and-target");
        double w = boost::get(boost::edge_weight, G, e);
        for (int i = 0; i < b.m; ++i)
        {
            bool ends = (s == b.u[i] && t == b.v[i]) || (undirected && s == b.v[i] && t == b.u[i]);
            if (!seen[i] && ends && vp_eq(w, b.w[i]))
            {
                seen[i] = true;
                return;
            }
        }
        vp_fail(id);
    };
    bool seen[8] {}, seen2[8] {};
    int c = 0;
    const auto& C = G;
    for (auto e : C.edges())
    {
        match(e, "edge-of-the-graph", seen);
        if (++c > b.m)
            break;
    }
    vp_check(c == b.m, "every-edge-once");
    auto all = C.edges();
    c = 0;
    for (auto it = all.cbegin(); it != all.cend() && c <= b.m; ++it, ++c)
        match(*it, "edge-of-the-graph", seen2);
    vp_check(c == b.m, "every-edge-once");
    for (int v = 0; v < n; ++v)
    {
        bool near[8] {};
        int d = 0, want = 0;
        for (int i = 0; i < b.m; ++i)
        {
            bool out = b.u[i] == std::size_t(v), in = undirected && b.v[i] == std::size_t(v);
            want += out + in; // a loop of an undirected graph is met twice
        }
        for (auto e : C.neighbors(v))
        {
            auto [s, t] = G.end_points(e);
            vp_check(s == std::size_t(v), "neighbours-start-here");
            if (!(undirected && s == t))
                match(e, "neighbour-is-an-edge", near);
            if (++d > want)
                break;
        }
        vp_check(d == want, "every-neighbour-once");
        auto nb = C.neighbors(v);
        d = 0;
        for (auto it = nb.cbegin(); it != nb.cend() && d <= want; ++it)
            ++d;
        vp_check(d == want, "every-neighbour-once");
    }
    // the views are views: they follow the graph
    auto before_edges = C.edges();
    auto [e, fresh] = G.add_edge(0, n - 1);
    boost::put(boost::edge_weight, G, e, 1.);
    c = 0;
    for (auto x : before_edges)
    {
        (void)x;
        ++c;
    }
    vp_check(c == b.m + 1, "view-follows-the-graph");
}
CASE dir2() { views<boost::directedS, false>(2, 1, 1); }
CASE dir3() { views<boost::directedS, false>(3, 1, 2); }
CASE dir3b() { views<boost::directedS, false>(3, 2, 1); }
CASE bi2() { views<boost::bidirectionalS, false>(2, 1, 1); }
CASE bi3() { views<boost::bidirectionalS, false>(3, 1, 1); }
CASE bi3more() { views<boost::bidirectionalS, false>(3, 1, 2); }
CASE un2() { views<boost::undirectedS, true>(2, 1, 1); }
CASE un3() { views<boost::undirectedS, true>(3, 1, 1); }
CASE un3more() { views<boost::undirectedS, true>(3, 1, 2); }
CASE empty() { views<boost::directedS, false>(1, 0, 0); }
CASE dir4() { views<boost::directedS, false>(4, 1, 3); }
CASE bi4() { views<boost::bidirectionalS, false>(4, 1, 1); }
CASE un4() { views<boost::undirectedS, true>(4, 1, 1); }
