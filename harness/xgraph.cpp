// XNetwork graphs: whatever the history, the graph holds the edges that were added.
#include "mat.hpp"
#include <xnetwork/classes/digraphs.hpp>
#include <xnetwork/classes/graph.hpp>
#include <utility>
#include <vector>

using Nodes = decltype(py::range<int>(1));
using Plain = xn::SimpleGraph;
using Weighted = xn::Graph<Nodes, py::dict<int, int>>;
using Arcs = xn::SimpleDiGraphS;
using PlainArcs = xn::DiGraphS<Nodes, py::set<int>>;
constexpr int M = 4;

struct Model // what should be in it
{
    int n;
    bool directed, in[M][M] {};
    int w[M][M] {};
    void add(int u, int v)
    {
        in[u][v] = true;
        if (!directed)
            in[v][u] = true, w[v][u] = w[u][v];
    }
    void add(int u, int v, int d)
    {
        w[u][v] = d;
        add(u, v);
    }
    std::size_t degree(int u) const
    {
        std::size_t k = 0;
        for (int v = 0; v < n; ++v)
            k += in[u][v];
        return k;
    }
    std::size_t edges() const
    {
        std::size_t k = 0;
        for (int u = 0; u < n; ++u)
            for (int v = directed ? 0 : u; v < n; ++v)
                k += in[u][v];
        return k;
    }
};

template <typename G>
constexpr bool has_data = !std::is_same<typename G::key_type, typename G::value_type>::value;

template <typename G>
static void same(G& g, const Model& m, bool directed)
{
    vp_check(g.number_of_nodes() == std::size_t(m.n) && g.order() == std::size_t(m.n), "number-of-nodes");
    vp_check(g.number_of_edges() == m.edges(), "number-of-edges");
    vp_check(g.is_directed() == directed && !g.is_multigraph(), "kind");
    int k = 0;
    for (auto u : g)
    {
        vp_check(u == k, "nodes-in-order");
        vp_check(g.contains(u) && g.has_node(u), "its-nodes");
        vp_check(u != g.null_vertex(), "null-is-no-node");
        if (++k > m.n)
            break;
    }
    vp_check(k == m.n, "every-node-once");
    vp_check(!g.has_node(m.n) && !g.contains(-1), "nothing-else-is-a-node");
    const auto& c = g;
    for (int u = 0; u < m.n; ++u)
    {
        vp_check(c.degree(u) == m.degree(u), "degree");
        bool seen[M] {};
        auto take = [&](int v) {
            vp_check(0 <= v && v < m.n && m.in[u][v] && !seen[v], "neighbour");
            seen[v] = true;
        };
        std::size_t count = 0;
        for (auto v : g[u])
        {
            take(v);
            ++count;
        }
        vp_check(count == m.degree(u), "every-neighbour-once");
        for (int v = 0; v < m.n; ++v)
        {
            vp_check(g.has_edge(u, v) == m.in[u][v], "has-edge");
            vp_check(c[u].contains(v) == m.in[u][v] && c.adj()[u].contains(v) == m.in[u][v], "adjacency");
            if constexpr (has_data<G>)
                if (m.in[u][v])
                {
                    vp_check(c[u].at(v) == m.w[u][v], "data");
                    vp_check(g[u][v] == m.w[u][v], "data");
                }
        }
        vp_check(!g.has_edge(u, m.n) && !g.has_edge(m.n, u), "no-edge-to-a-stranger");
    }
    std::size_t rows = 0;
    for (auto&& [u, nbrs] : c._nodes_nbrs())
    {
        vp_check(u == rows && nbrs.size() == m.degree(int(u)), "nodes-and-neighbours");
        ++rows;
    }
    vp_check(rows == std::size_t(m.n), "nodes-and-neighbours");
}
template <typename G>
static void arcs(G& g, const Model& m)
{
    const auto& c = g;
    for (int u = 0; u < m.n; ++u)
    {
        for (int v = 0; v < m.n; ++v)
        {
            vp_check(g.has_successor(u, v) == m.in[u][v], "has-successor");
            vp_check(c.succ()[u].contains(v) == m.in[u][v], "succ");
        }
        vp_check(g.successors(u).size() == m.degree(u) && c.successors(u).size() == m.degree(u), "successors");
        vp_check(!g.has_successor(m.n, u) && !g.has_successor(u, m.n), "no-arc-to-a-stranger");
    }
}
static int node(const char* s, int i, int n) { return int(vp_int(nm(s, i).c_str(), 0, n - 1)); }

template <typename G>
static void history(int n, int steps, bool directed, bool moved)
{
    G g0(n);
    Model m {n, directed};
    auto step = [&](auto& g, int i) {
        int u = node("u", i, n), v = node("v", i, n);
        if constexpr (has_data<G>)
        {
            const int kind = int(vp_choice(nm("op", i).c_str(), 3));
            if (kind == 0)
            {
                g.add_edge(u, v);
                m.add(u, v);
                return;
            }
            const int d = int(vp_int(nm("d", i).c_str(), -1000, 1000));
            if (kind == 1)
            {
                g.add_edge(u, v, d);
                m.add(u, v, d);
                return;
            }
            std::vector<std::pair<int, int>> es {{u, v}, {(u + 1) % n, v}};
            std::vector<int> ds {d, d + 1};
            g.add_edges_from(es, ds);
            m.add(u, v, d);
            m.add((u + 1) % n, v, d + 1);
        }
        else
        {
            g.add_edge(u, v);
            m.add(u, v);
        }
    };
    for (int i = 0; i < steps; ++i)
        step(g0, i);
    vp_cover("built");
    if (!moved)
        same(g0, m, directed);
    if constexpr (std::is_base_of<Arcs, G>::value || std::is_base_of<PlainArcs, G>::value)
        arcs(g0, m);
    if (!moved)
        return;
    G* old = new G(std::move(g0));
    G g(std::move(*old));
    delete old;
    step(g, steps);
    same(g, m, directed);
    if constexpr (std::is_base_of<Arcs, G>::value || std::is_base_of<PlainArcs, G>::value)
        arcs(g, m);
}
CASE plain() { history<Plain>(3, 3, false, false); }
CASE weighted() { history<Weighted>(3, 2, false, false); }
CASE arcs_() { history<Arcs>(3, 2, true, false); }
CASE plain_arcs() { history<PlainArcs>(3, 3, true, false); }
CASE moved() { history<Plain>(3, 1, false, true); }
CASE moved_arcs() { history<Arcs>(2, 1, true, true); }
CASE moved_plain_arcs() { history<PlainArcs>(3, 1, true, true); }
CASE more_plain() { history<Plain>(4, 3, false, true); }
CASE more_weighted() { history<Weighted>(3, 2, false, true); }
CASE more_arcs() { history<Arcs>(3, 2, true, true); }
CASE more_plain_arcs() { history<PlainArcs>(4, 3, true, true); }

// removing everything, from any small graph
template <typename G>
static void cleared(bool directed)
{
    G g(2);
    for (int i = 0; i < 2; ++i)
        g.add_edge(node("u", i, 2), node("v", i, 2));
    g.clear();
    Model m {2, directed};
    vp_cover("built");
    same(g, m, directed);
    int u = node("u", 2, 2), v = node("v", 2, 2);
    g.add_edge(u, v);
    m.add(u, v);
    same(g, m, directed);
}
CASE clear() { cleared<Plain>(false); }
CASE clear_weighted() { cleared<Weighted>(false); }
CASE clear_arcs() { cleared<Arcs>(true); }

// nodes by any container: an explicit range
CASE from_nodes()
{
    int n = int(vp_choice("n", 4));
    Plain g(py::range<int>(n));
    Arcs h(py::range<int>(n));
    Model m {n, false}, d {n, true};
    vp_cover("built");
    same(g, m, false);
    same(h, d, true);
    arcs(h, d);
}
// the name
CASE name()
{
    Plain g(2);
    vp_check(g.get_name().size() == 0, "no-name");
    g.set_name("first");
    vp_check(g.get_name() == "first", "name");
    g.set_name("second");
    vp_check(g.get_name() == "second", "name");
    Plain h(std::move(g));
    vp_check(h.get_name() == "second", "name-moves-along");
    h.clear();
    vp_check(h.get_name().size() == 0, "name-removed");
    vp_cover("built");
}
