// Small directed graphs for the network harnesses: a plain one and the
// repository's adaptor over a Boost graph.
#pragma once
#include "mat.hpp"
#include <boost/graph/adjacency_list.hpp>
#include <boost/graph/graph_traits.hpp>
#include <py2cpp/nx2bgl.hpp>
#include <py2cpp/py2cpp.hpp>
#include <utility>
#include <vector>

using Ends = std::vector<std::pair<std::size_t, std::size_t>>;

struct Net
{
    using node_t = std::size_t;
    using edge_t = std::size_t;
    std::size_t n;
    Ends E;
    struct It
    {
        std::size_t i;
        std::size_t operator*() const { return i; }
        It& operator++()
        {
            ++i;
            return *this;
        }
        bool operator!=(const It& o) const { return i != o.i; }
        bool operator==(const It& o) const { return i == o.i; }
    };
    struct Span
    {
        std::size_t m;
        It begin() const { return {0}; }
        It end() const { return {m}; }
    };
    It begin() const { return {0}; }
    It end() const { return {n}; }
    Span edges() const { return {E.size()}; }
    std::pair<node_t, node_t> end_points(const edge_t& e) const { return E[e]; }
    std::size_t number_of_nodes() const { return n; }
    std::size_t number_of_edges() const { return E.size(); }
    static node_t null_vertex() { return std::size_t(-1); }
    std::size_t id(const edge_t& e) const { return e; }
};
static inline Net make_net(std::size_t n, Ends E) { return Net {n, std::move(E)}; }

using bg_t = boost::adjacency_list<boost::vecS, boost::vecS, boost::directedS, boost::no_property,
    boost::property<boost::edge_index_t, std::size_t>>;
struct BNet : xn::grAdaptor<bg_t>
{
    using xn::grAdaptor<bg_t>::grAdaptor;
    std::size_t id(const edge_t& e) const { return boost::get(boost::edge_index, *this, e); }
};
static inline BNet make_bnet(std::size_t n, const Ends& E)
{
    bg_t g(n);
    std::size_t k = 0;
    for (auto& e : E)
        boost::add_edge(e.first, e.second, bg_t::edge_property_type {k++}, g);
    return BNet(std::move(g));
}
// topologies
static inline Ends K3() { return {{0, 1}, {1, 0}, {1, 2}, {2, 1}, {2, 0}, {0, 2}}; }
// every topology with m edges on n nodes
static inline Ends any(const char* nm_, int n, int m)
{
    Ends E;
    for (int i = 0; i < m; ++i)
    {
        std::size_t a = vp_choice(nm((std::string(nm_) + "a").c_str(), i).c_str(), n);
        std::size_t b = vp_choice(nm((std::string(nm_) + "b").c_str(), i).c_str(), n);
        E.emplace_back(a, b);
    }
    return E;
}
