// Bridge between abstract graphs and boost graphs; checks of emitted cycle lists.
#pragma once
#include "vp_std.hpp"
#include "vp_gen.hpp"
#include "vp_oracle.hpp"
#include "vp_runtime.hpp"
#include <boost/graph/graph_traits.hpp>
#include <boost/graph/adjacency_list.hpp>
#include <boost/property_map/property_map.hpp>
#include <boost/property_map/function_property_map.hpp>
#include <boost/timer/timer.hpp>
namespace vp {

template<class W> using VecG = boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, W> >;
template<class W> using SetG = boost::adjacency_list<boost::setS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, W> >;
template<class W> using LstG = boost::adjacency_list<boost::listS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, W> >;

// the caller's weights live outside the graph; what the graph itself carries under edge_weight is something else
template<class OutEdges> using ExtG = boost::adjacency_list<OutEdges, boost::vecS, boost::undirectedS, boost::no_property,
        boost::property<boost::edge_weight_t, double, boost::property<boost::edge_index_t, int> > >;
template<class G> struct ExtMap : boost::put_get_helper<double, ExtMap<G> > { // readable, by value, state shared between copies
    typedef typename boost::graph_traits<G>::edge_descriptor key_type;
    typedef double value_type;
    typedef double reference;
    typedef boost::readable_property_map_tag category;
    const G *g = nullptr;
    std::shared_ptr<std::vector<double>> w;
    double operator[](const key_type &e) const { return w->at(boost::get(boost::edge_index, *g, e)); }
};
template<class G> struct WeightsOf { // how a caller of this graph type passes the weights
    typedef typename boost::property_map<G, boost::edge_weight_t>::type type;
    type map;
    explicit WeightsOf(G &g) : map(boost::get(boost::edge_weight, g)) {}
    void add(G &g, const typename boost::graph_traits<G>::edge_descriptor &e, int, double w) {
        boost::put(boost::edge_weight, g, e, (typename boost::property_traits<type>::value_type) w);
    }
};
template<class O> struct WeightsOf<ExtG<O> > {
    typedef ExtMap<ExtG<O> > type;
    type map;
    explicit WeightsOf(ExtG<O> &g) { map.g = &g; map.w = std::make_shared<std::vector<double>>(); }
    void add(ExtG<O> &g, const typename boost::graph_traits<ExtG<O> >::edge_descriptor &e, int i, double w) {
        boost::put(boost::edge_index, g, e, i);
        boost::put(boost::edge_weight, g, e, (double) (mix64(i + 5) % 97 + 1)); // a decoy, positive too
        if ((int) map.w->size() <= i) map.w->resize(i + 1);
        (*map.w)[i] = w;
    }
};

template<class G> struct Built {
    typedef typename boost::graph_traits<G>::edge_descriptor Edge;
    typedef typename boost::graph_traits<G>::vertex_descriptor Vertex;
    G g;
    std::vector<Edge> ed;
    std::map<Edge, int> id;
    const AG *ag = nullptr;
    double scale = 1; // the graph's weights are ag->w times this
    WeightsOf<G> weights;
    typedef typename WeightsOf<G>::type WM;
    Built() : weights(g) {}
    Built(const Built&) = delete;
    WM wm() const { return weights.map; }

    void build(const AG &a, double factor = 1.0) {
        typedef typename boost::property_traits<WM>::value_type W;
        ag = &a;
        scale = std::is_floating_point<W>::value ? a.scale * factor : 1.0;
        for (int i = 0; i < a.n; i++) boost::add_vertex(g);
        for (int i = 0; i < a.m(); i++) {
            Edge e = boost::add_edge(boost::vertex(a.e[i].first, g), boost::vertex(a.e[i].second, g), g).first;
            weights.add(g, e, i, (double) a.w[i] * scale);
            ed.push_back(e);
            id[e] = i;
        }
    }
    // edge index, or -1 if the descriptor does not denote an edge of this graph
    int index(const Edge &e) const {
        auto it = id.find(e);
        if (it == id.end()) return -1;
        auto p = ag->e[it->second];
        std::size_t s = e.m_source, t = e.m_target;
        if (!((s == (std::size_t) p.first && t == (std::size_t) p.second) || (s == (std::size_t) p.second && t == (std::size_t) p.first))) return -1;
        return it->second;
    }
};

typedef std::vector<std::vector<int>> Cycles;

template<class B, class List> Cycles to_cycles(const B &b, const List &cycles) {
    Cycles r;
    for (auto &c : cycles) {
        std::vector<int> v;
        for (auto &e : c) v.push_back(b.index(e));
        r.push_back(v);
    }
    return r;
}

// C01: exactly dim simple cycles, independent. Returns "" or a description.
inline std::string basis_error(const AG &g, const Cycles &cs) {
    int dim = g.csd();
    if ((int) cs.size() != dim) return cat("emitted ", cs.size(), " cycles, expected m-n+c=", dim);
    Gauss G(g.m());
    for (std::size_t i = 0; i < cs.size(); i++) {
        std::string s = simple_cycle(g, cs[i]);
        if (!s.empty()) {
            std::string l;
            for (int x : cs[i]) l += cat(" ", x);
            return cat("cycle #", i, " [", l, " ]: ", s);
        }
        Bits b = bits(g.m());
        for (int x : cs[i]) flip(b, x);
        if (!G.insert(b)) return cat("cycle #", i, " depends linearly on the previous ones");
    }
    return "";
}

inline std::vector<long long> cycle_weights(const AG &g, const Cycles &cs) {
    std::vector<long long> r;
    for (auto &c : cs) { long long s = 0; for (int i : c) if (i >= 0) s += g.w[i]; r.push_back(s); }
    std::sort(r.begin(), r.end());
    return r;
}
inline long long total(const std::vector<long long> &v) { return std::accumulate(v.begin(), v.end(), 0LL); }

// A counting, single-assignment-per-step output iterator (neither back_inserter nor raw pointer)
template<class T> struct SinkIter {
    typedef std::output_iterator_tag iterator_category;
    typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
    std::shared_ptr<std::vector<T>> store;
    std::size_t pos;
    SinkIter() : store(std::make_shared<std::vector<T>>()), pos(0) {}
    struct Proxy { SinkIter *it; const Proxy& operator=(const T &t) const {
        if (it->store->size() <= it->pos) it->store->resize(it->pos + 1);
        (*it->store)[it->pos] = t; return *this; } };
    // position-carrying: a copy of the iterator that is not advanced overwrites, as a raw pointer would
    struct Proxy2 { std::shared_ptr<std::vector<T>> store; std::size_t pos; const Proxy2& operator=(const T &t) const {
        if (store->size() <= pos) store->resize(pos + 1);
        (*store)[pos] = t; return *this; } };
    Proxy2 operator*() { return Proxy2 { store, pos }; }
    SinkIter& operator++() { ++pos; return *this; }
    SinkIter operator++(int) { SinkIter r = *this; ++pos; return r; }
};

} // vp
