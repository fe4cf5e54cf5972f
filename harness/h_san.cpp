// C07: every entry point under the sanitizers, with caller-side maps and index maps that notice when they are used
// after their life has ended, leak accounting per case, and every emitted descriptor dereferenced after the return.
#include "vp_std.hpp"
#include "vp_gen.hpp"
#include "vp_runtime.hpp"
#include <boost/graph/graph_traits.hpp>
#include <boost/graph/adjacency_list.hpp>
#include <boost/property_map/property_map.hpp>
#include <boost/property_map/function_property_map.hpp>

// ---------------------------------------------------------------- lifetime-checked maps
namespace vp {
struct Life { // a heap cell owned by exactly one map object: dangling use is a use-after-free for ASan and valgrind, and fails here without them
    static const std::uint64_t ALIVE = 0xA11FEA11FEA11FE5ULL, DEAD = 0xDEADDEADDEADDEADULL;
    std::uint64_t *cell;
    Life() : cell(new std::uint64_t(ALIVE)) {}
    Life(const Life &o) : cell(new std::uint64_t(*o.cell)) { o.check(); }
    Life& operator=(const Life &o) { o.check(); check(); return *this; }
    ~Life() { check(); *cell = DEAD; delete cell; cell = nullptr; }
    void check() const {
        if (!cell || *cell != ALIVE) { std::fprintf(stderr, "SUMMARY: LifetimeSanitizer: use-of-a-map-whose-life-has-ended\n"); std::abort(); }
    }
};
template<class W> struct LG;
struct LIndexMap : boost::put_get_helper<std::size_t, LIndexMap> {
    typedef std::size_t key_type, value_type, reference;
    typedef boost::readable_property_map_tag category;
    Life life;
    std::size_t operator[](std::size_t v) const { life.check(); return v; }
};

template<class W> using Base = boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, W> >;
// an undirected adjacency list whose vertex index map is an object with state of its own
template<class W> struct LG : Base<W> {
    LG() {}
    explicit LG(std::size_t n) : Base<W>(n) {}
};
}
namespace boost {
template<class W> struct property_map<vp::LG<W>, vertex_index_t> { typedef vp::LIndexMap type; typedef vp::LIndexMap const_type; };
template<class W> vp::LIndexMap get(vertex_index_t, const vp::LG<W> &) { return vp::LIndexMap(); }
template<class W> vp::LIndexMap get(vertex_index_t, vp::LG<W> &) { return vp::LIndexMap(); }
template<class W> std::size_t get(vertex_index_t, const vp::LG<W> &, std::size_t v) { return v; }
}
#include <parmcb/config.hpp>
#include <parmcb/parmcb.hpp>
#include <parmcb/util.hpp>
#include <parmcb/sptrees.hpp>
#include <parmcb/forestindex.hpp>
#include <parmcb/detail/fvs.hpp>
#include <parmcb/detail/cycles.hpp>
#include <parmcb/detail/approx_spanner.hpp>
#ifdef VP_ASAN
#include <sanitizer/lsan_interface.h>
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#endif
using namespace vp;

// the caller's weight map: reads the weight stored in the graph the descriptor belongs to, and has a life of its own
template<class G> struct LWeight : boost::put_get_helper<typename boost::property_traits<typename boost::property_map<G, boost::edge_weight_t>::type>::value_type, LWeight<G> > {
    typedef typename boost::graph_traits<G>::edge_descriptor key_type;
    typedef typename boost::property_traits<typename boost::property_map<G, boost::edge_weight_t>::type>::value_type value_type;
    typedef value_type reference;
    typedef boost::readable_property_map_tag category;
    const G *g;
    Life life;
    explicit LWeight(const G &g) : g(&g) {}
    value_type operator[](const key_type &e) const { life.check(); return boost::get(boost::edge_weight, *g, e); }
};

static volatile double g_sink;
static const char *NAMES[] = { "mcb_sva_signed", "mcb_sva_fvs_trees", "mcb_sva_iso_trees", "mcb_sva_signed_tbb", "mcb_sva_fvs_trees_tbb", "mcb_sva_iso_trees_tbb",
        "approx_mcb_sva_signed", "approx_mcb_sva_fvs_trees", "approx_mcb_sva_iso_trees", "approx_mcb_sva_signed_tbb", "approx_mcb_sva_fvs_trees_tbb", "approx_mcb_sva_iso_trees_tbb" };
static bool is_tbb(int a) { return a % 6 >= 3; }

template<class G, class WM, class Out> double call(int a, const G &g, const WM &wm, std::size_t k, Out out) {
    switch (a) {
    case 0: return (double) parmcb::mcb_sva_signed(g, wm, out);
    case 1: return (double) parmcb::mcb_sva_fvs_trees(g, wm, out);
    case 2: return (double) parmcb::mcb_sva_iso_trees(g, wm, out);
    case 6: return (double) parmcb::approx_mcb_sva_signed(g, wm, k, out);
    case 7: return (double) parmcb::approx_mcb_sva_fvs_trees(g, wm, k, out);
    case 8: return (double) parmcb::approx_mcb_sva_iso_trees(g, wm, k, out);
#ifdef PARMCB_HAVE_TBB
    case 3: return (double) parmcb::mcb_sva_signed_tbb(g, wm, out);
    case 4: return (double) parmcb::mcb_sva_fvs_trees_tbb(g, wm, out);
    case 5: return (double) parmcb::mcb_sva_iso_trees_tbb(g, wm, out);
    case 9: return (double) parmcb::approx_mcb_sva_signed_tbb(g, wm, k, out);
    case 10: return (double) parmcb::approx_mcb_sva_fvs_trees_tbb(g, wm, k, out);
    case 11: return (double) parmcb::approx_mcb_sva_iso_trees_tbb(g, wm, k, out);
#endif
    }
    return 0;
}

template<class G> void fill(G &g, const AG &a) {
    typedef typename boost::property_traits<typename boost::property_map<G, boost::edge_weight_t>::type>::value_type W;
    for (int i = 0; i < a.n; i++) boost::add_vertex(g);
    for (int i = 0; i < a.m(); i++) {
        auto e = boost::add_edge(boost::vertex(a.e[i].first, g), boost::vertex(a.e[i].second, g), g).first;
        boost::put(boost::edge_weight, g, e, (W) a.w[i]);
    }
}

// returns false when the entry point threw (only k = 0 may)
template<class G> bool entry(int a, const AG &ag, std::size_t k) {
    typedef typename boost::graph_traits<G>::edge_descriptor Edge;
    std::list<std::list<Edge>> out;
    double ret = 0, seen = 0;
    std::unique_ptr<G> g(new G());
    fill(*g, ag);
    LWeight<G> wm(*g);
    bool threw = false;
    try {
        ret = call(a, *g, wm, k, std::back_inserter(out));
    } catch (const std::exception &ex) {
        threw = true;
        if (k != 0 || a < 6) rt().fail(cat(NAMES[a], ":exception"), cat("exception escaped: ", ex.what()));
    }
    // everything handed back must refer to live storage of the caller's graph
    for (auto &c : out)
        for (auto &e : c) {
            seen += (double) wm[e];
            seen += 0 * ((double) boost::source(e, *g) + (double) boost::target(e, *g));
            if (boost::source(e, *g) >= boost::num_vertices(*g) || boost::target(e, *g) >= boost::num_vertices(*g))
                rt().fail(cat(NAMES[a], ":foreign-edge"), "an emitted edge has an endpoint the graph does not have");
        }
    g_sink = ret + seen;
    return !threw;
}

// the component builders, used the way the algorithms use them; everything they return is read through afterwards
template<class G> void components(const AG &ag, std::size_t k) {
    typedef typename boost::graph_traits<G>::edge_descriptor Edge;
    typedef typename boost::graph_traits<G>::vertex_descriptor Vertex;
    typedef LWeight<G> WM;
    G g;
    fill(g, ag);
    WM wm(g);
    double x = 0;
    rt().stage("ForestIndex");
    {
        parmcb::ForestIndex<G> f(g);
        parmcb::ForestIndex<G> f2(f);
        for (std::size_t i = 0; i < boost::num_edges(g); i++) x += f2(f(i)) + f.is_on_forest(f2(i)) + wm[f(i)];
        x += f.cycle_space_dimension() + f.weak_connected_components();
    }
    rt().stage("greedy_fvs");
    {
        std::vector<Vertex> fvs;
        parmcb::greedy_fvs(g, std::back_inserter(fvs));
        for (auto v : fvs) x += boost::out_degree(v, g);
    }
    rt().stage("spanning_forest");
    {
        std::vector<Edge> f;
        x += parmcb::detail::spanning_forest(g, std::back_inserter(f));
        for (auto &e : f) x += wm[e];
    }
    rt().stage("SPTree");
    {
        std::vector<parmcb::SPTree<G, WM>> trees;
        for (int s = 0; s < ag.n; s++) trees.emplace_back(s, g, boost::get(boost::vertex_index, g), wm, (Vertex) s);
        for (auto &t : trees) {
            for (int v = 0; v < ag.n; v++) {
                auto nd = t.node(v);
                if (nd) { x += nd->weight() + nd->vertex() + t.first(v); if (nd->has_pred()) x += wm[nd->pred()]; }
            }
            for (auto &c : t.create_candidate_cycles()) x += (double) c.weight() + (double) wm[c.edge()] + (double) c.tree();
            std::set<Edge> s;
            for (auto e : boost::make_iterator_range(boost::edges(g))) if ((s.size() + ag.m()) % 2) s.insert(e);
            t.update_parities(s);
        }
    }
    rt().stage("cycle-collections");
    {
        std::vector<parmcb::SPTree<G, WM>> trees;
        std::vector<parmcb::CandidateCycle<G, WM>> cycles;
        parmcb::detail::HortonCyclesBuilder<G, WM> b;
        b(g, wm, trees, cycles);
        for (auto &c : cycles) x += (double) c.weight() + (double) trees.at(c.tree()).source();
    }
    {
        std::vector<parmcb::SPTree<G, WM>> trees;
        std::vector<parmcb::CandidateCycle<G, WM>> cycles;
        parmcb::detail::FVSCyclesBuilder<G, WM> b;
        b(g, wm, trees, cycles);
        for (auto &c : cycles) x += (double) c.weight() + (double) trees.at(c.tree()).source();
    }
    {
        std::vector<parmcb::SPTree<G, WM>> trees;
        std::vector<parmcb::CandidateCycle<G, WM>> cycles;
        parmcb::detail::ISOCyclesBuilder<G, WM> b;
        b(g, wm, trees, cycles);
        for (auto &c : cycles) x += (double) c.weight() + (double) trees.at(c.tree()).source();
    }
    rt().stage("validators");
    x += parmcb::has_loops(g) + parmcb::has_multiple_edges(g) + parmcb::has_non_positive_weights(g, wm);
    (void) k;
    g_sink = x;
}

static void dimacs(const AG &ag, Rng &r) {
    rt().stage("read_dimacs_from_file");
    std::string s = "c generated\n";
    s += cat("p edge ", ag.n, " ", ag.m(), "\n");
    for (int i = 0; i < ag.m(); i++) s += cat("e ", ag.e[i].first + 1, " ", ag.e[i].second + 1, " ", ag.w[i], "\n");
    if (r.chance(.3)) s.pop_back();
    FILE *fp = ::fmemopen((void*) s.data(), s.size(), "r");
    if (!fp) return;
    {
        Base<double> g;
        try { parmcb::read_dimacs_from_file(fp, g); } catch (const std::exception &ex) { rt().fail("read_dimacs_from_file:exception", ex.what()); }
        g_sink = boost::num_edges(g);
    }
    std::fclose(fp);
}

static std::size_t live_bytes() {
#ifdef VP_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

int main(int argc, char **argv) {
    rt().init(argc, argv);
    bool light = rt().opt.extra == "light";
#ifdef PARMCB_HAVE_TBB
    const bool tbb = true;
#else
    const bool tbb = false;
#endif
    if (tbb) { // let the scheduler allocate what it keeps for ever
        AG w = gen::complete(5); w.w.assign(w.m(), 1);
        for (int t = 0; t < 3; t++) for (int a = 0; a < 12; a++) entry<Base<double>>(a, w, 2);
    }
    return rt().loop([&](std::uint64_t i, Rng &r) {
        AG ag;
        int ex = light ? 3 : 4;
        if (i < gen::exhaustive_count(ex)) { ag = gen::exhaustive(i, ex); gen::weigh(ag, r); }
        else if (!light && gen::large_case(i, 150)) { ag = gen::moderate(r); rt().count("graphs.large"); }
        else { double x = r.unit(); ag = gen::any(r, x < .45 ? 0 : x < .9 ? 1 : light ? 1 : 2); }
        // int: keep every sum of weights far inside the type, so that an overflow is the library's own
        long long tot = std::accumulate(ag.w.begin(), ag.w.end(), 0LL);
        bool fits = tot < (1LL << 27);
        if (i % 4 == 3 && ag.m() && !gen::large_case(i, 150)) { gen::heavy(ag, r); fits = true; rt().count("graphs.int_weights_near_the_limit"); }
        rt().detail = ag.text();
        rt().note(rt().detail);
        if (ag.csd() >= 1 || ag.n <= 2) rt().distinct(ag.hash());
        if (ag.csd() >= 2) rt().sample(ag.text());
        rt().count(ag.n == 0 ? "graphs.empty" : ag.m() == 0 ? "graphs.edgeless" : ag.csd() == 0 ? "graphs.forest" : ag.components() > 1 ? "graphs.disconnected" : "graphs.connected");
        std::size_t ks[] = { 1, 2, 3, 0, 5, (std::size_t) ag.n, ~(std::size_t) 0 };
        auto one = [&](int a, std::size_t k, int gk) {
            rt().stage(NAMES[a]);
            rt().count(cat("runs.", NAMES[a], gk == 0 ? ".stateful-index" : gk == 1 ? ".double" : ".int"));
            if (gk == 0) entry<LG<double>>(a, ag, k);
            else if (gk == 1) entry<Base<double>>(a, ag, k);
            else entry<Base<int>>(a, ag, k);
        };
        for (int a = 0; a < 12; a++) {
            if (is_tbb(a) && (!tbb || (light && r.chance(.7)))) continue;
            std::size_t k = ks[r.below(7)];
            int gk = (int) r.below(fits ? 3 : 2);
            one(a, k, gk);
            if (a >= 6 && r.chance(.3)) one(a, 2, 0);
            if (!is_tbb(a) && r.chance(.25)) { // the same call once more must not leave a byte behind
                std::string d = rt().detail;
                std::size_t b0 = live_bytes();
                if (gk == 0) entry<LG<double>>(a, ag, k); else if (gk == 1) entry<Base<double>>(a, ag, k); else entry<Base<int>>(a, ag, k);
                std::size_t b1 = live_bytes();
                if (b1 > b0) { // rule out lazily allocated library statics: it must repeat
                    if (gk == 0) entry<LG<double>>(a, ag, k); else if (gk == 1) entry<Base<double>>(a, ag, k); else entry<Base<int>>(a, ag, k);
                    std::size_t b2 = live_bytes();
                    if (b2 - b1 == b1 - b0) rt().fail(cat(NAMES[a], ":leak"), cat("every call leaves ", b1 - b0, " bytes allocated (k=", k, ", graph type ", gk, ")"));
                }
                rt().count("leak_accounted_calls");
            }
        }
        if (r.chance(.5)) components<LG<double>>(ag, 2); else if (fits && r.chance(.5)) components<Base<int>>(ag, 2); else components<Base<double>>(ag, 2);
        rt().count("component_cases");
        if (r.chance(.3)) { dimacs(ag, r); rt().count("dimacs_cases"); }
#if defined(VP_ASAN)
        if (rt().opt.extra == "lsan" && i % 64 < 8) {
            rt().stage("leak-check");
            if (__lsan_do_recoverable_leak_check()) rt().fail("leak:lsan", "LeakSanitizer found unreachable allocations after this block of cases");
            rt().count("lsan_checks");
        }
#endif
    });
}
