// C07: independent callers. Several threads call sequential entry points at the same time, on one graph nobody changes
// and on graphs of their own; ThreadSanitizer judges the accesses, and every answer must be the one a lone caller gets.
#include "vp_std.hpp"
#include "vp_graph.hpp"
#include "vp_runtime.hpp"
#include <parmcb/parmcb.hpp>
#include <parmcb/util.hpp>
#include <parmcb/sptrees.hpp>
#include <parmcb/forestindex.hpp>
#include <parmcb/spvecgf2.hpp>
#include <parmcb/detail/fvs.hpp>
#include <parmcb/detail/cycles.hpp>
using namespace vp;

typedef boost::graph_traits<VecG<double>>::edge_descriptor Edge;
typedef boost::property_map<VecG<double>, boost::edge_weight_t>::const_type WM;
static const char *OPS[] = { "mcb_sva_signed", "mcb_sva_fvs_trees", "mcb_sva_iso_trees", "approx_mcb_sva_signed", "approx_mcb_sva_fvs_trees", "approx_mcb_sva_iso_trees",
        "ForestIndex", "greedy_fvs", "SPTree", "cycle builders", "read_dimacs_from_file", "SpVecGF2", "validators" };
static const int NOPS = 13;

static std::string dimacs(const AG &ag) {
    std::string s = cat("p edge ", ag.n, " ", ag.m(), "\n");
    for (int i = 0; i < ag.m(); i++) s += cat("e ", ag.e[i].first + 1, " ", ag.e[i].second + 1, " ", ag.w[i], "\n");
    return s;
}
static VecG<double> build(const AG &ag) {
    VecG<double> g;
    for (int i = 0; i < ag.n; i++) boost::add_vertex(g);
    for (int i = 0; i < ag.m(); i++) boost::put(boost::edge_weight, g, boost::add_edge(ag.e[i].first, ag.e[i].second, g).first, (double) ag.w[i]);
    return g;
}
static std::size_t id_of(const VecG<double> &g, const Edge &e) { return boost::source(e, g) + boost::target(e, g) + boost::source(e, g) * boost::target(e, g) * 131; }

template<class F> std::uint64_t mcb(const VecG<double> &g, F f) {
    std::list<std::list<Edge>> out;
    double total = f(std::back_inserter(out));
    // which of several minimum bases comes out may depend on where the graph's edges lie in memory: the weight may not
    std::uint64_t h = mix64((std::uint64_t) (long long) total) ^ out.size();
    double sum = 0;
    for (auto &c : out) for (auto &e : c) sum += boost::get(boost::edge_weight, g, e);
    h ^= sum == total ? 0 : 1ULL << 63;
    return h;
}

// the answer, as one number
static std::uint64_t act(int op, std::size_t k, const VecG<double> &g, const std::string &text) {
    WM wm = boost::get(boost::edge_weight, g);
    std::uint64_t h = 0;
    switch (op) {
    case 0: return mcb(g, [&](std::back_insert_iterator<std::list<std::list<Edge>>> o) { return parmcb::mcb_sva_signed(g, wm, o); });
    case 1: return mcb(g, [&](std::back_insert_iterator<std::list<std::list<Edge>>> o) { return parmcb::mcb_sva_fvs_trees(g, wm, o); });
    case 2: return mcb(g, [&](std::back_insert_iterator<std::list<std::list<Edge>>> o) { return parmcb::mcb_sva_iso_trees(g, wm, o); });
    case 3: return mcb(g, [&](std::back_insert_iterator<std::list<std::list<Edge>>> o) { return parmcb::approx_mcb_sva_signed(g, wm, k, o); });
    case 4: return mcb(g, [&](std::back_insert_iterator<std::list<std::list<Edge>>> o) { return parmcb::approx_mcb_sva_fvs_trees(g, wm, k, o); });
    case 5: return mcb(g, [&](std::back_insert_iterator<std::list<std::list<Edge>>> o) { return parmcb::approx_mcb_sva_iso_trees(g, wm, k, o); });
    case 6: { parmcb::ForestIndex<VecG<double>> f(g); for (std::size_t i = 0; i < boost::num_edges(g); i++) h = mix64(h ^ id_of(g, f(i)) ^ f.is_on_forest(f(i))); return h + f.weak_connected_components(); }
    case 7: { std::vector<std::size_t> v; parmcb::greedy_fvs(g, std::back_inserter(v)); for (auto x : v) h = mix64(h ^ x); return h; }
    case 8: {
        std::vector<parmcb::SPTree<VecG<double>, WM>> t;
        for (std::size_t s = 0; s < boost::num_vertices(g) && s < 6; s++) t.emplace_back(s, g, boost::get(boost::vertex_index, g), wm, s);
        for (auto &x : t) for (auto &c : x.create_candidate_cycles()) h = mix64(h ^ id_of(g, c.edge()) ^ (std::uint64_t) c.weight());
        return h;
    }
    case 9: {
        std::vector<parmcb::SPTree<VecG<double>, WM>> t;
        std::vector<parmcb::CandidateCycle<VecG<double>, WM>> cs;
        if (k % 2) { parmcb::detail::FVSCyclesBuilder<VecG<double>, WM> b; b(g, wm, t, cs); } else { parmcb::detail::ISOCyclesBuilder<VecG<double>, WM> b; b(g, wm, t, cs); }
        for (auto &c : cs) h += mix64(id_of(g, c.edge()) ^ (std::uint64_t) c.weight() ^ t.at(c.tree()).source());
        return h;
    }
    case 10: {
        FILE *fp = ::fmemopen((void*) text.data(), text.size(), "r");
        VecG<double> x;
        parmcb::read_dimacs_from_file(fp, x);
        std::fclose(fp);
        auto w = boost::get(boost::edge_weight, x);
        for (auto e : boost::make_iterator_range(boost::edges(x))) h = mix64(h ^ id_of(x, e) ^ (std::uint64_t) w[e]);
        return h;
    }
    case 11: {
        parmcb::SpVecGF2<std::size_t> a, b(3), c;
        for (auto e : boost::make_iterator_range(boost::edges(g))) { parmcb::SpVecGF2<std::size_t> u((id_of(g, e) + k) % 97); a += u; if (id_of(g, e) & 2) b = b + u; c = a + b; }
        return mix64((a * b) + 2 * (c * a)) ^ (c.size() << 20);
    }
    default: return parmcb::has_loops(g) + 2 * parmcb::has_multiple_edges(g) + 4 * parmcb::has_non_positive_weights(g, wm);
    }
}

int main(int argc, char **argv) {
    rt().init(argc, argv);
    return rt().loop([&](std::uint64_t i, Rng &r) {
        AG ag = i % 40 == 39 ? gen::moderate(r) : gen::any(r, r.chance(.6) ? 1 : 0);
        for (int t = 0; t < 4 && ag.csd() < 1; t++) ag = gen::any(r, 1);
        rt().detail = ag.text();
        rt().note(rt().detail);
        rt().stage("concurrent-callers");
        if (ag.csd() >= 1) rt().distinct(mix64(ag.hash() + r.next()));
        if (ag.csd() >= 2) rt().sample(ag.text());
        const VecG<double> shared = build(ag);
        const std::string text = dimacs(ag);
        struct Job { int op; std::size_t k; bool own; std::uint64_t want, got; };
        int T = (int) r.in(2, 4), same = r.chance(.5) ? (int) r.below(NOPS) : -1;
        std::vector<std::vector<Job>> jobs(T);
        for (auto &v : jobs) for (int c = (int) r.in(1, 3); c--;) v.push_back(Job { same >= 0 && r.chance(.8) ? same : (int) r.below(NOPS), (std::size_t) r.in(1, 3), r.chance(.3), 0, 0 });
        for (auto &v : jobs) for (auto &j : v) { j.want = act(j.op, j.k, shared, text); rt().count(cat("calls.", OPS[j.op])); }
        std::atomic<int> gate(0);
        std::vector<std::thread> th;
        std::vector<std::string> errs(T);
        for (int t = 0; t < T; t++)
            th.emplace_back([&, t] {
                gate.fetch_add(1, std::memory_order_relaxed); // relaxed: the gate orders nothing
                while (gate.load(std::memory_order_relaxed) < T) ;
                try {
                    for (auto &j : jobs[t]) { if (j.own) { VecG<double> g = build(ag); j.got = act(j.op, j.k, g, text); } else j.got = act(j.op, j.k, shared, text); }
                } catch (const std::exception &ex) { errs[t] = ex.what(); }
            });
        for (auto &t : th) t.join();
        for (int t = 0; t < T; t++) {
            if (errs[t].size()) rt().fail("concurrent-callers:exception", errs[t]);
            else for (auto &j : jobs[t]) if (j.want != j.got && !(j.own && j.op >= 3 && j.op < 6)) rt().fail(cat(OPS[j.op], ":concurrent-callers"), cat("the answer (k=", j.k, j.own ? ", own graph" : ", shared graph", ") differs from the one a lone caller gets"));
        }
        rt().count("thread_groups");
        rt().count("threads", T);
    });
}
