// C05, C06 (approximate entry points at their public boundary) and C15 (the spanner behind them).
#include "vp_std.hpp"
#include "vp_alloc.hpp"
#include "vp_graph.hpp"
#include <parmcb/config.hpp>
#include <parmcb/parmcb.hpp>
#include <parmcb/detail/approx_spanner.hpp>
using namespace vp;

#ifdef PARMCB_HAVE_TBB
static const int NALGO = 6;
#else
static const int NALGO = 3;
#endif
static const char *ANAME[] = { "approx_mcb_sva_signed", "approx_mcb_sva_fvs_trees", "approx_mcb_sva_iso_trees", "approx_mcb_sva_signed_tbb", "approx_mcb_sva_fvs_trees_tbb", "approx_mcb_sva_iso_trees_tbb" };

template<class G, class WM, class Out>
typename boost::property_traits<WM>::value_type call(int a, const G &g, const WM &wm, std::size_t k, Out out) {
    switch (a) {
    case 0: return parmcb::approx_mcb_sva_signed(g, wm, k, out);
    case 1: return parmcb::approx_mcb_sva_fvs_trees(g, wm, k, out);
    case 2: return parmcb::approx_mcb_sva_iso_trees(g, wm, k, out);
#ifdef PARMCB_HAVE_TBB
    case 3: return parmcb::approx_mcb_sva_signed_tbb(g, wm, k, out);
    case 4: return parmcb::approx_mcb_sva_fvs_trees_tbb(g, wm, k, out);
    case 5: return parmcb::approx_mcb_sva_iso_trees_tbb(g, wm, k, out);
#endif
    }
    throw std::logic_error("bad algo");
}

struct Answer { double ret = 0, viamap = 0; Cycles cycles; bool threw = false; };

// weights in a map of the caller's own, keyed by the descriptor; the graph's internal property holds something else
template<class G, class W> struct ExtMap { std::shared_ptr<std::map<typename boost::graph_traits<G>::edge_descriptor, W>> m; };
template<class G, class W> struct ExtFn {
    typedef W result_type;
    const std::map<typename boost::graph_traits<G>::edge_descriptor, W> *m;
    W operator()(const typename boost::graph_traits<G>::edge_descriptor &e) const { return m->at(e); }
};

template<class G, class W> Answer run(int algo, const AG &ag, std::size_t k, double scale, int wmkind, int iter, int hm, std::uint64_t hs) {
    typedef typename boost::graph_traits<G>::edge_descriptor Edge;
    typedef std::list<Edge> L;
    Answer A;
    rt().stage(ANAME[algo]);
    heap::arm(hs, hm);
    {
        Built<G> b;
        b.build(ag, scale);
        if (hm && hs % 3 == 0) heap::disarm();
        std::map<Edge, W> ext;
        if (wmkind) for (int i = 0; i < ag.m(); i++) {
            ext[b.ed[i]] = (W) (ag.w[i] * b.scale);
            boost::put(boost::edge_weight, b.g, b.ed[i], (W) (wmkind == 2 ? 0 : (W) (mix64(hs ^ i) % 97 + 1)));
        }
        auto wm = boost::get(boost::edge_weight, b.g);
        auto fm = boost::make_function_property_map<Edge, W>(ExtFn<G, W> { &ext });
        boost::associative_property_map<std::map<Edge, W>> am(ext);
        auto go = [&](auto out) {
            try { A.ret = (double) (wmkind == 0 ? call(algo, b.g, wm, k, out) : wmkind == 1 ? call(algo, b.g, fm, k, out) : call(algo, b.g, am, k, out)); }
            catch (const std::exception &) { A.threw = true; if (k != 0) { heap::disarm(); throw; } }
            catch (...) { A.threw = true; if (k != 0) { heap::disarm(); throw; } }
        };
        auto viamap = [&](const Edge &e) -> double { return (double) (wmkind == 0 ? boost::get(wm, e) : wmkind == 1 ? boost::get(fm, e) : boost::get(am, e)); };
        auto done = [&](auto &out) {
            A.cycles = to_cycles(b, out);
            bool all = true;
            for (auto &c : A.cycles) for (int x : c) if (x < 0) all = false;
            if (all) for (auto &c : out) for (auto &e : c) A.viamap += viamap(e);
            A.ret /= b.scale / scale; A.viamap /= b.scale / scale; // powers of two: exact
        };
        if (iter == 0) { std::list<L> out; go(std::back_inserter(out)); done(out); }
        else if (iter == 1) {
            int dim = ag.csd();
            std::vector<L> out(dim + 8);
            go(out.begin());
            while (!out.empty() && out.back().empty() && ((int) out.size() > dim || k == 0)) out.pop_back();
            done(out);
        } else { SinkIter<L> it; auto st = it.store; go(it); done(*st); }
        heap::disarm();
    }
    rt().count(cat("runs.", ANAME[algo]));
    rt().count("cycles_checked", A.cycles.size());
    return A;
}

static Answer run_any(int gt, int algo, const AG &ag, std::size_t k, double scale, int wmkind, int iter, int hm, std::uint64_t hs) {
    switch (gt) {
    case 0: return run<VecG<double>, double>(algo, ag, k, scale, wmkind, iter, hm, hs);
    case 1: return run<VecG<int>, int>(algo, ag, k, 1.0, wmkind, iter, hm, hs);
    default: return run<SetG<double>, double>(algo, ag, k, scale, wmkind, iter, hm, hs);
    }
}
static const char *GN[] = { "vecS/double", "vecS/int", "setS/double" }, *WN[] = { "internal", "function map", "associative map" };

static AG pick_graph(std::uint64_t i, Rng &r, bool big) {
    std::uint64_t exh = gen::exhaustive_count(5);
    AG ag;
    if (i < exh) { ag = gen::exhaustive(i, 5); std::string wn = gen::weigh(ag, r); if (r.chance(.5)) gen::permute(ag, r); ag.name += "/" + wn; rt().count("exhaustive_graphs"); }
    else if (gen::large_case(i, big ? 100 : 60)) { ag = big && r.chance(.3) ? gen::huge(r) : (rt().opt.no_oracle ? gen::moderate(r) : gen::large(r)); rt().count("graphs.large"); }
    else { double x = r.unit(); ag = gen::any(r, x < .25 ? 0 : x < .65 ? 1 : x < .97 || !big ? 2 : 3); if (ag.m() && r.chance(.05)) { gen::heavy(ag, r); rt().count("graphs.int_weights_near_the_limit"); } }
    rt().detail = ag.text();
    rt().note(rt().detail);
    if (ag.csd() >= 2) { rt().distinct(ag.hash()); rt().sample(ag.text()); }
    if (ag.components() > 1) rt().count("graphs.disconnected");
    return ag;
}
static std::size_t pick_k(Rng &r, const AG &ag) {
    switch (r.below(12)) {
    case 0: case 1: case 2: return 1;
    case 3: case 4: case 5: return 2;
    case 6: case 7: return 3;
    case 8: return 4 + r.below(4);
    case 9: return std::max(1, ag.n - 1 + (int) r.below(3));
    case 10: return 1 + r.below(100);
    default: { static const std::size_t H[] = { ~(std::size_t) 0, (~(std::size_t) 0) / 2, (~(std::size_t) 0) / 2 + 1, (~(std::size_t) 0) / 2 + 2, (std::size_t) 1 << 32, (std::size_t) 1 << 62 }; return H[r.below(6)]; }
    }
}

static void c05_c06(const std::string &prop, std::uint64_t i, Rng &r) {
    AG ag = pick_graph(i, r, false);
    long long opt = 0;
    OracleResult<long long> O;
    if (prop == "C06") { O = optimum(ag); opt = O.total; }
    std::uint64_t kept = 0;
    for (int a = 0; a < NALGO; a++) {
        int reps = a < 3 ? 2 : 1;
        if (ag.m() > 100) { if (a % 3 && r.chance(.75)) continue; reps = 1; }
        for (int t = 0; t < reps; t++) {
            std::size_t k = t == 0 ? pick_k(r, ag) : (std::size_t) r.in(1, 3);
            int gt = (int) r.below(3), wk = (int) r.below(3), it = (int) r.below(3), hm = (int) r.below(3);
            double scale = gt == 1 ? 1.0 : r.chance(.8) ? 1.0 : r.chance(.5) ? 0.125 : 1048576.0;
            std::uint64_t hs = r.next();
            std::string key = ANAME[a], cfg = cat("k=", k, ", graph type ", GN[gt], ", weight map ", WN[wk], ", output iterator ", it, ", scale ", scale, ": ");
            rt().count(cat("k.", k <= 4 ? cat(k) : k < 1000 ? "5..999" : "huge"));
            rt().note(cfg + rt().detail);
            Answer A;
            try { A = run_any(gt, a, ag, k, scale, wk, it, hm, hs); }
            catch (const std::exception &ex) { heap::disarm(); rt().fail(key + ":exception", cfg + "exception escaped: " + ex.what()); continue; }
            bool foreign = false;
            for (auto &c : A.cycles) for (int x : c) if (x < 0) foreign = true;
            auto cw = cycle_weights(ag, A.cycles);
            if (prop == "C05") {
                std::string e = basis_error(ag, A.cycles);
                if (!e.empty()) { rt().fail(key + (foreign ? ":foreign-edge" : ":basis"), cfg + e); continue; }
                if (A.viamap != (double) total(cw) * scale) rt().fail(key + ":caller-map", cat(cfg, "the caller's weight map gives ", A.viamap, " for the emitted cycles, their weight is ", total(cw) * scale));
                if (A.ret != (double) total(cw) * scale) rt().fail(key + ":returned-weight", cat(cfg, "returned ", A.ret, " but the emitted cycles weigh ", total(cw) * scale));
            } else {
                if (foreign) { rt().fail(key + ":foreign-edge", cfg + "emitted cycles are not made of edges of the input graph"); continue; }
                long long W = total(cw);
                bool within = k > 1000000 ? true : W <= (long long) (2 * k - 1) * opt;
                if (!within) rt().fail(key + ":ratio", cat(cfg, "emitted weight ", W, " exceeds (2k-1) x optimum = ", (long long) (2 * k - 1) * opt, " (optimum ", opt, ")"));
                if (k == 1 && (W != opt || cw != O.sorted)) rt().fail(key + ":k1-not-minimum", cat(cfg, "emitted weight ", W, ", optimum ", opt));
                if (k == 1 && (int) A.cycles.size() != ag.csd()) rt().fail(key + ":k1-not-basis", cat(cfg, "emitted ", A.cycles.size(), " cycles"));
                if (A.ret > 0 && k <= 1000000 && A.ret > (double) (2 * k - 1) * (double) opt * scale) rt().fail(key + ":returned-ratio", cat(cfg, "returned weight ", A.ret));
                if (W > opt) rt().count("strictly_above_optimum");
                if (W == opt) rt().count("at_optimum");
            }
        }
        if (prop == "C06") { // k = 0
            int gt = (int) r.below(3), wk = (int) r.below(3), it = (int) r.below(3);
            Answer A = run_any(gt, a, ag, 0, 1.0, wk, it, 0, 1);
            rt().count("k.0");
            if (!A.threw) rt().fail(cat(ANAME[a], ":k0-accepted"), cat("k=0 was not rejected, graph type ", GN[gt]));
            if (!A.cycles.empty()) rt().fail(cat(ANAME[a], ":k0-emits"), cat("k=0 emitted ", A.cycles.size(), " cycles"));
        }
    }
}

// ------------------------------------------------------------------ C15
// The exact phase is a template parameter: the stand-in below records the graph and weights it is given and emits every edge of it
// as a one-edge "cycle", so that the translation of every spanner edge to a caller's edge can be read off the output.
struct SpyRecord { std::vector<std::pair<int, int>> e; std::vector<double> w; int n = -1, calls = 0; };
static SpyRecord *g_spy = nullptr;
struct Spy {
    template<class G, class WM, class Out> typename boost::property_traits<WM>::value_type operator()(const G &g, const WM &wm, Out out) {
        typedef typename boost::graph_traits<G>::edge_descriptor Edge;
        typename boost::property_traits<WM>::value_type tot = 0;
        g_spy->calls++;
        g_spy->n = (int) boost::num_vertices(g);
        for (auto p = boost::edges(g); p.first != p.second; ++p.first) {
            Edge e = *p.first;
            g_spy->e.push_back({ (int) boost::source(e, g), (int) boost::target(e, g) });
            g_spy->w.push_back((double) boost::get(wm, e));
            tot += boost::get(wm, e);
            *out++ = std::list<Edge>(1, e);
        }
        return tot;
    }
};

// number of edges on a shortest cycle, 0 if acyclic
static int girth(int n, const std::vector<std::pair<int, int>> &e) {
    std::vector<std::vector<std::pair<int, int>>> adj(n);
    for (std::size_t i = 0; i < e.size(); i++) { adj[e[i].first].push_back({ e[i].second, (int) i }); adj[e[i].second].push_back({ e[i].first, (int) i }); }
    int best = 0;
    for (int s = 0; s < n; s++) {
        std::vector<int> d(n, -1), pe(n, -1), q { s };
        d[s] = 0;
        for (std::size_t h = 0; h < q.size(); h++) for (auto &a : adj[q[h]]) {
            if (a.second == pe[q[h]]) continue;
            if (d[a.first] < 0) { d[a.first] = d[q[h]] + 1; pe[a.first] = a.second; q.push_back(a.first); }
            else { int c = d[a.first] + d[q[h]] + 1; if (!best || c < best) best = c; }
        }
    }
    return best;
}

template<class G, class W, class WM, bool TBB> void c15_one(const AG &ag, Built<G> &b, const WM &wm, std::size_t k, const char *cfg0) {
    typedef typename boost::graph_traits<G>::edge_descriptor Edge;
    typedef parmcb::detail::BaseApproxSpannerAlgorithm<G, WM, Spy, TBB> Algo;
    SpyRecord rec;
    g_spy = &rec;
    std::string cfg = cat("k=", k, ", ", cfg0, ": ");
    auto im = boost::get(boost::vertex_index, b.g);
    std::list<std::list<Edge>> out;
    { Algo algo(b.g, wm, im, k); rt().stage("BaseApproxSpannerAlgorithm::run"); algo.run(std::back_inserter(out)); }
    int n = ag.n, m = ag.m();
    if (rec.calls == 0) { // nothing for an exact phase to do: only right if every basis cycle belongs to a dropped edge
        if ((int) out.size() != ag.csd()) rt().fail("spanner:exact-phase", cfg + "the exact phase was not run");
        rt().count("spanners_not_observed");
        return;
    }
    if (rec.calls != 1) { rt().fail("spanner:exact-phase", cat(cfg, "the exact phase was run ", rec.calls, " times")); return; }
    if (rec.n != n) { rt().fail("spanner:vertices", cat(cfg, "spanner has ", rec.n, " vertices, the graph ", n)); return; }
    std::vector<char> state(m, 0); // 1 retained, 2 dropped
    std::vector<std::pair<int, int>> ret;
    std::vector<int> retid;
    std::vector<std::vector<int>> rest;
    for (auto &c : out) {
        std::vector<int> ids;
        for (auto &e : c) { int x = b.index(e); if (x < 0) { rt().fail("spanner:foreign", cfg + "an edge comes back that is not an edge of the caller's graph"); return; } ids.push_back(x); }
        if (ids.size() != 1) { rest.push_back(ids); continue; }
        if (state[ids[0]]) { rt().fail("spanner:duplicate", cat(cfg, "input edge ", ids[0], " is retained twice")); return; }
        state[ids[0]] = 1;
        ret.push_back(ag.e[ids[0]]); retid.push_back(ids[0]);
    }
    if (ret.size() != rec.e.size()) { rt().fail("spanner:translation", cat(cfg, "the exact phase saw ", rec.e.size(), " edges, ", ret.size(), " came back")); return; }
    // the graph the exact phase saw is the retained subgraph with the input's weights
    auto norm = [](const std::vector<std::pair<int, int>> &e, const std::vector<double> &w) { std::multiset<std::tuple<int, int, double>> s; for (std::size_t i = 0; i < e.size(); i++) s.insert(std::make_tuple(std::min(e[i].first, e[i].second), std::max(e[i].first, e[i].second), w[i])); return s; };
    std::vector<double> rw;
    for (int e : retid) rw.push_back((double) ag.w[e] * b.scale);
    {
        auto x = rw, y = rec.w;
        std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
        if (x != y) { rt().fail("spanner:weight", cfg + "the weights of the graph given to the exact phase are not those of the retained edges"); return; }
    }
    if (norm(rec.e, rec.w) != norm(ret, rw)) { // allowed if the spanner's vertices are numbered differently: compare what does not depend on it
        std::vector<int> d1(n, 0), d2(n, 0);
        for (std::size_t i = 0; i < ret.size(); i++) { d1[ret[i].first]++; d1[ret[i].second]++; d2[rec.e[i].first]++; d2[rec.e[i].second]++; }
        std::sort(d1.begin(), d1.end()); std::sort(d2.begin(), d2.end());
        if (d1 != d2 || girth(n, rec.e) != girth(n, ret)) { rt().fail("spanner:structure", cfg + "the graph given to the exact phase is not the retained subgraph"); return; }
    }
    // one cycle per dropped edge, made of that edge and retained edges: tells which edges were dropped
    for (auto &ids : rest) {
        int d = -1;
        for (int x : ids) if (state[x] != 1) {
            if (d >= 0) { rt().fail("spanner:partition", cfg + "a cycle of the second phase uses two edges that are not retained"); return; }
            d = x;
        }
        if (d < 0) { rt().fail("spanner:partition", cfg + "a cycle of the second phase uses retained edges only"); return; }
        if (state[d] == 2) { rt().fail("spanner:partition", cat(cfg, "edge ", ag.e[d].first, "-", ag.e[d].second, " is dropped twice")); return; }
        state[d] = 2;
    }
    for (int e = 0; e < m; e++) if (!state[e]) { rt().fail("spanner:partition", cat(cfg, "edge ", ag.e[e].first, "-", ag.e[e].second, " is neither retained nor dropped")); return; }
    // light detours
    std::vector<std::vector<std::pair<int, long long>>> adj(n);
    for (std::size_t i = 0; i < ret.size(); i++) { long long w = ag.w[retid[i]]; adj[ret[i].first].push_back({ ret[i].second, w }); adj[ret[i].second].push_back({ ret[i].first, w }); }
    std::size_t hops = k > (std::size_t) n ? (std::size_t) n : 2 * k - 1;
    for (int e = 0; e < m; e++) if (state[e] == 2) {
        std::vector<int> d(n, -1), q { ag.e[e].first };
        d[q[0]] = 0;
        for (std::size_t h = 0; h < q.size(); h++) for (auto &a : adj[q[h]]) if (a.second <= ag.w[e] && d[a.first] < 0) { d[a.first] = d[q[h]] + 1; q.push_back(a.first); }
        int x = d[ag.e[e].second];
        if (x < 0 || (std::size_t) x > hops) { rt().fail("spanner:detour", cat(cfg, "dropped edge ", ag.e[e].first, "-", ag.e[e].second, " (weight ", ag.w[e], ") has no path of at most ", hops, " retained edges none heavier than it")); return; }
        rt().count("dropped_edges");
    }
    int g = girth(n, ret);
    if (g && (k > (std::size_t) m || (std::size_t) g <= 2 * k)) { rt().fail("spanner:girth", cat(cfg, "the retained subgraph has a cycle of ", g, " edges")); return; }
    if (g) rt().count("spanners_with_cycles");
    rt().count("retained_edges", ret.size());
    rt().count("spanners");
}

template<class G, class W> void c15_graph(const AG &ag, std::size_t k, int wk, int hm, std::uint64_t hs, const char *gk) {
    typedef typename boost::graph_traits<G>::edge_descriptor Edge;
    rt().stage("BaseApproxSpannerAlgorithm");
    heap::arm(hs, hm);
    {
        Built<G> b;
        b.build(ag);
        std::map<Edge, W> ext;
        if (wk) for (int i = 0; i < ag.m(); i++) { ext[b.ed[i]] = (W) (ag.w[i] * b.scale); boost::put(boost::edge_weight, b.g, b.ed[i], (W) (mix64(hs ^ i) % 97 + 1)); }
        std::string cfg = cat(gk, wk ? ", associative map" : ", internal map");
        if (wk == 0) c15_one<G, W, typename boost::property_map<G, boost::edge_weight_t>::type, false>(ag, b, boost::get(boost::edge_weight, b.g), k, cfg.c_str());
        else { boost::associative_property_map<std::map<Edge, W>> am(ext); c15_one<G, W, boost::associative_property_map<std::map<Edge, W>>, false>(ag, b, am, k, cfg.c_str()); }
#ifdef PARMCB_HAVE_TBB
        if (hs % 5 == 0) { boost::associative_property_map<std::map<Edge, W>> am(ext); if (wk) c15_one<G, W, boost::associative_property_map<std::map<Edge, W>>, true>(ag, b, am, k, "tbb"); }
#endif
    }
    heap::disarm();
}

static void c15(std::uint64_t i, Rng &r) {
    AG ag = pick_graph(i, r, true);
    for (int t = 0; t < 4; t++) {
        std::size_t k = t < 3 ? (std::size_t) (t + 1) : pick_k(r, ag);
        if (t == 2 && r.chance(.5)) k = pick_k(r, ag);
        rt().count(cat("k.", k <= 4 ? cat(k) : k < 1000 ? "5..999" : "huge"));
        if (r.chance(.6)) c15_graph<VecG<double>, double>(ag, k, (int) r.below(2), (int) r.below(3), r.next(), "vecS/double");
        else if (r.chance(.5)) c15_graph<VecG<int>, int>(ag, k, (int) r.below(2), (int) r.below(3), r.next(), "vecS/int");
        else c15_graph<SetG<double>, double>(ag, k, (int) r.below(2), (int) r.below(3), r.next(), "setS/double");
    }
}

int main(int argc, char **argv) {
    rt().init(argc, argv);
    heap::init();
    const std::string prop = rt().opt.prop;
    return rt().loop([&](std::uint64_t i, Rng &r) { if (prop == "C15") c15(i, r); else c05_c06(prop, i, r); });
}
