// C01, C02, C08: the exact sequential entry points (and, for C08, the TBB ones).
#include "vp_std.hpp"
#include "vp_alloc.hpp"
#include "vp_graph.hpp"
#include <parmcb/parmcb.hpp>
using namespace vp;

enum Algo { SIGNED, FVS, ISO, SIGNED_TBB, FVS_TBB, ISO_TBB, NALGO };
static const char *ANAME[] = { "mcb_sva_signed", "mcb_sva_fvs_trees", "mcb_sva_iso_trees", "mcb_sva_signed_tbb", "mcb_sva_fvs_trees_tbb", "mcb_sva_iso_trees_tbb" };

template<class G, class WM, class Out>
typename boost::property_traits<WM>::value_type call(int a, const G &g, WM wm, Out out) {
    switch (a) {
    case SIGNED: return parmcb::mcb_sva_signed(g, wm, out);
    case FVS: return parmcb::mcb_sva_fvs_trees(g, wm, out);
    case ISO: return parmcb::mcb_sva_iso_trees(g, wm, out);
#ifdef PARMCB_HAVE_TBB
    case SIGNED_TBB: return parmcb::mcb_sva_signed_tbb(g, wm, out);
    case FVS_TBB: return parmcb::mcb_sva_fvs_trees_tbb(g, wm, out);
    case ISO_TBB: return parmcb::mcb_sva_iso_trees_tbb(g, wm, out);
#endif
    }
    throw std::logic_error("bad algo");
}

struct Answer { double ret = 0; Cycles cycles; bool ok = false; };

// one execution of one entry point; iter: kind of output iterator; heap: address-order perturbation
template<class G> Answer run(int algo, const AG &ag, double scale, int iter, int heapmode, std::uint64_t hseed) {
    typedef typename boost::graph_traits<G>::edge_descriptor Edge;
    Answer A;
    rt().stage(ANAME[algo]);
    heap::arm(hseed, heapmode);
    {
        Built<G> b;
        b.build(ag, scale);
        if (heapmode != 0 && hseed % 3 == 0) heap::disarm(); // sometimes perturb only the graph's own storage
        auto wm = b.wm();
        if (iter == 0) {
            std::list<std::list<Edge>> out;
            A.ret = (double) call(algo, b.g, wm, std::back_inserter(out));
            A.cycles = to_cycles(b, out);
        } else if (iter == 1) {
            int dim = ag.csd();
            std::vector<std::list<Edge>> out(dim + 8);
            A.ret = (double) call(algo, b.g, wm, out.begin());
            while (out.size() > 0 && out.back().empty() && (int) out.size() > dim) out.pop_back();
            A.cycles = to_cycles(b, out);
        } else {
            SinkIter<std::list<Edge>> it;
            auto store = it.store;
            A.ret = (double) call(algo, b.g, wm, it);
            A.cycles = to_cycles(b, *store);
        }
        A.ret /= b.scale / scale; // a power of two: exact
        heap::disarm();
    }
    A.ok = true;
    rt().count(cat("runs.", ANAME[algo]));
    rt().count("cycles_checked", A.cycles.size());
    return A;
}

template<class G> void check_one(const std::string &prop, int algo, const AG &ag, const OracleResult<long long> &opt, int iter, int hm, std::uint64_t hs, const char *gk) {
    Answer A;
    std::string key = ANAME[algo];
    try {
        A = run<G>(algo, ag, 1.0, iter, hm, hs);
    } catch (const std::exception &ex) {
        heap::disarm();
        rt().fail(key + ":exception", cat("graph type ", gk, ": exception escaped: ", ex.what()));
        return;
    }
    if (prop == "C01") {
        std::string e = basis_error(ag, A.cycles);
        if (!e.empty()) rt().fail(key + ":basis", cat("graph type ", gk, ", output iterator ", iter, ", heap ", hm, ": ", e));
    } else {
        auto cw = cycle_weights(ag, A.cycles);
        if (A.ret != (double) total(cw)) rt().fail(key + ":returned-weight", cat("graph type ", gk, ", output iterator ", iter, ", heap ", hm, ": returned ", A.ret, " but the emitted cycles weigh ", total(cw)));
        if (total(cw) != opt.total) rt().fail(key + ":not-minimum", cat("graph type ", gk, ", heap ", hm, ": emitted weight ", total(cw), ", optimum ", opt.total));
        else if (cw != opt.sorted) rt().fail(key + ":weight-vector", cat("graph type ", gk, ", heap ", hm, ": sorted cycle weights differ from those of a minimum cycle basis"));
    }
}

static void c01_c02(const std::string &prop, std::uint64_t i, Rng &r) {
    bool thorough = rt().opt.tier == "thorough";
    int nmax = thorough ? 6 : 5;
    std::uint64_t exh = gen::exhaustive_count(nmax);
    AG ag;
    bool large = false, vast = false;
    if (i < exh) {
        ag = gen::exhaustive(i, nmax);
        std::string wn = gen::weigh(ag, r);
        if (r.chance(.5)) gen::permute(ag, r);
        ag.name += "/" + wn;
        rt().count("exhaustive_graphs");
    } else if (!rt().opt.no_oracle && gen::large_case(i, 5000)) {
        ag = gen::vast(r);
        large = vast = true;
        rt().count("graphs.more_than_65536_vertices");
    } else {
        double x = r.unit();
        large = gen::large_case(i, 60);
        ag = large ? (rt().opt.no_oracle ? gen::moderate(r) : gen::large(r)) : gen::any(r, x < .35 ? 0 : x < .75 ? 1 : x < .96 ? 2 : 3);
        if (large) rt().count("graphs.large");
        else if (ag.m() && r.chance(.05)) { gen::heavy(ag, r); rt().count("graphs.int_weights_near_the_limit"); }
    }
    rt().detail = ag.text();
    rt().note(rt().detail);
    int dim = ag.csd();
    if (dim >= 2 || ag.m() > 8) rt().distinct(ag.hash());
    rt().count(dim == 0 ? "graphs.forest" : dim == 1 ? "graphs.unicyclic" : "graphs.multicyclic");
    if (ag.components() > 1) rt().count("graphs.disconnected");
    rt().count("dimension_total", dim);
    if (ag.scale != 1) rt().count("graphs.scaled_weights");
    if (ag.csd() >= 2) rt().sample(ag.text());
    OracleResult<long long> opt;
    opt.total = 0;
    if (prop == "C02") {
        opt = optimum(ag);
        OracleResult<long long> bf;
        if (ag.n <= 9 && brute(ag, bf, 3000)) {
            rt().count("oracle_cross_checked");
            if (bf.total != opt.total || bf.sorted != opt.sorted) { std::fprintf(stderr, "oracle disagreement on %s\n", ag.text().c_str()); std::exit(3); }
        }
    }
    if (vast) { // one tree per vertex is out of reach
        check_one<VecG<double>>(prop, SIGNED, ag, opt, 0, 0, 0, "vecS/double");
        check_one<VecG<double>>(prop, FVS, ag, opt, 0, 0, 0, "vecS/double");
        return;
    }
    for (int a = SIGNED; a <= ISO; a++) {
        if (large && a != SIGNED && r.chance(.6)) continue; // the signed variant on all of them, the slower ones less often
        // default configuration
        check_one<VecG<double>>(prop, a, ag, opt, 0, 0, 0, "vecS/double");
        if (large && a != SIGNED) continue;
        // perturbed heap, integer weights, other output iterators, other out-edge containers
        check_one<VecG<int>>(prop, a, ag, opt, (int) r.below(3), 1, r.next(), "vecS/int");
        switch (r.below(4)) {
        case 0: check_one<SetG<double>>(prop, a, ag, opt, (int) r.below(3), 2, r.next(), "setS/double"); break;
        case 1: check_one<ExtG<boost::listS>>(prop, a, ag, opt, (int) r.below(3), 1, r.next(), "listS/double/weights outside"); break;
        default: check_one<VecG<double>>(prop, a, ag, opt, (int) r.below(3), (int) r.in(1, 2), r.next(), "vecS/double"); break;
        }
    }
}

// ---- C08 ----
static AG subdivide(const AG &g, Rng &r) {
    AG h = g;
    std::vector<int> cand;
    for (int i = 0; i < g.m(); i++) if (g.w[i] >= 2) cand.push_back(i);
    if (cand.empty()) return h;
    int k = (int) r.in(1, 3);
    for (int t = 0; t < k; t++) {
        int i = r.pick(cand);
        if (h.w[i] < 2) continue;
        long long a = r.in(1, h.w[i] - 1), b = h.w[i] - a;
        int v = h.n++, end = h.e[i].second;
        h.e[i].second = v; h.w[i] = a;
        h.e.emplace_back(v, end); h.w.push_back(b);
    }
    return h;
}

static bool same_reported(const char *rel, int a, const AG &g, double want, double scale, int hm, std::uint64_t hs, int gk) {
    Answer A;
    try {
        A = gk == 1 ? run<VecG<int>>(a, g, scale, 0, hm, hs) : gk == 2 ? run<SetG<double>>(a, g, scale, 0, hm, hs) : gk == 3 ? run<ExtG<boost::listS>>(a, g, scale, 0, hm, hs) : run<VecG<double>>(a, g, scale, 0, hm, hs);
    } catch (const std::exception &ex) {
        heap::disarm();
        rt().fail(cat(ANAME[a], ":exception"), cat(rel, ": ", ex.what(), " on ", g.text()));
        return false;
    }
    rt().count(cat("relation.", rel));
    if (A.ret != want) {
        rt().fail(cat(ANAME[a], ":", rel), cat("reported ", A.ret, ", expected ", want, " (scale ", scale, ", heap ", hm, ") on transformed graph: ", g.text()));
        return false;
    }
    return true;
}

static void c08(std::uint64_t i, Rng &r) {
    AG ag;
    if (i < gen::exhaustive_count(4)) { ag = gen::exhaustive(i, 4); gen::weigh(ag, r); }
    else if (gen::large_case(i, 80)) { ag = gen::moderate(r); rt().count("graphs.large"); }
    else { double x = r.unit(); ag = gen::any(r, x < .4 ? 0 : x < .85 ? 1 : 2); }
    rt().detail = ag.text();
    rt().note(rt().detail);
    if (ag.csd() >= 2) rt().distinct(ag.hash());
    if (ag.csd() >= 2) rt().sample(ag.text());
    int na = NALGO;
    // reference: the value the first exact variant reports on the graph as given
    Answer R = run<VecG<double>>(SIGNED, ag, 1.0, 0, 0, 0);
    double want = R.ret;
    for (int a = 0; a < na; a++) {
        if (a != SIGNED) same_reported("variant", a, ag, want, 1.0, 0, 0, 0);
        same_reported("heap-layout", a, ag, want, 1.0, 1, r.next(), 0);
        same_reported("value-type", a, ag, want, 1.0, 0, 0, 1);
        same_reported("container", a, ag, want, 1.0, (int) r.below(3), r.next(), (int) r.in(2, 3));
    }
    auto some = [&](const char *rel, const AG &g, double w, double sc) {
        int a = (int) r.below(na), b = (int) r.below(na);
        same_reported(rel, a, g, w, sc, (int) r.below(2), r.next(), 0);
        if (b != a) same_reported(rel, b, g, w, sc, 0, 0, 0);
    };
    for (int t = 0; t < 2; t++) { AG h = ag; gen::permute(h, r); some("renumber+reorder", h, want, 1); }
    { // reorder edges only
        AG h = ag; std::vector<int> o(ag.m()); std::iota(o.begin(), o.end(), 0); r.shuffle(o);
        for (int k = 0; k < ag.m(); k++) { h.e[k] = ag.e[o[k]]; h.w[k] = ag.w[o[k]]; }
        some("edge-order", h, want, 1);
    }
    { AG h = ag; gen::isolated(h, (int) r.in(1, 4)); if (r.chance(.5)) gen::permute(h, r); some("isolated", h, want, 1); }
    if (ag.n > 0) {
        AG h = ag; gen::pendant(h, r, (int) r.in(1, 6)); while ((int) h.w.size() < h.m()) h.w.push_back(r.in(1, 20));
        if (r.chance(.5)) gen::permute(h, r);
        some("pendant-trees", h, want, 1);
    }
    { // disjoint union, then a bridge
        AG o = gen::any(r, 0);
        double wo = run<VecG<double>>((int) r.below(3), o, 1.0, 0, 0, 0).ret;
        AG u = gen::unite(ag, o);
        AG u2 = u; if (r.chance(.5)) gen::permute(u2, r);
        some("disjoint-union", u2, want + wo, 1);
        if (ag.n > 0 && o.n > 0) {
            AG b = u; b.add((int) r.below(ag.n), ag.n + (int) r.below(o.n)); b.w.push_back(r.in(1, 30));
            if (r.chance(.5)) gen::permute(b, r);
            some("bridge", b, want + wo, 1);
        }
    }
    { AG h = subdivide(ag, r); if (r.chance(.5)) gen::permute(h, r); some("subdivide", h, want, 1); }
    { // power of two scaling, exact; kept within the finite, normal range
        int ks[] = { 1, 3, 20, -1, -7, -30, 200, -200, 900, -900 };
        int k = ks[r.below(10)];
        AG h = ag;
        h.scale = 1;
        some("scale-2^k", h, std::ldexp(want, k), std::ldexp(1.0, k));
    }
}

int main(int argc, char **argv) {
    rt().init(argc, argv);
    heap::init();
    const std::string prop = rt().opt.prop;
    return rt().loop([&](std::uint64_t i, Rng &r) {
        if (prop == "C08") c08(i, r); else c01_c02(prop, i, r);
    });
}
