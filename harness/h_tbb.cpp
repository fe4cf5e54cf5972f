// C03: the TBB entry points under drawn schedules (vp_tbbshim.hpp), under the genuine TBB runtime with drawn worker counts,
// and (-DVP_TSAN build) on free-running threads watched by ThreadSanitizer.
#include "vp_std.hpp"
#include "vp_graph.hpp"
#ifdef VP_SHIM
#include "vp_tbbshim.hpp"
static void* hooked(std::size_t n) { vp::sched::point(); void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
#ifndef VP_TSAN
void* operator new(std::size_t n) { return hooked(n); }
void* operator new[](std::size_t n) { return hooked(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
#endif
#else // plain fallback: the library did not compile against the controlled scheduler
#include <tbb/tbb.h>
#include <tbb/global_control.h>
#endif
#include <parmcb/config.hpp>
#include <parmcb/parmcb.hpp>
using namespace vp;

static const char *NAMES[] = { "mcb_sva_signed_tbb", "mcb_sva_fvs_trees_tbb", "mcb_sva_iso_trees_tbb", "approx_mcb_sva_signed_tbb", "approx_mcb_sva_fvs_trees_tbb", "approx_mcb_sva_iso_trees_tbb" };

template<class G> struct YieldMap : boost::put_get_helper<typename boost::property_traits<typename WeightsOf<G>::type>::value_type, YieldMap<G> > {
    typedef typename boost::graph_traits<G>::edge_descriptor key_type;
    typedef typename boost::property_traits<typename WeightsOf<G>::type>::value_type value_type;
    typedef value_type reference;
    typedef boost::readable_property_map_tag category;
    typename WeightsOf<G>::type base;
    explicit YieldMap(const Built<G> &b) : base(b.wm()) {}
    value_type operator[](const key_type &e) const {
#ifdef VP_SHIM
        sched::point();
#endif
        return boost::get(base, e);
    }
};

template<class G, class Out> double call(int a, const Built<G> &b, std::size_t k, Out out) {
    YieldMap<G> wm(b);
    const G &g = b.g;
    switch (a) {
    case 0: return (double) parmcb::mcb_sva_signed_tbb(g, wm, out);
    case 1: return (double) parmcb::mcb_sva_fvs_trees_tbb(g, wm, out);
    case 2: return (double) parmcb::mcb_sva_iso_trees_tbb(g, wm, out);
    case 3: return (double) parmcb::approx_mcb_sva_signed_tbb(g, wm, k, out);
    case 4: return (double) parmcb::approx_mcb_sva_fvs_trees_tbb(g, wm, k, out);
    case 5: return (double) parmcb::approx_mcb_sva_iso_trees_tbb(g, wm, k, out);
    }
    return 0;
}

struct Opt { long long total; std::vector<long long> w; };

template<class G> void one(int a, const AG &ag, const Built<G> &b, std::size_t k, const Opt &opt, const std::string &how) {
    typedef typename boost::graph_traits<G>::edge_descriptor Edge;
    std::list<std::list<Edge>> out;
    double ret;
    rt().stage(NAMES[a]);
    try { ret = call(a, b, k, std::back_inserter(out)); }
    catch (const std::exception &ex) { rt().fail(cat(NAMES[a], ":exception"), cat("exception escaped: ", ex.what(), how)); return; }
    ret /= b.scale; // a power of two: exact
    Cycles cs = to_cycles(b, out);
    std::string e = basis_error(ag, cs);
    if (!e.empty()) { rt().fail(cat(NAMES[a], ":basis"), e + how); return; }
    auto cw = cycle_weights(ag, cs);
    long long t = total(cw);
    if (ret != (double) t) { rt().fail(cat(NAMES[a], ":reported-weight"), cat("returned ", ret, ", emitted cycles weigh ", t, how)); return; }
    if (a < 3) {
        if (t != opt.total) rt().fail(cat(NAMES[a], ":not-minimum"), cat("weight ", t, ", minimum is ", opt.total, how));
        else if (cw != opt.w) rt().fail(cat(NAMES[a], ":not-minimum"), cat("the sorted cycle weights are not those of a minimum cycle basis", how));
    } else if (t < opt.total || (double) t > (2.0 * (double) k - 1) * (double) opt.total)
        rt().fail(cat(NAMES[a], ":approximation"), cat("weight ", t, ", minimum is ", opt.total, ", k = ", k, how));
}

#ifdef VP_SHIM
static const char *MODE[] = { "real TBB", "serial schedule", "cooperative threads", "free threads" };
#endif

template<class G> void graph_type(const AG &ag, const Opt &opt, Rng &r, int rounds, int big) {
    Built<G> b;
    b.build(ag);
    for (int a = 0; a < 6; a++)
        for (int t = 0; t < rounds; t++) {
            std::size_t k = a < 3 ? 0 : r.chance(.6) ? (std::size_t) r.in(2, 3) : r.chance(.2) ? 1 : (std::size_t) r.in(2, 12);
            std::string how;
            std::uint64_t seed = r.next();
#ifdef VP_SHIM
            auto &s = sched::s();
            s.rng = Rng(seed);
            s.trace = seed & 0; // decisions only
#ifdef VP_TSAN
            s.mode = sched::FREE;
            s.pdelay = r.chance(.5) ? 0.01 : r.chance(.5) ? .2 : 0;
#else
            double x = r.unit();
            s.mode = x < .55 ? sched::SERIAL : x < .75 ? sched::COOP : sched::REAL;
            s.pdelay = r.chance(.5) ? 0.02 : 0;
#endif
            s.threads = (int) r.in(2, 6);
            s.style = (int) r.below(5);
            s.order = (int) r.below(4);
            s.pswitch = r.chance(.5) ? .3 : r.chance(.5) ? .03 : .003;
            s.budget = big ? 60 : 150;
            sched::mark(a * 4 + s.mode);
            how = cat(" [", MODE[s.mode], ", threads ", s.threads, ", style ", s.style, ", order ", s.order, ", round ", t, k ? cat(", k ", k) : std::string(), "]");
            if (s.mode == sched::REAL) {
                static const int WIDTH[] = { 1, 2, 3, 4, 5, 8, 16, 64 };
                int w = WIDTH[r.below(8)];
                tbb::global_control gc(tbb::global_control::max_allowed_parallelism, w);
                sched::mark(w);
                how += cat(" [width ", w, "]");
                rt().count(cat("real_tbb_width_", w));
                if (r.chance(.25)) { tbb::task_arena ar((int) r.in(1, 8)); ar.execute([&] { one(a, ag, b, k, opt, how); }); }
                else one(a, ag, b, k, opt, how);
            } else one(a, ag, b, k, opt, how);
            if (ag.csd() >= 2) rt().distinct(mix64(ag.hash() ^ s.trace));
            rt().count(cat("calls.", MODE[s.mode]));
#else
            static const int WIDTH[] = { 1, 2, 3, 4, 5, 8, 16, 64 };
            int w = WIDTH[r.below(8)];
            tbb::global_control gc(tbb::global_control::max_allowed_parallelism, w);
            how = cat(" [real TBB, width ", w, "]");
            one(a, ag, b, k, opt, how);
            if (ag.csd() >= 2) rt().distinct(mix64(ag.hash() ^ w));
            rt().count("calls.real TBB (uncontrolled build)");
#endif
        }
}

int main(int argc, char **argv) {
    rt().init(argc, argv);
    bool thorough = rt().opt.tier == "thorough";
#if defined(VP_SHIM) && defined(VP_TSAN)
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 1); // whatever is not redirected stays on the calling thread
#endif
    int rc = rt().loop([&](std::uint64_t i, Rng &r) {
        AG ag;
        int big = 0;
        if (i < gen::exhaustive_count(4)) { ag = gen::exhaustive(i, 4); gen::weigh(ag, r); }
        else {
            double x = r.unit();
            int scale = x < .3 ? 0 : x < .9 ? 1 : 2;
            bool large = gen::large_case(i, 150);
            if (large) { do ag = gen::large(r); while (ag.m() > 260); rt().count("graphs.large"); }
            else ag = gen::any(r, scale);
            for (int t = 0; t < 3 && ag.csd() < 2; t++) ag = gen::any(r, scale);
            if (!large && ag.m() && r.chance(.05)) { gen::heavy(ag, r); rt().count("graphs.int_weights_near_the_limit"); }
            big = large || scale == 2 || ag.m() > 60;
        }
        rt().detail = ag.text();
        rt().note(rt().detail);
        if (ag.csd() >= 2) rt().sample(ag.text());
        auto o = optimum(ag);
        Opt opt { o.total, o.sorted };
        int rounds = big ? 1 : thorough ? 4 : 2;
        switch (r.below(3)) {
        case 0: graph_type<VecG<int>>(ag, opt, r, rounds, big); break;
        case 1: graph_type<SetG<double>>(ag, opt, r, rounds, big); break;
        default: graph_type<ExtG<boost::vecS>>(ag, opt, r, rounds, big);
        }
#ifdef VP_SHIM
        auto &st = sched::s().stats;
        auto &c = rt().counters;
        for (auto &x : st.regions) c["regions." + x.first] = x.second;
        for (auto &x : st.leaves) c["tasks." + x.first] = x.second;
        c["reduction.joins"] = st.joins;
        c["reduction.accumulators_started_from_identity"] = st.forks;
        c["reduction.continued_on_same_accumulator"] = st.seqs;
        c["regions.empty_range"] = st.empty;
        c["regions.nested"] = st.nested;
        c["regions.with_two_or_more_threads"] = st.multi_thread_regions;
        c["cooperative.switches_inside_tasks"] = st.switches;
        c["cooperative.yield_points"] = st.points;
        c["cooperative.watchdog_released"] = st.freerun;
        c["concurrent_vector.pushes"] = st.pushes;
        c["call_sites_times_instantiations.max_seen_by_one_shard"] = st.sites.size();
        c["max_tasks_in_a_region.summed_over_shards"] = st.max_leaves;
#endif
    });
    return rc;
}
