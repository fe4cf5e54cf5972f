// C20: histories of set_global_tbb_concurrency calls; the TBB runtime is asked what it allows right after each call, while
// library calls run, and later; and the threads that are inside the library's tasks at the same time are counted.
#include "vp_std.hpp"
#include "vp_graph.hpp"
#include <parmcb/parmcb.hpp>
#include <parmcb/util.hpp>
#include <tbb/global_control.h>
#include <tbb/task_arena.h>
#include <tbb/parallel_for.h>
using namespace vp;

void vp_set_from_other_unit(std::size_t n); // h_conc_b.cpp

static std::size_t allowed() { return tbb::global_control::active_value(tbb::global_control::max_allowed_parallelism); }

static std::map<std::size_t, std::size_t> REF; // what the runtime reports when one live control object says n
static std::size_t ref(std::size_t n) { return REF.at(n); }

// ---- observation from inside the library's tasks, through its weight map
static std::atomic<int> INSIDE, MAXIN;
static std::atomic<unsigned long> SAMPLES, WRONG;
static std::atomic<std::size_t> WANT, SAW;
static std::mutex MU;
static std::set<std::thread::id> THREADS;

static void observe(int spin) {
    int now = ++INSIDE;
    int m = MAXIN.load();
    while (now > m && !MAXIN.compare_exchange_weak(m, now)) ;
    if ((SAMPLES++ & 15) == 0) {
        std::size_t v = allowed();
        if (v != WANT.load()) { WRONG++; SAW = v; }
        std::lock_guard<std::mutex> l(MU);
        THREADS.insert(std::this_thread::get_id());
    }
    for (volatile int i = 0; i < spin; i++) ;
    --INSIDE;
}

struct SpyMap: boost::put_get_helper<double, SpyMap> {
    typedef double value_type; typedef double reference; typedef boost::graph_traits<VecG<double>>::edge_descriptor key_type; typedef boost::readable_property_map_tag category;
    boost::property_map<VecG<double>, boost::edge_weight_t>::const_type base;
    int spin;
    SpyMap(boost::property_map<VecG<double>, boost::edge_weight_t>::const_type base, int spin) : base(base), spin(spin) {}
    double operator[](const key_type &e) const { observe(spin); return boost::get(base, e); }
};

static const char *LIB[] = { "mcb_sva_signed_tbb", "mcb_sva_fvs_trees_tbb", "mcb_sva_iso_trees_tbb", "approx_mcb_sva_signed_tbb", "approx_mcb_sva_fvs_trees_tbb", "approx_mcb_sva_iso_trees_tbb" };

static void call_library(int a, const VecG<double> &g, int spin) {
    typedef boost::graph_traits<VecG<double>>::edge_descriptor Edge;
    std::list<std::list<Edge>> out;
    SpyMap wm(boost::get(boost::edge_weight, g), spin);
    switch (a) {
    case 0: parmcb::mcb_sva_signed_tbb(g, wm, std::back_inserter(out)); break;
    case 1: parmcb::mcb_sva_fvs_trees_tbb(g, wm, std::back_inserter(out)); break;
    case 2: parmcb::mcb_sva_iso_trees_tbb(g, wm, std::back_inserter(out)); break;
    case 3: parmcb::approx_mcb_sva_signed_tbb(g, wm, 2, std::back_inserter(out)); break;
    case 4: parmcb::approx_mcb_sva_fvs_trees_tbb(g, wm, 2, std::back_inserter(out)); break;
    case 5: parmcb::approx_mcb_sva_iso_trees_tbb(g, wm, 2, std::back_inserter(out)); break;
    }
}

static void reset_observation(std::size_t n) {
    MAXIN = 0; SAMPLES = 0; WRONG = 0; WANT = ref(n);
    std::lock_guard<std::mutex> l(MU);
    THREADS.clear();
}

// most threads that are inside tasks of a plain parallel_for at once
static int busy_width() {
    std::atomic<int> in(0), mx(0);
    tbb::parallel_for(0, 64, [&](int) {
        int now = ++in, m = mx.load();
        while (now > m && !mx.compare_exchange_weak(m, now)) ;
        auto t = std::chrono::steady_clock::now() + std::chrono::microseconds(60);
        while (std::chrono::steady_clock::now() < t) ;
        --in;
    });
    return mx;
}

int main(int argc, char **argv) {
    rt().init(argc, argv);
    std::size_t hw = tbb::this_task_arena::max_concurrency();
    std::vector<std::size_t> NS;
    for (std::size_t n = 1; n <= 24; n++) NS.push_back(n);
    for (std::size_t n : { hw - 1, hw, hw + 1, 2 * hw, (std::size_t) 32, (std::size_t) 33, (std::size_t) 64, (std::size_t) 100, (std::size_t) 255, (std::size_t) 256 }) if (n >= 1) NS.push_back(n);
    for (std::size_t n : NS) { tbb::global_control c(tbb::global_control::max_allowed_parallelism, n); REF[n] = allowed(); }
    const std::size_t initial = allowed();
    bool any = false; // a limit has been set in this process
    std::size_t last = 0;
    return rt().loop([&](std::uint64_t i, Rng &r) {
        // the history of the case; the process carries the limit of the previous case over
        AG ag;
        do ag = gen::any(r, r.chance(.7) ? 1 : 2); while (ag.csd() < 2);
        Built<VecG<double>> b;
        b.build(ag);
        int len = i < NS.size() ? 1 : (int) r.in(1, 8);
        std::string hist = any ? cat("(in force: ", last, ")") : "(fresh process)";
        std::uint64_t h = hash_str(hist);
        for (int s = 0; s < len; s++) {
            std::size_t n = i < NS.size() ? NS[i] : r.chance(.6) ? (std::size_t) r.in(1, 8) : NS[r.below(NS.size())];
            if (any && r.chance(.15)) n = last; // the same value again
            int how = (int) r.below(6);
            static const char *HOW[] = { "set", "set-from-a-thread-that-ends", "set-from-another-translation-unit", "set-inside-an-arena", "set-inside-a-task", "set-twice" };
            hist += cat(" ", HOW[how], "(", n, ")");
            h = mix64(h ^ (n * 8 + how));
            rt().detail = hist;
            rt().note(hist);
            rt().stage("set_global_tbb_concurrency");
            switch (how) {
            case 0: parmcb::set_global_tbb_concurrency(n); break;
            case 1: { std::thread t([n] { parmcb::set_global_tbb_concurrency(n); }); t.join(); break; }
            case 2: vp_set_from_other_unit(n); break;
            case 3: { tbb::task_arena a(2); a.execute([n] { parmcb::set_global_tbb_concurrency(n); }); break; }
            case 4: tbb::parallel_for(0, 1, [n](int) { parmcb::set_global_tbb_concurrency(n); }); break;
            case 5: parmcb::set_global_tbb_concurrency(r.in(1, 40)); parmcb::set_global_tbb_concurrency(n); break;
            }
            any = true;
            last = n;
            rt().count(cat("set.", HOW[how]));
            rt().count("limits_set");
            std::size_t v = allowed();
            if (v != ref(n)) {
                rt().fail("set_global_tbb_concurrency:allowed", cat("after the call the runtime allows ", v, ", expected ", ref(n), " (initially ", initial, ")"));
                return;
            }
            { // also as seen by another thread
                std::size_t w = 0;
                std::thread t([&w] { w = allowed(); });
                t.join();
                if (w != ref(n)) rt().fail("set_global_tbb_concurrency:allowed-other-thread", cat("another thread sees ", w, ", expected ", ref(n)));
            }
            if (r.chance(.2)) { // a control object of the caller's comes and goes
                std::size_t k = r.in(1, 12);
                {
                    tbb::global_control c(tbb::global_control::max_allowed_parallelism, k);
                    rt().count("foreign_control_objects");
                }
                if (allowed() != ref(n)) rt().fail("set_global_tbb_concurrency:allowed-later", cat("a foreign control object of ", k, " came and went: ", allowed(), ", expected ", ref(n)));
            }
            int calls = (int) r.in(1, 3);
            for (int c = 0; c < calls; c++) {
                int a = (int) r.below(6);
                // workers that were busy when a smaller limit was set leave when they run out of work: give them the chance
                int width = 0;
                for (int attempt = 0; attempt < 12; attempt++) {
                    reset_observation(n);
                    rt().stage(LIB[a]);
                    if (r.chance(.15)) { std::thread t([&] { call_library(a, b.g, 40); }); t.join(); }
                    else call_library(a, b.g, 40);
                    width = MAXIN.load();
                    rt().count("weight_map_reads_observed", SAMPLES.load());
                    if (WRONG.load()) break;
                    if (width <= (int) std::max<std::size_t>(n, 1)) break;
                    rt().count("width_retries");
                    std::this_thread::sleep_for(std::chrono::milliseconds(5 << attempt));
                }
                rt().count("library_calls");
                rt().count(cat("width.", width));
                if (WRONG.load()) rt().fail(cat(LIB[a], ":allowed-during-call"), cat("inside the tasks the runtime allows ", SAW.load(), ", expected ", WANT.load()));
                if (width > (int) n) rt().fail(cat(LIB[a], ":too-many-threads"), cat(width, " threads were inside the library's tasks at once, the limit is ", n));
            }
            if (r.chance(.3)) {
                rt().stage("parallel_for");
                int width = 0;
                for (int attempt = 0; attempt < 12; attempt++) {
                    width = busy_width();
                    if (width <= (int) n) break;
                    rt().count("width_retries");
                    std::this_thread::sleep_for(std::chrono::milliseconds(5 << attempt));
                }
                rt().count("busy_loops");
                rt().count(cat("busy_width.", width, "_of_", std::min(n, hw)));
                if (width > (int) n) rt().fail("parallel_for:too-many-threads", cat(width, " threads at once, the limit is ", n));
            }
            if (allowed() != ref(n)) rt().fail("set_global_tbb_concurrency:allowed-later", cat("later the runtime allows ", allowed(), ", expected ", ref(n)));
        }
        rt().distinct(h);
        if (len > 2) rt().sample(hist);
    });
}
