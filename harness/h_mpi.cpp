// C04 (and, with --prop C08, its MPI backend): every MPI entry point on sub-communicators of every size, each rank with
// a heap layout of its own, with delays injected at the MPI boundary. Launched by mpiexec.
#include "vp_std.hpp"
#include "vp_alloc.hpp"
#include "vp_graph.hpp"
#include <boost/mpi/environment.hpp>
#include <boost/mpi/communicator.hpp>
#include <parmcb/config.hpp>
#include <parmcb/mpi/parmcb.hpp>
#include "vp_float.hpp"
#include <tbb/global_control.h>
using namespace vp;

// ---------------------------------------------------------------- MPI boundary: counts and delays
namespace shim {
static std::uint64_t calls = 0, delayed = 0;
static bool on = false;
static double p = 0;
static Rng rng(1);
static void tick() {
    calls++;
    if (on && p > 0 && rng.chance(p)) { delayed++; ::usleep((useconds_t) rng.below(1500)); }
}
}
#ifndef VP_NO_PMPI
extern "C" {
int MPI_Send(const void *b, int c, MPI_Datatype t, int d, int tag, MPI_Comm m) { shim::tick(); return PMPI_Send(b, c, t, d, tag, m); }
int MPI_Recv(void *b, int c, MPI_Datatype t, int s, int tag, MPI_Comm m, MPI_Status *st) { shim::tick(); return PMPI_Recv(b, c, t, s, tag, m, st); }
int MPI_Isend(const void *b, int c, MPI_Datatype t, int d, int tag, MPI_Comm m, MPI_Request *r) { shim::tick(); return PMPI_Isend(b, c, t, d, tag, m, r); }
int MPI_Irecv(void *b, int c, MPI_Datatype t, int s, int tag, MPI_Comm m, MPI_Request *r) { shim::tick(); return PMPI_Irecv(b, c, t, s, tag, m, r); }
int MPI_Bcast(void *b, int c, MPI_Datatype t, int r, MPI_Comm m) { shim::tick(); return PMPI_Bcast(b, c, t, r, m); }
int MPI_Scatter(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt_, int root, MPI_Comm m) { shim::tick(); return PMPI_Scatter(sb, sc, st, rb, rc, rt_, root, m); }
int MPI_Scatterv(const void *sb, const int *sc, const int *d, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt_, int root, MPI_Comm m) { shim::tick(); return PMPI_Scatterv(sb, sc, d, st, rb, rc, rt_, root, m); }
int MPI_Reduce(const void *sb, void *rb, int c, MPI_Datatype t, MPI_Op o, int root, MPI_Comm m) { shim::tick(); return PMPI_Reduce(sb, rb, c, t, o, root, m); }
}
#endif

enum { NALGO = 5 };
static const char *ANAME[] = { "mcb_sva_signed_mpi", "mcb_sva_fvs_trees_mpi", "mcb_sva_iso_trees_mpi", "mcb_sva_fvs_trees_tbb_mpi", "mcb_sva_iso_trees_tbb_mpi" };

template<class G, class WM, class Out> double call(int a, const G &g, WM wm, Out out, boost::mpi::communicator &c) {
    switch (a) {
    case 0: return (double) parmcb::mcb_sva_signed_mpi(g, wm, out, c);
    case 1: return (double) parmcb::mcb_sva_fvs_trees_mpi(g, wm, out, c);
    case 2: return (double) parmcb::mcb_sva_iso_trees_mpi(g, wm, out, c);
    case 3: return (double) parmcb::mcb_sva_fvs_trees_tbb_mpi(g, wm, out, c);
    default: return (double) parmcb::mcb_sva_iso_trees_tbb_mpi(g, wm, out, c);
    }
}

static int wrank, wsize;
static std::string g_cfg;

// one call on communicator c by all its ranks; verdict on its rank 0
template<class G> void one(int a, const AG &ag, const OracleResult<long long> &opt, boost::mpi::communicator &c, Rng &mine, const char *gk, const FG *fg = nullptr, i128 fopt = 0) {
    typedef typename boost::graph_traits<G>::edge_descriptor Edge;
    rt().stage(ANAME[a]);
    int hm = (int) mine.below(3);
    std::uint64_t hs = mine.next();
    std::vector<std::pair<Cycles, double>> res;
    Cycles cycles;
    double ret = 0;
    std::string cfg = cat("communicator of ", c.size(), " ranks, graph type ", gk, ": ");
    // leave rubbish behind in the allocator so that equal allocation sequences land at unequal places
    std::vector<std::unique_ptr<char[]>> holes;
    for (int t = (int) mine.below(40); t > 0; --t) holes.emplace_back(new char[mine.below(300) + 1]);
    for (auto &h : holes) if (mine.chance(.5)) h.reset();
    heap::arm(hs, hm);
    {
        Built<G> b;
        if (fg) fg->build(b);
        else b.build(ag);
        if (hs % 3 != 0) heap::disarm();
        std::list<std::list<Edge>> out;
        try {
            ret = call(a, b.g, b.wm(), std::back_inserter(out), c);
        } catch (const std::exception &ex) {
            heap::disarm();
            rt().fail(cat(ANAME[a], ":exception"), cat(cfg, "on its rank ", c.rank(), ": ", ex.what()));
            MPI_Abort(MPI_COMM_WORLD, 7);
        }
        if (!fg) ret /= b.scale; // a power of two: exact
        cycles = to_cycles(b, out);
        heap::disarm();
    }
    rt().count(cat("calls.", ANAME[a]));
    if (rt().opt.no_oracle) return; // sanitizer runs
    if (c.rank() != 0) {
        rt().count("silent_ranks_checked");
        if (!cycles.empty() && !fg) rt().fail(cat(ANAME[a], ":emitted-elsewhere"), cat(cfg, "rank ", c.rank(), " emitted ", cycles.size(), " cycles"));
        return;
    }
    rt().count(cat("communicator.size.", c.size()));
    rt().count("cycles_checked", cycles.size());
    if (fg) { judge_float(ANAME[a], *fg, fopt, ret, cycles); return; }
    if (rt().opt.prop == "C08") { // the value every backend must agree on
        if (ret != (double) opt.total) rt().fail(cat(ANAME[a], ":backend"), cat(cfg, "returned ", ret, ", the sequential variants return ", opt.total));
        return;
    }
    std::string e = basis_error(ag, cycles);
    if (!e.empty()) { rt().fail(cat(ANAME[a], ":basis"), cfg + e); return; }
    auto cw = cycle_weights(ag, cycles);
    if (ret != (double) total(cw)) rt().fail(cat(ANAME[a], ":returned-weight"), cat(cfg, "returned ", ret, " but the emitted cycles weigh ", total(cw)));
    else if (total(cw) != opt.total) rt().fail(cat(ANAME[a], ":not-minimum"), cat(cfg, "emitted weight ", total(cw), ", optimum ", opt.total));
    else if (cw != opt.sorted) rt().fail(cat(ANAME[a], ":weight-vector"), cat(cfg, "sorted cycle weights differ from those of a minimum cycle basis"));
}

int main(int argc, char **argv) {
    boost::mpi::environment env(argc, argv, boost::mpi::threading::multiple);
    boost::mpi::communicator world;
    wrank = world.rank(); wsize = world.size();
    if (wrank) // the driver watches rank 0; the others keep files of their own
        for (int i = 1; i + 1 < argc; i++) {
            std::string a = argv[i];
            if (a == "--out" || a == "--status" || a == "--hashes") argv[i + 1] = ::strdup((std::string(argv[i + 1]) + ".r" + std::to_string(wrank)).c_str());
        }
    rt().init(argc, argv);
    heap::init();
    shim::rng = Rng(mix64(rt().opt.seed * 1000 + wrank));
    bool stopped = false;
    int maxviol = rt().opt.maxviol;
    rt().opt.maxviol = 1 << 30;
    rt().loop([&](std::uint64_t i, Rng &r) {
        if (stopped) return;
        AG ag;
        FG fg;
        i128 fopt = 0;
        bool fl = rt().opt.prop == "C09"; // weights whose sums are not exact
        if (fl) { draw_float(fg, i, r); ag = fg.g; fopt = fg.optimum(); }
        else if (i < gen::exhaustive_count(4)) { ag = gen::exhaustive(i, 4); gen::weigh(ag, r); if (r.chance(.5)) gen::permute(ag, r); }
        else if (gen::large_case(i, 100)) { if (rt().opt.no_oracle) ag = gen::moderate(r); else do ag = gen::large(r); while (ag.m() > 260); if (wrank == 0) rt().count("graphs.large"); }
        else { double x = r.unit(); ag = gen::any(r, x < .25 ? 0 : x < .8 ? 1 : x < .98 ? 2 : 3); if (ag.m() && r.chance(.05)) { gen::heavy(ag, r); if (wrank == 0) rt().count("graphs.int_weights_near_the_limit"); } }
        OracleResult<long long> opt;
        if (!fl) {
            rt().detail = ag.text();
            rt().note(rt().detail);
            if (!rt().opt.no_oracle) opt = optimum(ag);
        }
        if (wrank == 0 && !fl && ag.csd() >= 1) { rt().distinct(ag.hash()); rt().sample(ag.text()); }
        int algo_mask = 1 | (int) r.below(32); // the signed variant always, the others at random
        int s = rt().opt.extra == "world" ? wsize : (int) r.in(1, wsize);
        bool reversed = r.chance(.3);
        shim::p = r.chance(.4) ? .05 : 0;
        std::size_t workers = (std::size_t) r.in(1, 3);
        tbb::global_control gc(tbb::global_control::max_allowed_parallelism, workers);
        int gk = (int) r.below(3);
        int color = wrank < s ? 0 : 1;
        Rng mine(mix64(i * 131 + wrank) ^ rt().opt.seed);
        boost::mpi::communicator c = world.split(color, reversed ? wsize - wrank : wrank);
        shim::on = true;
        for (int a = 0; a < NALGO; a++) {
            if (!(algo_mask >> a & 1)) continue;
            if (fl) { if (gk) one<ExtG<boost::vecS>>(a, ag, opt, c, mine, "vecS/double/weights outside", &fg, fopt); else one<SetG<double>>(a, ag, opt, c, mine, "setS/double", &fg, fopt); }
            else if (gk == 0) one<VecG<int>>(a, ag, opt, c, mine, "vecS/int");
            else if (gk == 1) one<SetG<double>>(a, ag, opt, c, mine, "setS/double");
            else one<ExtG<boost::vecS>>(a, ag, opt, c, mine, "vecS/double/weights outside");
        }
        shim::on = false;
        rt().stage("barrier");
        int v = rt().violations, tot = 0;
        MPI_Allreduce(&v, &tot, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
        if (tot >= maxviol) { stopped = true; rt().count("stopped_early"); }
        rt().counters["mpi_calls_seen"] = shim::calls;
        rt().counters["mpi_calls_delayed"] = shim::delayed;
        if (wrank) rt().evaluations--; // one evaluation per case, not per rank
    });
    return 0; // violations travel in the output files: a non-zero status would make mpiexec end the other ranks
}
