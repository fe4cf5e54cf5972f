// C09: exact entry points on weights whose sums are not exact in double arithmetic; judged in exact integer arithmetic.
#include "vp_std.hpp"
#include "vp_alloc.hpp"
#include "vp_graph.hpp"
#include <parmcb/parmcb.hpp>
#include "vp_float.hpp"
using namespace vp;

enum Algo { SIGNED, FVS, ISO, SIGNED_TBB, FVS_TBB, ISO_TBB, NALGO };
static const char *ANAME[] = { "mcb_sva_signed", "mcb_sva_fvs_trees", "mcb_sva_iso_trees", "mcb_sva_signed_tbb", "mcb_sva_fvs_trees_tbb", "mcb_sva_iso_trees_tbb" };

template<class G, class WM, class Out>
typename boost::property_traits<WM>::value_type call(int a, const G &g, WM wm, Out out) {
    switch (a) {
    case SIGNED: return parmcb::mcb_sva_signed(g, wm, out);
    case FVS: return parmcb::mcb_sva_fvs_trees(g, wm, out);
    case ISO: return parmcb::mcb_sva_iso_trees(g, wm, out);
#ifdef PARMCB_HAVE_TBB
    case SIGNED_TBB: return parmcb::mcb_sva_signed_tbb(g, wm, out);
    case FVS_TBB: return parmcb::mcb_sva_fvs_trees_tbb(g, wm, out);
    case ISO_TBB: return parmcb::mcb_sva_iso_trees_tbb(g, wm, out);
#endif
    }
    throw std::logic_error("bad algo");
}

template<class G> void one(int a, const FG &fg, i128 opt, int hm, std::uint64_t hs) {
    typedef typename boost::graph_traits<G>::edge_descriptor Edge;
    rt().stage(ANAME[a]);
    double ret = 0;
    Cycles cs;
    heap::arm(hs, hm);
    try {
        Built<G> b;
        fg.build(b);
        std::list<std::list<Edge>> out;
        ret = call(a, b.g, b.wm(), std::back_inserter(out));
        cs = to_cycles(b, out);
        heap::disarm();
    } catch (const std::exception &ex) {
        heap::disarm();
        rt().fail(cat(ANAME[a], ":exception"), cat("exception escaped: ", ex.what()));
        return;
    }
    judge_float(ANAME[a], fg, opt, ret, cs);
}

int main(int argc, char **argv) {
    rt().init(argc, argv);
    heap::init();
    return rt().loop([&](std::uint64_t i, Rng &r) {
        FG fg;
        draw_float(fg, i, r);
        i128 opt = fg.optimum();
        bool tbb = i % 2 == 0;
        for (int a = 0; a < NALGO; a++) {
            if (a >= SIGNED_TBB && !tbb) break;
            one<VecG<double>>(a, fg, opt, 0, 0);
            if (r.chance(.3)) {
                if (r.chance(.5)) one<SetG<double>>(a, fg, opt, (int) r.below(3), r.next());
                else one<ExtG<boost::vecS>>(a, fg, opt, (int) r.in(1, 2), r.next());
            }
        }
    });
}
