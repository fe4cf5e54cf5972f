// C12 (shortest-path trees), C13 (greedy_fvs), C14 (candidate collections), C16 (ForestIndex).
#include "vp_std.hpp"
#include "vp_alloc.hpp"
#include "vp_graph.hpp"
#include <parmcb/config.hpp>
#include <parmcb/parmcb.hpp>
#include <parmcb/forestindex.hpp>
#include <parmcb/sptrees.hpp>
#include <parmcb/detail/fvs.hpp>
#include <parmcb/detail/cycles.hpp>
using namespace vp;

template<class G> struct Paths { // what one tree claims, in abstract indices
    bool ok = true;
    std::vector<char> has;
    std::vector<int> pe, pv, first;      // predecessor edge / vertex, first label
    std::vector<double> w;
};

static AG pick_graph(std::uint64_t i, Rng &r, int nmax, const double *p, std::uint64_t every, double phuge) {
    std::uint64_t exh = gen::exhaustive_count(nmax);
    AG ag;
    if (i < exh) {
        ag = gen::exhaustive(i, nmax);
        std::string wn = gen::weigh(ag, r);
        if (r.chance(.5)) gen::permute(ag, r);
        ag.name += "/" + wn;
        rt().count("exhaustive_graphs");
    } else if (phuge > 0 && !rt().opt.no_oracle && gen::large_case(i, every * 60)) {
        ag = gen::vast(r, r.chance(.3));
        rt().count("graphs.more_than_65536_vertices_or_edges");
    } else if (gen::large_case(i, every)) {
        ag = r.chance(phuge) ? gen::huge(r) : (rt().opt.no_oracle ? gen::moderate(r) : gen::large(r));
        rt().count("graphs.large");
    } else {
        double x = r.unit();
        ag = gen::any(r, x < p[0] ? 0 : x < p[1] ? 1 : x < p[2] ? 2 : 3);
        if (ag.m() && r.chance(.05)) { gen::heavy(ag, r); rt().count("graphs.int_weights_near_the_limit"); }
    }
    rt().detail = ag.text();
    rt().note(rt().detail);
    if (ag.csd() >= 2) rt().sample(ag.text());
    if (ag.components() > 1) rt().count("graphs.disconnected");
    return ag;
}

// ------------------------------------------------------------------ C12
template<class G> void c12_graph(const AG &ag, const std::vector<int> &src, const std::vector<std::vector<long long>> &D, int hm, std::uint64_t hs, const char *gk, double scale) {
    typedef typename WeightsOf<G>::type WM;
    rt().stage("SPTree");
    heap::arm(hs, hm);
    {
        Built<G> b;
        b.build(ag, scale);
        WM wm = b.wm();
        auto im = boost::get(boost::vertex_index, b.g);
        int n = ag.n;
        std::vector<Paths<G>> P(n);
        std::string where = cat(gk, ", heap ", hm, ": ");
        bool bad = false;
        auto err = [&](const char *k, const std::string &m) { if (!bad) rt().fail(cat("SPTree:", k), where + m); bad = true; };
        for (int s : src) {
            if (bad) break;
            rt().st->beat++;
            parmcb::SPTree<G, WM> t(s, b.g, im, wm, boost::vertex(s, b.g));
            Paths<G> &p = P[s];
            p.has.assign(n, 0); p.pe.assign(n, -1); p.pv.assign(n, -1); p.first.assign(n, -1); p.w.assign(n, 0);
            if ((int) t.source() != s) err("source", cat("source() is ", t.source(), " for the tree of ", s));
            for (int v = 0; v < n; v++) {
                auto nd = t.node(boost::vertex(v, b.g));
                if (!nd) { if (D[s][v] >= 0) err("missing-node", cat("no node for reachable vertex ", v, " in the tree of ", s)); continue; }
                if (D[s][v] < 0) { err("spurious-node", cat("node for unreachable vertex ", v, " in the tree of ", s)); continue; }
                p.has[v] = 1;
                p.w[v] = (double) nd->weight();
                if (p.w[v] != (double) D[s][v] * b.scale) err("distance", cat("tree of ", s, ": distance of ", v, " is ", p.w[v], ", true distance ", D[s][v] * b.scale));
                if (v == s) { if (nd->has_pred()) err("root-pred", cat("the root ", s, " has a predecessor")); continue; }
                if (!nd->has_pred()) { err("no-pred", cat("tree of ", s, ": vertex ", v, " has no predecessor edge")); continue; }
                int e = b.index(nd->pred());
                if (e < 0) { err("foreign-pred", cat("tree of ", s, ": predecessor of ", v, " is not an edge of the graph")); continue; }
                if (ag.e[e].first != v && ag.e[e].second != v) { err("pred-not-incident", cat("tree of ", s, ": predecessor edge of ", v, " is not incident to it")); continue; }
                p.pe[v] = e;
                p.pv[v] = ag.e[e].first == v ? ag.e[e].second : ag.e[e].first;
                p.first[v] = (int) t.first(boost::vertex(v, b.g));
            }
            if (bad) break;
            // tree shape, root-path lengths, first labels
            for (int v = 0; v < n && !bad; v++) {
                if (!p.has[v] || v == s) continue;
                long long L = 0; int x = v, steps = 0, child = -1;
                while (x != s && steps++ <= n) {
                    if (!p.has[x] || p.pe[x] < 0) { err("broken-path", cat("tree of ", s, ": path of ", v, " breaks at ", x)); break; }
                    L += ag.w[p.pe[x]]; child = x; x = p.pv[x];
                }
                if (bad) break;
                if (x != s) { err("cyclic", cat("tree of ", s, ": predecessor edges of ", v, " do not lead to the root")); break; }
                if (L != D[s][v]) { err("path-length", cat("tree of ", s, ": root path of ", v, " has length ", L, ", distance is ", D[s][v])); break; }
                if (p.first[v] != child) { err("first-label", cat("tree of ", s, ": first(", v, ") = ", p.first[v], ", the path goes through child ", child)); break; }
            }
            rt().count("trees");
        }
        if (!bad) { // mutual consistency
            std::uint64_t pairs = 0;
            for (int u : src) for (int v : src) {
                if (bad || u == v || !P[u].has[v]) continue;
                pairs++;
                // walk both directions simultaneously: the edges of v's root path in T_u, from v upwards, must be
                // the path from v in T_v to u read from v downwards
                std::vector<int> a, c;
                for (int x = v; x != u; x = P[u].pv[x]) a.push_back(P[u].pe[x]);          // v ... u
                for (int x = u; x != v; x = P[v].pv[x]) c.push_back(P[v].pe[x]);          // u ... v
                std::reverse(c.begin(), c.end());
                if (a != c) { err("asymmetric", cat("tree path ", u, "->", v, " is not the reverse of ", v, "->", u)); break; }
                // dropping the first vertex must give the chosen path of the child
                int f = P[u].first[v];
                if (f != v && !P[f].has.empty()) {
                    std::vector<int> d;
                    for (int x = v; x != f; x = P[f].pv[x]) { if (!P[f].has[x] || P[f].pe[x] < 0) { d.clear(); break; } d.push_back(P[f].pe[x]); }
                    a.pop_back();
                    if (a != d) { err("sub-path", cat("the sub-path ", f, "->", v, " of the chosen path ", u, "->", v, " is not the chosen path")); break; }
                }
            }
            rt().count("path_pairs", pairs);
        }
    }
    heap::disarm();
}

static void c12(std::uint64_t i, Rng &r) {
    static const double p[3] = { .3, .7, .95 };
    AG ag;
    std::vector<int> src;
    bool vast = false;
    if (i >= gen::exhaustive_count(rt().opt.tier == "thorough" ? 6 : 5) && !rt().opt.no_oracle && gen::large_case(i, 2500)) { // a few sources, pairs of them adjacent
        vast = r.chance(.2);
        ag = vast ? gen::vast(r) : gen::huge(r);
        rt().count(vast ? "graphs.more_than_65536_vertices" : "graphs.huge");
        rt().detail = ag.text();
        rt().note(rt().detail);
        std::set<int> S { (int) r.below(ag.n), (int) r.below(ag.n) };
        for (int t = 0; t < (vast ? 1 : 3); t++) { auto e = ag.e[r.below(ag.m())]; S.insert(e.first); S.insert(e.second); }
        src.assign(S.begin(), S.end());
    } else {
        ag = pick_graph(i, r, rt().opt.tier == "thorough" ? 6 : 5, p, 150, 0);
        src.resize(ag.n);
        std::iota(src.begin(), src.end(), 0);
    }
    auto D = apsp(ag, src);
    if (ag.m() > ag.n - ag.components()) rt().distinct(ag.hash());
    c12_graph<VecG<double>>(ag, src, D, 0, 0, "vecS/double", 1.0);
    if (vast) return;
    c12_graph<VecG<int>>(ag, src, D, 1, r.next(), "vecS/int", 1.0);
    if (r.chance(.3)) c12_graph<SetG<double>>(ag, src, D, 1, r.next(), "setS/double", 1.0);
    else if (r.chance(.3)) c12_graph<ExtG<boost::listS>>(ag, src, D, 2, r.next(), "listS/double/weights outside", r.chance(.5) ? 1.0 : 0.25);
    else c12_graph<VecG<double>>(ag, src, D, 2, r.next(), "vecS/double", r.chance(.5) ? 0.125 : 4096.0);
}

// ------------------------------------------------------------------ C13
template<class G> void c13_graph(const AG &ag, int hm, std::uint64_t hs, int iter, const char *gk) {
    typedef typename boost::graph_traits<G>::vertex_descriptor Vertex;
    rt().stage("greedy_fvs");
    std::vector<Vertex> out;
    heap::arm(hs, hm);
    {
        Built<G> b;
        b.build(ag);
        if (iter == 0) parmcb::greedy_fvs(b.g, std::back_inserter(out));
        else if (iter == 1) {
            out.assign(ag.n * 2 + 4, (Vertex) -7);
            parmcb::greedy_fvs(b.g, out.begin());
            while (!out.empty() && out.back() == (Vertex) -7) out.pop_back();
        } else { SinkIter<Vertex> it; auto st = it.store; parmcb::greedy_fvs(b.g, it); out = *st; }
    }
    heap::disarm();
    std::vector<char> del(ag.n, 0);
    for (auto v : out) {
        if (v >= (Vertex) ag.n) { rt().fail("greedy_fvs:foreign-vertex", cat(gk, ": emitted ", v, " which is not a vertex")); return; }
        if (del[v]) { rt().fail("greedy_fvs:repeated", cat(gk, ": vertex ", v, " emitted twice")); return; }
        del[v] = 1;
    }
    std::vector<int> p(ag.n);
    std::iota(p.begin(), p.end(), 0);
    std::function<int(int)> f = [&](int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; };
    for (auto &e : ag.e) {
        if (del[e.first] || del[e.second]) continue;
        int a = f(e.first), c = f(e.second);
        if (a == c) { rt().fail("greedy_fvs:not-acyclic", cat(gk, ": after deleting the ", out.size(), " emitted vertices a cycle through edge ", e.first, "-", e.second, " remains")); return; }
        p[a] = c;
    }
    if (ag.csd() == 0 && !out.empty()) rt().fail("greedy_fvs:forest", cat(gk, ": emitted ", out.size(), " vertices for a forest"));
    rt().count("fvs_vertices", out.size());
    rt().count("calls");
}

static void c13(std::uint64_t i, Rng &r) {
    static const double p[3] = { .2, .5, .8 };
    AG ag = pick_graph(i, r, rt().opt.tier == "thorough" ? 7 : 6, p, 100, .5);
    if (ag.csd() > 0) rt().distinct(ag.hash());
    if (ag.csd() == 0) rt().count("graphs.forest");
    c13_graph<VecG<double>>(ag, 0, 0, 0, "vecS");
    if (r.chance(.5)) c13_graph<SetG<double>>(ag, 1, r.next(), (int) r.below(3), "setS");
    else c13_graph<LstG<int>>(ag, 1, r.next(), (int) r.below(3), "listS");
    AG h = ag;
    gen::permute(h, r);
    rt().detail = h.text();
    c13_graph<VecG<double>>(h, 2, r.next(), (int) r.below(3), "vecS");
}

// ------------------------------------------------------------------ C14
typedef std::pair<int, std::vector<int>> Cand; // root, sorted edges

template<class G, class Builder> bool collect(const char *name, const AG &ag, const Built<G> &b, typename WeightsOf<G>::type wm, std::set<Cand> &res) {
    typedef typename WeightsOf<G>::type WM;
    rt().stage(name);
    std::vector<parmcb::SPTree<G, WM>> trees;
    std::vector<parmcb::CandidateCycle<G, WM>> cycles;
    Builder builder;
    builder(b.g, wm, trees, cycles);
    std::string nm = name;
    for (auto &c : cycles) {
        if (c.tree() >= trees.size()) { rt().fail(nm + ":tree-id", cat("candidate names tree ", c.tree(), " of ", trees.size())); return false; }
        auto &t = trees[c.tree()];
        int root = (int) t.source();
        int e = b.index(c.edge());
        if (e < 0) { rt().fail(nm + ":foreign-edge", "candidate edge is not an edge of the graph"); return false; }
        std::vector<int> edges { e };
        std::set<int> tree_edges;
        std::vector<std::vector<int>> vs(2);
        long long W = ag.w[e];
        for (int side = 0; side < 2; side++) {
            int x = side ? ag.e[e].second : ag.e[e].first, steps = 0;
            while (true) {
                vs[side].push_back(x);
                auto nd = t.node(boost::vertex(x, b.g));
                if (!nd) { rt().fail(nm + ":unreachable", cat("candidate at root ", root, " uses unreachable vertex ", x)); return false; }
                if (x == root) break;
                if (!nd->has_pred() || steps++ > ag.n) { rt().fail(nm + ":path", cat("candidate at root ", root, ": no root path from ", x)); return false; }
                int pe = b.index(nd->pred());
                if (pe < 0) { rt().fail(nm + ":foreign-edge", "tree edge is not an edge of the graph"); return false; }
                edges.push_back(pe);
                tree_edges.insert(pe);
                W += ag.w[pe];
                x = ag.e[pe].first == x ? ag.e[pe].second : ag.e[pe].first;
            }
        }
        std::string es;
        for (int q : edges) es += cat(" ", ag.e[q].first, "-", ag.e[q].second);
        for (int v = 0; v < ag.n; v++) { // genuinely a non-tree edge of this tree
            auto nd = t.node(boost::vertex(v, b.g));
            if (nd && nd->has_pred() && b.index(nd->pred()) == e) { rt().fail(nm + ":tree-edge", cat("candidate at root ", root, " closes with a tree edge")); return false; }
        }
        std::set<int> A(vs[0].begin(), vs[0].end());
        for (int v : vs[1]) if (v != root && A.count(v)) { rt().fail(nm + ":not-simple", cat("root paths of candidate at root ", root, " meet at ", v, ":", es)); return false; }
        std::string s = simple_cycle(ag, edges);
        if (!s.empty()) { rt().fail(nm + ":not-simple", cat("candidate at root ", root, ": ", s, ":", es)); return false; }
        if ((double) c.weight() != (double) W * b.scale) { rt().fail(nm + ":weight", cat("candidate at root ", root, " records weight ", c.weight(), ", its cycle weighs ", W * b.scale, ":", es)); return false; }
        std::sort(edges.begin(), edges.end());
        res.insert({ root, edges });
    }
    rt().count(cat("candidates.", name), cycles.size());
    return true;
}

static void greedy_check(const char *name, const AG &ag, const std::set<Cand> &cs, const OracleResult<long long> &opt) {
    std::set<std::vector<int>> u;
    for (auto &c : cs) u.insert(c.second);
    std::vector<std::pair<long long, const std::vector<int>*>> v;
    for (auto &c : u) { long long W = 0; for (int e : c) W += ag.w[e]; v.push_back({ W, &c }); }
    std::stable_sort(v.begin(), v.end(), [](const std::pair<long long, const std::vector<int>*> &a, const std::pair<long long, const std::vector<int>*> &b) { return a.first < b.first; });
    Gauss G(ag.m());
    long long tot = 0;
    for (auto &c : v) { Bits b = bits(ag.m()); for (int e : *c.second) flip(b, e); if (G.insert(b)) tot += c.first; }
    if (G.rank() != ag.csd()) rt().fail(cat(name, ":insufficient-rank"), cat("greedy selection reaches dimension ", G.rank(), " of ", ag.csd()));
    else if (tot != opt.total) rt().fail(cat(name, ":insufficient-weight"), cat("greedy selection weighs ", tot, ", the optimum is ", opt.total));
}

template<class G> void c14_graph(const AG &ag, const OracleResult<long long> &opt, int hm, std::uint64_t hs, double scale) {
    typedef typename WeightsOf<G>::type WM;
    std::set<Cand> H, F, I;
    bool ok;
    heap::arm(hs, hm);
    {
        Built<G> b;
        b.build(ag, scale);
        WM wm = b.wm();
        ok = collect<G, parmcb::detail::HortonCyclesBuilder<G, WM>>("HortonCyclesBuilder", ag, b, wm, H)
                && collect<G, parmcb::detail::FVSCyclesBuilder<G, WM>>("FVSCyclesBuilder", ag, b, wm, F)
                && collect<G, parmcb::detail::ISOCyclesBuilder<G, WM>>("ISOCyclesBuilder", ag, b, wm, I);
    }
    heap::disarm();
    if (!ok) return;
    for (auto &c : F) if (!H.count(c)) { rt().fail("FVSCyclesBuilder:not-in-horton", cat("candidate at root ", c.first, " is not in Horton's collection")); break; }
    for (auto &c : I) if (!H.count(c)) { rt().fail("ISOCyclesBuilder:not-in-horton", cat("candidate at root ", c.first, " is not in Horton's collection")); break; }
    greedy_check("HortonCyclesBuilder", ag, H, opt);
    greedy_check("FVSCyclesBuilder", ag, F, opt);
    greedy_check("ISOCyclesBuilder", ag, I, opt);
    if (F.size() < H.size()) rt().count("fvs_strictly_smaller");
    if (I.size() < H.size()) rt().count("iso_strictly_smaller");
}

static void c14(std::uint64_t i, Rng &r) {
    static const double p[3] = { .35, .8, .99 };
    AG ag = pick_graph(i, r, rt().opt.tier == "thorough" ? 6 : 5, p, 100, 0);
    if (ag.csd() >= 2) rt().distinct(ag.hash());
    auto opt = optimum(ag);
    c14_graph<VecG<double>>(ag, opt, 0, 0, 1.0);
    c14_graph<VecG<int>>(ag, opt, 1, r.next(), 1.0);
    if (r.chance(.3)) c14_graph<SetG<double>>(ag, opt, 1, r.next(), 0.5);
    else c14_graph<ExtG<boost::vecS>>(ag, opt, 2, r.next(), 1.0);
}

// ------------------------------------------------------------------ C16
template<class G> void c16_index(const char *what, const AG &ag, const Built<G> &b, const parmcb::ForestIndex<G> &fi) {
    typedef typename boost::graph_traits<G>::edge_descriptor Edge;
    int m = ag.m(), c = ag.components(), dim = m - ag.n + c;
    std::string k = "ForestIndex:";
    rt().st->beat++;
    if ((long long) fi.weak_connected_components() != c) { rt().fail(k + "components", cat(what, ": reports ", fi.weak_connected_components(), " components, the graph has ", c)); return; }
    if ((long long) fi.cycle_space_dimension() != dim) { rt().fail(k + "dimension", cat(what, ": reports dimension ", fi.cycle_space_dimension(), ", m-n+c = ", dim)); return; }
    std::vector<int> seen(m, -1);
    std::vector<int> forest;
    for (int e = 0; e < m; e++) {
        std::size_t i;
        try { i = fi(b.ed[e]); } catch (const std::exception &ex) { rt().fail(k + "missing", cat(what, ": edge ", e, " has no index (", ex.what(), ")")); return; }
        if (i >= (std::size_t) m) { rt().fail(k + "range", cat(what, ": edge ", e, " has index ", i, " of ", m)); return; }
        if (seen[i] >= 0) { rt().fail(k + "not-injective", cat(what, ": edges ", seen[i], " and ", e, " share index ", i)); return; }
        seen[i] = e;
        bool on = fi.is_on_forest(b.ed[e]);
        if (on != ((long long) i >= dim)) { rt().fail(k + "off-forest", cat(what, ": edge ", e, " index ", i, " dimension ", dim, " is_on_forest ", on)); return; }
        if (on) forest.push_back(e);
    }
    for (int i = 0; i < m; i++) if (b.index(fi((std::size_t) i)) != seen[i]) { rt().fail(k + "inverse", cat(what, ": index ", i, " maps to edge ", b.index(fi((std::size_t) i)), " but edge ", seen[i], " has that index")); return; }
    for (int e = 0; e < m; e += 1 + m / 4000) { // queried with the edge in the reverse orientation
        auto r = boost::out_edges(b.ed[e].m_target, b.g);
        for (auto it = r.first; it != r.second; ++it) {
            Edge x = *it;
            if (b.index(x) == e && (fi(x) >= (std::size_t) m || seen[fi(x)] != e)) { rt().fail(k + "orientation", cat(what, ": reversed edge ", e)); return; }
        }
    }
    std::vector<int> p(ag.n);
    std::iota(p.begin(), p.end(), 0);
    std::function<int(int)> f = [&](int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; };
    int left = ag.n;
    for (int e : forest) {
        int a = f(ag.e[e].first), c2 = f(ag.e[e].second);
        if (a == c2) { rt().fail(k + "forest-cycle", cat(what, ": the on-forest edges contain a cycle")); return; }
        p[a] = c2; left--;
    }
    if (left != c) rt().fail(k + "not-spanning", cat(what, ": the on-forest edges leave ", left, " components of ", c));
    rt().count("indices");
    rt().count("edges_indexed", m);
}

template<class G> void c16_graph(const AG &ag, int hm, std::uint64_t hs, const char *gk) {
    rt().stage("ForestIndex");
    heap::arm(hs, hm);
    {
        Built<G> b;
        b.build(ag);
        parmcb::ForestIndex<G> fi(b.g);
        c16_index(gk, ag, b, fi);
        parmcb::ForestIndex<G> copy(fi);
        c16_index("copy", ag, b, copy);
        Built<G> o;
        AG small = gen::cycle(4);
        small.w.assign(4, 1);
        o.build(small);
        parmcb::ForestIndex<G> other(o.g);
        other = fi;
        c16_index("assigned", ag, b, other);
        other = *&other;
        c16_index("self-assigned", ag, b, other);
    }
    heap::disarm();
}

static void c16(std::uint64_t i, Rng &r) {
    static const double p[3] = { .2, .5, .85 };
    AG ag = pick_graph(i, r, rt().opt.tier == "thorough" ? 7 : 6, p, 150, .5);
    if (ag.csd() > 0 || ag.components() > 1) rt().distinct(ag.hash());
    c16_graph<VecG<double>>(ag, 0, 0, "vecS");
    c16_graph<VecG<int>>(ag, 1, r.next(), "vecS");
    if (r.chance(.5)) c16_graph<SetG<double>>(ag, (int) r.below(3), r.next(), "setS");
    else c16_graph<LstG<double>>(ag, (int) r.below(3), r.next(), "listS");
}

int main(int argc, char **argv) {
    rt().init(argc, argv);
    heap::init();
    const std::string prop = rt().opt.prop;
    return rt().loop([&](std::uint64_t i, Rng &r) {
        if (prop == "C12") c12(i, r);
        else if (prop == "C13") c13(i, r);
        else if (prop == "C14") c14(i, r);
        else if (prop == "C16") c16(i, r);
        else throw std::logic_error("bad property");
    });
}
