// C10: read_dimacs_from_file and the three input predicates.
#include "vp_std.hpp"
#include "vp_rng.hpp"
#include "vp_runtime.hpp"
#include "vp_gen.hpp"
#include "vp_graph.hpp"
#include <parmcb/config.hpp>
#include <parmcb/util.hpp>
using namespace vp;

struct Text {
    std::string s;
    int n = 0;
    std::vector<std::pair<long long, long long>> e; // 1-based as written
    std::vector<double> w;
    bool bad = false; // an edge names an undeclared vertex
    std::string shape;
};

static std::string wtext(Rng &r) {
    char b[64];
    switch (r.below(14)) {
    case 12: std::snprintf(b, sizeof b, ".%lld", r.in(1, 999)); break;
    case 13: std::snprintf(b, sizeof b, "%lld.", r.in(0, 999)); break;
    case 0: std::snprintf(b, sizeof b, "%lld", r.in(1, 9)); break;
    case 1: std::snprintf(b, sizeof b, "%lld", r.in(10, 100000)); break;
    case 2: std::snprintf(b, sizeof b, "%.1f", r.unit() * 10); break;
    case 3: std::snprintf(b, sizeof b, "%.6f", r.unit() * 100); break;
    case 4: std::snprintf(b, sizeof b, "%.17g", r.unit()); break;
    case 5: std::snprintf(b, sizeof b, "%.3e", r.unit() * 1e5); break;
    case 6: std::snprintf(b, sizeof b, "%.4E", r.unit() * 1e-5); break;
    case 7: std::snprintf(b, sizeof b, "-%lld", r.in(1, 50)); break;
    case 8: return r.chance(.5) ? "0" : "0.0";
    case 9: std::snprintf(b, sizeof b, "-%.3f", r.unit()); break;
    case 10: std::snprintf(b, sizeof b, "1e%lld", r.in(-300, 300)); break;
    default: std::snprintf(b, sizeof b, "%llu", (unsigned long long) (r.next() >> 12)); break;
    }
    return b;
}

static std::string comment(Rng &r) {
    std::string c = r.chance(.7) ? "c" : "#";
    switch (r.below(9)) {
    case 0: return c;
    case 1: return c + " a comment";
    case 2: return c + " p edge 7 9";
    case 3: return c + " e 1 2 3";
    case 4: return c + "e 1 2";
    case 5: return c + " nodes: 4 edges: 3 \t ";
    case 6: { // long, up to what the reader's buffer holds
        std::size_t L = (std::size_t) r.in(700, 1021);
        std::string t = c + " ";
        while (t.size() < L) t += (char) ('a' + r.below(26));
        return t;
    }
    case 7: {
        static const std::size_t B[] = { 63, 64, 79, 80, 99, 100, 127, 128, 199, 200, 255, 256, 511, 512, 999, 1000 }; // where a smaller buffer would end
        std::size_t at = B[r.below(16)];
        std::string t = c;
        while (t.size() < at) t += 'x';
        static const char *T[] = { "e 1 1 5", "p edge 3 1", "a 1 2", "e 2 1 -4" };
        return t + T[r.below(4)];
    }
    default: { // text of nothing but edge-like tokens, long
        std::string t = c; std::size_t L = (std::size_t) r.in(10, 1010);
        while (t.size() < L) t += " e 1 2 3";
        return t;
    }
    }
}

static Text make(Rng &r) {
    Text t;
    std::string sep = r.chance(.8) ? " " : r.chance(.5) ? "\t" : "  ";
    double pc = r.chance(.5) ? 0.0 : r.unit() * .4;
    t.n = (int) (r.chance(.05) ? 0 : r.chance(.7) ? r.in(1, 12) : r.in(13, r.chance(.1) ? 1500 : 130));
    bool vast = r.chance(.002);
    if (vast) t.n = (int) (r.chance(.5) ? r.in(1500, 20000) : r.in(65530, 70000));
    int m = t.n == 0 ? 0 : (int) (r.chance(.1) ? 0 : r.in(0, vast ? std::min(t.n, 9000) : 2 * t.n + 3));
    double ploop = r.chance(.3) ? .1 : 0, pdup = r.chance(.3) ? .2 : 0, pw = r.unit() < .2 ? 0.0 : r.unit() < .3 ? 1.0 : r.unit();
    bool pos = r.chance(.6);
    std::set<std::pair<long long, long long>> seen;
    for (int i = 0; i < m; i++) {
        long long u, v;
        if (!t.e.empty() && r.chance(pdup)) { auto q = r.pick(t.e); u = q.first; v = q.second; if (r.chance(.5)) std::swap(u, v); }
        else if (r.chance(ploop)) { u = v = r.in(1, t.n); }
        else { u = r.in(1, t.n); v = r.in(1, t.n); if (u == v && ploop == 0) continue; if (pdup == 0 && !seen.insert({ std::min(u, v), std::max(u, v) }).second) continue; }
        t.e.push_back({ u, v });
    }
    std::vector<std::string> ws;
    for (std::size_t i = 0; i < t.e.size(); i++) {
        std::string x;
        if (r.chance(pw)) { x = wtext(r); if (pos) while (std::strtod(x.c_str(), 0) <= 0) x = wtext(r); }
        ws.push_back(x);
        t.w.push_back(x.empty() ? 1.0 : std::strtod(x.c_str(), 0));
    }
    if (r.chance(.12)) { // one bad endpoint
        long long x;
        switch (r.below(7)) {
        case 0: x = 0; break;
        case 1: x = t.n + 1; break;
        case 2: x = -1; break;
        case 3: x = t.n + r.in(1, 1000000); break;
        case 4: x = -r.in(1, 100000); break;
        case 5: x = 4294967296LL * r.in(1, 1000) + r.in(1, std::max(1, t.n)); break;
        default: x = 2147483648LL + r.in(0, 100); break;
        }
        long long o = t.n > 0 ? r.in(1, t.n) : x;
        std::size_t at = r.below(t.e.size() + 1);
        t.e.insert(t.e.begin() + at, r.chance(.5) ? std::make_pair(x, o) : std::make_pair(o, x));
        t.w.insert(t.w.begin() + at, 1.0);
        ws.insert(ws.begin() + at, r.chance(.5) ? "" : "1");
        t.bad = true;
    }
    static const char *KIND[] = { "edge", "col", "sp", "mcb", "max" };
    auto &s = t.s;
    auto cm = [&]() { while (r.chance(pc)) { s += comment(r); s += '\n'; } };
    cm();
    s += cat("p", sep, KIND[r.below(5)], sep, t.n, sep, t.e.size()) + "\n";
    int letter = (int) r.below(3); // e, a, mixed
    for (std::size_t i = 0; i < t.e.size(); i++) {
        cm();
        char l = letter == 0 ? 'e' : letter == 1 ? 'a' : r.chance(.5) ? 'e' : 'a';
        s += l; s += sep; s += cat(t.e[i].first); s += sep; s += cat(t.e[i].second);
        if (!ws[i].empty()) { s += sep; s += ws[i]; }
        if (r.chance(.02)) s += std::string(r.below(4), ' ');
        if (r.chance(.01)) s += std::string(r.below(970), ' '); // still shorter than the reader's buffer
        s += '\n';
    }
    cm();
    if (r.chance(.45)) { s.pop_back(); t.shape = "no-final-newline"; }
    else t.shape = "final-newline";
    return t;
}

template<class G> static void predicates(const G &g, const std::vector<std::pair<long long, long long>> &e, const std::vector<double> &w, const char *src) {
    bool loop = false, mult = false, np = false;
    std::set<std::pair<long long, long long>> s;
    for (std::size_t i = 0; i < e.size(); i++) {
        if (e[i].first == e[i].second) loop = true;
        if (!s.insert({ std::min(e[i].first, e[i].second), std::max(e[i].first, e[i].second) }).second) mult = true;
        if (w[i] <= 0) np = true;
    }
    rt().stage("predicates");
    if (parmcb::has_loops(g) != loop) rt().fail("has_loops", cat(src, ": answers ", !loop));
    if (!loop && parmcb::has_multiple_edges(g) != mult) rt().fail("has_multiple_edges", cat(src, ": answers ", !mult)); // specified for loop-free multigraphs
    if (parmcb::has_non_positive_weights(g, boost::get(boost::edge_weight, g)) != np) rt().fail("has_non_positive_weights", cat(src, ": answers ", !np));
    rt().count("predicate_calls", 3);
    rt().count(cat("predicates.loop=", loop, ",multi=", mult, ",nonpos=", np));
}

template<class G> static void read_one(const Text &t, const char *gk) {
    rt().stage("read_dimacs_from_file");
    G g;
    FILE *fp = ::fmemopen((void*) t.s.data(), t.s.size(), "r");
    if (!fp) { std::perror("fmemopen"); std::exit(3); }
    bool threw = false;
    std::string what;
    try { parmcb::read_dimacs_from_file(fp, g); } catch (const std::exception &ex) { threw = true; what = ex.what(); } catch (...) { threw = true; what = "?"; }
    std::fclose(fp);
    std::string k = cat("read_dimacs_from_file:"), sh = cat(gk, ", ", t.shape, ": ");
    rt().count("reads"); rt().count("reads." + t.shape);
    if (t.bad) { rt().count("reads.undeclared-vertex"); if (!threw) rt().fail(k + "undeclared-vertex", sh + "an edge names an undeclared vertex but no error was raised"); return; }
    if (threw) { rt().fail(k + "threw", sh + "raised an error on a valid text: " + what); return; }
    if ((int) boost::num_vertices(g) != t.n) { rt().fail(k + "vertices", cat(sh, "graph has ", boost::num_vertices(g), " vertices, the problem line declares ", t.n)); return; }
    if (boost::num_edges(g) != t.e.size()) { rt().fail(k + "edges", cat(sh, "graph has ", boost::num_edges(g), " edges, the text has ", t.e.size(), " edge lines")); return; }
    std::size_t i = 0;
    auto wm = boost::get(boost::edge_weight, g);
    typedef typename boost::property_traits<typename boost::property_map<G, boost::edge_weight_t>::type>::value_type W;
    for (auto p = boost::edges(g); p.first != p.second; ++p.first, ++i) {
        auto e = *p.first;
        long long u = (long long) boost::source(e, g) + 1, v = (long long) boost::target(e, g) + 1;
        auto x = t.e[i];
        if (!((u == x.first && v == x.second) || (u == x.second && v == x.first))) { rt().fail(k + "endpoints", cat(sh, "edge #", i + 1, " joins ", u, " and ", v, ", the text says ", x.first, " and ", x.second)); return; }
        if (!(boost::get(wm, e) == (W) t.w[i])) { rt().fail(k + "weight", cat(sh, "edge #", i + 1, " has weight ", boost::get(wm, e), ", the text says ", t.w[i])); return; }
        rt().count("edges_compared");
    }
    std::vector<double> w;
    for (double x : t.w) w.push_back((double) (W) x);
    predicates(g, t.e, w, gk);
}

// all multigraphs on <= 3 vertices with <= 3 edges, and weight patterns
static bool c10_small(std::uint64_t i) {
    std::vector<std::pair<long long, long long>> all;
    for (int u = 1; u <= 3; u++) for (int v = u; v <= 3; v++) all.push_back({ u, v }); // 6 pairs
    if (i >= 1 + 6 + 36 + 216) return false;
    std::vector<std::pair<long long, long long>> e;
    if (i >= 1 && i < 7) e = { all[i - 1] };
    else if (i >= 7 && i < 43) { int k = (int) i - 7; e = { all[k / 6], all[k % 6] }; }
    else if (i >= 43) { int k = (int) i - 43; e = { all[k / 36], all[k / 6 % 6], all[k % 6] }; }
    static const double W[] = { 1, 0, -0.0, -1, 5e-324, -5e-324, 1e308, 0.5 };
    for (int pat = 0; pat < 8; pat++) {
        std::vector<double> w(e.size(), 1.0);
        if (!e.empty()) w[pat % e.size()] = W[pat];
        VecG<double> g(3);
        for (std::size_t q = 0; q < e.size(); q++) {
            auto ed = boost::add_edge(e[q].first - 1, e[q].second - 1, g).first;
            boost::put(boost::edge_weight, g, ed, w[q]);
        }
        std::string d;
        for (std::size_t q = 0; q < e.size(); q++) d += cat(" ", e[q].first, "-", e[q].second, ":", w[q]);
        rt().detail = "multigraph on 3 vertices:" + d;
        predicates(g, e, w, "small multigraph");
    }
    rt().distinct(mix64(i) + 3);
    return true;
}

int main(int argc, char **argv) {
    rt().init(argc, argv);
    return rt().loop([&](std::uint64_t i, Rng &r) {
        if (c10_small(i)) return;
        Text t = make(r);
        rt().detail = t.s;
        rt().note(t.s.substr(0, 3000));
        if (t.s.size() < 200) rt().sample(t.s);
        rt().distinct(hash_str(t.s));
        read_one<VecG<double>>(t, "double");
        bool small = true;
        for (double x : t.w) if (!(std::fabs(x) < 2e9)) small = false;
        if (small && r.chance(.3)) read_one<VecG<int>>(t, "int");
        if (r.chance(.2)) read_one<LstG<double>>(t, "listS");
        // predicates on graphs that did not come from the reader
        AG ag = gen::any(r, (int) r.below(3));
        VecG<long> g(ag.n);
        std::vector<std::pair<long long, long long>> e;
        std::vector<double> w;
        for (int q = 0; q < ag.m(); q++) { e.push_back(ag.e[q]); w.push_back((double) ag.w[q]); }
        int k = (int) r.below(3);
        if (ag.n > 0) for (int q = 0; q < k; q++) {
            if (r.chance(.3)) { int v = (int) r.below(ag.n); e.push_back({ v, v }); w.push_back(1); }
            else if (r.chance(.4) && !e.empty()) { auto x = r.pick(e); if (r.chance(.5)) std::swap(x.first, x.second); e.push_back(x); w.push_back(1); }
            else if (!w.empty()) w[r.below(w.size())] = (double) r.in(-2, 1);
        }
        for (std::size_t q = 0; q < e.size(); q++) { auto ed = boost::add_edge(e[q].first, e[q].second, g).first; boost::put(boost::edge_weight, g, ed, (long) w[q]); }
        std::string d;
        for (std::size_t q = 0; q < e.size(); q++) d += cat(" ", e[q].first, "-", e[q].second, ":", w[q]);
        rt().detail = cat("graph n=", ag.n, d);
        predicates(g, e, w, "built graph");
    });
}
