// Graphs with inexact double weights in [1e-3, 1e3] and the exact judgement of an answer (fixed point, unit 2^-62).
#pragma once
#include "vp_graph.hpp"
namespace vp {
typedef __int128 i128;

struct FG {
    AG g;                       // structure; the integer weights are not used
    std::vector<double> w;
    std::string wname;
    i128 fixed(int i) const { // every double >= 2^-10 is an integral multiple of 2^-62
        int ex;
        double f = std::frexp(w[i], &ex); // w = f * 2^ex, f has 53 bits
        i128 x = (i128) (long long) std::ldexp(f, 53);
        int sh = ex - 53 + 62;
        return sh >= 0 ? x << sh : x >> -sh;
    }
    i128 optimum() const {
        std::vector<i128> W;
        for (int i = 0; i < g.m(); i++) W.push_back(fixed(i));
        return g.m() > 70 ? mcb_large<i128>(g.n, g.e, W).total : mcb<i128>(g.n, g.e, W).total;
    }
    template<class B> void build(B &b) const {
        b.build(g);
        for (int i = 0; i < g.m(); i++) b.weights.add(b.g, b.ed[i], i, w[i]);
    }
    std::string text() const {
        std::string s = cat("n=", g.n, " m=", g.m(), " ", g.name, "/", wname, " :");
        for (int i = 0; i < g.m(); i++) s += cat(" ", g.e[i].first, "-", g.e[i].second, ":", w[i]);
        return s;
    }
    std::uint64_t hash() const {
        std::uint64_t h = mix64(g.n * 1000003ULL + g.m());
        for (int i = 0; i < g.m(); i++) { std::uint64_t b; std::memcpy(&b, &w[i], 8); h = mix64(h ^ mix64(g.e[i].first * 65537ULL + g.e[i].second) ^ b); }
        return h;
    }
};

inline double clampw(double x) { return std::min(1000.0, std::max(0.001, x)); }

inline void weigh_float(FG &f, Rng &r) {
    int m = f.g.m(), n = f.g.n;
    f.w.assign(m, 1);
    switch (r.below(16)) {
    case 14: case 15: { // almost tied: differences far above rounding, far below the weights
        f.wname = "near-ties"; double c = r.chance(.5) ? 1.0 : clampw(std::exp(r.unit() * 10 - 5)), d = std::pow(10.0, -(double) r.in(3, 11));
        bool grid = r.chance(.5);
        for (auto &x : f.w) x = clampw(c * (double) (r.chance(.5) ? 1 : r.in(1, 3)) * (1 + d * (grid ? (double) r.in(0, 9) : r.unit()))); break; }
    case 0: f.wname = "k/10"; for (auto &x : f.w) x = r.in(1, 9) / 10.0; break;
    case 1: f.wname = "k/10 small"; for (auto &x : f.w) x = r.in(1, 3) / 10.0; break;
    case 2: f.wname = "k/100"; for (auto &x : f.w) x = r.in(1, 300) / 100.0; break;
    case 3: f.wname = "k/1000"; for (auto &x : f.w) x = r.in(1, 30) / 1000.0; break;
    case 4: f.wname = "k/3"; for (auto &x : f.w) x = r.in(1, 9) / 3.0; break;
    case 5: f.wname = "const"; { double c = clampw(std::exp(r.unit() * 13.8 - 6.9)); for (auto &x : f.w) x = c; } break;
    case 6: f.wname = "const+-ulps"; { double c = clampw(.1 * r.in(1, 90)); for (auto &x : f.w) { x = c; int k = (int) r.in(-2, 2); for (int j = 0; j < std::abs(k); j++) x = std::nextafter(x, k > 0 ? 1e9 : 0); x = clampw(x); } } break;
    case 7: f.wname = "uniform"; for (auto &x : f.w) x = clampw(r.unit() * 1000); break;
    case 8: f.wname = "log-uniform"; for (auto &x : f.w) x = clampw(std::exp(r.unit() * 13.8155 - 6.9077)); break;
    case 9: { f.wname = "euclidean"; std::vector<double> X(n), Y(n); for (auto &x : X) x = r.unit(); for (auto &x : Y) x = r.unit();
        for (int i = 0; i < m; i++) f.w[i] = clampw(std::hypot(X[f.g.e[i].first] - X[f.g.e[i].second], Y[f.g.e[i].first] - Y[f.g.e[i].second])); break; }
    case 10: { f.wname = "line-metric k/10"; std::vector<int> X(n); for (auto &x : X) x = (int) r.in(0, 12); // many shortest paths of the same real length
        for (int i = 0; i < m; i++) f.w[i] = clampw((1 + std::abs(X[f.g.e[i].first] - X[f.g.e[i].second])) / 10.0); break; }
    case 11: { f.wname = "potential k/7"; std::vector<int> X(n); for (auto &x : X) x = (int) r.in(0, 5);
        for (int i = 0; i < m; i++) f.w[i] = (1 + X[f.g.e[i].first] + X[f.g.e[i].second]) / 7.0; break; }
    case 12: f.wname = "tiny+huge"; for (auto &x : f.w) x = r.chance(.5) ? r.in(1, 9) / 1000.0 : r.in(9000, 9999) / 10.0; break;
    default: { f.wname = "sqrt"; for (auto &x : f.w) x = std::sqrt((double) r.in(1, 8)); break; }
    }
}

inline void draw_float(FG &f, std::uint64_t i, Rng &r) {
    std::uint64_t exh = gen::exhaustive_count(5);
    if (i < exh) f.g = gen::exhaustive(i, 5);
    else if (gen::large_case(i, 200)) { f.g = gen::large(r); rt().count("graphs.large"); }
    else {
        double x = r.unit();
        f.g = gen::any(r, x < .3 ? 0 : x < .8 ? 1 : x < .97 ? 2 : 3);
    }
    f.g.w.resize(f.g.m(), 1);
    weigh_float(f, r);
    rt().detail = f.text();
    rt().note(rt().detail);
    if (f.g.csd() >= 2) { rt().distinct(f.hash()); rt().sample(f.text()); }
    rt().count(cat("weights.", f.wname));
}

// C09: a valid basis; the returned value is its weight; the weight is within 1e-9 of the optimum.
inline void judge_float(const char *name, const FG &f, i128 opt, double ret, const Cycles &cs) {
    rt().count(cat("runs.", name));
    std::string e = basis_error(f.g, cs);
    if (!e.empty()) { rt().fail(cat(name, ":basis"), e); return; }
    i128 sum = 0;
    for (auto &c : cs) for (int i : c) sum += f.fixed(i);
    double s = std::ldexp((double) sum, -62), o = std::ldexp((double) opt, -62);
    if (!(std::fabs(ret - s) <= 1e-11 * s)) rt().fail(cat(name, ":returned-weight"), cat("returned ", ret, ", the emitted cycles weigh ", s));
    // in exact arithmetic: sum - opt <= 1e-9 opt
    if (sum - opt > opt / 1000000000) rt().fail(cat(name, ":not-minimum"), cat("emitted weight ", s, ", optimum ", o, ", relative excess ", (double) (sum - opt) / (double) opt));
    if (sum != opt) rt().count("near_optimal_not_exactly_optimal");
}
}
