// Abstract weighted graphs (independent of boost and of the library) and their generators.
#pragma once
#include "vp_std.hpp"
#include "vp_rng.hpp"
namespace vp {

struct AG {
    int n = 0;
    std::vector<std::pair<int, int>> e;
    std::vector<long long> w;
    double scale = 1;           // a power of two: graphs with floating point weights carry w * scale (exactly representable)
    std::string name;

    int m() const { return (int) e.size(); }
    bool has(int u, int v) const {
        for (auto &p : e)
            if ((p.first == u && p.second == v) || (p.first == v && p.second == u)) return true;
        return false;
    }
    void add(int u, int v) { if (u != v) e.emplace_back(u, v); }
    std::string text() const {
        std::ostringstream o;
        o << "family=" << name << " n=" << n << " m=" << m() << " edges(u-v:w)=";
        for (int i = 0; i < m() && i < 4000; i++)
            o << (i ? " " : "") << e[i].first << "-" << e[i].second << ":" << w[i];
        if (m() > 4000) o << " ... (the first 4000 edges)";
        if (scale != 1) o << " (weights times 2^" << std::ilogb(scale) << ")";
        return o.str();
    }
    std::uint64_t hash() const {
        std::uint64_t h = mix64(n);
        for (int i = 0; i < m(); i++)
            h = mix64(h ^ (std::uint64_t) e[i].first * 1000003ULL ^ (std::uint64_t) e[i].second * 7919ULL ^ mix64((std::uint64_t) w[i]));
        return h;
    }
    int components() const {
        std::vector<int> p(n);
        std::iota(p.begin(), p.end(), 0);
        std::function<int(int)> f = [&](int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; };
        int c = n;
        for (auto &q : e) { int a = f(q.first), b = f(q.second); if (a != b) { p[a] = b; c--; } }
        return c;
    }
    int csd() const { return m() - n + components(); }
    void dedupe() { // drop repeated pairs and loops
        std::set<std::pair<int, int>> s;
        std::vector<std::pair<int, int>> r;
        for (auto p : e) {
            if (p.first == p.second) continue;
            auto q = std::minmax(p.first, p.second);
            if (s.insert({ q.first, q.second }).second) r.push_back(p);
        }
        e.swap(r);
    }
};

namespace gen {

inline AG empty(int n) { AG g; g.n = n; g.name = "edgeless"; return g; }
inline AG path(int n) { AG g; g.n = n; g.name = "path"; for (int i = 0; i + 1 < n; i++) g.add(i, i + 1); return g; }
inline AG cycle(int n) { AG g; g.n = n; g.name = "cycle"; for (int i = 0; i < n; i++) g.add(i, (i + 1) % n); return g; }
inline AG complete(int n) { AG g; g.n = n; g.name = "K_n"; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) g.add(i, j); return g; }
inline AG bipartite(int a, int b) { AG g; g.n = a + b; g.name = "K_a,b"; for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) g.add(i, a + j); return g; }
inline AG wheel(int k) { AG g; g.n = k + 1; g.name = "wheel"; for (int i = 0; i < k; i++) { g.add(i, (i + 1) % k); g.add(i, k); } return g; }
inline AG grid(int a, int b, bool tor) {
    AG g; g.n = a * b; g.name = tor ? "torus" : "grid";
    for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) {
        if (j + 1 < b) g.add(i * b + j, i * b + j + 1); else if (tor && b > 2) g.add(i * b + j, i * b);
        if (i + 1 < a) g.add(i * b + j, (i + 1) * b + j); else if (tor && a > 2) g.add(i * b + j, j);
    }
    return g;
}
inline AG hypercube(int d) { AG g; g.n = 1 << d; g.name = "hypercube"; for (int i = 0; i < g.n; i++) for (int b = 0; b < d; b++) if (!(i >> b & 1)) g.add(i, i | 1 << b); return g; }
inline AG gpetersen(int n, int k) { AG g; g.n = 2 * n; g.name = "gen-petersen"; for (int i = 0; i < n; i++) { g.add(i, (i + 1) % n); g.add(i, n + i); g.add(n + i, n + (i + k) % n); } g.dedupe(); return g; }
inline AG circulant(int n, std::vector<int> s) { AG g; g.n = n; g.name = "circulant"; for (int i = 0; i < n; i++) for (int k : s) g.add(i, (i + k) % n); g.dedupe(); return g; }
inline AG theta(std::vector<int> len) { // internally disjoint paths between 0 and 1
    AG g; g.n = 2; g.name = "theta";
    for (int L : len) {
        int prev = 0;
        for (int i = 1; i < L; i++) { g.add(prev, g.n); prev = g.n++; }
        g.add(prev, 1);
    }
    g.dedupe();
    return g;
}
inline AG ladder(int k, int mode) { // 0 ladder,1 prism,2 moebius
    AG g; g.n = 2 * k; g.name = mode == 0 ? "ladder" : mode == 1 ? "prism" : "moebius";
    for (int i = 0; i < k; i++) {
        g.add(i, k + i);
        if (i + 1 < k) { g.add(i, i + 1); g.add(k + i, k + i + 1); }
        else if (mode == 1) { g.add(i, 0); g.add(k + i, k); }
        else if (mode == 2) { g.add(i, k); g.add(k + i, 0); }
    }
    g.dedupe();
    return g;
}
inline AG gnp(Rng &r, int n, double p) { AG g; g.n = n; g.name = "gnp"; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (r.chance(p)) g.add(i, j); return g; }
inline AG rtree(Rng &r, int n) { AG g; g.n = n; g.name = "tree"; for (int i = 1; i < n; i++) g.add(i, (int) r.below(i)); return g; }
inline AG treeplus(Rng &r, int n, int extra) {
    AG g = rtree(r, n); g.name = "tree+extra";
    for (int k = 0; k < extra * 4 && g.m() < n - 1 + extra && n > 1; k++) { int a = r.below(n), b = r.below(n); if (a != b && !g.has(a, b)) g.add(a, b); }
    return g;
}
inline AG cactus(Rng &r, int blocks) {
    AG g; g.n = 1; g.name = "cactus";
    for (int b = 0; b < blocks; b++) {
        int at = r.below(g.n), L = (int) r.in(2, 6);
        if (L == 2) { g.add(at, g.n); g.n++; continue; }
        int prev = at;
        for (int i = 1; i < L; i++) { g.add(prev, g.n); prev = g.n++; }
        g.add(prev, at);
    }
    return g;
}
inline AG cliques(Rng &r, int k) { // cliques joined by bridges or cut vertices
    AG g; g.n = 0; g.name = "clique-chain";
    int last = -1;
    for (int b = 0; b < k; b++) {
        int s = (int) r.in(3, 5), base = g.n; g.n += s;
        for (int i = 0; i < s; i++) for (int j = i + 1; j < s; j++) g.add(base + i, base + j);
        if (last >= 0) g.add(last, base);
        last = base + (int) r.below(s);
    }
    return g;
}
inline AG nested(Rng &r, int k) { // repeated subdivision/chord attachment: ear decomposition
    AG g = cycle((int) r.in(3, 6)); g.name = "ears";
    for (int i = 0; i < k; i++) {
        int a = r.below(g.n), b = r.below(g.n), L = (int) r.in(1, 4);
        if (a == b) continue;
        if (L == 1 && g.has(a, b)) L = 2;
        int prev = a;
        for (int j = 1; j < L; j++) { g.add(prev, g.n); prev = g.n++; }
        g.add(prev, b);
    }
    g.dedupe();
    return g;
}
inline AG apollonian(Rng &r, int k) { // random planar 3-tree
    AG g = complete(3); g.name = "apollonian";
    std::vector<std::array<int, 3>> f { { { 0, 1, 2 } } };
    for (int i = 0; i < k; i++) {
        int x = r.below(f.size()); auto t = f[x]; int v = g.n++;
        for (int q : t) g.add(q, v);
        f[x] = { { t[0], t[1], v } }; f.push_back({ { t[0], t[2], v } }); f.push_back({ { t[1], t[2], v } });
    }
    return g;
}
inline AG unite(const AG &a, const AG &b) {
    AG g = a; g.n = a.n + b.n; g.name = a.name + "+" + b.name;
    for (auto p : b.e) g.e.emplace_back(p.first + a.n, p.second + a.n);
    g.w.insert(g.w.end(), b.w.begin(), b.w.end());
    return g;
}
inline AG complement_sparse(Rng &r, int n) { AG g = complete(n); g.name = "near-complete"; r.shuffle(g.e); g.e.resize(g.e.size() - std::min<std::size_t>(g.e.size(), r.below(n + 1))); return g; }
inline AG multipartite(Rng &r, int k) { AG g; g.name = "multipartite"; std::vector<int> part; for (int i = 0; i < k; i++) { int s = (int) r.in(1, 3); for (int j = 0; j < s; j++) part.push_back(i); } g.n = part.size(); for (int i = 0; i < g.n; i++) for (int j = i + 1; j < g.n; j++) if (part[i] != part[j]) g.add(i, j); return g; }
inline AG regular(Rng &r, int n, int d) { // configuration model, simplified
    AG g; g.n = n; g.name = "near-regular";
    std::vector<int> st; for (int i = 0; i < n; i++) for (int k = 0; k < d; k++) st.push_back(i);
    r.shuffle(st);
    for (std::size_t i = 0; i + 1 < st.size(); i += 2) g.add(st[i], st[i + 1]);
    g.dedupe();
    return g;
}

inline AG base(Rng &r, int scale) { // scale 0 tiny, 1 small, 2 medium, 3 large
    int nmax = scale == 0 ? 7 : scale == 1 ? 11 : scale == 2 ? 20 : 60;
    switch (r.below(30)) {
    case 0: return empty((int) r.in(0, 5));
    case 1: return rtree(r, (int) r.in(1, nmax));
    case 2: return cycle((int) r.in(3, nmax));
    case 3: return complete((int) r.in(3, std::min(nmax, scale >= 2 ? 12 : 8)));
    case 4: return bipartite((int) r.in(2, std::min(5, nmax / 2)), (int) r.in(2, std::min(6, nmax / 2)));
    case 5: return wheel((int) r.in(3, nmax - 1));
    case 6: { int a = (int) r.in(2, scale >= 2 ? 6 : 3); return grid(a, (int) r.in(2, std::max(2, nmax / a)), false); }
    case 7: { int a = (int) r.in(3, scale >= 2 ? 5 : 3); return grid(a, (int) r.in(3, std::max(3, nmax / a)), true); }
    case 8: return hypercube((int) r.in(2, scale >= 2 ? 4 : 3));
    case 9: { int n = (int) r.in(5, std::max(5, nmax / 2)); return gpetersen(n, (int) r.in(1, (n - 1) / 2)); }
    case 10: { int n = (int) r.in(5, nmax); std::vector<int> s { 1, (int) r.in(2, n / 2) }; if (r.chance(.3)) s.push_back((int) r.in(2, n / 2)); return circulant(n, s); }
    case 11: { std::vector<int> L; int k = (int) r.in(2, 6); for (int i = 0; i < k; i++) L.push_back((int) r.in(1, 4)); return theta(L); }
    case 12: return ladder((int) r.in(3, std::max(3, nmax / 2)), (int) r.below(3));
    case 13: case 14: case 15: return gnp(r, (int) r.in(4, std::min(nmax, 16)), r.unit() * 0.6 + 0.15);
    case 16: return gnp(r, (int) r.in(5, std::min(nmax, 12)), 0.5 + r.unit() * 0.5);
    case 17: case 18: return treeplus(r, (int) r.in(4, nmax), (int) r.in(1, nmax / 2 + 2));
    case 19: return cactus(r, (int) r.in(2, nmax / 2));
    case 20: return cliques(r, (int) r.in(2, std::max(2, nmax / 5)));
    case 21: case 22: return nested(r, (int) r.in(1, nmax / 2));
    case 23: return apollonian(r, (int) r.in(1, std::min(nmax, 14) - 3));
    case 24: return complement_sparse(r, (int) r.in(4, std::min(nmax, 10)));
    case 25: return multipartite(r, (int) r.in(2, 5));
    case 26: return regular(r, (int) r.in(6, nmax), 3);
    case 27: return regular(r, (int) r.in(6, nmax), 4);
    case 28: { AG a = scale > 0 ? base(r, scale - 1) : cycle(3), b = scale > 0 ? base(r, scale - 1) : cycle(4); return unite(a, b); }
    default: return gnp(r, (int) r.in(2, nmax), 2.5 / std::max(2, nmax));
    }
}

// decorations that must not change the cycle space
inline void pendant(AG &g, Rng &r, int k) { for (int i = 0; i < k && g.n > 0; i++) { g.add((int) r.below(g.n), g.n); g.n++; } }
inline void isolated(AG &g, int k) { g.n += k; }

inline const char* weigh(AG &g, Rng &r) {
    g.w.assign(g.m(), 1);
    g.scale = 1;
    if (r.chance(.3)) { static const int K[] = { -3, -10, -24, -40, -40, -60, -200, -700, 10, 40, 200 }; g.scale = std::ldexp(1.0, K[r.below(11)]); }
    int mode = (int) r.below(15);
    switch (mode) {
    case 0: case 1: return "unit";
    case 2: for (auto &x : g.w) x = r.in(1, 2); return "1..2";
    case 3: for (auto &x : g.w) x = r.in(1, 3); return "1..3";
    case 4: for (auto &x : g.w) x = r.in(1, 10); return "1..10";
    case 5: for (auto &x : g.w) x = r.in(1, 1000); return "1..1000";
    case 6: for (auto &x : g.w) x = r.in(1, 1 << 20); return "1..2^20";
    case 7: { std::vector<long long> p(g.m()); std::iota(p.begin(), p.end(), 1); r.shuffle(p); g.w = p; return "perm"; }
    case 8: for (auto &x : g.w) x = 1LL << r.below(18); return "pow2";
    case 9: { std::vector<long long> X(g.n), Y(g.n); for (auto &x : X) x = r.in(0, 6); for (auto &y : Y) y = r.in(0, 6);
        for (int i = 0; i < g.m(); i++) g.w[i] = 1 + std::llabs(X[g.e[i].first] - X[g.e[i].second]) + std::llabs(Y[g.e[i].first] - Y[g.e[i].second]); return "L1-metric"; }
    case 10: { long long c = r.in(1, 5000); for (auto &x : g.w) x = c; return "const"; }
    case 11: for (auto &x : g.w) x = r.chance(.2) ? r.in(50, 500) : 1; return "few-heavy";
    case 12: for (auto &x : g.w) x = r.chance(.2) ? 1 : r.in(50, 52); return "few-light";
    case 13: for (auto &x : g.w) x = (1 << 20) + r.in(0, 3); return "2^20+0..3";
    default: { std::vector<long long> p(g.n); for (auto &x : p) x = r.in(0, 4); for (int i = 0; i < g.m(); i++) g.w[i] = 1 + p[g.e[i].first] + p[g.e[i].second]; return "vertex-sum"; }
    }
}

inline void permute(AG &g, Rng &r) { // renumber vertices, reorder and reorient edges
    std::vector<int> p(g.n);
    std::iota(p.begin(), p.end(), 0);
    r.shuffle(p);
    std::vector<int> o(g.m());
    std::iota(o.begin(), o.end(), 0);
    r.shuffle(o);
    AG h; h.n = g.n; h.name = g.name; h.scale = g.scale;
    for (int i : o) {
        int u = p[g.e[i].first], v = p[g.e[i].second];
        if (r.chance(.5)) std::swap(u, v);
        h.e.emplace_back(u, v);
        h.w.push_back(g.w[i]);
    }
    g = h;
}

// number of labelled graphs for exhaustive enumeration
inline std::uint64_t exhaustive_count(int nmax) { std::uint64_t t = 0; for (int n = 0; n <= nmax; n++) t += 1ULL << (n * (n - 1) / 2); return t; }
inline AG exhaustive(std::uint64_t idx, int nmax) {
    for (int n = 0; n <= nmax; n++) {
        std::uint64_t c = 1ULL << (n * (n - 1) / 2);
        if (idx < c) {
            AG g; g.n = n; g.name = "exh" + std::to_string(n);
            int b = 0;
            for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, b++) if (idx >> b & 1) g.add(i, j);
            return g;
        }
        idx -= c;
    }
    return AG();
}

inline AG any(Rng &r, int scale) {
    AG g = base(r, scale);
    if (r.chance(.12)) pendant(g, r, (int) r.in(1, 4));
    if (r.chance(.12)) isolated(g, (int) r.in(1, 3));
    g.dedupe();
    std::string wn = weigh(g, r);
    if (r.chance(.75)) permute(g, r);
    g.name += "/" + wn;
    return g;
}

// copies of b glued at single vertices: a chain, a star or a random tree of blocks
inline AG glued(Rng &r, int blocks, int mode) {
    AG g; g.n = 1; g.name = "glued-blocks";
    int last = 0;
    for (int t = 0; t < blocks; t++) {
        AG b;
        switch (r.below(7)) {
        case 0: b = cycle((int) r.in(3, 6)); break;
        case 1: b = complete((int) r.in(4, 6)); break;
        case 2: b = bipartite(2, (int) r.in(2, 5)); break;
        case 3: b = wheel((int) r.in(3, 6)); break;
        case 4: b = ladder((int) r.in(3, 5), (int) r.below(3)); break;
        case 5: b = gpetersen(5, 2); break;
        default: b = nested(r, (int) r.in(1, 4));
        }
        b.dedupe();
        int at = mode == 0 ? last : mode == 1 ? 0 : (int) r.below(g.n), in = (int) r.below(b.n);
        auto id = [&](int x) { return x == in ? at : g.n + (x < in ? x : x - 1); };
        for (auto &p : b.e) g.e.emplace_back(id(p.first), id(p.second));
        g.n += b.n - 1;
        last = g.n - 1;
    }
    return g;
}
inline AG strip(Rng &r, int k) { AG g = cycle(k); g.name = "cycle+chords"; int c = (int) r.in(1, 24); while (c--) g.add((int) r.below(k), (int) r.below(k)); g.dedupe(); return g; }

// keep every sum of cycle weights (and a few multiples of it) inside an int
inline void fit_int(AG &g) {
    long long s = 0, d = std::max(1, g.csd());
    for (auto x : g.w) s += x;
    while (s > (1LL << 29) / d) { s = 0; for (auto &x : g.w) { x = (x + 1) / 2; s += x; } if (s == g.m()) break; }
}

// integer weights at the top of the type: the sum of all weights fits an int and so does every sum of cycle weights,
// but twice the heaviest weight does not (walks that use a bridge twice, relaxations back along a tree edge)
inline void heavy(AG &g, Rng &r) {
    long long small = 0, d = g.csd() + 1;
    for (auto x : g.w) small += x;
    while (small * d * 4 > (1LL << 27)) { small = 0; for (auto &x : g.w) { x = (x + 1) / 2; small += x; } if (small == g.m()) break; }
    g.scale = 1;
    long long left = (1LL << 31) - 1 - (1LL << 27);
    bool chord = g.m() && r.chance(.35); // one heavy edge anywhere
    int hang = g.n ? (int) r.in(chord ? 0 : 1, 3) : 0;
    auto take = [&](bool last) { long long x = last ? left : r.chance(.5) ? left / 2 + r.in(1, left / 4) : r.in(left / 8, left / 2); left -= x; return std::max(1LL, x); };
    if (chord) g.w[r.below(g.m())] = take(!hang && r.chance(.5));
    for (int i = 0; i < hang; i++) { // bridges; tails and forks of them
        int at = i && r.chance(.5) ? g.n - 1 : (int) r.below(g.n);
        g.e.emplace_back(at, g.n++);
        g.w.push_back(take(i == hang - 1 && r.chance(.5)));
    }
    if (g.n > 1 && r.chance(.7)) { int a = g.n - 1; for (auto &p : g.e) for (int *x : { &p.first, &p.second }) *x = *x == a ? 0 : *x == 0 ? a : *x; }
    g.name += "/heavy";
}

inline AG finish(AG g, Rng &r) {
    if (r.chance(.2)) pendant(g, r, (int) r.in(1, 12));
    if (r.chance(.2)) isolated(g, (int) r.in(1, 5));
    g.dedupe();
    std::string wn = weigh(g, r);
    fit_int(g);
    if (r.chance(.8)) permute(g, r);
    g.name += "/" + wn;
    return g;
}

// an order of magnitude above any(): dimensions, vertex counts and supports in the hundreds
inline AG large(Rng &r) {
    AG g;
    switch (r.below(14)) {
    case 0: g = gnp(r, (int) r.in(20, 34), 0.2 + 0.6 * r.unit()); break;
    case 1: g = complete((int) r.in(13, 21)); break;
    case 2: g = bipartite((int) r.in(5, 11), (int) r.in(6, 12)); break;
    case 3: g = hypercube((int) r.in(5, 6)); break;
    case 4: { int a = (int) r.in(6, 11); g = grid(a, (int) r.in(6, 14), r.chance(.4)); break; }
    case 5: { int n = (int) r.in(40, 90); g = circulant(n, { 1, (int) r.in(2, n / 2) }); break; }
    case 6: g = regular(r, (int) r.in(60, 150), 3); break;
    case 7: g = treeplus(r, (int) r.in(150, 400), (int) r.in(10, 60)); break;
    case 8: g = glued(r, (int) r.in(20, 70), (int) r.below(3)); break;
    case 9: g = strip(r, (int) r.in(100, 320)); break;
    case 10: g = wheel((int) r.in(65, 140)); break;
    case 11: g = apollonian(r, (int) r.in(25, 60)); break;
    case 12: g = gpetersen((int) r.in(30, 60), (int) r.in(1, 12)); break;
    default: { int k = (int) r.in(2, 3); std::vector<int> L; for (int i = 0; i < 70; i++) L.push_back((int) r.in(1, k)); g = theta(L); }
    }
    return finish(g, r);
}

// large, but small enough for builds that run fifty times slower
inline AG moderate(Rng &r) { AG g; do g = large(r); while (g.n > 80 || g.m() > 160); return g; }

// thousands of vertices and edges, for the linear-time components
inline AG huge(Rng &r) {
    AG g;
    switch (r.below(8)) {
    case 0: g = gnp(r, (int) r.in(80, 140), 0.3 + 0.7 * r.unit()); break;
    case 1: g = treeplus(r, (int) r.in(1000, 5000), (int) r.in(0, 2000)); break;
    case 2: { int a = (int) r.in(20, 60); g = grid(a, (int) r.in(20, 80), r.chance(.4)); break; }
    case 3: g = regular(r, (int) r.in(500, 3000), (int) r.in(3, 6)); break;
    case 4: g = glued(r, (int) r.in(200, 800), (int) r.below(3)); break;
    case 5: g = cycle((int) r.in(1000, 4000)); break;
    case 6: g = hypercube((int) r.in(8, 10)); break;
    default: g = gnp(r, (int) r.in(700, 2000), 0.0005 + 0.002 * r.unit());
    }
    return finish(g, r);
}
// more vertices (or, dense, more edges and a larger dimension) than sixteen bits can number
inline AG vast(Rng &r, bool dense = false) {
    AG g;
    if (dense) { g = complete((int) r.in(364, 380)); g.name = "vast-K_n"; }
    else {
        g.n = 65537 + (int) r.below(2500); g.name = "vast-tree+extra";
        for (int i = 1; i < g.n; i++) if (!r.chance(.0001)) g.add((int) r.below(i), i);
        int k = (int) r.in(1, 6);
        for (int t = 0; t < k; t++) {
            int a = (int) r.below(g.n), b = (int) r.below(g.n);
            if (r.chance(.5)) { a = (int) r.below(g.n - 65536); b = a + 65536; }
            g.add(a, b);
        }
    }
    g.dedupe();
    std::string wn = weigh(g, r);
    if (dense) for (auto &x : g.w) x = 1 + x % 100; else fit_int(g);
    if (r.chance(.4)) permute(g, r);
    g.name += "/" + wn;
    return g;
}
inline bool large_case(std::uint64_t i, std::uint64_t every) { return mix64(i * 2 + 1) % every == 0; }

} // gen
} // vp
