// Independent oracles. Nothing here uses boost::graph or the library under test.
#pragma once
#include "vp_std.hpp"
#include "vp_gen.hpp"
namespace vp {

typedef std::vector<std::uint64_t> Bits;
inline Bits bits(int m) { return Bits((m + 63) / 64 + 1, 0); }
inline void flip(Bits &b, int i) { b[i >> 6] ^= 1ULL << (i & 63); }
inline bool test(const Bits &b, int i) { return b[i >> 6] >> (i & 63) & 1; }
inline bool none(const Bits &b) { for (auto x : b) if (x) return false; return true; }
inline void xr(Bits &a, const Bits &b) { for (std::size_t i = 0; i < a.size(); i++) a[i] ^= b[i]; }
inline bool parity(const Bits &a, const Bits &b) { std::uint64_t x = 0; for (std::size_t i = 0; i < a.size(); i++) x ^= a[i] & b[i]; return __builtin_parityll(x); }

struct Gauss { // incremental GF(2) row space
    std::vector<Bits> rows;
    std::vector<int> piv;
    int m;
    explicit Gauss(int m) : m(m) {}
    bool insert(Bits v) {
        for (std::size_t i = 0; i < rows.size(); i++) if (test(v, piv[i])) xr(v, rows[i]);
        if (none(v)) return false;
        int p = 0;
        while (!test(v, p)) p++;
        for (auto &r : rows) if (test(r, p)) xr(r, v);
        rows.push_back(v); piv.push_back(p);
        return true;
    }
    int rank() const { return (int) rows.size(); }
};

// Is the edge-index list one simple cycle? returns "" or the reason why not.
inline std::string simple_cycle(const AG &g, const std::vector<int> &c) {
    if (c.empty()) return "empty edge list";
    std::set<int> s(c.begin(), c.end());
    if (s.size() != c.size()) return "an edge is repeated in the cycle";
    std::map<int, std::vector<int>> adj;
    for (int i : c) {
        if (i < 0 || i >= g.m()) return "edge is not an edge of the input graph";
        adj[g.e[i].first].push_back(g.e[i].second);
        adj[g.e[i].second].push_back(g.e[i].first);
    }
    for (auto &p : adj) if (p.second.size() != 2) return "vertex of degree " + std::to_string(p.second.size()) + " in the cycle";
    std::set<int> seen;
    std::vector<int> st { adj.begin()->first };
    while (!st.empty()) { int u = st.back(); st.pop_back(); if (!seen.insert(u).second) continue; for (int v : adj[u]) st.push_back(v); }
    if (seen.size() != adj.size()) return "more than one cycle (not connected)";
    return "";
}

template<class W> struct OracleResult { W total; std::vector<W> sorted; std::vector<Bits> basis; };

// de Pina's algorithm, no pruning, no heuristics: for each witness run n plain Dijkstras on the doubled graph.
template<class W> OracleResult<W> mcb(int n, const std::vector<std::pair<int, int>> &e, const std::vector<W> &w) {
    int m = e.size();
    std::vector<std::vector<std::pair<int, int>>> adj(n);
    for (int i = 0; i < m; i++) { adj[e[i].first].push_back({ e[i].second, i }); adj[e[i].second].push_back({ e[i].first, i }); }
    // spanning forest by union-find
    std::vector<int> p(n);
    std::iota(p.begin(), p.end(), 0);
    std::function<int(int)> f = [&](int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; };
    std::vector<int> off;
    for (int i = 0; i < m; i++) { int a = f(e[i].first), b = f(e[i].second); if (a == b) off.push_back(i); else p[a] = b; }
    int N = off.size();
    std::vector<Bits> S;
    for (int k = 0; k < N; k++) { Bits b = bits(m); flip(b, off[k]); S.push_back(b); }
    OracleResult<W> R;
    R.total = W();
    std::vector<W> d(2 * n);
    std::vector<char> fin(2 * n), has(2 * n);
    std::vector<std::pair<int, int>> pr(2 * n);
    for (int k = 0; k < N; k++) {
        bool found = false;
        W bw = W();
        Bits bc;
        for (int s = 0; s < n; s++) {
            if (adj[s].empty()) continue;
            std::fill(fin.begin(), fin.end(), 0);
            std::fill(has.begin(), has.end(), 0);
            std::set<std::pair<W, int>> q;
            d[s] = W(); has[s] = 1; q.insert({ W(), s });
            while (!q.empty()) {
                auto t = *q.begin(); q.erase(q.begin());
                int x = t.second; fin[x] = 1;
                if (x == s + n) break;
                int u = x % n, lay = x / n;
                for (auto &a : adj[u]) {
                    int y = a.first + n * (lay ^ (int) test(S[k], a.second));
                    if (fin[y]) continue;
                    W c = t.first + w[a.second];
                    if (!has[y] || c < d[y]) {
                        if (has[y]) q.erase({ d[y], y });
                        d[y] = c; has[y] = 1; pr[y] = { x, a.second }; q.insert({ c, y });
                    }
                }
            }
            if (has[s + n] && fin[s + n] && (!found || d[s + n] < bw)) {
                found = true; bw = d[s + n]; bc = bits(m);
                for (int x = s + n; x != s; x = pr[x].first) flip(bc, pr[x].second);
            }
        }
        if (!found) { std::fprintf(stderr, "oracle: no odd cycle\n"); std::abort(); }
        for (int l = k + 1; l < N; l++) if (parity(S[l], bc)) xr(S[l], S[k]);
        R.total = R.total + bw;
        R.sorted.push_back(bw);
        R.basis.push_back(bc);
    }
    std::sort(R.sorted.begin(), R.sorted.end());
    return R;
}
inline OracleResult<long long> mcb(const AG &g) { return mcb<long long>(g.n, g.e, g.w); }

// the same value for larger graphs: block by block, one search per signed edge, abandoned at the best cycle so far
template<class W> OracleResult<W> mcb_large(int n, const std::vector<std::pair<int, int>> &ge, const std::vector<W> &gw) {
    OracleResult<W> R;
    R.total = 0;
    int m = ge.size();
    std::vector<std::vector<std::pair<int, int>>> adj(n);
    for (int i = 0; i < m; i++) { adj[ge[i].first].push_back({ ge[i].second, i }); adj[ge[i].second].push_back({ ge[i].first, i }); }
    // blocks, by an explicit-stack lowpoint search
    std::vector<int> num(n, -1), low(n, 0), es;
    std::vector<std::vector<int>> blocks;
    int tick = 0;
    for (int s = 0; s < n; s++) {
        if (num[s] >= 0) continue;
        struct Fr { int u, pe; std::size_t it; };
        std::vector<Fr> st { { s, -1, 0 } };
        num[s] = low[s] = tick++;
        while (!st.empty()) {
            Fr &t = st.back();
            if (t.it < adj[t.u].size()) {
                auto a = adj[t.u][t.it++];
                if (a.second == t.pe) continue;
                if (num[a.first] < 0) { es.push_back(a.second); num[a.first] = low[a.first] = tick++; st.push_back({ a.first, a.second, 0 }); }
                else if (num[a.first] < num[t.u]) { es.push_back(a.second); low[t.u] = std::min(low[t.u], num[a.first]); }
            } else {
                int u = t.u, pe = t.pe;
                st.pop_back();
                if (st.empty()) continue;
                int p = st.back().u;
                low[p] = std::min(low[p], low[u]);
                if (low[u] >= num[p]) {
                    std::vector<int> b;
                    while (true) { int e = es.back(); es.pop_back(); b.push_back(e); if (e == pe) break; }
                    if (b.size() > 1) blocks.push_back(b);
                }
            }
        }
    }
    for (auto &b : blocks) {
        std::map<int, int> id;
        std::vector<std::pair<int, int>> e;
        std::vector<W> w;
        for (int i : b) {
            int u = id.insert({ ge[i].first, (int) id.size() }).first->second, v = id.insert({ ge[i].second, (int) id.size() }).first->second;
            e.push_back({ u, v }); w.push_back(gw[i]);
        }
        int bn = id.size(), bm = e.size();
        std::vector<std::vector<std::pair<int, int>>> ad(bn);
        for (int i = 0; i < bm; i++) { ad[e[i].first].push_back({ e[i].second, i }); ad[e[i].second].push_back({ e[i].first, i }); }
        std::vector<int> p(bn);
        std::iota(p.begin(), p.end(), 0);
        std::function<int(int)> f = [&](int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; };
        std::vector<Bits> S;
        for (int i = 0; i < bm; i++) { int x = f(e[i].first), y = f(e[i].second); if (x == y) { Bits t = bits(bm); flip(t, i); S.push_back(t); } else p[x] = y; }
        std::vector<W> d(2 * bn);
        std::vector<std::pair<int, int>> pr(2 * bn);
        typedef std::pair<W, int> QE;
        for (std::size_t k = 0; k < S.size(); k++) {
            W best = -1;
            Bits bc;
            std::set<int> src;
            for (int i = 0; i < bm; i++) if (test(S[k], i) && !src.count(e[i].second)) src.insert(e[i].first);
            for (int s : src) {
                std::fill(d.begin(), d.end(), (W) -1);
                std::priority_queue<QE, std::vector<QE>, std::greater<QE>> q;
                d[s] = 0; q.push({ 0, s });
                while (!q.empty()) {
                    QE t = q.top(); q.pop();
                    if (t.first > d[t.second]) continue;
                    if (t.second == s + bn || (best >= 0 && t.first >= best)) break;
                    int u = t.second % bn, lay = t.second / bn;
                    for (auto &a : ad[u]) {
                        int y = a.first + bn * (lay ^ (int) test(S[k], a.second));
                        W c = t.first + w[a.second];
                        if (d[y] < 0 || c < d[y]) { d[y] = c; pr[y] = { t.second, a.second }; q.push({ c, y }); }
                    }
                }
                if (d[s + bn] >= 0 && (best < 0 || d[s + bn] < best)) {
                    best = d[s + bn]; bc = bits(bm);
                    for (int x = s + bn; x != s; x = pr[x].first) flip(bc, pr[x].second);
                }
            }
            if (best < 0) { std::fprintf(stderr, "oracle: no odd cycle\n"); std::abort(); }
            for (std::size_t l = k + 1; l < S.size(); l++) if (parity(S[l], bc)) xr(S[l], S[k]);
            R.total += best;
            R.sorted.push_back(best);
        }
    }
    std::sort(R.sorted.begin(), R.sorted.end());
    return R;
}
inline OracleResult<long long> mcb_large(const AG &g) { return mcb_large<long long>(g.n, g.e, g.w); }

// the oracle of the checks: the plain one on small graphs (now and then held against the other), the fast one on large graphs
inline OracleResult<long long> optimum(const AG &g) {
    if (g.m() > 70) return mcb_large(g);
    OracleResult<long long> R = mcb(g);
    if (g.hash() % 16 == 0) {
        OracleResult<long long> S = mcb_large(g);
        if (S.total != R.total || S.sorted != R.sorted) { std::fprintf(stderr, "oracle disagreement on %s\n", g.text().c_str()); std::exit(3); }
    }
    return R;
}

// all simple cycles, then matroid greedy; returns false when there are more than `limit` cycles
inline bool brute(const AG &g, OracleResult<long long> &R, std::size_t limit = 20000) {
    std::vector<std::vector<std::pair<int, int>>> adj(g.n);
    for (int i = 0; i < g.m(); i++) { adj[g.e[i].first].push_back({ g.e[i].second, i }); adj[g.e[i].second].push_back({ g.e[i].first, i }); }
    std::vector<std::pair<long long, Bits>> all;
    std::vector<char> on(g.n, 0);
    std::vector<int> path;
    bool ok = true;
    std::function<void(int, int)> dfs = [&](int s, int u) {
        if (!ok) return;
        for (auto &a : adj[u]) {
            if (a.first == s && path.size() >= 2) {
                if (a.second > path[0]) { // each cycle once (direction)
                    Bits b = bits(g.m()); long long W = g.w[a.second]; flip(b, a.second);
                    for (int i : path) { flip(b, i); W += g.w[i]; }
                    all.push_back({ W, b });
                    if (all.size() > limit) { ok = false; return; }
                }
            } else if (a.first > s && !on[a.first]) {
                on[a.first] = 1; path.push_back(a.second);
                dfs(s, a.first);
                path.pop_back(); on[a.first] = 0;
            }
        }
    };
    for (int s = 0; s < g.n && ok; s++) { on[s] = 1; dfs(s, s); on[s] = 0; }
    if (!ok) return false;
    std::sort(all.begin(), all.end(), [](const std::pair<long long, Bits> &a, const std::pair<long long, Bits> &b) { return a.first < b.first; });
    Gauss G(g.m());
    R.total = 0; R.sorted.clear();
    for (auto &c : all) if (G.insert(c.second)) { R.total += c.first; R.sorted.push_back(c.first); }
    return true;
}

// exact all-pairs shortest distances (-1 unreachable)
inline std::vector<std::vector<long long>> apsp(const AG &g, const std::vector<int> &src) { // rows of the given sources only
    std::vector<std::vector<std::pair<int, int>>> adj(g.n);
    for (int i = 0; i < g.m(); i++) { adj[g.e[i].first].push_back({ g.e[i].second, i }); adj[g.e[i].second].push_back({ g.e[i].first, i }); }
    std::vector<std::vector<long long>> D(g.n);
    for (int s : src) {
        D[s].assign(g.n, -1);
        std::set<std::pair<long long, int>> q;
        D[s][s] = 0; q.insert({ 0, s });
        while (!q.empty()) {
            auto t = *q.begin(); q.erase(q.begin());
            for (auto &a : adj[t.second]) {
                long long c = t.first + g.w[a.second];
                if (D[s][a.first] < 0 || c < D[s][a.first]) { if (D[s][a.first] >= 0) q.erase({ D[s][a.first], a.first }); D[s][a.first] = c; q.insert({ c, a.first }); }
            }
        }
    }
    return D;
}

} // vp
