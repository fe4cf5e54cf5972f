// C17 (SpVecGF2) and C18 (fp, primes, SpVecFP): operation histories against dense / wide-integer models.
// Built with assertions on and UBSan, without the heap shim.
#include "vp_std.hpp"
#include "vp_rng.hpp"
#include "vp_runtime.hpp"
#include <parmcb/config.hpp>
#include <parmcb/spvecgf2.hpp>
#include <parmcb/fp.hpp>
#include <parmcb/spvecfp.hpp>
#include <parmcb/arithmetic.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <sstream>
using namespace vp;
using parmcb::SpVecGF2;
using parmcb::SpVecFP;
using parmcb::fp;
typedef boost::multiprecision::cpp_int Z;

// ------------------------------------------------------------------ C17
template<class U> struct Pool {
    std::vector<U> uni;               // increasing coordinate universe
    std::vector<SpVecGF2<U>> v;
    std::vector<std::vector<char>> d; // dense models
    std::string log;
};

template<class U> static std::string gf2_same(const Pool<U> &P, const SpVecGF2<U> &v, const std::vector<char> &d) {
    std::vector<U> want, got;
    for (std::size_t i = 0; i < d.size(); i++) if (d[i]) want.push_back(P.uni[i]);
    for (auto it = v.begin(); it != v.end(); ++it) { got.push_back(*it); if (got.size() > want.size() + 1000) break; }
    if (v.size() != want.size()) return cat("size() is ", v.size(), ", the dense vector has ", want.size(), " ones");
    for (std::size_t i = 1; i < got.size(); i++) if (!(got[i - 1] < got[i])) return cat("not strictly increasing at position ", i);
    if (got != want) return "coordinates differ from the dense computation";
    return "";
}

template<class U> static void c17_history(std::uint64_t i, Rng &r, const char *un) {
    Pool<U> P;
    int dim = (int) (r.chance(.5) ? r.in(1, 12) : r.in(1, 150));
    std::set<U> us;
    int mode = (int) r.below(4);
    while ((int) us.size() < dim) {
        if (mode == 0) us.insert((U) us.size());
        else if (mode == 1) us.insert((U) r.below(4 * dim));
        else if (mode == 2) us.insert((U) (r.next() & (std::uint64_t) std::numeric_limits<U>::max()));
        else us.insert(us.size() == 0 ? (U) 0 : us.size() == 1 ? std::numeric_limits<U>::max() : (U) r.below(100000 < (std::uint64_t) std::numeric_limits<U>::max() ? 100000 : (std::uint64_t) std::numeric_limits<U>::max()));
    }
    P.uni.assign(us.begin(), us.end());
    int nv = (int) r.in(2, 6), ops = (int) r.in(10, 80);
    std::vector<char> zero(dim, 0);
    for (int k = 0; k < nv; k++) { P.v.emplace_back(); P.d.push_back(zero); }
    auto bad = [&](const char *op, const std::string &e) { rt().fail(cat("SpVecGF2:", op), cat("U=", un, " dim=", dim, ": ", e, "; history:", P.log.substr(P.log.size() > 700 ? P.log.size() - 700 : 0))); };
    std::uint64_t h = mix64(dim + mode * 1000);
    for (int s = 0; s < ops; s++) {
        int a = (int) r.below(nv), b = (int) r.below(nv), c = (int) r.below(nv), op = (int) r.below(20);
        h = mix64(h ^ (std::uint64_t) (op * 1000 + a * 100 + b * 10 + c));
        static const char *N[] = { "unit", "set", "copy-ctor", "move-ctor", "copy-assign", "move-assign", "self-assign", "plus", "plus-assign", "self-plus-assign", "clear", "append", "dot", "dot-set", "dense-set", "plus", "plus-assign", "plus-temp", "serialize", "self-dot" };
        const char *on = N[op];
        rt().stage(on);
        P.log += cat(" ", on, "(", a, ",", b, ",", c, ")");
        std::string e;
        switch (op) {
        case 0: { int k = (int) r.below(dim); P.v[a] = SpVecGF2<U>(P.uni[k]); P.d[a] = zero; P.d[a][k] = 1; break; }
        case 1: case 14: {
            std::set<U> S; P.d[a] = zero;
            double p = op == 14 ? .7 : .3;
            for (int k = 0; k < dim; k++) if (r.chance(p)) { S.insert(P.uni[k]); P.d[a][k] = 1; }
            P.v[a] = SpVecGF2<U>(S);
            break;
        }
        case 2: { SpVecGF2<U> t(P.v[b]); e = gf2_same(P, t, P.d[b]); P.v[a] = t; P.d[a] = P.d[b]; break; }
        case 3: { SpVecGF2<U> t(P.v[b]); SpVecGF2<U> t2(std::move(t)); e = gf2_same(P, t2, P.d[b]); P.v[a] = t2; P.d[a] = P.d[b]; break; }
        case 4: P.v[a] = P.v[b]; P.d[a] = P.d[b]; break;
        case 5: { SpVecGF2<U> t(P.v[b]); P.v[a] = std::move(t); P.d[a] = P.d[b]; break; }
        case 6: { SpVecGF2<U> &x = P.v[a]; P.v[a] = x; break; }
        case 7: case 15: {
            SpVecGF2<U> t = P.v[a] + P.v[b];
            std::vector<char> dd(dim); for (int k = 0; k < dim; k++) dd[k] = P.d[a][k] ^ P.d[b][k];
            e = gf2_same(P, t, dd);
            if (e.empty()) { e = gf2_same(P, P.v[a], P.d[a]); if (!e.empty()) e = "left operand changed: " + e; }
            P.v[c] = t; P.d[c] = dd;
            break;
        }
        case 8: case 16: { P.v[a] += P.v[b]; auto db = P.d[b]; for (int k = 0; k < dim; k++) P.d[a][k] ^= db[k]; break; }
        case 9: P.v[a] += P.v[a]; P.d[a] = zero; break;
        case 10: if (r.chance(.3)) { P.v[a].clear(); P.d[a] = zero; } break;
        case 11: { // appending in increasing order
            SpVecGF2<U> t; std::vector<char> dd = zero;
            for (int k = 0; k < dim; k++) if (r.chance(.25)) { t.add(P.uni[k]); dd[k] = 1; }
            P.v[a] = t; P.d[a] = dd;
            break;
        }
        case 12: case 19: {
            int bb = op == 19 ? a : b;
            int x = P.v[a] * P.v[bb], w = 0;
            for (int k = 0; k < dim; k++) w ^= P.d[a][k] & P.d[bb][k];
            if (x != w) e = cat("product is ", x, ", parity of the common coordinates ", w);
            break;
        }
        case 13: {
            std::set<U> S; int w = 0; double p = r.unit();
            for (int k = 0; k < dim; k++) if (r.chance(p)) { S.insert(P.uni[k]); w ^= P.d[a][k]; }
            int x = P.v[a] * S;
            if (x != w) e = cat("product with an index set is ", x, ", parity of the common coordinates ", w);
            break;
        }
        case 17: { P.v[c] = (P.v[a] + P.v[b]) + (P.v[b] + P.v[a]); P.d[c] = zero; break; }
        case 18: {
            std::stringstream ss;
            { boost::archive::binary_oarchive oa(ss); const SpVecGF2<U> &x = P.v[a]; oa << x; }
            SpVecGF2<U> t(P.uni[0]);
            { boost::archive::binary_iarchive ia(ss); ia >> t; }
            e = gf2_same(P, t, P.d[a]);
            P.v[c] = t; P.d[c] = P.d[a];
            break;
        }
        }
        if (e.empty()) e = gf2_same(P, P.v[a], P.d[a]);
        if (e.empty()) e = gf2_same(P, P.v[c], P.d[c]);
        if (!e.empty()) { bad(on, e); return; }
        rt().count("operations");
    }
    for (int k = 0; k < nv; k++) { std::string e = gf2_same(P, P.v[k], P.d[k]); if (!e.empty()) { bad("final", e); return; } }
    rt().distinct(h);
}

// dimensions 0..4: every pair of vectors, every operation
static void c17_exhaustive(std::uint64_t i) {
    int dim = 5;
    std::vector<std::size_t> uni { 0, 1, 2, 5, 63 };
    auto mk = [&](int x) { std::set<std::size_t> S; for (int k = 0; k < dim; k++) if (x >> k & 1) S.insert(uni[k]); return S; };
    int x = (int) (i % 32), y = (int) (i / 32 % 32);
    SpVecGF2<std::size_t> a(mk(x)), b(mk(y)), s = a + b, t(a);
    t += b;
    auto is = [&](const SpVecGF2<std::size_t> &v, int z, const char *w) {
        auto S = mk(z);
        if (v.size() != S.size() || !std::equal(S.begin(), S.end(), v.begin())) rt().fail(cat("SpVecGF2:", w), cat("small vectors ", x, " and ", y));
    };
    is(a, x, "set"); is(b, y, "set"); is(s, x ^ y, "plus"); is(t, x ^ y, "plus-assign");
    int w = __builtin_parity(x & y);
    if (a * b != w) rt().fail("SpVecGF2:dot", cat("small vectors ", x, " and ", y));
    if (a * mk(y) != w) rt().fail("SpVecGF2:dot-set", cat("small vectors ", x, " and ", y));
    rt().count("operations", 6);
    rt().distinct(mix64(i) ^ 1);
}

// ------------------------------------------------------------------ C18
static Z gcdz(Z a, Z b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b != 0) { Z t = a % b; a = b; b = t; } return a; }

template<class T> static void c18_gcd(const char *tn, T a0, T b0) {
    if (a0 == 0 && b0 == 0) return;
    rt().stage("ext_gcd");
    rt().detail = cat("T=", tn, " a=", a0, " b=", b0);
    rt().note(rt().detail);
    Z want = gcdz(Z(a0), Z(b0));
    T sent[2] = { T(12345), T(-7) };
    Z X[2], Y[2];
    for (int k = 0; k < 2; k++) {
        T a = a0, b = b0, x = sent[k], y = sent[1 - k];
        T g = fp<T>::ext_gcd(a, b, x, y);
        X[k] = Z(x); Y[k] = Z(y);
        if (Z(g) != want) { rt().fail("ext_gcd:gcd", cat("returned ", g, ", gcd is ", want)); return; }
        if (Z(a0) * X[k] + Z(b0) * Y[k] != want) { rt().fail("ext_gcd:bezout", cat("a*x+b*y = ", Z(a0) * X[k] + Z(b0) * Y[k], " with x=", x, " y=", y, ", gcd ", want)); return; }
    }
    // the coefficients are results: they may not depend on what the variables held before the call
    if (X[0] != X[1] || Y[0] != Y[1]) rt().fail("ext_gcd:coefficient-not-set", cat("a coefficient is left as the caller had it: x=", X[0], "/", X[1], " y=", Y[0], "/", Y[1]));
    rt().count(cat("ext_gcd.", tn));
}

template<class T> static void c18_inverse(const char *tn, T a0, T p0) {
    if (p0 < 1) return;
    rt().stage("get_mult_inverse");
    rt().detail = cat("T=", tn, " a=", a0, " p=", p0);
    rt().note(rt().detail);
    bool unit = gcdz(Z(a0), Z(p0)) == 1;
    T a = a0, p = p0, x;
    bool threw = false;
    try { x = fp<T>::get_mult_inverse(a, p); } catch (...) { threw = true; }
    if (threw != !unit) { rt().fail(unit ? "get_mult_inverse:threw" : "get_mult_inverse:no-throw", unit ? "threw although gcd(a,p)=1" : "did not throw although gcd(a,p)!=1"); return; }
    if (unit) {
        Z d = Z(a0) * Z(x) - 1;
        if (d % Z(p0) != 0) rt().fail("get_mult_inverse:value", cat("returned ", x, ", a*x mod p != 1"));
        rt().count(cat("inverse.", tn));
    } else rt().count("inverse.rejected");
}

static std::uint64_t mulm(std::uint64_t a, std::uint64_t b, std::uint64_t m) { return (unsigned __int128) a * b % m; }
static bool prime64(std::uint64_t n) {
    if (n < 2) return false;
    for (std::uint64_t p : { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37 }) if (n % p == 0) return n == p;
    std::uint64_t d = n - 1; int s = 0;
    while (!(d & 1)) { d >>= 1; s++; }
    for (std::uint64_t a : { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37 }) {
        std::uint64_t x = 1, b = a, e = d;
        while (e) { if (e & 1) x = mulm(x, b, n); b = mulm(b, b, n); e >>= 1; }
        if (x == 1 || x == n - 1) continue;
        bool c = true;
        for (int k = 1; k < s && c; k++) { x = mulm(x, x, n); if (x == n - 1) c = false; }
        if (c) return false;
    }
    return true;
}
static std::uint64_t smallest_factor(std::uint64_t n, std::uint64_t lim) { for (std::uint64_t t = 2; t <= lim && t * t <= n; t++) if (n % t == 0) return t; return 0; }

template<class T> static void c18_prime(const char *tn, std::uint64_t n) {
    if (n < 2) return;
    rt().stage("is_prime");
    rt().detail = cat("T=", tn, " p=", n);
    rt().note(rt().detail);
    bool got;
    try { got = parmcb::primes<T>::is_prime(T(n)); } catch (...) { rt().fail("is_prime:threw", cat("is_prime(", n, ") threw")); return; }
    if (got != prime64(n)) rt().fail("is_prime:value", cat("is_prime(", n, ") = ", got));
    rt().count(cat("is_prime.", tn));
}

template<class P> struct FPModel { std::map<std::size_t, Z> c; };
template<class P> static std::string fp_same(const SpVecFP<P> &v, const std::map<std::size_t, Z> &m, const P &p) {
    if (v.size() != m.size()) return cat("has ", v.size(), " entries, the dense vector has ", m.size(), " non-zero coordinates");
    auto it = m.begin();
    std::size_t prev = 0; bool first = true;
    for (auto &e : v) {
        std::size_t ix = boost::get<0>(e); Z val = Z(boost::get<1>(e));
        if (!first && ix <= prev) return "indices not increasing";
        first = false; prev = ix;
        if (val < 1 || val >= Z(p)) return cat("value ", val, " at index ", ix, " is not in 1..p-1");
        if (ix != it->first || val != it->second) return cat("entry (", ix, ",", val, ") should be (", it->first, ",", it->second, ")");
        ++it;
    }
    if (Z(v.prime()) != Z(p)) return "prime() changed";
    return "";
}

template<class P> static void c18_vec(const char *tn, P p, Rng &r, std::function<P(Rng&)> scalar) {
    int nv = (int) r.in(2, 4), ops = (int) r.in(8, 40), dim = (int) r.in(1, 10);
    std::vector<std::size_t> uni;
    { std::set<std::size_t> s; bool wide = r.chance(.3); while ((int) s.size() < dim) s.insert(wide ? (std::size_t) r.next() : r.below(3 * dim)); uni.assign(s.begin(), s.end()); }
    std::vector<SpVecFP<P>> v(nv, SpVecFP<P>(p));
    std::vector<std::map<std::size_t, Z>> d(nv);
    std::string log;
    Z zp(p);
    auto norm = [&](Z x) { x %= zp; if (x < 0) x += zp; return x; };
    std::uint64_t h = mix64((std::uint64_t) (zp % 1000003));
    for (int s = 0; s < ops; s++) {
        int a = (int) r.below(nv), b = (int) r.below(nv), c = (int) r.below(nv), op = (int) r.below(12);
        static const char *N[] = { "unit", "plus", "plus-assign", "scale", "scale-assign", "dot", "copy", "move", "axpy", "self-plus", "assign", "clear" };
        rt().stage(N[op]);
        log += cat(" ", N[op], "(", a, ",", b, ",", c, ")");
        h = mix64(h ^ (std::uint64_t) (op * 1000 + a * 100 + b * 10 + c));
        rt().detail = cat("SpVecFP<", tn, "> p=", p, " history:", log);
        std::string e;
        switch (op) {
        case 0: { std::size_t ix = r.pick(uni); v[a] = ix; d[a].clear(); d[a][ix] = 1; break; }
        case 1: case 9: {
            int bb = op == 9 ? a : b;
            SpVecFP<P> t = v[a] + v[bb];
            auto m = d[a]; for (auto &q : d[bb]) m[q.first] += q.second;
            for (auto it = m.begin(); it != m.end();) { it->second = norm(it->second); if (it->second == 0) it = m.erase(it); else ++it; }
            e = fp_same(t, m, p); v[c] = t; d[c] = m;
            break;
        }
        case 2: {
            auto m = d[a]; auto db = d[b]; for (auto &q : db) m[q.first] += q.second;
            for (auto it = m.begin(); it != m.end();) { it->second = norm(it->second); if (it->second == 0) it = m.erase(it); else ++it; }
            v[a] += v[b]; d[a] = m;
            break;
        }
        case 3: case 4: {
            P k = scalar(r);
            log += cat("[", k, "]");
            rt().detail = cat("SpVecFP<", tn, "> p=", p, " history:", log);
            std::map<std::size_t, Z> m;
            for (auto &q : d[a]) { Z x = norm(q.second * Z(k)); if (x != 0) m[q.first] = x; }
            if (op == 3) { SpVecFP<P> t = v[a] * k; e = fp_same(t, m, p); v[c] = t; d[c] = m; }
            else { v[a] *= k; d[a] = m; }
            break;
        }
        case 5: {
            Z w = 0; for (auto &q : d[a]) { auto it = d[b].find(q.first); if (it != d[b].end()) w += q.second * it->second; }
            w = norm(w);
            P x = v[a] * v[b];
            if (Z(x) != w) e = cat("dot product ", x, ", expected ", w);
            break;
        }
        case 6: { SpVecFP<P> t(v[b]); e = fp_same(t, d[b], p); v[a] = t; d[a] = d[b]; break; }
        case 7: { SpVecFP<P> t(v[b]); SpVecFP<P> t2(std::move(t)); e = fp_same(t2, d[b], p); v[a] = std::move(t2); d[a] = d[b]; break; }
        case 8: {
            P k = scalar(r);
            auto m = d[a]; for (auto &q : d[b]) m[q.first] += q.second * Z(k);
            for (auto it = m.begin(); it != m.end();) { it->second = norm(it->second); if (it->second == 0) it = m.erase(it); else ++it; }
            SpVecFP<P> t = v[a] + v[b] * k;
            e = fp_same(t, m, p); v[c] = t; d[c] = m;
            break;
        }
        case 10: v[a] = v[b]; d[a] = d[b]; break;
        case 11: if (r.chance(.2)) { v[a].clear(); d[a].clear(); } break;
        }
        if (e.empty()) e = fp_same(v[a], d[a], p);
        if (e.empty()) e = fp_same(v[b], d[b], p);
        if (!e.empty()) { rt().fail(cat("SpVecFP:", N[op]), e); return; }
        rt().count("spvecfp_operations");
    }
    rt().distinct(h);
}

template<class T> static T special(Rng &r) {
    T M = std::numeric_limits<T>::max();
    switch (r.below(8)) {
    case 0: return M - (T) r.below(4);
    case 1: return -(M - (T) r.below(4));
    case 2: return (T) 1 << r.below(sizeof(T) * 8 - 1);
    case 3: return (T) r.in(-20, 20);
    case 4: { T a = 1, b = 1; int k = (int) r.below(sizeof(T) == 4 ? 44 : 90); while (k--) { T c = a + b; a = b; b = c; } return r.chance(.5) ? a : -a; }
    case 5: { T x = (T) (r.next() & (std::uint64_t) M); return r.chance(.5) ? x : -x; }
    case 6: return (T) (r.next() & 0xffff) * (T) r.in(-300, 300);
    default: { T x = (T) (r.next() & (std::uint64_t) M) >> r.below(sizeof(T) * 8 - 2); return r.chance(.5) ? x : -x; }
    }
}
static Z bigz(Rng &r) {
    Z x = 0; int k = (int) r.in(1, 6);
    for (int i = 0; i < k; i++) { x <<= 60; x += (r.next() >> 4); }
    if (r.chance(.3)) { Z y = 1; int e = (int) r.in(1, 40); for (int i = 0; i < e; i++) y *= (int) r.in(2, 30); x = y; }
    return r.chance(.5) ? x : Z(-x);
}

static const int PRIMES_I[] = { 2, 3, 5, 7, 11, 13, 101, 251, 257, 997, 7919, 32749, 46337 };
static const long long PRIMES_L[] = { 2, 3, 5, 7, 13, 65537, 2147483647LL, 1000000007LL, 3037000493LL };

static void c18(std::uint64_t i, Rng &r) {
    if (i < 400) { // exhaustive small range, split over the cases
        int a = (int) i / 2 - 100;
        if (i % 2) { for (int b = -100; b <= 100; b++) { c18_gcd<int>("int", a, b); c18_inverse<int>("int", a, b); if (b % 4 == 0) { c18_gcd<long long>("long long", a, b); c18_inverse<long long>("long long", a, b); } } }
        else { for (int b = -100; b <= 100; b += 3) { c18_gcd<Z>("cpp_int", Z(a), Z(b)); c18_inverse<Z>("cpp_int", Z(a), Z(b)); } }
        for (std::uint64_t n = i * 50; n < i * 50 + 50; n++) { c18_prime<int>("int", n); if (n % 5 == i % 5) { c18_prime<long long>("long long", n); c18_prime<long>("long", n); c18_prime<Z>("cpp_int", n); } }
        rt().distinct(mix64(i));
        return;
    }
    switch (i % 8) {
    case 0: for (int k = 0; k < 60; k++) { int a = special<int>(r), b = special<int>(r); if (r.chance(.1)) b = a; if (r.chance(.05)) a = 0; if (r.chance(.05)) b = 0; c18_gcd<int>("int", a, b); c18_inverse<int>("int", a, b); rt().distinct(mix64(((std::uint64_t) (unsigned) a << 32) | (unsigned) b)); } break;
    case 1: for (int k = 0; k < 60; k++) { long long a = special<long long>(r), b = special<long long>(r); if (r.chance(.1)) b = -a; if (r.chance(.05)) a = 0; if (r.chance(.05)) b = 0; c18_gcd<long long>("long long", a, b); c18_inverse<long long>("long long", a, b); rt().distinct(mix64(mix64(a) ^ b)); } break;
    case 2: for (int k = 0; k < 10; k++) { Z a = bigz(r), b = bigz(r); if (r.chance(.2)) { Z g = bigz(r); a *= g; b *= g; } if (r.chance(.05)) a = 0; c18_gcd<parmcb::ptype>("cpp_int", a, b); c18_inverse<parmcb::ptype>("cpp_int", a, b); rt().distinct(mix64((std::uint64_t) (abs(a) % 1000000007)) ^ (std::uint64_t) (abs(b) % 998244353)); } break;
    case 3: { // primality, int
        for (int k = 0; k < 20; k++) {
            std::uint64_t n;
            switch (r.below(6)) {
            case 0: n = 2147483647ULL - r.below(2000); break;
            case 1: { std::uint64_t q = r.below(46340) + 2; while (!prime64(q)) q--; n = q * q; break; }
            case 2: { std::uint64_t q = r.below(40000) + 100; while (!prime64(q)) q++; std::uint64_t t = q + 1; while (!prime64(t)) t++; n = q * t; if (n > 2147483647ULL) n = q; break; }
            case 3: n = r.below(1 << 20) + 2; break;
            case 4: { static const std::uint64_t C[] = { 561, 1105, 1729, 2465, 2821, 6601, 8911, 41041, 825265, 321197185, 2047, 3215031751ULL % 2147483648ULL, 1373653, 25326001 }; n = C[r.below(14)]; break; }
            default: n = r.below(2147483646ULL) + 2;
            }
            c18_prime<int>("int", n); rt().distinct(mix64(n));
        }
        break;
    }
    case 4: { // primality, 64 bit: primes up to 1e11, large composites with a small factor
        for (int k = 0; k < 4; k++) {
            std::uint64_t n;
            switch (r.below(5)) {
            case 0: n = r.below(100000000000ULL) + 2; break;
            case 1: { std::uint64_t q = r.below(300000) + 2; while (!prime64(q)) q++; n = q * q; break; }
            case 2: do n = (r.next() >> 1) | 1; while (!smallest_factor(n, 1000)); break;
            case 3: n = 9223372036854775807ULL - r.below(50); if (!smallest_factor(n, 1000000)) n = 9223372036854775807ULL; break;
            default: n = (r.next() >> (1 + r.below(20))) & ~1ULL; break;
            }
            if (n < 2) n = 2;
            if (n > 1000000000000ULL && !smallest_factor(n, 1000000)) continue;
            c18_prime<long long>("long long", n);
            if (n < 40000000000ULL || smallest_factor(n, 5000)) c18_prime<long>("long", n);
            if (n < 10000000 || smallest_factor(n, 500)) c18_prime<Z>("cpp_int", n);
            rt().distinct(mix64(n) ^ 5);
        }
        break;
    }
    case 5: { int p = PRIMES_I[r.below(13)]; c18_vec<int>("int", p, r, [&](Rng &q) -> int { switch (q.below(6)) { case 0: return (int) q.in(-2 * p, 2 * p); case 1: return p; case 2: return 0; case 3: return std::numeric_limits<int>::min() + (int) q.below(3); default: return special<int>(q); } }); break; }
    case 6: { long long p = PRIMES_L[r.below(9)]; c18_vec<long long>("long long", p, r, [&](Rng &q) -> long long { switch (q.below(6)) { case 0: return q.in(-2 * p, 2 * p); case 1: return -p; case 2: return p - 1; case 3: return std::numeric_limits<long long>::min() + (long long) q.below(3); default: return special<long long>(q); } }); break; }
    default: {
        Z p = r.chance(.5) ? Z(PRIMES_L[r.below(9)]) : (Z(1) << 127) - 1;
        if (r.chance(.3)) p = (Z(1) << 61) - 1;
        c18_vec<Z>("cpp_int", p, r, [&](Rng &q) -> Z { return q.chance(.2) ? Z(p * q.in(-3, 3)) : bigz(q); });
    }
    }
}

int main(int argc, char **argv) {
    rt().init(argc, argv);
    const std::string prop = rt().opt.prop;
    return rt().loop([&](std::uint64_t i, Rng &r) {
        if (prop == "C17") {
            if (i < 1024) c17_exhaustive(i);
            else switch (r.below(4)) {
            case 0: c17_history<std::size_t>(i, r, "size_t"); break;
            case 1: c17_history<int>(i, r, "int"); break;
            case 2: c17_history<std::uint16_t>(i, r, "uint16"); break;
            default: c17_history<unsigned long>(i, r, "ulong"); break;
            }
        } else c18(i, r);
    });
}
