#pragma once
#include "vp_std.hpp"
namespace vp {

inline std::uint64_t mix64(std::uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

inline std::uint64_t hash_str(const std::string &s) {
    std::uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ULL;
    }
    return h;
}

struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed = 1) : s(mix64(seed ^ 0xA5A5A5A5DEADBEEFULL)) {}
    std::uint64_t next() {
        s += 0x9e3779b97f4a7c15ULL;
        std::uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    // uniform in [0,n)
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
    // uniform in [a,b]
    long long in(long long a, long long b) { return a + (long long) below((std::uint64_t) (b - a) + 1); }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
    template<class V> void shuffle(V &v) {
        for (std::size_t i = v.size(); i > 1; --i)
            std::swap(v[i - 1], v[below(i)]);
    }
    template<class V> auto pick(const V &v) -> decltype(v[0]) { return v[below(v.size())]; }
};

} // vp
