// Heap-layout perturbation: while armed, small allocations are served from randomly ordered slots of one big
// region, so that the order of object addresses is unrelated to the order of their creation. The library orders
// edge descriptors by address, hence std::set<Edge>/std::map<Edge,..> iteration orders become arbitrary.
// Include in exactly one translation unit of a program that is not built with AddressSanitizer.
#pragma once
#include "vp_std.hpp"
#include "vp_rng.hpp"
#ifdef VP_NO_ALLOC // sanitizer and valgrind builds keep their own allocator
namespace vp { namespace heap {
inline void init() {}
inline void arm(std::uint64_t, int) {}
inline void disarm() {}
} }
#else
namespace vp { namespace heap {
struct Region {
    static const std::size_t SLOT = 128, COUNT = 1 << 15;
    char *base = nullptr;
    std::uint32_t *fl = nullptr; // free list (stack)
    std::size_t top = 0;
    std::atomic_flag lock = ATOMIC_FLAG_INIT;
    std::atomic<bool> armed { false };
    std::atomic<std::uint64_t> served { 0 };
    std::uint64_t s = 1;
};
inline Region& R() { static Region r; return r; }
inline void init() {
    Region &r = R();
    if (r.base) return;
    r.base = (char*) ::mmap(nullptr, Region::SLOT * Region::COUNT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    r.fl = (std::uint32_t*) ::mmap(nullptr, 4 * Region::COUNT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (std::size_t i = 0; i < Region::COUNT; i++) r.fl[i] = i;
    r.top = Region::COUNT;
}
// mode 0: off, 1: random slots, 2: descending addresses
inline void arm(std::uint64_t seed, int mode) {
    init();
    Region &r = R();
    while (r.lock.test_and_set(std::memory_order_acquire)) ;
    if (mode == 1) {
        Rng g(seed);
        std::size_t win = std::min<std::size_t>(r.top, 2048); // shuffle the window that will be used next
        std::uint32_t *f = r.fl + (r.top - win);
        for (std::size_t i = win; i > 1; --i) std::swap(f[i - 1], f[g.below(i)]);
    } else if (mode == 2) {
        std::size_t win = std::min<std::size_t>(r.top, 2048);
        std::sort(r.fl + (r.top - win), r.fl + r.top); // popped from the top: descending
    }
    r.lock.clear(std::memory_order_release);
    r.armed = mode != 0;
}
inline void disarm() { R().armed = false; }
inline void* alloc(std::size_t n) {
    Region &r = R();
    if (r.armed.load(std::memory_order_relaxed) && n <= Region::SLOT) {
        void *p = nullptr;
        while (r.lock.test_and_set(std::memory_order_acquire)) ;
        if (r.top) { p = r.base + (std::size_t) r.fl[--r.top] * Region::SLOT; r.served++; }
        r.lock.clear(std::memory_order_release);
        if (p) return p;
    }
    void *p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
inline void release(void *p) {
    if (!p) return;
    Region &r = R();
    char *c = (char*) p;
    if (r.base && c >= r.base && c < r.base + Region::SLOT * Region::COUNT) {
        std::memset(p, 0xDD, Region::SLOT);
        while (r.lock.test_and_set(std::memory_order_acquire)) ;
        r.fl[r.top++] = (c - r.base) / Region::SLOT;
        r.lock.clear(std::memory_order_release);
        return;
    }
    std::free(p);
}
} }
void* operator new(std::size_t n) { return vp::heap::alloc(n); }
void* operator new[](std::size_t n) { return vp::heap::alloc(n); }
void operator delete(void *p) noexcept { vp::heap::release(p); }
void operator delete[](void *p) noexcept { vp::heap::release(p); }
void operator delete(void *p, std::size_t) noexcept { vp::heap::release(p); }
void operator delete[](void *p, std::size_t) noexcept { vp::heap::release(p); }
#endif
