// Controlled execution of tbb::parallel_for / parallel_reduce / concurrent_vector::push_back.
// Include before any parmcb header: the library's own calls then land here, where the partition of the range, the order of
// the tasks, the accumulation runs, the join tree and (cooperative mode) the interleaving inside the tasks are drawn from a
// seeded generator, all within what TBB's documentation allows. Nothing of the library itself is changed.
#pragma once
#include "vp_std.hpp"
#include "vp_rng.hpp"
#include <typeindex>
#include <tbb/tbb.h>
#include <tbb/global_control.h>
#include <tbb/concurrent_vector.h>

namespace vp_real { // the genuine ones, kept before the names are redirected
template<class... A> void pfor(A&&... a) { tbb::parallel_for(std::forward<A>(a)...); }
template<class R, class V, class B, class J, class... X> V preduce(const R &r, const V &id, const B &b, const J &j, X&&... x) { return tbb::parallel_reduce(r, id, b, j, std::forward<X>(x)...); }
template<class R, class B> void preduce_body(const R &r, B &b) { tbb::parallel_reduce(r, b); }
}

namespace vp { namespace sched {

enum Mode { REAL, SERIAL, COOP, FREE };

struct Stats {
    std::map<std::string, std::uint64_t> regions, leaves; // per mode
    std::set<std::type_index> sites;
    std::uint64_t joins = 0, forks = 0, seqs = 0, empty = 0, nested = 0, freerun = 0, multi_thread_regions = 0, max_leaves = 0;
    std::atomic<std::uint64_t> switches { 0 }, points { 0 }, pushes { 0 };
};

struct S {
    Mode mode = REAL;
    Rng rng { 1 };
    int threads = 4;          // COOP and FREE
    double pswitch = .1;      // COOP: probability of a context switch at a yield point
    double pdelay = .02;      // FREE and REAL: probability of a delay at a yield point
    int style = 0;            // how ranges are cut
    int order = 0;            // how ready tasks are picked
    std::uint64_t trace = 0;  // hash of every decision taken so far in this call
    std::uint64_t budget = 0; // COOP: switches left in this call
    Stats stats;
};
inline S& s() { static S x; return x; }
inline void mark(std::uint64_t x) { s().trace = mix64(s().trace * 0x9E3779B97F4A7C15ULL + x + 1); }

struct Tl { int quiet = 0; int inside = 0; int coop = -1; int noisy = 0; std::uint64_t r = 0; };
inline Tl& tl() { static thread_local Tl t; return t; }
struct Quiet { Quiet() { tl().quiet++; } ~Quiet() { tl().quiet--; } };

// ------------------------------------------------------------------ cooperative token
struct Coop {
    std::mutex m;
    std::vector<std::unique_ptr<std::condition_variable>> cv;
    std::vector<char> alive;
    int holder = 0;
    std::atomic<std::uint64_t> progress { 0 };
    std::atomic<bool> freerun { false };
    void begin(int n) {
        while ((int) cv.size() < n) cv.emplace_back(new std::condition_variable());
        alive.assign(n, 1);
        holder = 0;
        freerun = false;
    }
    void wait_for_token(int me, std::unique_lock<std::mutex> &l) {
        while (holder != me && !freerun) {
            std::uint64_t p = progress;
            cv[me]->wait_for(l, std::chrono::milliseconds(200));
            // the holder is blocked on something another task has to release: let everybody run
            if (holder != me && !freerun && p == progress) { freerun = true; s().stats.freerun++; for (auto &c : cv) c->notify_all(); }
        }
    }
    int other(int me) {
        std::vector<int> c;
        for (int i = 0; i < (int) alive.size(); i++) if (i != me && alive[i]) c.push_back(i);
        return c.empty() ? -1 : c[s().rng.below(c.size())];
    }
    void enter(int me) { std::unique_lock<std::mutex> l(m); wait_for_token(me, l); }
    void switch_away(int me) {
        std::unique_lock<std::mutex> l(m);
        if (freerun || holder != me) return;
        int o = other(me);
        if (o < 0) return;
        holder = o;
        progress++;
        s().stats.switches++;
        mark(1000 + o);
        cv[o]->notify_all();
        wait_for_token(me, l);
    }
    void leave(int me) {
        std::unique_lock<std::mutex> l(m);
        alive[me] = 0;
        progress++;
        if (holder == me) { int o = other(me); if (o >= 0) { holder = o; cv[o]->notify_all(); } }
    }
};
inline Coop& coop() { static Coop c; return c; }

inline void spin(unsigned n) { for (volatile unsigned i = 0; i < n; i++) ; }

// a place where the scheduler may intervene: weight map reads, allocations, concurrent_vector operations
inline void point() {
    Tl &t = tl();
    if (t.quiet) return;
    if (t.coop >= 0) {
        Coop &c = coop();
        if (c.freerun) return;
        Quiet q;
        c.progress++;
        S &x = s();
        x.stats.points.fetch_add(1, std::memory_order_relaxed);
        if (x.budget == 0 || !x.rng.chance(x.pswitch)) return;
        x.budget--;
        c.switch_away(t.coop);
    } else if (t.noisy) {
        t.r = mix64(t.r + 0x9E3779B97F4A7C15ULL);
        if ((double) (t.r >> 11) * (1.0 / 9007199254740992.0) < s().pdelay) {
            if (t.r & 7) spin((unsigned) (t.r >> 3 & 0x7ff)); else sched_yield();
        }
    }
}

// ------------------------------------------------------------------ worker threads
// Each worker shares synchronisation with the caller only, so that the pool itself orders nothing between two workers.
struct Worker {
    std::mutex m;
    std::condition_variable cv;
    std::function<void()> job;
    bool has = false, fin = false, quit = false;
    std::thread th;
    Worker() : th([this] { run(); }) {}
    ~Worker() { { std::lock_guard<std::mutex> l(m); quit = true; cv.notify_all(); } th.join(); }
    void run() {
        tl().quiet++;
        for (;;) {
            std::unique_lock<std::mutex> l(m);
            while (!has && !quit) cv.wait(l);
            if (quit) return;
            l.unlock();
            job();
            l.lock();
            has = false; fin = true;
            cv.notify_all();
        }
    }
    void start(std::function<void()> f) { std::lock_guard<std::mutex> l(m); job = std::move(f); has = true; fin = false; cv.notify_all(); }
    void wait() { std::unique_lock<std::mutex> l(m); while (!fin) cv.wait(l); job = nullptr; }
};
struct Pool {
    std::vector<std::unique_ptr<Worker>> w;
    // run f(0) here and f(1..n-1) on workers
    void run(int n, const std::function<void(int)> &f) {
        Quiet q;
        while ((int) w.size() < n - 1) w.emplace_back(new Worker());
        for (int i = 1; i < n; i++) w[i - 1]->start([i, &f] { f(i); });
        f(0);
        for (int i = 1; i < n; i++) w[i - 1]->wait();
    }
};
inline Pool& pool() { static Pool p; return p; }

// ------------------------------------------------------------------ a region: leaves, accumulators, joins
struct Node { int kind; std::size_t leaf; int slot, slot2; int deps; std::vector<int> next; }; // kind 0 leaf, 1 join slot <- slot2

struct Plan {
    std::vector<Node> nodes;
    std::vector<int> last;    // last node of each slot
    std::vector<int> parent;  // slot it was split from
    int new_slot(int p) { last.push_back(-1); parent.push_back(p); return (int) last.size() - 1; }
    void dep(int a, int b) { if (a < 0) return; nodes[a].next.push_back(b); nodes[b].deps++; }
    void leaf(std::size_t i, int slot) { nodes.push_back(Node { 0, i, slot, -1, 0, {} }); dep(last[slot], (int) nodes.size() - 1); last[slot] = (int) nodes.size() - 1; }
    void join(int a, int b) {
        nodes.push_back(Node { 1, 0, a, b, 0, {} });
        int n = (int) nodes.size() - 1;
        dep(last[a], n); dep(last[b], n);
        last[a] = n;
        s().stats.joins++;
    }
    // leaves [lo, hi) accumulated onto slot: as TBB does, each half either continues on the same accumulator or gets a new one
    void reduce(std::size_t lo, std::size_t hi, int slot, Rng &r, double pfork) {
        if (hi - lo == 1) { leaf(lo, slot); return; }
        std::size_t mid = lo + 1 + r.below(hi - lo - 1);
        mark(mid);
        reduce(lo, mid, slot, r, pfork);
        if (r.chance(pfork)) {
            mark(7);
            s().stats.forks++;
            int n = new_slot(slot);
            reduce(mid, hi, n, r, pfork);
            join(slot, n);
        } else { s().stats.seqs++; reduce(mid, hi, slot, r, pfork); }
    }
    // runs from the identity only, joins afterwards: no ordering between two runs before the joins
    void runs(std::size_t n, Rng &r, double pfork) {
        std::vector<int> slots { new_slot(-1) };
        for (std::size_t i = 0; i < n; i++) {
            if (i && r.chance(pfork)) { slots.push_back(new_slot(0)); s().stats.forks++; }
            leaf(i, slots.back());
        }
        while (slots.size() > 1) {
            std::size_t i = r.below(slots.size() - 1);
            join(slots[i], slots[i + 1]);
            slots.erase(slots.begin() + i + 1);
        }
    }
};

// cut points of n items
inline std::vector<std::size_t> cuts(std::size_t n, Rng &r) {
    std::vector<std::size_t> c { 0 };
    int style = s().style;
    double p = style == 0 ? 1 : style == 1 ? .5 : style == 2 ? .15 : style == 3 ? 0 : r.unit();
    for (std::size_t i = 1; i < n; i++) if (p >= 1 || r.chance(p)) c.push_back(i);
    c.push_back(n);
    return c;
}
template<class R> void split_all(R r, std::vector<R> &out, Rng &g, double p) {
    if (r.is_divisible() && g.chance(p)) {
        R right(r, tbb::split());
        split_all(r, out, g, p);
        split_all(right, out, g, p);
    } else out.push_back(r);
}
template<class R> std::vector<R> partition(const R &r, Rng &g) {
    std::vector<R> out;
    int st = s().style;
    split_all(r, out, g, st == 0 ? 1. : st == 3 ? 0. : st == 1 ? .9 : .7);
    return out;
}
template<class V> typename std::enable_if<std::is_integral<V>::value, std::vector<tbb::blocked_range<V>>>::type partition(const tbb::blocked_range<V> &r, Rng &g) {
    typedef tbb::blocked_range<V> R;
    std::vector<R> out;
    if (r.grainsize() > 1) { // TBB only cuts ranges larger than the grain
        split_all(r, out, g, s().style == 3 ? 0. : .9);
        return out;
    }
    auto c = cuts(r.size(), g);
    for (std::size_t i = 0; i + 1 < c.size(); i++) out.push_back(R(r.begin() + (V) c[i], r.begin() + (V) c[i + 1], r.grainsize()));
    return out;
}

struct Inside { Tl &t; int q, n; Inside(bool noisy) : t(tl()), q(t.quiet), n(t.noisy) { t.quiet = 0; t.inside++; t.noisy = noisy; } ~Inside() { t.quiet = q; t.inside--; t.noisy = n; } };

// executes the plan; leaf(i, slot) and join(a, b) call into the library
template<class Leaf, class Join> void execute(Plan &p, Mode mode, const Leaf &leaf, const Join &join) {
    S &x = s();
    auto doit = [&](const Node &n, bool noisy) {
        Inside in(noisy);
        if (n.kind == 0) leaf(n.leaf, n.slot); else join(n.slot, n.slot2);
    };
    if (mode == FREE) {
        // every accumulator belongs to one thread for the whole region
        int T = x.threads;
        std::vector<std::vector<int>> mine(T);
        std::vector<int> joins, owner(p.last.size());
        std::uint64_t seed = x.rng.next();
        for (auto &o : owner) o = (int) x.rng.below(T);
        for (std::size_t i = 0; i < p.nodes.size(); i++) {
            if (p.nodes[i].kind) joins.push_back((int) i);
            else { int t = p.nodes[i].slot >= 0 ? owner[p.nodes[i].slot] : (int) x.rng.below(T); mine[t].push_back((int) i); mark(t); }
        }
        // (a thread's leaves stay in order of the range: within one accumulator they have to)
        int busy = 0;
        for (auto &v : mine) busy += !v.empty();
        if (busy > 1) x.stats.multi_thread_regions++;
        std::vector<std::exception_ptr> ex(T);
        std::atomic<int> here(0);
        pool().run(T, [&](int t) {
            Quiet q;
            tl().r = mix64(seed + t);
            here.fetch_add(1, std::memory_order_relaxed);
            for (int i = 0; i < 2000 && here.load(std::memory_order_relaxed) < T; i++) spin(20);
            try { for (int i : mine[t]) doit(p.nodes[i], true); } catch (...) { ex[t] = std::current_exception(); }
        });
        for (auto &e : ex) if (e) std::rethrow_exception(e);
        for (int i : joins) doit(p.nodes[i], false);
        return;
    }
    std::vector<int> ready;
    for (std::size_t i = 0; i < p.nodes.size(); i++) if (p.nodes[i].deps == 0) ready.push_back((int) i);
    std::mutex dag;
    std::size_t done = 0;
    std::exception_ptr ex;
    auto pick = [&]() -> int { // -1: nothing ready
        std::lock_guard<std::mutex> l(dag);
        if (ready.empty()) return -1;
        std::size_t i = 0;
        int o = x.order;
        if (o == 3) o = (int) x.rng.below(3);
        if (o == 0) i = x.rng.below(ready.size());
        else if (o == 1) i = ready.size() - 1;
        int n = ready[i];
        ready.erase(ready.begin() + i);
        mark(100000 + n);
        return n;
    };
    auto finish = [&](int n) {
        std::lock_guard<std::mutex> l(dag);
        done++;
        for (int y : p.nodes[n].next) if (--p.nodes[y].deps == 0) ready.push_back(y);
    };
    if (mode == SERIAL) {
        int n;
        while ((n = pick()) >= 0) { doit(p.nodes[n], false); finish(n); }
        return;
    }
    int T = x.threads;
    Coop &c = coop();
    c.begin(T);
    if (p.nodes.size() > 1) x.stats.multi_thread_regions++;
    pool().run(T, [&](int t) {
        Quiet q;
        c.enter(t);
        tl().coop = t;
        for (;;) {
            { std::lock_guard<std::mutex> l(dag); if (done == p.nodes.size() || ex) break; }
            int n = pick();
            if (n < 0) { if (c.freerun) std::this_thread::sleep_for(std::chrono::microseconds(50)); else c.switch_away(t); continue; }
            try { doit(p.nodes[n], false); } catch (...) { std::lock_guard<std::mutex> l(dag); if (!ex) ex = std::current_exception(); }
            finish(n);
            if (!c.freerun && x.rng.chance(.5)) c.switch_away(t);
        }
        tl().coop = -1;
        c.leave(t);
    });
    if (ex) std::rethrow_exception(ex);
}

inline double x_pfork(Rng &r) { static const double P[] = { 1, .5, .2, 0 }; return P[r.below(4)]; }

struct RealSpy { std::atomic<std::uint64_t> n { 0 }, h { 0 }; };
inline std::uint64_t tid() { static thread_local char c; return (std::uint64_t) (std::uintptr_t) &c; }

inline Mode enter_mode() {
    if (tl().inside && s().mode != REAL) { s().stats.nested++; return SERIAL; }
    return s().mode;
}
inline void region(Mode m, std::size_t leaves, const std::type_index &site) {
    if (tl().inside) return;
    static const char *N[] = { "real", "serial", "cooperative", "free-threads" };
    S &x = s();
    x.stats.regions[N[m]]++;
    x.stats.leaves[N[m]] += leaves;
    x.stats.max_leaves = std::max<std::uint64_t>(x.stats.max_leaves, leaves);
    x.stats.sites.insert(site);
    if (leaves == 0) x.stats.empty++;
    mark(leaves);
}
// a nested region must not touch the generator of the outer one from another thread
struct RngFor { Rng own; Rng &r; RngFor() : own(tl().r = mix64(tl().r + 99)), r(tl().inside ? own : s().rng) {} };

template<class Range, class Body> void pfor(const Range &range, const Body &body) {
    Quiet q;
    Mode m = enter_mode();
    if (m == REAL) {
        RealSpy spy;
        auto wrap = [&](const Range &r) {
            spy.n.fetch_add(1, std::memory_order_relaxed);
            Inside in(true);
            body(r);
        };
        vp_real::pfor(range, wrap);
        if (!tl().inside) region(m, spy.n, typeid(Body));
        return;
    }
    RngFor g;
    if (range.empty()) { region(m, 0, typeid(Body)); return; }
    auto parts = partition(range, g.r);
    region(m, parts.size(), typeid(Body));
    for (auto &r : parts) mark(r.size());
    if (tl().inside) { g.r.shuffle(parts); for (auto &r : parts) { Inside in(false); body(r); } return; }
    Plan p;
    for (std::size_t i = 0; i < parts.size(); i++) p.nodes.push_back(Node { 0, i, -1, -1, 0, {} });
    std::vector<std::unique_ptr<Body>> copies; // TBB copies the body object as it likes
    std::vector<char> use(parts.size());
    for (std::size_t i = 0; i < parts.size(); i++) use[i] = m != FREE && g.r.chance(.3);
    execute(p, m, [&](std::size_t i, int) {
        if (use[i]) { Body b(body); const Body &cb = b; cb(parts[i]); } else body(parts[i]);
    }, [](int, int) {});
}

template<class Range, class Value, class Body, class Join> Value preduce(const Range &range, const Value &identity, const Body &body, const Join &join) {
    Quiet q;
    Mode m = enter_mode();
    if (m == REAL) {
        RealSpy spy;
        auto wrap = [&](const Range &r, const Value &v) -> Value {
            spy.n.fetch_add(1, std::memory_order_relaxed);
            Inside in(true);
            return body(r, v);
        };
        Value v = vp_real::preduce(range, identity, wrap, join);
        if (!tl().inside) region(m, spy.n, typeid(Body));
        return v;
    }
    RngFor g;
    if (range.empty()) { region(m, 0, typeid(Body)); return identity; }
    auto parts = partition(range, g.r);
    region(m, parts.size(), typeid(Body));
    for (auto &r : parts) mark(r.size());
    if (tl().inside) {
        Inside in(false);
        Value acc = identity, cur = identity;
        for (auto &r : parts) {
            if (g.r.chance(.4)) { acc = join(static_cast<const Value&>(acc), static_cast<const Value&>(cur)); cur = identity; }
            cur = body(r, static_cast<const Value&>(cur));
        }
        return join(static_cast<const Value&>(acc), static_cast<const Value&>(cur));
    }
    Plan p;
    double pf = x_pfork(g.r);
    if (m == FREE) p.runs(parts.size(), g.r, pf);
    else { p.new_slot(-1); p.reduce(0, parts.size(), 0, g.r, pf); }
    std::vector<Value> val(p.last.size(), identity);
    execute(p, m, [&](std::size_t i, int s) { val[s] = body(parts[i], const_cast<const Value&>(val[s])); },
            [&](int a, int b) { val[a] = join(const_cast<const Value&>(val[a]), const_cast<const Value&>(val[b])); });
    return val[0];
}

template<class Range, class Body> void preduce_body(const Range &range, Body &body) {
    Quiet q;
    Mode m = enter_mode();
    if (m == REAL) { vp_real::preduce_body(range, body); if (!tl().inside) region(m, 1, typeid(Body)); return; }
    RngFor g;
    if (range.empty()) { region(m, 0, typeid(Body)); return; }
    auto parts = partition(range, g.r);
    region(m, parts.size(), typeid(Body));
    if (tl().inside) { for (auto &r : parts) { Inside in(false); body(r); } return; }
    Plan p;
    double pf = x_pfork(g.r);
    if (m == FREE) p.runs(parts.size(), g.r, pf);
    else { p.new_slot(-1); p.reduce(0, parts.size(), 0, g.r, pf); }
    std::vector<std::unique_ptr<Body>> own(p.last.size());
    for (std::size_t i = 1; i < own.size(); i++) own[i].reset(new Body(body, tbb::split()));
    auto at = [&](int s) -> Body& { return s == 0 ? body : *own[s]; };
    execute(p, m, [&](std::size_t i, int s) { at(s)(parts[i]); }, [&](int a, int b) { at(a).join(at(b)); });
}

template<class T> struct is_hint : std::integral_constant<bool, std::is_same<typename std::decay<T>::type, tbb::simple_partitioner>::value
        || std::is_same<typename std::decay<T>::type, tbb::auto_partitioner>::value || std::is_same<typename std::decay<T>::type, tbb::static_partitioner>::value
        || std::is_same<typename std::decay<T>::type, tbb::affinity_partitioner>::value || std::is_same<typename std::decay<T>::type, tbb::task_group_context>::value> {};
template<class... X> struct first_is_hint : std::true_type {};
template<class A, class... X> struct first_is_hint<A, X...> : is_hint<A> {};

}} // vp::sched

namespace tbb {
// (range, body, hints...)
template<class Range, class Body, class... X, typename std::enable_if<!std::is_integral<Range>::value && vp::sched::first_is_hint<X...>::value, int>::type = 0>
void vp_parallel_for(const Range &r, const Body &b, X&&...) { vp::sched::pfor(r, b); }
// (first, last, f, hints...)
template<class I, class F, class... X, typename std::enable_if<std::is_integral<I>::value && !std::is_integral<F>::value && vp::sched::first_is_hint<X...>::value, int>::type = 0>
void vp_parallel_for(I first, I last, const F &f, X&&...) {
    if (first < last) vp::sched::pfor(tbb::blocked_range<I>(first, last), [&](const tbb::blocked_range<I> &r) { for (I i = r.begin(); i != r.end(); ++i) f(i); });
}
// (first, last, step, f, hints...)
template<class I, class F, class... X, typename std::enable_if<std::is_integral<I>::value && !vp::sched::is_hint<F>::value && vp::sched::first_is_hint<X...>::value, int>::type = 0>
void vp_parallel_for(I first, I last, I step, const F &f, X&&...) {
    if (first < last) vp::sched::pfor(tbb::blocked_range<I>(0, (last - first - 1) / step + 1), [&](const tbb::blocked_range<I> &r) { for (I i = r.begin(); i != r.end(); ++i) f(first + i * step); });
}
// (range, identity, body, join, hints...)
template<class Range, class Value, class Body, class Join, class... X, typename std::enable_if<!vp::sched::is_hint<Body>::value && vp::sched::first_is_hint<X...>::value, int>::type = 0>
Value vp_parallel_reduce(const Range &r, const Value &id, const Body &b, const Join &j, X&&...) { return vp::sched::preduce(r, id, b, j); }
// (range, body, hints...)
template<class Range, class Body, class... X, typename std::enable_if<vp::sched::first_is_hint<X...>::value, int>::type = 0>
void vp_parallel_reduce(const Range &r, Body &b, X&&...) { vp::sched::preduce_body(r, b); }

template<class T, class A = tbb::cache_aligned_allocator<T>> class vp_concurrent_vector : public concurrent_vector<T, A> {
    typedef concurrent_vector<T, A> B;
    struct Around { Around() { vp::sched::s().stats.pushes.fetch_add(1, std::memory_order_relaxed); vp::sched::point(); } ~Around() { vp::sched::point(); } };
public:
    using B::B;
    vp_concurrent_vector() {}
    typename B::iterator push_back(const T &x) { Around a; return B::push_back(x); }
    typename B::iterator push_back(T &&x) { Around a; return B::push_back(std::move(x)); }
    template<class... Y> typename B::iterator emplace_back(Y&&... y) { Around a; return B::emplace_back(std::forward<Y>(y)...); }
    template<class... Y> typename B::iterator grow_by(Y&&... y) { Around a; return B::grow_by(std::forward<Y>(y)...); }
    typename B::size_type size() const { vp::sched::point(); typename B::size_type n = B::size(); vp::sched::point(); return n; }
};
}
#define parallel_for vp_parallel_for
#define parallel_reduce vp_parallel_reduce
#define parallel_deterministic_reduce vp_parallel_reduce
#define concurrent_vector vp_concurrent_vector
