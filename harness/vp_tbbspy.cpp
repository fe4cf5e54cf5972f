// Preloaded into the demo programs: records, at every place where the program hands work to the TBB runtime, the parallelism
// that is allowed right then, and every thread that was seen executing tasks. The runtime itself is left alone.
// The record goes to the file named by VP_TBBSPY when the program ends (or at the first hand-over, should it not end normally).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <mutex>
#include <set>
#include <sys/syscall.h>
#include <unistd.h>
#include <tbb/global_control.h>
#include <tbb/task_arena.h>
#include <tbb/task_group.h>

namespace {
struct Spy {
    std::mutex m;
    std::map<std::size_t, unsigned long> allowed;  // value of max_allowed_parallelism -> number of hand-overs seen under it
    std::map<int, unsigned long> arena;            // this_task_arena::max_concurrency -> hand-overs
    unsigned long calls = 0;
    void dump() {
        const char *f = getenv("VP_TBBSPY");
        if (!f)
            return;
        FILE *fp = fopen(f, "w");
        if (!fp)
            return;
        fprintf(fp, "calls %lu\n", calls);
        for (auto &p : allowed)
            fprintf(fp, "allowed %zu %lu\n", p.first, p.second);
        for (auto &p : arena)
            fprintf(fp, "arena %d %lu\n", p.first, p.second);
        fclose(fp);
    }
    void see() {
        std::size_t v = tbb::global_control::active_value(tbb::global_control::max_allowed_parallelism);
        int a = tbb::this_task_arena::max_concurrency();
        std::lock_guard<std::mutex> l(m);
        ++allowed[v];
        ++arena[a];
        if (++calls == 1)
            dump();
    }
};
Spy &spy() {
    static Spy *s = new Spy;
    return *s;
}
struct AtEnd {
    ~AtEnd() {
        spy().dump();
    }
} at_end;
}

namespace tbb {
namespace detail {
namespace r1 {

using d1::task;
using d1::task_group_context;
using d1::wait_context;

__attribute__((visibility("default"))) void execute_and_wait(task &t, task_group_context &tc, wait_context &w, task_group_context &wc) {
    typedef void (*fn)(task&, task_group_context&, wait_context&, task_group_context&);
    static fn real = (fn) dlsym(RTLD_NEXT, "_ZN3tbb6detail2r116execute_and_waitERNS0_2d14taskERNS2_18task_group_contextERNS2_12wait_contextES6_");
    spy().see();
    real(t, tc, w, wc);
}

}
}
}
