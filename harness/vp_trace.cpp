// Linked into the demo programs, which are compiled with -finstrument-functions: remembers which functions were entered and
// writes their names to the file named by VP_TRACE (".<pid>" appended) when the process ends, or after the first entry into each.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <string.h>
#include <unistd.h>
#define NI __attribute__((no_instrument_function))
static const unsigned SZ = 1 << 16;
static std::atomic<void*> TAB[SZ];
static int FD = -2;
static pthread_mutex_t MU = PTHREAD_MUTEX_INITIALIZER;
extern "C" NI void __cyg_profile_func_enter(void *f, void *) {
    unsigned long h = ((unsigned long) f >> 2) * 0x9E3779B97F4A7C15UL >> 48;
    for (unsigned k = 0; k < 64; k++) {
        std::atomic<void*> &s = TAB[(h + k) & (SZ - 1)];
        void *o = s.load(std::memory_order_relaxed);
        if (o == f)
            return;
        if (o == nullptr) {
            if (!s.compare_exchange_strong(o, f)) {
                if (o == f)
                    return;
                continue;
            }
            Dl_info i;
            if (dladdr(f, &i) && i.dli_sname) {
                pthread_mutex_lock(&MU);
                if (FD == -2) {
                    const char *n = getenv("VP_TRACE");
                    char b[512];
                    FD = -1;
                    if (n) {
                        snprintf(b, sizeof b, "%s.%d", n, (int) getpid());
                        FD = open(b, O_CREAT | O_WRONLY | O_TRUNC | O_CLOEXEC, 0644);
                    }
                }
                if (FD >= 0) {
                    (void) !write(FD, i.dli_sname, strlen(i.dli_sname));
                    (void) !write(FD, "\n", 1);
                }
                pthread_mutex_unlock(&MU);
            }
            return;
        }
    }
}
extern "C" NI void __cyg_profile_func_exit(void*, void*) {
}
