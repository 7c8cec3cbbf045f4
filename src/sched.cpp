// sched.cpp - the harness owns the schedule.
//
// Code under test and harness are compiled with -fsanitize-coverage=trace-pc-guard,
// so every basic-block edge calls back here. During sched::run exactly one managed
// thread executes; control moves to another one only inside a callback, a yield or
// sleep, a join, a contended mutex, or at thread exit - as the Plan says.
// Interposed: pthread_create, pthread_join, pthread_mutex_lock, sched_yield,
// nanosleep, clock_nanosleep, usleep.
#include "pbt.hpp"
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <algorithm>
#include <vector>
#include <atomic>

#define NOCOV __attribute__((no_sanitize("coverage")))

extern "C" int __interceptor_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) __attribute__((weak));
extern "C" int __interceptor_pthread_join(pthread_t, void **) __attribute__((weak));
extern "C" int __interceptor_pthread_mutex_lock(pthread_mutex_t *) __attribute__((weak));

namespace sched {
enum { MAXT = 256 };
struct Th { std::atomic<int> go{0}; bool used = false, finished = false; long away = 0; pthread_t pt{}; void *(*fn)(void *) = nullptr; void *arg = nullptr; };
static Th T[MAXT];
static int nT = 0, cur = 0, nlive = 0;
static bool g_active = false;
static long g_steps = 0, g_budget = 0, g_slice = 0, g_switches = 0;
static const long SLICE_CAP = 20000;
static Plan P; static size_t pre_i = 0; static uint64_t rs0, rs1;
static __thread int me = -1;
static __thread int nosw = 0;
static uint64_t rnd() { uint64_t a = rs0, b = rs1; rs0 = b; a ^= a << 23; rs1 = a ^ b ^ (a >> 18) ^ (b >> 5); return rs1 + b; }
static long blk_limit = 0, blk_yields = 0, blk_steps = 0, blk_steps_limit = 0; static const char *blk_what = nullptr;

static void fwait(std::atomic<int> &f) {
    while (f.load(std::memory_order_acquire) == 0) syscall(SYS_futex, (int *)&f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    f.store(0, std::memory_order_relaxed);
}
static void fwake(std::atomic<int> &f) { f.store(1, std::memory_order_release); syscall(SYS_futex, (int *)&f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
NOCOV static void next_slice() {
    if (P.random) g_slice = 1 + (long)(rnd() % (2 * P.mean));
    else g_slice = pre_i < P.preempt.size() ? (long)P.preempt[pre_i].first + 1 : SLICE_CAP;
    if (g_slice > SLICE_CAP) g_slice = SLICE_CAP;
    g_budget = g_slice;
}
NOCOV static int choose(bool yielding) {
    // candidate list in ring order after the current thread
    int cand[MAXT], n = 0;
    for (int k = 1; k <= nT; k++) { int t = (cur + k) % nT; if (T[t].used && !T[t].finished && (t != cur) && T[t].away <= g_switches) cand[n++] = t; }
    if (!n && P.stall) for (int k = 1; k <= nT; k++) { int t = (cur + k) % nT; T[t].away = 0; if (T[t].used && !T[t].finished && (t != cur)) cand[n++] = t; }
    if (!n) return -1;
    if (P.random) return cand[rnd() % n];
    if (!yielding && pre_i < P.preempt.size()) { unsigned o = P.preempt[pre_i].second; ++pre_i; return cand[o % n]; }
    return cand[0];
}
NOCOV static void too_long() {
    char b[200]; snprintf(b, sizeof b, "no termination: execution still running after %ld basic blocks and %ld context switches under a fair schedule", g_steps, g_switches);
    pbt::die_failing(b);
}
NOCOV static void transfer(int to) {
    int self = cur; ++g_switches;
    if (g_switches > P.max_switches) too_long();
    cur = to; fwake(T[to].go);
    if (self >= 0 && !T[self].finished) fwait(T[self].go);
}
NOCOV static void do_switch(bool yielding) {
    g_steps += g_slice - g_budget;
    if (g_steps > P.max_steps) too_long();
    int t = choose(yielding);
    if (P.stall && !yielding && me >= 0 && rnd() % P.stall == 0) T[me].away = g_switches + (long)(rnd() % P.away);
    if (!P.random && yielding && pre_i < P.preempt.size()) {
        // keep the remaining gap of the pending preemption across yields
        long left = g_budget; if (t >= 0) transfer(t); g_slice = g_budget = left > 0 ? left : 1; return;
    }
    next_slice();
    if (t >= 0) { transfer(t); }
}
NOCOV void point() { if (g_active && me >= 0 && !nosw) do_switch(true); }
bool active() { return g_active; }
long steps() { return g_steps; }
long switches() { return g_switches; }
NoSwitch::NoSwitch() { ++nosw; }
NoSwitch::~NoSwitch() { --nosw; }

NOCOV static void *tramp(void *a) {
    Th &t = *(Th *)a; me = (int)(&t - T); fwait(t.go);
    void *r = t.fn(t.arg);
    // finished: hand over and leave
    t.finished = true; --nlive; me = -1;
    g_steps += g_slice - g_budget;
    int n = choose(true); next_slice();
    if (n >= 0) { cur = n; ++g_switches; fwake(T[n].go); }
    return r;
}
NOCOV Plan draw(pbt::Case &c) {
    Plan p;
    if (c.chance(1, 2)) {
        p.random = true; p.seed = c.pick(1 << 30); static const unsigned ms[] = {4, 15, 60, 300, 2000}; p.mean = ms[c.pick(5)];
        if (c.chance(1, 3)) { static const unsigned st[] = {3, 15, 80}, aw[] = {20, 200, 2000}; p.stall = std::max(st[c.pick(3)], 240 / p.mean); p.away = aw[c.pick(3)]; }   // or too little of the run is progress
        c.note("schedule: random seed ", p.seed, " mean slice ", p.mean, p.stall ? ", preempted threads may stay away" : "");
    } else {
        size_t n = c.pick(9); std::ostringstream o;
        for (size_t i = 0; i < n; i++) {
            static const unsigned r[] = {8, 60, 400, 3000};
            uint32_t gap = (uint32_t)c.pick(r[c.pick(4)]); uint32_t tgt = (uint32_t)c.pick(8);
            p.preempt.push_back({gap, tgt}); o << " +" << gap << "->" << tgt;
        }
        c.note("schedule: round robin at yields, preemptions", o.str());
    }
    return p;
}
NOCOV void run(pbt::Case &, const Plan &plan, const std::function<void()> &fn) {
    for (int i = 0; i < nT; i++) { T[i].used = T[i].finished = false; T[i].go = 0; T[i].away = 0; }
    P = plan; pre_i = 0; rs0 = plan.seed * 0x9e3779b97f4a7c15ull + 1; rs1 = plan.seed ^ 0x1234567887654321ull; rnd(); rnd();
    nT = 1; cur = 0; nlive = 1; T[0].used = true; T[0].finished = false; me = 0; nosw = 0;
    g_steps = 0; g_switches = 0; next_slice(); g_active = true;
    try { fn(); } catch (...) {
        // threads may still be live: the worker cannot be reused
        g_active = false;
        try { throw; } catch (pbt::Failure &f) { pbt::die_failing(f.msg); } catch (std::exception &e) { pbt::die_failing(std::string("unexpected exception: ") + e.what()); } catch (...) { pbt::die_failing("unexpected exception"); }
    }
    g_active = false; me = -1;
    g_steps += g_slice - g_budget;
}
static int real_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
    if (__interceptor_pthread_create) return __interceptor_pthread_create(t, a, f, arg);
    static auto r = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
    return r(t, a, f, arg);
}
static int real_join(pthread_t t, void **v) {
    if (__interceptor_pthread_join) return __interceptor_pthread_join(t, v);
    static auto r = (int (*)(pthread_t, void **))dlsym(RTLD_NEXT, "pthread_join");
    return r(t, v);
}
}  // namespace sched
using namespace sched;

extern "C" {
NOCOV void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { for (; a < b; ++a) *a = 1; }
NOCOV void __sanitizer_cov_trace_pc_guard(uint32_t *) {
    if (g_active) {
        if (--g_budget > 0) return;
        if (me < 0) { g_budget = 1; return; }
        if (nosw) { g_budget = 1; ++g_slice; return; }
        do_switch(false);
    } else if (blk_steps_limit && ++blk_steps > blk_steps_limit) {
        pbt::die_failing(std::string(blk_what) + " does not return although it can proceed (step bound)");
    }
}
#define ACCESS(N, T) NOCOV void __sanitizer_cov_load##N(T *) { access(); } NOCOV void __sanitizer_cov_store##N(T *) { access(); }
NOCOV static inline void access() { if (g_active) { if (--g_budget > 0) return; if (me < 0) { g_budget = 1; return; } if (nosw) { g_budget = 1; ++g_slice; return; } do_switch(false); } }
ACCESS(1, uint8_t) ACCESS(2, uint16_t) ACCESS(4, uint32_t) ACCESS(8, uint64_t) ACCESS(16, __int128)
NOCOV int sched_yield(void) {
    if (g_active) { if (me >= 0 && !nosw) do_switch(true); return 0; }
    if (pbt::yield_hook) pbt::yield_hook();
    if (blk_limit && ++blk_yields > blk_limit) pbt::die_failing(std::string(blk_what) + " blocks although it can proceed");
    return (int)syscall(SYS_sched_yield);
}
NOCOV int nanosleep(const timespec *a, timespec *b) {
    if (g_active && me >= 0) { if (!nosw) do_switch(true); return 0; }
    if (pbt::sleep_hook) { pbt::sleep_hook(); return 0; }
    return (int)syscall(SYS_nanosleep, a, b);
}
NOCOV int clock_nanosleep(clockid_t c, int f, const timespec *a, timespec *b) {
    if (g_active && me >= 0) { if (!nosw) do_switch(true); return 0; }
    if (pbt::sleep_hook) { pbt::sleep_hook(); return 0; }
    return syscall(SYS_clock_nanosleep, c, f, a, b) ? errno : 0;
}
NOCOV int usleep(useconds_t us) {
    if (g_active && me >= 0) { if (!nosw) do_switch(true); return 0; }
    timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &t, nullptr);
}
NOCOV int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
    if (!(g_active && me >= 0)) return real_create(t, a, f, arg);
    int k = -1; for (int i = 0; i < nT; i++) if (!T[i].used) { k = i; break; }
    if (k < 0) { if (nT == MAXT) pbt::die_failing("harness: too many threads"); k = nT++; }
    T[k].used = true; T[k].finished = false; T[k].go = 0; T[k].away = 0; T[k].fn = f; T[k].arg = arg; ++nlive;
    int r = real_create(t, a, tramp, &T[k]);
    if (r) { T[k].finished = true; --nlive; return r; }
    T[k].pt = *t;
    if (!nosw) do_switch(true);
    return 0;
}
NOCOV int pthread_join(pthread_t t, void **v) {
    if (g_active && me >= 0) {
        int k = -1; for (int i = 0; i < nT; i++) if (T[i].used && T[i].pt == t && i != 0) k = i;
        if (k >= 0) {
            while (!T[k].finished) do_switch(true);
            int r = real_join(t, v); T[k].used = false; return r;
        }
    }
    return real_join(t, v);
}
NOCOV int pthread_mutex_lock(pthread_mutex_t *m) {
    if (g_active && me >= 0) {
        for (;;) { int r = pthread_mutex_trylock(m); if (r != EBUSY) return r; if (nosw) break; do_switch(true); }
    }
    if (__interceptor_pthread_mutex_lock) return __interceptor_pthread_mutex_lock(m);
    static auto r = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    return r(m);
}
}
namespace pbt {
std::function<void()> yield_hook, sleep_hook;
NoBlock::NoBlock(const char *w, long y, long s) { blk_what = w; blk_yields = 0; blk_steps = 0; blk_limit = y; blk_steps_limit = s; }
NoBlock::~NoBlock() { blk_limit = 0; blk_steps_limit = 0; }
}
