// Stand-in for the (absent) qthreads library: a qthread is a thread, and
// qthread_finalize waits for all of them.
#ifndef VERIF_STUB_QTHREAD
#define VERIF_STUB_QTHREAD 1
#include <cstddef>
#include <cstdint>
#include <list>
#include <mutex>
#include <thread>
using aligned_t = std::uint64_t;
constexpr unsigned NO_SHEPHERD = ~0u;
struct verif_qthreads { std::list<std::thread> t; std::mutex m; static verif_qthreads &get() { static verif_qthreads q; return q; } };
extern "C" void verif_pool_over() __attribute__((weak));   // the scheduler is done, whatever threads do from here on is too late
inline int qthread_initialize() { return 0; }
inline int qthread_spawn(aligned_t (*f)(void *), void *arg, std::size_t, aligned_t *, std::size_t, void *, unsigned, unsigned) { auto &q = verif_qthreads::get(); std::lock_guard<std::mutex> g(q.m); q.t.emplace_back([f, arg] { f(arg); }); return 0; }
inline void qthread_yield() { std::this_thread::yield(); }
inline void qthread_finalize() { if (verif_pool_over) verif_pool_over(); auto &q = verif_qthreads::get(); for (auto &t : q.t) t.join(); q.t.clear(); }
#endif
