// arena.hpp - where kernels of a case live. The map keeps kernels in sets
// ordered by address and starts their threads in that order, so the addresses
// are part of the case: slots are handed out in an order the case draws.
#pragma once
#include "pbt.hpp"
#include <cstddef>
#include <new>
#include <utility>
extern "C" void __asan_poison_memory_region(void const volatile *, size_t) __attribute__((weak));
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));
struct Arena {
    static constexpr size_t SLOT = 8192, N = 1024;
    alignas(64) static inline char mem[N][SLOT]; static inline size_t n = 0, mul = 1; static inline long serial = 0; static inline bool gone[N];
    static void clear() { serial = pbt::case_serial; if (__asan_unpoison_memory_region) for (size_t i = 0; i < n; i++) __asan_unpoison_memory_region(mem[(i * mul) % N], SLOT); n = 0; mul = 1; }
    static void reset(pbt::Case &c) { clear(); mul = 2 * c.pick(N / 2) + 1; }
    static void *get(size_t s) {
        sched::NoSwitch ns;
        if (serial != pbt::case_serial) clear();
        if (s > SLOT || n == N) pbt::die_failing("harness: kernel arena exhausted");
        char *p = mem[(n++ * mul) % N]; if (__asan_poison_memory_region) { __asan_unpoison_memory_region(p, SLOT); __asan_poison_memory_region(p + (s + 7) / 8 * 8, SLOT - (s + 7) / 8 * 8); } gone[(p - mem[0]) / SLOT] = false; return p;
    }
    static void put(void *p) { sched::NoSwitch ns; bool &g = gone[((char *)p - mem[0]) / SLOT]; if (g) pbt::die_failing("a kernel was destroyed twice"); g = true; if (__asan_poison_memory_region) __asan_poison_memory_region(p, SLOT); }   // not handed out again in this case
};
#define IN_ARENA static void *operator new(size_t s) { return Arena::get(s); } static void *operator new(size_t, void *p) { return p; } static void operator delete(void *p) { Arena::put(p); }
template <class K> struct Placed : K { using K::K; IN_ARENA };
