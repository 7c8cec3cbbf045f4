// pbt.hpp - choice-sequence property-based testing core.
//
// A case is a function of one sequence of bounded integers ("choices").
// Fresh cases draw them from a PRNG seeded by (VERIF_SEED, property, case);
// replays and shrink candidates read them from a vector (0 once exhausted).
// Cases run in forked workers; the choices drawn so far live in shared memory,
// so a crash or a runaway loop is replayed and shrunk like any other failure.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <sstream>
#include <functional>
#include <exception>
#include <initializer_list>
#include <algorithm>

namespace pbt {

struct Failure : std::exception {
    std::string msg;
    explicit Failure(std::string m) : msg(std::move(m)) {}
    const char *what() const noexcept override { return msg.c_str(); }
};

struct Slot;  // shared-memory record, private to pbt.cpp

class Case {
public:
    // uniform in [0,n); shrinks towards 0
    uint64_t pick(uint64_t n);
    // inclusive; shrinks towards lo
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)pick((uint64_t)(hi - lo) + 1); }
    // true with probability num/den; shrinks towards false
    bool chance(unsigned num, unsigned den) { return pick(den) >= den - num; }
    // index, by weight; shrinks towards index 0
    size_t weighted(std::initializer_list<unsigned> w);
    size_t weighted(const std::vector<unsigned> &w);
    template <class T> T oneof(std::initializer_list<T> l) { return *(l.begin() + pick(l.size())); }
    template <class T> const T &oneof(const std::vector<T> &l) { return l[pick(l.size())]; }
    // small sizes often, large ones sometimes; in [lo,hi]
    int64_t size(int64_t lo, int64_t hi);
    // interesting full-range value of the given bit width
    uint64_t bits(unsigned w);

    // description of the case (shown for samples and failures)
    template <class... A> void note(A &&...a) {
        if (!recording_notes()) return;
        std::ostringstream o; (void)std::initializer_list<int>{((o << a), 0)...}; add_note(o.str());
    }
    // classification; counted once per case
    void label(const char *l);
    void nontrivial() { nontrivial_ = true; }
    bool is_nontrivial() const { return nontrivial_; }
    // go back to a mark, making exactly the choices made since then again
    size_t mark() const; void rewind(size_t mark);

    [[noreturn]] void fail(const std::string &m);
    template <class... A> void require(bool ok, A &&...a) {
        if (ok) return;
        std::ostringstream o; (void)std::initializer_list<int>{((o << a), 0)...}; fail(o.str());
    }

    // --- used by the runner
    Case(Slot *s, uint64_t seed, const std::vector<uint64_t> *replay, bool notes);
    bool recording_notes() const { return notes_; }
    void add_note(const std::string &s);
    uint64_t hash() const { return hash_; }
    static Case *current();
private:
    uint64_t rnd();
    Slot *slot_; uint64_t s0_, s1_; const std::vector<uint64_t> *replay_; size_t pos_ = 0;
    bool notes_, nontrivial_ = false; std::vector<uint64_t> rw_; uint64_t hash_ = 1469598103934665603ull;
};

// Record a failure of the running case from any thread or context, and end
// the worker process at once.
[[noreturn]] void die_failing(const std::string &msg);

using PropFn = void (*)(Case &);
struct Prop { const char *id, *name, *rule; long quick, thorough; PropFn fn; double case_timeout; const char *known; };
std::vector<Prop> &registry();
struct Reg { Reg(Prop p) { registry().push_back(p); } };
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PROP(P01, name, quick cases, thorough cases, rule text)
#define PROP(ID, NAME, Q, T, RULE)                                                     \
    static void PBT_CAT(prop_, NAME)(pbt::Case &);                                      \
    static pbt::Reg PBT_CAT(reg_, NAME)(pbt::Prop{#ID, #NAME, RULE, Q, T, PBT_CAT(prop_, NAME), 60.0, ""}); \
    static void PBT_CAT(prop_, NAME)(pbt::Case & c)

// KNOWN(P01, name, "K1", what): a recorded finding, reproduced by one fixed case
#define KNOWN(ID, NAME, KEY, RULE)                                                     \
    static void PBT_CAT(prop_, NAME)(pbt::Case &);                                      \
    static pbt::Reg PBT_CAT(reg_, NAME)(pbt::Prop{#ID, #NAME, RULE, 1, 1, PBT_CAT(prop_, NAME), 20.0, KEY}); \
    static void PBT_CAT(prop_, NAME)(pbt::Case & c)

// --- blocking detection for single-threaded cases ------------------------
// While a Guard lives, more than `limit` yields or `steps` basic blocks mean
// that the guarded operation does not return.
struct NoBlock {
    explicit NoBlock(const char *what, long yields = 2000, long steps = 20000000);
    ~NoBlock();
};

// called on every yield outside owned schedules while set
extern std::function<void()> yield_hook;
// taken instead of sleeping outside owned schedules while set
extern std::function<void()> sleep_hook;
extern long case_serial;   // goes up with every case run in this process

// allocator balance (ASan): bytes currently allocated
size_t live_bytes();

// private scratch directory of this worker process (created on first use,
// removed by the parent)
const std::string &scratch();
}  // namespace pbt

// ---- owned-schedule execution (sched.cpp) --------------------------------
namespace sched {
struct Plan {
    // random: every slice length and next thread drawn from a PRNG
    bool random = false; uint64_t seed = 1; unsigned mean = 50;
    // one in `stall` preempted threads stays away for up to `away` switches of the others (0: none)
    unsigned stall = 0, away = 0;
    // delay-bounded: explicit preemptions (gap in steps, thread offset)
    std::vector<std::pair<uint32_t, uint32_t>> preempt;
    long max_steps = 60000000; long max_switches = 1500000;
};
Plan draw(pbt::Case &c);
// Runs fn with every thread it (transitively) creates under the plan.
void run(pbt::Case &c, const Plan &p, const std::function<void()> &fn);
bool active();
long steps();
long switches();
void point();     // explicit switch point (yield)
struct NoSwitch { NoSwitch(); ~NoSwitch(); };  // harness critical section
}  // namespace sched
