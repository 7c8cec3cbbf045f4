// elems.hpp - element types the generators draw from, each with an id -> value
// mapping, and a ledger of live objects for the instrumented ones.
#pragma once
#include "pbt.hpp"
#include <string>
#include <vector>
#include <memory>
#include <array>
#include <unordered_map>
#include <map>
#include <cstring>
#include <atomic>
#include <mutex>

// ---- ledger of instrumented objects (per case) ---------------------------
struct Ledger {
    std::unordered_map<const void *, uint64_t> live;   // address -> id
    uint64_t ctor = 0, dtor = 0, copies = 0;
    static Ledger &get() { static Ledger l; return l; }
    bool locked = false;
    void reset() { live.clear(); ctor = dtor = copies = 0; }
    // a lifetime error in a destructor cannot be thrown: record and end the case
    static void err(const std::string &m) { pbt::die_failing("lifetime: " + m); }
    void born(const void *p, const char *how) {
        sched::NoSwitch ns; ++ctor;
        if (!live.emplace(p, 1).second) err(std::string("object constructed (") + how + ") on top of a live object");
    }
    void died(const void *p) {
        sched::NoSwitch ns; ++dtor;
        if (!live.erase(p)) err("destructor run on an object that is not alive");
    }
    void used(const void *p, const char *how) {
        sched::NoSwitch ns;
        if (!live.count(p)) err(std::string("object that is not alive used as source of ") + how);
    }
};
// Tracked<N>: N-byte object with ledger and checksum; the pad carries the id.
template <size_t N> struct Tracked {
    static constexpr size_t PAD = N - 2 * sizeof(uint64_t);
    uint64_t id, chk; unsigned char pad[PAD ? PAD : 1];
    static uint64_t h(uint64_t x) { return x * 0x9e3779b97f4a7c15ull ^ 0x5bd1e995; }
    void set(uint64_t i) { id = i; chk = h(i); for (size_t k = 0; k < PAD; k++) pad[k] = (unsigned char)(i * 7 + k); }
    bool is(uint64_t i) const {
        if (id != i || chk != h(i)) return false;
        for (size_t k = 0; k < PAD; k++) if (pad[k] != (unsigned char)(i * 7 + k)) return false;
        return true;
    }
    Tracked() { Ledger::get().born(this, "default"); set(0); }
    explicit Tracked(uint64_t i) { Ledger::get().born(this, "value"); set(i); }
    Tracked(uint64_t a, const uint64_t &b) { Ledger::get().born(this, "two values"); set(a - b); }
    Tracked(const Tracked &o) { Ledger::get().used(&o, "copy construction"); Ledger::get().born(this, "copy"); ++Ledger::get().copies; cp(o); }
    Tracked &operator=(const Tracked &o) { Ledger::get().used(&o, "assignment"); Ledger::get().used(this, "assignment target"); cp(o); return *this; }
    ~Tracked() { Ledger::get().died(this); id = ~0ull; chk = 0; }
    void cp(const Tracked &o) { id = o.id; chk = o.chk; std::memcpy(pad, o.pad, sizeof pad); }
};
template <class T> struct two_args : std::false_type {}; template <size_t N> struct two_args<Tracked<N>> : std::true_type {};
template <size_t N> struct Pod { unsigned char b[N]; };
enum class Color : uint16_t { a, b };

// ---- id <-> value ---------------------------------------------------------
template <class T, class = void> struct Val;   // make(id), eq(v,id), name()
template <class T> struct Val<T, std::enable_if_t<std::is_arithmetic<T>::value && !std::is_same<T, bool>::value>> {
    static T make(uint64_t id) { return static_cast<T>(std::is_floating_point<T>::value ? id : id * 0x9e3779b97f4a7c15ull >> 7); }
    static bool eq(const T &v, uint64_t id) { return v == make(id); }
    static std::string name() { return (std::is_floating_point<T>::value ? "float" : std::is_signed<T>::value ? "int" : "uint") + std::to_string(8 * sizeof(T)); }
};
template <> struct Val<bool, void> {
    static bool make(uint64_t id) { return (id * 0x9e3779b97f4a7c15ull >> 33) & 1; }
    static bool eq(bool v, uint64_t id) { return v == make(id); }
    static std::string name() { return "bool"; }
};
template <> struct Val<Color, void> {
    static Color make(uint64_t id) { return (Color)(uint16_t)(id * 40503); }
    static bool eq(Color v, uint64_t id) { return v == make(id); }
    static std::string name() { return "enum"; }
};
template <> struct Val<int *, void> {
    static int *make(uint64_t id) { return (int *)(uintptr_t)(id * 16 + 16); }
    static bool eq(int *v, uint64_t id) { return v == make(id); }
    static std::string name() { return "pointer"; }
};
template <size_t N> struct Val<Pod<N>, void> {
    static Pod<N> make(uint64_t id) { Pod<N> p; for (size_t i = 0; i < N; i++) p.b[i] = (unsigned char)(id >> (8 * (i % 3))) + (unsigned char)i; return p; }
    static bool eq(const Pod<N> &v, uint64_t id) { auto m = make(id); return !std::memcmp(m.b, v.b, N); }
    static std::string name() { return "struct" + std::to_string(N); }
};
template <size_t N> struct Val<Tracked<N>, void> {
    static Tracked<N> make(uint64_t id) { return Tracked<N>(id); }
    static bool eq(const Tracked<N> &v, uint64_t id) { return v.is(id); }
    static std::string name() { return "object" + std::to_string(N); }
};
template <> struct Val<std::string, void> {
    static std::string make(uint64_t id) { return std::string((id * 7) % 41, (char)('a' + id % 26)) + std::to_string(id); }
    static bool eq(const std::string &v, uint64_t id) { return v == make(id); }
    static std::string name() { return "string"; }
};
template <> struct Val<std::vector<uint32_t>, void> {
    static std::vector<uint32_t> make(uint64_t id) { return std::vector<uint32_t>(id % 19, (uint32_t)id); }
    static bool eq(const std::vector<uint32_t> &v, uint64_t id) { return v == make(id); }
    static std::string name() { return "vector"; }
};
template <> struct Val<std::shared_ptr<uint64_t>, void> {
    static std::shared_ptr<uint64_t> make(uint64_t id) { return std::make_shared<uint64_t>(id); }
    static bool eq(const std::shared_ptr<uint64_t> &v, uint64_t id) { return v && *v == id && v.use_count() >= 1; }
    static std::string name() { return "shared_ptr"; }
};
template <> struct Val<std::array<std::string, 4>, void> {
    using A = std::array<std::string, 4>;
    static A make(uint64_t id) { A a; for (int i = 0; i < 4; i++) a[i] = Val<std::string>::make(id + i); return a; }
    static bool eq(const A &v, uint64_t id) { return v == make(id); }
    static std::string name() { return "array<string,4>"; }
};
template <class... T> struct TypeList {};
template <class F> void pick_type(pbt::Case &, size_t, TypeList<>, F &&) {}
template <class F, class T, class... R> void pick_type(pbt::Case &c, size_t i, TypeList<T, R...>, F &&f) {
    if (i == 0 || sizeof...(R) == 0) f(c, (T *)nullptr); else pick_type(c, i - 1, TypeList<R...>{}, std::forward<F>(f));
}
template <class F, class... T> void any_type(pbt::Case &c, TypeList<T...> l, F &&f) { pick_type(c, c.pick(sizeof...(T)), l, std::forward<F>(f)); }
