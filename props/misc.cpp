// Positions, signals, counters, handlers, numeric utilities, traits, port selection and stream arithmetic.
#include "fifo.hpp"
#include "gk.hpp"
#include "pointer.hpp"
#include "signal.hpp"
#include "blocked.hpp"
#include "systemsignalhandler.hpp"
#include "streamingstat.tcc"
#include "utility.hpp"
#include "partition_basic.hpp"
#include "partition_dummy.hpp"
#include "select.tcc"
#include "raftmath.tcc"
#include "lambdak.tcc"
#include "random.tcc"
#include "raftmanip.hpp"
#include "kernelmanip.tcc"
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#include <cmath>
#include <cfloat>
#include <iomanip>

// ------------------------------------------------------------------ P31
PROP(P31, positions, 3000000, 5000000, "the position passes the end at least twice, by single and by bulk steps") {
    uint64_t cap = c.chance(1, 6) ? 1 + c.pick(1ull << c.range(1, 40)) : (uint64_t)c.size(1, 50); bool w = c.chance(1, 3); uint64_t w0 = w ? c.pick(1000) : 0;
    auto p = std::make_unique<Pointer>(w ? Pointer(cap, w0) : Pointer(cap)); __uint128_t total = 0; uint64_t base = w0, wraps = 0; bool bulk = false, single = false;
    c.note("capacity ", cap, " wrap count ", w0);
    auto check = [&] {
        uint64_t v = Pointer::val(*p), ww = Pointer::wrapIndicator(*p);
        c.require(v == (uint64_t)(total % cap), "position is ", v, " after ", (uint64_t)total, " steps modulo ", cap); c.require(ww - base == (uint64_t)(total / cap), "wrap count grew by ", ww - base, " after ", (uint64_t)total, " steps modulo ", cap);
    };
    check();
    for (int n = (int)c.size(1, 60); n-- > 0;) {
        uint64_t before = (uint64_t)(total / cap);
        switch (c.pick(8)) {
        case 0: case 1: case 2: Pointer::inc(*p); total += 1; c.note("+1"); if ((uint64_t)(total / cap) != before) single = true; break;
        case 7: {   // transfer to a ring at least as large
            uint64_t nc = cap + (uint64_t)c.pick(20); uint64_t v = Pointer::val(*p); auto q = std::make_unique<Pointer>(*p, nc); c.note("transfer to capacity ", nc);
            c.require(Pointer::val(*q) == v, "transferred to a larger ring the position is ", Pointer::val(*q), ", was ", v); c.require(Pointer::val(*p) == v, "transferring changed the original");
            p = std::move(q); cap = nc; total = v; base = Pointer::wrapIndicator(*p) - (uint64_t)(total / cap); break;
        }
        default: { uint64_t s = c.chance(1, 5) ? cap : c.pick(cap + 1); Pointer::incBy(*p, s); total += s; c.note("+", s); if ((uint64_t)(total / cap) != before) bulk = true; }
        }
        if ((uint64_t)(total / cap) != before) ++wraps; check();
    }
    if (wraps > 1 && bulk && single) c.nontrivial();
}

// ------------------------------------------------------------------ P32
PROP(P32, signals, 600000, 4000000, "a value that is not a system signal travels through at least two copies or assignments") {
    using Buffer::Signal; constexpr int N = 4; std::vector<std::unique_ptr<Signal>> s; struct M { uint32_t v = 0; size_t ix = 0; int hops = 0; bool user = false; } m[N]; bool nt = false;
    for (int i = 0; i < N; i++) s.push_back(std::make_unique<Signal>());
    for (int k = (int)c.size(1, 30); k-- > 0;) {
        int i = (int)c.pick(N), j = (int)c.pick(N); raft::signal v = draw_signal(c); bool user = v != raft::none && v != raft::quit && v != raft::term && v != raft::eof;
        switch (c.pick(7)) {
        case 0: *s[i] = static_cast<const raft::signal &>(v); m[i].v = v; m[i].hops = 0; m[i].user = user; c.note(i, " = ", (uint32_t)v); break;
        case 1: *s[i] = raft::signal(v); m[i].v = v; m[i].hops = 0; m[i].user = user; c.note(i, " = ", (uint32_t)v, " (rvalue)"); break;
        case 2: { size_t x = (size_t)c.bits(64); s[i]->index = x; m[i].ix = x; c.note("index of ", i, " = ", x); break; }
        case 3: s[i] = std::make_unique<Signal>(*s[j]); m[i] = m[j]; ++m[i].hops; c.note(i, " copy of ", j); break;
        case 4: *s[i] = *s[j]; m[i] = m[j]; ++m[i].hops; c.note(i, " = ", j); break;
        case 5: { auto t = std::move(*s[j]); *s[i] = std::move(t); m[i] = m[j]; ++m[i].hops; c.note(i, " = move of ", j); if (i != j) { *s[j] = (raft::signal)m[j].v; s[j]->index = m[j].ix; } break; }
        default: { std::vector<Signal> v(1, *s[j]); v.resize(9, *s[j]); auto k = c.pick(9); s[i] = std::make_unique<Signal>(v[k]); m[i] = m[j]; ++m[i].hops; c.note(i, " copy of ", j, " through a vector"); }
        }
        for (int a = 0; a < N; a++) {
            raft::signal got = *s[a]; c.require((uint32_t)got == m[a].v, "signal ", a, " reads ", (uint32_t)got, ", stored ", m[a].v); c.require(s[a]->getindex() == m[a].ix && s[a]->index == m[a].ix, "index of signal ", a, " reads ", s[a]->getindex(), ", stored ", m[a].ix);
            for (auto x : {raft::none, raft::quit, raft::term, raft::eof, v}) c.require((*s[a] == x) == (m[a].v == (uint32_t)x), "signal ", m[a].v, " compares wrongly with ", (uint32_t)x);
            for (int b = 0; b < N; b++) c.require(((raft::signal)*s[a] == (raft::signal)*s[b]) == (m[a].v == m[b].v), "two signals compare wrongly");
            if (m[a].user && m[a].hops > 1) nt = true;
        }
    }
    if (nt) c.nontrivial();
}
PROP(P32, counters, 500000, 4000000, "blocked and unblocked records are accumulated into one record") {
    constexpr int N = 4; std::vector<std::unique_ptr<Blocked>> s; struct M { uint32_t b = 0, n = 0; } m[N]; bool bl = false, un = false;
    for (int i = 0; i < N; i++) s.push_back(std::make_unique<Blocked>());
    auto val = [&] { return c.chance(1, 2) ? (uint32_t)c.size(0, 40) : (uint32_t)c.bits(32); };
    for (int k = (int)c.size(1, 30); k-- > 0;) {
        int i = (int)c.pick(N), j = (int)c.pick(N);
        switch (c.pick(6)) {
        case 0: { uint32_t v = val(); s[i]->bec.count = v; m[i].n = v; c.note("count of ", i, " = ", v); break; }
        case 1: { uint32_t v = c.chance(1, 2) ? 0 : val(); s[i]->bec.blocked = v; m[i].b = v; c.note("blocked of ", i, " = ", v); break; }
        case 2: s[i] = std::make_unique<Blocked>(*s[j]); m[i] = m[j]; c.note(i, " copy of ", j); break;
        case 3: *s[i] = *s[j]; m[i] = m[j]; c.note(i, " = ", j); break;
        case 4: { Blocked b; b.bec.count = val(); b.bec.blocked = c.chance(1, 3) ? val() : 0; c.note(i, " += (blocked ", b.bec.blocked, ", count ", b.bec.count, ")"); auto &r = (*s[i] += b); c.require(&r == s[i].get(), "+= returns another record"); if (!b.bec.blocked) { m[i].n += b.bec.count; un = true; } else bl = true; break; }
        default: { *s[i] += *s[j]; c.note(i, " += ", j); if (!m[j].b) m[i].n += m[j].n, un = true; else bl = true; }
        }
        for (int a = 0; a < N; a++) { c.require(s[a]->bec.count == m[a].n, "transfer count of record ", a, " is ", s[a]->bec.count, ", expected ", m[a].n); c.require(s[a]->bec.blocked == m[a].b, "blocked count of record ", a, " is ", s[a]->bec.blocked, ", expected ", m[a].b); }
    }
    if (bl && un) c.nontrivial();
}

// ------------------------------------------------------------------ P33
namespace {
struct Call { int h; FIFO *f; raft::kernel *k; raft::signal s; void *d; };
std::vector<Call> calls;
template <int H> raft::kstatus handler(FIFO &f, raft::kernel *k, const raft::signal s, void *d) { calls.push_back({H, &f, k, s, d}); return H % 2 ? raft::proceed : raft::stop; }
const sighandler HS[] = {handler<0>, handler<1>, handler<2>, handler<3>, handler<4>, handler<5>, handler<6>, handler<7>};
}
PROP(P33, handlers, 500000, 3000000, "a handler is replaced and a copied table is changed afterwards") {
    std::vector<std::unique_ptr<SystemSignalHandler>> t; std::vector<std::map<uint32_t, int>> m; t.push_back(std::make_unique<SystemSignalHandler>()); m.emplace_back();
    std::unique_ptr<FIFO> f[2] = {std::unique_ptr<FIFO>(make_fifo<int>(4)), std::unique_ptr<FIFO>(make_fifo<double>(2))}; static GSpec none; GK k1(none), k2(none); int data[2]; bool repl = false, copied = false;
    auto sig = [&] { return c.chance(2, 3) ? c.oneof<raft::signal>({raft::none, raft::quit, raft::term, raft::eof, (raft::signal)3, (raft::signal)0x1000, (raft::signal)0xffffffffu}) : draw_signal(c); };
    for (int n = (int)c.size(1, 30); n-- > 0;) {
        size_t i = c.pick(t.size());
        switch (c.pick(5)) {
        case 0: case 1: { raft::signal s = sig(); int h = (int)c.pick(8); if (m[i].count(s)) { repl = true; } t[i]->addHandler(s, HS[h]); m[i][s] = h; c.note("table ", i, ": handler ", h, " for ", (uint32_t)s); break; }
        case 2: if (t.size() < 4) { t.push_back(std::make_unique<SystemSignalHandler>(*t[i])); m.push_back(m[i]); if (m[i].size()) copied = true; c.note("table ", t.size() - 1, " copied from ", i); } else { size_t j = c.pick(t.size()); *t[j] = *t[i]; m[j] = m[i]; if (m[i].size()) copied = true; c.note("table ", j, " = ", i); } break;
        default: {
            raft::signal s = sig(); FIFO &q = *f[c.pick(2)]; raft::kernel *k = c.pick(3) == 0 ? nullptr : c.pick(2) ? &k1 : (raft::kernel *)&k2; void *d = c.pick(3) == 0 ? nullptr : &data[c.pick(2)]; calls.clear(); bool threw = false; raft::kstatus r{}; c.note("table ", i, " signal ", (uint32_t)s);
            try { r = t[i]->callHandler(s, q, k, d); } catch (NoSignalHandlerFoundException &) { threw = true; }
            auto it = m[i].find(s); c.require(threw == (it == m[i].end()), "signal ", (uint32_t)s, threw ? " has a handler but none was found" : " has no handler but that was not reported");
            if (threw) { c.require(calls.empty(), "a handler ran for a signal without one"); break; }
            c.require(calls.size() == 1, calls.size(), " handlers ran for one signal"); auto &x = calls[0]; c.require(x.h == it->second, "signal ", (uint32_t)s, " ran handler ", x.h, ", registered was ", it->second);
            c.require(x.f == &q && x.k == k && x.s == s && x.d == d, "the handler was given other arguments"); c.require(r == (x.h % 2 ? raft::proceed : raft::stop), "the handler's status was not returned");
        } }
    }
    if (repl && copied) c.nontrivial();
}

// ------------------------------------------------------------------ P34
namespace {
template <class A> std::string show(A a) { std::ostringstream o; if (sizeof(A) == 1) o << (int)a; else o << std::setprecision(19) << a; return o.str(); }
// start, stop and step of a sequence of `n` values exactly representable in A, B and their common type
template <class A, class B> void range_case(pbt::Case &c) {
    using C = typename std::common_type<A, B>::type; int64_t n = c.size(1, 60); bool frac = std::is_floating_point<A>::value && std::is_floating_point<B>::value;
    auto lim = [](auto z) { using T = decltype(z); if (std::is_floating_point<T>::value) return std::make_pair<__int128, __int128>(-(1 << 20), 1 << 20); return std::make_pair<__int128, __int128>((__int128)std::numeric_limits<T>::min(), (__int128)std::numeric_limits<T>::max()); };
    auto la = lim(A{}), lb = lim(B{}); __int128 lo = std::max(la.first, lb.first), hi = std::min(la.second, lb.second); if (sizeof(A) != sizeof(B) || std::is_floating_point<C>::value) { lo = std::max<__int128>(lo, -(1 << 20)); hi = std::min<__int128>(hi, 1 << 20); }
    __int128 room = hi - lo; __int128 d = 1; if (!c.chance(1, 3)) { d = 1 + (__int128)(uint64_t)c.size(0, 30); if (c.chance(1, 6)) d = 1 + (__int128)c.pick((uint64_t)1 << c.range(1, 20)); }
    auto lc = lim(C{}); if (d > lc.second) d = lc.second; if (d * n > room) n = (int64_t)(room / d) + 1; if (n < 1) n = 1; 
    __int128 span = d * (n - 1), rest = (__int128)c.pick((uint64_t)d);   // the end need not be met exactly
    if (span + rest > room) rest = room - span; if (span + rest > lc.second) { n = 1; span = 0; rest = 0; }
    __int128 free = room - span - rest, off; switch (c.pick(4)) { case 0: off = 0; break; case 1: off = free; break; case 2: off = (-lo > 0 && -lo <= free) ? -lo : free / 2; break; default: off = free ? (__int128)(c.bits(63) % (uint64_t)std::min<__int128>(free, INT64_MAX)) : 0; }
    bool down = c.chance(1, 2); __int128 x = lo + off, y = x + span + rest; if (down) std::swap(x, y); double scale = frac ? std::ldexp(1.0, (int)c.range(-6, 2)) : 1;
    A a = frac ? (A)((double)x * scale) : (A)x; B b = frac ? (B)((double)y * scale) : (B)y; C delta = frac ? (C)((double)d * scale) : (C)d; bool dflt = d == 1 && scale == 1 && c.chance(1, 2);
    c.note("range(", show(a), ", ", show(b), ", ", show(delta), ")", dflt ? " (step defaulted)" : "", " ", sizeof(A) * 8, "/", sizeof(B) * 8, " bits");
    auto v = dflt ? raft::range(a, b) : raft::range(a, b, delta); static_assert(std::is_same<typename decltype(v)::value_type, C>::value, "element type");
    c.require((int64_t)v.size() == n, v.size(), " values, expected ", n);
    for (int64_t i = 0; i < n; i++) { __int128 e = down ? x - d * i : x + d * i; C want = frac ? (C)((double)e * scale) : (C)e; c.require(v[i] == want, "value ", i, " is ", show(v[i]), ", expected ", show(want)); }
    if (n > 2 && rest) c.nontrivial(); c.label(std::is_floating_point<C>::value ? "floating point" : std::is_signed<C>::value ? "signed" : "unsigned"); if (down) c.label("descending");
}
using RangeFn = void (*)(pbt::Case &);
template <class T> long double stat_value(pbt::Case &c, int mode) {
    if (std::is_floating_point<T>::value) {
        double m = (double)(int64_t)c.bits(40) / 4096.0; switch (mode) { case 0: return (T)m; case 1: return (T)std::ldexp(m, (int)c.range(-20, 20)); case 2: return (T)(1e6 + (double)c.pick(1000) / 1000); default: return (T)((double)c.pick(7) / 10); }
    }
    int64_t lim = sizeof(T) == 8 ? 1 << 24 : sizeof(T) == 4 ? 4000 : 9; return (long double)(T)(std::is_signed<T>::value ? c.range(-lim, lim) : c.range(0, lim));
}
template <class T, class F> void stat_check(pbt::Case &c, raft::streamingstat<T> &s, const std::vector<long double> &v, const char *fn) {
    long double sum = 0, sq = 0, ab = 0; size_t n = v.size(); for (auto x : v) sum += x, sq += x * x, ab += std::fabs(x); long double mean = sum / n, var = 0; for (auto x : v) var += (x - mean) * (x - mean); var /= n;
    long double eps = std::numeric_limits<F>::epsilon(); if (std::is_floating_point<T>::value) eps = std::max<long double>(eps, std::numeric_limits<T>::epsilon());
    F gm = s.template mean<F>(), gs = s.template std<F>(); long double tm = (n + 4) * eps * ab / n, tv = (4 * n + 16) * eps * sq / n;
    c.require(std::fabs((long double)gm - mean) <= tm, fn, ": mean is ", show(gm), " of ", n, " values, expected ", show(mean)); c.require(gs == gs && gs >= 0, fn, ": standard deviation is ", show(gs));
    c.require(std::fabs((long double)gs * gs - var) <= tv + 4 * eps * var, fn, ": standard deviation is ", show(gs), " of ", n, " values, expected ", show(std::sqrt(var)));
}
template <class T> void stat_case(pbt::Case &c) {
    raft::streamingstat<T> s; std::vector<long double> v; int mode = (int)c.pick(4); bool constant = c.chance(1, 6); long double k = stat_value<T>(c, mode); size_t most = 0; bool reset = false;
    for (int n = (int)c.size(1, 120); n-- > 0;) {
        if (v.size() && c.chance(1, 60)) { s.reset(); v.clear(); reset = true; c.note("reset"); continue; }
        if (sizeof(T) == 2 && v.size() > 300) break;
        long double x = constant ? k : stat_value<T>(c, mode); s.update((T)x); v.push_back(x); most = std::max(most, v.size()); c.note("update ", show((T)x));
        if (c.chance(1, 4)) { stat_check<T, double>(c, s, v, "double"); stat_check<T, long double>(c, s, v, "long double"); }
    }
    if (v.empty()) return; stat_check<T, double>(c, s, v, "double"); stat_check<T, float>(c, s, v, "float"); stat_check<T, long double>(c, s, v, "long double"); if (constant) c.label("constant"); if (reset) c.label("reset"); if (most > 5) c.nontrivial();
}
}
PROP(P34, ranges, 800000, 4000000, "more than two values and an end that is not a whole number of steps away") {
    static const RangeFn f[] = {range_case<int, int>, range_case<unsigned, unsigned>, range_case<int64_t, int64_t>, range_case<uint64_t, uint64_t>, range_case<int8_t, int8_t>, range_case<uint8_t, uint8_t>, range_case<int16_t, int16_t>, range_case<uint16_t, uint16_t>, range_case<double, double>, range_case<float, float>, range_case<float, double>, range_case<int, int64_t>, range_case<uint8_t, int>, range_case<int, double>, range_case<short, unsigned>, range_case<long double, long double>};
    f[c.pick(sizeof f / sizeof *f)](c);
}
PROP(P34, statistics, 150000, 2000000, "more than five values between resets") {
    static const RangeFn f[] = {stat_case<double>, stat_case<float>, stat_case<int64_t>, stat_case<int>, stat_case<uint32_t>, stat_case<uint64_t>, stat_case<long double>, stat_case<int16_t>};
    f[c.pick(sizeof f / sizeof *f)](c);
}

// ------------------------------------------------------------------ P28
namespace {
template <size_t... I> raft::select_t do_select(Port &p, const std::vector<std::string> &n, std::index_sequence<I...>, int how) {
    switch (how) { case 0: return raft::select::in(p, std::string(n[I])...); case 1: return raft::select::in(p, n[I]...); default: return raft::select::in(p, n[I].c_str()...); }
}
raft::select_t do_select(Port &p, const std::vector<std::string> &n, int how) {
    switch (n.size()) { case 1: return do_select(p, n, std::make_index_sequence<1>{}, how); case 2: return do_select(p, n, std::make_index_sequence<2>{}, how); case 3: return do_select(p, n, std::make_index_sequence<3>{}, how);
    case 4: return do_select(p, n, std::make_index_sequence<4>{}, how); case 5: return do_select(p, n, std::make_index_sequence<5>{}, how); default: return do_select(p, n, std::make_index_sequence<6>{}, how); }
}
template <class T> void put(FIFO &f, uint64_t id) { f.push(Val<T>::make(id)); }
template <class T> bool take(FIFO &f, uint64_t id) { T v = Val<T>::make(0); f.pop(v); return Val<T>::eq(v, id); }
struct Stream { std::string name; int t; std::unique_ptr<FIFO> f; std::deque<uint64_t> q; size_t cap; };
void put(Stream &s, uint64_t id) { switch (s.t) { case 0: put<int>(*s.f, id); break; case 1: put<double>(*s.f, id); break; case 2: put<std::string>(*s.f, id); break; default: put<Pod<100>>(*s.f, id); } s.q.push_back(id); }
bool take(Stream &s) { uint64_t id = s.q.front(); s.q.pop_front(); switch (s.t) { case 0: return take<int>(*s.f, id); case 1: return take<double>(*s.f, id); case 2: return take<std::string>(*s.f, id); default: return take<Pod<100>>(*s.f, id); } }
}
PROP(P28, selection, 100000, 2000000, "some of the ports asked for hold data, some don't, and a port not asked for does") {
    static GSpec none; GK k(none); Port &p = k.input; std::vector<Stream> s; static const char *names[] = {"in", "a", "b", "0", "1", "number_a", "left"}; size_t n = (size_t)c.range(1, 7); uint64_t id = 1; bool nt = false; Collector g;
    for (size_t i = 0; i < n; i++) {
        Stream x; x.name = names[i]; x.t = (int)c.pick(4); x.cap = (size_t)c.range(1, 9); switch (x.t) { case 0: p.addPort<int>(x.name); x.f.reset(make_fifo<int>(x.cap)); break; case 1: p.addPort<double>(x.name); x.f.reset(make_fifo<double>(x.cap)); break; case 2: p.addPort<std::string>(x.name); x.f.reset(make_fifo<std::string>(x.cap)); break; default: p.addPort<Pod<100>>(x.name); x.f.reset(make_fifo<Pod<100>>(x.cap)); }
        PortAccess::info(p, x.name).setFIFO(x.f.get()); g.consumer(x.f.get()); g.producer(x.f.get()); s.push_back(std::move(x));
    }
    for (int step = (int)c.size(1, 15); step-- > 0;) {
        for (auto &x : s) if (c.chance(1, 3)) { size_t want = (size_t)c.range(0, x.cap); while (x.q.size() < want) put(x, id++); while (x.q.size() > want) c.require(take(x), "an element of \"", x.name, "\" was changed"); if (c.chance(1, 12)) x.f->invalidate(); }
        std::vector<size_t> ix; for (size_t i = 0; i < n; i++) ix.push_back(i); for (size_t i = n; i > 1; i--) std::swap(ix[i - 1], ix[c.pick(i)]); ix.resize((size_t)c.range(1, std::min<int64_t>(6, n)));
        std::vector<std::string> ask; std::set<size_t> in(ix.begin(), ix.end()); size_t with = 0, other = 0; for (size_t i : ix) ask.push_back(s[i].name), with += !s[i].q.empty(); for (size_t i = 0; i < n; i++) if (!in.count(i) && s[i].q.size()) ++other;
        if (with && with < ix.size() && other) nt = true; int how = (int)c.pick(3); { std::string t; for (size_t i : ix) t += " " + s[i].name + ":" + std::to_string(s[i].q.size()); c.note("select", t); }
        for (int rep = 0; rep < 4; rep++) {
            raft::select_t r = do_select(p, ask, how); FIFO *got = &r.second.get(); size_t which = n; for (size_t i = 0; i < n; i++) if (s[i].f.get() == got) which = i;
            c.require(which < n, "select returned a stream of no port"); c.require(in.count(which), "select returned port \"", s[which].name, "\", which was not asked for");
            if (with) { c.require(!s[which].q.empty(), "select returned port \"", s[which].name, "\" without data while another has some"); c.require(r.first == s[which].q.size(), "select reports ", r.first, " elements on a port with ", s[which].q.size()); }
            else c.require(r.first == 0, "select reports ", r.first, " elements though no port has data");
            for (auto &x : s) c.require(x.f->size() == x.q.size(), "select changed the number of elements of port \"", x.name, "\"");
        }
    }
    for (auto &x : s) while (!x.q.empty()) c.require(take(x), "an element of \"", x.name, "\" was changed");
    if (nt) c.nontrivial();
}

// ------------------------------------------------------------------ P27
namespace {
template <class T> T operand(pbt::Case &c) {
    if (std::is_floating_point<T>::value) return (T)((double)(int64_t)c.bits(30) / 1024.0 - (double)c.pick(1000));
    return (T)c.bits(sizeof(T) * 8);
}
// wrap-around arithmetic on the unsigned image; floating point with the order left open is bounded instead
template <class T> void math_case(pbt::Case &c) {
    size_t n = (size_t)c.range(1, 4); std::vector<std::unique_ptr<FIFO>> f; std::vector<std::deque<T>> q(n); for (size_t i = 0; i < n; i++) f.emplace_back(make_fifo<T>((size_t)c.range(1, 8))); bool ragged = false;
    constexpr bool fl = std::is_floating_point<T>::value; using U = typename std::conditional<fl, int, uint64_t>::type;
    for (int k = (int)c.size(1, 25); k-- > 0;) {
        for (size_t i = 0; i < n; i++) while (q[i].size() < f[i]->capacity() && (q[i].empty() || c.chance(1, 2))) {
            T v = operand<T>(c); if (!fl && std::is_signed<T>::value && sizeof(T) >= 4) v = (T)((int64_t)v % 100);   // products stay representable
            f[i]->push(v); q[i].push_back(v);
        }
        for (size_t i = 1; i < n; i++) if (q[i].size() != q[0].size()) ragged = true;
        bool sum = c.chance(1, 2); T got; FIFO &a = *f[0]; std::string t; long double e = sum ? 0 : 1, mag = sum ? 0 : 1; U u = sum ? 0 : 1;
        for (auto &x : q) { t += " " + show(x.front()); if (fl) { if (sum) e += x.front(), mag += std::fabs((long double)x.front()); else e *= x.front(), mag = std::fabs(e); } else u = sum ? u + (U)x.front() : u * (U)x.front(); }
        c.note(sum ? "sum of" : "product of", t);
        switch (n) { case 1: got = sum ? raft::sum<T>(a) : raft::mult<T>(a); break; case 2: got = sum ? raft::sum<T>(a, *f[1]) : raft::mult<T>(a, *f[1]); break; case 3: got = sum ? raft::sum<T>(a, *f[1], *f[2]) : raft::mult<T>(a, *f[1], *f[2]); break; default: got = sum ? raft::sum<T>(a, *f[1], *f[2], *f[3]) : raft::mult<T>(a, *f[1], *f[2], *f[3]); }
        if (fl) c.require(std::fabs((long double)got - e) <= mag * 8 * (long double)std::numeric_limits<T>::epsilon(), sum ? "sum" : "product", " is ", show(got), ", expected ", show(e)); else c.require(got == (T)u, sum ? "sum" : "product", " is ", show(got), ", expected ", show((T)u));
        for (size_t i = 0; i < n; i++) { q[i].pop_front(); c.require(f[i]->size() == q[i].size(), "input ", i, " has ", f[i]->size(), " elements left, expected ", q[i].size()); }
    }
    for (size_t i = 0; i < n; i++) for (auto &x : q[i]) { T v{}; f[i]->pop(v); c.require(v == x, "an element left in input ", i, " was changed"); }
    if (ragged) c.nontrivial();
}
}
PROP(P27, arithmetic, 200000, 2000000, "the inputs hold different numbers of elements") {
    static const RangeFn f[] = {math_case<int>, math_case<unsigned>, math_case<int64_t>, math_case<uint64_t>, math_case<double>, math_case<float>, math_case<int8_t>, math_case<uint16_t>};
    f[c.pick(sizeof f / sizeof *f)](c);
}
namespace {
template <class... T> std::vector<std::type_index> tids() { return {std::type_index(typeid(T))...}; }
template <class... T> void lambda_case(pbt::Case &c) {
    size_t nt = sizeof...(T), in, out; bool same = nt == 1; auto types = tids<T...>();
    if (same) { in = (size_t)c.range(0, 12); out = (size_t)c.range(0, 12); if (in + out == 1 && false) {} } else { in = (size_t)c.range(0, nt); out = nt - in; }
    long fired = 0, stop = c.range(1, 20), total = 0; Port *pi = nullptr, *po = nullptr; c.note("lambda kernel with ", in, " inputs and ", out, " outputs of ", nt, " types, stops at firing ", stop);
    raft::lambdak<T...> k(in, out, [&, mine = 0L](Port &i, Port &o) mutable -> raft::kstatus { ++mine; fired = mine; ++total; pi = &i; po = &o; return mine >= stop ? raft::stop : raft::proceed; });
    c.require(k.input.count() == in && k.output.count() == out, "the kernel has ", k.input.count(), " inputs and ", k.output.count(), " outputs");
    for (size_t d = 0; d < 2; d++) for (size_t i = 0; i < (d ? out : in); i++) { PortInfo *x = nullptr; try { x = &PortAccess::info(d ? k.output : k.input, std::to_string(i)); } catch (std::out_of_range &) { c.fail(std::string(d ? "output" : "input") + " port " + std::to_string(i) + " does not exist"); } auto want = same ? types[0] : types[d ? in + i : i]; c.require(x->type == want, d ? "output" : "input", " port ", i, " has another element type"); }
    for (long i = 1; i <= stop + 2; i++) { auto r = k.run(); c.require(fired == i && total == i, "after ", i, " firings the function ran ", total, " times and counts ", fired); c.require(pi == &k.input && po == &k.output, "the function was given other ports"); c.require(r == (i >= stop ? raft::stop : raft::proceed), "the function's status was not returned"); }
    if (in && out && in + out > 2) c.nontrivial();
}
template <class GEN, template <class> class DIST, class T> void variate_case(pbt::Case &c) {
    T lo = (T)c.range(-50, 50), hi = (T)(lo + (T)c.range(1, 60)); size_t n = (size_t)c.size(0, 80), cap = (size_t)c.range(1, 10); using K = raft::random_variate<GEN, DIST, T>; c.note(n, " values in ", show(lo), "..", show(hi));
    auto first = std::make_unique<K>(n, lo, hi); std::unique_ptr<raft::kernel> cl; raft::kernel *k = first.get(); int drawn = (int)c.size(0, 5); bool twice = false; size_t sent0 = 0; std::unique_ptr<FIFO> f0(make_fifo<T>(100));
    auto drive = [&](raft::kernel *k, size_t already) {
        std::unique_ptr<FIFO> f(make_fifo<T>(cap)); c.require(k->output.count() == 1, "the generator has ", k->output.count(), " outputs"); PortAccess::info(k->output, "0").setFIFO(f.get()); size_t got = already; raft::kstatus r = raft::proceed;
        for (size_t i = 0; r == raft::proceed; i++) { c.require(i <= n + 1, "the generator does not stop after ", n, " values"); { pbt::NoBlock nb("generator"); r = k->run(); } while (f->size()) { T v{}; f->pop(v); ++got; c.require(v >= lo && v <= hi, "value ", show(v), " is outside ", show(lo), "..", show(hi)); } }
        c.require(got == n, got, " values were generated, asked for ", n);
    };
    if (c.chance(1, 2)) {   // a copy made before or after some values have been sent counts for itself
        PortAccess::info(k->output, "0").setFIFO(f0.get()); for (int i = 0; i < drawn && sent0 + 1 < n; i++) { c.require(k->run() == raft::proceed, "the generator stops after ", sent0, " values"); ++sent0; }
        c.require(f0->size() == sent0, "the generator sent ", f0->size(), " values in ", sent0, " firings"); cl.reset(k->clone()); twice = true; c.label("cloned"); while (f0->size()) { T v; f0->pop(v); }
        drive(cl.get(), 0);
    }
    drive(k, sent0); if (n > 1 && twice && sent0) c.nontrivial();
}
}
PROP(P27, lambdas, 40000, 1000000, "a kernel with at least three ports, inputs and outputs") {
    static const RangeFn f[] = {lambda_case<int>, lambda_case<std::string>, lambda_case<int, double>, lambda_case<int, double, std::string>, lambda_case<Pod<100>, int, int, float>, lambda_case<uint8_t, int, std::string, double, int, float>};
    f[c.pick(sizeof f / sizeof *f)](c);
}
PROP(P27, variates, 30000, 1000000, "a generator is copied after it has sent something") {
    static const RangeFn f[] = {variate_case<std::mt19937, std::uniform_int_distribution, int>, variate_case<std::minstd_rand, std::uniform_real_distribution, double>, variate_case<std::mt19937_64, std::uniform_int_distribution, int64_t>, variate_case<std::minstd_rand, std::uniform_int_distribution, short>};
    f[c.pick(sizeof f / sizeof *f)](c);
}

// ------------------------------------------------------------------ P29
namespace {
struct Directive { core_id_t core = 0, group = 0; bool c = false, g = false; };
template <class... M> struct Mods {};
using raft::parallel::affinity_group; using raft::parallel::device; using raft::parallel::cpu;
template <class MANIP> void bind(std::vector<raft::kernel *> &k, std::vector<raft::kernel *> &out) {
    auto take = [&](auto &&a) { for (auto &r : a) out.push_back(&r.get()); };
    switch (k.size()) {
    case 1: take(MANIP::bind(*k[0])); break; case 2: take(MANIP::bind(*k[0], *k[1])); break; case 3: take(MANIP::bind(*k[0], *k[1], *k[2])); break; case 4: take(MANIP::bind(*k[0], *k[1], *k[2], *k[3])); break; default: take(MANIP::bind(*k[0], *k[1], *k[2], *k[3], *k[4]));
    }
}
struct Dir { const char *name; bool core, group; core_id_t c, g; void (*f)(std::vector<raft::kernel *> &, std::vector<raft::kernel *> &); };
const Dir DIRS[] = {
    {"group 0", false, true, 0, 0, bind<raft::manip<affinity_group<0>>>}, {"group 7", false, true, 0, 7, bind<raft::manip<affinity_group<7>>>}, {"group 100000", false, true, 0, 100000, bind<raft::manip<affinity_group<100000>>>},
    {"device 0", true, false, 0, 0, bind<raft::manip<device<cpu, 0>>>}, {"device 3", true, false, 3, 0, bind<raft::manip<device<cpu, 3>>>}, {"group 1, device 2", true, true, 2, 1, bind<raft::manip<affinity_group<1>, device<cpu, 2>>>},
    {"device 9, group 4", true, true, 9, 4, bind<raft::manip<device<cpu, 9>, affinity_group<4>>>}, {"group 5, group 6", false, true, 0, 6, bind<raft::manip<affinity_group<5>, affinity_group<6>>>}, {"device 1, group 2, device 5", true, true, 5, 2, bind<raft::manip<device<cpu, 1>, affinity_group<2>, device<cpu, 5>>>}, {"nothing", false, false, 0, 0, bind<raft::manip<>>}};
}
PROP(P29, directives, 500000, 2000000, "a kernel is bound twice and another one never") {
    static GSpec none; std::vector<std::unique_ptr<GK>> k; std::vector<std::pair<core_id_t, core_id_t>> m; int n = (int)c.range(1, 8); for (int i = 0; i < n; i++) { k.push_back(std::make_unique<GK>(none)); m.emplace_back(k[i]->getCoreAssignment(), KernelAccess::group(*k[i])); } std::vector<int> times(n);
    for (int s = (int)c.size(1, 12); s-- > 0;) {
        auto &d = DIRS[c.pick(sizeof DIRS / sizeof *DIRS)]; std::vector<raft::kernel *> arg, got; std::string t; int a = (int)c.range(1, 5); for (int i = 0; i < a; i++) { int x = (int)c.pick(n); arg.push_back(k[x].get()); t += " k" + std::to_string(x); if (d.core) m[x].first = d.c; if (d.group) m[x].second = d.g; if (d.core || d.group) ++times[x]; }
        c.note("bind ", d.name, " to", t); d.f(arg, got); c.require(got == arg, "bind does not return the kernels it was given");
        for (int i = 0; i < n; i++) { c.require(k[i]->getCoreAssignment() == m[i].first, "k", i, " is assigned device ", k[i]->getCoreAssignment(), ", expected ", m[i].first); c.require(KernelAccess::group(*k[i]) == m[i].second, "k", i, " is in group ", KernelAccess::group(*k[i]), ", expected ", m[i].second); }
    }
    if (*std::max_element(times.begin(), times.end()) > 1 && !*std::min_element(times.begin(), times.end())) c.nontrivial();
}
// what this process takes the machine to have, as long as it is not 0
static unsigned cores;
unsigned std::thread::hardware_concurrency() noexcept { return cores ? cores : 8; }
PROP(P29, partitions, 20000, 500000, "there are more kernels than cores, or the partitioner is the one that assigns nothing and a kernel has a core") {
    GSpec src, snk, mid; src.out = {{"o", 0}}; snk.in = {{"i", 0}}; mid.in = snk.in; mid.out = src.out; std::vector<std::unique_ptr<GK>> k; raft::map m; int n = (int)c.size(2, 80); bool basic = c.chance(2, 3), direct = c.chance(1, 3); const core_id_t hw = (core_id_t)(c.chance(1, 3) ? c.range(1, 4) : c.size(1, 100)); cores = (unsigned)hw; struct Back { ~Back() { cores = 0; } } back; bool set = false;
    kernelkeeper keep; std::vector<core_id_t> core; std::vector<core_id_t> grp;
    for (int i = 0; i < n; i++) { k.push_back(std::make_unique<GK>(i == 0 ? src : i + 1 == n ? snk : mid)); if (c.chance(1, 6)) { k[i]->setCore((core_id_t)c.pick(1000)); set = true; } if (c.chance(1, 6)) k[i]->setAffinityGroup((core_id_t)c.pick(10)); core.push_back(k[i]->getCoreAssignment()); grp.push_back(KernelAccess::group(*k[i])); if (direct) keep += (raft::kernel *)k[i].get(); else if (i) m.link(k[i - 1].get(), "o", k[i].get(), "i"); }
    c.note(n, " kernels, ", hw, " cores, ", basic ? "partition_basic" : "partition_dummy", direct ? ", directly" : ", through exe");
    if (direct) { if (basic) partition_basic().partition(keep); else partition_dummy().partition(keep); c.require(keep.acquire().size() == (size_t)n, "the partitioner changed the kernels of the map"); keep.release(); }
    else if (basic) m.exe<partition_basic, NullSched, NullAlloc, NullPar>(); else m.exe<partition_dummy, NullSched, NullAlloc, NullPar>();
    for (int i = 0; i < n; i++) {
        if (basic) c.require(k[i]->getCoreAssignment() >= 0 && k[i]->getCoreAssignment() < hw, "kernel ", i, " is assigned core ", k[i]->getCoreAssignment(), ", the machine has ", hw); else c.require(k[i]->getCoreAssignment() == core[i], "the partitioner that assigns nothing gave kernel ", i, " core ", k[i]->getCoreAssignment());
        c.require(KernelAccess::group(*k[i]) == grp[i], "the partitioner changed the affinity group of kernel ", i);
    }
    if (basic) {   // "evenly as possible"
        std::vector<int> load(hw); for (auto &x : k) ++load[x->getCoreAssignment()]; int lo = *std::min_element(load.begin(), load.end()), hi = *std::max_element(load.begin(), load.end());
        c.require(hi - lo <= 1, "one core is given ", hi, " kernels and another one ", lo);
    }
    if (basic ? n > hw : set) c.nontrivial();
}

// ------------------------------------------------------------------ P30
namespace {
template <size_t N> struct PodC { unsigned char b[N]; };
template <size_t N> struct Virt { virtual ~Virt() {} unsigned char b[N]; };
template <size_t N> struct Rich { Rich() { std::memset(b, 1, N); } Rich(const Rich &o) { std::memcpy(b, o.b, N); } Rich &operator=(const Rich &) = default; ~Rich() {} unsigned char b[N]; };
template <size_t N> class Hidden { unsigned char b[N]; int secret; };
template <class X> struct Derived : X { char more[8]; };
struct alignas(64) Aligned64 { char x; }; struct Empty {}; struct alignas(128) Aligned128 { char x; };
struct Row { const char *kind; size_t n, size; bool cls, arr, fund; bool t[8]; };
template <class T> Row row(const char *kind, size_t n) {
    return {kind, n, sizeof(T), std::is_class<T>::value, std::is_array<T>::value, std::is_arithmetic<T>::value,
            {fits_in_cache_line<T>::value, inline_class_alloc<T>::value, inline_nonclass_alloc<T>::value, inline_alloc<T>::value, ext_class_alloc<T>::value, ext_mem_alloc<T>::value, ext_alloc<T>::value, true}};
}
template <size_t... I> void rows(std::vector<Row> &v, std::index_sequence<I...>) {
    (void)std::initializer_list<int>{(v.push_back(row<PodC<I + 1>>("struct", I + 1)), v.push_back(row<Rich<I + 1>>("class with constructors", I + 1)), v.push_back(row<Virt<I + 1>>("class with virtual functions", I + 1)), v.push_back(row<Hidden<I + 1>>("class with private members", I + 1)),
        v.push_back(row<Derived<PodC<I + 1>>>("derived class", I + 1)), v.push_back(row<char[I + 1]>("char array", I + 1)), v.push_back(row<int[I + 1]>("int array", I + 1)), v.push_back(row<double[I + 1]>("double array", I + 1)), v.push_back(row<std::array<short, I + 1>>("std::array", I + 1)),
        v.push_back(row<char[I + 1][3]>("matrix", I + 1)), v.push_back(row<std::string[I + 1]>("array of strings", I + 1)), v.push_back(row<std::pair<PodC<I + 1>, int>>("pair", I + 1)), 0)...};
}
const std::vector<Row> &table() {
    static std::vector<Row> v; if (v.empty()) {
        rows(v, std::make_index_sequence<90>{});
        v.push_back(row<bool>("bool", 1)); v.push_back(row<char>("char", 1)); v.push_back(row<int8_t>("int8", 1)); v.push_back(row<uint16_t>("uint16", 1)); v.push_back(row<int>("int", 1)); v.push_back(row<unsigned long long>("uint64", 1)); v.push_back(row<float>("float", 1)); v.push_back(row<double>("double", 1)); v.push_back(row<long double>("long double", 1)); v.push_back(row<wchar_t>("wchar_t", 1)); v.push_back(row<__int128>("int128", 1));
        v.push_back(row<std::string>("std::string", 1)); v.push_back(row<std::vector<int>>("std::vector", 1)); v.push_back(row<Empty>("empty class", 1)); v.push_back(row<Aligned64>("aligned 64", 1)); v.push_back(row<Aligned128>("aligned 128", 1)); v.push_back(row<std::map<int, int>>("std::map", 1)); v.push_back(row<std::function<int(int)>>("std::function", 1)); v.push_back(row<std::shared_ptr<int>>("std::shared_ptr", 1));
    }
    return v;
}
// where a queue of T keeps two successive slots
template <class T> void store_case(pbt::Case &c) {
    size_t cap = (size_t)c.range(2, 9); std::unique_ptr<FIFO> f(make_fifo<T>(cap, c.oneof<size_t>({16, 64}))); size_t skip = (size_t)c.pick(cap - 1); bool big = sizeof(T) > 64; Collector g; g.consumer(f.get()); g.producer(f.get());
    c.note("queue<", Val<T>::name(), "> of ", sizeof(T), " byte elements, capacity ", cap);
    for (size_t i = 0; i < skip; i++) { f->push(Val<T>::make(i)); T v = Val<T>::make(0); f->pop(v); }
    auto home = [](const void *p) { return __sanitizer_get_allocated_begin(p); };
    T *a = &f->template allocate<T>(); const void *ha = home(a); *a = Val<T>::make(7); f->send(); T *b = &f->template allocate<T>(); const void *hb = home(b); *b = Val<T>::make(8); f->send();
    c.require(ha && hb, "an element lies outside any allocation");
    if (big) c.require(ha != hb, sizeof(T), " byte elements share one allocation: they are stored inline"); else c.require(ha == hb, sizeof(T), " byte elements each have an allocation of their own: they are not stored inline");
    T v = Val<T>::make(0); f->pop(v); c.require(Val<T>::eq(v, 7), "a wrong element was received"); f->pop(v); c.require(Val<T>::eq(v, 8), "a wrong element was received"); if (sizeof(T) > 48 && sizeof(T) < 80) c.nontrivial(); c.label(big ? "external" : "inline");
}
}
PROP(P30, storage_class, 200000, 1000000, "the size is within eight bytes of a cache line") {
    auto &v = table(); const Row &r = v[c.pick(v.size())]; bool small = r.size <= 64; c.note(r.kind, " ", r.n, " of ", r.size, " bytes"); if (r.size >= 56 && r.size <= 72) c.nontrivial(); c.label(r.kind);
    bool want[7] = {small, small && r.cls, small && (r.arr || r.fund), small && (r.cls || r.arr || r.fund), !small && r.cls, !small && r.arr, !small && (r.cls || r.arr)};
    static const char *nm[] = {"fits_in_cache_line", "inline_class_alloc", "inline_nonclass_alloc", "inline_alloc", "ext_class_alloc", "ext_mem_alloc", "ext_alloc"};
    for (int i = 0; i < 7; i++) c.require(r.t[i] == want[i], nm[i], " is ", r.t[i], " for a ", r.kind, " of ", r.size, " bytes");
    c.require(r.t[1] + r.t[2] + r.t[4] + r.t[5] == 1, "a ", r.kind, " of ", r.size, " bytes is in ", r.t[1] + r.t[2] + r.t[4] + r.t[5], " storage classes");
}
PROP(P30, storage, 200000, 500000, "the size is near a cache line") {
    static const RangeFn f[] = {store_case<int>, store_case<double>, store_case<uint8_t>, store_case<Pod<1>>, store_case<Pod<56>>, store_case<Pod<60>>, store_case<Pod<63>>, store_case<Pod<64>>, store_case<Pod<65>>, store_case<Pod<66>>, store_case<Pod<72>>, store_case<Pod<128>>, store_case<Pod<1000>>, store_case<std::string>, store_case<std::array<std::string, 4>>, store_case<Tracked<64>>, store_case<Tracked<72>>};
    Ledger::get().reset(); f[c.pick(sizeof f / sizeof *f)](c);
}
