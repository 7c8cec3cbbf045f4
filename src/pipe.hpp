// pipe.hpp - generated dataflow graphs of deterministic kernels: a sequential
// model of what every stream carries, and the real kernels, run under the real
// scheduler and allocators with the schedule owned by the harness.
#pragma once
#include <cstdint>
#include <raft>
#include "pbt.hpp"
#include "elems.hpp"
#include "fifo.hpp"
#include "gk.hpp"
#include "arena.hpp"
#include <list>
#include <memory>
#include <sstream>
#include <vector>
#include "kernel_all.hpp"

#ifndef PIPE_SCHEDULER
#define PIPE_SCHEDULER simple_schedule
#endif

namespace pipe {
// ---- values <-> elements (values are below 2^31)
template <class T, class = void> struct Cod;
template <class T> struct Cod<T, std::enable_if_t<std::is_arithmetic<T>::value>> { static T enc(uint64_t v) { return (T)v; } static uint64_t dec(const T &t) { return (uint64_t)t; } };
template <> struct Cod<std::string> { static std::string enc(uint64_t v) { return std::to_string(v) + std::string(v % 30, '.'); }
    static uint64_t dec(const std::string &s) { uint64_t v = strtoull(s.c_str(), nullptr, 10); return enc(v) == s ? v : ~0ull; } };
template <size_t N> struct Cod<Tracked<N>> { static Tracked<N> enc(uint64_t v) { return Tracked<N>(v); } static uint64_t dec(const Tracked<N> &t) { return t.is(t.id) ? t.id : ~0ull; } };
template <size_t N> struct Cod<Pod<N>> { static Pod<N> enc(uint64_t v) { return Val<Pod<N>>::make(v & 0xffffff); }
    static uint64_t dec(const Pod<N> &p) { uint64_t v = p.b[0] | (uint64_t)(unsigned char)(p.b[1] - 1) << 8 | (uint64_t)(unsigned char)(p.b[2] - 2) << 16; return Val<Pod<N>>::eq(p, v) ? v : ~0ull; } };
constexpr uint64_t VMAX = 1 << 24;
inline uint64_t h(uint64_t a, uint64_t b) { uint64_t x = (a + 1) * 0x9e3779b97f4a7c15ull ^ (b + 7) * 0xbf58476d1ce4e5b9ull; x ^= x >> 29; x *= 0x94d049bb133111ebull; x ^= x >> 32; return x % VMAX; }
inline raft::signal sigof(uint64_t v) { return v % 3 ? raft::none : (raft::signal)(uint32_t)(0x1000 + v); }

struct Link {
    int type, from = -1, to = -1, fport = 0, tport = 0; size_t fixed = 0; bool sig = false, ask = false;   // ask: slots for more elements than fit may be asked for at once
    std::vector<uint64_t> want; std::vector<uint64_t> got;
    std::vector<const void *> addr; size_t sent = 0, taken = 0, cap = 0;
};
struct Ops {
    virtual ~Ops() = default; virtual const char *name() const = 0; virtual bool ext() const = 0;
    virtual void add(Port &, const std::string &) const = 0;
    virtual void read(FIFO &, int api, size_t n, std::vector<uint64_t> &, Link &) const = 0;
    virtual void write(FIFO &, int api, const uint64_t *, size_t n, Link &) const = 0;
    virtual uint64_t forward(FIFO &in, FIFO &out, Link &li, Link &lo, uint64_t (*f)(uint64_t, uint64_t), uint64_t seed) const = 0;
};
template <class T> struct OpsT : Ops {
    static constexpr bool nonclass = inline_nonclass_alloc<T>::value, inl = inline_alloc<T>::value;
    const char *nm; OpsT(const char *n) : nm(n) {}
    const char *name() const override { return nm; }
    bool ext() const override { return ext_alloc<T>::value; }
    void add(Port &p, const std::string &n) const override { p.addPort<T>(n); }
    static void chk(Link &l, uint64_t v, raft::signal s) { if (l.sig && s != sigof(v)) { std::ostringstream o; o << "element " << v << " was received with signal " << (uint32_t)s << ", sent with " << (uint32_t)sigof(v); pbt::die_failing(o.str()); } }
    void read(FIFO &f, int api, size_t n, std::vector<uint64_t> &v, Link &l) const override {
        raft::signal s = raft::none;
        if (n > 1 && api == 4) { std::vector<std::pair<T, raft::signal>> r(n, std::make_pair(Cod<T>::enc(0), raft::none)); f.pop_range<T>(r, n); for (auto &x : r) { v.push_back(Cod<T>::dec(x.first)); chk(l, v.back(), x.second); } l.taken += n; return; }
        if constexpr (inl) if (n > 1 && api == 5) { { auto r = f.peek_range<T>(n); for (size_t i = 0; i < n; i++) { auto p = r[i]; v.push_back(Cod<T>::dec(p.ele)); chk(l, v.back(), (raft::signal)p.sig); } } f.recycle(n); l.taken += n; return; }
        for (; n-- > 0; ++l.taken) {
            uint64_t x;
            switch (api) {
            case 1: { auto p = f.pop_s<T>(); x = Cod<T>::dec(*p); chk(l, x, p.sig()); break; }
            case 2: { T &r = f.peek<T>(&s); addr(l, &r); x = Cod<T>::dec(r); chk(l, x, s); f.unpeek(); f.recycle(); break; }
            case 3: { T &r = f.peek<T>(); addr(l, &r); x = Cod<T>::dec(r); f.unpeek(); T t = Cod<T>::enc(0); f.pop<T>(t, &s); if (Cod<T>::dec(t) != x) pbt::die_failing("peek and pop disagree about the head of the queue"); chk(l, x, s); break; }
            default: { T t = Cod<T>::enc(0); f.pop<T>(t, &s); x = Cod<T>::dec(t); chk(l, x, s); }
            }
            v.push_back(x);
        }
    }
    static void addr(Link &l, const void *p) { sched::NoSwitch ns; if (ext_alloc<T>::value && l.taken < l.addr.size() && l.addr[l.taken] && l.addr[l.taken] != p) pbt::die_failing("a forwarded object was not received itself but as another object"); }
    static void sent(Link &l, const void *p) { sched::NoSwitch ns; l.addr.push_back(p); ++l.sent; }
    void write(FIFO &f, int api, const uint64_t *v, size_t n, Link &l) const override {
        if (n > 1 && api == 3 && !l.sig) { std::list<T> t; for (size_t i = 0; i < n; i++) { t.push_back(Cod<T>::enc(v[i])); sent(l, nullptr); } f.insert(t.begin(), t.end()); return; }
        if constexpr (nonclass) if (n > 1 && api == 4 && !l.sig) {
            while (n) { size_t k = l.ask ? n : std::min(n, f.capacity()); auto r = f.allocate_range<T>(k); if (r.size() != k) pbt::die_failing("allocate_range returned another number of slots than asked for"); if (f.capacity() < k) pbt::die_failing("allocate_range returned more slots than the queue has"); for (size_t i = 0; i < k; i++) { r[i].get() = Cod<T>::enc(v[i]); sent(l, nullptr); } f.send_range(); v += k; n -= k; }
            return;
        }
        for (; n-- > 0; ++v) {
            raft::signal s = l.sig ? sigof(*v) : raft::none;
            switch (api) {
            case 1: { T &r = f.allocate<T>(); sent(l, ext_alloc<T>::value ? &r : nullptr); r = Cod<T>::enc(*v); f.send(s); break; }
            case 2: { auto a = f.allocate_s<T>(); sent(l, ext_alloc<T>::value ? &*a : nullptr); *a = Cod<T>::enc(*v); if (s != raft::none) a.sig() = s; break; }
            case 5: { T &r = f.allocate<T>(); r = Cod<T>::enc(h(*v, 1)); f.deallocate(); sent(l, nullptr); f.push(Cod<T>::enc(*v), s); break; }
            default: { sent(l, nullptr); T t = Cod<T>::enc(*v); if (s == raft::none) f.push(t); else f.push(t, s); }
            }
        }
    }
    uint64_t forward(FIFO &in, FIFO &out, Link &li, Link &lo, uint64_t (*fn)(uint64_t, uint64_t), uint64_t seed) const override {
        raft::signal s; T &r = in.peek<T>(&s); addr(li, &r); uint64_t x = Cod<T>::dec(r); chk(li, x, s); uint64_t y = fn(seed, x); r = Cod<T>::enc(y);
        sent(lo, &r); raft::signal t = lo.sig ? sigof(y) : raft::none; if (t == raft::none) out.push(r); else out.push(r, t);
        in.recycle(); ++li.taken; return x;
    }
};
constexpr int NT = 7;
inline const Ops &ops(int t) {
    static const OpsT<int32_t> a("int32"); static const OpsT<uint64_t> b("uint64"); static const OpsT<std::string> d("string"); static const OpsT<Tracked<24>> e("object24");
    static const OpsT<Tracked<72>> f("object72"); static const OpsT<Pod<100>> g("struct100"); static const OpsT<double> i("double");
    static const Ops *const l[NT] = {&a, &b, &d, &e, &f, &g, &i}; return *l[t];
}

enum Kind { SRC, MAP, ZIP, PAR, SINK };
inline const char *kname(int k) { static const char *n[] = {"source", "map", "zip", "parallel", "sink"}; return n[k]; }
enum { HASH, ACC, FILTER, DUP, ROUTE };
struct Node {
    int kind, rule = HASH; uint64_t seed = 0; std::vector<int> in, out; bool all = false, made = false, early = false, fwd = false; size_t n = 0; int batch = 1, stopvar = 0, consume = 0, lazy = 0; std::vector<int> rapi, wapi;
    uint64_t acc = 0; int comp = 0;
    uint64_t src(size_t i, size_t port) const { return h(seed, i * 16 + port); }
    static uint64_t fn(uint64_t seed, uint64_t v) { return h(seed, v); }
    // what one element on a port leads to
    template <class E> void one(uint64_t &acc, size_t port, uint64_t v, E emit) const {
        size_t no = out.size();
        if (kind == PAR) { emit(port, h(seed + port, v)); return; }
        switch (rule) {
        case HASH: for (size_t q = 0; q < no; q++) emit(q, h(seed + q, v)); break;
        case ACC: acc = (acc * 31 + v) % VMAX; for (size_t q = 0; q < no; q++) emit(q, (acc + q) % VMAX); break;
        case FILTER: if (v % 3 == 0) for (size_t q = 0; q < no; q++) emit(q, h(seed + q, v)); break;
        case DUP: for (size_t q = 0; q < no; q++) for (size_t k = 0; k < 1 + v % 3; k++) emit(q, h(seed + q, v + k)); break;
        default: emit(v % no, v);
        }
    }
    uint64_t zip(const std::vector<uint64_t> &v, size_t q) const { uint64_t x = seed + q; for (auto y : v) x = h(x, y); return x; }
};
struct Checks { bool values = false, life = false, fire = false, size = false, ledger = false, place = false; };
inline thread_local long bound = -1;   // core the running thread asked to be bound to, -1 when it did not
struct PlaceAs : interface_partition { static inline std::vector<std::pair<raft::kernel *, long>> want; void partition(kernelkeeper &) override { for (auto &w : want) if (w.second >= 0) setCore(*w.first, (core_id_t)w.second); } };
struct Graph {
    pbt::Case &c; Checks k; std::vector<Node> n; std::vector<Link> l; bool dyn = false; int part = 0; bool monitor = false, placed_mixed = false; bool finished = false; int running = 0; bool grew = false; size_t fires = 0;
    explicit Graph(pbt::Case &c) : c(c) {}
    // configuration of the generator
    int max_nodes = 9, max_len = 30; bool elementwise = false; std::vector<int> types; int fixed_pct = 70; bool allow_all = true; bool forwards = false; int lazy_pct = 0, ask_pct = 0; bool asked = false; bool early = true; size_t fixed_len = 0;

    int type() { return types.empty() ? (int)c.pick(NT) : types[c.pick(types.size())]; }
    int new_link(int from, int port, int t) { Link x; x.type = t; x.from = from; x.fport = port; x.fixed = c.chance(fixed_pct, 100) ? (size_t)c.size(1, 9) : 0; x.sig = c.chance(1, 3); x.ask = dyn && !x.fixed; l.push_back(x); return (int)l.size() - 1; }
    void attach(int node, int link) { l[link].to = node; l[link].tport = (int)n[node].in.size(); n[node].in.push_back(link); n[node].rapi.push_back((int)c.pick(6)); }
    void outs(int node, int k, int t = -1) { for (int i = 0; i < k; i++) { int x = new_link(node, i, t >= 0 ? t : type()); n[node].out.push_back(x); n[node].wapi.push_back((int)c.pick(6)); } }
    void generate() {
        elementwise = elementwise || c.chance(1, 3); int next_comp = 0; size_t N = fixed_len ? fixed_len : (size_t)c.size(0, max_len); std::vector<int> open; int total = (int)c.range(1, max_nodes - 1);
        auto comp_of = [&](int link) { return n[l[link].from].comp; };
        auto merge = [&](int a, int b) { for (auto &x : n) if (x.comp == b) x.comp = a; };
        auto take = [&](size_t i) { int x = open[i]; open.erase(open.begin() + i); return x; };
        for (int s = 0; s < total || open.empty(); s++) {
            Node x; x.seed = c.pick(1000); x.kind = open.empty() ? SRC : (int)c.weighted({3, 6, 3, 2, 1}); x.made = c.chance(1, 3); x.consume = (int)c.pick(3); x.batch = elementwise ? 1 : (int)c.range(1, 4); x.early = early && c.chance(1, 4); x.lazy = c.chance(lazy_pct, 100) ? (int)c.range(1, 30) : 0;
            if (x.kind == SRC) {
                x.n = elementwise ? N : fixed_len ? fixed_len : (size_t)c.size(0, max_len); x.stopvar = (int)c.pick(2);
                bool big = ask_pct && dyn && !elementwise && c.chance(ask_pct, 100); if (big) { x.batch = (int)c.range(65, 140); if (!fixed_len) x.n = (size_t)x.batch + c.pick(80); } x.comp = next_comp++; n.push_back(x); outs((int)n.size() - 1, (int)c.range(1, 2));
                if (big) for (size_t i = 0; i < n.back().out.size(); i++) if (c.chance(4, 5)) { auto &y = l[n.back().out[i]]; static const int nc[] = {0, 1, 6}; y.type = nc[c.pick(3)]; y.sig = false; n.back().wapi[i] = 4; if (y.ask && n.back().n > 64) asked = true; }
                for (size_t i = 0; i < n.back().out.size(); i++) for (size_t k = 0; k < x.n; k++) l[n.back().out[i]].want.push_back(x.src(k, i));
            } else if (x.kind == MAP) {
                int in = take(c.pick(open.size())); x.rule = elementwise ? (int)c.pick(2) : (int)c.pick(5); x.all = allow_all && c.chance(1, 4); x.comp = comp_of(in);
                x.fwd = forwards ? c.chance(5, 6) : c.chance(1, 6); if (x.fwd) x.rule = HASH;
                n.push_back(x); attach((int)n.size() - 1, in); outs((int)n.size() - 1, x.fwd ? 1 : (int)c.range(1, 2), x.fwd ? l[in].type : -1);
                Node &y = n.back(); uint64_t acc = 0; for (auto v : l[in].want) y.one(acc, 0, v, [&](size_t q, uint64_t w) { l[y.out[q]].want.push_back(w); });
            } else if (x.kind == ZIP || x.kind == PAR) {
                if (x.kind == PAR && elementwise) x.kind = ZIP;
                std::vector<int> ins{take(c.pick(open.size()))}; int k = (int)c.range(1, 3);
                for (size_t i = 0; i < open.size() && (int)ins.size() < k;) {
                    int o = open[i]; bool ok = c.chance(3, 4); for (int j : ins) { if (x.kind == ZIP && l[j].want.size() != l[o].want.size()) ok = false; if (!elementwise && comp_of(j) == comp_of(o)) ok = false; }
                    if (ok) ins.push_back(take(i)); else ++i;
                }
                x.comp = comp_of(ins[0]); x.all = allow_all && x.kind == ZIP && c.chance(1, 2);
                n.push_back(x); int me = (int)n.size() - 1; for (int j : ins) { merge(n[me].comp, comp_of(j)); attach(me, j); }
                outs(me, x.kind == PAR ? (int)ins.size() : (int)c.range(1, 2)); Node &y = n[me];
                if (x.kind == PAR) { for (size_t p = 0; p < ins.size(); p++) { uint64_t acc = 0; for (auto v : l[ins[p]].want) y.one(acc, p, v, [&](size_t q, uint64_t w) { l[y.out[q]].want.push_back(w); }); } }
                else for (size_t i = 0; i < l[ins[0]].want.size(); i++) { std::vector<uint64_t> v; for (int j : ins) v.push_back(l[j].want[i]); for (size_t q = 0; q < y.out.size(); q++) l[y.out[q]].want.push_back(y.zip(v, q)); }
            } else { sink(x, open); continue; }
            for (int o : n.back().out) open.push_back(o);
        }
        while (!open.empty()) { Node x; x.kind = SINK; x.made = c.chance(1, 3); x.consume = (int)c.pick(3); x.batch = (int)c.range(1, 4); x.early = early && c.chance(1, 4); x.lazy = c.chance(lazy_pct, 100) ? (int)c.range(1, 30) : 0; sink(x, open); }
        describe();
    }
    void sink(Node x, std::vector<int> &open) {
        x.kind = SINK; int k = (int)std::min<size_t>(open.size(), (size_t)c.range(1, 3)); n.push_back(x); int me = (int)n.size() - 1;
        for (int i = 0; i < k; i++) { size_t p = c.pick(open.size()); int o = open[p]; open.erase(open.begin() + p); attach(me, o); }
        n[me].comp = n[l[n[me].in[0]].from].comp;
    }
    void describe() {
        if (!c.recording_notes()) return;
        for (size_t i = 0; i < n.size(); i++) {
            auto &x = n[i]; std::ostringstream o; o << "k" << i << " " << kname(x.kind) << (x.all ? " (all ports)" : "") << (x.made ? " (made)" : "") << (x.fwd ? " forwarding" : "") << (x.early ? " stops itself" : "");
            if (x.kind == SRC) o << " length " << x.n << " batch " << x.batch; if (x.kind == MAP) o << " rule " << x.rule; if (x.kind != SRC) o << (x.consume == 0 ? " one per firing" : x.consume == 1 ? " up to batch" : " all available");
            for (size_t p = 0; p < x.out.size(); p++) { auto &y = l[x.out[p]]; o << "\n  -> k" << y.to << ".i" << y.tport << " " << ops(y.type).name() << " buffer " << (y.fixed ? std::to_string(y.fixed) : "default") << " carries " << y.want.size() << (y.sig ? " with signals" : ""); }
            c.add_note(o.str());
        }
    }
};

template <class B> struct PK : B { IN_ARENA
    Graph &g; int me; size_t emitted = 0, taken = 0, total_in = 0; bool ended = false, inside = false; uint64_t acc = 0;
    PK(Graph *gp, int i, bool made = false) : B(), g(*gp), me(i) { this->internal_alloc = made;
        auto &x = g.n[me];
        for (size_t p = 0; p < x.in.size(); p++) { ops(g.l[x.in[p]].type).add(this->input, "i" + std::to_string(p)); total_in += g.l[x.in[p]].want.size(); }
        for (size_t p = 0; p < x.out.size(); p++) ops(g.l[x.out[p]].type).add(this->output, "o" + std::to_string(p));
    }
    FIFO &in(size_t p) { return this->input["i" + std::to_string(p)]; }
    FIFO &out(size_t p) { return this->output["o" + std::to_string(p)]; }
    Link &li(size_t p) { return g.l[g.n[me].in[p]]; }
    Link &lo(size_t p) { return g.l[g.n[me].out[p]]; }
    [[noreturn]] void bad(const std::string &m) { pbt::die_failing("k" + std::to_string(me) + " (" + kname(g.n[me].kind) + "): " + m); }
    void entry() {
        auto &x = g.n[me]; ++g.fires;
        if (g.k.life) {
            if (g.finished) bad("fired after exe() returned"); if (ended) bad("fired again after it had stopped"); if (inside) bad("fired while a firing is still running");
        }
        inside = true;
        if (g.k.place) { long w = this->getCoreAssignment(); if (w != bound) bad("is assigned to core " + std::to_string(w) + " and fired by a thread " + (bound < 0 ? std::string("that is bound to none") : "bound to core " + std::to_string(bound))); }
        if (g.k.fire && !x.in.empty()) {
            bool any = false, all = true; for (size_t p = 0; p < x.in.size(); p++) { bool has = in(p).size() > 0; any |= has; all &= has; }
            if (x.all ? !all : !any) bad(x.all ? "all-ports kernel fired although an input port has no data" : "fired although no input port has data");
        }
        if (g.k.size) { for (size_t p = 0; p < x.in.size(); p++) cap(in(p), li(p)); for (size_t p = 0; p < x.out.size(); p++) cap(out(p), lo(p)); }
    }
    void cap(FIFO &f, Link &l) {
        size_t k = f.capacity(); std::ostringstream o;
        if (l.fixed) { if (k != l.fixed) { o << "link built with buffer size " << l.fixed << " has capacity " << k; bad(o.str()); } return; }
        if (k < 64 || k < l.cap || (!g.dyn && k != 64)) { o << "link without a buffer size has capacity " << k << (l.cap ? ", earlier " + std::to_string(l.cap) : "") << (g.dyn ? "" : " although the allocator is not dynamic"); bad(o.str()); }
        if (k > 64) g.grew = true; l.cap = k;
    }
    void emit(size_t q, const uint64_t *v, size_t n) { ops(lo(q).type).write(out(q), g.n[me].wapi[q], v, n, lo(q)); }
    void emit_all(std::vector<std::pair<size_t, uint64_t>> &o) {
        if (g.elementwise) { for (auto &e : o) emit(e.first, &e.second, 1); return; }
        for (size_t q = 0; q < g.n[me].out.size(); q++) { std::vector<uint64_t> v; for (auto &e : o) if (e.first == q) v.push_back(e.second); if (!v.empty()) emit(q, v.data(), v.size()); }
    }
    raft::kstatus leave(bool stop) { inside = false; if (stop) ended = true; return stop ? raft::stop : raft::proceed; }
    raft::kstatus run() override {
        entry(); auto &x = g.n[me];
        for (int i = 0; i < x.lazy; i++) sched::point();
        if (x.kind == SRC) {
            size_t k = std::min<size_t>((size_t)x.batch, x.n - emitted); std::vector<std::pair<size_t, uint64_t>> o;
            for (size_t i = 0; i < k; i++, ++emitted) for (size_t q = 0; q < x.out.size(); q++) o.emplace_back(q, x.src(emitted, q));
            emit_all(o); return leave(emitted == x.n && (x.stopvar == 0 || k == 0));
        }
        if (x.kind == ZIP) {
            size_t rounds = 1; if (x.consume) { rounds = ~0ull; for (size_t p = 0; p < x.in.size(); p++) rounds = std::min(rounds, in(p).size()); rounds = std::max<size_t>(1, x.consume == 1 ? std::min<size_t>(rounds, x.batch) : rounds); }
            while (rounds-- > 0) {
                std::vector<uint64_t> v; for (size_t p = 0; p < x.in.size(); p++) { ops(li(p).type).read(in(p), x.rapi[p], 1, v, li(p)); ++taken; }
                for (size_t q = 0; q < x.out.size(); q++) { uint64_t y = x.zip(v, q); emit(q, &y, 1); }
            }
            return leave(x.early && taken == total_in);
        }
        for (size_t p = 0; p < x.in.size(); p++) {
            size_t todo = x.consume == 1 ? (size_t)x.batch : x.consume == 0 ? 1 : ~0ull; 
            while (todo > 0) {
                size_t s = in(p).size(); if (!s) break; size_t k = std::min(todo, x.consume == 2 ? s : std::min<size_t>(s, (size_t)x.batch)); todo -= k; taken += k;
                if (x.fwd) { while (k-- > 0) ops(li(p).type).forward(in(p), out(0), li(p), lo(0), &Node::fn, x.seed); continue; }
                std::vector<uint64_t> v; ops(li(p).type).read(in(p), x.rapi[p], k, v, li(p));
                if (x.kind == SINK) { sched::NoSwitch ns; for (auto y : v) li(p).got.push_back(y); continue; }
                std::vector<std::pair<size_t, uint64_t>> o; for (auto y : v) x.one(acc, p, y, [&](size_t q, uint64_t w) { o.emplace_back(q, w); });
                emit_all(o);
            }
        }
        return leave(x.early && taken == total_in);
    }
};

// builds the real map for a graph; kernels the caller owns live in `own`
struct Real {
    Graph &g; raft::map *m = nullptr; std::vector<std::unique_ptr<raft::kernel>> own; std::vector<raft::kernel *> k;
    explicit Real(Graph &g) : g(g), m(new raft::map) {
        for (size_t i = 0; i < g.n.size(); i++) {
            auto &x = g.n[i];
            // as kernel::make does
            if (x.made) k.push_back(x.all ? (raft::kernel *)new PK<raft::kernel_all>(&g, (int)i, true) : new PK<raft::kernel>(&g, (int)i, true));
            else { if (x.all) own.push_back(std::make_unique<PK<raft::kernel_all>>(&g, (int)i)); else own.push_back(std::make_unique<PK<raft::kernel>>(&g, (int)i)); k.push_back(own.back().get()); }
        }
        std::vector<size_t> o(g.l.size()); for (size_t i = 0; i < o.size(); i++) o[i] = i;
        for (size_t i = o.size(); i-- > 1;) std::swap(o[i], o[g.c.pick(i + 1)]);
        for (size_t i : o) { auto &l = g.l[i]; m->link(k[l.from], "o" + std::to_string(l.fport), k[l.to], "i" + std::to_string(l.tport), l.fixed); }
    }
    template <class P, class A> void exe3() { if (g.monitor) m->exe<P, PIPE_SCHEDULER, A, basic_parallel>(); else m->exe<P, PIPE_SCHEDULER, A, no_parallel>(); }
    template <class P> void exe2() { if (g.dyn) exe3<P, dynalloc>(); else exe3<P, stdalloc>(); }
    void exe() {
        if (g.part == 0) exe2<partition_dummy>(); else if (g.part == 1) exe2<partition_basic>(); else exe2<PlaceAs>();
        g.finished = true;
    }
    ~Real() { delete m; }
};
inline void settle() { for (int i = 0; i < 50; i++) sched::point(); }
}  // namespace pipe
