// P10: a network of stages connected by queues of externally stored objects,
// driven one operation at a time; every stage has the collector the scheduler
// keeps for a kernel and every firing ends with a collection.
#include "fifo.hpp"
#include <sanitizer/asan_interface.h>
#include <memory>
#include <set>

// Pooled<N>: a tracked object whose memory is reused at once (last freed, first
// used), so that a stale address soon is the address of another object.
struct Pool {
    static constexpr size_t SZ = 256, NS = 512; alignas(64) unsigned char mem[SZ * NS]; std::vector<int> fr; bool used[NS] = {};
    Pool() { fr.reserve(NS); for (int i = NS; i-- > 0;) fr.push_back(i); ASAN_POISON_MEMORY_REGION(mem, sizeof mem); }
    static Pool &get() { static Pool p; return p; }
    void *take() { if (fr.empty()) { pbt::die_failing("objects are not freed: pool exhausted"); } int i = fr.back(); fr.pop_back(); used[i] = true; ASAN_UNPOISON_MEMORY_REGION(mem + i * SZ, SZ); return mem + i * SZ; }
    void give(void *p) {
        size_t o = (unsigned char *)p - mem; if (o >= sizeof mem || o % SZ) pbt::die_failing("lifetime: memory that is not an object released");
        int i = (int)(o / SZ); if (!used[i]) pbt::die_failing("lifetime: memory of an object released twice"); used[i] = false; ASAN_POISON_MEMORY_REGION(p, SZ); fr.push_back(i);
    }
    void reset() { fr.clear(); for (int i = NS; i-- > 0;) { fr.push_back(i); used[i] = false; } ASAN_POISON_MEMORY_REGION(mem, sizeof mem); }
    size_t out() { size_t n = 0; for (bool b : used) n += b; return n; }
};
template <size_t N> struct Pooled : Tracked<N> {
    using Tracked<N>::Tracked;
    static void *operator new(size_t) { return Pool::get().take(); }
    static void *operator new(size_t, void *p) { return p; }
    static void operator delete(void *p) { Pool::get().give(p); }
};
template <size_t N> struct Val<Pooled<N>, void> {
    static Pooled<N> make(uint64_t id) { return Pooled<N>(id); }
    static bool eq(const Pooled<N> &v, uint64_t id) { return v.is(id); }
    static std::string name() { return "pooled" + std::to_string(N); }
};
template <class T> struct is_tracked : std::false_type {};
template <size_t N> struct is_tracked<Tracked<N>> : std::true_type {};
template <size_t N> struct is_tracked<Pooled<N>> : std::true_type {};

template <class T> struct is_pooled : std::false_type {};
template <size_t N> struct is_pooled<Pooled<N>> : std::true_type {};

template <class T> struct Net {
    struct Obj { uint64_t id; T *at; raft::signal sig; bool peeked = false, forwarded = false; };   // at: 0 while unknown
    struct Kept { uint64_t id; T *at; };                                        // peeked and recycled in this firing, not forwarded
    struct Q { FIFO *f; size_t cap; std::deque<Obj> q; int from, to; };
    struct Stage { std::vector<int> in, out; Collector g; std::vector<Kept> kept; size_t dead = 0; bool firing = false; };
    pbt::Case &c; std::vector<std::unique_ptr<Q>> qs; std::vector<std::unique_ptr<Stage>> st; uint64_t next = 1;
    size_t forwards = 0, moved_seen = 0, freed = 0, late = 0, copies = 0;

    Net(pbt::Case &c) : c(c) {
        int n = (int)c.range(2, 4); for (int i = 0; i < n; i++) st.push_back(std::make_unique<Stage>());
        std::ostringstream o;
        for (int i = 0; i + 1 < n; i++) for (int k = (int)c.range(1, 2); k-- > 0;) {
            auto q = std::make_unique<Q>(); q->cap = (size_t)c.range(1, 6); q->f = make_fifo<T>(q->cap); q->from = i; q->to = i + 1;
            st[i]->g.producer(q->f); st[i + 1]->g.consumer(q->f); st[i]->out.push_back((int)qs.size()); st[i + 1]->in.push_back((int)qs.size());
            o << " q" << qs.size() << ":" << i << "->" << i + 1 << "(" << q->cap << ")"; qs.push_back(std::move(q));
        }
        c.note(n, " stages of ", Val<T>::name(), ":", o.str());
    }
    ~Net() { for (auto &q : qs) delete q->f; }
    Q *room(Stage &s) { std::vector<Q *> v; for (int i : s.out) if (qs[i]->q.size() < qs[i]->cap) v.push_back(qs[i].get()); return v.empty() ? nullptr : v[c.pick(v.size())]; }
    raft::signal sg() { return c.chance(1, 4) ? draw_signal(c) : raft::none; }
    std::string nm(Q &q) { for (size_t i = 0; i < qs.size(); i++) if (qs[i].get() == &q) return "q" + std::to_string(i); return "?"; }
    void push_ref(Q &o, T &r, raft::signal s) { pbt::NoBlock nb("push on a queue with room"); bool mv = c.chance(1, 4); if (mv) c.note("  as an rvalue");
        if (mv) { if (s == raft::none) o.f->push(std::move(r)); else o.f->push(std::move(r), s); } else if (s == raft::none) o.f->push(r); else o.f->push(r, s); }

    void fresh(Stage &s) {
        Q *o = room(s); if (!o) return; uint64_t id = next++; raft::signal g = sg(); T *at = nullptr;
        switch (c.pick(4)) {
        case 0: { c.note("push #", id, " to ", nm(*o)); T v = Val<T>::make(id); push_ref(*o, v, g); break; }
        case 1: { c.note("push of a heap object #", id, " to ", nm(*o)); std::unique_ptr<T> v(new T(Val<T>::make(id))); push_ref(*o, *v, g); c.require(Val<T>::eq(*v, id), "push changed its argument"); break; }
        case 2: { c.note("allocate+send #", id, " to ", nm(*o)); pbt::NoBlock nb("allocate"); T &r = o->f->template allocate<T>(Val<T>::make(id)); at = &r;
                  if (c.chance(1, 6)) { c.note("  cancelled"); o->f->deallocate(); return; } o->f->send(g); break; }
        default: { c.note("allocate_s #", id, " to ", nm(*o)); pbt::NoBlock nb("allocate_s"); auto h = o->f->template allocate_s<T>(); *h = Val<T>::make(id); if (g != raft::none) h.sig() = g; at = &*h; }
        }
        o->q.push_back({id, at, g});
    }
    // With reused memory a forwarded object is recycled at once (finding K1 otherwise).
    // head of an input queue that may still be used
    Q *usable(Stage &s) { std::vector<Q *> v; for (int i : s.in) if (!qs[i]->q.empty() && !qs[i]->q.front().forwarded) v.push_back(qs[i].get()); return v.empty() ? nullptr : v[c.pick(v.size())]; }
    T &peek(Q &q) {
        Obj &h = q.q.front(); raft::signal g = (raft::signal)0xabcdef; pbt::NoBlock nb("peek on a queue with data"); T &r = q.f->template peek<T>(&g);
        c.note("peek ", nm(q), " #", h.id);
        c.require(!h.at || &r == h.at, "peek on ", nm(q), " returned another object than the one put there (#", h.id, ")");
        c.require(Val<T>::eq(r, h.id), "peek on ", nm(q), " returned a wrong value, expected #", h.id); c.require(g == h.sig, "peek returned signal ", (uint32_t)g, ", sent ", (uint32_t)h.sig);
        if (h.at) ++moved_seen;
        h.at = &r; h.peeked = true; return r;
    }
    void recycle(Stage &s, Q &q, size_t n) {
        c.note("recycle ", n, " of ", nm(q)); { pbt::NoBlock nb("recycle"); q.f->recycle(n); }
        for (size_t i = 0; i < n; i++) {
            Obj &h = q.q.front();
            if (h.forwarded) { if (!h.peeked) ++late; }
            else { ++s.dead; if (h.peeked) s.kept.push_back({h.id, h.at}); }
            q.q.pop_front();
        }
    }
    void forward(Stage &s, Q &q) {
        Q *o = room(s); if (!o) return; Obj &h = q.q.front(); T &r = h.peeked ? *h.at : peek(q);
        if (c.chance(1, 4)) { uint64_t id = next++; r = Val<T>::make(id); h.id = id; c.note("  modify -> #", id); }
        raft::signal g = sg(); c.note("forward #", h.id, " from ", nm(q), " to ", nm(*o)); push_ref(*o, r, g); ++forwards;
        o->q.push_back({h.id, &r, g}); h.forwarded = true;
    }
    void op(Stage &s) {
        s.firing = true;
        bool source = s.in.empty(), sink = s.out.empty();
        if (source) { fresh(s); return; }
        switch (c.weighted({4, sink ? 0u : 6u, 5, 2, sink ? 0u : 2u, sink ? 0u : 2u, sink ? 0u : 2u, 1})) {
        case 0: if (Q *q = usable(s)) { peek(*q); if (c.chance(1, 2)) { c.note("unpeek"); q->f->unpeek(); } } break;
        case 1: if (Q *q = usable(s)) { forward(s, *q); if (q->q.front().forwarded && (is_pooled<T>::value || c.chance(2, 3))) recycle(s, *q, 1); } break;
        case 2: { std::vector<Q *> v; for (int i : s.in) if (!qs[i]->q.empty()) v.push_back(qs[i].get()); if (v.empty()) break;
                  Q *q = v[c.pick(v.size())]; recycle(s, *q, c.chance(1, 4) ? 1 + c.pick(q->q.size()) : 1); break; }
        case 3: if (Q *q = usable(s)) {
                    Obj h = q->q.front(); c.note("pop ", nm(*q), " #", h.id); T v = Val<T>::make(0); raft::signal g = raft::none;
                    { pbt::NoBlock nb("pop"); q->f->pop(v, &g); } c.require(Val<T>::eq(v, h.id) && g == h.sig, "pop on ", nm(*q), " returned a wrong value or signal, expected #", h.id); q->q.pop_front(); ++freed;
                    if (!sink && c.chance(1, 2)) if (Q *o = room(s)) { raft::signal gg = sg(); if (c.chance(1, 2)) { c.note("  push it to ", nm(*o)); push_ref(*o, v, gg); } else { c.note("  push it from the heap to ", nm(*o)); std::unique_ptr<T> p(new T(v)); push_ref(*o, *p, gg); } o->q.push_back({h.id, nullptr, gg}); ++copies; }
                } break;
        case 4: if (Q *q = usable(s)) if (Q *o = room(s)) { T &r = peek(*q); T v(r); raft::signal g = sg(); c.note("push a copy to ", nm(*o)); push_ref(*o, v, g); o->q.push_back({q->q.front().id, nullptr, g}); ++copies; } break;
        case 5: fresh(s); break;
        case 6: if (!s.kept.empty()) if (Q *o = room(s)) {     // recycled first, forwarded afterwards, same firing
                    size_t i = c.pick(s.kept.size()); Kept k = s.kept[i]; s.kept.erase(s.kept.begin() + i); raft::signal g = sg();
                    c.note("forward recycled #", k.id, " to ", nm(*o)); push_ref(*o, *k.at, g); ++forwards; --s.dead; o->q.push_back({k.id, k.at, g});
                } break;
        default: if (Q *q = usable(s)) { Obj h = q->q.front(); c.note("pop_s ", nm(*q)); pbt::NoBlock nb("pop_s"); auto h2 = q->f->template pop_s<T>(); c.require(Val<T>::eq(*h2, h.id), "pop_s on ", nm(*q), " returned a wrong value, expected #", h.id);
                     q->q.pop_front(); ++s.dead; }
        }
    }
    void collect(Stage &s, size_t i) {
        c.note("end of firing of stage ", i); s.g.collect(); freed += s.dead; s.dead = 0; s.kept.clear(); s.firing = false;
        for (int k : s.in) { for (auto &h : qs[k]->q) h.peeked = false; }
    }
    size_t alive() {
        size_t n = 0; for (auto &q : qs) for (auto &h : q->q) n += !h.forwarded; for (auto &s : st) n += s->dead; return n;
    }
    void check() {
        for (auto &q : qs) c.require(q->f->size() == q->q.size(), nm(*q), " holds ", q->f->size(), " elements, expected ", q->q.size());
        if (is_tracked<T>::value) c.require(Ledger::get().live.size() == alive(), Ledger::get().live.size(), " objects are alive, ", alive(), " are queued or recycled in an unfinished firing");
    }
    void run() {
        int n = (int)c.size(1, 80);
        for (int k = 0; k < n; k++) {
            size_t i = c.pick(st.size()); Stage &s = *st[i]; c.note("stage ", i, ":"); int m = (int)c.range(1, 3);
            for (int j = 0; j < m; j++) { op(s); check(); }
            if (c.chance(1, 2)) { collect(s, i); check(); }
        }
        // drain, stage by stage from the end
        for (int round = 0; round < 200; round++) {
            size_t left = 0; for (auto &q : qs) left += q->q.size(); if (!left) break;
            for (size_t i = st.size(); i-- > 1;) {
                Stage &s = *st[i];
                for (int k : s.in) { Q &q = *qs[k]; if (q.q.empty()) continue; if (!q.q.front().forwarded && !s.out.empty() && c.chance(1, 2)) forward(s, q); recycle(s, q, 1); check(); }
                collect(s, i); check();
            }
        }
        for (size_t i = 0; i < st.size(); i++) { collect(*st[i], i); }
        check(); c.require(alive() == 0, "harness: not drained");
    }
};
template <class T> void fwd(pbt::Case &c) {
    auto body = [&] {
        Ledger::get().reset(); Pool::get().reset();
        { Net<T> n(c); n.run();
          if (n.forwards && n.moved_seen && n.freed) c.nontrivial();
          if (n.late) c.label("recycled in a later firing than forwarded"); if (n.copies) c.label("copies sent too"); if (n.forwards > 3) c.label("several forwards"); }
        c.require(Ledger::get().live.empty(), Ledger::get().live.size(), " objects alive after everything was consumed");
        c.require(Pool::get().out() == 0, Pool::get().out(), " objects' memory not released after everything was consumed");
    };

    size_t start = c.mark(); long d; { size_t a = pbt::live_bytes(); body(); d = (long)pbt::live_bytes() - (long)a; }
    if (d > 0) { c.rewind(start); size_t a = pbt::live_bytes(); body(); d = (long)pbt::live_bytes() - (long)a; c.require(d <= 0, d, " bytes still allocated after every object was consumed"); }
}
using Types = TypeList<Tracked<72>, Pooled<96>, Pooled<72>, Tracked<200>, Pod<100>, std::array<std::string, 4>>;
PROP(P10, forwarding, 500000, 10000000, "networks of 2 to 4 stages with one or two queues between neighbours, firings interleaved call by call: peek, forward, recycle (before, after or in a later firing), copies, pops, new objects; addresses, values, signals and the set of live objects compared after every call; non-trivial: an object was forwarded, received under its address and some object freed") {
    any_type(c, Types{}, [](pbt::Case &c, auto *t) { fwd<std::remove_pointer_t<decltype(t)>>(c); });
}

KNOWN(P10, forwarded_not_recycled_reused, "K1", "an object forwarded but not recycled yet, its memory reused for another one that is recycled first") {
    using T = Pooled<96>; Ledger::get().reset(); Pool::get().reset();
    FIFO *a = make_fifo<T>(4), *b = make_fifo<T>(4), *o = make_fifo<T>(4); Collector src, k, dst;
    src.producer(a); src.producer(b); k.consumer(a); k.consumer(b); k.producer(o); dst.consumer(o);
    { T v(1); a->push(v); } T &r = a->peek<T>(); o->push(r);          // forwarded, still the head of a
    o->recycle(1); dst.collect();                                    // consumed downstream
    { T v(2); b->push(v); } T &r2 = b->peek<T>(); bool same = &r == &r2; b->unpeek();
    b->recycle(1); k.collect(); size_t live = Ledger::get().live.size();
    if (live) { a->recycle(1); k.collect(); } else a->recycle(1);
    c.require(same, "harness: memory not reused"); c.nontrivial();
    delete a; delete b; delete o;
    c.require(live == 0, "an object recycled without being forwarded was not freed by the end of the firing: its address was that of an object forwarded earlier and not recycled yet");
}
