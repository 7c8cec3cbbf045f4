// fifo.hpp - access to the stream interface and a model-based engine for one
// queue driven from one thread.
#pragma once
#include <cstdint>
#include <raft>
#include "pbt.hpp"
#include "elems.hpp"
#include "mix.hpp"
#include <deque>
#include <list>
#include <optional>
#include "ringbuffer.tcc"
#include "schedule.hpp"
#include "alloc_traits.tcc"
#include "portexception.hpp"

struct FifoAccess : FIFO {   // only names the protected hooks the scheduler uses
    static void map(FIFO *f, ptr_map_t *p) { auto m = &FifoAccess::setPtrMap; (f->*m)(p); }
    static void set(FIFO *f, ptr_set_t *p) { auto m = &FifoAccess::setPtrSet; (f->*m)(p); }
    static void inpeek(FIFO *f, ptr_set_t *p) { auto m = &FifoAccess::setInPeekSet; (f->*m)(p); }
    static void outpeek(FIFO *f, ptr_set_t *p) { auto m = &FifoAccess::setOutPeekSet; (f->*m)(p); }
    static raft::signal sigpeek(FIFO *f) { auto m = &FifoAccess::signal_peek; return (f->*m)(); }
};
struct SchedAccess : Schedule {
    static void gc(ptr_map_t *a, ptr_set_t *b, ptr_set_t *c) { fifo_gc(a, b, c); }
};
// what the scheduler keeps per kernel
struct Collector {
    ptr_map_t in; ptr_set_t out, peek;
    void consumer(FIFO *f) { FifoAccess::map(f, &in); FifoAccess::inpeek(f, &peek); }
    void producer(FIFO *f) { FifoAccess::set(f, &out); FifoAccess::outpeek(f, &peek); }
    void collect() { SchedAccess::gc(&in, &out, &peek); }
};
template <class T> FIFO *make_fifo(size_t n, size_t align = 16) { return RingBuffer<T, Type::Heap, false>::make_new_fifo(n, align, nullptr); }

inline raft::signal draw_signal(pbt::Case &c) {
    switch (c.pick(6)) {
    case 0: case 1: return raft::none;
    case 2: return raft::quit;
    case 3: return raft::term;
    case 4: return raft::eof;
    default: return (raft::signal)(uint32_t)(0x1000 + c.pick(0xfffff000ull));
    }
}

struct Item { uint64_t id; raft::signal sig; };

template <class T> struct Engine {
    static constexpr bool nonclass = inline_nonclass_alloc<T>::value, inl = inline_alloc<T>::value, ext = ext_alloc<T>::value;
    pbt::Case &c; const Mix &m; FIFO *f = nullptr; size_t cap = 0; Collector g;
    std::deque<Item> q; uint64_t next = 1; bool closed = false, peekflag = false, exceptional = false;
    size_t rp = 0, wp = 0;  // positions, to know when a resize is possible
    uint64_t wcount = 0, rmin = 0, rmax = 0; bool blocked_seen = false;
    // outstanding producer allocation
    enum { NONE, ONE, RANGE, HANDLE } al = NONE; uint64_t al_id = 0; std::vector<uint64_t> al_ids; std::vector<std::reference_wrapper<T>> al_refs; T *al_ptr = nullptr;
    bool consumer_busy = false;
    // statistics about the case
    int wraps = 0, n_sent = 0, n_got = 0, fulls = 0, empties = 0, resizes = 0;

    Engine(pbt::Case &c, const Mix &m) : c(c), m(m) {
        cap = (size_t)c.size(1, 40);
        size_t align = c.oneof<size_t>({16, 8, 64, 128});
        c.note("queue<", Val<T>::name(), "> capacity ", cap);
        f = make_fifo<T>(cap, align);
        g.consumer(f); g.producer(f);
    }
    ~Engine() { if (f) delete f; }
    raft::signal sg() { return m.sigs ? draw_signal(c) : raft::none; }
    void sent(uint64_t id, raft::signal s) { q.push_back({id, s}); ++wcount; ++n_sent; if (++wp == cap) { wp = 0; ++wraps; } }
    void consumed(size_t n) { for (size_t i = 0; i < n; i++) { q.pop_front(); ++n_got; if (++rp == cap) rp = 0; } }
    void same(const T &v, size_t i, const char *how) {
        c.require(Val<T>::eq(v, q[i].id), how, " returned a wrong element: expected #", q[i].id, " (position ", i, " from the head)");
    }
    void samesig(raft::signal s, size_t i, const char *how) {
        c.require(s == q[i].sig, how, " returned signal ", (uint32_t)s, " with element #", q[i].id, ", sent with ", (uint32_t)q[i].sig);
    }
    void check() {
        size_t s, a, k; { pbt::NoBlock nb("size()"); s = f->size(); a = f->space_avail(); k = f->capacity(); }
        c.require(k == cap, "capacity() is ", k, ", queue was built with ", cap);
        c.require(s == q.size(), "size() is ", s, " with ", q.size(), " elements queued");
        c.require(a == cap - q.size(), "space_avail() is ", a, " with ", q.size(), " of ", cap, " queued");
        c.require(f->is_invalid() == closed, "is_invalid() is ", f->is_invalid());
        if (q.size() == cap) ++fulls; if (q.empty()) ++empties;
    }
    size_t space() { return cap - q.size(); }
    // ---- producer -----------------------------------------------------------
    void p_push() {
        if (!space()) return; uint64_t id = next++; raft::signal s = sg(); bool rv = c.chance(1, 3);
        c.note(rv ? "push(rvalue) #" : "push #", id, " sig ", (uint32_t)s);
        pbt::NoBlock nb("push on a queue with room");
        if (rv) f->push<T>(Val<T>::make(id), s); else { T v = Val<T>::make(id); if (s == raft::none) f->push(v); else f->push(v, s); c.require(Val<T>::eq(v, id), "push modified its argument"); }
        sent(id, s);
    }
    void p_insert() {
        size_t n = c.size(0, space()); raft::signal s = sg(); bool list = c.chance(1, 2);
        c.note("insert ", n, list ? " from list" : " from vector", " sig ", (uint32_t)s, " from #", next);
        pbt::NoBlock nb("insert on a queue with room");
        std::vector<uint64_t> ids; for (size_t i = 0; i < n; i++) ids.push_back(next++);
        if (list) { std::list<T> l; for (auto i : ids) l.push_back(Val<T>::make(i)); f->insert(l.begin(), l.end(), s); kept(l, ids); }
        else { std::vector<T> l; l.reserve(n); for (auto i : ids) l.push_back(Val<T>::make(i)); f->insert(l.begin(), l.end(), s); kept(l, ids); }
        for (size_t i = 0; i < n; i++) sent(ids[i], i + 1 == n ? s : raft::none);
        if (n > 1) c.label("insert of several");
    }
    template <class L> void kept(const L &l, const std::vector<uint64_t> &ids) { size_t i = 0; c.require(l.size() == ids.size(), "insert changed the length of its source"); for (const auto &e : l) { c.require(Val<T>::eq(e, ids[i]), "insert modified element ", i, " of its source"); ++i; } }
    // the slot is built from the arguments given: a temporary, a variable of the caller's, two values
    template <class F> T &built(uint64_t id, F make) {
        size_t how = c.pick(two_args<T>::value ? 3 : 2);
        if (how == 0) return make(Val<T>::make(id));
        if constexpr (two_args<T>::value) if (how == 2) { const uint64_t b = 3; return make(id + 3, b); }
        T v = Val<T>::make(id); T &r = make(v); c.require(Val<T>::eq(v, id), "allocate modified its argument"); return r;
    }
    T &alloc_one(uint64_t id) {
        if constexpr (nonclass) { T &r = f->allocate<T>(); r = Val<T>::make(id); return r; }
        else if (c.chance(1, 2)) { T &r = f->allocate<T>(); r = Val<T>::make(id); return r; }
        else { T &r = built(id, [&](auto &&...a) -> T & { return f->allocate<T>(std::forward<decltype(a)>(a)...); }); c.require(Val<T>::eq(r, id), "allocate with arguments did not build the value from them"); return r; }
    }
    void p_alloc() {
        if (!space()) return; al_id = next++; c.note("allocate #", al_id);
        pbt::NoBlock nb("allocate on a queue with room");
        al_ptr = &alloc_one(al_id); al = ONE;
    }
    void p_alloc_range() {
        if constexpr (nonclass) {
            if (!space()) return; size_t n = c.size(1, space()); c.note("allocate_range ", n, " from #", next);
            pbt::NoBlock nb("allocate_range on a queue with room");
            al_refs.clear(); al_ids.clear();
            auto r = f->allocate_range<T>(n); c.require(r.size() == n, "allocate_range(", n, ") returned ", r.size(), " slots");
            for (size_t i = 0; i < n; i++) { al_ids.push_back(next++); al_refs.push_back(r[i]); r[i].get() = Val<T>::make(al_ids[i]); }
            al = RANGE; if (n > 1) c.label("allocate_range of several");
        } else p_push();
    }
    void p_release() {
        raft::signal s = sg(); pbt::NoBlock nb("send");
        if (al == ONE) {
            bool cancel = m.cancel && c.chance(m.cancel, m.cancel + 3);
            if (c.chance(1, 3)) { al_id = next++; *al_ptr = Val<T>::make(al_id); }
            if (cancel) { c.note("deallocate #", al_id); f->deallocate(); c.label("allocation cancelled"); }
            else { c.note("send #", al_id, " sig ", (uint32_t)s); if (s == raft::none) f->send(); else f->send(s); sent(al_id, s); }
        } else {
            // the signal of send_range is documented as marking the end of the write
            c.note("send_range ", al_ids.size(), " sig ", (uint32_t)s);
            f->send_range(s); for (size_t i = 0; i < al_ids.size(); i++) sent(al_ids[i], i + 1 == al_ids.size() ? s : raft::none);
            al_refs.clear(); al_ids.clear();
        }
        al = NONE; al_ptr = nullptr;
    }
    void p_alloc_s() {
        if (!space()) return; uint64_t id = next++; raft::signal s = sg(); c.note("{ allocate_s #", id);
        {
            std::optional<pbt::NoBlock> nb(std::in_place, "allocate_s on a queue with room");
            auto body = [&](auto &h, bool built = false) {
                al = HANDLE; if (built) c.require(Val<T>::eq(*h, id), "allocate_s with arguments did not build the value from them"); else *h = Val<T>::make(id); if (s != raft::none) h.sig() = s; nb.reset(); check();
                for (int k = c.pick(3); k-- > 0;) { consumer_op(); check(); }
                if (c.chance(1, 4)) { id = next++; *h = Val<T>::make(id); }
                nb.emplace("end of allocate_s scope");
            };
            if constexpr (nonclass) { auto h = f->allocate_s<T>(); body(h); }
            else if (c.chance(1, 2)) {
                size_t how = c.pick(two_args<T>::value ? 3 : 2);
                if (how == 0) { auto h = f->allocate_s<T>(Val<T>::make(id)); body(h, true); }
                else if (how == 1) { T v = Val<T>::make(id); auto h = f->allocate_s<T>(v); c.require(Val<T>::eq(v, id), "allocate_s modified its argument"); body(h, true); }
                else if constexpr (two_args<T>::value) { auto h = f->allocate_s<T>(id + 3, (uint64_t)3); body(h, true); }
            }
            else { auto h = f->allocate_s<T>(); body(h); }
        }
        al = NONE; sent(id, s); c.note("} sent #", id, " sig ", (uint32_t)s);
    }
    void p_stray() { bool r = c.chance(1, 2); c.note(r ? "stray send_range" : "stray send"); pbt::NoBlock nb("stray send"); if (r) f->send_range(sg()); else f->send(sg()); c.label("stray send"); }
    void p_close() { c.note("close"); f->invalidate(); closed = true; c.label("closed"); if (q.size()) c.label("closed with data"); }
    // a push that must wait until the receiver makes room
    void p_blocked() {
        if (space() || consumer_busy) return;
        uint64_t id = next++; raft::signal s = sg(); int after = 1 + c.pick(4); int n = 0; bool done = false; T got = Val<T>::make(0); raft::signal gs = raft::none; std::string err;
        c.note("push #", id, " on the full queue; pop after ", after, " yields");
        { pbt::NoBlock nb("push after the receiver made room", 2000);
          pbt::yield_hook = [&] { if (!done && ++n == after) { done = true; f->pop(got, &gs); } };
          T v = Val<T>::make(id);
          if (c.chance(1, 3)) { std::vector<T> l; l.push_back(v); f->insert(l.begin(), l.end(), s); }
          else if (c.chance(1, 3)) { alloc_one(id); f->send(s); }
          else f->push(v, s);
          pbt::yield_hook = nullptr; }
        c.require(done, "push on a full queue returned before there was room");
        same(got, 0, "pop"); samesig(gs, 0, "pop"); consumed(1); ++rmin; ++rmax; sent(id, s); blocked_seen = true; c.label("sender had to wait");
    }
    void producer_op() {
        if (al == ONE || al == RANGE) { p_release(); return; }
        if (al == HANDLE || closed) return;
        switch (c.weighted({m.push, m.insert, m.alloc, m.alloc_s, m.alloc_range, m.stray, m.blocked})) {
        case 0: p_push(); break; case 1: p_insert(); break; case 2: p_alloc(); break; case 3: p_alloc_s(); break;
        case 4: p_alloc_range(); break; case 5: p_stray(); break; default: p_blocked();
        }
    }
    // ---- consumer -----------------------------------------------------------
    template <class F> void expect_closed(const char *what, F &&fn) {
        pbt::NoBlock nb("receive call on a closed, empty stream");
        try { fn(); } catch (ClosedPortAccessException &) { c.label("closed-port exception"); return; }
        c.fail(std::string(what) + " on a closed, empty stream returned instead of raising the closed-port exception");
    }
    void c_pop() {
        if (q.empty()) { if (closed) { exceptional = true; c.note("pop (closed)"); expect_closed("pop", [&] { T v = Val<T>::make(0); f->pop(v); }); } return; }
        bool ws = c.chance(2, 3); c.note(ws ? "pop with signal" : "pop"); T v = Val<T>::make(0); raft::signal s = (raft::signal)0xdead;
        { pbt::NoBlock nb("pop on a queue with data"); if (ws) f->pop(v, &s); else f->pop(v); }
        same(v, 0, "pop"); if (ws) samesig(s, 0, "pop"); consumed(1); ++rmin; ++rmax;
    }
    void c_pop_range() {
        size_t n = c.size(0, q.size());
        if (closed && q.empty() && c.chance(1, 2)) { exceptional = true; c.note("pop_range 1 (closed)"); expect_closed("pop_range", [&] { pop_range_vec(1, [&](auto &v) { f->pop_range<T>(v, 1); }); }); return; }
        c.note("pop_range ", n);
        pop_range_vec(n, [&](auto &v) {
            { pbt::NoBlock nb("pop_range on a queue with data"); f->pop_range<T>(v, n); }
            c.require(v.size() == n, "pop_range resized its argument");
            for (size_t i = 0; i < n; i++) { same(v[i].first, i, "pop_range"); samesig(v[i].second, i, "pop_range"); }
        });
        consumed(n); rmin += n; rmax += n; if (n > 1) c.label("pop_range of several");
    }
    template <class F> void pop_range_vec(size_t n, F &&fn) { std::vector<std::pair<T, raft::signal>> v; v.reserve(n); for (size_t i = 0; i < n; i++) v.emplace_back(Val<T>::make(0), raft::none); fn(v); }
    void c_pop_s() {
        if (q.empty()) { if (closed) { exceptional = true; c.note("pop_s (closed)"); expect_closed("pop_s", [&] { auto h = f->pop_s<T>(); (void)h; }); } return; }
        c.note("{ pop_s");
        {
            std::optional<pbt::NoBlock> nb(std::in_place, "pop_s on a queue with data");
            auto h = f->pop_s<T>(); nb.reset(); peekflag = true; consumer_busy = true;
            same(*h, 0, "pop_s"); samesig(h.sig(), 0, "pop_s"); check();
            for (int k = c.pick(3); k-- > 0;) { producer_op(); check(); }
            same(*h, 0, "pop_s handle"); samesig(h.sig(), 0, "pop_s handle");
            nb.emplace("end of pop_s scope");
        }
        consumer_busy = false; peekflag = false; consumed(1); ++rmax; c.note("}");
    }
    void c_peek() {
        if (q.empty()) { if (closed) { exceptional = true; c.note("peek (closed)"); expect_closed("peek", [&] { (void)f->peek<T>(); }); } return; }
        bool ws = c.chance(2, 3); raft::signal s = (raft::signal)0xdead; c.note("{ peek");
        std::optional<pbt::NoBlock> nb(std::in_place, "peek on a queue with data");
        T &r = ws ? f->peek<T>(&s) : f->peek<T>(); nb.reset(); consumer_busy = true; peekflag = true;
        same(r, 0, "peek"); if (ws) samesig(s, 0, "peek"); check();
        if (m.write_through && c.chance(1, 2)) { uint64_t id = next++; c.note("  write #", id, " through the reference"); r = Val<T>::make(id); q[0].id = id; c.label("written through peek"); }
        for (int k = c.pick(3); k-- > 0;) { producer_op(); check(); }
        same(r, 0, "reference obtained from peek");
        consumer_busy = false; nb.emplace("unpeek/recycle");
        switch (c.pick(3)) {
        case 0: f->unpeek(); peekflag = false; c.note("} unpeek"); c.label("peek then unpeek"); break;
        case 1: f->unpeek(); peekflag = false; f->recycle(); consumed(1); ++rmax; c.note("} unpeek, recycle"); break;
        default: f->recycle(); consumed(1); ++rmax; c.note("} recycle");
        }
    }
    void c_peek_range() {
        if constexpr (inl) {
            if (closed && c.chance(1, 4)) {
                pbt::NoBlock nb("peek_range on a closed stream");
                size_t n = q.size() + 1 + c.pick(4); c.note("peek_range ", n, " (closed)"); exceptional = true;
                try { auto r = f->peek_range<T>(n); c.fail("peek_range past the end of a closed stream returned"); }
                catch (ClosedPortAccessException &) { c.require(q.empty(), "closed-port exception from peek_range although ", q.size(), " elements remain"); c.label("closed-port exception"); }
                catch (NoMoreDataException &) { c.require(!q.empty(), "no-more-data exception from peek_range on an empty closed stream"); c.label("no-more-data exception"); }
                return;
            }
            if (q.empty()) return;
            size_t n = c.size(1, q.size()); c.note("{ peek_range ", n);
            bool rec = c.chance(1, 2); size_t nrec = rec ? c.range(1, n) : 0;
            {
                std::optional<pbt::NoBlock> nb(std::in_place, "peek_range on a queue with data");
                auto r = f->peek_range<T>(n); nb.reset(); consumer_busy = true; peekflag = true;
                c.require(r.size() == n, "peek_range(", n, ").size() is ", r.size());
                auto look = [&] { for (size_t i = 0; i < n; i++) { auto p = r[i]; same(p.ele, i, "peek_range"); samesig((raft::signal)p.sig, i, "peek_range"); } };
                look(); check();
                if (m.bad_index) {
                    size_t bad = n + c.pick(3); bool threw = false;
                    try { auto p = r[bad]; (void)p; } catch (std::exception &) { threw = true; }
                    c.require(threw, "index ", bad, " into a range of ", n, " peeked elements was accepted"); c.label("bad index");
                }
                if (m.write_through && c.chance(1, 2)) { size_t i = c.pick(n); uint64_t id = next++; c.note("  write #", id, " at ", i); r[i].ele = Val<T>::make(id); q[i].id = id; c.label("written through peek_range"); }
                for (int k = c.pick(3); k-- > 0;) { producer_op(); check(); }
                look(); consumer_busy = false; nb.emplace("end of peek_range scope");
            }
            peekflag = false; c.note("}"); if (n > 1) c.label("peek_range of several");
            if (nrec) { c.note("recycle ", nrec); pbt::NoBlock nb("recycle"); f->recycle(nrec); consumed(nrec); rmax += nrec; }
        } else c_peek();
    }
    void c_recycle() {
        if (q.empty() && !closed) return;
        size_t n = c.size(0, q.size()); if (closed && c.chance(1, 3)) { n = q.size() + c.pick(4); }
        c.note("recycle ", n); pbt::NoBlock nb("recycle"); f->recycle(n); size_t k = std::min(n, q.size()); consumed(k); rmax += k; if (k > 1) c.label("recycle of several");
        if (n > k) c.label("recycle past the end of a closed stream");
    }
    // a receive call that must wait until the sender has sent enough, or closes
    void c_blocked() {
        if (closed || al || consumer_busy) return;
        enum { POP, POP_S, PEEK, POP_RANGE, RECYCLE, PEEK_RANGE }; size_t have = q.size();
        std::vector<int> can{POP_RANGE, RECYCLE}; if (inl && have < cap) can.push_back(PEEK_RANGE); if (!have) { can.push_back(POP); can.push_back(POP_S); can.push_back(PEEK); }
        int kind = can[c.pick(can.size())]; size_t n = kind == PEEK_RANGE ? (size_t)c.range(have + 1, cap) : kind == POP_RANGE || kind == RECYCLE ? have + 1 + c.pick(cap + 3) : 1;
        bool closes = m.close && c.chance(1, 4); size_t send = closes ? c.pick(n - have) : n - have, given = 0; int gap = 1 + (int)c.pick(3), y = 0; bool shut = false;
        static const char *const nm[] = {"pop", "pop_s", "peek", "pop_range", "recycle", "peek_range"};
        c.note(nm[kind], " ", n, " with ", have, " queued; ", send, " sent meanwhile", closes ? ", then closed" : "");
        std::vector<std::pair<uint64_t, raft::signal>> late; for (size_t i = 0; i < send; i++) late.emplace_back(next++, c.chance(1, 4) ? sg() : raft::none);
        pbt::NoBlock nb("receive call after the sender sent what it waits for", 4000);
        auto wait = [&](auto fn) {
            pbt::yield_hook = [&] {
                if (++y % gap) return; 
                if (given < send) { if (!f->space_avail()) return; T v = Val<T>::make(late[given].first); f->push(v, late[given].second); ++given; } else if (closes && !shut) { shut = true; f->invalidate(); } };
            int r = 0; try { fn(); } catch (ClosedPortAccessException &) { r = 1; } catch (NoMoreDataException &) { r = 2; }
            pbt::yield_hook = nullptr;
            c.require(given == send && shut == closes, nm[kind], " ", n, " with ", have, " queued returned after ", given, " of ", send, " further ones were sent", closes && !shut ? ", and before the stream was closed" : "");
            for (auto &p : late) sent(p.first, p.second); if (closes) { closed = true; exceptional = exceptional || r; }
            int want = !closes || kind == RECYCLE ? 0 : kind == PEEK_RANGE && have + send > 0 ? 2 : 1;
            c.require(r == want, nm[kind], " ", n, " on a stream closed with ", have + send, " elements ", r == 0 ? "returned" : r == 1 ? "raised the closed-port exception" : "raised the no-more-data exception");
            c.label("receiver had to wait"); if (closes) c.label("closed while the receiver waits");
            return r == 0;
        };
        raft::signal s = (raft::signal)0xdead;
        switch (kind) {
        case POP: { T v = Val<T>::make(0); if (wait([&] { f->pop(v, &s); })) { same(v, 0, "pop"); samesig(s, 0, "pop"); consumed(1); ++rmin; ++rmax; } break; }
        case POP_S: { bool ok = false; wait([&] { { auto h = f->pop_s<T>(); for (auto &p : late) { c.require(Val<T>::eq(*h, p.first), "pop_s returned a wrong value, expected #", p.first); c.require(h.sig() == p.second, "pop_s returned a wrong signal"); } } ok = true; }); if (ok) { consumed(1); ++rmax; } break; }
        case PEEK: { T *r = nullptr; if (wait([&] { r = &f->peek<T>(&s); })) { same(*r, 0, "peek"); samesig(s, 0, "peek"); f->unpeek(); } break; }
        case POP_RANGE: pop_range_vec(n, [&](auto &v) {
            wait([&] { f->pop_range<T>(v, n); }); size_t k = std::min(n, have + send);
            for (size_t i = 0; i < k; i++) { same(v[i].first, i, "pop_range"); samesig(v[i].second, i, "pop_range"); }
            consumed(k); rmin += k; rmax += k; }); break;
        case RECYCLE: { wait([&] { f->recycle(n); }); size_t k = std::min(n, have + send); consumed(k); rmax += k; break; }
        default: if constexpr (inl) wait([&] { auto r = f->peek_range<T>(n); c.require(r.size() == n, "peek_range(", n, ").size() is ", r.size());
            for (size_t i = 0; i < n && given == send; i++) { auto p = r[i]; uint64_t id = i < have ? q[i].id : late[i - have].first; c.require(Val<T>::eq(p.ele, id), "peek_range returned a wrong value at ", i, ", expected #", id); } }); 
        }
    }
    void consumer_op() {
        if (consumer_busy) return;
        if (m.waits && c.chance(m.waits, m.waits + 15)) { c_blocked(); return; }
        switch (c.weighted({m.pop, m.pop_range, m.pop_s, m.peek, m.peek_range, m.recycle})) {
        case 0: c_pop(); break; case 1: c_pop_range(); break; case 2: c_pop_s(); break; case 3: c_peek(); break; case 4: c_peek_range(); break; default: c_recycle();
        }
    }
    // ---- others ---------------------------------------------------------------
    void collect() { if (consumer_busy) return; c.note("collect"); g.collect(); }
    void do_fill() { if (al || closed) return; c.note("fill up from #", next); pbt::NoBlock nb("push on a queue with room"); while (space()) { uint64_t id = next++; raft::signal s = c.chance(1, 4) ? sg() : raft::none; T v = Val<T>::make(id); f->push(v, s); sent(id, s); } check(); }
    void do_empty() { c.note("empty"); while (!q.empty()) { T v = Val<T>::make(0); raft::signal s = raft::none; { pbt::NoBlock nb("pop on a queue with data"); f->pop(v, &s); } same(v, 0, "pop"); samesig(s, 0, "pop"); consumed(1); ++rmin; ++rmax; } check(); }
    void do_stats() {
        Blocked w, r; unsigned how = c.pick(3);
        if (how < 2) {
            f->get_zero_write_stats(w);
            c.note("get_zero_write_stats");
            c.require(w.bec.count == wcount, "write statistics report ", w.bec.count, " elements, ", wcount, " were sent");
            c.require((w.bec.blocked != 0) == blocked_seen, "write statistics report blocked=", w.bec.blocked, blocked_seen ? " although the sender had to wait" : " although the sender never waited");
            Blocked z; f->get_zero_write_stats(z); c.require(z.all == 0, "write statistics were not reset by reading them");
        } else {
            float fr = f->get_frac_write_blocked(); c.note("get_frac_write_blocked");
            float e = blocked_seen && wcount ? 1.0f / (float)wcount : 0.0f;
            if (blocked_seen && wcount) c.require(fr > 0 && fr >= 0.99f * e, "blocked fraction is ", fr, " after a wait and ", wcount, " writes");
            else c.require(fr == 0.0f, "blocked fraction is ", fr, " although nothing was ", wcount ? "blocked" : "written");
            Blocked z; f->get_zero_write_stats(z); c.require(z.all == 0, "write statistics were not reset by reading them");
        }
        wcount = 0; blocked_seen = false;
        if (c.chance(2, 3)) {
            f->get_zero_read_stats(r);
            c.require(r.bec.count >= rmin && r.bec.count <= rmax, "read statistics report ", r.bec.count, " elements, ", rmin, " were popped and ", rmax, " consumed");
            Blocked z; f->get_zero_read_stats(z); c.require(z.all == 0, "read statistics were not reset by reading them");
            rmin = rmax = 0;
        }
        c.label("statistics read");
    }
    void do_resize() {
        if (al || consumer_busy) return;
        size_t n = cap + (size_t)c.size(1, 50); volatile bool stop = false; int y = 0, lim = 20;
        bool possible = !closed && !peekflag && !exceptional && (q.empty() || rp < wp);
        bool abort_first = c.chance(1, 6); if (abort_first) stop = true;
        c.note("resize to ", n, abort_first ? " (application finishing)" : "");
        { pbt::NoBlock nb("resize", 200); pbt::yield_hook = [&] { if (++y >= lim) stop = true; };
          f->resize(n, c.oneof<size_t>({16, 64}), stop); pbt::yield_hook = nullptr; }
        size_t k = f->capacity();
        c.require(k == n || k == cap, "capacity is ", k, " after resizing from ", cap, " to ", n);
        if (k == n) { c.require(!abort_first || true, ""); cap = n; rp %= n; wp = (rp + q.size()) % n; ++resizes; c.label("resized"); if (q.size() > 1) c.label("resized with several elements"); }
        else { c.require(!possible || abort_first, "resize of an idle queue holding ", q.size(), " contiguous elements was not applied"); c.label(closed ? "resize refused: closed" : abort_first ? "resize refused: finishing" : "resize refused: not possible now"); }
        look_all();
    }
    // compare the whole content without consuming
    void look_all() {
        check(); if (q.empty() || consumer_busy) return;
        if constexpr (inl) {
            pbt::NoBlock nb("peek_range"); auto r = f->peek_range<T>(q.size());
            for (size_t i = 0; i < q.size(); i++) { auto p = r[i]; same(p.ele, i, "peek_range of everything"); samesig((raft::signal)p.sig, i, "peek_range of everything"); }
        } else { pbt::NoBlock nb("peek"); raft::signal s; T &r = f->peek<T>(&s); same(r, 0, "peek"); samesig(s, 0, "peek"); f->unpeek(); }
        peekflag = false;
    }
    void step() {
        switch (c.weighted({10, 10, m.resize, m.gc, m.stats, m.fill, m.empty})) {
        case 0: producer_op(); break; case 1: consumer_op(); break; case 2: if (m.resize) do_resize(); break;
        case 3: collect(); break; case 4: if (m.stats) do_stats(); break; case 5: do_fill(); break; default: if (!consumer_busy) do_empty();
        }
        check();
    }
    void drain(bool how) {
        if (al == ONE || al == RANGE) p_release();
        if (m.close && !closed && c.chance(1, 2)) p_close();
        for (;;) {
            while (!q.empty()) { if (how) c_pop(); else consumer_op(); check(); }
            if (al == ONE || al == RANGE) { p_release(); how = true; } else break;
        }
        if (closed) { c_pop(); c_peek(); c_pop_s(); c_recycle(); check(); }
    }
    void run() {
        int n = (int)c.size(1, m.max_ops); check();
        for (int i = 0; i < n; i++) {
            step();
            if (m.full_look && c.chance(1, 5)) { if (al == NONE) look_all(); }
            if (m.close && !closed && al == NONE && c.chance(1, 40)) p_close();
        }
        drain(c.chance(1, 2));
        c.note("drained");
    }
    void finish() { g.collect(); delete f; f = nullptr; }
};

