// P09: one sender, one receiver and a resizer on one queue, every switch of
// control decided by the generated schedule (at memory-access granularity).
#include "fifo.hpp"
#include <thread>

namespace {
struct Op { unsigned kind; size_t n; raft::signal sig; unsigned hold; bool flag; };
enum { PUSH, INSERT, ALLOC, ALLOC_S, ALLOC_RANGE };
enum { POP, POP_RANGE, POP_S, PEEK, PEEK_RANGE, RECYCLE, PEEK_UNPEEK };

template <class T> void conc(pbt::Case &c, bool with_resize) {
    constexpr bool nonclass = inline_nonclass_alloc<T>::value, inl = inline_alloc<T>::value, ext = ext_alloc<T>::value;
    size_t cap = (size_t)c.size(1, 8);
    size_t total = (size_t)c.size(1, 24);
    // a sender waiting for `amax` free slots and a receiver waiting for `pmax`
    // elements can only both proceed when the queue is large enough for both
    size_t amax = (size_t)c.range(1, cap), pmax = cap + 1 - amax;
    std::vector<size_t> sizes; std::ostringstream rs; bool beyond = false;
    if (with_resize) {
        size_t k = cap; for (size_t i = c.range(1, 4); i-- > 0;) { k += (size_t)c.size(1, 12); sizes.push_back(k); rs << " " << k; }
        // an allocation larger than the queue waits for the resizer
        if (c.chance(1, 4)) { beyond = true; amax = (size_t)c.range(cap + 1, k); pmax = 1; }
    }
    c.note("queue<", Val<T>::name(), "> capacity ", cap, ", ", total, " elements");
    std::vector<Op> prod, cons; std::vector<raft::signal> sigs(total, raft::none);
    static const char *pn[] = {"push", "insert", "allocate", "allocate_s", "allocate_range"}, *cn[] = {"pop", "pop_range", "pop_s", "peek", "peek_range", "recycle", "peek+unpeek"};
    std::ostringstream ps, cs;
    for (size_t i = 0; i < total;) {
        Op o; o.kind = (unsigned)c.weighted({4, 2, 3, 2, nonclass ? 3u : 0u}); o.sig = draw_signal(c); o.hold = (unsigned)c.pick(3); o.flag = c.chance(1, 2);
        size_t left = total - i; o.n = 1;
        if (o.kind == INSERT) o.n = (size_t)c.range(1, std::min<size_t>(left, 6));
        if (o.kind == ALLOC_RANGE) o.n = (size_t)c.range(1, std::min(left, amax));
        i += o.n; sigs[i - 1] = o.sig; prod.push_back(o); ps << " " << pn[o.kind] << "(" << o.n << ")";
    }
    bool closes = c.chance(4, 5);
    for (size_t i = 0; i < total;) {
        Op o; o.kind = (unsigned)c.weighted({4, 2, 2, 3, inl ? 3u : 0u, 1, 1}); o.hold = (unsigned)c.pick(3); o.flag = c.chance(1, 2); o.sig = raft::none;
        size_t left = total - i; o.n = 1;
        if (o.kind == POP_RANGE || o.kind == RECYCLE) o.n = (size_t)c.range(1, std::min<size_t>(left, 6));
        if (o.kind == PEEK_RANGE) o.n = (size_t)c.range(1, std::min(left, pmax));
        if (o.kind == PEEK && beyond) o.flag = true; // a peek that is never released keeps the queue from being resized
        if (o.kind != PEEK_UNPEEK) i += o.n; cons.push_back(o); cs << " " << cn[o.kind] << "(" << o.n << ")";
    }
    unsigned monitors = (unsigned)c.pick(3);
    c.note("sender:", ps.str(), closes ? " close" : ""); c.note("receiver:", cs.str()); if (with_resize) c.note("resizer:", rs.str());
    auto plan = sched::draw(c); plan.max_steps = 3000000; plan.max_switches = 120000;
    long switches = 0; int resized = 0;
    Ledger::get().reset();
    sched::run(c, plan, [&] {
        Collector pg, cg; FIFO *f = make_fifo<T>(cap); pg.producer(f); cg.consumer(f);
        volatile bool stop = false;
        volatile size_t sent = 0, sending = 0, got = 0, getting = 0; // by calls that returned / that were begun
        auto minus = [](size_t a, size_t b) { return a > b ? a - b : 0; };
        auto occupancy = [&](const char *who, size_t lo, size_t s, size_t hi) { if (s < lo || s > hi) { std::ostringstream o; o << "size() told the " << who << " " << s << " while the queue held at least " << lo << " and at most " << hi << " elements"; pbt::die_failing(o.str()); } };
        auto hold = [](unsigned n) { while (n--) sched::point(); };
        std::thread producer([&] {
            uint64_t id = 1;
            for (auto &o : prod) {
                sending = sending + o.n;
                switch (o.kind) {
                case PUSH: { T v = Val<T>::make(id++); if (o.sig == raft::none && o.flag) f->push(v); else f->push(v, o.sig); break; }
                case INSERT: if (o.flag) { std::list<T> l; for (size_t i = 0; i < o.n; i++) l.push_back(Val<T>::make(id++)); f->insert(l.begin(), l.end(), o.sig); }
                             else { std::vector<T> l; l.reserve(o.n); for (size_t i = 0; i < o.n; i++) l.push_back(Val<T>::make(id++)); f->insert(l.begin(), l.end(), o.sig); } break;
                case ALLOC: { T &r = f->allocate<T>(); hold(o.hold); r = Val<T>::make(id++); hold(o.hold); f->send(o.sig); break; }
                case ALLOC_S: { auto h = f->allocate_s<T>(); *h = Val<T>::make(id++); hold(o.hold); h.sig() = o.sig; break; }
                default: if constexpr (nonclass) { auto r = f->allocate_range<T>(o.n); hold(o.hold); for (auto &e : r) e.get() = Val<T>::make(id++); hold(o.hold); f->send_range(o.sig); }
                }
                sent = sending;
                { size_t hi = sent - got, s = f->size(), lo = minus(sent, getting); occupancy("sender", lo, s, hi); }
                if (f->space_avail() > f->capacity()) pbt::die_failing("space_avail() exceeds capacity()");
                if (!with_resize) { size_t lo = minus(cap, sent - got), a = f->space_avail(), hi = cap - (minus(sent, getting)); if (a < lo || a > hi) { std::ostringstream o; o << "space_avail() told the sender " << a << " while at least " << lo << " and at most " << hi << " positions were free"; pbt::die_failing(o.str()); } }
            }
            if (closes) f->invalidate();
        });
        std::thread consumer([&] {
            uint64_t next = 1;
            auto same = [&](const T &v, uint64_t id, const char *how) { if (!Val<T>::eq(v, id)) { std::ostringstream o; o << how << " delivered a wrong element where #" << id << " was expected"; pbt::die_failing(o.str()); } };
            auto samesig = [&](raft::signal s, uint64_t id, const char *how) { if (s != sigs[id - 1]) { std::ostringstream o; o << how << " delivered signal " << (uint32_t)s << " with #" << id << ", sent with " << (uint32_t)sigs[id - 1]; pbt::die_failing(o.str()); } };
            auto threw = [&](std::exception &e, const char *how) { pbt::die_failing(std::string(how) + " raised an exception with undelivered elements: " + e.what()); };
            for (auto &o : cons) {
                const char *how = cn[o.kind];
                if (o.kind != PEEK_UNPEEK) getting = getting + o.n;
                try {
                    switch (o.kind) {
                    case POP: { T v = Val<T>::make(0); raft::signal s; f->pop(v, &s); same(v, next, how); samesig(s, next, how); next++; break; }
                    case POP_RANGE: { std::vector<std::pair<T, raft::signal>> v; v.reserve(o.n); for (size_t i = 0; i < o.n; i++) v.emplace_back(Val<T>::make(0), raft::none); f->pop_range<T>(v, o.n); for (auto &p : v) { same(p.first, next, how); samesig(p.second, next, how); next++; } break; }
                    case POP_S: { auto h = f->pop_s<T>(); hold(o.hold); same(*h, next, how); samesig(h.sig(), next, how); hold(o.hold); same(*h, next, how); next++; break; }
                    case PEEK: { raft::signal s; T &r = f->peek<T>(&s); hold(o.hold); same(r, next, how); samesig(s, next, how); if (o.flag) f->unpeek(); f->recycle(); next++; break; }
                    case PEEK_UNPEEK: { raft::signal s; T &r = f->peek<T>(&s); hold(o.hold); same(r, next, how); samesig(s, next, how); f->unpeek(); break; }
                    case PEEK_RANGE: if constexpr (inl) { { auto r = f->peek_range<T>(o.n); hold(o.hold); for (size_t i = 0; i < o.n; i++) { auto p = r[i]; same(p.ele, next + i, how); samesig((raft::signal)p.sig, next + i, how); } } f->recycle(o.n); next += o.n; } break;
                    default: f->recycle(o.n); next += o.n;
                    }
                } catch (std::exception &e) { threw(e, how); }
                got = getting;
                { size_t lo = minus(sent, got), s = f->size(), hi = sending - got; occupancy("receiver", lo, s, hi); }
                if (ext && o.flag) cg.collect();
            }
            if (closes) {
                T v = Val<T>::make(0); bool ok = false;
                try { f->pop(v); } catch (ClosedPortAccessException &) { ok = true; }
                if (!ok) pbt::die_failing("pop returned an element that was never sent");
            }
        });
        std::optional<std::thread> resizer;
        if (with_resize) resizer.emplace([&] {
            for (size_t n : sizes) {
                if (stop) break;
                for (unsigned i = 0; i < monitors; i++) { (void)f->get_frac_write_blocked(); (void)f->size(); (void)f->get_suggested_count(); sched::point(); }
                size_t before = f->capacity(); f->resize(n, 16, stop); size_t after = f->capacity();
                if (after != before && after != n) pbt::die_failing("capacity after a resize is neither the old nor the requested one");
                if (after == n) ++resized;
            }
        });
        producer.join(); consumer.join(); stop = true; if (resizer) resizer->join();
        if (f->size() != 0) pbt::die_failing("queue not empty after everything was received");
        cg.collect(); delete f;
        switches = sched::switches();
    });
    c.require(Ledger::get().live.empty(), Ledger::get().live.size(), " objects still alive after everything was received");
    if (resized) c.label("resized while in use"); if (resized > 1) c.label("resized more than once");
    if (beyond) c.label("allocate_range may exceed the initial capacity"); if (closes) c.label("closed"); if (total > cap) c.label("more elements than capacity");
    if (switches > 6 && total > 1 && (!with_resize || resized)) c.nontrivial();
}
using CT = TypeList<int32_t, std::string, Tracked<24>, Tracked<72>, uint64_t>;
}
PROP(P09, conc_stream, 24000, 600000, "sender and receiver threads with generated scripts of all calls, schedule generated (random slices or bounded preemptions, switch points at every memory access); non-trivial: more than 6 context switches and more than one element") {
    any_type(c, CT{}, [](pbt::Case &c, auto *tp) { conc<std::remove_pointer_t<decltype(tp)>>(c, false); });
}
PROP(P09, conc_resize, 40000, 1000000, "as conc_stream with a third thread resizing the queue up to four times; non-trivial: at least one resize took effect") {
    any_type(c, CT{}, [](pbt::Case &c, auto *tp) { conc<std::remove_pointer_t<decltype(tp)>>(c, true); });
}
