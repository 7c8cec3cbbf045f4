// P16: split and join kernels between generated sources, maps and sinks, run by
// the real scheduler with every switch of control drawn by the case.
#include "pipe.hpp"
#include <deque>
using pipe::Cod;
namespace {
struct El { uint64_t v; raft::signal s; bool operator==(const El &o) const { return v == o.v && s == o.s; } };
uint64_t fn(uint64_t v) { return v ^ 0x155; }
template <class T> struct Feed : raft::kernel { IN_ARENA
    std::vector<El> e; size_t at = 0, batch; int api, lazy; bool laststop;
    Feed(std::vector<El> e, size_t batch, int api, int lazy, bool laststop) : e(std::move(e)), batch(batch), api(api), lazy(lazy), laststop(laststop) { output.template addPort<T>("0"); }
    raft::kstatus run() override {
        for (int i = 0; i < lazy; i++) sched::point();
        auto &o = output["0"];
        for (size_t k = 0; k < batch && at < e.size(); k++, at++) {
            if (api == 1) { auto a = o.template allocate_s<T>(); *a = Cod<T>::enc(e[at].v); a.sig() = e[at].s; }
            else if (api == 2) { T &r = o.template allocate<T>(); r = Cod<T>::enc(e[at].v); o.send(e[at].s); }
            else { T t = Cod<T>::enc(e[at].v); o.template push<T>(t, e[at].s); }
        }
        if (laststop && at == e.size()) return raft::stop;
        if (at == e.size()) { return raft::stop; }
        return raft::proceed;
    }
};
// passes on what it gets, and records it
template <class T> struct Relay : raft::kernel { IN_ARENA
    std::vector<El> *log; int api, lazy; bool has_out; std::vector<std::unique_ptr<std::vector<El>>> *logs;
    Relay(std::vector<El> *log, int api, int lazy, bool has_out, std::vector<std::unique_ptr<std::vector<El>>> *logs = nullptr) : log(log), api(api), lazy(lazy), has_out(has_out), logs(logs) {
        input.template addPort<T>("0"); if (has_out) output.template addPort<T>("0");
    }
    Relay(const Relay &o) : Relay(nullptr, o.api, o.lazy, o.has_out, o.logs) { logs->push_back(std::make_unique<std::vector<El>>()); log = logs->back().get(); }
    raft::kernel *clone() override { return new Relay<T>(*this); }
    raft::kstatus run() override {
        for (int i = 0; i < lazy; i++) sched::point();
        auto &f = input["0"]; El x;
        if (api == 1) { auto p = f.template pop_s<T>(); x = {Cod<T>::dec(*p), p.sig()}; }
        else if (api == 2) { raft::signal s; T &r = f.template peek<T>(&s); x = {Cod<T>::dec(r), s}; f.unpeek(); f.recycle(); }
        else { T t = Cod<T>::enc(0); raft::signal s; f.template pop<T>(t, &s); x = {Cod<T>::dec(t), s}; }
        { sched::NoSwitch ns; log->push_back(x); }
        if (has_out) { auto &o = output["0"]; T t = Cod<T>::enc(fn(x.v)); o.template push<T>(t, x.s); }
        return raft::proceed;
    }
};
std::string text(const std::vector<El> &v) { std::ostringstream o; for (size_t i = 0; i < v.size() && i < 40; i++) o << " " << v[i].v << (v[i].s ? "*" : ""); return o.str(); }
// `got` must consist of every element of the ordered streams, each stream in order (elements are distinct)
void interleaving(pbt::Case &c, const std::vector<std::vector<El>> &streams, const std::vector<El> &got, const char *where) {
    std::map<uint64_t, std::pair<size_t, size_t>> pos; size_t total = 0;
    for (size_t s = 0; s < streams.size(); s++) for (size_t i = 0; i < streams[s].size(); i++, total++) pos[streams[s][i].v] = {s, i};
    std::vector<size_t> next(streams.size());
    for (auto &e : got) {
        auto it = pos.find(e.v); if (it == pos.end()) c.fail(std::string(where) + ": delivered an element never sent:" + text(got));
        size_t s = it->second.first, i = it->second.second;
        if (i < next[s]) c.fail(std::string(where) + ": element " + std::to_string(e.v) + " was delivered twice or out of order:" + text(got));
        if (i > next[s]) c.fail(std::string(where) + ": element " + std::to_string(streams[s][next[s]].v) + " is missing before " + std::to_string(e.v) + ":" + text(got));
        if (streams[s][i].s != e.s) c.fail(std::string(where) + ": element " + std::to_string(e.v) + " arrived with signal " + std::to_string((uint32_t)e.s) + ", sent with " + std::to_string((uint32_t)streams[s][i].s));
        ++next[s];
    }
    for (size_t s = 0; s < streams.size(); s++) if (next[s] != streams[s].size()) c.fail(std::string(where) + ": " + std::to_string(streams[s].size() - next[s]) + " elements were never delivered, the first is " + std::to_string(streams[s][next[s]].v));
}
// the branches must be a partition of the stream, each in its order
void partition(pbt::Case &c, const std::vector<El> &stream, const std::vector<std::vector<El>> &branches, const char *where) {
    std::map<uint64_t, size_t> pos; for (size_t i = 0; i < stream.size(); i++) pos[stream[i].v] = i;
    std::vector<bool> seen(stream.size()); 
    for (auto &b : branches) { size_t last = 0; bool first = true; for (auto &e : b) {
        auto it = pos.find(e.v); if (it == pos.end()) c.fail(std::string(where) + ": a branch received an element never sent:" + text(b));
        size_t i = it->second; if (seen[i]) c.fail(std::string(where) + ": element " + std::to_string(e.v) + " was delivered twice");
        seen[i] = true; if (!first && i < last) c.fail(std::string(where) + ": a branch received its elements out of order:" + text(b));
        if (stream[i].s != e.s) c.fail(std::string(where) + ": element " + std::to_string(e.v) + " arrived with signal " + std::to_string((uint32_t)e.s) + ", sent with " + std::to_string((uint32_t)stream[i].s));
        last = i; first = false;
    } }
    for (size_t i = 0; i < seen.size(); i++) if (!seen[i]) c.fail(std::string(where) + ": element " + std::to_string(stream[i].v) + " (number " + std::to_string(i) + " of " + std::to_string(stream.size()) + ") was lost");
}
struct Shape { bool split, join, maps; };
template <class T> void go(pbt::Case &c, Shape sh) {
    constexpr bool can_split = inline_alloc<T>::value;
    if (!can_split) sh.split = false; if (!sh.split && !sh.join) sh.join = true;
    size_t k = (size_t)c.range(1, 4); bool dyn = c.chance(1, 4), expr = sh.split && sh.join && sh.maps && c.chance(1, 3);
    auto api = [&] { return (int)c.pick(3); }; auto lazy = [&] { return c.chance(1, 3) ? (int)c.range(1, 20) : 0; }; auto sz = [&]() -> size_t { return c.chance(3, 4) ? (size_t)c.size(1, 6) : 0; };
    uint64_t id = 1; auto stream = [&] { std::vector<El> v; for (size_t n = (size_t)c.size(1, 40); n-- > 0;) { v.push_back({id, id % 3 ? raft::none : (raft::signal)(uint32_t)(0x1000 + id)}); ++id; } return v; };
    c.note(Val<T>::name(), sh.split ? " split" : "", sh.maps ? " maps" : "", sh.join ? " join" : "", " branches ", k, expr ? " by expression" : "", dyn ? " dynalloc" : "");
    std::vector<std::vector<El>> fed; std::vector<std::unique_ptr<raft::kernel>> own; std::vector<raft::kernel *> feeds;
    size_t nf = sh.split ? 1 : k, ns = sh.join ? 1 : k;
    for (size_t i = 0; i < nf; i++) { fed.push_back(stream()); c.note("source ", i, ": ", fed[i].size(), " elements"); own.push_back(std::make_unique<Feed<T>>(fed[i], (size_t)c.range(1, 5), api(), lazy(), true)); feeds.push_back(own.back().get()); }
    std::vector<std::vector<El>> sunk(ns), through(k); std::vector<raft::kernel *> sinks, maps;
    for (size_t i = 0; i < ns; i++) { own.push_back(std::make_unique<Relay<T>>(&sunk[i], api(), lazy(), false)); sinks.push_back(own.back().get()); }
    std::vector<std::unique_ptr<std::vector<El>>> cloned;
    if (sh.maps) for (size_t i = 0; i < (expr ? 1 : k); i++) { own.push_back(std::make_unique<Relay<T>>(&through[i], api(), lazy(), true, &cloned)); maps.push_back(own.back().get()); }
    size_t built = c.chance(1, 2) ? k : (size_t)c.pick(k + 1);   // the rest by addPort
    raft::kernel *sp = nullptr, *jo = nullptr;
    if constexpr (can_split) if (sh.split) { auto x = std::make_unique<Placed<raft::split<T>>>(built); for (size_t i = built; i < k; i++) c.require(x->addPort() == i, "addPort() of split returned a wrong number"); sp = x.get(); own.push_back(std::move(x)); }
    if (sh.join) { auto x = std::make_unique<Placed<raft::join<T>>>(built); for (size_t i = built; i < k; i++) c.require(x->addPort() == i, "addPort() of join returned a wrong number"); jo = x.get(); own.push_back(std::move(x)); }
    {
        raft::map m; auto name = [](size_t i) { return std::to_string(i); };
        if (expr) { m += *feeds[0] >> *sp; m += *sp <= *maps[0] >= *jo >> *sinks[0]; }
        else {
            if (sp) m.link(feeds[0], "0", sp, "0", sz());
            for (size_t i = 0; i < k; i++) {
                raft::kernel *a = sp ? sp : feeds[i]; std::string ap = sp ? name(i) : "0";
                if (sh.maps) { m.link(a, ap, maps[i], "0", sz()); a = maps[i]; ap = "0"; }
                if (jo) m.link(a, ap, jo, name(i), sz()); else m.link(a, ap, sinks[i], "0", sz());
            }
            if (jo) m.link(jo, "0", sinks[0], "0", sz());
        }
        auto plan = sched::draw(c); plan.max_steps = 40000000; plan.max_switches = 800000;
        sched::run(c, plan, [&] {
            if (dyn) m.exe<partition_dummy, simple_schedule, dynalloc, no_parallel>(); else m.exe<partition_dummy, simple_schedule, stdalloc, no_parallel>();
            pipe::settle();
        });
    }
    for (size_t i = 0; i < cloned.size(); i++) through.at(i + 1) = *cloned[i];
    auto mapped = [&](std::vector<std::vector<El>> v) { for (auto &s : v) for (auto &e : s) e.v = fn(e.v); return v; };
    if (sp && sh.maps) partition(c, fed[0], through, "split");
    if (!sp && sh.maps) for (size_t i = 0; i < k; i++) c.require(through[i] == fed[i], "map ", i, " did not receive what its source sent");
    if (jo) {
        if (sh.maps) interleaving(c, mapped(through), sunk[0], "join");
        else if (sp) interleaving(c, {}, {}, ""), partition(c, fed[0], [&] { auto v = sunk[0]; std::sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.v < b.v; }); return std::vector<std::vector<El>>{v}; }(), "split and join");
        else interleaving(c, fed, sunk[0], "join");
    } else if (sh.maps) { auto e = mapped(through); for (size_t i = 0; i < k; i++) c.require(sunk[i] == e[i], "sink ", i, " did not receive what its map sent"); }
    else partition(c, fed[0], sunk, "split");
    size_t el = 0; for (auto &f : fed) el += f.size(); size_t used = 0;
    for (auto &b : sh.maps ? through : sunk) used += !b.empty();
    if (used > 1) c.label("several branches used"); if (k > 1 && el > 5 && (used > 1 || !sp || (jo && !sh.maps))) c.nontrivial();
}
template <class... Ts> void by_type(pbt::Case &c, Shape s) { size_t t = c.pick(sizeof...(Ts)), i = 0; ((i++ == t ? go<Ts>(c, s) : void()), ...); }
void warm(pbt::Case &c) { Arena::reset(c); static bool w = false; if (w) return; w = true; Ledger::get(); }
}
PROP(P16, split_kernel, 6000, 200000, "one source of up to 40 elements with signals, a split over 1 to 4 branches with or without maps, queues of 1..6 or default size, slow and fast consumers, generated schedules; non-trivial: several branches used and more than five elements") {
    warm(c); Ledger::get().reset(); by_type<int32_t, uint64_t, double, std::string, Tracked<24>>(c, {true, false, c.chance(1, 2)});
}
PROP(P16, join_kernel, 6000, 200000, "1 to 4 sources into a join, as above; also for externally stored types; non-trivial: several sources and more than five elements") {
    warm(c); Ledger::get().reset(); by_type<int32_t, uint64_t, double, std::string, Tracked<24>, Tracked<72>, Pod<100>>(c, {false, true, c.chance(1, 3)});
}
PROP(P16, split_and_join, 6000, 200000, "a split, 1 to 4 maps (own kernels, or clones made by <= and >=) or none, and a join; non-trivial: several branches and more than five elements") {
    warm(c); Ledger::get().reset(); by_type<int32_t, uint64_t, double, std::string, Tracked<24>>(c, {true, true, c.chance(3, 4)});
}

// Splits and joins fired one after another by this thread, several at a time,
// torn down and made again where others lay.
namespace {
template <class T, class = void> struct Mover { static bool can() { return false; } struct K : raft::kernel { raft::kstatus run() override { return raft::stop; } }; };
template <class T> struct Mover<T, std::enable_if_t<std::is_fundamental<T>::value>> {
    static bool can() { return true; }
    struct K : raft::kernel, roundrobin {   // hands on single elements by itself
        K() { input.addPort<T>("0"); }
        raft::kstatus run() override { T t; raft::signal s; input["0"].template pop<T>(t, &s); ok = send(t, s, output); return raft::proceed; }
        bool ok = true;
    };
};
template <class T> void in_turn(pbt::Case &c) {
    constexpr bool can_split = inline_alloc<T>::value; enum { SPLIT, JOIN, MOVER };
    struct Q { std::unique_ptr<FIFO> f; Collector g; size_t cap; std::deque<uint64_t> sent; size_t held = 0; uint64_t last = 0; };
    struct Unit { raft::kernel *k = nullptr; int kind = 0, no = 0; std::vector<std::unique_ptr<Q>> in, out; std::map<uint64_t, size_t> flight; Collector g; };
    constexpr size_t SLOT = 4096; static_assert(sizeof(raft::split<T>) < SLOT && sizeof(raft::join<T>) < SLOT, "");
    alignas(64) static char mem[3][SLOT]; Unit u[3]; uint64_t id = 1; int made = 0, again = 0, busy = 0; long moved = 0; std::vector<std::unique_ptr<Q>> gone; bool was[3] = {};
    auto sig = [](uint64_t v) { return v % 3 ? raft::none : (raft::signal)(uint32_t)(0x1000 + v); };
    auto fresh = [&](Unit &x) { auto q = std::make_unique<Q>(); q->cap = (size_t)c.range(1, 6); q->f.reset(RingBuffer<T, Type::Heap, false>::make_new_fifo(q->cap, 16, nullptr)); (void)x; return q; };
    auto who = [&](Unit &x) { return std::string(x.kind == SPLIT ? "split " : x.kind == JOIN ? "join " : "mover ") + std::to_string(x.no); };
    auto take = [&](Unit &x, size_t o) {
        Q &q = *x.out[o]; T t = Cod<T>::enc(0); raft::signal s; q.f->template pop<T>(t, &s); --q.held; uint64_t v = Cod<T>::dec(t); auto it = x.flight.find(v);
        c.require(it != x.flight.end(), who(x), ": output ", o, " delivers ", v, ", which is not on its way through it"); c.require(s == sig(v), who(x), ": element ", v, " arrives with signal ", (uint32_t)s, ", sent with ", (uint32_t)sig(v));
        if (x.kind != JOIN) { c.require(v > q.last, who(x), ": output ", o, " delivers ", v, " after ", q.last); q.last = v; }
        else { auto &f = x.in[it->second]->sent; c.require(f.size() && f.front() == v, who(x), ": ", v, " is delivered before ", f.empty() ? 0 : f.front(), " of the same input"); f.pop_front(); }
        x.flight.erase(it);
    };
    auto drain = [&](Unit &x) { for (size_t o = 0; o < x.out.size(); o++) while (x.out[o]->held) take(x, o); };
    auto down = [&](int i) {
        Unit &x = u[i]; if (!x.k) return; c.note("end of ", who(x));
        drain(x); for (auto &q : x.in) while (q->held) { T t = Cod<T>::enc(0); q->f->template pop<T>(t); --q->held; uint64_t v = Cod<T>::dec(t); c.require(x.flight.erase(v), who(x), " lost an element of its input"); }
        c.require(x.flight.empty(), who(x), ": ", x.flight.size(), " elements were never delivered, the first is ", x.flight.empty() ? 0 : x.flight.begin()->first);
        x.k->~kernel(); x.k = nullptr; bool keep = c.chance(1, 2); for (auto *v : {&x.in, &x.out}) { for (auto &q : *v) if (keep) gone.push_back(std::move(q)); v->clear(); }
    };
    auto up = [&](int i) {
        Unit &x = u[i]; size_t k = (size_t)c.range(1, 4), built = c.chance(1, 2) ? k : (size_t)c.pick(k + 1); x.no = made++; if (was[i]) ++again; was[i] = true;
        x.kind = can_split ? (int)c.pick(Mover<T>::can() ? 3 : 2) : JOIN; x.flight.clear(); auto nm = [](size_t n) { return std::to_string(n); };
        if constexpr (can_split) if (x.kind == SPLIT) { auto *p = ::new (mem[i]) raft::split<T>(built); for (size_t n = built; n < k; n++) p->addPort(); x.k = p; }
        if (x.kind == JOIN) { auto *p = ::new (mem[i]) raft::join<T>(built); for (size_t n = built; n < k; n++) p->addPort(); x.k = p; }
        if (x.kind == MOVER) { auto *p = ::new (mem[i]) typename Mover<T>::K; x.k = p; for (size_t n = 0; n < k; n++) p->output.template addPort<T>(nm(n)); }
        c.note(who(x), " made in place ", i, " with ", k, " branches");
        x.g = Collector();
        for (size_t n = 0; n < (x.kind == JOIN ? k : 1); n++) { x.in.push_back(fresh(x)); PortAccess::info(x.k->input, nm(n)).setFIFO(x.in.back()->f.get()); x.g.consumer(x.in.back()->f.get()); x.in.back()->g.producer(x.in.back()->f.get()); }
        for (size_t n = 0; n < (x.kind == JOIN ? 1 : k); n++) { x.out.push_back(fresh(x)); PortAccess::info(x.k->output, nm(n)).setFIFO(x.out.back()->f.get()); x.g.producer(x.out.back()->f.get()); x.out.back()->g.consumer(x.out.back()->f.get()); }
    };
    auto fire = [&](Unit &x) {
        size_t have = 0, room = 0, before = 0; for (auto &q : x.in) have += q->held; for (auto &q : x.out) room += q->cap - q->held, before += q->held;
        if (!have || !room) return; { pbt::NoBlock nb("firing a kernel that has elements and room for them", 200, 2000000); x.k->run(); } x.g.collect();
        size_t left = 0, after = 0; for (auto &q : x.in) { c.require(q->f->size() <= q->held, who(x), ": input grew when the kernel was fired"); q->held = q->f->size(); left += q->held; } for (auto &q : x.out) { c.require(q->f->size() >= q->held, who(x), ": an output shrank when the kernel was fired"); q->held = q->f->size(); after += q->held; }
        c.note(who(x), " fired, ", have - left, " elements taken, ", after - before, " delivered"); c.require(have - left == after - before, who(x), ": took ", have - left, " elements and delivered ", after - before); c.require(have > left, who(x), ": was fired with elements and room and moved none"); moved += have - left;
        for (auto &y : u) if (&y != &x && y.k) for (auto *v : {&y.in, &y.out}) for (auto &q : *v) c.require(q->f->size() == q->held, who(y), ": a queue of it changed when ", who(x), " was fired");
        for (auto &q : gone) c.require(q->f->size() == 0, "a queue of a kernel that is gone received elements when ", who(x), " was fired");
        for (auto &y : u) if (y.k && &y != &x && y.flight.size()) { ++busy; break; }
    };
    for (int step = (int)c.range(3, 60); step-- > 0;) {
        int i = (int)c.pick(3); Unit &x = u[i];
        switch (x.k ? c.weighted({2, 6, 6, 3}) : 0) {
        case 0: if (x.k) { if (c.chance(1, 2)) break; down(i); } up(i); break;
        case 1: { size_t p = c.pick(x.in.size()); Q &q = *x.in[p]; for (int n = (int)c.range(1, 4); n-- > 0 && q.held < q.cap; ++id, ++q.held) { T t = Cod<T>::enc(id); q.f->template push<T>(t, sig(id)); q.g.collect(); x.flight[id] = p; if (x.kind == JOIN) q.sent.push_back(id); c.note(who(x), " input ", p, " gets ", id); } break; }
        case 2: fire(x); break;
        default: { size_t o = c.pick(x.out.size()); for (int n = (int)c.range(1, 4); n-- > 0 && x.out[o]->held;) { take(x, o); x.out[o]->g.collect(); } } }
    }
    for (int i = 0; i < 3; i++) down(i);
    if (again) c.label("made where another one lay"); if (busy) c.label("several in use"); if (moved > 3 && (again || busy)) c.nontrivial();
}
template <class... Ts> void turn_by_type(pbt::Case &c) { size_t t = c.pick(sizeof...(Ts)), i = 0; ((i++ == t ? in_turn<Ts>(c) : void()), ...); }
}
PROP(P16, in_turn, 15000, 600000, "up to three splits, joins and kernels sending through the same method, fired one after another by one thread, torn down and made again at the same place; non-trivial: elements were moved while another one held some, or by one made where another one lay") {
    warm(c); Ledger::get().reset(); turn_by_type<int32_t, uint64_t, double, std::string, Tracked<24>, Tracked<72>>(c);
}
