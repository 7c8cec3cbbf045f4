// P14, P15, P18, P24, P10: generated graphs run by the real scheduler and
// allocators, every switch of control between their threads drawn by the case.
#include "pipego.hpp"
#include <unordered_set>
PROP(P14, pipelines, 12000, 400000, "random acyclic graphs of 2 to 10 kernels (sources, maps, zips, parallel maps, sinks) over seven element types, every port call, buffer sizes 1..9 or default, both allocators, run under a generated schedule; every sink stream compared with sequential evaluation; non-trivial: at least three links, ten elements and a transforming kernel") {
    Graph g(c); g.k.values = true; g.ask_pct = 4; go(c, g, 30); bool mid = false; for (auto &x : g.n) mid |= x.kind != SRC && x.kind != SINK; if (g.l.size() >= 3 && elements(g) >= 10 && mid) c.nontrivial();
}
PROP(P15, life_cycle, 12000, 400000, "as P14 with short and empty streams and kernels that stop themselves; every run() logged; exe() must return with everything consumed; non-trivial: at least two links and one element") {
    Graph g(c); g.k.life = true; g.max_len = 12; g.ask_pct = 4; go(c, g, 30); if (g.l.size() >= 2 && elements(g) >= 1) c.nontrivial();
}
PROP(P18, firing_rule, 12000, 400000, "as P14 with any-port and all-ports kernels; the state of every input port looked at on entry to every run(), and every element must have been consumed at the end; non-trivial: a kernel with several inputs and at least five elements") {
    Graph g(c); g.k.fire = true; g.k.life = true; go(c, g, 20); bool multi = false; for (auto &x : g.n) multi |= x.in.size() > 1; if (multi && elements(g) >= 5) c.nontrivial();
}
PROP(P24, sizes_running, 2000, 60000, "graphs with sources faster than their consumers; capacity of every port compared on entry to every run() with the size requested; non-trivial: both sized and unsized links") {
    Graph g(c); g.k.size = true; g.ask_pct = 30; g.fixed_pct = 40; g.lazy_pct = 50; g.max_nodes = 5; g.fixed_len = (size_t)c.oneof<int>({5, 40, 90, 150}); go(c, g, 75);
    bool a = false, b = false; for (auto &l : g.l) (l.fixed ? a : b) = true; if (a && b) c.nontrivial();
}
PROP(P10, forwarding_pipelines, 6000, 200000, "pipelines over externally stored types in which most kernels forward the object they peeked, under generated schedules; received addresses, values and the set of live objects checked; non-trivial: a forwarding kernel that forwarded at least three objects") {
    Graph g(c); g.k.ledger = g.k.values = true; g.forwards = true; g.types = {4, 5}; go(c, g, 30); for (auto &x : g.n) if (x.fwd && g.l[x.in[0]].want.size() >= 3) c.nontrivial();
}
PROP(P35, placement, 6000, 200000, "graphs as in P14 whose kernels have been placed by the caller, by the basic partitioner or by a partitioner of the case, some not at all; the core the firing thread asked to be bound to compared with the kernel's on entry to every run(); non-trivial: two kernels placed on different cores and one that is not, or the basic partitioner") {
    Graph g(c); g.k.place = g.k.values = true; g.max_len = 12; go(c, g, 30); if (g.placed_mixed) c.nontrivial();
}
PROP(P37, side_by_side, 5000, 150000, "two or three graphs as in P14 executed by one thread each at the same time, or built and executed one after another by one thread, under a generated schedule; every sink stream compared with sequential evaluation, every element consumed, numbers of all kernels different; non-trivial: at the same time, each with at least two links and an element") {
    warm(); Arena::reset(c); Ledger::get().reset(); bool together = c.chance(4, 5); int k = (int)c.range(2, 3); std::deque<Graph> g; size_t load = 0; bool ok = together;
    for (int i = 0; i < k; i++) {
        g.emplace_back(c); auto &x = g.back(); c.note("map ", i); x.k.life = x.k.values = true; x.max_nodes = 6; x.max_len = 12; x.dyn = c.chance(1, 2); x.part = c.chance(1, 4); x.monitor = c.chance(1, 4); x.generate(); size_t e = elements(x); load += e; ok &= e > 0 && x.l.size() > 1;
        c.note(x.dyn ? "dynalloc" : "stdalloc", x.part ? ", basic partitioner" : "", x.monitor ? ", parallelism monitor" : "");
    }
    c.note(together ? "at the same time" : "one after another"); auto plan = sched::draw(c); plan.max_steps = 80000000; plan.max_switches = 1200000 + (long)load * 2000; if (load > 100 && plan.random && plan.mean < 40) plan.mean = 40;
    {
        std::deque<std::unique_ptr<Real>> r(k); auto make = [&](int i) { r[i] = std::make_unique<Real>(g[i]); }; auto one = [&](int i) { if (!r[i]) make(i); r[i]->exe(); };
        if (together) for (int i = 0; i < k; i++) make(i);   // kernels are made by one thread only (kernel.hpp)
        sched::run(c, plan, [&] { if (together) { std::vector<std::thread> t; for (int i = 0; i < k; i++) t.emplace_back(one, i); for (auto &x : t) x.join(); } else for (int i = 0; i < k; i++) one(i); settle(); });
        std::set<size_t> ids; for (auto &x : r) for (auto *q : x->k) c.require(ids.insert(q->get_id()).second, "two kernels have the same number ", q->get_id());
        for (int i = 0; i < k; i++) took(c, g[i]);
    }
    c.require(Ledger::get().live.empty(), Ledger::get().live.size(), " objects still alive after the maps ended"); if (ok) c.nontrivial();
}
namespace { struct Bare : raft::kernel { raft::kstatus run() override { return raft::stop; } }; struct Over : raft::kernel { char m[4]; Over() : raft::kernel(m, sizeof m) {} raft::kstatus run() override { return raft::stop; } }; }
PROP(P37, numbers, 8, 60, "up to 100000 kernels made in one process, some over memory of their own, up to 70000 of them alive at once and the others destroyed in generated order; no two that are alive may have the same number; non-trivial: more than 65536 made") {
    size_t n = c.chance(1, 4) ? (size_t)c.range(1000, 60000) : (size_t)c.range(66000, 100000), keep = (size_t)c.range(1, 70000); unsigned drop = (unsigned)c.pick(4); uint64_t x = c.pick(1 << 20) | 1; c.note(n, " kernels, up to ", keep, " at once");
    std::vector<std::unique_ptr<raft::kernel>> k; std::unordered_set<size_t> ids; size_t most = 0;
    for (size_t i = 0; i < n; i++) {
        x = x * 6364136223846793005ull + 1442695040888963407ull; size_t r = x >> 33;
        while (!k.empty() && (k.size() >= keep || r % 64 < drop)) { size_t j = r % k.size(); ids.erase(k[j]->get_id()); std::swap(k[j], k.back()); k.pop_back(); r |= 63; }
        k.emplace_back(i % 7 ? (raft::kernel *)new Bare : new Over); c.require(ids.insert(k.back()->get_id()).second, "two of ", k.size(), " kernels alive have the number ", k.back()->get_id()); most = std::max(most, k.size());
    }
    if (n > 65536) c.nontrivial(); if (most > 65536) c.label("more than 65536 alive");
}
// kernels handed to a running scheduler
namespace {
struct Adding : simple_schedule { static Adding *&cur() { static Adding *a = nullptr; return a; } explicit Adding(raft::map &m) : simple_schedule(m) { cur() = this; } };
struct Lone : raft::kernel { IN_ARENA
    int n, at, fired = 0; bool inside = false; std::vector<Lone *> adds; Lone(int n, int at) : n(n), at(at) {}
    raft::kstatus run() override {
        if (inside || fired == n) pbt::die_failing(inside ? "a kernel is fired while it still runs" : "a kernel that has stopped is fired again"); inside = true; sched::point();
        if (fired == at) for (auto *a : adds) Adding::cur()->scheduleKernel(a);
        ++fired; if (output.hasPorts()) output["o"].push(fired); inside = false; return fired == n ? raft::stop : raft::proceed;
    }
};
struct Takes : raft::kernel { IN_ARENA int got = 0; Takes() { input.addPort<int>("i"); } raft::kstatus run() override { int x; input["i"].pop(x); if (x != ++got) pbt::die_failing("wrong element"); return raft::proceed; } };
struct Sets : raft::map { static std::set<raft::kernel *> get(raft::map &m, int w) { kernelkeeper MapBase::*p = w == 0 ? &Sets::all_kernels : w == 1 ? &Sets::source_kernels : &Sets::dst_kernels; auto &k = m.*p; std::set<raft::kernel *> s = k.acquire(); k.release(); return s; } };
}
PROP(P15, added_kernels, 1500, 100000, "a source and a sink run by simple_schedule while kernels without ports are handed to scheduleKernel from within run(), those handing on others too; each must be fired until it stops before exe() returns, and be among the map's kernels; non-trivial: at least two added kernels, one of them by another") {
    Arena::reset(c); int k = (int)c.size(1, 6); Lone src((int)c.range(1, 8), 0); src.at = (int)c.pick(src.n); src.output.addPort<int>("o"); Takes snk; std::vector<std::unique_ptr<Lone>> l; bool nested = false; std::set<raft::kernel *> want{&src};
    for (int i = 0; i < k; i++) { int n = (int)c.range(1, 6); l.push_back(std::make_unique<Lone>(n, (int)c.pick(n))); int by = (int)c.range(0, i); (by ? *l[by - 1] : src).adds.push_back(l[i].get()); nested |= by; want.insert(l[i].get()); c.note("k", i, " fired ", n, " times, added by ", by ? "k" + std::to_string(by - 1) : std::string("the source")); }
    bool dyn = c.chance(1, 2); auto plan = sched::draw(c); plan.max_steps = 20000000; plan.max_switches = 600000;
    raft::map m; m.link(&src, "o", &snk, "i"); sched::run(c, plan, [&] { if (dyn) m.exe<partition_dummy, Adding, dynalloc, no_parallel>(); else m.exe<partition_basic, Adding, stdalloc, no_parallel>(); });
    c.require(src.fired == src.n && snk.got == src.n, "the source was fired ", src.fired, " times and the sink received ", snk.got, " of ", src.n);
    for (int i = 0; i < k; i++) c.require(l[i]->fired == l[i]->n, "exe() returned after added kernel k", i, " was fired ", l[i]->fired, " of ", l[i]->n, " times");
    c.require(Sets::get(m, 1) == want, "the added kernels are not among the map's kernels without inputs"); want.erase(&src); want.insert(&snk); c.require(Sets::get(m, 2) == want, "the added kernels are not among the map's kernels without outputs"); want.insert(&src); c.require(Sets::get(m, 0) == want, "the added kernels are not among the map's kernels");
    if (k > 1 && nested) c.nontrivial();
}
