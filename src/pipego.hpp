// pipego.hpp - one case: generate a graph, run it under a generated schedule,
// compare what every consumer took.
#pragma once
#include "pipe.hpp"
using namespace pipe;
extern "C" void verif_affinity(long core) { pipe::bound = core; }
namespace {
void warm() { static bool w = false; if (w) return; w = true; Ledger::get(); for (int t = 0; t < NT; t++) ops(t); }
struct Cfg { Checks k; int dyn_pct = 30; bool forwards = false; };
// elements not consumed yet when the pool scheduler said that it was done
Graph *running = nullptr; std::string late;
// what every consumer took
void took(pbt::Case &c, Graph &g) {
    for (size_t i = 0; i < g.l.size(); i++) {
        auto &l = g.l[i]; std::ostringstream o; o << "link k" << l.from << ".o" << l.fport << " -> k" << l.to << ".i" << l.tport << ": ";
        if (g.k.life) c.require(l.taken == l.want.size(), o.str(), "exe() returned although ", l.want.size() - l.taken, " of ", l.want.size(), " elements were not consumed");
        if (g.k.values && g.n[l.to].kind == SINK) {
            size_t k = 0; while (k < l.got.size() && k < l.want.size() && l.got[k] == l.want[k]) ++k;
            c.require(l.got.size() == l.want.size() && k == l.want.size(), o.str(), "received ", l.got.size(), " elements of ", l.want.size(), ", first difference at ", k);
        }
    }
}
void go(pbt::Case &c, Graph &g, int dyn_pct) {
    warm(); Arena::reset(c); Ledger::get().reset(); g.dyn = c.chance(dyn_pct, 100); g.part = g.k.place ? (int)c.pick(3) : c.chance(1, 4); g.monitor = c.chance(1, 6); g.generate(); c.note(g.dyn ? "dynalloc" : "stdalloc", g.part == 0 ? "" : g.part == 1 ? ", basic partitioner" : ", partitioner of the case", g.monitor ? ", parallelism monitor" : "");
    auto plan = sched::draw(c); plan.max_steps = 40000000; plan.max_switches = 600000;
    size_t load = 0; for (auto &x : g.l) load += x.want.size();
    if (load > 150 && plan.random && plan.mean < 40) plan.mean = 40;  // otherwise mostly waiting is explored
    plan.max_switches += (long)load * 2000;
    {
        Real r(g); bound = -1; PlaceAs::want.clear(); running = &g; late.clear();
        if (g.k.place) for (auto *k : r.k) { if (c.chance(1, 3)) k->setCore((core_id_t)c.pick(64)); PlaceAs::want.emplace_back(k, c.chance(2, 3) ? (long)c.pick(1000) : -1); }
        sched::run(c, plan, [&] { r.exe(); settle(); });
        { std::set<long> s; for (auto *k : r.k) s.insert((long)k->getCoreAssignment()); g.placed_mixed = g.part == 1 ? s.size() >= 2 : s.size() >= 3 && s.count(-1); }
        running = nullptr; took(c, g); c.require(late.empty(), late);
    }
    if (g.k.ledger) c.require(Ledger::get().live.empty(), Ledger::get().live.size(), " objects still alive after the map ended");
    if (g.elementwise) c.label("elementwise (cycles allowed)"); if (g.dyn) c.label("dynamic allocator"); if (g.grew) c.label("a queue grew"); if (g.asked) c.label("more slots asked for at once than a queue has"); if (g.monitor) c.label("parallelism monitor"); if (g.part == 1) c.label("basic partitioner");
    bool zero = false, all = false, fw = false; size_t el = 0; for (auto &x : g.n) { if (x.kind == SRC && !x.n) zero = true; all |= x.all; fw |= x.fwd; } for (auto &l : g.l) el += l.want.size();
    if (zero) c.label("empty stream"); if (all) c.label("all-ports kernel"); if (fw) c.label("forwarding kernel");
}
size_t elements(Graph &g) { size_t e = 0; for (auto &l : g.l) e += l.want.size(); return e; }
}  // namespace
