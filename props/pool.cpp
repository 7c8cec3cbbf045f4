// P10, P14, P15, P18: as in pipe.cpp, for the scheduler over a pool of light threads.
#define PIPE_SCHEDULER pool_schedule
#include <raft>
#include <poolschedule.hpp>
#include "pipego.hpp"
extern "C" void verif_pool_over() {
    // it waits for the kernels without outputs only: what others still do is without consequence
    if (!running || !(running->k.life || running->k.values)) return;
    for (auto &l : running->l) if (running->n[l.to].kind == SINK && l.taken < l.want.size() && late.empty()) { std::ostringstream o; o << "the scheduler returned while k" << l.to << " had " << l.want.size() - l.taken << " of " << l.want.size() << " elements of its input i" << l.tport << " still to consume"; late = o.str(); }
}
PROP(P14, pool_pipelines, 5000, 150000, "as pipelines, run by pool_schedule: every sink stream compared with sequential evaluation; non-trivial: at least three links, ten elements and a transforming kernel") {
    Graph g(c); g.k.values = true; go(c, g, 30); bool mid = false; for (auto &x : g.n) mid |= x.kind != SRC && x.kind != SINK; if (g.l.size() >= 3 && elements(g) >= 10 && mid) c.nontrivial();
}
PROP(P15, pool_life_cycle, 5000, 150000, "as life_cycle, run by pool_schedule; non-trivial: at least two links and one element") {
    Graph g(c); g.k.life = true; g.max_len = 12; go(c, g, 30); if (g.l.size() >= 2 && elements(g) >= 1) c.nontrivial();
}
PROP(P18, pool_firing_rule, 4000, 120000, "as firing_rule, run by pool_schedule; non-trivial: a kernel with several inputs and at least five elements") {
    Graph g(c); g.k.fire = true; g.k.life = true; go(c, g, 20); bool multi = false; for (auto &x : g.n) multi |= x.in.size() > 1; if (multi && elements(g) >= 5) c.nontrivial();
}
PROP(P10, pool_forwarding, 4000, 120000, "as forwarding_pipelines, run by pool_schedule, which collects only after every 21st firing and the last; non-trivial: a forwarding kernel that forwarded at least three objects") {
    Graph g(c); g.k.ledger = g.k.values = true; g.forwards = true; g.types = {4, 5}; if (c.chance(1, 3)) g.fixed_len = (size_t)c.range(15, 60); go(c, g, 30); for (auto &x : g.n) if (x.fwd && g.l[x.in[0]].want.size() >= 3) c.nontrivial();
}
