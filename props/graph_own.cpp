// graph_own.cpp - which kernels a map destroys, and when.
#include "gmodel.hpp"
#include "mapexception.hpp"

namespace {
std::string thrown(const std::function<void()> &f) { try { f(); } catch (const std::exception &e) { return Graph::kind(e); } return "none"; }
// the kernels of a cycle wait for one another, such a graph does not end
bool cyclic(const std::set<raft::kernel *> &all) {
    std::map<raft::kernel *, int> open; std::deque<raft::kernel *> q; size_t done = 0; auto in = [](raft::kernel *k) { int n = 0; for (auto &p : static_cast<GK *>(k)->spec.in) n += PortAccess::info(k->input, p.first).other_kernel != nullptr; return n; };
    for (auto *k : all) if (!(open[k] = in(k))) q.push_back(k);
    while (!q.empty()) { auto *k = q.front(); q.pop_front(); ++done; for (auto &p : static_cast<GK *>(k)->spec.out) if (auto *o = PortAccess::info(k->output, p.first).other_kernel) if (!--open[o]) q.push_back(o); }
    return done != all.size();
}
struct Snapshot { std::set<GK *> mine, theirs; };
}

// Every kernel alive is either in g.user (the caller's) or was made / cloned inside.
PROP(P17, ownership, 30000, 1500000, "the map holds at least one kernel it made or cloned, and one of the caller's") {
    auto &w = GK::World::get(); int how; bool refused = false;
    auto gp = std::make_unique<Graph>(c); Graph &g = *gp; long given = 0;
    int ne = (int)c.size(1, 3); long before_map = 0;
    for (int k = 0; k < ne; k++) {
        switch (c.weighted({5, 2, 2})) {
        case 0: { Graph::Opt o; o.maxlen = 5; o.morelike_made = true; auto p = g.generate(o); g.apply(p); break; }
        case 1: g.broken_chain(); refused = true; c.label("refused link"); break;
        default: {
            Graph::Opt o; o.unclone = 2; o.maxlen = 5; o.morelike_made = true; auto p = g.generate(o);
            if (p.needs_clone_of_unclonable) {
                c.note("m += ", g.text(p.e, *p.t), "  refused: clone"); auto v = g.eval(p.e, *p.t);
                auto got = thrown([&] { *g.m += *v.p; }); c.require(got == "CloneNotImplemented", "answered with ", got); refused = true; c.label("refused clone"); k = ne;   // the model no longer follows
            } else g.apply(p);
        } }
        c.require(w.died == 0, w.died, " kernels were destroyed while the map was built");
    }
    (void)given; (void)before_map;
    how = (int)c.pick(3);
    if (how == 1 || how == 2) {
        if (!refused) g.complete(c.chance(1, 4) ? 1 : 0);
        size_t un = 0; for (auto *k : MapAccess::all(*g.m)) { auto *q = static_cast<GK *>(k); for (auto &p : q->spec.in) un += PortAccess::info(q->input, p.first).other_kernel == nullptr; for (auto &p : q->spec.out) un += PortAccess::info(q->output, p.first).other_kernel == nullptr; }
        const auto all = MapAccess::all(*g.m), src = MapAccess::src(*g.m), dst = MapAccess::dst(*g.m); bool dyn = c.chance(1, 2); bool real = how == 2 && c.chance(1, 10) && w.live.size() < 30 && !cyclic(all); int calls = 0; NullSched::hook() = [&](raft::map &) { ++calls; };
        c.note("m.exe", real ? "" : " (no scheduler)", un ? "  refused: unconnected" : "");
        auto got = thrown([&] { if (real && dyn) g.m->exe<partition_dummy, simple_schedule, dynalloc, no_parallel>(); else if (real) g.m->exe<partition_basic, simple_schedule, stdalloc, no_parallel>(); else g.m->exe<partition_dummy, NullSched, NullAlloc, NullPar>(); });
        NullSched::hook() = nullptr;
        c.require(MapAccess::all(*g.m) == all && MapAccess::src(*g.m) == src && MapAccess::dst(*g.m) == dst, "executing the map changed the kernels it holds");   // and they can be looked at: whoever reserved them has released them
        c.require(got == (un ? "PortUnconnected" : "none"), "exe was answered with ", got);
        c.label(un ? "execution refused" : real ? "executed" : "executed without scheduler");
        c.require(w.died == 0, w.died, " kernels were destroyed by executing the map");
    } else c.label("never run");
    long theirs = (long)g.user.size(), mine = (long)w.live.size() - theirs; std::set<GK *> user; for (auto &u : g.user) user.insert(u.get());
    if (mine > 0 && theirs > 0) c.nontrivial();
    c.note("delete m: ", mine, " kernels made inside, ", theirs, " of the caller");
    delete g.m; g.m = nullptr;
    for (auto *u : user) c.require(w.live.count(u), "the map destroyed a kernel of the caller (", u->spec.cls, ")");
    long left = 0; std::string which; for (auto &k : w.live) if (!user.count(k.first)) { ++left; which += " k" + std::to_string(k.first->spec.cls) + (k.first->cloned ? " (clone)" : ""); }
    c.require(left == 0, left, " of ", mine, " kernels made or cloned for the map were not destroyed with it:", which);
    // the caller's kernels still work
    for (auto *u : user) {
        c.require(u->input.count() == u->spec.in.size() && u->output.count() == u->spec.out.size(), "a kernel of the caller lost ports");
        for (auto &p : u->spec.in) c.require(PortAccess::info(u->input, p.first).my_kernel == u, "port of a kernel of the caller damaged");
        u->input.addPort<int>(std::string("__later")); u->run();
    }
    user.clear(); g.user.clear(); c.require(w.live.empty() && w.born == w.died, w.born, " kernels constructed, ", w.died, " destroyed");
}
