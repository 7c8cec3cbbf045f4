// graph_faults.cpp - graphs that must be refused, and the exception each is refused with.
#include "gmodel.hpp"
#include "mapexception.hpp"

static std::string thrown(const std::function<void()> &f) { try { f(); } catch (const std::exception &e) { return Graph::kind(e); } return "none"; }

PROP(P13, bad_link, 30000, 2000000, "a link that must be refused is attempted, on a graph that holds other links") {
    Graph g(c); int ne = (int)c.pick(3); for (int k = 0; k < ne; k++) { Graph::Opt o; o.maxlen = 4; auto p = g.generate(o); g.apply(p); }
    for (int k = (int)c.range(1, 3); k-- > 0;) {
        auto b = g.broken_chain();
        for (auto f : {b.f_out, b.f_in}) if (f != Graph::OK) c.label(Graph::fault_name(f));
        if (b.mismatch) c.label("type mismatch");
        if (b.at) c.label("inside a chain");
        if (c.chance(1, 3)) { Graph::Opt o; o.maxlen = 3; auto p = g.generate(o); g.apply(p); c.label("graph extended after a refusal"); }
    }
    if (g.n.size() > 2) c.nontrivial();
}

PROP(P13, clone_refused, 20000, 800000, "an expression that needs a copy of a kernel that cannot be cloned") {
    Graph g(c); if (c.chance(1, 3)) { Graph::Opt o; o.maxlen = 3; auto p = g.generate(o); g.apply(p); }
    Graph::Opt o; o.unclone = 2; auto p = g.generate(o);
    if (!p.needs_clone_of_unclonable) { c.label("no copy needed"); g.apply(p); return; }
    c.nontrivial(); c.note("m += ", g.text(p.e, *p.t), "  must be refused: clone");
    auto v = g.eval(p.e, *p.t);
    auto got = thrown([&] { *g.m += *v.p; });
    c.require(got == "CloneNotImplemented", "an expression that has to copy a kernel without clone() was answered with ", got);
}

static bool &ran() { static bool b; return b; }
PROP(P13, exe_checks, 12000, 500000, "a map is executed with at least one port unconnected, or with every port connected and at least four kernels") {
    Graph g(c); int ne = (int)c.size(1, 3); for (int k = 0; k < ne; k++) { Graph::Opt o; o.maxlen = 5; auto p = g.generate(o); g.apply(p); }
    // the generator may leave kernels of other expressions unlinked; they are no part of the map
    size_t open = g.unconnected(), leave = c.chance(1, 2) ? 0 : (size_t)c.range(0, std::min<size_t>(open, 3));
    g.complete(leave); open = g.unconnected();
    int calls = 0; NullSched::hook() = [&](raft::map &) { ++calls; ran() = true; };
    c.note("m.exe() with ", open, " unconnected ports");
    bool real = open && c.chance(1, 20);
    auto got = thrown([&] { if (real) g.m->exe<partition_dummy, simple_schedule, stdalloc, no_parallel>(); else g.m->exe<partition_dummy, NullSched, NullAlloc, NullPar>(); });
    NullSched::hook() = nullptr;
    if (open) { c.label("unconnected"); c.nontrivial(); c.require(got == "PortUnconnected", "a map with ", open, " unconnected ports was executed and answered with ", got); c.require(!calls, "the scheduler was started although ports are unconnected"); }
    else { c.label("connected"); if (g.n.size() > 3) c.nontrivial(); c.require(got == "none", "a fully connected map was refused with ", got); c.require(calls == 1, "the scheduler was started ", calls, " times"); }
    c.require(GK::World::get().fired == 0, "a kernel was run");
    g.compare();
}

PROP(P13, port_names, 30000, 1000000, "a duplicate port is added or a third name is selected") {
    Graph g(c); GSpec s; for (int k = (int)c.size(0, 5); k-- > 0;) g.add(s.in, (int)c.pick(NTYPES)); for (int k = (int)c.size(0, 5); k-- > 0;) g.add(s.out, (int)c.pick(NTYPES));
    int x = g.instance(g.new_cls(s, USER, true), false); GK *k = g.n[x].real; int named = 0; bool fault = false;
    for (int step = (int)c.size(1, 8); step-- > 0;) {
        if (c.chance(1, 2)) {
            bool out = c.chance(1, 2); auto &mp = out ? g.n[x].out : g.n[x].in; Port &p = out ? k->output : k->input; std::string nm; int t = (int)c.pick(NTYPES);
            if (mp.size() && c.chance(2, 3)) { auto it = mp.begin(); std::advance(it, c.pick(mp.size())); nm = it->first; } else nm = g.pname();
            bool dup = mp.count(nm); c.note(out ? "output" : "input", ".addPort<", gtype(t), ">(\"", nm, "\")");
            auto got = thrown([&] { add_port(p, nm, t); });
            c.require(got == (dup ? "PortAlreadyExists" : "none"), "adding ", dup ? "an existing" : "a new", " port was answered with ", got);
            if (dup) fault = true; else mp[nm] = MPort{t};
        } else {
            auto nm = g.pname(); c.note("k[\"", nm, "\"]"); auto got = thrown([&] { if (c.chance(1, 2)) (*k)[std::string(nm)]; else { const std::string q = nm; (*k)[q]; } });
            c.require(got == (named < 2 ? "none" : "AmbiguousPortAssignment"), "naming port number ", named + 1, " was answered with ", got);
            if (named < 2) ++named; else fault = true;
        }
        for (int d = 0; d < 2; d++) {
            auto &mp = d ? g.n[x].out : g.n[x].in; Port &p = d ? k->output : k->input;
            c.require(p.count() == mp.size(), "port count is ", p.count(), ", expected ", mp.size());
            for (auto &q : mp) c.require(PortAccess::info(p, q.first).type == std::type_index(gtypeid(q.second.type)), "port \"", q.first, "\" changed its type");
        }
    }
    if (fault) c.nontrivial();
}
