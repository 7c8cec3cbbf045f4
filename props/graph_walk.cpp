#include <condition_variable>
#include <thread>
#include <mutex>
// graph_walk.cpp - traversal, dot output, port containers and the queues given to links.
#include "gmodel.hpp"
#include "mapexception.hpp"
#include "allocate.hpp"
#include "fifo.hpp"
#include <fstream>
#include <unistd.h>
#include <sys/wait.h>

namespace {
std::string thrown(const std::function<void()> &f) { try { f(); } catch (const std::exception &e) { return Graph::kind(e); } return "none"; }

// kernels with any shape of links between them, cycles included
struct Web {
    pbt::Case &c; Graph g; bool cyclic; size_t open = 0; std::vector<std::unique_ptr<raft::kernel>> inplace;
    explicit Web(pbt::Case &c, bool allow_cycles, bool leave_open) : c(c), g(c) {
        int N = (int)c.size(1, 10), links = (int)c.size(0, 2 * N); cyclic = allow_cycles && c.chance(1, 2);
        std::vector<int> rank(N); for (int i = 0; i < N; i++) rank[i] = i; if (c.chance(1, 2)) for (size_t k = N; k > 1; k--) std::swap(rank[k - 1], rank[c.pick(k)]);   // links need not go from older to younger kernels
        std::vector<GSpec> s(N); struct L { int a, b; std::string ap, bp; }; std::vector<L> ls;
        for (int k = 0; k < links; k++) {
            int a = (int)c.pick(N), b = (int)c.pick(N), t = (int)c.pick(NTYPES); if (!cyclic) { if (a == b) continue; if (rank[a] > rank[b]) std::swap(a, b); }
            auto ap = g.add(s[a].out, t); ls.push_back({a, b, ap, g.add(s[b].in, t)});
        }
        if (leave_open) for (int k = (int)c.pick(4); k-- > 0;) { int i = (int)c.pick(N); if (c.chance(3, 4)) g.add(s[i].out, (int)c.pick(NTYPES)); else g.add(s[i].in, (int)c.pick(NTYPES)); }
        for (int i = 0; i < N; i++) { g.instance(g.new_cls(s[i], USER, true), false); g.n[i].inmap = false; }
        for (size_t k = ls.size(); k > 1; k--) std::swap(ls[k - 1], ls[c.pick(k)]);
        for (auto &l : ls) { bool ooo = c.chance(1, 4); size_t buf = c.chance(1, 3) ? (size_t)c.range(1, 300) : 0; c.note("m.link(", g.where(l.a), ", \"", l.ap, "\", ", g.where(l.b), ", \"", l.bp, "\", ", buf, ")"); g.link(l.a, l.ap, l.b, l.bp, ooo, buf); g.n[l.a].inmap = g.n[l.b].inmap = true; if (ooo) g.m->link<raft::order::out>(g.n[l.a].real, l.ap, g.n[l.b].real, l.bp, buf); else g.m->link(g.n[l.a].real, l.ap, g.n[l.b].real, l.bp, buf); }
    }
    std::map<int, int> distance(const std::vector<int> &from) {
        std::map<int, int> d; std::deque<int> q; for (int i : from) { d[i] = 0; q.push_back(i); }
        while (!q.empty()) { int i = q.front(); q.pop_front(); for (auto &p : g.n[i].out) if (p.second.other >= 0 && !d.count(p.second.other)) { d[p.second.other] = d[i] + 1; q.push_back(p.second.other); } }
        return d;
    }
    int index(raft::kernel *k) { for (size_t i = 0; i < g.n.size(); i++) if (g.n[i].real == k) return (int)i; return -1; }
};
}

PROP(P25, traversal, 40000, 1500000, "at least one kernel has two links to it, a cycle exists, or an output is unconnected") {
    Web w(c, true, c.chance(1, 2)); Graph &g = w.g; std::vector<int> from; int n = (int)g.n.size();
    if (c.chance(1, 2)) { for (int i = 0; i < n; i++) if (g.n[i].in.empty()) from.push_back(i); c.label("from the sources"); }
    else { for (int i = 0; i < n; i++) if (c.chance(1, 3)) from.push_back(i); for (size_t k = from.size(); k > 1; k--) std::swap(from[k - 1], from[c.pick(k)]); c.label("from any kernels"); }
    auto d = w.distance(from); size_t open = 0; bool multi = false; long edges = 0;
    for (auto &x : d) { for (auto &p : g.n[x.first].out) { open += p.second.other < 0; edges += p.second.other >= 0; } std::set<int> preds; for (auto &p : g.n[x.first].in) if (p.second.other >= 0) { if (!preds.insert(p.second.other).second) multi = true; } if (preds.size() > 1) multi = true; }
    if (w.cyclic) c.label("may have cycles"); if (open) c.label("unconnected output"); if (multi) c.label("kernel reached by several links");
    if (multi || open || w.cyclic) c.nontrivial();
    std::set<raft::kernel *> set; std::vector<raft::kernel *> vec; for (int i : from) { set.insert(g.n[i].real); vec.push_back(g.n[i].real); }
    std::set<raft::kernel *> set0 = set; auto vec0 = vec;
    int tag = 0; int rounds = (int)c.range(1, 3);
    for (int r = 0; r < rounds; r++) {
        int how = (int)c.pick(3); bool strict = how < 2 && c.chance(1, 4);
        { std::string f; for (int i : from) f += " " + g.where(i); c.note(how == 0 ? "BFS of edges from a set" : how == 1 ? "BFS of edges from a vector" : "BFS of kernels", strict ? ", unconnected is an error:" : ":", f); }
        if (how == 2) {
            std::map<int, int> seen; int last = 0;
            GraphTools::BFS(set, (vertex_func)[&](raft::kernel *k, void *data) {
                c.require(data == &tag, "the data pointer is not handed on"); int i = w.index(k); c.require(i >= 0 && d.count(i), "a kernel that cannot be reached is visited");
                c.require(++seen[i] == 1, g.where(i), " is visited twice"); c.require(d[i] >= last, g.where(i), " is visited out of breadth-first order"); last = d[i];
            }, &tag);
            c.require(seen.size() == d.size(), seen.size(), " kernels visited, ", d.size(), " can be reached");
        } else {
            std::map<PortInfo *, int> seen; int last = 0;
            edge_func fn = [&](PortInfo &a, PortInfo &b, void *data) {
                c.require(data == &tag, "the data pointer is not handed on"); int i = w.index(a.my_kernel); c.require(i >= 0 && d.count(i), "a link of a kernel that cannot be reached is visited");
                c.require(&a == &PortAccess::info(a.my_kernel->output, a.my_name), "the first port given is not an output port of its kernel");
                auto &p = g.n[i].out.at(a.my_name); c.require(p.other >= 0, "an unconnected output is visited as a link");
                c.require(&b == &PortAccess::info(g.n[p.other].real->input, p.oname), "link ", g.where(i), ".", a.my_name, " is visited with another destination port");
                c.require(++seen[&a] == 1, "link ", g.where(i), ".", a.my_name, " is visited twice"); c.require(d[i] >= last, "links are visited out of breadth-first order"); last = d[i];
            };
            auto got = thrown([&] { if (how == 0) GraphTools::BFS(set, fn, &tag, strict); else GraphTools::BFS(vec, fn, &tag, strict); });
            if (strict && open) { c.label("unconnected reported"); c.require(got != "none", "an unconnected port is not reported although that was asked for"); }
            else { c.require(got == "none", "traversal threw ", got); c.require((long)seen.size() == edges, seen.size(), " links visited, ", edges, " can be reached"); }
        }
        c.require(set == set0 && vec == vec0, "the list of source kernels was changed");
        for (auto &x : g.n) for (Port *p : {&x.real->input, &x.real->output}) { auto &mx = PortAccess::map(*p).mutex_map; c.require(mx.try_lock(), "a port container is left locked"); mx.unlock(); }
    }
}

namespace {
struct InPlace : raft::kernel { int buf[4]; InPlace() : raft::kernel(buf, sizeof buf) {} raft::kstatus run() override { return raft::stop; } };
struct Dot { std::vector<long> nodes; std::vector<std::tuple<long, long, std::string>> edges; std::string err; };
// reads the subset of the dot language that consists of node and edge statements with attributes
Dot parse_dot(const std::string &s) {
    Dot d; size_t i = 0; auto ws = [&] { while (i < s.size() && isspace((unsigned char)s[i])) ++i; }; auto lit = [&](const char *w) { ws(); size_t l = strlen(w); if (s.compare(i, l, w)) return false; i += l; return true; };
    auto num = [&](long &v) { ws(); size_t j = i; while (j < s.size() && isdigit((unsigned char)s[j])) ++j; if (j == i) return false; v = std::stol(s.substr(i, j - i)); i = j; return true; };
    auto attrs = [&](std::string &label) { if (!lit("[")) return false; for (;;) { ws(); size_t j = s.find('=', i); if (j == std::string::npos) return false; std::string k = s.substr(i, j - i); i = j + 1; if (i >= s.size() || s[i] != '"') return false; j = s.find('"', i + 1); if (j == std::string::npos) return false; if (k == "label") label = s.substr(i + 1, j - i - 1); i = j + 1; ws(); if (lit(",")) continue; return lit("]"); } };
    if (!lit("digraph") || !lit("G") || !lit("{")) { d.err = "no digraph header"; return d; }
    for (;;) {
        ws(); if (lit("}")) { ws(); if (i != s.size()) d.err = "text after the closing brace"; return d; }
        if (lit("size=\"")) { i = s.find('"', i); if (i == std::string::npos) { d.err = "bad size"; return d; } ++i; if (!lit(";")) { d.err = "no ; after size"; return d; } continue; }
        long a, b; std::string label; if (!num(a)) { d.err = "statement does not start with a number at \"" + s.substr(i, 20) + "\""; return d; }
        if (lit("->")) { if (!num(b) || !attrs(label)) { d.err = "bad edge"; return d; } d.edges.emplace_back(a, b, label); } else { if (!attrs(label)) { d.err = "bad node"; return d; } d.nodes.push_back(a); }
        if (!lit(";")) { d.err = "no ; after statement"; return d; }
    }
}
}

PROP(P25, dot, 15000, 500000, "the graph has at least three links and a kernel with two") {
    std::vector<std::unique_ptr<InPlace>> other; auto maybe = [&] { if (c.chance(1, 3)) { other.push_back(std::make_unique<InPlace>()); c.label("kernel over existing memory"); c.note("(a kernel over existing memory is constructed)"); } };
    maybe(); Web w(c, false, false); Graph &g = w.g; maybe();
    // in-place kernels take part too
    std::vector<std::pair<raft::kernel *, int>> extra;
    for (auto &o : other) if (c.chance(1, 2)) { GSpec s; g.add(s.in, 0); int j = g.instance(g.new_cls(s, USER, true), false); o->output.addPort<int>(std::string("mem")); g.n[j].inmap = true; g.m->link(o.get(), "mem", g.n[j].real, s.in[0].first); extra.push_back({o.get(), j}); c.note("(and linked to ", g.where(j), ")"); }
    std::string text; bool env = c.chance(1, 8);
    if (env) { for (auto &x : g.n) if (x.inmap) for (auto *mp : {&x.in, &x.out}) for (auto &p : *mp) if (p.second.other < 0) env = env && extra.size(); }
    if (env) {
        std::string f = pbt::scratch() + "/dot"; setenv("GEN_DOT", f.c_str(), 1); c.label("written by exe");
        if (c.chance(1, 3)) { std::ofstream o(f); o << "digraph G{\n"; for (int k = (int)c.pick(400); k-- > 0;) o << "\t" << k << "[label=\"of an earlier map\"];\n"; o << "}\n"; c.note("the file exists already"); c.label("over an existing file"); }
        int leave = (int)c.pick(4); if (leave) setenv("GEN_DOT_EXIT", leave == 1 ? "1" : leave == 2 ? "0" : "2", 1);
        if (leave == 1) {   // ends the process, here one of its own
            c.note("with GEN_DOT_EXIT=1"); c.label("ends after writing"); pid_t p = fork();
            if (p == 0) { atexit([] { _exit(42); }); NullSched::hook() = [](raft::map &) { _exit(43); }; try { g.m->exe<partition_dummy, NullSched, NullAlloc, NullPar>(); } catch (...) { _exit(44); } _exit(45); }
            int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} unsetenv("GEN_DOT_EXIT"); unsetenv("GEN_DOT");
            c.require(WIFEXITED(st) && WEXITSTATUS(st) == 42, "exe with GEN_DOT_EXIT=1 ", !WIFEXITED(st) ? "crashed" : WEXITSTATUS(st) == 43 ? "started the scheduler" : WEXITSTATUS(st) == 44 ? "threw" : "returned");
        } else {
            int calls = 0; NullSched::hook() = [&](raft::map &) { ++calls; }; auto got = thrown([&] { g.m->exe<partition_dummy, NullSched, NullAlloc, NullPar>(); }); NullSched::hook() = nullptr; unsetenv("GEN_DOT"); unsetenv("GEN_DOT_EXIT");
            c.require(got == "none", "exe threw ", got); c.require(calls == 1, "exe did not execute the map after writing the dot file");
        }
        std::ifstream in(f); std::stringstream ss; ss << in.rdbuf(); text = ss.str(); unlink(f.c_str());
    } else { std::ostringstream o; raft::make_dot::run(o, *g.m); text = o.str(); }
    Dot d = parse_dot(text); c.require(d.err.empty(), "the dot text cannot be read: ", d.err);
    std::map<long, raft::kernel *> id; std::set<raft::kernel *> all = MapAccess::all(*g.m);
    for (auto *k : all) { c.require(!id.count((long)k->get_id()), "two kernels have the same number ", k->get_id()); id[(long)k->get_id()] = k; }
    std::multiset<long> want, got(d.nodes.begin(), d.nodes.end()); for (auto &x : id) want.insert(x.first);
    c.require(got == want, "the dot text has ", d.nodes.size(), " nodes and not exactly one per kernel (", all.size(), ")");
    std::multiset<std::string> we, ge; bool two = false;
    auto e = [&](raft::kernel *a, raft::kernel *b, const std::string &an, const std::string &bn) { return std::to_string(a->get_id()) + "->" + std::to_string(b->get_id()) + " " + an + " to " + bn; };
    for (auto &x : g.n) { int k = 0; for (auto &p : x.out) if (p.second.other >= 0) { ++k; we.insert(e(x.real, g.n[p.second.other].real, p.first, p.second.oname)); } if (k > 1) two = true; }
    for (auto &x : extra) we.insert(e(x.first, g.n[x.second].real, "mem", g.n[x.second].in.begin()->first));
    for (auto &x : d.edges) { auto l = std::get<2>(x); ge.insert(std::to_string(std::get<0>(x)) + "->" + std::to_string(std::get<1>(x)) + " " + l.substr(0, l.find(" ("))); }
    for (auto &s : we) c.require(ge.count(s) == we.count(s), "link ", s, " stands ", ge.count(s), " times in the dot text");
    c.require(ge.size() == we.size(), ge.size(), " edges in the dot text, the graph has ", we.size(), " links");
    if (we.size() > 2 && two) c.nontrivial();
}

namespace {
FIFO *new_fifo(PortInfo &pi, size_t cap) { auto &m = *pi.const_map[Type::Heap]; return m[false](cap, ALLOC_ALIGN_WIDTH, nullptr); }
template <class T> void place(InPlace &, Port &p, size_t n) { p.addInPlacePorts<T>(n); }
struct Mem : raft::kernel { Mem(void *p, size_t n) : raft::kernel(p, n) {} raft::kstatus run() override { return raft::stop; } };
template <class T> void add_many(Port &p, const std::vector<std::string> &v) {
    switch (v.size()) { case 1: p.addPort<T>(v[0]); break; case 2: p.addPort<T>(v[0], v[1]); break; case 3: p.addPort<T>(v[0], v[1], v[2]); break; default: p.addPort<T>(v[0], v[1], v[2], v[3]); }
}
}
PROP(P26, container, 30000, 1000000, "the container holds at least three ports of two element types, and absent names are looked up") {
    GSpec none; GK k(none); Port &p = c.chance(1, 2) ? k.input : k.output; std::map<std::string, int> model; std::map<std::string, FIFO *> fifo; std::vector<std::unique_ptr<FIFO>> own; bool absent = false;
    auto name = [&] { static const char *w[] = {"in", "out", "a", "b", "x", "0", "1", "number_a", "sum", "10", "2", "left", "", "A", "aa", "a ", "\xc3\xa9", "9"}; return std::string(w[c.pick(18)]); };
    for (int step = (int)c.size(1, 20); step-- > 0;) {
        switch (c.pick(5)) {
        case 0: case 1: {
            std::vector<std::string> v; for (int i = (int)c.range(1, 4); i-- > 0;) v.push_back(name()); int t = (int)c.pick(NTYPES);
            { std::string s; for (auto &x : v) s += " \"" + x + "\""; c.note("addPort<", gtype(t), ">", s); }
            bool dup = false; for (auto &x : v) { if (model.count(x)) { dup = true; break; } model[x] = t; }
            auto got = thrown([&] { switch (t) { case 0: add_many<int>(p, v); break; case 1: add_many<float>(p, v); break; case 2: add_many<std::string>(p, v); break; case 3: add_many<Obj4>(p, v); break; default: add_many<uint8_t>(p, v); } });
            c.require(got == (dup ? "PortAlreadyExists" : "none"), "adding ports was answered with ", got); break;
        }
        case 2: {   // give a port its stream
            if (model.empty()) break; auto it = model.begin(); std::advance(it, c.pick(model.size())); PortInfo &pi = PortAccess::info(p, it->first);
            own.emplace_back(new_fifo(pi, (size_t)c.range(1, 20))); pi.setFIFO(own.back().get()); fifo[it->first] = own.back().get(); c.note("stream for \"", it->first, "\""); break;
        }
        case 3: {
            auto nm = name(); bool there = model.count(nm); if (!there) absent = true; std::string got; c.note("[\"", nm, "\"]"); FIFO *f = nullptr;
            if (there && !fifo.count(nm)) break;
            got = thrown([&] { if (c.chance(1, 2)) f = &p[std::string(nm)]; else { const std::string q = nm; f = &p[q]; } });
            c.require(got == (there ? "none" : "PortNotFound"), "looking up a ", there ? "present" : "missing", " port was answered with ", got);
            if (there) c.require(f == fifo[nm], "port \"", nm, "\" leads to another stream"); break;
        }
        default: {
            auto nm = name(); bool there = model.count(nm); if (!there) absent = true; const std::type_index *ti = nullptr; c.note("getPortType(\"", nm, "\")");
            auto got = thrown([&] { ti = &p.getPortType(std::string(nm)); });
            c.require(got == (there ? "none" : "PortNotFound"), "asking the type of a ", there ? "present" : "missing", " port was answered with ", got);
            if (there) c.require(*ti == std::type_index(gtypeid(model[nm])), "port \"", nm, "\" has another element type"); break;
        } }
        c.require(p.count() == model.size() && p.hasPorts() == !model.empty(), "count() is ", p.count(), " hasPorts() ", p.hasPorts(), " with ", model.size(), " ports");
        std::map<std::string, int> seen; size_t pos = 0;
        for (auto it = p.begin(); it != p.end(); ++it, ++pos) {
            c.require(model.count(it.name()), "iteration meets \"", it.name(), "\", which was never added"); c.require(++seen[it.name()] == 1, "iteration meets \"", it.name(), "\" twice");
            if (fifo.count(it.name())) c.require(&*it == fifo[it.name()], "iterating, \"", it.name(), "\" leads to another stream");
            PortIterator at(&PortAccess::map(p), pos); c.require(at == it && !(at != it) && at.name() == it.name(), "iterator at position ", pos, " is another one"); c.require(pos < model.size(), "iteration does not end");
        }
        c.require(seen.size() == model.size(), "iteration meets ", seen.size(), " of ", model.size(), " ports"); c.require((p.begin() == p.end()) == model.empty(), "begin and end agree wrongly");
        for (auto &x : model) { auto &pi = PortAccess::info(p, x.first); c.require(pi.my_name == x.first && pi.my_kernel == &k && pi.other_kernel == nullptr, "record of port \"", x.first, "\" is wrong"); }
        c.require((&p == &k.input ? k.output : k.input).count() == 0, "the other container changed");
    }
    std::set<int> types; for (auto &x : model) types.insert(x.second);
    if (model.size() > 2 && types.size() > 1 && absent) c.nontrivial();
}

PROP(P26, in_place, 20000, 500000, "an array is divided over two or more ports") {
    size_t n = (size_t)c.size(1, 8), len = (size_t)c.size(1, 60), bytes; std::vector<char> mem; std::type_index ti(typeid(int)); std::vector<char> dummy; int t = (int)c.pick(4); size_t es;
    static const size_t sz[] = {sizeof(int), sizeof(uint8_t), sizeof(Obj4), sizeof(double)}; es = sz[t]; size_t tail = c.chance(1, 3) ? (size_t)c.pick(es) : 0; bytes = len * es + tail; mem.resize(bytes ? bytes : 1);
    Mem k(mem.data(), bytes); Port &p = c.chance(1, 2) ? k.output : k.input; c.note(len, " elements of ", es, " bytes over ", n, " ports"); if (n > 1) c.nontrivial();
    switch (t) { case 0: p.addInPlacePorts<int>(n); ti = typeid(int); break; case 1: p.addInPlacePorts<uint8_t>(n); ti = typeid(uint8_t); break; case 2: p.addInPlacePorts<Obj4>(n); ti = typeid(Obj4); break; default: p.addInPlacePorts<double>(n); ti = typeid(double); }
    c.require(p.count() == n, p.count(), " ports were added"); size_t at = 0;
    for (size_t i = 0; i < n; i++) {
        PortInfo &pi = PortAccess::info(p, std::to_string(i)); c.require(pi.type == ti && pi.my_kernel == &k && pi.my_name == std::to_string(i), "record of port ", i, " is wrong");
        c.require(pi.start_index == at && pi.existing_buffer == mem.data() + at * es, "port ", i, " starts at element ", pi.start_index, ", expected ", at); at += pi.nitems; c.require(at <= len, "port ", i, " reaches beyond the array");
    }
    c.require(at == len, "the ports cover ", at, " of ", len, " elements");
}

PROP(P24, initial_size, 15000, 500000, "links with and without a requested size in one graph") {
    Graph g(c); int ne = (int)c.size(1, 3); for (int k = 0; k < ne; k++) { if (g.exprs && c.chance(1, 3) && g.direct()) continue; Graph::Opt o; o.maxlen = 5; auto p = g.generate(o); g.apply(p); }
    g.complete(0); bool dyn = c.chance(1, 20), fixed = false, plain = false; int calls = 0;
    for (auto &x : g.n) if (MapAccess::all(*g.m).count(x.real)) for (auto &p : x.out) if (p.second.other >= 0) (p.second.buf ? fixed : plain) = true;
    if (fixed && plain) c.nontrivial();
    // what can be reached from the sources: only such graphs can be executed
    std::set<int> reach; std::deque<int> q; auto idx = [&](GK *k) { for (size_t i = 0; i < g.n.size(); i++) if (g.n[i].real == k) return (int)i; return -1; };
    for (auto *k : MapAccess::src(*g.m)) { int i = idx(static_cast<GK *>(k)); reach.insert(i); q.push_back(i); }
    while (!q.empty()) { int i = q.front(); q.pop_front(); for (auto &p : g.n[i].out) if (p.second.other >= 0 && reach.insert(p.second.other).second) q.push_back(p.second.other); }
    NullSched::hook() = [&](raft::map &) {
        ++calls; std::set<FIFO *> seen;
        for (int r : reach) { auto &x = g.n[r]; for (auto &p : x.out) {
            PortInfo &a = PortAccess::info(x.real->output, p.first), &b = PortAccess::info(g.n[p.second.other].real->input, p.second.oname); int i = (int)(&x - &g.n[0]);
            c.require(a.getFIFO() != nullptr, "link ", g.where(i), ".", p.first, " has no queue");
            c.require(a.getFIFO() == b.getFIFO(), "the two ends of link ", g.where(i), ".", p.first, " have different queues");
            c.require(seen.insert(a.getFIFO()).second, "two links share a queue");
            size_t want = p.second.buf ? p.second.buf : INITIAL_ALLOC_SIZE, got = x.real->output[p.first].capacity();
            c.require(got == want, "link ", g.where(i), ".", p.first, " has a queue of ", got, ", expected ", want);
        } }
    };
    std::exception_ptr err; auto inner = NullSched::hook(); NullSched::hook() = [&](raft::map &m) { try { inner(m); } catch (...) { err = std::current_exception(); } };
    c.note("exe with ", dyn ? "dynalloc" : "stdalloc");
    if (dyn) g.m->exe<partition_dummy, NullSched, dynalloc, NullPar>(); else g.m->exe<partition_dummy, NullSched, stdalloc, NullPar>();
    NullSched::hook() = nullptr; if (err) std::rethrow_exception(err); c.require(calls == 1, "scheduler started ", calls, " times");
    c.label(dyn ? "dynalloc" : "stdalloc");
}

namespace {
struct Monitor : dynalloc { using dynalloc::dynalloc; };
template <class T> T nth(long v) { return T(v % 120); }
template <> std::string nth<std::string>(long v) { return "element number " + std::to_string(v); }
template <> Obj4 nth<Obj4>(long v) { Obj4 o; for (int i = 0; i < 100; i++) o.b[i] = (unsigned char)(v * 7 + i); return o; }
template <class T> bool alike(const T &a, const T &b) { return a == b; }
template <> bool alike<Obj4>(const Obj4 &a, const Obj4 &b) { return !memcmp(&a, &b, sizeof a); }
// A sender on a thread of its own that runs only while the case waits for it.
struct Sender {
    std::thread t; std::mutex m; std::condition_variable cv; int turn = 0; bool done = false;
    void hand(int to) { std::unique_lock<std::mutex> l(m); turn = to; cv.notify_all(); }
    void wait(int mine) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return turn == mine; }); }
    template <class F> void start(F f) { t = std::thread([this, f] { wait(1); f(); done = true; hand(0); }); go(); }
    bool go() { auto h = std::move(pbt::yield_hook); pbt::yield_hook = [this] { hand(0); wait(1); }; hand(1); wait(0); if (done) t.join(); pbt::yield_hook = std::move(h); return done; }   // until it waits again or is through
    ~Sender() { if (t.joinable()) t.join(); }
};
struct Link {
    FIFO *f; std::shared_ptr<Collector> both; int type; size_t cap; bool sized; std::string name; std::deque<long> q; long next = 0; int held = 0; long grown = 0; int writes = 0; bool waited = false; std::unique_ptr<Sender> ask; size_t asked = 0; bool larger = false;
    Link(FIFO *f, std::shared_ptr<Collector> b, int t, size_t n, bool s, std::string m) : f(f), both(b), type(t), cap(n), sized(s), name(m) {}
    template <class F> void as(F &&fn) { switch (type) { case 0: fn((int *)nullptr); break; case 1: fn((float *)nullptr); break; case 2: fn((std::string *)nullptr); break; case 3: fn((Obj4 *)nullptr); break; default: fn((uint8_t *)nullptr); } }
    void pop(pbt::Case &c) { long want = q.front(); q.pop_front(); as([&](auto *t) { using T = std::decay_t<decltype(*t)>; T got = nth<T>(0); f->pop(got); c.require(alike(got, nth<T>(want)), "link ", name, ": another element than number ", want, " comes out"); }); both->collect(); }
    void push(pbt::Case &c, bool alloc) { long v = next++; as([&](auto *t) { using T = std::decay_t<decltype(*t)>; if (alloc) { f->allocate<T>() = nth<T>(v); f->send(); } else f->push(nth<T>(v)); }); q.push_back(v); ++writes; (void)c; }
    // asks for slots for n elements at once and fills them
    bool may_ask() { bool ok = false; as([&](auto *t) { ok = inline_nonclass_alloc<std::decay_t<decltype(*t)>>::value; }); return ok; }
    void request(size_t n) {
        ask = std::make_unique<Sender>(); asked = n; long from = next; next += (long)n;
        as([&](auto *t) { using T = std::decay_t<decltype(*t)>; if constexpr (inline_nonclass_alloc<T>::value) { FIFO *g = f; ask->start([g, n, from] { auto s = g->allocate_range<T>(n); if (s.size() != n) pbt::die_failing("allocate_range returned another number of slots than asked for"); if (g->capacity() < n) pbt::die_failing("allocate_range returned more slots than the queue has"); for (size_t i = 0; i < n; i++) s[i].get() = nth<T>(from + (long)i); g->send_range(); }); } });
        judge();
    }
    void again() { ask->go(); judge(); }
    void judge() { if (ask->done) { for (long v = next - (long)asked; v < next; v++) q.push_back(v); writes += (int)asked; ask.reset(); } else { waited = true; larger |= asked > cap; } }
};
}
// The monitor of the dynamic allocator, called on this thread: each of its pauses is where the links' ends get to act.
PROP(P24, growth, 6000, 200000, "a queue was grown, and another one with no requested size was not") {
    Web w(c, false, false); Graph &g = w.g; std::vector<Link> links; volatile bool stop = false; long pauses = 0; int len = (int)c.range(6, 30); bool any = false, over = false;
    for (auto &x : g.n) for (auto &p : x.out) if (p.second.other >= 0) any = true;
    if (!any) return;
    auto capacities = [&] { for (auto &l : links) c.require(l.f->capacity() == l.cap, "link ", l.name, " has room for ", l.f->capacity(), ", expected ", l.cap, " (grown ", l.grown, " times, its sender held up at ", l.held, " looks since)"); };
    auto judge = [&] {   // what the look just taken should have done
        for (auto &l : links) {
            if (l.larger) { l.larger = false; if (l.asked > l.cap) { l.cap = l.asked; l.held = 0; ++l.grown; c.label("grown to what its sender asked for"); continue; } }
            if (l.waited && l.writes == 1 && !l.sized && ++l.held == 4) { l.cap *= 2; l.held = 0; ++l.grown; c.label("queue doubled"); if (l.grown > 1) c.label("doubled again"); }
            l.waited = false; l.writes = 0;
        }
        capacities();
    };
    auto act = [&](Link &l, int kind) {
        switch (kind) {
        case 0: break;
        case 8: {   // slots for several elements asked for at once, possibly more than fit
            if (!l.may_ask()) break;
            for (int k = (int)c.pick(3); k-- > 0 && l.q.size() < l.cap;) l.push(c, false);
            l.request(l.sized || l.cap > 2000 || c.chance(1, 2) ? (size_t)c.range(1, (long)std::min<size_t>(l.cap, 300)) : l.cap + (size_t)c.size(1, 2 * l.cap)); c.label(l.larger ? "more slots asked for than the queue has" : l.ask ? "asked for slots that are taken" : "several slots at once");
            break;
        }
        case 1: { size_t room = l.cap - l.q.size(); for (; room; --room) l.push(c, c.chance(1, 4)); break; }                    // filled
        case 2: { for (int k = (int)c.range(1, 3); k-- > 0 && l.q.size() < l.cap;) l.push(c, false); break; }
        case 3: case 4: case 5: case 6: {   // the one write of this interval has to wait
            if (l.q.size() < l.cap) break;
            bool done = false; int after = (int)c.range(1, 3), n = 0; pbt::NoBlock nb("write after the receiver made room", 2000);
            pbt::yield_hook = [&] { if (!done && ++n == after) { done = true; auto h = std::move(pbt::yield_hook); pbt::yield_hook = nullptr; l.pop(c); pbt::yield_hook = std::move(h); } };
            l.push(c, c.chance(1, 4)); pbt::yield_hook = nullptr; c.require(done, "a write on the full link ", l.name, " did not wait"); l.waited = true; c.label("sender held up");
            if (kind == 6) { int more = (int)c.range(1, 5); for (int k = 0; k < more; k++) { l.pop(c); l.push(c, false); } c.label("held up for some of its writes"); }
            break;
        }
        default: for (int k = (int)c.range(1, 4); k-- > 0 && l.q.size();) l.pop(c);
        }
    };
    // every queue is large enough now for what was asked
    auto finish = [&] { for (auto &l : links) if (l.ask) { while (l.q.size()) l.pop(c); l.again(); c.require(!l.ask, "the sender of link ", l.name, " still waits for ", l.asked, " slots although the queue is empty and has room for ", l.f->capacity()); } };
    auto free = [&] { for (auto &l : links) for (int k = 0; l.ask; k++) { volatile bool no = false; pbt::yield_hook = nullptr; if (k > 100) pbt::die_failing("a sender waits for slots although there are enough"); for (int x = 0; l.f->size(); x++) l.f->recycle(1); if (l.asked > l.f->capacity()) l.f->resize(l.asked, 16, no); l.ask->go(); if (l.ask->done) l.ask.reset(); } };
    std::vector<int> mood;
    pbt::sleep_hook = [&] {
        if (over) { stop = true; return; }
        if (pauses++ == 0) {
            for (auto &x : g.n) for (auto &p : x.out) if (p.second.other >= 0) { int i = (int)(&x - &g.n[0]); PortInfo &a = PortAccess::info(x.real->output, p.first); auto k = std::make_shared<Collector>(); k->consumer(a.getFIFO()); k->producer(a.getFIFO()); links.push_back(Link(a.getFIFO(), k, p.second.type, p.second.buf ? p.second.buf : (size_t)INITIAL_ALLOC_SIZE, p.second.buf != 0, g.where(i) + "." + p.first)); mood.push_back((int)c.pick(4)); }
        } else judge();
        if (pauses > len) { finish(); stop = true; over = true; return; }
        std::string s;
        for (size_t i = 0; i < links.size(); i++) { auto &l = links[i]; int kind = mood[i] == 0 ? (int)c.weighted({4, 1, 3, 0, 0, 0, 0, 2, 1}) : l.q.size() < l.cap ? (int)c.weighted({1, 8, 1, 0, 0, 0, 0, 0, 1}) : (int)c.weighted({2, 0, 0, 8, 8, 8, 2, 1, 1}); if (l.ask) { if (c.chance(3, 4)) { if (c.chance(1, 2)) while (l.q.size()) l.pop(c); else act(l, 7); } kind = 9; if (c.chance(3, 4)) l.again(); } else act(l, kind); if (c.recording_notes() && kind) s += " " + l.name + (kind == 9 ? l.ask ? " still waiting" : " got its slots" : kind == 8 ? " asked for " + std::to_string(l.asked) : kind == 1 ? " filled" : kind == 2 ? " written" : kind == 6 ? " held up, then written" : kind < 6 ? " held up" : " read"); }
        c.note("pause ", pauses, ":", s);
    };
    // between pauses only the receivers act, to bring a queue that is being replaced into a state where that can be done
    long waits = 0; auto drain = [&] {
        if (++waits > 3000) { stop = true; if (waits > 6000) pbt::die_failing("the monitor waits although every queue was emptied"); return; }
        for (auto &l : links) if (l.q.size() && (waits > 500 || l.larger || (l.waited && l.writes == 1 && !l.sized && l.held == 3))) for (size_t k = 1 + l.q.size() / 400; k-- > 0;) l.pop(c);
        if (waits > 2) c.label("resize had to wait for the receiver");
    };
    std::exception_ptr err; auto inner = pbt::sleep_hook; pbt::sleep_hook = [&] { try { pbt::yield_hook = nullptr; inner(); } catch (...) { if (!err) err = std::current_exception(); stop = true; over = true; free(); } waits = 0; pbt::yield_hook = drain; };
    { Monitor d(*g.m, stop); d.run(); pbt::sleep_hook = nullptr; pbt::yield_hook = nullptr; free(); if (err) std::rethrow_exception(err);
      bool grew = false, kept = false; capacities(); for (auto &l : links) { if (!l.sized) (l.grown ? grew : kept) = true; if (l.sized && l.held) c.label("sized queue held up"); while (l.q.size()) l.pop(c); c.require(l.f->size() == 0, "link ", l.name, " holds more elements than were written"); }
      if (grew && kept) c.nontrivial(); }
}
// The same in maps of hundreds of links: what one link does is counted for that link only.
PROP(P24, many_links, 120, 4000, "a map of at least 200 links, some held up more often than others, of which some were grown") {
    bool chain = c.chance(1, 2), one = !chain && c.chance(1, 2); int n = (int)c.range(20, chain ? 700 : 1000); Arena::clear(); raft::map m; std::vector<GK *> ks; volatile bool stop = false;
    auto port = [&](const char *d, int i) { return d + std::to_string(i); };
    if (chain) { for (int i = 0; i <= n; i++) { GSpec s; if (i) s.in.push_back({"in", 0}); if (i < n) s.out.push_back({"out", 0}); ks.push_back(new GK(s)); } for (int i = 0; i < n; i++) m += *ks[i] >> *ks[i + 1]; }
    else {   // one source, one or several sinks
        int sinks = one ? 1 : (int)c.range(2, 9); std::vector<GSpec> sp(sinks); GSpec so; for (int i = 0; i < n; i++) { so.out.push_back({port("o", i), 0}); sp[i % sinks].in.push_back({port("i", i), 0}); }
        auto *src = new GK(so); for (auto &s : sp) ks.push_back(new GK(s)); for (int i = 0; i < n; i++) m += (*src)[port("o", i)] >> (*ks[i % sinks])[port("i", i)]; ks.push_back(src);
    }
    c.note(n, " links, ", chain ? "a chain" : one ? "all between two kernels" : "from one kernel to several");
    std::vector<FIFO *> f; std::vector<size_t> cap; std::vector<int> held(n), rate(n); std::vector<long> grown(n); std::vector<char> waited(n); int pauses = 0, len = (int)c.range(4, 9); long total = 0; bool over = false; std::exception_ptr err;
    std::vector<std::shared_ptr<Collector>> col;
    for (auto &r : rate) r = (int)c.weighted({2, 1, 1, 2}) * 2;   // of six
    long waits = 0; auto drain = [&] {
        if (++waits > 3000) { stop = true; if (waits > 6000) pbt::die_failing("the monitor waits although every queue was emptied"); return; }
        for (int i = 0; i < n; i++) if (((waited[i] && held[i] == 3) || waits == 500) && f[i]->size()) { int g; f[i]->pop(g); }
        if (waits == 500) for (int i = 0; i < n; i++) while (f[i]->size()) { int g; f[i]->pop(g); }
    };
    auto look = [&] {
        if (over) { stop = true; return; }
        if (!pauses++) for (int i = 0; i < n; i++) { GK *k = chain ? ks[i] : ks.back(); f.push_back(PortAccess::info(k->output, chain ? "out" : port("o", i)).getFIFO()); cap.push_back(INITIAL_ALLOC_SIZE); col.push_back(std::make_shared<Collector>()); col.back()->consumer(f[i]); col.back()->producer(f[i]); }
        else for (int i = 0; i < n; i++) {
            if (waited[i] && ++held[i] == 4) { cap[i] *= 2; held[i] = 0; ++grown[i]; ++total; }
            waited[i] = 0; c.require(f[i]->capacity() == cap[i], "link ", i, " has room for ", f[i]->capacity(), ", expected ", cap[i], " (grown ", grown[i], " times, its sender held up at ", held[i], " looks since)");
        }
        if (pauses > len) { stop = true; over = true; return; }
        for (int i = 0; i < n; i++) if ((int)c.pick(6) < rate[i]) {
            bool done = false; while (f[i]->size() < cap[i]) f[i]->push<int>(i);
            (void)f[i]->get_frac_write_blocked();   // as if the filling was counted at an earlier look
            pbt::NoBlock nb("write after the receiver made room", 2000);
            pbt::yield_hook = [&] { if (!done) { done = true; int g; f[i]->pop(g); } }; f[i]->push<int>(i); pbt::yield_hook = nullptr;
            c.require(done, "a write on the full link ", i, " did not wait"); waited[i] = 1;
        }
    };
    pbt::sleep_hook = [&] { pbt::yield_hook = nullptr; try { look(); } catch (...) { if (!err) err = std::current_exception(); stop = over = true; } waits = 0; pbt::yield_hook = drain; };
    { Monitor d(m, stop); d.run(); pbt::sleep_hook = nullptr; pbt::yield_hook = nullptr; }
    for (auto *k : ks) delete k;
    if (err) std::rethrow_exception(err);
    c.label(total ? "queue doubled" : "none doubled"); if (n >= 200 && total && total < n) c.nontrivial();
}
