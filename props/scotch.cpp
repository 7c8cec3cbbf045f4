// P36: what the graph partitioner of the map hands to the partitioning library,
// and what becomes of the answer. The library is played by the harness.
#include "gk.hpp"
#include <scotch.h>
#include <thread>
#include <partition_scotch.hpp>
#include "fifo.hpp"

namespace {
struct Lib {
    struct Arc { long to, w; }; std::vector<std::vector<Arc>> arcs; long graphs = 0, archs = 0, strats = 0, maps = 0, cores = 0; bool built = false; unsigned hw = 4; std::vector<int> answer; pbt::Case *c = nullptr; std::string err;
    static Lib &get() { static Lib l; return l; }
    void bad(const std::string &e) { if (err.empty()) err = e; }
};
}
unsigned std::thread::hardware_concurrency() noexcept { return Lib::get().hw; }
extern "C" {
int SCOTCH_graphInit(SCOTCH_Graph *) { ++Lib::get().graphs; return 0; }
int SCOTCH_graphBuild(SCOTCH_Graph *, SCOTCH_Num base, SCOTCH_Num n, const SCOTCH_Num *v, const SCOTCH_Num *ve, const SCOTCH_Num *velo, const SCOTCH_Num *, SCOTCH_Num m, const SCOTCH_Num *e, const SCOTCH_Num *w) {
    auto &l = Lib::get(); l.built = true; l.arcs.assign(n > 0 ? n : 0, {});
    if (base != 0 || n < 0 || m < 0) { l.bad("the graph has a negative size or is not zero based"); return 0; }
    if (velo) l.bad("vertices have weights");
    for (SCOTCH_Num i = 0; i < n; i++) {
        SCOTCH_Num a = v[i], b = ve ? ve[i] : v[i + 1];
        if (a < 0 || b < a || b > m) { l.bad("the arcs of a vertex are not in the arc table"); return 0; }
        for (SCOTCH_Num k = a; k < b; k++) { if (e[k] < 0 || e[k] >= n) l.bad("an arc leads to a vertex that does not exist"); else l.arcs[i].push_back({e[k], w ? w[k] : 1}); }
    }
    return 0;
}
int SCOTCH_graphCheck(SCOTCH_Graph *) { return 0; }
int SCOTCH_archInit(SCOTCH_Arch *) { ++Lib::get().archs; return 0; }
int SCOTCH_archCmplt(SCOTCH_Arch *, SCOTCH_Num n) { Lib::get().cores = n; return 0; }
int SCOTCH_stratInit(SCOTCH_Strat *) { ++Lib::get().strats; return 0; }
int SCOTCH_stratGraphClusterBuild(SCOTCH_Strat *, SCOTCH_Num, SCOTCH_Num, double, double) { return 0; }
// every vertex gets a number of its own, so that the vertex of a kernel can be told from its core
int SCOTCH_graphMap(SCOTCH_Graph *, SCOTCH_Arch *, SCOTCH_Strat *, SCOTCH_Num *p) { auto &l = Lib::get(); ++l.maps; for (size_t i = 0; i < l.arcs.size(); i++) p[i] = l.answer.at(i); return 0; }
void SCOTCH_graphExit(SCOTCH_Graph *) { --Lib::get().graphs; }
void SCOTCH_stratExit(SCOTCH_Strat *) { --Lib::get().strats; }
void SCOTCH_archExit(SCOTCH_Arch *) { --Lib::get().archs; }
}

PROP(P36, partition, 60000, 2000000, "there are more kernels than cores, a kernel with several links on one side, and the sources are not the first kernels in the map's order") {
    auto &l = Lib::get(); l = Lib(); l.c = &c; int n = (int)c.size(2, 24); l.hw = (unsigned)(c.chance(1, 3) ? c.range(n, n + 3) : c.range(1, n));
    // links a -> b between kernels ranked at random, at least one at every kernel
    std::vector<int> rank(n); for (int i = 0; i < n; i++) rank[i] = i; for (int i = n; i-- > 1;) std::swap(rank[i], rank[c.pick(i + 1)]);
    struct L { int a, b; std::string ap, bp; int t; }; std::vector<L> links; std::vector<GSpec> spec(n); std::vector<int> at(n, 0); std::set<std::pair<int, int>> have;
    auto add = [&](int x, int y) { int a = rank[x] < rank[y] ? x : y, b = a == x ? y : x; if (a == b || !have.insert({a, b}).second) return; L k{a, b, "o" + std::to_string(spec[a].out.size()), "i" + std::to_string(spec[b].in.size()), (int)c.pick(NTYPES)}; spec[a].out.emplace_back(k.ap, k.t); spec[b].in.emplace_back(k.bp, k.t); links.push_back(k); ++at[a]; ++at[b]; };
    for (int s = (int)c.size(0, 2 * n); s-- > 0;) add((int)c.pick(n), (int)c.pick(n));
    for (int i = 0; i < n; i++) if (!at[i]) add(i, (int)((i + 1 + c.pick(n - 1)) % n));
    bool wide = false; for (auto &s : spec) wide |= s.in.size() > 1 || s.out.size() > 1;
    for (int i = 0; i < 64; i++) l.answer.push_back(i * 3 + 100); for (int i = 64; i-- > 1;) std::swap(l.answer[i], l.answer[c.pick(i + 1)]);
    Arena::reset(c); GK::World::get().reset(); std::vector<std::unique_ptr<GK>> k; for (int i = 0; i < n; i++) k.push_back(std::make_unique<GK>(spec[i]));
    c.note(n, " kernels, ", l.hw, " cores"); for (auto &x : links) c.note("k", x.a, " -> k", x.b);
    raft::map m; for (auto &x : links) m.link(k[x.a].get(), x.ap, k[x.b].get(), x.bp);
    std::vector<core_id_t> group; for (auto &x : k) { if (c.chance(1, 4)) x->setAffinityGroup((core_id_t)c.pick(9)); group.push_back(KernelAccess::group(*x)); }
    bool first_src = true; { auto all = MapAccess::all(m); bool seen = false; for (auto *x : all) { GK *g = dynamic_cast<GK *>(x); if (!g->spec.in.empty()) seen = true; else if (seen) first_src = false; } }
    const auto before = MapAccess::all(m); m.exe<partition_scotch, NullSched, NullAlloc, NullPar>(); c.require(MapAccess::all(m) == before, "partitioning changed the kernels of the map");
    std::set<long> used; for (int i = 0; i < n; i++) { long v = (long)k[i]->getCoreAssignment(); c.require(v >= 0, "k", i, " has not been given a core"); c.require(used.insert(v).second, "k", i, " shares core ", v, " with another kernel although every vertex has been given one of its own"); c.require(KernelAccess::group(*k[i]) == group[i], "the partitioner changed the affinity group of k", i); }
    if ((unsigned)n <= l.hw) { for (long v : used) c.require(v < (long)l.hw, "a kernel is on core ", v, " of ", l.hw); c.label("a core for every kernel"); return; }
    c.require(l.built && l.maps == 1, "the graph was not partitioned once"); c.require(l.err.empty(), l.err);
    c.require(l.cores == (long)l.hw, "partitioned for ", l.cores, " cores of ", l.hw); c.require((int)l.arcs.size() == n, l.arcs.size(), " vertices for ", n, " kernels");
    c.require(!l.graphs && !l.archs && !l.strats, "objects of the partitioning library are not given back");
    std::map<long, int> vert; for (int v = 0; v < n; v++) vert[l.answer[v]] = v;
    std::vector<int> of(n); for (int i = 0; i < n; i++) { auto it = vert.find((long)k[i]->getCoreAssignment()); c.require(it != vert.end(), "k", i, " was given core ", k[i]->getCoreAssignment(), ", which the answer does not hold"); of[i] = it->second; }
    std::map<std::pair<int, int>, long> want, got; for (auto &x : links) { ++want[{of[x.a], of[x.b]}]; ++want[{of[x.b], of[x.a]}]; }
    for (int v = 0; v < n; v++) for (auto &a : l.arcs[v]) { c.require(a.w > 0, "an arc has weight ", a.w); got[{v, (int)a.to}] += a.w; }
    c.require(got == want, "the kernels' parts belong to a graph other than that of the map: ", [&] { std::ostringstream o; for (auto &e : want) if (!got.count(e.first)) o << "no arc for a link between the kernels on cores " << l.answer[e.first.first] << " and " << l.answer[e.first.second] << "; "; for (auto &e : got) if (!want.count(e.first)) o << "an arc between the kernels on cores " << l.answer[e.first.first] << " and " << l.answer[e.first.second] << " without link; "; return o.str(); }());
    if (wide && !first_src) c.nontrivial();
}
