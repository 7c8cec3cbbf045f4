// gk.hpp - kernels with generated ports, and access to what a map recorded.
#pragma once
#include <cstdint>
#include <raft>
#include "pbt.hpp"
#include "elems.hpp"
#include "arena.hpp"
#include <set>
#include <map>
#include <vector>
#include <string>
#include <memory>
#include "graphtools.hpp"
#include "makedot.hpp"
#include "port_info.hpp"
#include "portexception.hpp"
#include "kernelexception.hpp"
#include "mapexception.hpp"

struct PortAccess : Port {
    using PM = portmap_t;
    static PM &map(Port &p) { PM Port::*m = &PortAccess::portmap; return p.*m; }
    static PortInfo &info(Port &p, const std::string &n) { return map(p).map.at(n); }
};
struct MapAccess : raft::map {
    static std::set<raft::kernel *> keep(kernelkeeper &k) { std::set<raft::kernel *> s = k.acquire(); k.release(); return s; }
    static std::set<raft::kernel *> all(raft::map &m) { kernelkeeper MapBase::*p = &MapAccess::all_kernels; return keep(m.*p); }
    static std::set<raft::kernel *> src(raft::map &m) { kernelkeeper MapBase::*p = &MapAccess::source_kernels; return keep(m.*p); }
    static std::set<raft::kernel *> dst(raft::map &m) { kernelkeeper MapBase::*p = &MapAccess::dst_kernels; return keep(m.*p); }
};
struct KernelAccess : raft::kernel {
    static core_id_t group(raft::kernel &k) { core_id_t raft::kernel::*p = &KernelAccess::affinity_group; return k.*p; }
};

struct GSpec { int cls = 0; std::vector<std::pair<std::string, int>> in, out; };
struct Obj4 { unsigned char b[100]; };
constexpr int NTYPES = 5;
inline const char *gtype(int t) { static const char *n[] = {"int", "float", "string", "struct100", "uint8"}; return n[t]; }
inline const std::type_info &gtypeid(int t) {
    switch (t) { case 0: return typeid(int); case 1: return typeid(float); case 2: return typeid(std::string); case 3: return typeid(Obj4); default: return typeid(uint8_t); }
}
inline void add_port(Port &p, const std::string &n, int t) {
    switch (t) {
    case 0: p.addPort<int>(n); break; case 1: p.addPort<float>(n); break; case 2: p.addPort<std::string>(n); break;
    case 3: p.addPort<Obj4>(n); break; default: p.addPort<uint8_t>(n);
    }
}
struct GK : raft::kernel { IN_ARENA
    // every kernel alive, with how often each was fired
    struct World { std::map<GK *, long> live; long born = 0, died = 0, fired = 0, serial = 0; GK *last = nullptr; std::vector<GK *> order; static World &get() { static World w; return w; } void reset() { *this = World(); } };
    GSpec spec; long serial; GK *origin; bool cloned;
    explicit GK(const GSpec &s) : raft::kernel(), spec(s), origin(this), cloned(false) { init(); }
    GK(const GK &o) : raft::kernel(), spec(o.spec), origin(o.origin), cloned(true) { init(); }
    ~GK() override { auto &w = World::get(); ++w.died; if (!w.live.erase(this)) pbt::die_failing("lifetime: kernel destroyed twice"); }
    void init() {
        auto &w = World::get(); serial = w.serial++; ++w.born; w.live[this] = 0; w.last = this; w.order.push_back(this);
        for (auto &p : spec.in) add_port(input, p.first, p.second);
        for (auto &p : spec.out) add_port(output, p.first, p.second);
    }
    raft::kstatus run() override { ++World::get().fired; ++World::get().live[this]; return raft::stop; }
    bool internal() const { return internal_alloc; }
};
struct GKc : GK { using GK::GK; GKc(const GKc &o) : GK(o) {} CLONE() };

// exe() without the machinery: what the map hands to its scheduler can be looked at
struct NullPar { template <class... A> NullPar(A &&...) {} void start() {} };
struct NullSched {
    static std::function<void(raft::map &)> &hook() { static std::function<void(raft::map &)> f; return f; }
    raft::map &m; explicit NullSched(raft::map &m) : m(m) {}
    void init() {} void start() { if (hook()) hook()(m); }
};
struct NullAlloc { NullAlloc(raft::map &, volatile bool &) {} void run() {} void waitTillReady() {} };
