// Kernel sets, in the variant of the header that can be used (see DESIGN.md), and generators with several ports.
#define TEST_WO_RAFT 1
#define STATICPORT 3
#include "gk.hpp"
#include "kset.tcc"
#include "random.tcc"
#include "ringbuffer.tcc"

namespace {
struct KK : raft::kernel { long tag; explicit KK(long t) : raft::kernel(), tag(t) {} raft::kstatus run() override { return raft::stop; } };
struct KD : KK { using KK::KK; };
template <class S> void look(pbt::Case &c, S &&s, const std::vector<const void *> &want) {
    for (int pass = 0; pass < 2; pass++) {
        c.require(s.size() == want.size(), "size() is ", s.size(), ", the set was given ", want.size()); size_t i = 0;
        for (auto it = s.cbegin(); it != s.cend(); ++it, ++i) { c.require(i < want.size(), "iteration does not end"); c.require((const void *)&it->get() == want[i], "member ", i, " is another one"); } c.require(i == want.size(), "iteration meets ", i, " members"); i = 0;
        for (auto &x : s) { c.require(i < want.size() && (const void *)&x.get() == want[i], "member ", i, " is another one"); ++i; } c.require(i == want.size(), "iteration meets ", i, " members");
    }
    auto t(std::move(s)); size_t i = 0; for (auto &x : t) { c.require(i < want.size() && (const void *)&x.get() == want[i], "after moving the set member ", i, " is another one"); ++i; } c.require(i == want.size(), "after moving the set it has ", i, " members");
}
template <class E, size_t... I> void set_case(pbt::Case &c, std::vector<std::unique_ptr<E>> &v, const std::vector<size_t> &ix, std::index_sequence<I...>) {
    std::vector<const void *> want; for (size_t i = 0; i < sizeof...(I); i++) want.push_back(v[ix[i]].get()); look(c, raft::kset(*v[ix[I]]...), want);
}
template <class E> void set_of(pbt::Case &c, std::vector<std::unique_ptr<E>> &v, const std::vector<size_t> &ix) {
    switch (ix.size()) { case 1: set_case(c, v, ix, std::make_index_sequence<1>{}); break; case 2: set_case(c, v, ix, std::make_index_sequence<2>{}); break; case 3: set_case(c, v, ix, std::make_index_sequence<3>{}); break; case 4: set_case(c, v, ix, std::make_index_sequence<4>{}); break; case 5: set_case(c, v, ix, std::make_index_sequence<5>{}); break; case 7: set_case(c, v, ix, std::make_index_sequence<7>{}); break; default: set_case(c, v, ix, std::make_index_sequence<6>{}); }
}
}
PROP(P29, sets, 40000, 1000000, "a set of at least three with a repeated member") {
    std::vector<size_t> ix((size_t)c.range(1, 7)); bool rep = false; std::set<size_t> seen; for (auto &x : ix) { x = c.pick(8); rep |= !seen.insert(x).second; } if (ix.size() > 2 && rep) c.nontrivial(); { std::string t; for (auto x : ix) t += " " + std::to_string(x); c.note("set of", t); }
    switch (c.pick(4)) {
    case 0: { std::vector<std::unique_ptr<int>> v; for (int i = 0; i < 8; i++) v.push_back(std::make_unique<int>(i)); set_of(c, v, ix); break; }
    case 1: { std::vector<std::unique_ptr<std::string>> v; for (int i = 0; i < 8; i++) v.push_back(std::make_unique<std::string>("x")); set_of(c, v, ix); break; }
    case 2: { std::vector<std::unique_ptr<KK>> v; for (int i = 0; i < 8; i++) v.push_back(std::make_unique<KK>(i)); set_of(c, v, ix); break; }
    default: { KK a(1); KD b(2), d(3); KK e(4); c.label("mixed classes"); switch (c.pick(3)) { case 0: look(c, raft::kset(a, b), {static_cast<KK *>(&a), static_cast<KK *>(&b)}); break; case 1: look(c, raft::kset(b, a, d), {static_cast<KK *>(&b), static_cast<KK *>(&a), static_cast<KK *>(&d)}); break; default: look(c, raft::kset(a, b, d, e, b), {static_cast<KK *>(&a), static_cast<KK *>(&b), static_cast<KK *>(&d), static_cast<KK *>(&e), static_cast<KK *>(&b)}); } }
    }
}

PROP(P27, variate_ports, 20000, 500000, "the number of values is not a multiple of the number of ports") {
    using K = raft::random_variate<std::mt19937, std::uniform_int_distribution, unsigned>; unsigned lo = (unsigned)c.pick(100), hi = lo + (unsigned)c.pick(50); size_t n = (size_t)c.size(0, 60), got = 0; K first(n, lo, hi); std::unique_ptr<raft::kernel> cl; raft::kernel *k = &first; if (c.chance(1, 2)) { cl.reset(first.clone()); k = cl.get(); }
    c.note(n, " values over 3 ports", cl ? " (copy)" : ""); c.require(k->output.count() == 3, "the generator has ", k->output.count(), " outputs"); std::vector<std::unique_ptr<FIFO>> f; std::vector<size_t> per; if (n % 3) c.nontrivial();
    for (int i = 0; i < 3; i++) { f.emplace_back(RingBuffer<unsigned, Type::Heap, false>::make_new_fifo((size_t)c.range(1, 5), 16, nullptr)); PortAccess::info(k->output, std::to_string(i)).setFIFO(f.back().get()); per.push_back(0); }
    raft::kstatus r = raft::proceed;
    for (size_t i = 0; r == raft::proceed; i++) { c.require(i <= n + 1, "the generator does not stop"); { pbt::NoBlock nb("generator"); r = k->run(); } for (int j = 0; j < 3; j++) while (f[j]->size()) { unsigned v; f[j]->pop(v); ++got; ++per[j]; c.require(v >= lo && v <= hi, "value ", v, " is outside ", lo, "..", hi); } }
    c.require(got == n, got, " values were generated, asked for ", n);
}
