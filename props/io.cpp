// P19..P23: the kernels that stream arrays, containers, files and text, in
// generated graphs run by the real scheduler under generated schedules.
#include "pipe.hpp"
#include "raftio"
#include "search.tcc"
#include <deque>
#include <forward_list>
#include <dirent.h>
using pipe::Cod;
namespace {
void warm(pbt::Case &c) { static bool w = false; if (!w) { w = true; Ledger::get(); } Ledger::get().reset(); Arena::reset(c); }
struct Run { bool dyn; sched::Plan plan; explicit Run(pbt::Case &c) { dyn = c.chance(1, 4); plan = sched::draw(c); plan.max_steps = 160000000; plan.max_switches = 800000; }   // a file reader whose queue is full looks at it again without yielding: a whole slice each time
    void operator()(pbt::Case &c, raft::map &m) { sched::run(c, plan, [&] { if (dyn) m.exe<partition_dummy, simple_schedule, dynalloc, no_parallel>(); else m.exe<partition_dummy, simple_schedule, stdalloc, no_parallel>(); pipe::settle(); }); } };
size_t qsize(pbt::Case &c) { return c.chance(3, 4) ? (size_t)c.size(1, 6) : 0; }

// ---------------------------------------------------------------- P19
template <class T> struct ArrSink : raft::kernel { IN_ARENA
    T *base; size_t lo, n, at = 0, start; int api; size_t batch; int lazy; bool write, relayed; size_t len;
    ArrSink(T *base, size_t lo, size_t n, int api, size_t batch, int lazy, bool write, bool relayed, size_t len) : base(base), lo(lo), n(n), start(lo), api(api), batch(batch), lazy(lazy), write(write), relayed(relayed), len(len) { input.template addPort<T>("0"); }
    static uint64_t before(size_t i) { return i * 3 + 1; }
    static uint64_t after(size_t i) { return i * 5 + 2; }
    void bad(const std::string &s) { std::ostringstream o; o << "for_each: " << s << " at element " << lo + at << " of the port's share " << lo << "+" << n; pbt::die_failing(o.str()); }
    void look(const T *p, uint64_t v) { if (at >= n) bad("more elements than the share of the port"); if (p && !relayed && p != base + lo + at) bad("element is not in the caller's array at its place"); if (p && relayed && p >= base - 1 && p <= base + len) bad("an element pushed on by the kernel that peeked it still is the caller's memory"); if (v != before(lo + at)) bad("wrong element"); }
    raft::kstatus run() override {
        for (int i = 0; i < lazy; i++) sched::point();
        auto &f = input["0"]; size_t k = std::min(f.size(), batch); if (!k) bad("fired with an empty queue");
        if constexpr (inline_alloc<T>::value) if (api == 3) {
            { auto r = f.template peek_range<T>(k); if (!relayed && r.getindex() != lo) bad("index of the window's start is " + std::to_string(r.getindex()));
              for (size_t i = 0; i < k; i++, at++) { auto p = r[i]; look(&p.ele, Cod<T>::dec(p.ele)); if (!relayed && p.sig.getindex() != lo + at) bad("element index is " + std::to_string(p.sig.getindex())); if (write) p.ele = Cod<T>::enc(after(lo + at)); } }
            f.recycle(k); return raft::proceed;
        }
        if (api == 4) { std::vector<std::pair<T, raft::signal>> v(k, std::make_pair(Cod<T>::enc(0), raft::none)); f.template pop_range<T>(v, k); for (auto &p : v) { look(nullptr, Cod<T>::dec(p.first)); if (p.second != raft::none) bad("signal nobody sent"); at++; } return raft::proceed; }
        for (; k-- > 0; at++) {
            raft::signal s = raft::none;
            if (api == 1) { auto p = f.template pop_s<T>(); look(&*p, Cod<T>::dec(*p)); s = p.sig(); }
            else if (api == 2 || api == 3) { T &r = f.template peek<T>(&s); look(&r, Cod<T>::dec(r)); if (write) r = Cod<T>::enc(after(lo + at)); f.unpeek(); f.recycle(); }
            else { T t = Cod<T>::enc(0); f.template pop<T>(t, &s); look(nullptr, Cod<T>::dec(t)); }
            if (s != raft::none) bad("signal nobody sent");
        }
        return raft::proceed;
    }
};
// peeks the caller's elements and pushes them on: what it pushes has to be a
// copy, the array is not the stream's to give away
template <class T> struct ArrRelay : raft::kernel { IN_ARENA
    size_t batch; int mode, lazy; ArrRelay(size_t batch, int mode, int lazy) : batch(batch), mode(mode), lazy(lazy) { input.template addPort<T>("0"); output.template addPort<T>("0"); }
    raft::kstatus run() override {
        for (int i = 0; i < lazy; i++) sched::point();
        auto &f = input["0"]; auto &o = output["0"]; 
        for (size_t k = std::min(f.size(), batch); k-- > 0;) {
            if (mode == 0) { T &r = f.template peek<T>(); o.template push<T>(r); f.unpeek(); f.recycle(); }
            else if (mode == 1) { T &r = f.template peek<T>(); o.template push<T>(r); f.recycle(); }
            else if (mode == 2) { auto p = f.template pop_s<T>(); o.push(*p); }
            else { T t = Cod<T>::enc(0); f.template pop<T>(t); o.template push<T>(t); }
        }
        return raft::proceed;
    }
};
template <class T> void each(pbt::Case &c) {
    size_t n = (size_t)c.size(0, 60), ports = (size_t)c.range(1, 5); bool deflt = ports == 1 && c.chance(1, 2);
    c.note(Val<T>::name(), " array of ", n, " over ", ports, " ports");
    { 
        std::vector<T> arr; arr.reserve(n + 2); for (size_t i = 0; i < n + 2; i++) arr.push_back(Cod<T>::enc(i && i <= n ? ArrSink<T>::before(i - 1) : 77));
        T *base = arr.data() + 1; std::vector<std::unique_ptr<ArrSink<T>>> sinks; std::vector<std::unique_ptr<ArrRelay<T>>> relays;
        {
            std::unique_ptr<Placed<raft::for_each<T>>> fe(deflt ? new Placed<raft::for_each<T>>(base, n) : new Placed<raft::for_each<T>>(base, n, ports));
            raft::map m; size_t inc = n / ports;
            for (size_t i = 0; i < ports; i++) {
                size_t lo = i * inc, len = i + 1 == ports ? n - lo : inc; (void)len;
                bool relay = c.chance(1, 4);
                sinks.push_back(std::make_unique<ArrSink<T>>(base, lo, len, (int)c.pick(5), (size_t)c.range(1, 8), c.chance(1, 4) ? 5 : 0, c.chance(1, 2), relay, n));
                if (!relay) { m.link(fe.get(), std::to_string(i), sinks.back().get(), "0"); continue; }
                relays.push_back(std::make_unique<ArrRelay<T>>((size_t)c.range(1, 8), (int)c.pick(4), c.chance(1, 4) ? 5 : 0)); c.label("pushed on by a kernel between");
                m.link(fe.get(), std::to_string(i), relays.back().get(), "0"); m.link(relays.back().get(), "0", sinks.back().get(), "0", qsize(c));
            }
            Run r(c); r(c, m);
        }
        for (auto &s : sinks) c.require(s->at == s->n, "for_each: a port's share of ", s->n, " elements from ", s->lo, ", ", s->at, " were received");
        for (size_t i = 0; i < n; i++) {
            ArrSink<T> *s = nullptr; for (auto &x : sinks) if (i >= x->lo && i < x->lo + x->n) s = x.get();
            bool w = s->write && !s->relayed && (s->api == 2 || s->api == 3);
            c.require(Cod<T>::dec(base[i]) == (w ? ArrSink<T>::after(i) : ArrSink<T>::before(i)), "element ", i, w ? " does not show what was written through the stream" : " of the caller's array was changed");
        }
        c.require(Cod<T>::dec(arr[0]) == 77 && Cod<T>::dec(arr[n + 1]) == 77, "memory outside the array was changed");
    }
    c.require(Ledger::get().live.empty(), Ledger::get().live.size(), " objects alive after the array is gone");
    if (n % ports) c.label("length is not a multiple of the ports"); if (n < ports) c.label("fewer elements than ports"); if (n > 3 && ports > 1) c.nontrivial();
}
template <class... Ts, class F> void by_type(pbt::Case &c, F f) { size_t t = c.pick(sizeof...(Ts)), i = 0; ((i++ == t ? f((Ts *)nullptr) : void()), ...); }

// ---------------------------------------------------------------- P20
template <class T, class C> void round_trip(pbt::Case &c, const char *cn) {
    size_t n = (size_t)c.size(0, 80), pre = (size_t)c.pick(3); unsigned dest = (unsigned)c.pick(3); bool lv = c.chance(1, 3);
    c.note(cn, "<", Val<T>::name(), "> of ", n, " elements");
    {
        C src; { std::vector<T> t; for (size_t i = 0; i < n; i++) t.push_back(Cod<T>::enc(i * 7 + 1)); src.assign(t.begin(), t.end()); }
        std::vector<T> v; std::list<T> l; std::deque<T> d; for (size_t i = 0; i < pre; i++) { v.push_back(Cod<T>::enc(5)); l.push_back(Cod<T>::enc(5)); d.push_back(Cod<T>::enc(5)); }
        auto play = [&](auto &out) {
            size_t q = qsize(c);
            { auto re = raft::read_each<T>(src.begin(), src.end()); auto we = raft::write_each<T>(std::back_inserter(out)); raft::map m; 
              if (q) m.link(&re, "0", &we, "0", q); else m += re >> we; Run r(c); r(c, m); }
            size_t i = 0; for (auto &e : out) { c.require(Cod<T>::dec(e) == (i < pre ? 5 : (i - pre) * 7 + 1), "element ", i, " of the destination is wrong"); ++i; }
            c.require(i == n + pre, "destination has ", i, " elements, ", pre, " before and ", n, " streamed");
        };
        (void)lv; if (dest == 0) play(v); else if (dest == 1) play(l); else play(d);
        size_t i = 0; for (auto &e : src) { c.require(Cod<T>::dec(e) == i * 7 + 1, "element ", i, " of the source container was changed"); ++i; } c.require(i == n, "source container changed its length");
    }
    c.require(Ledger::get().live.empty(), Ledger::get().live.size(), " objects alive after the containers are gone");
    if (!n) c.label("empty container"); if (n > 3) c.nontrivial();
}

// ---------------------------------------------------------------- P21 / P22
int open_files() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) ++n; closedir(d); return n; }
struct ChunkRec { size_t start, length; uint64_t index; std::string data; raft::signal sig; bool term; };
template <class CH> struct ChunkSink : raft::kernel { IN_ARENA
    std::vector<ChunkRec> *out; int api, lazy;
    ChunkSink(std::vector<ChunkRec> *out, int api, int lazy) : out(out), api(api), lazy(lazy) { input.template addPort<CH>("0"); }
    void rec(CH &k, raft::signal s) { sched::NoSwitch ns; size_t n = std::min(k.length, CH::getChunkSize()); out->push_back({k.start_position, k.length, k.index, std::string(k.buffer, n), s, k.length < CH::getChunkSize() && k.buffer[k.length] == 0}); }
    raft::kstatus run() override {
        for (int i = 0; i < lazy; i++) sched::point();
        auto &f = input["0"]; raft::signal s = raft::none;
        if (api == 0) { CH k; f.template pop<CH>(k, &s); rec(k, s); }
        else if (api == 1) { auto p = f.template pop_s<CH>(); rec(const_cast<CH &>(*p), p.sig()); }
        else if (api == 2) { CH &r = f.template peek<CH>(&s); CH k(r); f.unpeek(); f.recycle(); rec(k, s); }
        else { CH &r = f.template peek<CH>(&s); rec(r, s); f.unpeek(); f.recycle(); }
        return raft::proceed;
    }
};
struct TmpFile { std::string name; TmpFile(const std::string &content) { name = std::string(pbt::scratch()) + "/f"; FILE *f = fopen(name.c_str(), "w"); fwrite(content.data(), 1, content.size(), f); fclose(f); } ~TmpFile() { remove(name.c_str()); } };
std::string draw_text(pbt::Case &c, size_t n) { std::string s; unsigned a = (unsigned)c.range(1, 3); bool bin = c.chance(1, 5); for (size_t i = 0; i < n; i++) s += bin ? (char)c.pick(256) : (char)('a' + c.pick(a)); return s; }
template <size_t N> void read_file(pbt::Case &c) {
    using CH = raft::filechunk<N>; constexpr size_t cap = N - 1;
    size_t size = c.chance(1, 3) ? cap * (size_t)c.pick(6) + (size_t)c.pick(2) : (size_t)c.size(0, 6 * cap); if (size > 260) size = 260; 
    long off = c.chance(1, 2) ? 0 : (long)c.range(0, cap - 1); size_t ports = (size_t)c.weighted({5, 2, 1}) + 1; std::string text = draw_text(c, size);
    c.note("file of ", size, " bytes, chunk of ", N, ", overlap ", off, ", ", ports, " ports");
    TmpFile tf(text); int fds = open_files(); std::vector<std::vector<ChunkRec>> got(ports);
    {
        raft::filereader<CH> fr(tf.name, off, ports); std::vector<std::unique_ptr<ChunkSink<CH>>> s; raft::map m;
        for (size_t i = 0; i < ports; i++) { s.push_back(std::make_unique<ChunkSink<CH>>(&got[i], (int)c.pick(4), c.chance(1, 3) ? (int)c.range(1, 20) : 0)); m.link(&fr, std::to_string(i), s.back().get(), "0", qsize(c)); }
        Run r(c); r(c, m);
    }
    c.require(open_files() == fds, "the file is still open after the reader is gone");
    std::map<uint64_t, ChunkRec> all; 
    for (auto &g : got) { uint64_t last = 0; bool first = true; for (auto &k : g) { c.require(all.emplace(k.index, k).second, "two chunks with number ", k.index); c.require(first || k.index > last, "chunks out of order on one port"); last = k.index; first = false; } }
    size_t pos = 0, i = 0, end = 0;
    for (auto &kv : all) {
        auto &k = kv.second; c.require(k.index == i, "chunk number ", k.index, " follows ", i - 1); c.require(k.length <= cap, "chunk length ", k.length, " does not fit a chunk of ", N); c.require(k.term, "chunk is not terminated at its length");
        c.require(k.start == pos, "chunk ", i, " starts at ", k.start, ", expected at ", pos);
        c.require(k.start + k.length <= size && k.data == text.substr(k.start, k.length), "chunk ", i, " at ", k.start, " of length ", k.length, " differs from the file");
        if (i) c.require(k.length > (size_t)off || size == 0, "chunk ", i, " at ", k.start, " has ", k.length, " bytes and adds nothing to the overlap of ", off);
        end = k.start + k.length; pos = end - std::min<size_t>(end, (size_t)off); ++i;
    }
    c.require(end == size, "chunks end at ", end, " of ", size, " bytes");
    c.require(i >= 1, "no chunk at all");
    if (ports == 1) for (size_t j = 0; j < got[0].size(); j++) c.require((got[0][j].sig == raft::eof) == (j + 1 == got[0].size()), "chunk ", j, " of ", got[0].size(), " carries signal ", (uint32_t)got[0][j].sig);
    if (off) c.label("overlap"); if (!size) c.label("empty file"); if (size && size % cap == 0) c.label("multiple of the chunk size"); if (ports > 1) c.label("several ports"); if (i > 2) c.nontrivial();
}

struct MatchSink : raft::kernel { IN_ARENA
    std::vector<raft::match_t> *out; explicit MatchSink(std::vector<raft::match_t> *out) : out(out) { input.addPort<raft::match_t>("0"); }
    raft::kstatus run() override { raft::match_t x; input["0"].pop<raft::match_t>(x); sched::NoSwitch ns; out->push_back(x); return raft::proceed; }
};
template <class CH> struct ChunkFeed : raft::kernel { IN_ARENA
    std::string text; std::vector<std::pair<size_t, size_t>> cuts; size_t at = 0;
    ChunkFeed(std::string text, std::vector<std::pair<size_t, size_t>> cuts) : text(std::move(text)), cuts(std::move(cuts)) { output.template addPort<CH>("0"); }
    raft::kstatus run() override {
        if (at < cuts.size()) { auto k = output["0"].template allocate_s<CH>(); auto &x = *k; x.start_position = cuts[at].first; x.length = cuts[at].second; x.index = at; memcpy(x.buffer, text.data() + x.start_position, x.length); x.buffer[x.length] = 0; ++at; }
        return at == cuts.size() ? raft::stop : raft::proceed;
    }
};
template <size_t N> void search_file(pbt::Case &c) {
    using CH = raft::filechunk<N>; constexpr size_t cap = N - 1; using se = raft::search<CH, raft::stdlib>;
    size_t size = c.chance(1, 3) ? cap * (size_t)c.pick(6) + (size_t)c.pick(2) : (size_t)c.size(0, 6 * cap); if (size > 260) size = 260; 
    size_t tl = (size_t)c.range(1, std::min<size_t>(cap, 5)); std::string text = draw_text(c, size), term;
    if (size > tl && c.chance(2, 3)) term = text.substr(c.pick(size - tl), tl); else term = draw_text(c, tl);
    bool direct = c.chance(1, 3); size_t ports = direct ? 1 : (size_t)c.weighted({5, 2, 1}) + 1; 
    c.note("term of ", tl, " in ", size, " bytes", direct ? " fed directly" : " from a file", ", chunks of ", N, ", ", ports, " ports; text '", text, "' term '", term, "'");
    std::vector<std::vector<raft::match_t>> got(ports); std::vector<std::unique_ptr<raft::kernel>> own; TmpFile tf(text);
    std::vector<std::pair<size_t, size_t>> cuts;
    {
        raft::map m; raft::kernel *from;
        if (direct) { for (size_t p = 0; ; ) { size_t l = std::min<size_t>(size - p, (size_t)c.range(tl, cap)); cuts.emplace_back(p, l); if (p + l == size) break; p += l - (tl - 1); } own.push_back(std::make_unique<ChunkFeed<CH>>(text, cuts)); }
        else own.push_back(std::make_unique<Placed<raft::filereader<CH>>>(tf.name, (long)tl - 1, ports));
        from = own.back().get();
        for (size_t i = 0; i < ports; i++) { 
            if (c.chance(1, 2)) own.push_back(std::make_unique<Placed<se>>(term)); else own.push_back(std::make_unique<Placed<se>>(std::string(term))); auto *s = own.back().get(); own.push_back(std::make_unique<MatchSink>(&got[i])); auto *k = own.back().get();
            m.link(from, std::to_string(i), s, "0", qsize(c)); m.link(s, "0", k, "0", qsize(c)); }
        Run r(c); r(c, m);
    }
    std::vector<size_t> want, have; for (size_t p = 0; p + tl <= size; p++) if (!text.compare(p, tl, term)) want.push_back(p);
    for (auto &g : got) { for (size_t i = 0; i < g.size(); i++) { c.require(g[i].second == g[i].first + tl, "match at ", g[i].first, " ends at ", g[i].second, ", the term has ", tl, " bytes"); c.require(!i || g[i].first > g[i - 1].first, "matches out of order: ", g[i].first, " after ", i ? g[i - 1].first : 0); have.push_back(g[i].first); } }
    std::sort(have.begin(), have.end());
    for (size_t i = 0; i < have.size() || i < want.size(); i++) {
        if (i >= have.size() || (i < want.size() && want[i] < have[i])) c.fail("occurrence at " + std::to_string(want[i]) + " was not reported");
        if (i >= want.size() || have[i] < want[i]) c.fail("position " + std::to_string(have[i]) + (i && have[i] == have[i - 1] ? " was reported twice" : " was reported but the term is not there"));
    }
    if (want.size() > 1 && size > cap) c.nontrivial(); if (ports > 1) c.label("several searches"); if (direct) c.label("uneven chunks");
}

// ---------------------------------------------------------------- P23
struct Big { uint64_t id = 0; char pad[90]; };
inline std::ostream &operator<<(std::ostream &o, const Big &b) { return o << "<" << b.id << ">"; }
template <class T> struct Pr; 
template <> struct Pr<int> { static int mk(size_t p, size_t i) { return (int)((p + 1) * 1000 + i) * (i % 2 ? -1 : 1); } static const char *name() { return "int"; } };
template <> struct Pr<uint64_t> { static uint64_t mk(size_t p, size_t i) { return (p + 1) * 1000 + i; } static const char *name() { return "uint64"; } };
template <> struct Pr<char> { static char mk(size_t p, size_t i) { return (char)('A' + (p * 7 + i * 3) % 50); } static const char *name() { return "char"; } };
template <> struct Pr<double> { static double mk(size_t p, size_t i) { return (double)p + (double)i / 64; } static const char *name() { return "double"; } };
template <> struct Pr<std::string> { static std::string mk(size_t p, size_t i) { return std::string(1, (char)('a' + p)) + std::string(i % 23, '.') + std::to_string(i); } static const char *name() { return "string"; } };
template <> struct Pr<Big> { static Big mk(size_t p, size_t i) { Big b; b.id = (p + 1) * 1000 + i; return b; } static const char *name() { return "struct"; } };
template <class T> struct PrFeed : raft::kernel { IN_ARENA
    size_t p, n, at = 0, batch; int lazy; PrFeed(size_t p, size_t n, size_t batch, int lazy) : p(p), n(n), batch(batch), lazy(lazy) { output.template addPort<T>("0"); }
    raft::kstatus run() override { for (int i = 0; i < lazy; i++) sched::point(); for (size_t k = 0; k < batch && at < n; k++, at++) { T t = Pr<T>::mk(p, at); output["0"].template push<T>(t); } return at == n ? raft::stop : raft::proceed; }
};
template <class T, char D> void print_all(pbt::Case &c) {
    size_t ports = (size_t)c.range(1, 4); std::vector<size_t> n; bool copy = c.chance(1, 3); for (size_t i = 0; i < ports; i++) n.push_back((size_t)c.size(0, 25));
    c.note("print<", Pr<T>::name(), ", ", (int)D, "> with ", ports, " ports", copy ? ", a copy" : "");
    std::ostringstream out; std::vector<std::unique_ptr<raft::kernel>> own;
    {
        raft::map m; auto *pr = new Placed<raft::print<T, D>>(out, ports); own.emplace_back(pr); raft::kernel *k = pr;
        if (copy) { k = pr->clone(); /* the map owns a clone */ c.require(k->input.count() == pr->input.count(), "a copy of a print kernel with ", ports, " ports has ", k->input.count()); }
        for (size_t i = 0; i < ports; i++) { own.push_back(std::make_unique<PrFeed<T>>(i, n[i], (size_t)c.range(1, 4), c.chance(1, 3) ? (int)c.range(1, 20) : 0)); m.link(own.back().get(), "0", k, std::to_string(i), qsize(c)); }
        Run r(c); r(c, m);
    }
    // the text must be an interleaving of the ports' texts, element by element
    std::string text = out.str(); std::vector<std::vector<std::string>> tok(ports); size_t total = 0;
    for (size_t i = 0; i < ports; i++) for (size_t j = 0; j < n[i]; j++) { std::ostringstream o; o << Pr<T>::mk(i, j); if (D != '\0') o << D; tok[i].push_back(o.str()); total += tok[i].back().size(); }
    c.require(text.size() == total, "wrote ", text.size(), " bytes, the elements and delimiters have ", total, ": '", text.substr(0, 200), "'");
    std::set<std::vector<size_t>> states{std::vector<size_t>(ports)}; size_t steps = 0; for (size_t x : n) steps += x;
    for (size_t s = 0; s < steps; s++) {
        std::set<std::vector<size_t>> next;
        for (auto &st : states) { size_t pos = 0; for (size_t i = 0; i < ports; i++) for (size_t j = 0; j < st[i]; j++) pos += tok[i][j].size();
            for (size_t i = 0; i < ports; i++) if (st[i] < n[i] && !text.compare(pos, tok[i][st[i]].size(), tok[i][st[i]])) { auto t = st; ++t[i]; next.insert(t); } }
        if (next.empty()) { auto &st = *states.begin(); size_t pos = 0; for (size_t i = 0; i < ports; i++) for (size_t j = 0; j < st[i]; j++) pos += tok[i][j].size(); c.fail("output is not the elements in order, from byte " + std::to_string(pos) + ": '" + text.substr(pos, 60) + "'"); }
        states = std::move(next); if (states.size() > 4000) { c.label("too ambiguous to match"); return; }
    }
    if (steps > 3) c.nontrivial(); if (ports > 1) c.label("several ports"); if (copy) c.label("copied kernel"); if (D == '\0') c.label("no delimiter");
}
}
PROP(P19, for_each, 40000, 800000, "arrays of 0..60 elements of nine types over 1..5 ports, read by pop, pop_s, peek, peek_range and pop_range in windows of generated size, with writes through the references, or by a kernel that pushes on what it peeked or popped to another that reads it so; values, addresses, indices, surroundings and object lifetimes checked; non-trivial: more than three elements over several ports") {
    warm(c); by_type<int32_t, uint64_t, double, std::string, Tracked<24>, Pod<24>, Tracked<72>, Pod<100>, uint16_t>(c, [&](auto *t) { each<std::remove_pointer_t<decltype(t)>>(c); });
}
PROP(P20, round_trip, 40000, 800000, "vectors, lists, deques and forward lists of 0..80 elements of eight types streamed by read_each into write_each to the back of a vector, list or deque that may not be empty; non-trivial: more than three elements") {
    warm(c); by_type<int32_t, uint64_t, double, std::string, Tracked<24>, Pod<24>, Tracked<72>, Pod<100>>(c, [&](auto *t) { using T = std::remove_pointer_t<decltype(t)>;
        switch (c.pick(4)) { case 0: round_trip<T, std::vector<T>>(c, "vector"); break; case 1: round_trip<T, std::list<T>>(c, "list"); break; case 2: round_trip<T, std::deque<T>>(c, "deque"); break; default: round_trip<T, std::forward_list<T>>(c, "forward_list"); } });
}
PROP(P21, file_chunks, 60000, 1000000, "files of 0..260 bytes (exact multiples of the chunk size often), chunks of 2..129 bytes, overlap 0..capacity-1, 1..3 ports, chunks received by pop, pop_s, peek or copied; non-trivial: more than two chunks") {
    warm(c); switch (c.pick(7)) { case 0: read_file<2>(c); break; case 1: read_file<3>(c); break; case 2: read_file<5>(c); break; case 3: read_file<9>(c); break; case 4: read_file<17>(c); break; case 5: read_file<40>(c); break; default: read_file<129>(c); }
}
PROP(P22, search_matches, 50000, 800000, "texts of 0..260 bytes over one to three letters or all bytes, terms of 1..5 bytes mostly taken from the text, chunks of 2..129 bytes overlapping by the length of the term minus one, from the file reader or cut unevenly; non-trivial: more than one occurrence and more than one chunk") {
    warm(c); switch (c.pick(6)) { case 0: search_file<3>(c); break; case 1: search_file<5>(c); break; case 2: search_file<9>(c); break; case 3: search_file<17>(c); break; case 4: search_file<40>(c); break; default: search_file<129>(c); }
}
PROP(P23, print_text, 40000, 600000, "1..4 ports of 0..25 elements of six types, three delimiters and none, kernel or a copy of it; the text must be an interleaving of the ports' elements; non-trivial: more than three elements") {
    warm(c); by_type<int, uint64_t, char, double, std::string, Big>(c, [&](auto *t) { using T = std::remove_pointer_t<decltype(t)>;
        switch (c.pick(4)) { case 0: print_all<T, '\n'>(c); break; case 1: print_all<T, ','>(c); break; case 2: print_all<T, '\0'>(c); break; default: print_all<T, '.'>(c); } });
}
