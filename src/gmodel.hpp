// gmodel.hpp - a model of the graph a map should hold, generators of topology
// expressions over it, and the comparison with the real one.
#pragma once
#include "gk.hpp"
#include <optional>
#include <algorithm>
#include <functional>
#include <deque>

namespace {
// ---------------------------------------------------------------- the model
struct MPort { int type; int other = -1; std::string oname; bool ooo = false; size_t buf = 0; };
struct MNode { int cls; std::map<std::string, MPort> in, out; bool internal = false; bool inmap = false, maybe = false; GK *real = nullptr; };
struct Cls { GSpec spec; GK *orig = nullptr; bool internal = false; bool cloneable = true; std::string name; };

enum LinkT { CONT, SPLIT, JOIN };
enum Own { USER, MADE };

struct Graph {
    pbt::Case &c; raft::map *m; std::vector<MNode> n; std::vector<Cls> cls; std::vector<std::unique_ptr<GK>> user; int names = 0;
    bool clones_made = false, existing_used = false; int exprs = 0;
    explicit Graph(pbt::Case &c) : c(c), m(new raft::map) { Arena::reset(c); GK::World::get().reset(); }
    ~Graph() { delete m; }

    // ---- building model pieces
    std::string pname() { static const char *w[] = {"in", "out", "a", "b", "x", "0", "1", "number_a", "sum", "10", "2", "left"}; std::string s = w[c.pick(12)]; return s; }
    std::string fresh(const std::vector<std::pair<std::string, int>> &v) {
        for (int k = 0; k < 3; k++) { auto s = pname(); if (std::none_of(v.begin(), v.end(), [&](auto &p) { return p.first == s; })) return s; }
        return "p" + std::to_string(names++);
    }
    std::string add(std::vector<std::pair<std::string, int>> &v, int t) { auto s = fresh(v); v.emplace_back(s, t); return s; }
    int new_cls(const GSpec &s, Own own, bool cloneable) {
        Cls k; k.spec = s; k.spec.cls = (int)cls.size(); k.internal = own == MADE; k.cloneable = cloneable; k.name = "k" + std::to_string(cls.size());
        if (own == USER) { user.push_back(cloneable ? std::make_unique<GKc>(k.spec) : std::make_unique<GK>(k.spec)); k.orig = user.back().get(); }
        cls.push_back(k);
        if (c.recording_notes()) {
            std::ostringstream o; o << k.name << (own == MADE ? " (made)" : "") << (cloneable ? "" : " (no clone)") << " in[";
            for (auto &p : s.in) o << ' ' << p.first << ':' << gtype(p.second); o << " ] out["; for (auto &p : s.out) o << ' ' << p.first << ':' << gtype(p.second); o << " ]";
            c.add_note(o.str());
        }
        return (int)cls.size() - 1;
    }
    int instance(int k, bool clone) {
        MNode x; x.cls = k; x.internal = clone || cls[k].internal; x.inmap = true;
        for (auto &p : cls[k].spec.in) x.in[p.first] = MPort{p.second};
        for (auto &p : cls[k].spec.out) x.out[p.first] = MPort{p.second};
        if (!clone) x.real = cls[k].orig;
        n.push_back(std::move(x)); if (clone) clones_made = true; return (int)n.size() - 1;
    }
    void link(int a, const std::string &ap, int b, const std::string &bp, bool ooo, size_t buf = 0) {
        auto &x = n[a].out.at(ap), &y = n[b].in.at(bp);
        x.other = b; x.oname = bp; y.other = a; y.oname = ap; x.ooo = y.ooo = ooo; x.buf = y.buf = buf;
    }

    // ---- comparing with the real graph
    std::string where(int i) { return cls[n[i].cls].name + "#" + std::to_string(i); }
    void bind(int i, GK *r) {
        c.require(r->spec.cls == n[i].cls, where(i), " expected, but a kernel of kind ", cls[r->spec.cls].name, " is there");
        if (n[i].real) { c.require(n[i].real == r, "two different kernels stand where only ", where(i), " should be"); return; }
        for (auto &x : n) c.require(x.real != r, "one kernel ", cls[r->spec.cls].name, " is linked in two places that need separate kernels");
        n[i].real = r; work.push_back(i);
    }
    std::deque<int> work;
    void compare() {
        work.clear();
        for (size_t i = 0; i < n.size(); i++) if (n[i].real) work.push_back((int)i);
        std::set<int> seen;
        while (!work.empty()) {
            int i = work.front(); work.pop_front(); if (!seen.insert(i).second) continue;
            for (int dir = 0; dir < 2; dir++) {
                auto &mp = dir ? n[i].out : n[i].in; Port &rp = dir ? n[i].real->output : n[i].real->input;
                for (auto &kv : mp) {
                    PortInfo &pi = PortAccess::info(rp, kv.first); const char *d = dir ? "output" : "input";
                    if (kv.second.other < 0) { c.require(pi.other_kernel == nullptr, d, " port \"", kv.first, "\" of ", where(i), " is linked although nothing links it"); continue; }
                    c.require(pi.other_kernel != nullptr, d, " port \"", kv.first, "\" of ", where(i), " is not linked; it belongs to ", where(kv.second.other), " \"", kv.second.oname, "\"");
                    GK *r = dynamic_cast<GK *>(pi.other_kernel); c.require(r != nullptr && GK::World::get().live.count(r), "linked to a kernel that does not exist");
                    c.require(pi.other_name == kv.second.oname, d, " port \"", kv.first, "\" of ", where(i), " is linked to port \"", pi.other_name, "\", expected \"", kv.second.oname, "\"");
                    c.require(pi.out_of_order == kv.second.ooo, d, " port \"", kv.first, "\" of ", where(i), " has out_of_order=", pi.out_of_order);
                    c.require(pi.fixed_buffer_size == kv.second.buf, d, " port \"", kv.first, "\" of ", where(i), " has buffer size ", pi.fixed_buffer_size, ", requested ", kv.second.buf);
                    bind(kv.second.other, r);
                }
            }
        }
        for (size_t i = 0; i < n.size(); i++) c.require(n[i].real != nullptr, where((int)i), " cannot be reached through the links made");
        // exactly the right kernels exist, each recorded once
        std::set<raft::kernel *> all, src, dst;
        for (auto &x : n) if (x.inmap || (x.maybe && MapAccess::all(*m).count(x.real))) { all.insert(x.real); if (x.in.empty() && (x.inmap || MapAccess::src(*m).count(x.real))) src.insert(x.real); if (x.out.empty() && (x.inmap || MapAccess::dst(*m).count(x.real))) dst.insert(x.real); c.require(x.real->internal() == x.internal, "ownership flag of a kernel is wrong"); }
        c.require(MapAccess::all(*m) == all, "the map records ", MapAccess::all(*m).size(), " kernels, the expressions have ", all.size());
        c.require(MapAccess::src(*m) == src, "the map records ", MapAccess::src(*m).size(), " source kernels, the graph has ", src.size());
        c.require(MapAccess::dst(*m) == dst, "the map records ", MapAccess::dst(*m).size(), " destination kernels, the graph has ", dst.size());
        std::set<GK *> alive; for (auto &x : n) alive.insert(x.real); for (auto &u : user) alive.insert(u.get());
        c.require(GK::World::get().live.size() == alive.size(), GK::World::get().live.size(), " kernels exist, ", alive.size(), " were expected");
    }

    // ---- expressions
    struct Leaf { int cls; int node = -1; Own own = USER; std::vector<std::string> push; };   // node: existing instance
    struct Expr { std::vector<Leaf> k; std::vector<LinkT> l; std::vector<bool> ooo; std::vector<std::string> sname, dname; int dup = -1; };
    struct Tree { int i, j, op = -1; std::unique_ptr<Tree> a, b; };   // op: index of the link joining a and b
    std::unique_ptr<Tree> tree(const Expr &e, int i, int j) {
        auto t = std::make_unique<Tree>(); t->i = i; t->j = j; if (i == j) return t;
        std::vector<int> ok;
        for (int p = j - 1; p >= i; p--) {   // link p joins kernel p and p+1
            bool good = e.l[p] == CONT ? p + 1 == j : e.l[p] == SPLIT ? p == i : true;
            if (good && valid(e, i, p) && valid(e, p + 1, j)) ok.push_back(p);
        }
        t->op = ok[c.pick(ok.size())]; t->a = tree(e, i, t->op); t->b = tree(e, t->op + 1, j); return t;
    }
    bool valid(const Expr &e, int i, int j) {
        if (i == j) return true;
        for (int p = i; p < j; p++) {
            bool good = e.l[p] == CONT ? p + 1 == j : e.l[p] == SPLIT ? p == i : true;
            if (good && valid(e, i, p) && valid(e, p + 1, j)) return true;
        }
        return false;
    }
    void order(const Tree &t, std::vector<int> &when, int &k) { if (t.op < 0) return; order(*t.a, when, k); order(*t.b, when, k); when[t.op] = k++; }
    // which leaves may be written with make, given their operator
    void ownership(const Expr &e, const Tree &t, std::vector<int> &may, std::vector<std::pair<int, int>> &both, std::vector<int> &tomake) {
        if (t.op < 0) return;
        bool ls = t.a->op < 0, rs = t.b->op < 0;
        if (ls && rs) {
            if (e.l[t.op] == CONT && !e.ooo[t.op]) { tomake.push_back(t.j); both.emplace_back(t.i, t.j); }
            else if (e.l[t.op] == CONT) may[t.j] = 1;
            else both.emplace_back(t.i, t.j);
        } else if (ls) may[t.i] = 1;
        else if (rs) may[t.j] = 1;
        ownership(e, *t.a, may, both, tomake); ownership(e, *t.b, may, both, tomake);
    }
    struct Val { GK *k = nullptr; raft::kernel_wrapper *w = nullptr; kpair *p = nullptr; };
    std::vector<std::unique_ptr<raft::kernel_wrapper>> wrappers;
    Val operand(Expr &e, int i) {
        Leaf &L = e.k[i]; Val v;
        if (L.own == MADE) {
            Cls &k = cls[L.cls];
            wrappers.push_back(std::make_unique<raft::kernel_wrapper>(k.cloneable ? raft::kernel::make<GKc>(k.spec) : raft::kernel::make<GK>(k.spec)));
            k.orig = GK::World::get().last; if (L.node >= 0) n[L.node].real = k.orig; v.w = wrappers.back().get(); return v;
        }
        v.k = L.node >= 0 && n[L.node].real ? n[L.node].real : cls[L.cls].orig;
        bool rv = c.chance(1, 2);
        for (auto &s : L.push) { if (rv) (*v.k)[std::string(s)]; else { const std::string q = s; (*v.k)[q]; } }
        return v;
    }
    Val eval(Expr &e, const Tree &t) {
        if (t.op < 0) return operand(e, t.i);
        Val a = eval(e, *t.a), b = eval(e, *t.b), r; bool ooo = e.ooo[t.op];
        auto A = [&]() -> raft::kernel & { return *a.k; }; auto B = [&]() -> raft::kernel & { return *b.k; };
        switch (e.l[t.op]) {
        case CONT:
            if (a.p) {
                if (ooo) r.p = b.w ? &(*a.p >> raft::order::out >> std::move(*b.w)) : &(*a.p >> raft::order::out >> B());
                else r.p = b.w ? &(*a.p >> std::move(*b.w)) : &(*a.p >> B());
            } else if (ooo) r.p = b.w ? &(A() >> raft::order::out >> std::move(*b.w)) : &(A() >> raft::order::out >> B());
            else if (a.w) r.p = &(std::move(*a.w) >> std::move(*b.w));
            else r.p = b.w ? &(A() >> std::move(*b.w)) : &(A() >> B());
            break;
        case SPLIT:
            if (b.p) r.p = a.w ? &(std::move(*a.w) <= *b.p) : &(A() <= *b.p);
            else r.p = a.w ? &(std::move(*a.w) <= std::move(*b.w)) : &(A() <= B());
            break;
        case JOIN:
            if (a.p && b.p) r.p = &(*a.p >= *b.p);
            else if (a.p) r.p = b.w ? &(*a.p >= std::move(*b.w)) : &(*a.p >= B());
            else if (b.p) r.p = a.w ? &(std::move(*a.w) >= *b.p) : &(A() >= *b.p);
            else r.p = a.w ? &(std::move(*a.w) >= std::move(*b.w)) : &(A() >= B());
            break;
        }
        return r;
    }
    std::string text(const Expr &e, const Tree &t, bool top = true) {
        if (t.op < 0) { const Leaf &L = e.k[t.i]; std::string s = cls[L.cls].name + (L.own == MADE ? "()" : ""); if (L.node >= 0) s += "#" + std::to_string(L.node); for (auto &p : L.push) s += "[\"" + p + "\"]"; return s; }
        std::string s = text(e, *t.a, false) + (e.l[t.op] == CONT ? e.ooo[t.op] ? " >> out >> " : " >> " : e.l[t.op] == SPLIT ? " <= " : " >= ") + text(e, *t.b, false);
        return top ? s : "(" + s + ")";
    }

    // generate an expression, evaluate it with the real operators and apply it to the model
    struct Opt { bool existing = true; int maxlen = 7; bool made = true; int unclone = 0; bool morelike_made = false; };
    // returns false when nothing could be generated
    struct Plan { Expr e; std::unique_ptr<Tree> t; std::vector<int> src, dst; std::vector<std::pair<int, std::pair<std::string, int>>> undo; bool needs_clone_of_unclonable = false; };
    std::vector<std::pair<int, std::string>> open_ports(bool out) {
        std::vector<std::pair<int, std::string>> v;
        for (size_t i = 0; i < n.size(); i++) for (auto &p : out ? n[i].out : n[i].in) if (p.second.other < 0) v.emplace_back((int)i, p.first);
        return v;
    }
    Plan generate(const Opt &o) {
        Plan P; Expr &e = P.e;
        bool dup = c.chance(1, 4); int len, open = 0;
        if (dup) {
            int chain = (int)c.size(0, 3); e.l.assign(chain, CONT); e.dup = chain; e.l.push_back(JOIN); int tail = (int)c.size(0, 2); e.l.insert(e.l.end(), tail, CONT);
            // the join may itself start a split
            if (tail == 0 && c.chance(1, 4)) { e.l.push_back(SPLIT); open = 1; if (c.chance(1, 2)) e.l.push_back(CONT); if (c.chance(1, 2)) { e.l.push_back(JOIN); open = 0; } }
        } else {
            len = (int)c.size(1, o.maxlen);
            for (int p = 0; p < len; p++) {
                bool can_split = p == 0 || e.l[p - 1] != CONT;
                unsigned ws = can_split && open < 3 ? 5 : 0, wj = open ? 4 : 0;
                switch (c.weighted({6, ws, wj})) { case 0: e.l.push_back(CONT); break; case 1: e.l.push_back(SPLIT); ++open; break; default: e.l.push_back(JOIN); --open; }
            }
        }
        len = (int)e.l.size(); e.sname.resize(len); e.dname.resize(len); e.ooo.resize(len); e.k.resize(len + 1);
        for (int p = 0; p < len; p++) e.ooo[p] = e.l[p] == CONT && c.chance(1, 5);
        P.t = tree(e, 0, len);
        std::vector<int> when(len); int w = 0; order(*P.t, when, w);
        std::vector<int> may(len + 1), wantmake(len + 1); std::vector<std::pair<int, int>> both; std::vector<int> tomake; ownership(e, *P.t, may, both, tomake);
        if (o.made) {
            unsigned w = o.morelike_made ? 2 : 1;
            for (int i = 0; i <= len; i++) if (may[i] && c.chance(w, 3)) wantmake[i] = 1;
            for (auto &b : both) if (c.chance(w, 3)) wantmake[b.first] = wantmake[b.second] = 1;
            for (int i : tomake) if (!wantmake[i] && c.chance(1, 3)) wantmake[i] = 1;
        }
        // ---- kernels, left to right, with the model's groups
        std::vector<std::vector<int>> groups; std::vector<size_t> widths;
        int T = (int)c.pick(NTYPES); std::string outname; bool outnamed = false;
        auto out_of = [&](int i, GSpec &s, bool maynme, bool must) {   // give kernel i its outputs for link i; T and names updated
            outname.clear(); outnamed = false;
            if (i == len) { for (int k = (int)c.pick(3); k-- > 0;) add(s.out, (int)c.pick(NTYPES)); return; }
            T = (int)c.pick(NTYPES);
            if (e.l[i] == SPLIT) { int wd = (int)c.size(1, widths.size() ? 3 : 4); for (int k = 0; k < wd; k++) add(s.out, T); return; }
            outname = add(s.out, T);
            if (must || (maynme && c.chance(1, 3))) { outnamed = true; for (int k = (int)c.pick(3); k-- > 0;) add(s.out, (int)c.pick(NTYPES)); }
        };
        // kernels of earlier expressions only: within one expression every kernel stands once
        std::set<int> taken; size_t old = n.size();
        auto free_of = [&](bool out, int t) { std::vector<std::pair<int, std::string>> v; for (auto &q : open_ports(out)) if (q.first < (int)old && !taken.count(q.first) && (t < 0 || (out ? n[q.first].out : n[q.first].in)[q.second].type == t)) v.push_back(q); return v; };
        for (int i = 0; i <= len; i++) {
            Leaf &L = e.k[i]; GSpec s; bool made = wantmake[i]; std::string inname; bool innamed = false;
            bool in_first = i > 0 && (i == len || when[i - 1] < when[i]);
            bool plain_in = i > 0 && e.l[i - 1] == CONT, plain_out = i < len && e.l[i] == CONT;
            size_t total = 0; for (auto &g : groups) total += g.size();
            // an existing kernel with a free port
            if (o.existing && !made && e.dup < 0 && (i == 0 ? plain_out : plain_in && groups.size() == 1 && total == 1) && (i == 0 || i == len || plain_out || true) && c.chance(1, 3)) {
                if (i == 0) {
                    auto v = free_of(true, -1);
                    if (!v.empty()) { auto q = v[c.pick(v.size())]; L.node = q.first; taken.insert(q.first); n[q.first].inmap = true; L.cls = n[q.first].cls; T = n[q.first].out[q.second].type; outname = q.second; outnamed = true; L.push.push_back(q.second); groups = {{q.first}}; e.sname[0] = outname; existing_used = true; continue; }
                } else {
                    std::vector<std::pair<int, std::string>> v; for (auto &q : free_of(false, T)) if (q.first != groups[0][0]) v.push_back(q);
                    bool ok = !v.empty(); std::pair<int, std::string> q, z;
                    if (ok) {
                        q = v[c.pick(v.size())];
                        if (i < len) { ok = plain_out; std::vector<std::string> fo; if (ok) { for (auto &pp : n[q.first].out) if (pp.second.other < 0) fo.push_back(pp.first); ok = !fo.empty(); if (ok) z.second = fo[c.pick(fo.size())]; } }
                    }
                    if (ok) {
                        L.node = q.first; taken.insert(q.first); n[q.first].inmap = true; L.cls = n[q.first].cls;
                        if (i == len) L.push = {q.second}; else if (in_first) L.push = {q.second, z.second}; else L.push = {z.second, q.second};
                        e.dname[i - 1] = q.second; link(groups[0][0], e.sname[i - 1], q.first, q.second, e.ooo[i - 1]); groups = {{q.first}};
                        if (i < len) { T = n[q.first].out[z.second].type; outname = z.second; e.sname[i] = outname; }
                        existing_used = true; continue;
                    }
                }
            }
            // inputs
            if (i == 0) { for (int k = e.dup >= 0 ? 0 : (int)c.weighted({5, 1, 1}); k-- > 0;) add(s.in, (int)c.pick(NTYPES)); }
            else if (e.l[i - 1] == JOIN) { size_t g = e.dup == i - 1 ? (size_t)c.size(1, 4) : groups[0].size(); for (size_t k = 0; k < g; k++) add(s.in, T); }
            else { inname = add(s.in, T); }
            bool outcan = !made && plain_out_named(e, i), incan = !made && i > 0 && e.l[i - 1] != JOIN;
            // names are taken by the links in the order the links are written
            bool nin = false, nout = false;
            if (incan && outcan) { int k = (int)c.pick(3); if (k == 1) { (in_first ? nin : nout) = true; } else if (k == 2) nin = nout = true; }
            else if (incan && c.chance(1, 3)) nin = i == len || in_first;
            else if (outcan && c.chance(1, 3)) nout = i == 0 || !in_first;
            if (nin) { for (int k = (int)c.pick(3); k-- > 0;) add(s.in, (int)c.pick(NTYPES)); innamed = true; }
            int Tin = T; out_of(i, s, false, nout); (void)Tin;
            if (in_first) { if (nin) L.push.push_back(inname); if (nout) L.push.push_back(outname); }
            else { if (nout) L.push.push_back(outname); if (nin) L.push.push_back(inname); }
            // port order in the container is by name, not by addition
            if (c.chance(1, 2)) std::reverse(s.in.begin(), s.in.end());
            if (c.chance(1, 2)) std::reverse(s.out.begin(), s.out.end());
            bool cl = !(o.unclone && c.chance((unsigned)o.unclone, 4));
            L.own = made ? MADE : USER; L.cls = new_cls(s, L.own, cl);
            // ---- model
            if (i == 0) { int x = instance(L.cls, false); L.node = x; groups = {{x}}; }
            else {
                bool first = true; std::vector<std::vector<int>> next; bool ooo = e.ooo[i - 1];
                auto inst = [&] { int x = instance(L.cls, !first); if (first) L.node = x; else if (!cl) P.needs_clone_of_unclonable = true; first = false; return x; };
                auto din = [&](int x) { return e.l[i - 1] == JOIN ? std::string() : inname; };
                if (e.l[i - 1] == CONT) {
                    for (auto &g : groups) { next.emplace_back(); for (int a : g) { int x = inst(); link(a, e.sname[i - 1], x, din(x), ooo); next.back().push_back(x); } }
                } else if (e.l[i - 1] == SPLIT) {
                    widths.push_back(n[groups[0][0]].out.size());
                    for (auto &g : groups) for (int a : g) { next.emplace_back(); std::vector<std::string> ps; for (auto &p : n[a].out) ps.push_back(p.first); for (auto &p : ps) { int x = inst(); link(a, p, x, din(x), ooo); next.back().push_back(x); } }
                } else if (e.dup == i - 1) {
                    int x = inst(); std::vector<std::string> ps; for (auto &p : n[x].in) ps.push_back(p.first);
                    std::vector<int> heads; bool f = true;
                    for (auto &p : ps) {
                        int prev = -1, head = -1;
                        for (int q = 0; q < i; q++) {
                            int y = f ? e.k[q].node : instance(e.k[q].cls, true); if (!f && !cls[e.k[q].cls].cloneable) P.needs_clone_of_unclonable = true;
                            if (q == 0) head = y; else if (!f) link(prev, e.sname[q - 1], y, e.dname[q - 1], e.ooo[q - 1]);
                            prev = y;
                        }
                        link(prev, e.sname[i - 1], x, p, ooo); heads.push_back(head); f = false;
                    }
                    P.src = heads; next = {{x}};
                } else {
                    widths.pop_back(); size_t outer = widths.empty() ? 1 : widths.back(), left = 0;
                    for (auto &g : groups) {
                        if (!left) { next.emplace_back(); left = outer; } --left;
                        int x = inst(); std::vector<std::string> ps; for (auto &p : n[x].in) ps.push_back(p.first);
                        for (size_t k = 0; k < g.size(); k++) link(g[k], e.sname[i - 1], x, ps[k], ooo);
                        next.back().push_back(x);
                    }
                }
                groups = std::move(next);
            }
            if (i > 0) e.dname[i - 1] = inname;
            if (i < len) e.sname[i] = e.l[i] == SPLIT ? "" : outname;
            (void)innamed;
        }
        if (e.dup < 0) P.src = {e.k[0].node};
        for (auto &g : groups) for (int x : g) P.dst.push_back(x);
        return P;
    }
    bool plain_out_named(const Expr &e, int i) { return i < (int)e.l.size() && e.l[i] != SPLIT; }

    void apply(Plan &P) {
        ++exprs; c.note("m += ", text(P.e, *P.t));
        Val v = eval(P.e, *P.t);
        kernel_pair_t r = (*m += *v.p);
        compare();
        auto got = [&](auto pr) { std::vector<raft::kernel *> x; for (auto it = pr.first; it != pr.second; ++it) x.push_back(&it->get()); return x; };
        auto want = [&](const std::vector<int> &is) { std::vector<raft::kernel *> x; for (int i : is) x.push_back(n[i].real); return x; };
        auto same = [&](std::vector<raft::kernel *> a, std::vector<raft::kernel *> b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return a == b; };
        c.require(r.getSrcSize() == got(r.getSrc()).size() && r.getDstSize() == got(r.getDst()).size(), "returned sets and their sizes disagree");
        c.require(same(got(r.getSrc()), want(P.src)), "the returned source set has ", r.getSrcSize(), " kernels and is not the first kernels of the expression (", P.src.size(), ")");
        c.require(same(got(r.getDst()), want(P.dst)), "the returned destination set has ", r.getDstSize(), " kernels and is not the last kernels of the expression (", P.dst.size(), ")");
    }
    void bystander() { GSpec s; for (int k = (int)c.pick(3); k-- > 0;) add(s.in, (int)c.pick(NTYPES)); for (int k = (int)c.pick(3); k-- > 0;) add(s.out, (int)c.pick(NTYPES)); int k = new_cls(s, USER, true); int x = instance(k, false); n[x].inmap = false; }
    // link two free ports directly
    bool direct() {
        auto o = open_ports(true); if (o.empty()) return false;
        auto a = o[c.pick(o.size())]; int t = n[a.first].out[a.second].type; std::vector<std::pair<int, std::string>> v;
        for (auto &q : open_ports(false)) if (n[q.first].in[q.second].type == t && q.first != a.first) v.push_back(q);
        if (v.empty()) return false;
        auto b = v[c.pick(v.size())]; bool ooo = c.chance(1, 3); size_t buf = c.chance(1, 2) ? (size_t)c.range(1, 500) : 0;
        std::string an = n[a.first].out.size() == 1 && c.chance(1, 2) ? "" : a.second, bn = n[b.first].in.size() == 1 && c.chance(1, 2) ? "" : b.second;
        c.note("m.link", ooo ? "<out>(" : "(", where(a.first), ", \"", an, "\", ", where(b.first), ", \"", bn, "\", ", buf, ")");
        link(a.first, a.second, b.first, b.second, ooo, buf); n[a.first].inmap = n[b.first].inmap = true;
        auto r = ooo ? m->link<raft::order::out>(n[a.first].real, an, n[b.first].real, bn, buf) : m->link(n[a.first].real, an, n[b.first].real, bn, buf);
        compare();
        c.require(r.getSrcSize() == 1 && r.getDstSize() == 1 && &r.getSrc().first->get() == n[a.first].real && &r.getDst().first->get() == n[b.first].real, "link returned other kernels than the ones linked");
        return true;
    }

    // every link whose both ends are in the map but that is still missing
    size_t unconnected() { size_t k = 0; for (auto &x : n) if (MapAccess::all(*m).count(x.real)) for (auto *mp : {&x.in, &x.out}) for (auto &p : *mp) k += p.second.other < 0; return k; }
    // give every open port of a kernel in the map a partner, except `leave` of them
    void complete(size_t leave) {
        std::vector<std::pair<bool, std::pair<int, std::string>>> v;
        for (bool out : {false, true}) for (auto &q : open_ports(out)) if (MapAccess::all(*m).count(n[q.first].real)) v.push_back({out, q});
        for (size_t k = v.size(); k > 1; k--) std::swap(v[k - 1], v[c.pick(k)]);
        for (size_t k = leave; k < v.size(); k++) {
            bool out = v[k].first; int i = v[k].second.first; std::string nm = v[k].second.second; GSpec s; int t = (out ? n[i].out : n[i].in)[nm].type; std::string mine;
            if (out) mine = add(s.in, t); else mine = add(s.out, t);
            int j = instance(new_cls(s, USER, true), false);
            bool ooo = c.chance(1, 4); size_t buf = c.chance(1, 3) ? (size_t)c.range(1, 300) : 0;
            int a = out ? i : j, b = out ? j : i; std::string ap = out ? nm : mine, bp = out ? mine : nm;
            c.note("m.link(", where(a), ", \"", ap, "\", ", where(b), ", \"", bp, "\", ", buf, ooo ? ", out)" : ")");
            link(a, ap, b, bp, ooo, buf);
            if (ooo) m->link<raft::order::out>(n[a].real, ap, n[b].real, bp, buf); else m->link(n[a].real, ap, n[b].real, bp, buf);
        }
        compare();
    }

    // ---- a chain of links one of which cannot be made
    enum Fault { OK, NONAME, MANY, NONE, TAKEN };
    struct Broken { int at; Fault f_out, f_in; bool mismatch; bool direct; std::vector<int> nodes; };
    static const char *fault_name(Fault f) { static const char *s[] = {"", "no such port", "unnamed with several ports", "unnamed without ports", "already linked"}; return s[f]; }
    static std::string kind(const std::exception &e) {
        if (dynamic_cast<const PortNotFoundException *>(&e)) return "PortNotFound";
        if (dynamic_cast<const PortDoubleInitializeException *>(&e)) return "PortDoubleInitialize";
        if (dynamic_cast<const PortTypeMismatchException *>(&e)) return "PortTypeMismatch";
        if (dynamic_cast<const AmbiguousPortAssignmentException *>(&e)) return "AmbiguousPortAssignment";
        if (dynamic_cast<const PortAlreadyExists *>(&e)) return "PortAlreadyExists";
        if (dynamic_cast<const PortUnconnectedException *>(&e)) return "PortUnconnected";
        if (dynamic_cast<const CloneNotImplementedException *>(&e)) return "CloneNotImplemented";
        return typeid(e).name();
    }
    Broken broken_chain() {
        Broken B; int L = (int)c.size(1, 5), f = B.at = (int)c.pick(L); B.direct = L == 1 && c.chance(1, 2);
        B.f_out = (Fault)c.pick(5); B.f_in = (Fault)c.pick(5); B.mismatch = c.chance(1, 4); if (B.f_out == OK && B.f_in == OK) B.mismatch = true;
        if (B.f_out == NONAME || B.f_out == NONE || B.f_out == MANY || B.f_in == NONAME || B.f_in == NONE || B.f_in == MANY) B.mismatch = false;
        std::vector<int> T(L); std::vector<GSpec> sp(L + 1); std::vector<std::string> in(L + 1), out(L + 1); std::vector<bool> nin(L + 1), nout(L + 1), ooo(L);
        for (auto &t : T) t = (int)c.pick(NTYPES);
        for (int i = 0; i < L; i++) ooo[i] = c.chance(1, 5);
        for (int i = 0; i <= L; i++) {
            auto &s = sp[i]; Fault fo = i == f ? B.f_out : OK, fi = i == f + 1 ? B.f_in : OK; auto extra = [&](auto &v, size_t lo) { for (size_t k = lo + c.pick(3); k-- > 0;) add(v, (int)c.pick(NTYPES)); };
            auto side = [&](bool is_out, Fault w, std::vector<std::pair<std::string, int>> &v, std::string &name, int t, bool &named) {
                (void)is_out; named = c.chance(1, 3);
                switch (w) {
                case OK: case TAKEN: name = add(v, t); if (c.chance(1, 2)) { extra(v, 0); if (v.size() > 1) named = true; } break;
                case NONAME: extra(v, 0); name = fresh(v); named = true; break;
                case MANY: name = add(v, t); extra(v, 1); named = false; break;
                case NONE: named = false; break;
                }
            };
            bool a = false, b = false; int tin = i ? T[i - 1] : 0; if (i == f + 1 && B.mismatch) tin = (tin + 1 + (int)c.pick(NTYPES - 1)) % NTYPES;
            if (i > 0) side(false, fi, s.in, in[i], tin, a); else extra(s.in, 0);
            if (i < L) side(true, fo, s.out, out[i], T[i], b); else extra(s.out, 0);
            // names are used up in the order the links are written: an output is only named when the input is
            if (b && i > 0 && !a) { if (fi == MANY || fi == NONE) b = false; else a = true; }
            nin[i] = a; nout[i] = b;
        }
        Expr e; e.l.assign(L, CONT); e.ooo = ooo; e.sname.resize(L); e.dname.resize(L); e.k.resize(L + 1);
        std::vector<bool> made(L + 1);
        for (int i = 1; i <= L; i++) made[i] = !B.direct && !nin[i] && !nout[i] && !(i == f && B.f_out == TAKEN) && !(i == f + 1 && B.f_in == TAKEN) && c.chance(1, 2);
        if (made[1] && !nout[0] && !ooo[0] && !(f == 0 && B.f_out == TAKEN)) made[0] = c.chance(1, 2);
        for (int i = 0; i <= L; i++) {
            Leaf &l = e.k[i]; l.own = made[i] ? MADE : USER; l.cls = new_cls(sp[i], l.own, true); l.node = instance(l.cls, false); B.nodes.push_back(l.node);
            n[l.node].inmap = i <= f && f > 0; n[l.node].maybe = i <= f + 1;
            if (nin[i]) l.push.push_back(in[i]);
            if (nout[i]) l.push.push_back(out[i]);
        }
        // partners for the ports that are taken already
        auto partner = [&](int i, bool is_out, const std::string &nm) {
            GSpec s; std::string mine; int t = (is_out ? n[i].out : n[i].in)[nm].type; if (is_out) mine = add(s.in, t); else mine = add(s.out, t);
            int j = instance(new_cls(s, USER, true), false); int a = is_out ? i : j, b = is_out ? j : i; std::string ap = is_out ? nm : mine, bp = is_out ? mine : nm; size_t buf = (size_t)c.pick(50);
            c.note("m.link(", where(a), ", \"", ap, "\", ", where(b), ", \"", bp, "\", ", buf, ")"); link(a, ap, b, bp, false, buf); m->link(n[a].real, ap, n[b].real, bp, buf); n[i].inmap = true;
        };
        int x = B.nodes[f], y = B.nodes[f + 1];
        if (B.f_out == TAKEN) partner(x, true, out[f]);
        if (B.f_in == TAKEN) partner(y, false, in[f + 1]);
        auto t = std::make_unique<Tree>(); t->i = t->j = 0;
        for (int i = 0; i < L; i++) { auto p = std::make_unique<Tree>(); p->i = 0; p->j = i + 1; p->op = i; p->a = std::move(t); p->b = std::make_unique<Tree>(); p->b->i = p->b->j = i + 1; t = std::move(p); }
        std::set<std::string> want;
        for (auto w : {B.f_out, B.f_in}) switch (w) { case NONAME: case NONE: want.insert("PortNotFound"); break; case MANY: want.insert("AmbiguousPortAssignment"); break; case TAKEN: want.insert("PortDoubleInitialize"); break; default: break; }
        if (B.mismatch) want.insert("PortTypeMismatch");
        std::string got = "none", what; std::string desc; for (auto &w : want) desc += (desc.empty() ? "" : " or ") + w;
        auto attempt = [&](auto fn) { try { fn(); } catch (const std::exception &ex) { got = kind(ex); } };
        if (B.direct) {
            std::string an = nout[0] ? out[0] : "", bn = nin[1] ? in[1] : ""; size_t buf = (size_t)c.range(51, 99);
            c.note("m.link(", where(x), ", \"", an, "\", ", where(y), ", \"", bn, "\", ", buf, ")  must be refused: ", fault_name(B.f_out), " / ", fault_name(B.f_in), B.mismatch ? " / types" : "");
            attempt([&] { if (ooo[0]) m->link<raft::order::out>(n[x].real, an, n[y].real, bn, buf); else m->link(n[x].real, an, n[y].real, bn, buf); });
        } else {
            c.note("m += ", text(e, *t), "  must be refused at link ", f, ": ", fault_name(B.f_out), " / ", fault_name(B.f_in), B.mismatch ? " / types" : "");
            Val v = eval(e, *t);
            for (int i = 0; i < f; i++) link(B.nodes[i], out[i], B.nodes[i + 1], in[i + 1], ooo[i]);
            attempt([&] { *m += *v.p; });
        }
        c.require(want.count(got), "the link was answered with ", got == "none" ? "no exception" : got, ", expected ", desc);
        compare();
        return B;
    }
};
}  // namespace
