// graph_says.cpp - what the messages of refused operations name.
#include "gmodel.hpp"
#include "mapexception.hpp"
#include "systemsignalhandler.hpp"

namespace {
template <class Tag> struct Kern : raft::kernel { Kern() {} raft::kstatus run() override { return raft::stop; } };
struct Walnut {}; struct Hazel {}; struct Birch {}; struct Cedar {}; struct Maple {}; struct Alder {};
struct Amber { int v; }; struct Coral { double v[3]; }; struct Ivory { std::string s; }; struct Topaz { char c[200]; };
const char *const CLS[] = {"Walnut", "Hazel", "Birch", "Cedar", "Maple", "Alder"}, *const TYP[] = {"Amber", "Coral", "Ivory", "Topaz"};
raft::kernel *fresh(int k) { switch (k) { case 0: return new Kern<Walnut>; case 1: return new Kern<Hazel>; case 2: return new Kern<Birch>; case 3: return new Kern<Cedar>; case 4: return new Kern<Maple>; default: return new Kern<Alder>; } }
void give(Port &p, const std::string &n, int t) { switch (t) { case 0: p.addPort<Amber>(n); break; case 1: p.addPort<Coral>(n); break; case 2: p.addPort<Ivory>(n); break; default: p.addPort<Topaz>(n); } }
struct Node { std::unique_ptr<raft::kernel> k; int cls; std::map<std::string, int> in, out; std::set<std::string> used_in, used_out; };
}

PROP(P38, messages, 120000, 3000000, "an operation is refused on a graph of three or more kernels") {
    std::vector<Node> n; auto m = std::make_unique<raft::map>(); int serial = 0, N = (int)c.range(2, 6); std::vector<int> cls{0, 1, 2, 3, 4, 5}; for (size_t k = 6; k > 1; k--) std::swap(cls[k - 1], cls[c.pick(k)]);
    auto name = [&] { static const char *w[] = {"door", "gate", "sluice", "weir", "in", "out"}; return std::string(w[c.pick(6)]) + "_" + std::to_string(100 + serial++); };
    for (int i = 0; i < N; i++) {
        Node x; x.k.reset(fresh(cls[i])); x.cls = cls[i]; std::string t;
        for (int d = 0; d < 2; d++) for (int k = (int)c.pick(4); k-- > 0;) { auto s = name(); int ty = (int)c.pick(4); (d ? x.out : x.in)[s] = ty; give(d ? x.k->output : x.k->input, s, ty); t += (d ? " out " : " in ") + s + ":" + TYP[ty]; }
        c.note("kernel ", CLS[x.cls], t); n.push_back(std::move(x));
    }
    auto has = [](const std::string &s, const std::string &t) { return s.find(t) != std::string::npos; };
    std::exception_ptr held; std::vector<std::string> heldsays; int refused = 0;
    // does the thing, expects it to be refused as `kind` with a message that names all of `want`
    auto expect = [&](const std::string &what, const std::string &kind, const std::vector<std::string> &want, bool alone, const std::function<void()> &f) {
        c.note(what, "  must be refused: ", kind); std::string got = "none", says;
        try { f(); } catch (const std::exception &e) { got = kind == "NoHandler" && dynamic_cast<const NoSignalHandlerFoundException *>(&e) ? kind : kind == "any" ? kind : Graph::kind(e); says = e.what(); if (c.chance(1, 3)) { held = std::current_exception(); heldsays = {says}; } }
        c.require(got == kind, "answered with ", got, " instead of ", kind); ++refused;
        for (auto &w : want) c.require(has(says, w), "the message does not name ", w, ": \"", says, "\"");
        if (alone) for (auto &x : n) if (std::find(want.begin(), want.end(), CLS[x.cls]) == want.end()) c.require(!has(says, CLS[x.cls]), "the message names ", CLS[x.cls], ", which has no part in it: \"", says, "\"");
        c.label(kind.c_str());
    };
    for (int step = (int)c.range(1, 6); step-- > 0;) {
        int a = (int)c.pick(N), b = (int)c.pick(N); auto &A = n[a], &B = n[b]; std::string an = CLS[A.cls], bn = CLS[B.cls];
        auto some = [&](const std::map<std::string, int> &p, const std::set<std::string> &used) { std::vector<std::string> v; for (auto &x : p) if (!used.count(x.first)) v.push_back(x.first); return v.empty() ? std::string() : v[c.pick(v.size())]; };
        switch (c.pick(11)) {
        case 0: case 1: {   // a link between two ports
            auto p = some(A.out, A.used_out), q = some(B.in, B.used_in); if (p.empty() || q.empty()) break; int s = A.out[p], t = B.in[q]; bool nameA = A.out.size() > 1 || c.chance(1, 2), nameB = B.in.size() > 1 || c.chance(1, 2), expr = a != b && c.chance(1, 2);
            auto go = [&] { if (expr) { auto *x = A.k.get(), *y = B.k.get(); if (nameA) (*x)[std::string(p)]; if (nameB) (*y)[std::string(q)]; *m += *x >> *y; } else m->link(A.k.get(), nameA ? raft::port_key_type(p) : raft::null_port_value, B.k.get(), nameB ? raft::port_key_type(q) : raft::null_port_value); };
            std::string what = std::string(expr ? "m += " : "m.link ") + an + (nameA ? "[\"" + p + "\"]" : "") + " >> " + bn + (nameB ? "[\"" + q + "\"]" : "");
            if (s == t) { c.note(what); go(); A.used_out.insert(p); B.used_in.insert(q); }
            else { expect(what, "PortTypeMismatch", {an, bn, p, q, TYP[s], TYP[t]}, true, go); if (expr) step = 0; }   // names that were selected may be left over
            break;
        }
        case 9: {   // a port that is linked already
            bool o = c.chance(1, 2); auto p = some(A.out, A.used_out), q = some(B.in, B.used_in); Node &X = o ? A : B; auto &used = o ? A.used_out : B.used_in; if (used.empty() || (o ? q : p).empty()) break;
            auto it = used.begin(); std::advance(it, c.pick(used.size())); (o ? p : q) = *it; if (A.out[p] != B.in[q]) break;
            bool name = (o ? A.out : B.in).size() > 1 || c.chance(1, 2), expr = a != b && c.chance(1, 2);
            expect(std::string(expr ? "m += " : "m.link ") + an + "[\"" + p + "\"] >> " + bn + "[\"" + q + "\"], linked already", "PortDoubleInitialize", {CLS[X.cls], *it}, false, [&] {
                if (expr) { auto *x = A.k.get(), *y = B.k.get(); if (name || !o) (*x)[std::string(p)]; if (name || o) (*y)[std::string(q)]; *m += *x >> *y; }
                else m->link(A.k.get(), name || !o ? raft::port_key_type(p) : raft::null_port_value, B.k.get(), name || o ? raft::port_key_type(q) : raft::null_port_value); });
            if (expr) step = 0; break;
        }
        case 10: {   // a third name on a kernel
            std::vector<std::string> nm; for (int i = 0; i < 3; i++) { auto &mp = c.chance(1, 2) ? A.out : A.in; if (mp.empty() || c.chance(1, 4)) nm.push_back(name()); else { auto it = mp.begin(); std::advance(it, c.pick(mp.size())); nm.push_back(it->first); } }
            bool ref = c.chance(1, 2); expect(an + "[\"" + nm[0] + "\"][\"" + nm[1] + "\"][\"" + nm[2] + "\"]", "AmbiguousPortAssignment", {an, nm[2]}, true, [&] { const std::string third = nm[2]; (*A.k)[std::string(nm[0])][std::string(nm[1])]; if (ref) (*A.k)[third]; else (*A.k)[std::string(third)]; }); step = 0; break;
        }
        case 2: {   // a port that is not there
            auto nm = name(); auto q = some(B.in, B.used_in), p = some(A.out, A.used_out);
            switch (c.pick(4)) {
            case 0: if (q.empty()) break; expect("m.link from missing " + an + "[\"" + nm + "\"]", "PortNotFound", {nm}, false, [&] { m->link(A.k.get(), nm, B.k.get(), q); }); break;
            case 1: if (p.empty()) break; expect("m.link to missing " + bn + "[\"" + nm + "\"]", "PortNotFound", {nm}, false, [&] { m->link(A.k.get(), p, B.k.get(), nm); }); break;
            case 2: expect(an + ".input[\"" + nm + "\"]", "PortNotFound", {nm}, false, [&] { if (c.chance(1, 2)) A.k->input[std::string(nm)]; else { const std::string s = nm; A.k->output[s]; } }); break;
            default: expect(an + ".getPortType(\"" + nm + "\")", "PortNotFound", {nm}, false, [&] { (c.chance(1, 2) ? A.k->input : A.k->output).getPortType(std::string(nm)); });
            } break;
        }
        case 3: {   // which one?
            auto q = some(B.in, B.used_in), p = some(A.out, A.used_out);
            if (A.out.size() > 1 && !q.empty() && c.chance(1, 2)) expect("m.link from one of the outputs of " + an, "AmbiguousPortAssignment", {an}, true, [&] { m->link(A.k.get(), raft::null_port_value, B.k.get(), q); });
            else if (B.in.size() > 1 && !p.empty()) expect("m.link to one of the inputs of " + bn, "AmbiguousPortAssignment", {bn}, true, [&] { m->link(A.k.get(), p, B.k.get(), raft::null_port_value); });
            break;
        }
        case 4: {   // none at all
            auto q = some(B.in, B.used_in), p = some(A.out, A.used_out);
            if (A.out.empty() && !q.empty()) expect("m.link from " + an + ", which has no output", "PortNotFound", {an}, true, [&] { m->link(A.k.get(), raft::null_port_value, B.k.get(), q); });
            else if (B.in.empty() && !p.empty()) expect("m.link to " + bn + ", which has no input", "PortNotFound", {bn}, true, [&] { m->link(A.k.get(), p, B.k.get(), raft::null_port_value); });
            break;
        }
        case 5: {   // one that is there already
            bool o = c.chance(1, 2); auto &mp = o ? A.out : A.in; if (mp.empty()) break; auto it = mp.begin(); std::advance(it, c.pick(mp.size())); int t = (int)c.pick(4);
            expect("adding \"" + it->first + "\" to " + an + " again", "PortAlreadyExists", {it->first}, false, [&] { give(o ? A.k->output : A.k->input, it->first, t); }); break;
        }
        case 6: {   // executing what is not complete
            auto all = MapAccess::all(*m); std::vector<std::pair<std::string, std::string>> open; for (auto &x : n) if (all.count(x.k.get())) { for (auto &p : x.in) if (!x.used_in.count(p.first)) open.push_back({CLS[x.cls], p.first}); for (auto &p : x.out) if (!x.used_out.count(p.first)) open.push_back({CLS[x.cls], p.first}); }
            if (open.empty()) break; std::string says; c.note("m.exe with ", open.size(), " unconnected ports"); std::string got = "none";
            try { m->exe<partition_dummy, NullSched, NullAlloc, NullPar>(); } catch (const std::exception &e) { got = Graph::kind(e); says = e.what(); }
            c.require(got == "PortUnconnected", "a map with unconnected ports was answered with ", got); ++refused; c.label("PortUnconnected");
            c.require(std::any_of(open.begin(), open.end(), [&](auto &x) { return has(says, x.first) && has(says, x.second); }), "the message names no unconnected port together with its kernel: \"", says, "\""); break;
        }
        case 7: {   // walking over it
            std::set<raft::kernel *> from{A.k.get()}; std::vector<std::string> open; for (auto &p : A.out) if (!A.used_out.count(p.first)) open.push_back(p.first); if (open.empty() || A.used_out.size()) break;
            std::string says; bool threw = false; c.note("traversal from ", an, ", unconnected is an error");
            try { GraphTools::BFS(from, (edge_func)[](PortInfo &, PortInfo &, void *) {}, nullptr, true); } catch (const std::exception &e) { threw = true; says = e.what(); }
            c.require(threw, "no error"); ++refused; c.label("unconnected met"); c.require(has(says, an), "the message does not name ", an, ": \"", says, "\""); c.require(std::any_of(open.begin(), open.end(), [&](auto &x) { return has(says, x); }), "the message names no unconnected port of ", an, ": \"", says, "\""); break;
        }
        default: {
            SystemSignalHandler h; auto s = (raft::signal)(uint32_t)c.bits(32); auto t = (raft::signal)((uint32_t)s ^ 1u); h.addHandler(t, [](FIFO &, raft::kernel *, const raft::signal, void *) { return raft::stop; }); std::unique_ptr<FIFO> f(RingBuffer<int, Type::Heap, false>::make_new_fifo(4, 16, nullptr));
            expect("calling the handler of signal " + std::to_string((uint32_t)s), "NoHandler", {std::to_string((uint32_t)s)}, false, [&] { h.callHandler(s, *f, A.k.get(), nullptr); }); break;
        } }
    }
    if (refused && N > 2) c.nontrivial();
    if (held) { m.reset(); n.clear(); try { std::rethrow_exception(held); } catch (const std::exception &e) { c.require(heldsays[0] == e.what(), "a message changed after its map and kernels were gone"); } c.label("read again later"); }
}
