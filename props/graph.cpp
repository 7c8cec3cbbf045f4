// graph.cpp - topology expressions against the graph they denote.
#include "gmodel.hpp"

PROP(P12, expressions, 40000, 2000000, "an expression with a split, a join, a clone, a named port, an existing kernel or three or more kernels") {
    Graph g(c); int ne = (int)c.size(1, 4);
    for (int k = (int)c.pick(2); k-- > 0;) g.bystander();
    for (int k = 0; k < ne; k++) {
        if (g.exprs && c.chance(1, 4) && g.direct()) { c.label("direct link"); continue; }
        auto p = g.generate({}); g.apply(p);
        int sp = 0, jo = 0; for (auto l : p.e.l) { sp += l == SPLIT; jo += l == JOIN; }
        if (sp) c.label("split"); if (jo && p.e.dup < 0) c.label("join"); if (p.e.dup >= 0) c.label("duplicating join"); if (sp > 1) c.label("nested split");
        for (auto &L : p.e.k) { if (L.push.size()) c.label("named port"); if (L.own == MADE) c.label("made kernel"); }
        for (bool b : p.e.ooo) if (b) c.label("out of order");
        if (p.e.l.size() > 1 || g.clones_made || g.existing_used) c.nontrivial();
    }
    if (g.clones_made) c.label("clones"); if (g.existing_used) c.label("existing kernel reused"); if (ne > 1) c.label("several expressions");
}
