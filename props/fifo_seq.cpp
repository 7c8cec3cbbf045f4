// P01-P08, P11: one queue, one thread, against a list model. The engine is
// instantiated per element type in fifo_types.cpp.
#include "fifo_run.hpp"
enum { OBJECTS = 8 };   // the first OBJECTS entries are class types with state
static const std::vector<EngineFn> &types() { static std::vector<EngineFn> t = engine_types(); return t; }
static EngineRun run_engine(pbt::Case &c, const Mix &m, bool lifetime = false, bool closing = false, size_t n = 18) {
    size_t k = c.pick(n); EngineRun r; r.lifetime = lifetime; r.closing = closing; types()[k](c, m, r); return r;
}
#define ALL(m, nt) { EngineRun r = run_engine(c, m); int wraps = r.wraps, fulls = r.fulls, sent = r.sent, resizes = r.resizes; (void)wraps; (void)fulls; (void)sent; (void)resizes; if (nt) c.nontrivial(); }

PROP(P01, seq_stream, 500000, 10000000, "random histories of all send and receive calls over 18 element types and capacities 1..40, received sequence compared with a list; non-trivial: the ring wrapped at least once") {
    Mix m; m.sigs = false; m.max_ops = 90; ALL(m, wraps > 0);
}
PROP(P02, seq_signals, 500000, 10000000, "as P01 with system and user signals on push, insert, send, send_range and allocate_s; non-trivial: at least 3 elements sent and a wrap") {
    Mix m; m.max_ops = 60; ALL(m, wraps > 0 && sent > 2);
}
PROP(P03, seq_occupancy, 500000, 10000000, "size, space_avail and capacity compared with the model after every step, with filling and emptying at random ring positions; non-trivial: wrapped and full at least once") {
    Mix m; m.fill = 4; m.empty = 4; m.sigs = false; m.full_look = false; m.max_ops = 50; ALL(m, wraps > 0 && fulls > 0);
}
PROP(P04, seq_peek, 500000, 10000000, "peek/peek_range/unpeek/recycle heavy histories with writes through references and out-of-range indices; non-trivial: ring wrapped") {
    Mix m; m.peek = 8; m.peek_range = 8; m.recycle = 6; m.pop = 1; m.pop_range = 1; m.write_through = true; m.bad_index = true; m.waits = 2; ALL(m, wraps > 0);
}
PROP(P05, seq_allocate, 500000, 10000000, "allocate/allocate_range/allocate_s/send/deallocate heavy histories with receive calls while a slot is outstanding; non-trivial: ring wrapped") {
    Mix m; m.push = 2; m.insert = 1; m.alloc = 8; m.alloc_s = 5; m.alloc_range = 5; m.cancel = 3; m.stray = 2; ALL(m, wraps > 0);
}
PROP(P06, seq_close, 200000, 4000000, "stream closed at a random point, then every receive call until and beyond the end; non-trivial: at least 3 elements sent") {
    Mix m; m.close = 3; m.max_ops = 30; m.waits = 3;
    if (run_engine(c, m, false, true).sent > 2) c.nontrivial();
}
PROP(P07, seq_lifetime, 500000, 10000000, "instrumented objects (every construction and destruction recorded by address), strings, vectors and shared pointers; ledger empty and heap balance zero after draining; non-trivial: wrapped and at least 4 elements") {
    Mix m; m.close = 0; m.cancel = 2; m.write_through = true; m.resize = c.chance(1, 3) ? 2 : 0;
    EngineRun r = run_engine(c, m, true, false, OBJECTS); if (r.wraps > 0 && r.sent > 3) c.nontrivial();
}
PROP(P08, seq_resize, 500000, 10000000, "histories with resizes (also closed, aborted and momentarily impossible ones); content, signals, closed state and statistics compared afterwards; non-trivial: at least one resize took place") {
    Mix m; m.resize = 6; m.stats = 2; m.cancel = 0; ALL(m, resizes > 0);
}
PROP(P11, seq_stats, 500000, 10000000, "histories with waiting senders and statistics read at random points; non-trivial: at least 3 elements sent and a full queue") {
    Mix m; m.stats = 6; m.fill = 3; m.blocked = 5; m.resize = c.chance(1, 4) ? 2 : 0; ALL(m, sent > 2 && fulls > 0);
}
