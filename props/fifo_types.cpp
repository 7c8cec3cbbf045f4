// Instantiates the queue engine for a few element types (PART selects which);
// compiled once per PART so that the parts build in parallel.
#include "fifo.hpp"
#include "fifo_run.hpp"
template <class T> void engine_case(pbt::Case &c, const Mix &m, EngineRun &r) {
    auto body = [&] {
        Ledger::get().reset();
        {
            Engine<T> e(c, m);
            if (r.closing) {
                int n = (int)c.size(0, 25); e.check();
                for (int i = 0; i < n; i++) e.step();
                if (e.al == Engine<T>::ONE || e.al == Engine<T>::RANGE) e.p_release();
                if (!e.closed) e.p_close();
                e.look_all();
                for (int i = (int)c.size(0, 30); i-- > 0;) { e.consumer_op(); e.check(); }
                e.drain(c.chance(1, 2));
                for (int i = 0; i < 6; i++) { e.consumer_op(); e.check(); }
            } else e.run();
            e.finish();
            r.wraps = e.wraps; r.fulls = e.fulls; r.sent = e.n_sent; r.resizes = e.resizes;
        }
        if (r.lifetime) c.require(Ledger::get().live.empty(), Ledger::get().live.size(), " element objects still alive after everything was consumed");
    };
    auto leak = [&] { size_t a = pbt::live_bytes(); body(); size_t b = pbt::live_bytes(); return (long)b - (long)a; };
    size_t start = c.mark(); long d = leak();
    // run the same history again: one-off allocations are not leaks
    if (r.lifetime && d > 0) { c.rewind(start); d = leak(); c.require(d <= 0, d, " bytes still allocated after every element was consumed and the queue deleted"); }
}
#define T_0 X(Tracked<24>) X(int32_t) X(uint64_t)
#define T_1 X(std::string) X(uint8_t) X(bool)
#define T_2 X(Tracked<72>) X(double) X(int16_t)
#define T_3 X(Tracked<64>) X(Pod<65>) X(long double)
#define T_4 X(std::vector<uint32_t>) X(Pod<3>)
#define T_5 X(std::shared_ptr<uint64_t>) X(Pod<64>)
#define T_6 X(std::array<std::string COMMA 4>) X(Tracked<200>)
#define COMMA ,
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define X(...) template void engine_case<__VA_ARGS__>(pbt::Case &, const Mix &, EngineRun &);
CAT(T_, PART)
#undef X
#if PART == 0
#define X(...) extern template void engine_case<__VA_ARGS__>(pbt::Case &, const Mix &, EngineRun &);
T_1 T_2 T_3 T_4 T_5 T_6
#undef X
std::vector<EngineFn> engine_types() {
    return { engine_case<Tracked<24>>, engine_case<std::string>, engine_case<Tracked<72>>, engine_case<Tracked<64>>, engine_case<std::vector<uint32_t>>,
             engine_case<std::shared_ptr<uint64_t>>, engine_case<std::array<std::string, 4>>, engine_case<Tracked<200>>,
             engine_case<int32_t>, engine_case<uint64_t>, engine_case<uint8_t>, engine_case<bool>, engine_case<double>, engine_case<int16_t>,
             engine_case<Pod<65>>, engine_case<long double>, engine_case<Pod<3>>, engine_case<Pod<64>> };
}
#endif
