// fifo_run.hpp - type-erased entry to the queue engine
#pragma once
#include "pbt.hpp"
#include "mix.hpp"
struct EngineRun { bool lifetime = false, closing = false; int wraps = 0, fulls = 0, sent = 0, resizes = 0; };
using EngineFn = void (*)(pbt::Case &, const Mix &, EngineRun &);
std::vector<EngineFn> engine_types();
