// Analysis harness: dataset storage.
#include "std_model.h"
#include "svs/core/data.h"
#include "pool_model.h"
using D = svs::data::SimpleData<float>;
using B = svs::data::BlockedData<float>;
using Pool = svs::threads::NativeThreadPool;
void h_compact_dense(D& x, std::span<const uint32_t> m, Pool& p, size_t b) { x.compact(m, p, b); }
void h_compact_blocked(B& x, std::span<const uint32_t> m, Pool& p, size_t b) { x.compact(m, p, b); }
