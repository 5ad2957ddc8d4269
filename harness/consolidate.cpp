// Analysis harness: pending updates of a consolidation batch.
#include "algo_model.h"
#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/core/graph.h"
#include "svs/index/vamana/consolidate.h"
using BU = svs::index::vamana::BulkUpdate<uint32_t>;
using L = std::vector<uint32_t, svs::threads::CacheAlignedAllocator<uint32_t>>;
void h_bu_insert(BU& b, size_t i, const L& l) { b.insert(i, l); }
bool h_bu_needs(const BU& b, size_t i) { return b.needs_update(i); }
std::span<const uint32_t> h_bu_get(const BU& b, size_t i) { return b.get_update(i); }
void h_bu_prepare(BU& b) { b.prepare(); }
BU* h_bu_ctor(void* w, size_t n, size_t m) { return new (w) BU(n, m); }
