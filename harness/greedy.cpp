// Analysis harness: greedy graph search.
#include "std_model.h"
#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/core/graph.h"
#include "svs/index/vamana/greedy_search.h"
#include "svs/index/vamana/dynamic_index.h"
#ifndef DIST
#define DIST svs::distance::DistanceL2
#endif
using namespace svs::index::vamana;
using G = svs::graphs::SimpleGraph<uint32_t>;
using D = svs::data::SimpleData<float>;
using Cmp = svs::distance::compare_t<DIST>;
using S = SearchBuffer<uint32_t, Cmp>;
using M = MutableBuffer<uint32_t, Cmp>;
using Ep = std::vector<uint32_t>;
using Q = std::span<const float>;
void h_greedy_static(const G& g, const D& d, svs::data::GetDatumAccessor& a, Q q, DIST& dist, S& b, const Ep& ep, GreedySearchPrefetchParameters p) {
    greedy_search(g, d, a, q, dist, b, ep, NeighborBuilder{}, p);
}
void h_greedy_dynamic(const G& g, const D& d, svs::data::GetDatumAccessor& a, Q q, DIST& dist, M& b, const Ep& ep, const std::vector<SlotMetadata>& st, GreedySearchPrefetchParameters p) {
    greedy_search(g, d, a, q, dist, b, ep, ValidBuilder{st}, p);
}
