// Analysis harness: the static graph index, one wrapper per operation.
#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/core/graph.h"
#include "svs/index/index.h"
#include "svs/index/vamana/index.h"
#include "pool_model.h"
#ifndef DIST
#define DIST svs::distance::DistanceL2
#endif
using G = svs::graphs::SimpleGraph<uint32_t>;
using D = svs::data::SimpleData<float>;
using X = svs::index::vamana::VamanaIndex<G, D, DIST>;
using Pts = svs::data::ConstSimpleDataView<float>;
using BP = svs::index::vamana::VamanaBuildParameters;
using SP = svs::index::vamana::VamanaSearchParameters;
X* h_build(void* where, const BP& p, G& g, D& d, uint32_t ep, DIST& dist, svs::threads::NativeThreadPool& pool) {
    return new (where) X(p, std::move(g), std::move(d), ep, std::move(dist), std::move(pool));
}
void h_search(X& x, svs::QueryResultView<size_t> r, const Pts& q, const SP& sp) { x.search(r, q, sp); }
svs::QueryResult<size_t> h_batch(X& x, const Pts& q, size_t n, const SP& sp) { return svs::index::search_batch_with(x, q, n, sp); }
void h_reconstruct(X& x, svs::data::SimpleDataView<float> dst, std::span<const size_t> ids) { x.reconstruct_at(dst, ids); }
