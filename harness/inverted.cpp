// Analysis harness: inverted index and its clustering.
#include "algo_model.h"
#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/index/inverted/clustering.h"
#include "svs/index/inverted/memory_based.h"
#include "pool_model.h"
#ifndef DIST
#define DIST svs::distance::DistanceL2
#endif
namespace inv = svs::index::inverted;
namespace {
using D = svs::data::SimpleData<float>;
using G = svs::graphs::SimpleGraph<uint32_t>;
using Pool = svs::threads::NativeThreadPool;
}
using V = svs::index::vamana::VamanaIndex<G, D, DIST>;
using Cl = inv::Clustering<uint32_t>;
using C1 = inv::Cluster<uint32_t>;
using Dense = inv::DenseClusteredDataset<D, uint32_t>;
using X = inv::InvertedIndex<V, Dense>;
using N = svs::Neighbor<uint32_t>;
using Cmp = svs::distance::compare_t<DIST>;
void h_search(X& x, svs::QueryResultView<size_t> r, const D& q, const inv::InvertedSearchParameters& p) { x.search(r, q, p); }
struct Tr { size_t operator()(size_t) const; };
struct Tc { uint32_t operator()(size_t) const; };
void h_post(const D& d, const inv::ClusteringParameters& p, Cl& c, const svs::QueryResult<uint32_t>& r, const DIST& dist, Tr t, Tc u, Pool& pool) {
    inv::post_process_neighbors(d, p, c, r, dist, t, u, pool);
}
void h_cl_sort(Cl& c, Cmp cmp) { c.sort_clusters(cmp); }
void h_c_sort(C1& c, Cmp cmp) { c.sort(cmp); }
bool h_cl_reduce(Cl& c, size_t n, Cmp cmp) { return c.reduce_maxsize(n, cmp); }
Dense* h_dense(void* w, const D& o, const Cl& c, const svs::lib::Allocator<float>& a) { return new (w) Dense(o, c, a); }
float h_bound(float a, float e, DIST d) { return inv::bound_with<float>(a, e, d); }
void h_cl_insert(Cl& c, uint32_t k, N n) { c.insert(k, n); }
