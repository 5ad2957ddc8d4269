// Analysis harness: random choice of dataset elements.
#include "algo_model.h"
#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/core/kmeans.h"
#include "svs/index/inverted/clustering.h"
#include "svs/index/inverted/memory_based.h"
#include "pool_model.h"
namespace inv = svs::index::inverted;
using D = svs::data::SimpleData<float>;
using V = std::vector<uint32_t, svs::lib::Allocator<uint32_t>>;
D h_train(const svs::KMeansParameters& p, const D& d, svs::threads::NativeThreadPool& pool) { return svs::train_impl(p, d, pool); }
V h_select(size_t n, size_t k, uint64_t seed) { return inv::randomly_select_centroids<uint32_t>(n, k, seed); }
V h_picker(const D& d, const inv::ClusteringParameters& p) { return inv::pick_centroids_randomly(d, p, 1); }
void h_batch(const D& b, D& c, std::vector<int64_t>& n, std::vector<int64_t>& o, std::vector<size_t>& a, svs::threads::NativeThreadPool& pool, svs::lib::Timer& t) { svs::process_batch(b, c, n, o, a, pool, t); }
svs::Neighbor<size_t>* h_nearest(void* w, const std::span<const float>& q, const D& c) { return new (w) svs::Neighbor<size_t>(svs::find_nearest(q, c)); }
