// Analysis harness: the pruning rules.
#include "algo_model.h"
#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/index/vamana/prune.h"
namespace {
using D = svs::data::SimpleData<float>;
using A = svs::data::GetDatumAccessor;
using N = svs::Neighbor<uint32_t>;
using L2 = svs::distance::DistanceL2;
using IP = svs::distance::DistanceIP;
}
namespace v = svs::index::vamana;
#define PRUNE(S, TAG, DIST, OUT) \
    void h_##S##_##TAG(size_t maxn, float alpha, const D& data, DIST& dist, size_t node, const std::span<const N>& pool, std::vector<OUT>& result) { \
        v::heuristic_prune_neighbors(v::S##PruneStrategy(), maxn, alpha, data, A(), dist, node, pool, result); \
    }
#define ALL(S) PRUNE(S, l2, L2, uint32_t) PRUNE(S, ip, IP, uint32_t) PRUNE(S, nbr, L2, N)
ALL(Iterative)
ALL(Progressive)
ALL(Legacy)
#ifdef DIST
PRUNE(Iterative, fix, DIST, uint32_t)
PRUNE(Progressive, fix, DIST, uint32_t)
PRUNE(Legacy, fix, DIST, uint32_t)
#endif
