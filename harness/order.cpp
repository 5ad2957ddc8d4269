// Analysis harness: the orders distances are compared with.
#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/index/inverted/clustering.h"
#include "svs/index/inverted/memory_based.h"
#include "svs/lib/neighbor.h"
namespace d = svs::distance;
namespace t = svs::type_traits;
using Less = std::less<>;
using Greater = std::greater<>;
#define ORDER(TAG, DIST) \
    bool h_cmp_##TAG(float a, float b) { return d::compare_t<DIST>{}(a, b); } \
    bool h_obj_##TAG(const DIST& x, float a, float b) { return d::comparator(x)(a, b); }
ORDER(l2, d::DistanceL2)
ORDER(ip, d::DistanceIP)
ORDER(cos, d::DistanceCosineSimilarity)
#define NB(TAG, N) \
    bool h_lt_##TAG(const N& a, const N& b) { return Less{}(a, b); } \
    bool h_gt_##TAG(const N& a, const N& b) { return Greater{}(a, b); }
NB(plain, svs::Neighbor<uint32_t>)
NB(visit, svs::SearchNeighbor<uint32_t>)
NB(valid, svs::PredicatedSearchNeighbor<uint32_t>)
#define SENT(TAG, CMP) \
    float h_sent_##TAG() { constexpr float v = t::sentinel_v<float, CMP>; return v; } \
    float h_tomb_##TAG() { constexpr float v = t::tombstone_v<float, CMP>; return v; } \
    int h_sent_int_##TAG() { constexpr int v = t::sentinel_v<int, CMP>; return v; } \
    int h_tomb_int_##TAG() { constexpr int v = t::tombstone_v<int, CMP>; return v; } \
    float h_sent_nb_##TAG() { constexpr float v = t::sentinel_v<svs::Neighbor<uint32_t>, CMP>.distance(); return v; }
SENT(less, Less)
SENT(greater, Greater)
float h_bound_l2(float a, float e) { return svs::index::inverted::bound_with<float>(a, e, d::DistanceL2()); }
float h_bound_ip(float a, float e) { return svs::index::inverted::bound_with<float>(a, e, d::DistanceIP()); }
using Sp = std::span<const float>;
void h_fix_cos(d::DistanceCosineSimilarity& x, Sp a) { d::maybe_fix_argument(x, a); }
float h_eval_cos(d::DistanceCosineSimilarity& x, Sp a, Sp b) { return d::compute(x, a, b); }
float h_eval_cos_half(d::DistanceCosineSimilarity& x, Sp a, std::span<const svs::Float16> b) { return d::compute(x, a, b); }
d::DistanceCosineSimilarity& h_bcast(d::BroadcastDistance<d::DistanceCosineSimilarity>& x, size_t i) { return x[i]; }
