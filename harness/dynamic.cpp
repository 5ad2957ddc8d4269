// Analysis harness: the mutable graph index, one wrapper per operation.
#include "std_model.h"
#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/core/graph.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/orchestrators/dynamic_vamana.h"
#include "pool_model.h"
namespace {
using G = svs::graphs::SimpleBlockedGraph<uint32_t>;
using D = svs::data::BlockedData<float>;
}
using Ids = std::vector<size_t>;
using Pts = svs::data::ConstSimpleDataView<float>;
#ifndef DIST
#define DIST svs::distance::DistanceL2
#endif
using X = svs::index::vamana::MutableVamanaIndex<G, D, DIST>;
std::vector<size_t> h_add_points(X& x, const Pts& pts, const Ids& ids) { return x.add_points(pts, ids); }
void h_delete_entries(X& x, const Ids& ids) { x.delete_entries(ids); }
void h_delete_entry(X& x, size_t i) { x.delete_entry(i); }
bool h_is_deleted(const X& x, size_t i) { return x.is_deleted(i); }
void h_consolidate(X& x) { x.consolidate(); }
void h_compact(X& x, uint32_t b) { x.compact(b); }
void h_save(X& x, const std::filesystem::path& a, const std::filesystem::path& b, const std::filesystem::path& c) { x.save(a, b, c); }
void h_search(X& x, svs::QueryResultView<size_t> r, const Pts& q, const svs::index::vamana::VamanaSearchParameters& sp) { x.search(r, q, sp); }
void h_reconstruct(X& x, svs::data::SimpleDataView<float> dst, std::span<const size_t> ids) { x.reconstruct_at(dst, ids); }
void h_copy_points(X& x, const Pts& p, const Ids& s) { x.copy_points(p, s); }
void h_clear_lists(X& x, const Ids& s) { x.clear_lists(s); }
using BP = svs::index::vamana::VamanaBuildParameters;
X* h_build(void* where, const BP& p, D& d, const Ids& ids, DIST& dist) { return new (where) X(p, std::move(d), ids, std::move(dist), 4); }
G svsa_load_graph();
D svsa_load_data();
X* h_assemble(void* where, const std::filesystem::path& cfg, const DIST& dist, bool st) {
    return new (where) X(svs::index::vamana::auto_dynamic_assemble(cfg, svs::lib::Lazy([]() { return svsa_load_graph(); }), svs::lib::Lazy([]() { return svsa_load_data(); }), dist, 4, st));
}
void h_exhaustive(X& x, const Pts& q, svs::QueryResultView<size_t> r) { x.exhaustive_search(q, r.n_neighbors(), r); }
using svs::index::vamana::ValidBuilder;
using Status = std::vector<svs::index::vamana::SlotMetadata>;
bool h_vb_valid(const Status& s, uint32_t i, float d) { return ValidBuilder{s}(i, d).valid(); }
uint32_t h_vb_id(const Status& s, uint32_t i, float d) { return ValidBuilder{s}(i, d).id(); }
float h_vb_distance(const Status& s, uint32_t i, float d) { return ValidBuilder{s}(i, d).distance(); }
