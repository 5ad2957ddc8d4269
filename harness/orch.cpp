// Analysis harness: the type-erased index classes, one wrapper per operation: the public class (pub), the virtual function of the
// interface (slot), its implementation (impl) and the accessors of the concrete index (get/set).
#include "svs/orchestrators/dynamic_vamana.h"
#include "svs/orchestrators/exhaustive.h"
#include "svs/orchestrators/vamana.h"
#include "pool_model.h"
using namespace svs;
using DVX = index::vamana::MutableVamanaIndex<graphs::SimpleBlockedGraph<uint32_t>, data::BlockedData<float>, distance::DistanceL2>;
using VAX = index::vamana::VamanaIndex<graphs::SimpleGraph<uint32_t>, data::SimpleData<float>, distance::DistanceL2>;
using FLX = index::flat::FlatIndex<data::SimpleData<float>, distance::DistanceL2>;
using Qs = lib::Types<float, int8_t>;
using DVPub = DynamicVamana;
using VAPub = Vamana;
using FLPub = Flat;
using DVIf = manager::ManagerInterface<DynamicVamanaInterface>;
using VAIf = manager::ManagerInterface<VamanaInterface>;
using FLIf = manager::ManagerInterface<FlatInterface>;
using DVImpl = DynamicVamanaImpl<Qs, DVX>;
using VAImpl = VamanaImpl<Qs, VAX>;
using FLImpl = FlatImpl<Qs, FLX>;
using SP = index::vamana::VamanaSearchParameters;
using FP = index::flat::FlatParameters;
using Ids = std::span<const size_t>;
using Path = const std::filesystem::path&;
using Res = QueryResultView<size_t>;
template <typename T> using CV = data::ConstSimpleDataView<T>;
using MV = data::SimpleDataView<float>;
using CP = index::vamana::CalibrationParameters;
#define U(...) __VA_ARGS__
#define PUB(C, R, op, f, P, A) R h_##C##_pub_##op(C##Pub& x P) { return x.f A; }
#define VOIDPUB(C, op, f, P, A) void h_##C##_pub_##op(C##Pub& x P) { x.f A; }
#define SLOT(C, R, op, P, A) R h_##C##_slot_##op(C##If& x P) { return x.op A; }
#define IMPL(C, R, op, P, A) R h_##C##_impl_##op(C##Impl& x P) { return x.C##Impl::op A; }
#define OP(C, R, op, P, A) PUB(C, R, op, op, U(P), A) SLOT(C, R, op, U(P), A) IMPL(C, R, op, U(P), A)
#define COMMON(C, SPT)                                                                                              \
    OP(C, size_t, size, , ()) OP(C, size_t, dimensions, , ()) OP(C, bool, can_change_threads, , ())                  \
    OP(C, size_t, get_num_threads, , ()) OP(C, void, set_num_threads, U(, size_t n), (n))                            \
    OP(C, SPT, get_search_parameters, , ()) OP(C, void, set_search_parameters, U(, const SPT& p), (p))               \
    OP(C, std::vector<DataType>, query_types, , ())                                                                  \
    PUB(C, void, search_float, search, U(, Res r, CV<float> q, const SPT& p), (r, q, p))                             \
    PUB(C, void, search_int8, search, U(, Res r, CV<int8_t> q, const SPT& p), (r, q, p))                             \
    SLOT(C, void, search, U(, Res r, AnonymousArray<2> q, const SPT& p), (r, q, p))                                  \
    IMPL(C, void, search, U(, Res r, AnonymousArray<2> q, const SPT& p), (r, q, p))
#define VAMANA(C)                                                                                                    \
    OP(C, float, get_alpha, , ()) OP(C, void, set_alpha, U(, float a), (a))                                          \
    OP(C, size_t, get_construction_window_size, , ()) OP(C, void, set_construction_window_size, U(, size_t n), (n))  \
    SLOT(C, size_t, get_max_candidates, , ()) IMPL(C, size_t, get_max_candidates, , ())                              \
    SLOT(C, void, set_max_candidates, U(, size_t n), (n)) IMPL(C, void, set_max_candidates, U(, size_t n), (n))      \
    PUB(C, std::string, experimental_backend_string, experimental_backend_string, , ())                              \
    SLOT(C, std::string, experimental_backend_string, , ())                                                          \
    OP(C, void, save, U(, Path a, Path b, Path c), (a, b, c))                                                        \
    OP(C, void, reconstruct_at, U(, MV v, Ids i), (v, i))                                                            \
    PUB(C, void, reset_performance_parameters, experimental_reset_performance_parameters, , ())                      \
    SLOT(C, void, reset_performance_parameters, , ()) IMPL(C, void, reset_performance_parameters, , ())              \
    PUB(C, SP, experimental_calibrate, experimental_calibrate_impl, U(, CV<float> q, CV<uint32_t> g, size_t n, double r, const CP& p), (q, g, n, r, p)) \
    SLOT(C, SP, experimental_calibrate, U(, ConstErasedPointer q, size_t a, size_t b, ConstErasedPointer g, size_t c, size_t d, size_t n, double r, const CP& p), (q, a, b, g, c, d, n, r, p)) \
    IMPL(C, SP, experimental_calibrate, U(, ConstErasedPointer q, size_t a, size_t b, ConstErasedPointer g, size_t c, size_t d, size_t n, double r, const CP& p), (q, a, b, g, c, d, n, r, p)) \
    VOIDPUB(C, set_search_window_size, set_search_window_size, U(, size_t n), (n))                                   \
    PUB(C, size_t, get_search_window_size, get_search_window_size, , ())
COMMON(DV, SP)
COMMON(VA, SP)
COMMON(FL, FP)
VAMANA(DV)
VAMANA(VA)
PUB(VA, size_t, get_max_candidates, get_max_candidates, , ())
PUB(VA, void, set_max_candidates, set_max_candidates, U(, size_t n), (n))
PUB(VA, bool, visited_set_enabled, visited_set_enabled, , ())
PUB(VA, void, enable_visited_set, enable_visited_set, , ())
PUB(VA, void, disable_visited_set, disable_visited_set, , ())
SLOT(DV, void, add_points, U(, const float* d, size_t a, size_t b, Ids i), (d, a, b, i))
IMPL(DV, void, add_points, U(, const float* d, size_t a, size_t b, Ids i), (d, a, b, i))
VOIDPUB(DV, add_points, add_points, U(, CV<float> v, Ids i), (v, i))
SLOT(DV, void, delete_points, U(, Ids i), (i))
IMPL(DV, void, delete_points, U(, Ids i), (i))
VOIDPUB(DV, delete_points, delete_points, U(, Ids i), (i))
SLOT(DV, void, consolidate, , ())
IMPL(DV, void, consolidate, , ())
VOIDPUB(DV, consolidate, consolidate, , ())
SLOT(DV, void, compact, U(, size_t n), (n))
IMPL(DV, void, compact, U(, size_t n), (n))
VOIDPUB(DV, compact, compact, U(, size_t n), (n))
OP(DV, bool, has_id, U(, size_t n), (n))
SLOT(DV, void, all_ids, U(, std::vector<size_t>& v), (v))
IMPL(DV, void, all_ids, U(, std::vector<size_t>& v), (v))
PUB(DV, std::vector<size_t>, all_ids, all_ids, , ())
// accessors of the concrete indexes
#define GETSET(C, T, what)                                                     \
    T h_##C##_get_##what(const C##X& x) { return x.get_##what(); }             \
    void h_##C##_set_##what(C##X& x, const T& v) { x.set_##what(v); }
#define XCOMMON(C, SPT) GETSET(C, SPT, search_parameters) GETSET(C, size_t, num_threads)
XCOMMON(DV, SP)
XCOMMON(VA, SP)
XCOMMON(FL, FP)
#define XVAMANA(C) GETSET(C, float, alpha) GETSET(C, size_t, construction_window_size) GETSET(C, size_t, max_candidates) GETSET(C, bool, full_search_history)
XVAMANA(DV)
XVAMANA(VA)
// layouts
size_t h_view_size(const CV<float>& v) { return v.size(); }
size_t h_view_dims(const CV<float>& v) { return v.dimensions(); }
const float* h_view_data(const CV<float>& v) { return v.data(); }
DataType h_anon_type(const AnonymousArray<2>& a) { return a.type(); }
size_t h_anon_size(const AnonymousArray<2>& a) { return a.size(0); }
size_t h_anon_dims(const AnonymousArray<2>& a) { return a.size(1); }
const float* h_anon_data(const AnonymousArray<2>& a) { return a.data<float>(); }
size_t h_sp_window(const SP& p) { return p.buffer_config_.get_search_window_size(); }
size_t h_sp_capacity(const SP& p) { return p.buffer_config_.get_total_capacity(); }
bool h_sp_visited(const SP& p) { return p.search_buffer_visited_set_; }
void h_pool_resize(threads::NativeThreadPool& p, size_t n) { p.resize(n); }
size_t h_pool_size(const threads::NativeThreadPool& p) { return p.size(); }
QueryResult<size_t> h_DV_pub_search_n(DVPub& x, const CV<float>& q, size_t n) { return x.search(q, n); }
QueryResult<size_t> h_VA_pub_search_n(VAPub& x, const CV<float>& q, size_t n) { return x.search(q, n); }
QueryResult<size_t> h_FL_pub_search_n(FLPub& x, const CV<float>& q, size_t n) { return x.search(q, n); }
size_t h_res_queries(const QueryResult<size_t>& r) { return r.n_queries(); }
size_t h_res_neighbors(const QueryResult<size_t>& r) { return r.n_neighbors(); }
size_t h_rv_queries(const QueryResultView<size_t>& r) { return r.n_queries(); }
size_t h_rv_neighbors(const QueryResultView<size_t>& r) { return r.n_neighbors(); }
// where the settings are used
void h_DV_use_add(DVX& x, CV<float> v, const std::vector<size_t>& ids) { x.add_points(v, ids); }
void h_DV_use_consolidate(DVX& x) { x.consolidate(); }
void h_DV_use_save(DVX& x, Path a, Path b, Path c) { x.save(a, b, c); }
void h_VA_use_save(const VAX& x, Path a, Path b, Path c) { x.save(a, b, c); }
VAX::scratchspace_type h_VA_use_scratch(const VAX& x, const SP& p) { return x.scratchspace(p); }
void h_DV_use_search(DVX& x, Res r, CV<float> q, const SP& p) { x.search(r, q, p); }
void h_VA_use_search(VAX& x, Res r, CV<float> q, const SP& p) { x.search(r, q, p); }
