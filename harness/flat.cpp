// Analysis harness: exhaustive index.
#include "algo_model.h"
#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/index/flat/flat.h"
#include "pool_model.h"
#ifndef DIST
#define DIST svs::distance::DistanceL2
#endif
namespace {
using D = svs::data::SimpleData<float>;
}
using X = svs::index::flat::FlatIndex<D, DIST>;
using T = svs::index::flat::TemporaryFlatIndex<D, DIST>;
using Cmp = svs::distance::compare_t<DIST>;
using B = X::sorter_type;
using N = svs::Neighbor<size_t>;
using Pts = svs::data::ConstSimpleDataView<float>;
using P = svs::index::flat::FlatParameters;
using U = svs::threads::UnitRange<size_t>;
using BD = svs::distance::BroadcastDistance<DIST>;
struct Pred { const bool* p; bool operator()(size_t i) const; };
void h_search(X& x, svs::QueryResultView<size_t> r, const Pts& q, const P& p) { x.search(r, q, p); }
void h_search_pred(X& x, svs::QueryResultView<size_t> r, const Pts& q, const P& p, Pred f) { x.search(r, q, p, f); }
void h_subset(X& x, const Pts& q, U d, B& s, const P& p, Pred f) { x.search_subset(q, d, s, p, f); }
void h_patch(X& x, const Pts& q, U d, U qs, B& s, BD& b, Pred f) { x.search_patch(q, d, qs, s, b, f); }
B* h_bi_ctor(void* w, size_t b, size_t n, Cmp c) { return new (w) B(b, n, c); }
void h_bi_prepare(B& b) { b.prepare(); }
void h_bi_insert(B& b, size_t i, size_t id, float d) { b.insert(i, N(id, d)); }
void h_bi_cleanup(B& b) { b.cleanup(); }
std::span<const N> h_bi_result(const B& b, size_t i) { return b.result(i); }
using H = svs::index::flat::HeapInserter<N*, Cmp>;
using L = svs::index::flat::LinearInserter<N*, Cmp>;
void h_hi_insert(H& h, N x) { h.insert(x); }
void h_hi_prepare(H& h) { h.prepare(); }
void h_hi_cleanup(H& h) { h.cleanup(); }
void h_li_insert(L& h, N x) { h.insert(x); }
void h_li_prepare(L& h) { h.prepare(); }
void h_li_cleanup(L& h) { h.cleanup(); }
