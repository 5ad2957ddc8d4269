// Analysis harness: locks and the values they protect.
#include "svs/core/allocator.h"
#include "svs/core/logging.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/index/vamana/index.h"
#include "svs/lib/concurrency/readwrite_protected.h"
#include "svs/lib/spinlock.h"
#include <type_traits>
using svs::SpinLock;
bool h_sl_try(SpinLock& l) { return l.try_lock(); }
void h_sl_lock(SpinLock& l) { l.lock(); }
void h_sl_unlock(SpinLock& l) { l.unlock(); }
bool h_sl_is(const SpinLock& l) { return l.islocked(); }
SpinLock* h_sl_ctor(void* w) { return new (w) SpinLock(); }
bool h_sl_copy() { return std::is_copy_constructible_v<SpinLock> || std::is_copy_assignable_v<SpinLock>; }
template <typename T> using P = svs::lib::ReadWriteProtected<T>;
using F = P<float>;
using S = P<std::shared_ptr<int>>;
using W = P<svs::index::vamana::VamanaSearchParameters>;
float h_rf_get(const F& p) { return p.get(); }
void h_rf_pilfer(float& out, F& p) { out = std::move(p).get(); }
void h_rf_set(F& p, const float& x) { p.set(x); }
void h_rf_setm(F& p, float& x) { p.set(std::move(x)); }
F* h_rf_copy(void* w, const F& p) { return new (w) F(p); }
F* h_rf_move(void* w, F& p) { return new (w) F(std::move(p)); }
void h_rf_assign(F& q, const F& p) { q = p; }
void h_rf_massign(F& q, F& p) { q = std::move(p); }
std::shared_ptr<int> h_rs_get(const S& p) { return p.get(); }
void h_rs_pilfer(std::shared_ptr<int>& out, S& p) { out = std::move(p).get(); }
void h_rs_set(S& p, const std::shared_ptr<int>& x) { p.set(x); }
void h_rs_setm(S& p, std::shared_ptr<int>& x) { p.set(std::move(x)); }
void h_rs_assign(S& q, const S& p) { q = p; }
svs::index::vamana::VamanaSearchParameters h_rw_get(const W& p) { return p.get(); }
void h_rw_set(W& p, const svs::index::vamana::VamanaSearchParameters& x) { p.set(x); }
void h_rw_setm(W& p, svs::index::vamana::VamanaSearchParameters& x) { p.set(std::move(x)); }
template <typename T> constexpr bool exposed = requires(T& p) { p.x_; } || requires(T& p) { p.mutex_; };
bool h_rw_exposed() { return exposed<F> || exposed<S> || exposed<W>; }
template <typename T> constexpr bool alias = requires(T& p) { requires std::is_reference_v<decltype(p.get())>; } || requires(const T& p) { requires std::is_reference_v<decltype(p.get())>; } || requires(T&& p) { requires std::is_reference_v<decltype(std::move(p).get())>; };
bool h_rw_alias() { return alias<F> || alias<S> || alias<W>; }
using HA = svs::detail::GenericHugepageAllocator;
void* h_hp_alloc(HA& a, size_t n) { return a.allocate(n); }
void h_hp_free(void* p) { HA::deallocate(p); }
size_t h_hp_list() { return HA::get_allocations().size(); }
svs::logging::logger_ptr h_lg_get() { return svs::logging::get(); }
void h_lg_set(const svs::logging::logger_ptr& l) { svs::logging::set(l); }
void h_lg_setm(svs::logging::logger_ptr& l) { svs::logging::set(std::move(l)); }
void h_lg_reset() { svs::logging::reset_to_default(); }
int h_lg_level() { return int(svs::logging::get_level()); }
void h_lg_setlevel(int l) { svs::logging::set_level(svs::logging::Level(l)); }
void h_lg_log(svs::logging::Level l, int x) { svs::logging::log(l, "{}", x); }
void h_lg_warn(int x) { svs::logging::warn("{}", x); }
void* h_lg_cell() { return &svs::logging::global_logger(); }
