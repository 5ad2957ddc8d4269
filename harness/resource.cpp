// Analysis harness: owners of memory, mappings and descriptors.
#include "svs/core/allocator.h"
#include "svs/lib/array.h"
#include "svs/lib/threads/threadlocal.h"
#include <new>
#include <utility>
using M = svs::MMapPtr<float>;
using MV = svs::MMapPtr<void>;
void h_mp_dtor(M* p) { p->~M(); }
void h_mp_unmap(M& p) { p.unmap(); }
M* h_mp_move(void* w, M& o) { return new (w) M(std::move(o)); }
M* h_mp_typed(void* w, MV& o) { return new (w) M(std::move(o)); }
void h_mp_assign(M& p, M& o) { p = std::move(o); }
void h_mm_map(MV* w, const svs::MemoryMapper& m, const std::filesystem::path& f, svs::lib::Bytes b) { new (w) MV(m.mmap(f, b)); }
void h_hp_map(svs::detail::HugepageAllocation* w, size_t n, bool force) { *w = svs::detail::hugepage_mmap(n, force); }
using GA = svs::detail::GenericHugepageAllocator;
void* h_hp_alloc(GA& a, size_t n, bool force) { return a.allocate(n, force); }
void h_hp_free(void* p) { GA::deallocate(p); }
// pairs of allocation and release
struct alignas(64) Wide { char x[192]; };
struct Odd { char x[3]; };
#define PAIR(TAG, A) \
    auto* h_new_##TAG(A& a, size_t n) { return a.allocate(n); } \
    void h_del_##TAG(A& a, A::value_type* p, size_t n) { a.deallocate(p, n); }
using A_float = svs::lib::Allocator<float>;
using A_wide = svs::lib::Allocator<Wide>;
using A_odd = svs::lib::Allocator<Odd>;
using C_float = svs::threads::CacheAlignedAllocator<float>;
using C_wide = svs::threads::CacheAlignedAllocator<svs::threads::Padded<Wide>>;
using C_odd = svs::threads::AlignedAllocator<Odd, 128>;
PAIR(float, A_float)
PAIR(wide, A_wide)
PAIR(odd, A_odd)
PAIR(cfloat, C_float)
PAIR(cwide, C_wide)
PAIR(codd, C_odd)
using H_odd = svs::HugepageAllocator<Odd>;
auto* h_new_hodd(H_odd& a, size_t n) { return a.allocate(n); }
void h_del_hodd(H_odd& a, Odd* p, size_t n) { a.deallocate(p, n); }
// owning arrays over allocators of which nothing is known
template <bool P> struct Trk {
    using value_type = float;
    using propagate_on_container_copy_assignment = std::bool_constant<P>;
    using propagate_on_container_move_assignment = std::bool_constant<P>;
    using propagate_on_container_swap = std::bool_constant<P>;
    using is_always_equal = std::false_type;
    Trk(const Trk&);
    Trk& operator=(const Trk&);
    ~Trk();
    float* allocate(size_t n);
    void deallocate(float* p, size_t n) noexcept;
    bool operator==(const Trk&) const;
    void* state;
};
using Dims = std::tuple<size_t, size_t>;
#define OWNER(TAG, P) \
    using O_##TAG = svs::DenseArray<float, Dims, Trk<P>>; \
    O_##TAG* h_##TAG##_make(void* w, Dims d, const Trk<P>& a) { return new (w) O_##TAG(d, a); } \
    O_##TAG* h_##TAG##_copy(void* w, const O_##TAG& o) { return new (w) O_##TAG(o); } \
    O_##TAG* h_##TAG##_move(void* w, O_##TAG& o) { return new (w) O_##TAG(std::move(o)); } \
    void h_##TAG##_cassign(O_##TAG& x, const O_##TAG& o) { x = o; } \
    void h_##TAG##_massign(O_##TAG& x, O_##TAG& o) { x = std::move(o); } \
    void h_##TAG##_swap(O_##TAG& x, O_##TAG& o) { x.swap(o); } \
    void h_##TAG##_dtor(O_##TAG* x) { x->~O_##TAG(); }
OWNER(prop, true)
OWNER(stay, false)
