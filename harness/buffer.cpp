// Analysis harness: the candidate buffers of graph search.
#include "std_model.h"
#include "svs/index/vamana/search_buffer.h"
#include "svs/index/vamana/dynamic_search_buffer.h"
#ifndef CMP
#define CMP std::less<>
#endif
using S = svs::index::vamana::SearchBuffer<uint32_t, CMP>;
using M = svs::index::vamana::MutableBuffer<uint32_t, CMP>;
using SV = S::value_type;
using MV = M::value_type;
using Cfg = svs::index::vamana::SearchBufferConfig;
#define BOTH(P, B, V)                                                                        \
    size_t h_##P##_insert(B& b, V v) { return b.insert(v); }                                 \
    void h_##P##_push_back(B& b, V v) { b.push_back(v); }                                    \
    void h_##P##_sort(B& b) { b.sort(); }                                                    \
    void h_##P##_clear(B& b) { b.clear(); }                                                  \
    bool h_##P##_done(const B& b) { return b.done(); }                                       \
    const V& h_##P##_next(B& b) { return b.next(); }                                         \
    bool h_##P##_can_skip(const B& b, float d) { return b.can_skip(d); }                     \
    bool h_##P##_full(const B& b) { return b.full(); }                                       \
    size_t h_##P##_size(const B& b) { return b.size(); }                                     \
    const V& h_##P##_at(const B& b, size_t i) { return b[i]; }                               \
    void h_##P##_change_maxsize(B& b, size_t n) { b.change_maxsize(n); }                     \
    void h_##P##_change_config(B& b, Cfg c) { b.change_maxsize(c); }                         \
    B* h_##P##_ctor(void* where, Cfg c, CMP cmp, bool v) { return new (where) B(c, cmp, v); }
BOTH(s, S, SV)
BOTH(m, M, MV)
void h_m_cleanup(M& b) { b.cleanup(); }
size_t h_s_capacity(const S& b) { return b.capacity(); }
size_t h_m_target(const M& b) { return b.target(); }
bool h_m_valid(const MV& v) { return v.valid(); }
size_t h_s_place(S& b, uint32_t id, float d) { return b.insert(SV(id, d)); }
size_t h_m_place(M& b, uint32_t id, float d, bool valid) { return b.insert(MV(id, d, valid)); }
void h_s_append(S& b, uint32_t id, float d) { b.push_back(SV(id, d)); }
void h_m_append(M& b, uint32_t id, float d, bool valid) { b.push_back(MV(id, d, valid)); }
size_t h_s_best(const S& b) { return b.best_unvisited(); }
size_t h_m_best(const M& b) { return b.best_unvisited(); }
size_t h_s_window(const S& b) { return b.config().get_search_window_size(); }
size_t h_m_window(const M& b) { return b.config().get_search_window_size(); }
size_t h_m_valid_count(const M& b) { return b.valid(); }
bool h_s_seen(const SV& v) { return v.visited(); }
bool h_m_seen(const MV& v) { return v.visited(); }
bool h_s_filtering(const S& b) { return b.visited_set_enabled(); }
bool h_m_filtering(const M& b) { return b.visited_set_enabled(); }
using F = svs::index::vamana::VisitedFilter<uint32_t, 16>;
bool h_f_contains(const F& f, uint32_t id) { return f.contains(id); }
bool h_f_emplace(F& f, uint32_t id) { return f.emplace(id); }
void h_f_reset(F& f) { f.reset(); }
