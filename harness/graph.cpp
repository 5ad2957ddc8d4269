// Analysis harness: adjacency-list storage.
#include "algo_model.h"
#include "svs/core/graph.h"
namespace {
using S = svs::graphs::SimpleGraph<uint32_t>;
using B = svs::graphs::SimpleBlockedGraph<uint32_t>;
using Sp = std::span<const uint32_t>;
using Vec = std::vector<uint32_t>;
}
#define OPS(P, G) \
    void h_##P##_replace_span(G& g, uint32_t i, Sp n) { g.replace_node(i, n); } \
    void h_##P##_replace_vec(G& g, uint32_t i, const Vec& n) { g.replace_node(i, n); } \
    size_t h_##P##_add_edge(G& g, uint32_t a, uint32_t b) { return g.add_edge(a, b); } \
    Sp h_##P##_get_node(const G& g, uint32_t i) { return g.get_node(i); } \
    size_t h_##P##_degree(const G& g, uint32_t i) { return g.get_node_degree(i); } \
    size_t h_##P##_max_degree(const G& g) { return g.max_degree(); } \
    size_t h_##P##_n_nodes(const G& g) { return g.n_nodes(); } \
    bool h_##P##_has_edge(const G& g, uint32_t a, uint32_t b) { return g.has_edge(a, b); } \
    void h_##P##_clear_node(G& g, uint32_t i) { g.clear_node(i); } \
    void h_##P##_reset(G& g) { g.reset(); } \
    G* h_##P##_ctor_data(void* p, G::data_type& d) { return new (p) G(std::move(d)); }
OPS(s, S)
OPS(b, B)
S* h_s_ctor(void* p, size_t n, size_t d) { return new (p) S(n, d); }
B* h_b_ctor(void* p, size_t n, size_t d) { return new (p) B(d, n); }
void h_b_resize(B& g, size_t n) { g.unsafe_resize(n); }
void h_b_add_node(B& g) { g.add_node(); }
S* h_s_ctor_alloc(void* p, size_t n, size_t d, const svs::HugepageAllocator<uint32_t>& a) { return new (p) S(n, d, a); }
