// Analysis harness: the graph builder, one wrapper per phase.
#include "std_model.h"
#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/core/graph.h"
#include "svs/index/vamana/vamana_build.h"
#include "svs/index/vamana/dynamic_index.h"
#include "pool_model.h"
using G = svs::graphs::SimpleBlockedGraph<uint32_t>;
using D = svs::data::BlockedData<float>;
#ifndef DIST
#define DIST svs::distance::DistanceL2
#endif
using Pool = svs::threads::NativeThreadPool;
using B = svs::index::vamana::VamanaBuilder<G, D, DIST, Pool>;
using Slots = std::vector<size_t>;
using Part = svs::threads::IteratorPair<Slots::const_iterator>;
void h_construct(B& b, float alpha, uint32_t entry, const Slots& slots) { b.construct(alpha, entry, slots, svs::logging::Level::Info); }
void h_construct_all(B& b, float alpha, uint32_t entry) { b.construct(alpha, entry, svs::logging::Level::Info); }
void h_generate(B& b, const Part& p, float alpha, const std::vector<uint32_t>& e, svs::lib::Timer& t) { b.generate_neighbors(p, alpha, e, t); }
void h_reverse(B& b, const Part& p, float alpha, svs::lib::Timer& t) { b.add_reverse_edges(p, alpha, t); }
using BB = svs::index::vamana::BackedgeBuffer<uint32_t>;
void h_bb_add(BB& b, uint32_t s, uint32_t d) { b.add_edge(s, d); }
void h_bb_reset(BB& b) { b.reset(); }
BB* h_bb_ctor(void* w, size_t n, size_t s) { return new (w) BB(n, s); }
B* h_ctor(void* w, G& g, const D& d, DIST dist, const svs::index::vamana::VamanaBuildParameters& p, Pool& t) { return new (w) B(g, d, dist, p, t); }
