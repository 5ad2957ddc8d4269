// Analysis harness: every serialisable class, one wrapper per save and load.
#include "svs/lib/preprocessor.h"
#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/core/graph.h"
#include "svs/core/translation.h"
#include "svs/index/inverted/memory_based.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/index/vamana/index.h"
using namespace svs;
#define PLAIN(label, T)                                                              \
    lib::SaveTable h_##label##_save(const T& x) { return x.save(); }                 \
    T h_##label##_load(const lib::ContextFreeLoadTable& t) { return T::load(t); }
#define COMPAT(label, T)                                                             \
    bool h_##label##_compat(std::string_view s, lib::Version v) {                    \
        return T::check_load_compatibility(s, v);                                    \
    }
using index::vamana::VamanaBuildParameters;
using index::vamana::VamanaIndexParameters;
using index::vamana::VamanaSearchParameters;
using index::inverted::ClusteringParameters;
using index::inverted::InvertedBuildParameters;
using index::inverted::InvertedSearchParameters;
PLAIN(build, VamanaBuildParameters)
PLAIN(search, VamanaSearchParameters)
PLAIN(index, VamanaIndexParameters)
PLAIN(clusterp, ClusteringParameters)
PLAIN(invb, InvertedBuildParameters)
PLAIN(invs, InvertedSearchParameters)
PLAIN(l2, DistanceL2)
PLAIN(ip, DistanceIP)
PLAIN(cos, DistanceCosineSimilarity)
using Data = data::SimpleData<float>;
using Graph = graphs::SimpleGraph<uint32_t>;
using BGraph = graphs::SimpleBlockedGraph<uint32_t>;
using Clusters = index::inverted::Clustering<uint32_t>;
using Cluster = index::inverted::Cluster<uint32_t>;
lib::SaveTable h_trans_save(const IDTranslator& x, const lib::SaveContext& c) { return x.save(c); }
IDTranslator h_trans_load(const lib::LoadTable& t) { return IDTranslator::load(t); }
lib::SaveTable h_data_save(const Data& x, const lib::SaveContext& c) { return x.save(c); }
Data h_data_load(const lib::LoadTable& t) { return Data::load(t); }
lib::SaveTable h_graph_save(const Graph& x, const lib::SaveContext& c) { return x.save(c); }
Graph h_graph_load(const lib::LoadTable& t) { return Graph::load(t); }
BGraph h_bgraph_load(const lib::LoadTable& t) { return BGraph::load(t); }
lib::SaveTable h_clusters_save(const Clusters& x, const lib::SaveContext& c) { return x.save(c); }
Clusters h_clusters_load(const lib::LoadTable& t) { return Clusters::load(t); }
size_t h_cluster_write(const Cluster& x, std::ostream& s) { return x.serialize(s); }
Cluster h_cluster_read(std::istream& s) { return Cluster::deserialize(s); }
lib::SaveTable h_blob_save(const lib::BinaryBlobSaver<float>& x, const lib::SaveContext& c) { return x.save(c); }
lib::BinaryBlobLoader<float> h_blob_load(const lib::LoadTable& t) { return lib::BinaryBlobLoader<float>::load(t); }
// index state
using Static = index::vamana::VamanaIndex<Graph, Data, DistanceL2>;
using Dynamic_ = index::vamana::MutableVamanaIndex<BGraph, data::BlockedData<float>, DistanceL2>;
using Path = std::filesystem::path;
void h_static_save(const Static& x, const Path& a, const Path& b, const Path& c) { x.save(a, b, c); }
void h_static_apply(Static& x, const VamanaIndexParameters& p) { x.apply(p); }
void h_dyn_save(Dynamic_& x, const Path& a, const Path& b, const Path& c) { x.save(a, b, c); }
Dynamic_ h_dyn_ctor(const VamanaIndexParameters& p, data::BlockedData<float>& d, BGraph& g, IDTranslator& t, threads::NativeThreadPool& tp) {
    return Dynamic_{p, std::move(d), std::move(g), DistanceL2(), std::move(t), std::move(tp)};
}
using State = index::vamana::detail::VamanaStateLoader;
State h_state_load(const lib::LoadTable& t, bool from_static, size_t n) { return State::load(t, from_static, n); }
