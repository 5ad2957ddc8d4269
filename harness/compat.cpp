// Analysis harness: version/schema gates of every serialisable class, top-level loading and element-type checks.
#include "svs/lib/preprocessor.h"
#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/core/graph.h"
#include "svs/core/translation.h"
#include "svs/index/inverted/memory_based.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/index/vamana/index.h"
using namespace svs;
using index::vamana::VamanaBuildParameters;
using index::vamana::VamanaIndexParameters;
using index::vamana::VamanaSearchParameters;
using index::inverted::ClusteringParameters;
using index::inverted::InvertedBuildParameters;
using index::inverted::InvertedSearchParameters;
using Data = data::SimpleData<float>;
using BData = data::BlockedData<float>;
using Graph = graphs::SimpleGraph<uint32_t>;
using BGraph = graphs::SimpleBlockedGraph<uint32_t>;
using Clusters = index::inverted::Clustering<uint32_t>;
using State = index::vamana::detail::VamanaStateLoader;
using Blob = lib::BinaryBlobLoader<float>;
#define GATE(label, T, TABLE) T h_##label##_ld(const TABLE& t) { return lib::load<T>(t); }
#define FREE(label, T)                                                               \
    GATE(label, T, lib::ContextFreeLoadTable)                                        \
    lib::SaveTable h_##label##_save(const T& x) { return x.save(); }
#define FILES(label, T)                                                              \
    GATE(label, T, lib::LoadTable)                                                   \
    lib::SaveTable h_##label##_save(const T& x, const lib::SaveContext& c) { return x.save(c); }
FREE(build, VamanaBuildParameters)
FREE(search, VamanaSearchParameters)
FREE(index, VamanaIndexParameters)
FREE(clusterp, ClusteringParameters)
FREE(invb, InvertedBuildParameters)
FREE(invs, InvertedSearchParameters)
FREE(l2, DistanceL2)
FREE(ip, DistanceIP)
FREE(cos, DistanceCosineSimilarity)
FILES(trans, IDTranslator)
FILES(data, Data)
FILES(bdata, BData)
FILES(graph, Graph)
FILES(bgraph, BGraph)
FILES(clusters, Clusters)
GATE(blob, Blob, lib::LoadTable)
lib::SaveTable h_blob_save(const lib::BinaryBlobSaver<float>& x, const lib::SaveContext& c) { return x.save(c); }
State h_state_ld(const lib::LoadTable& t, bool f, size_t n) { return lib::load<State>(t, f, n); }
// top level
Data h_disk(const std::filesystem::path& p) { return lib::load_from_disk<Data>(p); }
VamanaBuildParameters h_disk_build(const std::filesystem::path& p) { return lib::load_from_disk<VamanaBuildParameters>(p); }
VamanaBuildParameters h_file(const std::filesystem::path& p) { return lib::load_from_file<VamanaBuildParameters>(p); }
// raw pieces
lib::SaveTable h_savetable(std::string_view s, const lib::Version& v) { return lib::SaveTable(s, v); }
lib::ContextFreeLoadTable h_view(const toml::table& t) { return lib::ContextFreeLoadTable(t); }
lib::Version h_get_version(const toml::table& t) { return lib::get_version(t); }
std::string h_get_schema(const toml::table& t) { return lib::get_schema(t); }
lib::Version h_parse(std::string_view s) { return lib::Version(s); }
void h_save_dir(const VamanaBuildParameters& x, const std::filesystem::path& p) { lib::save_to_disk(x, p); }
void h_save_file(const VamanaBuildParameters& x, const std::filesystem::path& p) { lib::save_to_file(x, p); }
void h_save_node(toml::table& t, const std::filesystem::path& p, const lib::Version& v) { lib::detail::save_node_to_file(std::move(t), p, v); }
// static extents
using Data64 = data::SimpleData<float, 64>;
using BData64 = data::BlockedData<float, 64>;
Data64 h_fixed_ctor(size_t n, size_t d, const Data64::allocator_type& a) { return Data64(n, d, a); }
BData64 h_bfixed_ctor(size_t n, size_t d, const data::Blocked<lib::Allocator<float>>& a) { return BData64(n, d, a); }
void h_fixed_set(Data64& x, size_t i, std::span<const float> v) { x.set_datum(i, v); }
void h_data_set(Data& x, size_t i, std::span<const float> v) { x.set_datum(i, v); }
data::Matcher h_match(const lib::ContextFreeLoadTable& t, DataType e, size_t d) { return data::Matcher::load(t, e, d); }
// native files
io::vtest::Header h_hdr_vtest() { return io::vtest::Header(); }
io::v1::Header h_hdr_v1() { return io::v1::Header(); }
io::database::Header h_hdr_db() { return io::database::Header(); }
std::pair<size_t, size_t> h_native_dims(const io::NativeFile& f) { return f.get_dims(); }
std::optional<lib::UUID> h_native_uuid(const std::filesystem::path& p) { return io::get_uuid(p); }
void h_db_ctor(io::database::DatabaseProtoFile* out, const std::filesystem::path& p) { new (out) io::database::DatabaseProtoFile(p); }
