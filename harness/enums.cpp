// Analysis harness: conversions between enumerators, their names and what they select.
#include "svs/lib/preprocessor.h"
#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/core/io/native.h"
#include "svs/index/vamana/calibrate.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/lib/meta.h"
using namespace svs;
using SBO = index::vamana::CalibrationParameters::SearchBufferOptimization;
std::string_view h_name_DataType(DataType e) { return name(e); }
std::string_view h_name_DistanceType(DistanceType e) { return name(e); }
std::string_view h_name_FileSchema(io::FileSchema e) { return io::name(e); }
std::string_view h_name_SlotMetadata(index::vamana::SlotMetadata e) { return index::vamana::name(e); }
std::string_view h_name_SBO(SBO e) { return fmt::formatter<SBO>::get_name(e); }
size_t h_size_DataType(DataType e) { return element_size(e); }
DataType h_parse_DataType(std::string_view s) { return parse_datatype(s); }
DistanceType h_parse_DistanceType(std::string_view s) { return parse_distance_type(s); }
io::FileSchema h_parse_FileSchema(std::string_view s) { return io::parse_schema(s); }
// run-time dispatch
struct Sink {
    template <typename T> size_t operator()(T&&) const;
};
size_t h_distance(DistanceType e, const Sink& f) { return DistanceDispatcher(e)(f); }
size_t h_file(io::FileSchema e, const std::filesystem::path& p, const Sink& f) { return io::visit_file_type(e, p, f); }
std::optional<io::FileSchema> h_magic(uint64_t m) { return io::from_magic_number(m); }
using All = lib::Types<uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int64_t, Float16, float, double, std::byte>;
size_t h_match(DataType e, const Sink& f) { return lib::match(All(), e, f); }
using Three = lib::Types<float, int8_t, Float16>;
size_t h_match3(DataType e, const Sink& f) { return lib::match(Three(), e, f); }
uint64_t h_magic_Vtest() { return io::vtest::magic_number; }
uint64_t h_magic_V1() { return io::v1::Header{}.magic_; }
uint64_t h_magic_Database() { return io::database::Header{}.magic_; }
#define TYPE(k, T)                                                                   \
    DataType h_dt_##k() { return datatype_v<T>; }                                    \
    size_t h_cpp_##k(const Sink& f) { return f(lib::Type<cpp_type_t<DataType::k>>{}); }
TYPE(uint8, uint8_t)
TYPE(uint16, uint16_t)
TYPE(uint32, uint32_t)
TYPE(uint64, uint64_t)
TYPE(int8, int8_t)
TYPE(int16, int16_t)
TYPE(int32, int32_t)
TYPE(int64, int64_t)
TYPE(float16, Float16)
TYPE(float32, float)
TYPE(float64, double)
TYPE(byte, std::byte)
DataType h_dt_other() { return datatype_v<Sink>; }
// conversions used by the run-time dispatcher
bool h_conv_float32(DataType e) { return lib::dispatch_match<DataType, lib::Type<float>>(e) >= 0; }
bool h_conv_int8(DataType e) { return lib::dispatch_match<DataType, lib::Type<int8_t>>(e) >= 0; }
bool h_conv_L2(DistanceType e) { return lib::dispatch_match<DistanceType, DistanceL2>(e) >= 0; }
bool h_conv_MIP(DistanceType e) { return lib::dispatch_match<DistanceType, DistanceIP>(e) >= 0; }
bool h_conv_Cosine(DistanceType e) { return lib::dispatch_match<DistanceType, DistanceCosineSimilarity>(e) >= 0; }
bool h_load_float32(DataType e) { return data::detail::check_match<float, Dynamic>(e, 128) >= 0; }
bool h_load_uint8(DataType e) { return data::detail::check_match<uint8_t, 128>(e, 128) >= 0; }
bool h_load_dyn(size_t d) { return data::detail::check_match<float, Dynamic>(DataType::float32, d) >= 0; }
bool h_load_128(size_t d) { return data::detail::check_match<float, 128>(DataType::float32, d) >= 0; }
bool h_best_dyn(size_t d) { return data::detail::check_match<float, Dynamic>(DataType::float32, d) == 0; }
bool h_best_128(size_t d) { return data::detail::check_match<float, 128>(DataType::float32, d) == 0; }
using Disp = lib::Dispatcher<size_t, DataType, lib::ExtentArg>;
auto h_best(const Disp& d, const DataType& e, const lib::ExtentArg& x) { return d.best_match(e, x); }
bool h_has(const Disp& d, const DataType& e, const lib::ExtentArg& x) { return d.has_match(e, x); }
size_t h_invoke(const Disp& d, const DataType& e, const lib::ExtentArg& x) { return d.invoke(e, x); }
using ED = lib::ExtentTag<Dynamic>;
using E128 = lib::ExtentTag<128>;
bool h_ext_dyn(size_t v, bool f) { return lib::dispatch_match<lib::ExtentArg, ED>(lib::ExtentArg(v, f)) >= 0; }
bool h_ext_128(size_t v, bool f) { return lib::dispatch_match<lib::ExtentArg, E128>(lib::ExtentArg(v, f)) >= 0; }
bool h_ext_dyn_best(size_t v, bool f) { return lib::dispatch_match<lib::ExtentArg, ED>(lib::ExtentArg(v, f)) == 0; }
bool h_ext_128_best(size_t v, bool f) { return lib::dispatch_match<lib::ExtentArg, E128>(lib::ExtentArg(v, f)) == 0; }
auto matcher(const DataType& e, const lib::ExtentArg& x) {
    return lib::detail::make_matcher(lib::detail::Signature<void(DataType, lib::ExtentArg)>{}, lib::detail::Signature<void(lib::Type<float>, E128)>{})(e, x);
}
bool h_matcher_0(const DataType& e, const lib::ExtentArg& x) { return matcher(e, x)[0] >= 0; }
bool h_matcher_1(const DataType& e, const lib::ExtentArg& x) { return matcher(e, x)[1] >= 0; }
