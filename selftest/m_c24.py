D = "lib/datatype.h"
X = "lib/dispatcher.h"
DI = "core/distance.h"
N = "core/io/native.h"
CD = "core/data.h"
PD = '''inline DistanceType parse_distance_type(std::string_view str) {
    if (constexpr auto check = name(DistanceType::L2); check == str) {
        return DistanceType::L2;
    } else if (constexpr auto check = name(DistanceType::MIP); check == str) {
        return DistanceType::MIP;
    } else if (constexpr auto check = name(DistanceType::Cosine); check == str) {
        return DistanceType::Cosine;
    }
'''
BEST = '''            if (is_valid_match(match)) {
                if (!match_index.has_value() || resolver(match, best_match)) {
                    match_index = i;
                    best_match = match;
                }
            }
'''
NM = '''    switch (type) {
        case DistanceType::L2: {
            return "L2";
        }
        case DistanceType::MIP: {
            return "MIP";
        }
        case DistanceType::Cosine: {
            return "Cosine";
        }
    }
    throw ANNEXCEPTION("Unknown distance type!");'''
FM = '''    switch (magic) {
        case vtest::magic_number: {
            return FileSchema::Vtest;
        }
        case v1::magic_number: {
            return FileSchema::V1;
        }
        case database::magic_number: {
            return FileSchema::Database;
        }
    }
    return std::nullopt;'''
M = [
 ("c24-name", "C24", "bug", [(D, 'case DataType::uint64: { return name<DataType::uint64>(); }', 'case DataType::uint64: { return name<DataType::uint32>(); }')]),
 ("c24-size", "C24", "bug", [(D, "case DataType::int64: { return sizeof(int64_t); }", "case DataType::int64: { return sizeof(int32_t); }")]),
 ("c24-prefix", "C24", "bug", [(D, 'if (name == "int16") {', 'if (name.starts_with("int16")) {')]),
 ("c24-noundef", "C24", "bug", [(D, 'if (name == "byte") {', 'if (name == "byte" || name == "uint8") {')]),
 ("c24-lost", "C24", "bug", [(D, '    if (name == "int32") {\n        return DataType::int32;\n    }\n', '')]),
 ("c24-dist", "C24", "bug", [(DI, "return f(DistanceCosineSimilarity{}, std::forward<Args>(args)...);", "return f(DistanceIP{}, std::forward<Args>(args)...);")]),
 ("c24-distname", "C24", "bug", [(DI, "    } else if (constexpr auto check = name(DistanceType::Cosine); check == str) {\n        return DistanceType::Cosine;\n    }\n", "    } else if (str.starts_with(name(DistanceType::Cosine))) {\n        return DistanceType::Cosine;\n    }\n")]),
 ("c24-enummap", "C24", "bug", [(DI, "static constexpr bool match(DistanceType x) { return x == distance_type_v<Dist>; }", "static constexpr bool match(DistanceType x) { return x >= distance_type_v<Dist>; }")]),
 ("c24-slot", "C24", "bug", [("index/vamana/dynamic_index.h", '    return "Deleted";', '    return "Empty";')]),
 ("c24-sbo", "C24", "bug", [("index/vamana/calibrate.h", 'return "ROITuneUp";', 'return "ROIOnly";')]),
 ("c24-schema", "C24", "bug", [(N, "    if (constexpr auto str = name<Database>(); str == repr) {\n        return Database;", "    if (constexpr auto str = name<Database>(); str == repr) {\n        return V1;")]),
 ("c24-file", "C24", "bug", [(N, "            using T = file_type_t<Vtest>;", "            using T = file_type_t<V1>;")]),
 ("c24-magic", "C24", "bug", [(N, "        case v1::magic_number: {\n            return FileSchema::V1;", "        case v1::magic_number: {\n            return FileSchema::Database;")]),
 ("c24-magic2", "C24", "bug", [(N, FM, FM.replace("switch (magic) {", "switch (magic & ~uint64_t(1)) {").replace("vtest::magic_number:", "(vtest::magic_number & ~uint64_t(1)):").replace("v1::magic_number:", "(v1::magic_number & ~uint64_t(1)):").replace("database::magic_number:", "(database::magic_number & ~uint64_t(1)):"))]),
 ("c24-header", "C24", "bug", [(N, "static constexpr uint64_t magic_number = 0xcad4a6b2579980fe;\n", "static constexpr uint64_t magic_number = 0xcad4a6b2579980fe;\nstatic constexpr uint64_t written_magic = 0xcad4a6b2579980ff;\n"), (N, "    uint64_t magic_ = magic_number;\n    lib::UUID uuid_;\n    uint64_t num_vectors_;", "    uint64_t magic_ = written_magic;\n    lib::UUID uuid_;\n    uint64_t num_vectors_;")]),
 ("c24-bool", "C24", "bug", [(X, "        return ret ? 0 : -1;", "        return ret ? 0 : 1;")]),
 ("c24-extent", "C24", "bug", [(X, "if (N == Dynamic && !v.force_) {", "if (N == Dynamic) {")]),
 ("c24-extent2", "C24", "bug", [(X, "if (N == v.value_) {", "if (N >= v.value_) {")]),
 ("c24-load", "C24", "bug", [(CD, "    if constexpr (Extent == Dynamic) {\n        return lib::imperfect_match;\n    }\n    return lib::invalid_match;\n}\n} // namespace data::detail", "    if constexpr (Extent == Dynamic) {\n        return lib::imperfect_match;\n    }\n    return dims < Extent ? lib::imperfect_match : lib::invalid_match;\n}\n} // namespace data::detail")]),
 ("c24-valid", "C24", "bug", [(X, "    for (size_t i = 0; i < N; ++i) {\n        if (match[i] < 0) {", "    for (size_t i = 0; i + 1 < N; ++i) {\n        if (match[i] < 0) {")]),
 ("c24-first", "C24", "bug", [(X, "if (!match_index.has_value() || resolver(match, best_match)) {", "if (!match_index.has_value() || resolver(best_match, match)) {")]),
 ("c24-best", "C24", "bug", [(X, BEST, BEST.replace("                    best_match = match;\n", "                    if (i == 0) { best_match = match; }\n"))]),
 ("c24-last", "C24", "bug", [(X, "for (size_t i = 0, imax = size(); i < imax; ++i) {\n            const auto& candidate", "for (size_t i = 0, imax = size(); i + 1 < imax; ++i) {\n            const auto& candidate")]),
 ("c24-any", "C24", "bug", [(X, BEST, BEST.replace("if (is_valid_match(match)) {", "if (is_valid_match(match) || i + 1 == imax) {"))]),
 ("c24-nothrow", "C24", "bug", [(X, "        if (!match_index) {\n            throw", "        if (!match_index && size() == 0) {\n            throw"), (X, "candidates_.at(match_index.value())", "candidates_.at(*match_index)")]),
 ("c24-wrong", "C24", "bug", [(X, "return candidates_.at(match_index.value()).invoke(SVS_FWD(args)...);", "return candidates_.at(match_index.value() ? match_index.value() : size() - 1).invoke(SVS_FWD(args)...);")]),
 ("c24-has", "C24", "bug", [(X, "        return match_index.has_value();\n", "        return match_index.has_value() || size() > 0;\n")]),
 ("c24-match", "C24", "bug", [("lib/meta.h", "    if (type == datatype_v<T>) {\n        return f(lib::Type<T>{});\n    }\n\n    // At the end", "    if (type == datatype_v<T> || sizeof...(Ts) == 0) {\n        return f(lib::Type<T>{});\n    }\n\n    // At the end")]),
 ("c24-same1", "C24", "same", [(DI, PD, '''inline DistanceType parse_distance_type(std::string_view str) {
    for (auto t : {DistanceType::L2, DistanceType::MIP, DistanceType::Cosine}) {
        if (name(t) == str) {
            return t;
        }
    }
''')]),
 ("c24-same2", "C24", "same", [(DI, NM, '''    if (type == DistanceType::L2) {
        return "L2";
    }
    if (type == DistanceType::MIP) {
        return "MIP";
    }
    if (type == DistanceType::Cosine) {
        return "Cosine";
    }
    throw ANNEXCEPTION("Unknown distance type!");''')]),
 ("c24-same3", "C24", "same", [(X, BEST, '''            if (!is_valid_match(match)) {
                continue;
            }
            const bool first = !match_index.has_value();
            if (first || resolver(match, best_match)) {
                best_match = match;
                match_index.emplace(i);
            }
''')]),
 ("c24-same4", "C24", "same", [(X, BEST, BEST.replace("if (is_valid_match(match)) {\n                if (!match_index.has_value() || resolver(match, best_match)) {", "if (is_valid_match(match)) {\n                if (!match_index.has_value() || match < best_match) {"))]),
 ("c24-same5", "C24", "same", [(N, FM, '''    if (magic == v1::magic_number) {
        return FileSchema::V1;
    } else if (magic == vtest::magic_number) {
        return FileSchema::Vtest;
    }
    if (magic != database::magic_number) {
        return std::nullopt;
    }
    return FileSchema::Database;''')]),
 ("c24-same6", "C24", "same", [(X, "    for (size_t i = 0; i < N; ++i) {\n        if (match[i] < 0) {\n            return false;\n        }\n    }\n    return true;", "    for (auto m : match) {\n        if (m < 0) {\n            return false;\n        }\n    }\n    return true;")]),
 ("c24-same7", "C24", "same", [(X, "        if (!match_index) {\n            throw ANNEXCEPTION(\"Could not find a suitable method!\");\n        }\n        return candidates_.at(match_index.value()).invoke(SVS_FWD(args)...);", "        if (match_index.has_value()) {\n            const auto& best = candidates_[*match_index];\n            return best.invoke(SVS_FWD(args)...);\n        }\n        throw ANNEXCEPTION(\"Could not find a suitable method!\");")]),
 ("c24-same8", "C24", "same", [(D, '''    if (name == "uint8") {
        return DataType::uint8;
    }
    if (name == "uint16") {
        return DataType::uint16;
    }
''', '''    if (name.size() == 5 && name == "uint8") {
        return DataType::uint8;
    }
    if (name.compare("uint16") == 0) {
        return DataType::uint16;
    }
''')]),
 ("c24-same9", "C24", "same", [(CD, "    if (dims == Extent) {\n        return lib::perfect_match;\n    }\n\n    // Otherwise, if there is a static mismatch in dimensions, we can't match.\n    if constexpr (Extent == Dynamic) {\n        return lib::imperfect_match;\n    }\n    return lib::invalid_match;\n}\n} // namespace data::detail", "    const bool exact = dims == Extent;\n    if constexpr (Extent == Dynamic) {\n        return exact ? lib::perfect_match : lib::imperfect_match;\n    } else {\n        return exact ? lib::perfect_match : lib::invalid_match;\n    }\n}\n} // namespace data::detail")]),
 ("c24-same10", "C24", "same", [(X, "        for (size_t i = 0, imax = size(); i < imax; ++i) {\n            const auto& candidate = candidates_.at(i);\n            auto match = candidate.check_match(args...);", "        size_t i = 0;\n        for (const auto& candidate : candidates_) {\n            auto match = candidate.check_match(args...);"), (X, BEST, BEST + "            ++i;\n")]),
]
