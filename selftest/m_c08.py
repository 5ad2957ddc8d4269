BP = "index/vamana/build_params.h"
SP = "index/vamana/search_params.h"
IX = "index/vamana/index.h"
DS = "core/data/simple.h"
GR = "core/graph/graph.h"
BS = "lib/saveload/bootstrap.h"
LD = "lib/saveload/load.h"
VE = "lib/version.h"
DC = "core/distance/distance_core.h"
NA = "core/io/native.h"
CL = "index/inverted/clustering.h"
R = "        return schema == serialization_schema && version <= save_version;"
ML = "        return T::load(table, SVS_FWD(args)...);"
CG = "    if (version != lib::Version{0, 0, 2}) {"
M = [
 ("c08-b1", "C08", "bug", [(BP, R, "        return schema == serialization_schema;")]),
 ("c08-b2", "C08", "bug", [(SP, R, "        return version <= save_version;")]),
 ("c08-b3", "C08", "bug", [(IX, R, "        return schema == serialization_schema && version >= save_version;")]),
 ("c08-b4", "C08", "bug", [(DC, "schema == serialization_schema && version == save_version", "schema == serialization_schema || version == save_version")]),
 ("c08-b5", "C08", "bug", [(LD, "            return T::save_version == table.version() &&\n                   T::serialization_schema == table.schema();", "            return T::save_version == table.version();")]),
 ("c08-b6", "C08", "bug", [(LD, "            return T::save_version == table.version() &&", "            return T::save_version <= table.version() &&")]),
 ("c08-b7", "C08", "bug", [(LD, CG, "    if (version > lib::Version{0, 1, 0}) {")]),
 ("c08-b8", "C08", "bug", [(LD, "    if (version == lib::Version{0, 0, 1}) {", "    if (version == lib::Version{0, 1, 0}) {"), (LD, CG, "    if (version > lib::Version{0, 0, 2}) {")]),
 ("c08-b9", "C08", "bug", [(LD, '''    auto version = get_version(table, config_version_key);
    svs::lib::detail::check_global_version(version, fullpath);
    return ContextFreeSerializedObject''', '''    return ContextFreeSerializedObject''')]),
 ("c08-b10", "C08", "bug", [(VE, "    return x.patch < y.patch;", "    return x.patch > y.patch;")]),
 ("c08-b11", "C08", "bug", [(VE, '''    if (x.minor < y.minor) {
        return true;
    } else if (x.minor > y.minor) {
        return false;
    }
''', '''    if (x.minor < y.minor) {
        return true;
    }
''')]),
 ("c08-b12", "C08", "bug", [(VE, "(x.major == y.major) && (x.minor == y.minor) && (x.patch == y.patch)", "(x.major == y.major) && (x.patch == y.patch)")]),
 ("c08-b13", "C08", "bug", [(VE, "        patch = parse_int<size_t>(v.substr(stop + 1));", "        patch = parse_int<size_t>(v.substr(start));")]),
 ("c08-b14", "C08", "bug", [(DC, "        if (retrieved != expected) {", "        if (!retrieved.starts_with(expected)) {")]),
 ("c08-b15", "C08", "bug", [(GR, "        if (eltype != datatype_v<Idx>) {", "        if (eltype == svs::DataType::undef) {")]),
 ("c08-b16", "C08", "bug", [(BS, "        if (element_type != expected_element_type) {", "        if (element_type == DataType::undef && element_type != expected_element_type) {")]),
 ("c08-b17", "C08", "bug", [(DS, "type_hint != DataType::undef && type_hint != matcher.eltype", "type_hint != DataType::undef && matcher.eltype != DataType::undef && type_hint > matcher.eltype")]),
 ("c08-b18", "C08", "bug", [(DS, "dims_hint != Dynamic && dims_hint != matcher.dims", "dims_hint != Dynamic && dims_hint < matcher.dims")]),
 ("c08-b19", "C08", "bug", [(DS, "        if (!check_dims<Extent, N>(dimensions(), datum.size())) {", "        if (datum.size() < dimensions()) {")]),
 ("c08-b20", "C08", "bug", [(NA, '''        case v1::magic_number: {
            return FileSchema::V1;''', '''        case v1::magic_number: {
            return FileSchema::Vtest;''')]),
 ("c08-b21", "C08", "bug", [(NA, "        if (header_.magic_ != magic_number) {", "        if (header_.magic_ == v1::magic_number) {")]),
 ("c08-b22", "C08", "bug", [(IX, "        if (table.version() > lib::Version{0, 0, 2}) {", "        if (table.version() > lib::Version{0, 0, 3}) {"), (IX, "        return schema == serialization_schema && version <= save_version;", "        return schema == serialization_schema && version.major <= save_version.major;")]),
 ("c08-s1", "C08", "same", [(BP, R, "        if (schema != serialization_schema) { return false; }\n        return !(save_version < version);")]),
 ("c08-s2", "C08", "same", [(IX, R, "        const bool same = schema.compare(serialization_schema) == 0;\n        return same & (version < save_version || version == save_version);")]),
 ("c08-s3", "C08", "same", [(LD, ML, "        auto go = [&]() { return T::load(table, SVS_FWD(args)...); };\n        return go();")]),
 ("c08-s4", "C08", "same", [(LD, '''        if (!check_compatibility(table)) {
            throw ANNEXCEPTION(
                "Trying''', '''        const auto fine = check_compatibility(table);
        if (fine) {
            return T::load(table, SVS_FWD(args)...);
        } else {
            throw ANNEXCEPTION(
                "Trying'''), (LD, '''            );
        }
        return T::load(table, SVS_FWD(args)...);''', '''            );
        }''')]),
 ("c08-s5", "C08", "same", [(LD, CG, "    if (version < lib::Version{0, 0, 2} || version > lib::Version{0, 0, 2}) {")]),
 ("c08-s6", "C08", "same", [(VE, '''    if (x.major < y.major) {
        return true;
    } else if (x.major > y.major) {
        return false;
    }

    // Major is equal -- compare minor.
    if (x.minor < y.minor) {
        return true;
    } else if (x.minor > y.minor) {
        return false;
    }
''', '''    if (x.major != y.major) {
        return x.major < y.major;
    }
    if (x.minor != y.minor) {
        return x.minor < y.minor;
    }
''')]),
 ("c08-s7", "C08", "same", [(DC, "        if (retrieved != expected) {", "        const bool wrong = !(std::string_view(retrieved) == expected);\n        if (wrong) {")]),
 ("c08-s8", "C08", "same", [(GR, "        if (eltype != datatype_v<Idx>) {", "        constexpr auto want = datatype_v<Idx>;\n        if (!(eltype == want)) {")]),
 ("c08-s9", "C08", "same", [(DS, '''        if (type_hint != DataType::undef && type_hint != matcher.eltype) {''', '''        const bool hinted = type_hint != DataType::undef;
        if (hinted && !(type_hint == matcher.eltype)) {''')]),
 ("c08-s10", "C08", "same", [(NA, '''    switch (magic) {
        case vtest::magic_number: {
            return FileSchema::Vtest;
        }
        case v1::magic_number: {
            return FileSchema::V1;
        }
        case database::magic_number: {
            return FileSchema::Database;
        }
    }
    return std::nullopt;''', '''    if (magic == vtest::magic_number) {
        return FileSchema::Vtest;
    }
    if (magic == v1::magic_number) {
        return FileSchema::V1;
    }
    if (magic != database::magic_number) {
        return std::nullopt;
    }
    return FileSchema::Database;''')]),
 ("c08-s11", "C08", "same", [(VE, "        patch = parse_int<size_t>(v.substr(stop + 1));", "        const auto rest = v.substr(stop + 1);\n        patch = parse_int<size_t>(rest);")]),
 ("c08-s12", "C08", "same", [(BS, "        if (element_type != expected_element_type) {", "        bool matches = element_type == expected_element_type;\n        if (!matches) {")]),
 ("c08-s13", "C08", "same", [(DS, "        if (!check_dims<Extent, N>(dimensions(), datum.size())) {", "        const size_t want = dimensions();\n        if (const bool ok = check_dims<Extent, N>(want, datum.size()); !ok) {")]),
]
