BP = "index/vamana/build_params.h"
SP = "index/vamana/search_params.h"
IX = "index/vamana/index.h"
DY = "index/vamana/dynamic_index.h"
TR = "core/translation.h"
CL = "index/inverted/clustering.h"
DS = "core/data/simple.h"
GR = "core/graph/graph.h"
BS = "lib/saveload/bootstrap.h"
M = [
 ("c07-b1", "C07", "bug", [(BP, "             SVS_LIST_SAVE(prune_to),\n", "             {\"prune_to\", lib::save(graph_max_degree)},\n")]),
 ("c07-b2", "C07", "bug", [(BP, "            SVS_LOAD_MEMBER_AT(table, window_size),\n            SVS_LOAD_MEMBER_AT(table, max_candidate_pool_size),", "            SVS_LOAD_MEMBER_AT(table, max_candidate_pool_size),\n            SVS_LOAD_MEMBER_AT(table, window_size),")]),
 ("c07-b3", "C07", "bug", [(BP, "table.version() > lib::Version(0, 0, 0)", "table.version() > lib::Version(0, 0, 1)")]),
 ("c07-b4", "C07", "bug", [(SP, '''            SVS_LOAD_MEMBER_AT_(table, prefetch_lookahead),
            SVS_LOAD_MEMBER_AT_(table, prefetch_step),
        };''', '''            SVS_LOAD_MEMBER_AT_(table, prefetch_step),
            SVS_LOAD_MEMBER_AT_(table, prefetch_lookahead),
        };''')]),
 ("c07-b5", "C07", "bug", [(SP, "lib::save(buffer_config_.get_total_capacity())", "lib::save(buffer_config_.get_search_window_size())")]),
 ("c07-b6", "C07", "bug", [(IX, '''                lib::load_at<size_t>(table, "construction_window_size"),
                lib::load_at<size_t>(table, "max_candidates"),''', '''                lib::load_at<size_t>(table, "max_candidates"),
                lib::load_at<size_t>(table, "construction_window_size"),''')]),
 ("c07-b7", "C07", "bug", [(DY, '''                     get_construction_window_size(),
                     get_max_candidates(),
                     prune_to_,''', '''                     get_construction_window_size(),
                     prune_to_,
                     get_max_candidates(),''')]),
 ("c07-b8", "C07", "bug", [(IX, '''        build_parameters_ = parameters.build_parameters;
''', '''        build_parameters_.alpha = parameters.build_parameters.alpha;
''')]),
 ("c07-b9", "C07", "bug", [(TR, '''            lib::write_binary(stream, i->first);
            lib::write_binary(stream, i->second);''', '''            lib::write_binary(stream, i->second);
            lib::write_binary(stream, i->first);''')]),
 ("c07-b10", "C07", "bug", [(TR, "            translator.insert_translation(external_id, internal_id);\n", "            translator.insert_translation(internal_id, lib::narrow<internal_id_type>(external_id));\n")]),
 ("c07-b11", "C07", "bug", [(CL, "percent_centroids_{percent_centroids}", "percent_centroids_{epsilon}")]),
 ("c07-b12", "C07", "bug", [(CL, '''             {"num_clusters", lib::save(size())}}''', '''             {"num_clusters", lib::save(filesize)}}''')]),
 ("c07-b13", "C07", "bug", [(GR, '''        auto uuid = lib::UUID{};
        auto filename = ctx.generate_name("graph");
        io::save(data_, io::NativeFile(filename), uuid);''', '''        auto uuid = lib::UUID{};
        auto filename = ctx.generate_name("graph");
        io::save(data_, io::NativeFile(filename), lib::UUID{});''')]),
 ("c07-b14", "C07", "bug", [(DS, '{"uuid", uuid.str()},', '{"uid", uuid.str()},')]),
 ("c07-b15", "C07", "bug", [(BS, '{{"filename", lib::save(path.filename())},', '{{"filename", lib::save(ctx.generate_name("binary_blob", "bin").filename())},')]),
 ("c07-b16", "C07", "bug", [(BS, '{"num_elements", lib::save(data_.size())}}', '{"num_elements", lib::save(bytes_written)}}')]),
 ("c07-b17", "C07", "bug", [(IX, '        lib::save_to_disk(graph_, graph_directory);', '        lib::save_to_disk(graph_, data_directory);')]),
 ("c07-b18", "C07", "bug", [(DY, '{"translation", lib::save(translator_, ctx)},', '{"translator", lib::save(translator_, ctx)},')]),
 ("c07-b19", "C07", "bug", [(DY, ", prune_to_{config.build_parameters.prune_to}", ", prune_to_{config.build_parameters.graph_max_degree}")]),
 ("c07-b20", "C07", "bug", [(CL, 'lib::load_at<lib::FullUnsigned>(table, "seed")', 'lib::load_at<size_t>(table, "seed")')]),
 ("c07-b21", "C07", "bug", [("core/distance/distance_core.h", "{SVS_LIST_SAVE(name)}", "{{\"name\", lib::save(std::string_view(\"l2\"))}}")]),
 # same behaviour
 ("c07-s1", "C07", "same", [(BP, '''            {SVS_LIST_SAVE(alpha),
             SVS_LIST_SAVE(graph_max_degree),''', '''            {SVS_LIST_SAVE(graph_max_degree),
             {"alpha", lib::save(float{alpha})},''')]),
 ("c07-s2", "C07", "same", [(BP, '''        return VamanaBuildParameters(
            SVS_LOAD_MEMBER_AT(table, alpha),
            graph_max_degree,
            SVS_LOAD_MEMBER_AT(table, window_size),
            SVS_LOAD_MEMBER_AT(table, max_candidate_pool_size),
            prune_to,
            SVS_LOAD_MEMBER_AT(table, use_full_search_history)
        );''', '''        VamanaBuildParameters p;
        p.prune_to = prune_to;
        p.use_full_search_history = lib::load_at<bool>(table, "use_full_search_history");
        p.alpha = lib::load_at<float>(table, "alpha");
        p.graph_max_degree = graph_max_degree;
        const auto w = lib::load_at<size_t>(table, "window_size");
        p.window_size = w;
        p.max_candidate_pool_size = lib::load_at<size_t>(table, "max_candidate_pool_size");
        return p;''')]),
 ("c07-s3", "C07", "same", [(SP, "        if (table.version() < save_version) {\n            return load_legacy(table);\n        }\n", "        const bool old = !(table.version() >= save_version);\n        if (old) {\n            return load_legacy(table);\n        }\n")]),
 ("c07-s4", "C07", "same", [(DY, '''                auto parameters = VamanaIndexParameters{
                    entry_point_.front(),
                    {alpha_,
                     graph_.max_degree(),
                     get_construction_window_size(),
                     get_max_candidates(),
                     prune_to_,
                     get_full_search_history()},
                    get_search_parameters()};
''', '''                auto parameters = VamanaIndexParameters{0, {}, {}};
                parameters.search_parameters = get_search_parameters();
                parameters.entry_point = entry_point_[0];
                parameters.build_parameters.alpha = get_alpha();
                parameters.build_parameters.graph_max_degree = max_degree();
                parameters.build_parameters.window_size = construction_window_size_;
                parameters.build_parameters.max_candidate_pool_size = max_candidates_;
                parameters.build_parameters.prune_to = prune_to_;
                parameters.build_parameters.use_full_search_history = use_full_search_history_;
''')]),
 ("c07-s5", "C07", "same", [(TR, '''        for (auto i = begin(), iend = end(); i != iend; ++i) {
            // N.B.: Apparently `std::pair` of integers is not trivially copyable ...
            lib::write_binary(stream, i->first);
            lib::write_binary(stream, i->second);
        }''', '''        for (const auto& entry : external_to_internal_) {
            lib::write_binary(stream, entry.first);
            lib::write_binary(stream, entry.second);
        }'''), (TR, '''        auto num_points = lib::load_at<size_t>(table, "num_points");
        auto translator = IDTranslator{};
        auto resolved = table.resolve_at("filename");
        auto stream = lib::open_read(resolved);
        for (size_t i = 0; i < num_points; ++i) {''', '''        auto translator = IDTranslator{};
        auto stream = lib::open_read(table.resolve_at("filename"));
        auto remaining = lib::load_at<size_t>(table, "num_points");
        while (remaining-- > 0) {''')]),
 ("c07-s6", "C07", "same", [(CL, '''            for (size_t i = 0; i < num_clusters; ++i) {
                clustering.insert(Cluster<I>::deserialize(io));
            }''', '''            size_t i = 0;
            while (i != num_clusters) {
                auto next = Cluster<I>::deserialize(io);
                clustering.insert(std::move(next));
                ++i;
            }''')]),
 ("c07-s7", "C07", "same", [(GR, '''        auto uuid = lib::load_at<lib::UUID>(table, "uuid");
        auto binaryfile = io::find_uuid(table.context().get_directory(), uuid);
        if (!binaryfile.has_value()) {
            throw ANNEXCEPTION("Could not open file with uuid {}!", uuid.str());
        }
        return lazy(data_type::load(binaryfile.value(), std::forward<Args>(args)...));''', '''        const auto id = lib::load_at<lib::UUID>(table, "uuid");
        auto found = io::find_uuid(table.context().get_directory(), id);
        if (!found) {
            throw ANNEXCEPTION("Could not open file with uuid {}!", id.str());
        }
        const auto& path = *found;
        return lazy(data_type::load(path, std::forward<Args>(args)...));''')]),
 ("c07-s8", "C07", "same", [(IX, '''        build_parameters_ = parameters.build_parameters;
''', '''        const auto& bp = parameters.build_parameters;
        build_parameters_.alpha = bp.alpha;
        build_parameters_.graph_max_degree = bp.graph_max_degree;
        build_parameters_.window_size = bp.window_size;
        build_parameters_.max_candidate_pool_size = bp.max_candidate_pool_size;
        build_parameters_.prune_to = bp.prune_to;
        build_parameters_.use_full_search_history = bp.use_full_search_history;
''')]),
]
