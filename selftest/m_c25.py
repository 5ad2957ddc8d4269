DV = "orchestrators/dynamic_vamana.h"
VA = "orchestrators/vamana.h"
MG = "orchestrators/manager.h"
DI = "index/vamana/dynamic_index.h"
IX = "index/vamana/index.h"
FX = "index/flat/flat.h"
DT = "lib/datatype.h"
ME = "lib/meta.h"
M = [
    ("c25-alpha-narrow", "C25", "bug", [(VA, "void set_alpha(float alpha) { impl_->set_alpha(alpha); }", "void set_alpha(int alpha) { impl_->set_alpha(alpha); }")]),
    ("c25-alpha-double-same", "C25", "same", [(VA, "void set_alpha(float alpha) { impl_->set_alpha(alpha); }", "void set_alpha(float alpha) { const float a = alpha; auto& target = *impl_; target.set_alpha(a); }")]),
    ("c25-window-cand", "C25", "bug", [(VA, "impl_->set_max_candidates(max_candidates);", "impl_->set_construction_window_size(max_candidates);")]),
    ("c25-impl-cand", "C25", "bug", [(VA, "size_t get_max_candidates() const override { return impl().get_max_candidates(); }", "size_t get_max_candidates() const override { return impl().get_construction_window_size(); }")]),
    ("c25-window-uint", "C25", "bug", [(VA, "impl().set_construction_window_size(window_size);", "impl().set_construction_window_size(static_cast<uint32_t>(window_size));")]),
    ("c25-save-swap", "C25", "bug", [(VA, "impl().save(config_dir, graph_dir, data_dir);", "impl().save(config_dir, data_dir, graph_dir);")]),
    ("c25-save-swap-pub", "C25", "bug", [(VA, "impl_->save(config_directory, graph_directory, data_directory);", "impl_->save(config_directory, data_directory, graph_directory);")]),
    ("c25-save-cond", "C25", "bug", [(VA, "impl_->save(config_directory, graph_directory, data_directory);", "if (size() != 0) { impl_->save(config_directory, graph_directory, data_directory); }")]),
    ("c25-recon-sub", "C25", "bug", [(VA, "impl().reconstruct_at(data, ids);", "impl().reconstruct_at(data, ids.first(std::min(ids.size(), size_t(100000))));")]),
    ("c25-cal-swap", "C25", "bug", [(VA, "            groundtruth.size(),\n            groundtruth.dimensions(),", "            groundtruth.dimensions(),\n            groundtruth.size(),")]),
    ("c25-cal-recall", "C25", "bug", [(VA, "            num_neighbors,\n            target_recall,\n            calibration_parameters\n        );\n    }\n};", "            num_neighbors,\n            static_cast<float>(target_recall),\n            calibration_parameters\n        );\n    }\n};")]),
    ("c25-cal-default", "C25", "bug", [(VA, "            num_neighbors,\n            target_recall,\n            calibration_parameters\n        );\n    }\n};", "            num_neighbors,\n            target_recall,\n            index::vamana::CalibrationParameters{}\n        );\n    }\n};")]),
    ("c25-cal-ref-same", "C25", "same", [(VA, "        const index::vamana::CalibrationParameters calibration_parameters\n    ) {\n        return impl_", "        const index::vamana::CalibrationParameters& calibration_parameters\n    ) {\n        return impl_")]),
    ("c25-sws-capacity", "C25", "bug", [(VA, "parameters.buffer_config_ = index::vamana::SearchBufferConfig{search_window_size};", "parameters.buffer_config_ = index::vamana::SearchBufferConfig{search_window_size, std::max(search_window_size, parameters.buffer_config_.get_total_capacity())};")]),
    ("c25-sws-fresh", "C25", "bug", [(VA, "        auto parameters = get_search_parameters();\n        parameters.buffer_config_ = index::vamana::SearchBufferConfig{search_window_size};", "        auto parameters = index::vamana::VamanaSearchParameters{};\n        parameters.buffer_config_ = index::vamana::SearchBufferConfig{search_window_size};")]),
    ("c25-sws-helper-same", "C25", "same", [(VA, "        auto parameters = get_search_parameters();\n        parameters.buffer_config_ = index::vamana::SearchBufferConfig{search_window_size};\n        set_search_parameters(parameters);", "        auto updated = impl_->get_search_parameters();\n        const auto config = index::vamana::SearchBufferConfig(search_window_size);\n        updated.buffer_config_ = config;\n        impl_->set_search_parameters(updated);")]),
    ("c25-gws-capacity", "C25", "bug", [(VA, "return get_search_parameters().buffer_config_.get_search_window_size();", "return get_search_parameters().buffer_config_.get_total_capacity();")]),
    ("c25-visited-lost", "C25", "bug", [(VA, "        parameters.search_buffer_visited_set_ = true;\n        set_search_parameters(parameters);", "        parameters.search_buffer_visited_set_ = true;\n        if (parameters.prefetch_step_ != 0) { set_search_parameters(parameters); }")]),
    ("c25-visited-same", "C25", "same", [(VA, "        auto parameters = get_search_parameters();\n        parameters.search_buffer_visited_set_ = false;\n        set_search_parameters(parameters);", "        auto p = get_search_parameters();\n        p.search_buffer_visited_set_ = !true;\n        set_search_parameters(p);")]),
    ("c25-search-params", "C25", "bug", [(MG, "                svs::index::search_batch_into_with(\n                    implementation_, result, view, search_parameters\n                );", "                svs::index::search_batch_into_with(\n                    implementation_, result, view, implementation_.get_search_parameters()\n                );")]),
    ("c25-search-dims", "C25", "bug", [(DT, "        : data_{data}\n        , dims_{dims...} {}\n\n    /// @brief Construct an anonymous array around the tagged", "        : data_{data}\n        , dims_{static_cast<size_t>(static_cast<uint16_t>(dims))...} {}\n\n    /// @brief Construct an anonymous array around the tagged")]),
    ("c25-search-same", "C25", "same", [(MG, "                const auto view = data::ConstSimpleDataView<T>(data);\n", "                const T* base = get<T>(data);\n                const auto view = data::ConstSimpleDataView<T>(base, data.size(0), data.size(1));\n")]),
    ("c25-search-swapdims", "C25", "bug", [(MG, "                const auto view = data::ConstSimpleDataView<T>(data);\n", "                const T* base = get<T>(data);\n                const auto view = data::ConstSimpleDataView<T>(base, data.size(1), data.size(0));\n")]),
    ("c25-get-unchecked-match-same", "C25", "same", [(ME, "    if (type == datatype_v<T>) {\n        return f(lib::Type<T>{});", "    if (type == datatype_v<T> || sizeof...(Ts) == 0) {\n        return f(lib::Type<T>{});")]),
    ("c25-unsupported", "C25", "bug", [(MG, "                throw ANNEXCEPTION(\n                    \"Unsupported datatype! Got: {}. Expected one of: {}.\",\n                    data_type,\n                    fmt::join(QueryTypes::data_types(), \", \")\n                );", "                svs::logging::error(\"Unsupported datatype {}\", data_type);"), (ME, "            on_error(type);\n            throw ANNEXCEPTION(\"The type {} is not allowed by this operation!\", type);", "            on_error(type);")]),
    ("c25-threads-impl", "C25", "bug", [(MG, "        implementation_.set_num_threads(num_threads);", "        implementation_.set_num_threads(std::min<size_t>(num_threads, 64));")]),
    ("c25-threads-once-same", "C25", "same", [(MG, "impl_->set_num_threads(std::max(size_t(1), num_threads));", "impl_->set_num_threads(num_threads == 0 ? 1 : num_threads);")]),
    ("c25-threads-nozero", "C25", "bug", [(MG, "impl_->set_num_threads(std::max(size_t(1), num_threads));", "impl_->set_num_threads(num_threads);"), (IX, "        num_threads = std::max(num_threads, size_t(1));\n        threadpool_.resize(num_threads);", "        threadpool_.resize(num_threads);")]),
    ("c25-size-dims", "C25", "bug", [(MG, "size_t dimensions() const override { return implementation_.dimensions(); }", "size_t dimensions() const override { return implementation_.size(); }")]),
    ("c25-size-cached", "C25", "bug", [(MG, "    size_t size() const { return impl_->size(); }", "    size_t size() const { static const size_t n = impl_->size(); return n; }")]),
    ("c25-add-swap", "C25", "bug", [(DV, "impl_->add_points(points.data(), points.size(), points.dimensions(), ids);", "impl_->add_points(points.data(), std::min(points.size(), ids.size()), points.dimensions(), ids);")]),
    ("c25-add-view-same", "C25", "same", [(DV, "        auto points = data::ConstSimpleDataView<float>(data, dim0, dim1);\n        impl().add_points(points, ids);", "        const size_t count = dim0;\n        const size_t width = dim1;\n        impl().add_points(data::ConstSimpleDataView<float>(data, count, width), ids);")]),
    ("c25-del-cons", "C25", "bug", [(DV, "    DynamicVamana& consolidate() {\n        impl_->consolidate();", "    DynamicVamana& consolidate() {\n        impl_->compact();")]),
    ("c25-compact-default", "C25", "bug", [(DV, "        impl_->compact(batchsize);", "        impl_->compact();")]),
    ("c25-hasid-neg", "C25", "bug", [(DV, "bool has_id(size_t id) const override { return impl().has_id(id); }", "bool has_id(size_t id) const override { return impl().has_id(static_cast<uint32_t>(id)); }")]),
    ("c25-allids-keep", "C25", "bug", [(DV, "        ids.clear();\n", "        ids.reserve(size_t(1000));\n")]),
    ("c25-dv-alpha-cell", "C25", "bug", [(DI, "void set_max_candidates(size_t max_candidates) { max_candidates_ = max_candidates; }", "void set_max_candidates(size_t max_candidates) { max_candidates_ = std::max(max_candidates, construction_window_size_); }")]),
    ("c25-dv-window-cell", "C25", "bug", [(DI, "    size_t get_construction_window_size() const { return construction_window_size_; }", "    size_t get_construction_window_size() const { return max_candidates_; }")]),
    ("c25-va-window-cell", "C25", "bug", [(IX, "        build_parameters_.window_size = construction_window_size;", "        build_parameters_.prune_to = construction_window_size;")]),
    ("c25-history", "C25", "bug", [(DI, "bool get_full_search_history() const { return use_full_search_history_; }", "bool get_full_search_history() const { return !use_full_search_history_; }")]),
    ("c25-history-set", "C25", "bug", [(IX, "        build_parameters_.use_full_search_history = enable;", "        build_parameters_.use_full_search_history |= enable;")]),
    ("c25-sp-set", "C25", "bug", [("lib/concurrency/readwrite_protected.h", "    void set(const T& x) {\n        std::unique_lock lock{mutex_};\n        x_ = x;", "    void set(const T& x) {\n        std::unique_lock lock{mutex_, std::try_to_lock};\n        if (lock) { x_ = x; }")]),
    ("c25-sp-get-same", "C25", "same", [("lib/concurrency/readwrite_protected.h", "        return x_;\n    }\n\n    /// @brief Pilfer", "        T copy = x_;\n        return copy;\n    }\n\n    /// @brief Pilfer")]),
    ("c25-flat-sp", "C25", "bug", [(FX, "    void set_search_parameters(const search_parameters_type& search_parameters) {\n        search_parameters_ = search_parameters;", "    void set_search_parameters(const search_parameters_type& search_parameters) {\n        search_parameters_.data_batch_size_ = search_parameters.data_batch_size_;")]),
    ("c25-use-swap", "C25", "bug", [(DI, "            construction_window_size_,\n            max_candidates_,\n            prune_to_,\n            use_full_search_history_};\n\n        auto sp", "            max_candidates_,\n            construction_window_size_,\n            prune_to_,\n            use_full_search_history_};\n\n        auto sp")]),
    ("c25-use-reorder-same", "C25", "same", [(DI, "        auto parameters = VamanaBuildParameters{\n            alpha_,\n            graph_.max_degree(),\n            construction_window_size_,\n            max_candidates_,\n            prune_to_,\n            use_full_search_history_};\n\n        auto sp", "        auto parameters = VamanaBuildParameters{};\n        parameters.use_full_search_history = use_full_search_history_;\n        parameters.alpha = get_alpha();\n        parameters.graph_max_degree = graph_.max_degree();\n        parameters.window_size = construction_window_size_;\n        parameters.prune_to = prune_to_;\n        parameters.max_candidate_pool_size = max_candidates_;\n\n        auto sp")]),
    ("c25-use-alpha", "C25", "bug", [(DI, "builder.construct(alpha_, entry_point(), slots, logging::Level::Trace);", "builder.construct(1.0f, entry_point(), slots, logging::Level::Trace);")]),
    ("c25-use-consolidate", "C25", "bug", [(DI, "            prune_to_,\n            max_candidates_,\n            alpha_,\n            distance_,\n            check_is_deleted", "            max_candidates_,\n            prune_to_,\n            alpha_,\n            distance_,\n            check_is_deleted")]),
    ("c25-use-save", "C25", "bug", [(IX, "entry_point_.front(), build_parameters_, get_search_parameters()};", "entry_point_.front(), build_parameters_, VamanaSearchParameters{}};")]),
    ("c25-use-scratch", "C25", "bug", [(IX, "    scratchspace_type scratchspace(const VamanaSearchParameters& sp) const {\n        return scratchspace_type{\n            search_buffer_type(\n                sp.buffer_config_,", "    scratchspace_type scratchspace(const VamanaSearchParameters& sp) const {\n        return scratchspace_type{\n            search_buffer_type(\n                SearchBufferConfig{sp.buffer_config_.get_search_window_size()},")]),
    ("c25-use-search", "C25", "bug", [(IX, "                    SearchBufferConfig(search_parameters.buffer_config_),", "                    SearchBufferConfig(get_search_parameters().buffer_config_),")]),
    ("c25-use-search-window", "C25", "bug", [(DI, "                    search_buffer_type{sp.buffer_config_, distance::comparator(distance_)};", "                    search_buffer_type{SearchBufferConfig{sp.buffer_config_.get_total_capacity()}, distance::comparator(distance_)};")]),
    ("c25-use-search-same", "C25", "same", [(DI, "                    search_buffer_type{sp.buffer_config_, distance::comparator(distance_)};", "                    search_buffer_type{SearchBufferConfig{sp.buffer_config_.get_search_window_size(), sp.buffer_config_.get_total_capacity()}, distance::comparator(distance_)};")]),
    ("c25-querytypes", "C25", "bug", [(MG, "        return svs::lib::make_vec<svs::DataType>(QueryTypes{}, std::identity{});", "        return {svs::DataType::float32};")]),
    ("c25-dispatch-type-same", "C25", "same", [(ME, "    if (type == datatype_v<T>) {\n        return f(lib::Type<T>{});", "    constexpr auto want = datatype_v<T>;\n    if (!(type != want)) {\n        return f(lib::Type<T>{});")]),
    ("c25-search-n-params", "C25", "bug", [("index/index.h", "        index, queries, num_neighbors, index.get_search_parameters()\n", "        index, queries, num_neighbors, search_parameters_t<Index>{}\n")]),
    ("c25-search-n-n", "C25", "bug", [("index/index.h", "queries.size(), num_neighbors", "queries.size(), std::max<size_t>(num_neighbors, 10)")]),
]
