T = "core/translation.h"
M = [
 ("c01-one-dir", "C01", "bug", [(T, "        internal_to_external_[internal_id] = lib::narrow<external_id_type>(external_id);\n", "        if (internal_to_external_.size() < 7) internal_to_external_[internal_id] = lib::narrow<external_id_type>(external_id);\n")]),
 ("c01-remap-keep", "C01", "bug", [(T, "        internal_to_external_.erase(itr);\n", "        if (from > to) internal_to_external_.erase(itr);\n")]),
 ("c01-remap-e2i", "C01", "bug", [(T, "external_to_internal_[external] = to;", "external_to_internal_[external] = from;")]),
 ("c01-del", "C01", "bug", [(T, "            auto e = get_external(i);\n            internal_to_external_.erase(i);\n            external_to_internal_.erase(e);", "            auto e = get_external(i);\n            internal_to_external_.erase(i);\n            external_to_internal_.erase(i); (void)e;")]),
 ("c01-load", "C01", "bug", [(T, "            auto external_id = lib::read_binary<external_id_type>(stream);\n            auto internal_id = lib::read_binary<internal_id_type>(stream);", "            auto internal_id = lib::read_binary<internal_id_type>(stream);\n            auto external_id = lib::read_binary<external_id_type>(stream);")]),
 ("c01-loadcount", "C01", "bug", [(T, "for (size_t i = 0; i < num_points; ++i)", "for (size_t i = 1; i < num_points; ++i)")]),
 ("c01-skip", "C01", "bug", [(T, "while (i != int_end || e != ext_end) {", "if (i != int_end) { ++i; ++e; } while (i != int_end || e != ext_end) {")]),
 ("c01-savecond", "C01", "bug", [(T, "            lib::write_binary(stream, i->first);\n", "            if (i->first == 0) { continue; }\n            lib::write_binary(stream, i->first);\n")]),
 ("c01-same-idx", "C01", "same", [(T, "        auto i = int_begin;\n        auto e = ext_begin;\n        while (i != int_end || e != ext_end) {\n            insert_translation(*e, *i);\n            ++e;\n            ++i;\n        }", "        auto e = ext_begin;\n        for (auto i = int_begin; i != int_end; ++i, ++e) {\n            const auto ext = *e; const auto in = *i;\n            internal_to_external_[in] = lib::narrow<external_id_type>(ext);\n            external_to_internal_.insert_or_assign(ext, lib::narrow<internal_id_type>(in));\n        }")]),
 ("c01-same-remap", "C01", "same", [(T, "        auto itr = internal_to_external_.find(from);\n        auto external = itr->second;\n", "        const auto external = get_external(from);\n"), (T, "        internal_to_external_.erase(itr);\n        internal_to_external_.insert({to, external});", "        internal_to_external_.erase(from);\n        internal_to_external_[to] = external;")]),
 ("c01-same-del", "C01", "same", [(T, "        for (const auto e : external_ids) {\n            auto i = get_internal(e);\n            internal_to_external_.erase(i);\n            external_to_internal_.erase(e);\n        }", "        for (auto it = external_ids.begin(), last = external_ids.end(); it != last; ++it) {\n            auto f = external_to_internal_.find(*it);\n            const internal_id_type i = f->second;\n            external_to_internal_.erase(f);\n            internal_to_external_.erase(i);\n        }")]),
 ("c01-same-has", "C01", "same", [(T, "return external_to_internal_.contains(e);", "return external_to_internal_.find(e) != external_to_internal_.end();")]),
 ("c01-same-has2", "C01", "same", [(T, "return internal_to_external_.contains(e);", "return internal_to_external_.count(e) != 0;")]),
]
