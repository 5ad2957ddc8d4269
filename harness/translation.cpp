// Analysis harness: the id translation's operations, one wrapper per operation.
#include "svs/core/translation.h"
#include <vector>
using T = svs::IDTranslator;
using E = std::vector<size_t>;
using I = std::vector<uint32_t>;
void h_insert(T& t, const E& ext, const I& in, bool check) { t.insert(ext, in, check); }
void h_insert_one(T& t, size_t e, uint32_t i) { t.insert_translation(e, i); }
void h_delete_external(T& t, const E& ext, bool check) { t.delete_external(ext, check); }
void h_delete_internal(T& t, const I& in, bool check) { t.delete_internal(in, check); }
void h_remap(T& t, uint32_t from, uint32_t to) { t.remap_internal_id(from, to); }
size_t h_get_external(const T& t, uint32_t i) { return t.get_external(i); }
uint32_t h_get_internal(const T& t, size_t e) { return t.get_internal(e); }
bool h_has_external(const T& t, size_t e) { return t.has_external(e); }
bool h_has_internal(const T& t, uint32_t i) { return t.has_internal(i); }
size_t h_size(const T& t) { return t.size(); }
svs::lib::SaveTable h_save(const T& t, const svs::lib::SaveContext& ctx) { return t.save(ctx); }
T h_load(const svs::lib::LoadTable& table) { return T::load(table); }
T h_copy(const T& t) { return t; }
