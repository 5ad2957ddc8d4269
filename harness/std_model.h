// Analysis harness: plain definitions of standard algorithms whose library implementation is manually unrolled. Included
// before any header of the repository, so that uses in the repository resolve to these definitions during analysis.
#pragma once
#include <algorithm>
#include <numeric>
#include <functional>
#include <vector>
#include <string>
#include <memory>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <filesystem>
#include <random>
#include <regex>
namespace std {
template <class It, class P> constexpr It svsa_remove_if(It b, It e, P p) {
    It out = b;
    for (; b != e; ++b) {
        if (!p(*b)) {
            *out = std::move(*b);
            ++out;
        }
    }
    return out;
}
template <class It, class P> constexpr It svsa_find_if(It b, It e, P p) {
    for (; b != e; ++b) {
        if (p(*b)) {
            break;
        }
    }
    return b;
}
template <class It, class P> constexpr It svsa_find_if_not(It b, It e, P p) {
    for (; b != e; ++b) {
        if (!p(*b)) {
            break;
        }
    }
    return b;
}
template <class It, class P> constexpr bool svsa_any_of(It b, It e, P p) { return svsa_find_if(b, e, p) != e; }
template <class It, class P> constexpr bool svsa_none_of(It b, It e, P p) { return svsa_find_if(b, e, p) == e; }
template <class It, class P> constexpr bool svsa_all_of(It b, It e, P p) { return svsa_find_if_not(b, e, p) == e; }
template <class T, class A, class P> constexpr size_t svsa_erase_if(std::vector<T, A>& v, P p) {
    auto it = svsa_remove_if(v.begin(), v.end(), p);
    auto n = v.end() - it;
    v.resize(it - v.begin());
    return n;
}
}
#define remove_if svsa_remove_if
#define find_if svsa_find_if
#define find_if_not svsa_find_if_not
#define any_of svsa_any_of
#define none_of svsa_none_of
#define all_of svsa_all_of
#define erase_if svsa_erase_if
