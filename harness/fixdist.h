// Analysis harness: a distance function that needs preparation for each query. Only declared, so every preparation and
// every evaluation stays visible as a call.
#pragma once
#include <functional>
#include <span>
namespace svsa {
struct Fix {
    using compare = std::greater<>;
    static constexpr bool must_fix_argument = true;
    static constexpr bool implicit_broadcast = false;
    void fix_argument(std::span<const float> a);
    float compute(std::span<const float> a, std::span<const float> b) const;
    float norm_ = 0;
};
} // namespace svsa
namespace svs::index::vamana {
struct IterativePruneStrategy;
template <typename T> struct PruneStrategy;
template <> struct PruneStrategy<svsa::Fix> {
    using type = IterativePruneStrategy;
};
} // namespace svs::index::vamana
namespace svs::index::inverted {
template <typename T> T bound_with(T a, T b, svsa::Fix);
}
