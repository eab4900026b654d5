#pragma once
#include <algorithm>
#include <functional>
#include <iterator>
#include <numeric>
#include <utility>
namespace absl {
#define INK_SHIM_B std::begin(c)
#define INK_SHIM_E std::end(c)
#define INK_SHIM_ALG(name, alg) template <typename C, typename... A> decltype(auto) name(C&& c, A&&... a) { return alg(INK_SHIM_B, INK_SHIM_E, std::forward<A>(a)...); }
INK_SHIM_ALG(c_all_of, std::all_of) INK_SHIM_ALG(c_any_of, std::any_of) INK_SHIM_ALG(c_none_of, std::none_of)
INK_SHIM_ALG(c_find_if, std::find_if) INK_SHIM_ALG(c_find_if_not, std::find_if_not) INK_SHIM_ALG(c_find, std::find)
INK_SHIM_ALG(c_count_if, std::count_if) INK_SHIM_ALG(c_count, std::count) INK_SHIM_ALG(c_copy, std::copy)
INK_SHIM_ALG(c_copy_if, std::copy_if) INK_SHIM_ALG(c_sort, std::sort) INK_SHIM_ALG(c_stable_sort, std::stable_sort)
INK_SHIM_ALG(c_is_sorted, std::is_sorted) INK_SHIM_ALG(c_reverse, std::reverse) INK_SHIM_ALG(c_minmax_element, std::minmax_element)
INK_SHIM_ALG(c_max_element, std::max_element) INK_SHIM_ALG(c_min_element, std::min_element) INK_SHIM_ALG(c_iota, std::iota)
INK_SHIM_ALG(c_generate, std::generate) INK_SHIM_ALG(c_accumulate, std::accumulate) INK_SHIM_ALG(c_fill, std::fill)
INK_SHIM_ALG(c_lower_bound, std::lower_bound) INK_SHIM_ALG(c_upper_bound, std::upper_bound) INK_SHIM_ALG(c_binary_search, std::binary_search)
INK_SHIM_ALG(c_adjacent_find, std::adjacent_find) INK_SHIM_ALG(c_partition, std::partition) INK_SHIM_ALG(c_replace, std::replace) INK_SHIM_ALG(c_move, std::move)
INK_SHIM_ALG(c_for_each, std::for_each) INK_SHIM_ALG(c_partition_point, std::partition_point)
template <typename C> auto c_distance(const C& c) { return std::distance(INK_SHIM_B, INK_SHIM_E); }
template <typename C, typename T> bool c_linear_search(const C& c, const T& t) { return std::find(INK_SHIM_B, INK_SHIM_E, t) != INK_SHIM_E; }
template <typename C, typename T> bool c_contains(const C& c, const T& t) { return c_linear_search(c, t); }
template <typename C, typename D> bool c_equal(const C& c, const D& d) { return std::equal(INK_SHIM_B, INK_SHIM_E, std::begin(d), std::end(d)); }
template <typename C, typename D, typename P> bool c_equal(const C& c, const D& d, P p) { return std::equal(INK_SHIM_B, INK_SHIM_E, std::begin(d), std::end(d), p); }
template <typename C, typename O, typename F> O c_transform(const C& c, O o, F f) { return std::transform(INK_SHIM_B, INK_SHIM_E, o, f); }
template <typename C, typename D, typename O, typename F> requires requires(const D& d) { std::begin(d); }
O c_transform(const C& c, const D& d, O o, F f) { auto i = INK_SHIM_B; auto j = std::begin(d); for (; i != INK_SHIM_E && j != std::end(d); ++i, ++j) *o++ = f(*i, *j); return o; }
template <typename C, typename It> auto c_rotate(C& c, It it) { return std::rotate(INK_SHIM_B, it, INK_SHIM_E); }
#undef INK_SHIM_ALG
#undef INK_SHIM_B
#undef INK_SHIM_E
}
