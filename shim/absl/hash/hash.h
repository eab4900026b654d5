#pragma once
#include <bit>
#include <cstdint>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <variant>
#include <vector>
#include <array>
#include <memory>
namespace absl {
class HashState {
 public:
  uint64_t s = 0x9e3779b97f4a7c15ull;
  std::vector<uint64_t>* trace = nullptr;
  void Mix(uint64_t v) { s = (s ^ v) * 0xff51afd7ed558ccdull; s ^= s >> 32; if (trace) trace->push_back(v); }
  static HashState combine(HashState h) { return h; }
  template <typename T, typename... R> static HashState combine(HashState h, const T& t, const R&... r) { return combine(One(std::move(h), t), r...); }
  template <typename T> static HashState combine_contiguous(HashState h, const T* p, size_t n) { for (size_t i = 0; i < n; ++i) h = combine(std::move(h), p[i]); return h; }
  template <typename T> static HashState One(HashState h, const T& t) {
    if constexpr (requires { AbslHashValue(std::move(h), t); }) return AbslHashValue(std::move(h), t);
    else if constexpr (std::is_floating_point_v<T>) { h.Mix(t == 0 ? 0 : std::bit_cast<uint64_t>((double)t)); return h; }
    else if constexpr (std::is_enum_v<T> || std::is_integral_v<T>) { h.Mix((uint64_t)t); return h; }
    else if constexpr (std::is_pointer_v<T>) { h.Mix((uint64_t)t); return h; }
    else if constexpr (std::is_convertible_v<const T&, std::string_view>) { std::string_view v = t; for (char c : v) h.Mix((unsigned char)c); h.Mix(v.size()); return h; }
    else if constexpr (requires { t.has_value(); *t; }) { h.Mix(t.has_value()); return t.has_value() ? One(std::move(h), *t) : h; }
    else if constexpr (requires { t.valueless_by_exception(); }) { h.Mix(t.index()); return std::visit([&](const auto& v) { return One(std::move(h), v); }, t); }
    else if constexpr (std::is_same_v<T, std::monostate>) { h.Mix(0); return h; }
    else if constexpr (requires { t.begin(); t.end(); t.size(); }) { for (const auto& x : t) h = One(std::move(h), x); h.Mix(t.size()); return h; }
    else if constexpr (requires { std::tuple_size<T>::value; }) return std::apply([&](const auto&... x) { return combine(std::move(h), x...); }, t);
    else { static_assert(requires { t.get(); }, "unhashable"); h.Mix((uint64_t)t.get()); return h; }
  }
};
template <typename T> struct Hash { size_t operator()(const T& t) const { return HashState::combine(HashState{}, t).s; } };
template <typename... T> size_t HashOf(const T&... t) { return HashState::combine(HashState{}, t...).s; }
}  // namespace absl
