#pragma once
#include <charconv>
#include <string_view>
#include <type_traits>
#include "absl/strings/ascii.h"
namespace absl {
template <typename T>
[[nodiscard]] bool SimpleAtoi(std::string_view s, T* out) {
  while (!s.empty() && ascii_isspace(s.front())) s.remove_prefix(1);
  while (!s.empty() && ascii_isspace(s.back())) s.remove_suffix(1);
  if (!s.empty() && s[0] == '+') { s.remove_prefix(1); if (!s.empty() && s[0] == '-') return false; }
  if (s.empty()) return false;
  auto r = std::from_chars(s.data(), s.data() + s.size(), *out);
  return r.ec == std::errc() && r.ptr == s.data() + s.size();
}
inline bool SimpleAtof(std::string_view s, float* out) { auto r = std::from_chars(s.data(), s.data() + s.size(), *out); return r.ec == std::errc() && r.ptr == s.data() + s.size(); }
inline bool SimpleAtod(std::string_view s, double* out) { auto r = std::from_chars(s.data(), s.data() + s.size(), *out); return r.ec == std::errc() && r.ptr == s.data() + s.size(); }
}  // namespace absl
