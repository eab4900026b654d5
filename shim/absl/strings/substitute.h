#pragma once
#include "absl/strings/str_cat.h"
#include <vector>
namespace absl {
template <typename... A>
std::string Substitute(std::string_view f, const A&... a) {
  auto conv = [](const auto& v) -> std::string {
    if constexpr (std::is_same_v<std::decay_t<decltype(v)>, bool>) return v ? "true" : "false";
    else if constexpr (std::is_same_v<std::decay_t<decltype(v)>, char>) return std::string(1, v);
    else return shim::ToStr(v);
  };
  std::vector<std::string> v{conv(a)...};
  std::string r;
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] == '$' && i + 1 < f.size()) {
      ++i;
      if (f[i] == '$') r += '$';
      else if (f[i] >= '0' && f[i] <= '9' && size_t(f[i] - '0') < v.size()) r += v[f[i] - '0'];
    } else r += f[i];
  }
  return r;
}
template <typename... A>
void SubstituteAndAppend(std::string* o, std::string_view f, const A&... a) { *o += Substitute(f, a...); }
}  // namespace absl
