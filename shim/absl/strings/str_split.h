#pragma once
#include <string>
#include <string_view>
#include <vector>
namespace absl {
inline std::vector<std::string> StrSplit(std::string_view s, char d) {
  std::vector<std::string> r; size_t p = 0;
  for (;;) { size_t q = s.find(d, p); r.emplace_back(s.substr(p, q == s.npos ? q : q - p)); if (q == s.npos) return r; p = q + 1; }
}
}
