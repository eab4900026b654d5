#pragma once
#include <string>
#include <string_view>
namespace absl { using string_view = std::string_view;
inline string_view NullSafeStringView(const char* p) { return p ? string_view(p) : string_view(); }
inline string_view ClippedSubstr(string_view s, size_t pos, size_t n = string_view::npos) { return s.substr(pos < s.size() ? pos : s.size(), n); } }
