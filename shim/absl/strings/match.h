#pragma once
#include "absl/strings/ascii.h"
namespace absl {
inline bool StartsWith(std::string_view a, std::string_view b) { return a.substr(0, b.size()) == b; }
inline bool EndsWith(std::string_view a, std::string_view b) { return a.size() >= b.size() && a.substr(a.size() - b.size()) == b; }
inline bool EqualsIgnoreCase(std::string_view a, std::string_view b) { return AsciiStrToLower(a) == AsciiStrToLower(b); }
inline bool StartsWithIgnoreCase(std::string_view a, std::string_view b) { return EqualsIgnoreCase(a.substr(0, b.size()), b); }
inline bool EndsWithIgnoreCase(std::string_view a, std::string_view b) { return a.size() >= b.size() && EqualsIgnoreCase(a.substr(a.size() - b.size()), b); }
inline bool StrContains(std::string_view a, std::string_view b) { return a.find(b) != a.npos; }
inline bool StrContains(std::string_view a, char b) { return a.find(b) != a.npos; }
}  // namespace absl
