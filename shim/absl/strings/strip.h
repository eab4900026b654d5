#pragma once
#include "absl/strings/match.h"
namespace absl {
inline bool ConsumePrefix(std::string_view* s, std::string_view p) { if (!StartsWith(*s, p)) return false; s->remove_prefix(p.size()); return true; }
inline bool ConsumeSuffix(std::string_view* s, std::string_view p) { if (!EndsWith(*s, p)) return false; s->remove_suffix(p.size()); return true; }
inline std::string_view StripPrefix(std::string_view s, std::string_view p) { ConsumePrefix(&s, p); return s; }
}
