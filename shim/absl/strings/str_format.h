#pragma once
#include <cstdarg>
#include <cstring>
#include <vector>
#include "absl/strings/str_cat.h"
namespace absl {
namespace shim {
struct FArg {
  enum K { I, U, D, S } k;
  long long i = 0; unsigned long long u = 0; double d = 0; std::string s;  // s: %v / %s form
  template <typename T> FArg(const T& v) {
    s = ToV(v);
    if constexpr (std::is_same_v<T, bool>) { k = I; i = v; u = v; d = v; }
    else if constexpr (std::is_enum_v<T>) { k = I; i = (long long)v; u = (unsigned long long)v; d = (double)i; }
    else if constexpr (std::is_integral_v<T>) { k = std::is_signed_v<T> ? I : U; i = (long long)v; u = (unsigned long long)v; d = (double)v; if (std::is_same_v<T, char>) {} }
    else if constexpr (std::is_floating_point_v<T>) { k = D; d = v; i = 0; u = 0; }
    else k = S;
  }
};
inline std::string FormatV(std::string_view f, std::vector<FArg> a) {
  std::string r; size_t n = 0;
  for (size_t p = 0; p < f.size();) {
    if (f[p] != '%') { r += f[p++]; continue; }
    if (p + 1 < f.size() && f[p + 1] == '%') { r += '%'; p += 2; continue; }
    std::string spec = "%"; ++p;
    while (p < f.size() && std::strchr("-+ #0123456789.*", f[p])) {
      if (f[p] == '*') { spec += std::to_string(n < a.size() ? a[n].i : 0); ++n; ++p; } else spec += f[p++];
    }
    while (p < f.size() && std::strchr("hlLqjzt", f[p])) ++p;
    if (p >= f.size()) break;
    char c = f[p++]; char buf[512];
    if (n >= a.size()) { r += "<missing>"; continue; }
    const FArg& x = a[n++];
    switch (c) {
      case 'v': r += x.s; break;
      case 's': std::snprintf(buf, sizeof buf, (spec + "s").c_str(), x.s.c_str()); r += x.s.size() < 500 ? std::string(buf) : x.s; break;
      case 'd': case 'i': std::snprintf(buf, sizeof buf, (spec + "lld").c_str(), x.k == FArg::U ? (long long)x.u : x.i); r += buf; break;
      case 'u': case 'x': case 'X': case 'o': std::snprintf(buf, sizeof buf, (spec + "ll" + c).c_str(), x.u); r += buf; break;
      case 'c': r += (char)x.i; break;
      default: std::snprintf(buf, sizeof buf, (spec + c).c_str(), x.d); r += buf;
    }
  }
  return r;
}
}  // namespace shim
template <typename... A>
std::string StrFormat(std::string_view f, const A&... a) { return shim::FormatV(f, {shim::FArg(a)...}); }
template <typename Sink, typename... A>
void Format(Sink* s, std::string_view f, const A&... a) { s->Append(StrFormat(f, a...)); }
template <typename... A>
std::string& StrAppendFormat(std::string* s, std::string_view f, const A&... a) { return s->append(StrFormat(f, a...)); }
}  // namespace absl
