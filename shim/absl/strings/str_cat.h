#pragma once
#include <cstdint>
#include <cstdio>
#include <cmath>
#include <concepts>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "absl/strings/string_view.h"
namespace absl {
namespace shim {
struct StringSink {
  std::string out;
  void Append(size_t n, char c) { out.append(n, c); }
  void Append(std::string_view s) { out.append(s); }
  friend void AbslFormatFlush(StringSink* s, std::string_view v) { s->Append(v); }
};
template <typename T>
concept HasAbslStringify = requires(StringSink& s, const T& t) { AbslStringify(s, t); };
inline std::string Double6(double d) {
  if (std::isnan(d)) return std::signbit(d) ? "-nan" : "nan";
  char b[64];
  std::snprintf(b, sizeof b, "%g", d);
  return b;
}
inline std::string ToStr(std::string_view s) { return std::string(s); }
inline std::string ToStr(const std::string& s) { return s; }
inline std::string ToStr(const char* s) { return s ? s : ""; }
inline std::string ToStr(char* s) { return s ? s : ""; }
inline std::string ToStr(float v) { return Double6(v); }
inline std::string ToStr(double v) { return Double6(v); }
inline std::string ToStr(bool v) { return v ? "1" : "0"; }
template <typename T>
std::string ToStr(const T& v) {
  if constexpr (HasAbslStringify<T>) {
    StringSink s;
    AbslStringify(s, v);
    return s.out;
  } else if constexpr (std::is_enum_v<T>) {
    return std::to_string(static_cast<std::underlying_type_t<T>>(v));
  } else if constexpr (std::is_integral_v<T>) {
    return std::to_string(+v);
  } else if constexpr (std::is_convertible_v<const T&, std::string_view>) {
    return std::string(std::string_view(v));
  } else if constexpr (std::is_same_v<T, std::_Bit_reference>) {
    return bool(v) ? "1" : "0";
  } else {
    static_assert(HasAbslStringify<T>, "unsupported StrCat argument");
    return {};
  }
}
// %v formatting: like StrCat, except bool.
template <typename T>
std::string ToV(const T& v) {
  if constexpr (std::is_same_v<std::decay_t<T>, bool>) return v ? "true" : "false";
  else return ToStr(v);
}
}  // namespace shim
enum PadSpec : uint8_t { kNoPad = 1, kZeroPad2, kZeroPad4 = 4, kZeroPad8 = 8, kZeroPad16 = 16 };
struct Hex { std::string s; template <typename T> explicit Hex(T v, PadSpec p = kNoPad) { char b[40]; std::snprintf(b, 40, "%0*llx", (int)p, (unsigned long long)v); s = b; }
  template <typename S> friend void AbslStringify(S& sink, const Hex& h) { sink.Append(h.s); } };
template <typename... A>
std::string StrCat(const A&... a) {
  std::string r;
  ((r += shim::ToStr(a)), ...);
  return r;
}
template <typename... A>
void StrAppend(std::string* d, const A&... a) {
  ((*d += shim::ToStr(a)), ...);
}
}  // namespace absl
