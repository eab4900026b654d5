#pragma once
#include <initializer_list>
#include <iterator>
#include "absl/strings/str_cat.h"
namespace absl {
template <typename It, typename F>
  requires requires(It it) { *it; ++it; it != it; }
std::string StrJoin(It b, It e, std::string_view sep, F&& f) {
  std::string r; bool first = true;
  for (; b != e; ++b) { if (!first) r += sep; first = false; f(&r, *b); }
  return r;
}
namespace shim { struct JoinDef { template <typename T> void operator()(std::string* o, const T& t) const { *o += ToStr(t); } }; }
template <typename It>
  requires requires(It it) { *it; ++it; it != it; }
std::string StrJoin(It b, It e, std::string_view sep) { return StrJoin(b, e, sep, shim::JoinDef{}); }
template <typename R, typename F>
  requires requires(const R& r, F f, std::string* s) { std::begin(r); f(s, *std::begin(r)); }
std::string StrJoin(const R& r, std::string_view sep, F&& f) { return StrJoin(std::begin(r), std::end(r), sep, f); }
template <typename R>
  requires requires(const R& r) { std::begin(r); }
std::string StrJoin(const R& r, std::string_view sep) { return StrJoin(std::begin(r), std::end(r), sep, shim::JoinDef{}); }
template <typename T>
std::string StrJoin(std::initializer_list<T> r, std::string_view sep) { return StrJoin(r.begin(), r.end(), sep, shim::JoinDef{}); }
}  // namespace absl
