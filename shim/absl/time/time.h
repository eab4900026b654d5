#pragma once
#include <cmath>
#include <compare>
#include <cstdio>
#include <limits>
#include <ostream>
#include <string>
#include "absl/strings/str_cat.h"
namespace absl {
// Quarter-nanosecond tick count, saturating to infinity, as in the real library.
class Duration {
 public:
  constexpr Duration() = default;
  static Duration FromTicks(__int128 t) { Duration d; constexpr __int128 lim = ((__int128)std::numeric_limits<int64_t>::max()) * 4000000000LL; d.t_ = t > lim ? Inf() : t < -lim ? -Inf() : t; return d; }
  static Duration Infinite() { Duration d; d.t_ = Inf(); return d; }
  static constexpr __int128 Inf() { return (__int128)1 << 120; }
  bool inf() const { return t_ == Inf() || t_ == -Inf(); }
  __int128 ticks() const { return t_; }
  friend bool operator==(Duration a, Duration b) { return a.t_ == b.t_; }
  friend auto operator<=>(Duration a, Duration b) { return a.t_ <=> b.t_; }
  Duration operator-() const { Duration d; d.t_ = -t_; return d; }
  friend Duration operator+(Duration a, Duration b) { if (a.inf()) return a; if (b.inf()) return b; return FromTicks(a.t_ + b.t_); }
  friend Duration operator-(Duration a, Duration b) { return a + -b; }
 private:
  __int128 t_ = 0;
};
inline Duration ZeroDuration() { return {}; }
inline Duration InfiniteDuration() { return Duration::Infinite(); }
namespace shim { inline Duration FromDouble(double v, double scale) {
  if (std::isnan(v)) return std::signbit(v) ? -Duration::Infinite() : Duration::Infinite();
  double s = v * scale;  // seconds
  if (s >= 9.2e18) return Duration::Infinite();
  if (s <= -9.2e18) return -Duration::Infinite();
  double ip = std::trunc(s); double fr = s - ip;
  return Duration::FromTicks((__int128)ip * 4000000000LL + (__int128)std::nearbyint(fr * 4e9)); } }
template <typename T> Duration Seconds(T v) { return shim::FromDouble((double)v, 1.0); }
template <typename T> Duration Milliseconds(T v) { return shim::FromDouble((double)v, 1e-3); }
template <typename T> Duration Microseconds(T v) { return shim::FromDouble((double)v, 1e-6); }
template <typename T> Duration Nanoseconds(T v) { return shim::FromDouble((double)v, 1e-9); }
inline double ToDoubleSeconds(Duration d) { if (d.inf()) return d.ticks() > 0 ? HUGE_VAL : -HUGE_VAL; return (double)(d.ticks() / 4000000000LL) + (double)(d.ticks() % 4000000000LL) / 4e9; }
inline double ToDoubleMilliseconds(Duration d) { return ToDoubleSeconds(d) * 1e3; }
inline std::string FormatDuration(Duration d) {
  if (d.ticks() == 0) return "0";
  std::string s; __int128 t = d.ticks(); if (t < 0) { s = "-"; t = -t; }
  if (d.inf()) return s + "inf";
  auto frac = [](double v, int prec, const char* unit) { // trailing zeros trimmed
    char b[64]; double p = std::pow(10, prec); double ip; double f = std::modf(v, &ip);
    long long fr = (long long)std::round(f * p); if (fr >= (long long)p) { ip += 1; fr = 0; }
    if (ip == 0 && fr == 0) return std::string();
    std::string r = std::to_string((long long)ip);
    if (fr) { std::snprintf(b, sizeof b, "%0*lld", prec, fr); std::string fs = b; while (fs.back() == '0') fs.pop_back(); r += "." + fs; }
    return r + unit; };
  if (t < 4000000000LL) {
    double ns = (double)t / 4;
    if (t < 4000) return s + frac(ns, 2, "ns");
    if (t < 4000000) return s + frac(ns / 1e3, 5, "us");
    return s + frac(ns / 1e6, 8, "ms");
  }
  __int128 sec = t / 4000000000LL; double rem = (double)(t % 4000000000LL) / 4e9;
  long long h = (long long)(sec / 3600), m = (long long)(sec / 60 % 60), ss = (long long)(sec % 60);
  if (h) s += std::to_string(h) + "h";
  if (m) s += std::to_string(m) + "m";
  s += frac((double)ss + rem, 11, "s");
  return s;
}
template <typename S> void AbslStringify(S& sink, Duration d) { sink.Append(FormatDuration(d)); }
inline std::ostream& operator<<(std::ostream& o, Duration d) { return o << FormatDuration(d); }
}
