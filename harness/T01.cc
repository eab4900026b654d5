// Durations: documented infinity/NaN rules, IEEE single arithmetic elsewhere, conversions, text form.
#include <cmath>
#include <string>

#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "absl/time/time.h"
#include "engine/pbt.h"
#include "ink/types/duration.h"
#include "ink/types/internal/float.h"

using ink::Duration32;
using pbt::Ctx;

namespace {
constexpr float kInf = std::numeric_limits<float>::infinity();

float GenSeconds(Ctx& c) {
  switch (c.Choice(7)) {
    case 0: return (float)c.Signed(-5, 5);
    case 1: return c.Moderate();
    case 2: return c.AnyFinite();
    case 3: return c.PickOf<float>({kInf, -kInf, 0.f, -0.f, NAN});
    case 4: return c.PickOf<float>({0.001f, 0.05f, 60.f, 3600.f, 5400.25f, 1e-9f, 2.5e-7f, 1e10f, 9.3e18f, 1e19f, -9.3e18f});
    case 5: return std::ldexp(c.UniformF(1, 2), c.Signed(-40, 70)) * (c.Bool() ? -1 : 1);
    case 6: return c.UniformF(-100000, 100000);
    default: return (float)c.Int(0, 2000000) / 10000;
  }
}
Duration32 Gen(Ctx& c, const char* name) {
  float s = GenSeconds(c);
  Duration32 d;
  switch (c.Choice(4)) {
    case 0: case 1: d = Duration32::Seconds(s); break;
    case 2: d = Duration32::Millis(s); break;
    case 3: d = s == kInf ? Duration32::Infinite() : s == 0 ? Duration32::Zero() : Duration32::Seconds(s); break;
    default: d = Duration32(absl::Seconds(s)); break;
  }
  c.Note(name, " = ", d.ToSeconds(), "s");
  return d;
}
bool Same(Duration32 a, float expect) { return a.ToSeconds() == expect; }
void NoNan(Duration32 d, const char* what) {
  PROP(!std::isnan(d.ToSeconds()), "never-nan", what);
  PROP(!std::isnan(d.ToMillis()), "never-nan", what, " millis");
  PROP(d.IsFinite() == std::isfinite(d.ToSeconds()), "is-finite", what);
}

// What a product of a duration and a factor must be; nullopt: any infinite value is allowed.
struct Expect { bool any_infinite = false; float v = 0; };
Expect Times(float d, float f) {
  if (std::isnan(f)) return {false, d >= 0 ? kInf : -kInf};
  if (std::isinf(d)) return f == 0 ? Expect{true} : Expect{false, (d > 0) == (f > 0) ? kInf : -kInf};
  if (d == 0 && std::isinf(f)) return {true};
  return {false, d * f};
}
Expect Over(float d, float f) {
  if (std::isnan(f)) return {false, d >= 0 ? kInf : -kInf};
  if (std::isinf(d)) return f == 0 ? Expect{true} : Expect{false, (d > 0) == (f > 0) ? kInf : -kInf};
  if (f == 0) return d == 0 || std::signbit(f) ? Expect{true} : Expect{false, d > 0 ? kInf : -kInf};
  return {false, d / f};
}
bool Ok(const Expect& e, float got) { return e.any_infinite ? std::isinf(got) : got == e.v; }

// Parses "-1h2m3.5s" style text; NaN when it does not have that shape.
double Parse(std::string s) {
  double sign = 1, total = 0;
  if (s == "0") return 0;
  if (!s.empty() && s[0] == '-') { sign = -1; s = s.substr(1); }
  if (s == "inf") return sign * INFINITY;
  while (!s.empty()) {
    size_t used = 0;
    double v;
    try { v = std::stod(s, &used); } catch (...) { return NAN; }
    s = s.substr(used);
    static const std::pair<const char*, double> units[] = {{"ms", 1e-3}, {"us", 1e-6}, {"ns", 1e-9}, {"h", 3600}, {"m", 60}, {"s", 1}};
    bool hit = false;
    for (auto& [u, k] : units)
      if (s.rfind(u, 0) == 0) { total += v * k; s = s.substr(std::string(u).size()); hit = true; break; }
    if (!hit) return NAN;
  }
  return sign * total;
}
}  // namespace

PBT(factories, 2, "value is not a small integer") {
  float s = GenSeconds(c);
  c.Note("value ", s);
  Duration32 a = Duration32::Seconds(s), b = Duration32::Millis(s);
  NoNan(a, "Seconds");
  NoNan(b, "Millis");
  c.NonTrivial(s != std::floor(s) || !std::isfinite(s));
  if (std::isnan(s)) {
    c.Label("nan");
    PROP(a == Duration32::Infinite() && b == Duration32::Infinite(), "nan-is-infinite");
  } else {
    PROP(a.ToSeconds() == s, "seconds-identity", s);
    PROP(pbt::NearRel(b.ToSeconds(), (double)s * 1e-3, 3e-7, 2e-45), "millis", s, " -> ", b.ToSeconds());
    if (std::fabs((double)s * 1000) < 3e38) PROP(pbt::NearRel(a.ToMillis(), (double)s * 1e3, 3e-7, 2e-42), "to-millis", s, " -> ", a.ToMillis());
    if (std::isinf(s)) PROP(a.ToMillis() == s && b.ToSeconds() == s, "to-millis-infinite", s);
  }
  PROP(Duration32().ToSeconds() == 0 && Duration32::Zero().ToSeconds() == 0 && Duration32::Zero() == Duration32(), "zero");
  PROP(Duration32::Infinite().ToSeconds() == kInf && !Duration32::Infinite().IsFinite(), "infinite");
  PROP(ink_internal::IsFinite(s) == (s - s == 0), "is-finite", s);
}

PBT(arithmetic, 6, "an operand or the result is infinite, or both operands are non-integral") {
  Duration32 a = Gen(c, "a"), b = Gen(c, "b");
  float f = c.Chance(1, 3) ? c.PickOf<float>({0.f, -0.f, 1.f, -1.f, kInf, -kInf, NAN, 0.5f}) : c.AnyFinite();
  c.Note("f = ", f);
  float x = a.ToSeconds(), y = b.ToSeconds();
  c.NonTrivial(std::isinf(x) || std::isinf(y) || !std::isfinite(f) || (x != std::floor(x) && y != std::floor(y)));
  c.Label("infinite-operand", std::isinf(x) || std::isinf(y));
  c.Label("zero-by-infinity-or-zero", (x == 0 && (std::isinf(f) || f == 0)));
  Duration32 sum = a + b, diff = a - b, prod = a * f, prod2 = f * a, quot = a / f, neg = -a;
  float ratio = a / b;
  NoNan(sum, "sum"); NoNan(diff, "difference"); NoNan(prod, "product"); NoNan(prod2, "product"); NoNan(quot, "quotient"); NoNan(neg, "negation");
  PROP(!std::isnan(ratio), "never-nan", "ratio of ", x, " and ", y);
  PROP(Same(sum, std::isinf(x) ? x : x + y), "sum", x, "+", y, "=", sum.ToSeconds());
  PROP(Same(diff, std::isinf(x) ? x : x - y), "difference", x, "-", y, "=", diff.ToSeconds());
  PROP(Same(neg, -x), "negation", x);
  PROP(Ok(Times(x, f), prod.ToSeconds()), "product", x, "*", f, "=", prod.ToSeconds());
  PROP(prod2 == prod, "product-commutes", x, "*", f);
  PROP(Ok(Over(x, f), quot.ToSeconds()), "quotient", x, "/", f, "=", quot.ToSeconds());
  if (y == 0) {
    PROP(std::isinf(ratio), "ratio-by-zero", x, "/", y, "=", ratio);
    if (!std::signbit(y)) PROP((ratio > 0) == (x >= 0), "ratio-by-zero", x, "/", y, "=", ratio);
  } else if (std::isinf(x)) {
    PROP(ratio == ((x > 0) == (y > 0) ? kInf : -kInf), "ratio-infinite", x, "/", y, "=", ratio);
  } else {
    PROP(ratio == x / y, "ratio", x, "/", y, "=", ratio);
  }
  Duration32 t = a; t += b; PROP(t == sum, "compound-plus", x, " ", y);
  t = a; t -= b; PROP(t == diff, "compound-minus", x, " ", y);
  t = a; t *= f; PROP(t == prod, "compound-times", x, " ", f);
  t = a; t /= f; PROP(t == quot, "compound-over", x, " ", f);
  // the operands are unchanged
  PROP(a.ToSeconds() == x && b.ToSeconds() == y, "operands-unchanged");
}

PBT(self_arithmetic, 1, "the operand is infinite or non-integral") {
  Duration32 a = Gen(c, "a");
  float x = a.ToSeconds();
  c.NonTrivial(std::isinf(x) || x != std::floor(x));
  Duration32 t = a; t += t; PROP(Same(t, x + x), "alias-plus", x);
  t = a; t -= t; PROP(Same(t, std::isinf(x) ? x : 0.f), "alias-minus", x);
  PROP(x == 0 || (a / a) == (std::isinf(x) ? kInf : 1.f), "alias-ratio", x);
}

PBT(order, 2, "at least one operand is not a small integer") {
  Duration32 a = Gen(c, "a"), b = c.Chance(1, 4) ? a : Gen(c, "b");
  float x = a.ToSeconds(), y = b.ToSeconds();
  c.NonTrivial(x != std::floor(x) || y != std::floor(y));
  c.Label("equal", x == y);
  PROP((a == b) == (x == y), "eq", x, " ", y);
  PROP((a != b) == (x != y), "ne", x, " ", y);
  PROP((a < b) == (x < y), "lt", x, " ", y);
  PROP((a > b) == (x > y), "gt", x, " ", y);
  PROP((a <= b) == (x <= y), "le", x, " ", y);
  PROP((a >= b) == (x >= y), "ge", x, " ", y);
  if (a == b) PROP(absl::HashOf(a) == absl::HashOf(b), "hash", x, " ", y);
}

PBT(history, 3, "at least 4 operations, and an infinity was reached or none was involved at all") {
  // A running duration against the documented rules.
  Duration32 d = Gen(c, "start");
  float m = d.ToSeconds();
  int n = c.Len(1, 12);
  c.NonTrivial(n >= 4);
  for (int i = 0; i < n; ++i) {
    int op = (int)c.Choice(5);
    if (op <= 1) {
      Duration32 e = Gen(c, op ? "-=" : "+=");
      float y = e.ToSeconds();
      if (op) d -= e; else d += e;
      if (!std::isinf(m)) m = op ? m - y : m + y;
    } else if (op <= 3) {
      float f = c.Moderate();
      if (c.Chance(1, 5)) f = c.PickOf<float>({kInf, -kInf, NAN, 2.f, 0.25f});
      c.Note(op == 2 ? "*= " : "/= ", f);
      Expect e = op == 2 ? Times(m, f) : Over(m, f);
      if (op == 2) d *= f; else d /= f;
      PROP(Ok(e, d.ToSeconds()), "step", m, op == 2 ? " * " : " / ", f, " = ", d.ToSeconds());
      m = d.ToSeconds();
    } else if (op == 4) {
      d = -d;
      m = -m;
    } else {
      d = c.Bool() ? Duration32::Seconds(d.ToSeconds()) : d;
    }
    NoNan(d, "running value");
    PROP(d.ToSeconds() == m, "step", "expected ", m, " got ", d.ToSeconds());
    c.Label("reached-infinity", std::isinf(m));
  }
}

PBT(abseil, 2, "the value is not a whole number of seconds") {
  Duration32 a = Gen(c, "a");
  float x = a.ToSeconds();
  c.NonTrivial(x != std::floor(x));
  absl::Duration d = a.ToAbseil();
  if (std::isinf(x)) {
    PROP(d == (x > 0 ? absl::InfiniteDuration() : -absl::InfiniteDuration()), "to-abseil-infinite", x);
  } else if (std::fabs(x) < 9e18f) {
    PROP(std::fabs(absl::ToDoubleSeconds(d) - (double)x) <= 1.3e-10 + 1e-15 * std::fabs((double)x), "to-abseil", x, " -> ", absl::ToDoubleSeconds(d));
    if (std::fabs(x) >= 0.01f) PROP(Duration32(d) == a, "from-abseil", x, " -> ", Duration32(d).ToSeconds());
  }
  PROP(Duration32(absl::ZeroDuration()) == Duration32::Zero(), "from-abseil-zero");
  PROP(Duration32(absl::InfiniteDuration()) == Duration32::Infinite() && Duration32(-absl::InfiniteDuration()) == -Duration32::Infinite(), "from-abseil-infinite");
}

PBT(text, 2, "the value is not a small integer") {
  Duration32 a = Gen(c, "a");
  float x = a.ToSeconds();
  std::string s = absl::StrCat(a);
  c.Note("text ", s);
  c.NonTrivial(x != std::floor(x));
  double back = Parse(s);
  PROP(!std::isnan(back), "text-shape", x, " prints as ", s);
  if (std::isinf(x)) PROP(back == x, "text-infinite", x, " prints as ", s);
  else {
    PROP(std::isfinite(back), "text-finite", x, " prints as ", s);
    PROP(std::fabs(back - x) <= 6e-6 * std::fabs((double)x) + 2e-10, "text-value", x, " prints as ", s);
    if (std::fabs(x) < 1e18f) PROP(std::fabs(back - x) <= 1e-9 * std::fabs((double)x) + 2e-10, "text-value", x, " prints as ", s);
  }
}
