// Angles: normalisation, arithmetic, trigonometry, order, text, and the entry points the Java side calls.
#include <cmath>
#include <string>

#include <jni.h>

#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "engine/pbt.h"
#include "ink/geometry/angle.h"
#include "ink/types/internal/float.h"
#include "ink/types/numbers.h"

using ink::Angle;
using pbt::Ctx;

extern "C" {
jfloat Java_androidx_ink_geometry_Angle_nativeNormalized(JNIEnv*, jclass, jfloat);
jfloat Java_androidx_ink_geometry_Angle_nativeNormalizedAboutZero(JNIEnv*, jclass, jfloat);
}

namespace {
constexpr double kTruePi = 3.14159265358979323846264338327950288;
constexpr float kPf = 6.28318530717958647692f;  // float nearest to a full turn
constexpr float kHf = 3.14159265358979323846f;

float GenRad(Ctx& c) {
  switch (c.Choice(5)) {
    case 0: return c.Moderate(100);
    case 1: {  // on and around multiples of an eighth of a turn
      float m = (float)c.Signed(-64, 64) * (kPf / 8);
      switch (c.Choice(3)) {
        case 0: return m;
        case 1: return std::nextafter(m, INFINITY);
        case 2: return std::nextafter(m, -INFINITY);
        default: return m + std::ldexp(c.UniformF(-1, 1), -(int)c.Choice(30));
      }
    }
    case 2: return c.UniformF(-kPf, kPf);
    case 3: return c.UniformF(-1000, 1000);
    case 4: return std::ldexp(c.UniformF(-2, 2), -(int)c.Choice(148));
    default: return c.AnyFinite();
  }
}
// distance between two values on the circle of the given period
double Circ(double a, double b, double period) {
  double d = std::fmod(std::fabs(a - b), period);
  return std::min(d, period - d);
}
}  // namespace

PBT(normalized, 6, "the value lies outside the target range") {
  float x = GenRad(c);
  c.Note("x = ", x);
  bool inside = x >= 0 && x < kPf;
  c.NonTrivial(!inside);
  c.Label("tiny-negative", x < 0 && x > -1e-6f);
  c.Label("many-turns", std::fabs(x) > 1000);
  float r = Angle::Radians(x).Normalized().ValueInRadians();
  PROP(r >= 0 && r < kPf, "range-0-to-full-turn", x, " normalises to ", r);
  if (inside) PROP(r == x, "already-normal-unchanged", x, " -> ", r);
  PROP(Circ(std::fmod((double)x, (double)kPf), r, kPf) <= 5e-7, "equivalent-angle", x, " -> ", r);
  if (std::fabs(x) < 1e4) PROP(Circ(x, r, 2 * kTruePi) <= 1e-6 + std::fabs(x) * 1e-7, "equivalent-angle-true-turn", x, " -> ", r);
  PROP(Angle::Radians(r).Normalized().ValueInRadians() == r, "idempotent", x, " -> ", r);
  PROP(Java_androidx_ink_geometry_Angle_nativeNormalized(nullptr, nullptr, x) == r, "java-entry", x);
  if (std::fabs(x) < 100) {
    PROP(std::fabs(std::sin((double)r) - std::sin((double)x)) < 2e-5 && std::fabs(std::cos((double)r) - std::cos((double)x)) < 2e-5, "same-direction", x, " -> ", r);
  }
}

PBT(normalized_about_zero, 6, "the value lies outside the target range") {
  float x = GenRad(c);
  c.Note("x = ", x);
  bool inside = x > -kHf && x <= kHf;
  c.NonTrivial(!inside);
  c.Label("boundary", std::fabs(std::fabs(std::remainder((double)x, (double)kPf)) - kHf) < 1e-6);
  float r = Angle::Radians(x).NormalizedAboutZero().ValueInRadians();
  PROP(r > -kHf && r <= kHf, "range-minus-half-to-half", x, " normalises to ", r);
  if (inside) PROP(r == x, "already-normal-unchanged", x, " -> ", r);
  PROP(Circ(std::fmod((double)x, (double)kPf), r, kPf) <= 5e-7, "equivalent-angle", x, " -> ", r);
  if (std::fabs(x) < 1e4) PROP(Circ(x, r, 2 * kTruePi) <= 1e-6 + std::fabs(x) * 1e-7, "equivalent-angle-true-turn", x, " -> ", r);
  PROP(Angle::Radians(r).NormalizedAboutZero().ValueInRadians() == r, "idempotent", x, " -> ", r);
  PROP(Java_androidx_ink_geometry_Angle_nativeNormalizedAboutZero(nullptr, nullptr, x) == r, "java-entry", x);
  // the two normal forms name the same angle
  float n = Angle::Radians(x).Normalized().ValueInRadians();
  PROP(Circ(n, r, kPf) <= 5e-7, "forms-agree", x, " -> ", n, " and ", r);
}

PBT(non_finite, 1, "always") {
  float x = c.PickOf<float>({INFINITY, -INFINITY, NAN});
  c.NonTrivial();
  PROP(std::isnan(Angle::Radians(x).Normalized().ValueInRadians()), "non-finite-has-no-normal-form", x);
  PROP(std::isnan(Angle::Radians(x).NormalizedAboutZero().ValueInRadians()), "non-finite-has-no-normal-form", x);
  PROP(!ink_internal::IsFinite(x), "is-finite");
  float y = c.AnyFinite();
  PROP(ink_internal::IsFinite(y), "is-finite", y);
}

PBT(units, 2, "the value is not an integer") {
  float d = c.Bool() ? c.Moderate(1e4) : c.UniformF(-720, 720);
  c.Note("degrees = ", d);
  c.NonTrivial(d != std::floor(d));
  PROP(pbt::NearRel(Angle::Degrees(d).ValueInRadians(), d * kTruePi / 180, 3e-7, 1e-44), "degrees-to-radians", d);
  PROP(pbt::NearRel(Angle::Degrees(d).ValueInDegrees(), d, 5e-7, 1e-42), "degrees-round-trip", d);
  PROP(pbt::NearRel(Angle::Radians(d).ValueInDegrees(), d * 180 / kTruePi, 3e-7, 1e-44), "radians-to-degrees", d);
  PROP(Angle::Radians(d).ValueInRadians() == d, "radians-identity", d);
  PROP(Angle().ValueInRadians() == 0, "default-zero");
  PROP(ink::kFullTurn.ValueInRadians() == kPf && ink::kHalfTurn.ValueInRadians() == kHf && ink::kQuarterTurn.ValueInRadians() == kHf / 2, "turn-constants");
  PROP(ink::numbers::kPi == kTruePi && ink::numbers::kSqrt2 == std::sqrt(2.0), "number-constants");
}

PBT(arithmetic, 3, "both operands are finite and non-integral") {
  float x = c.Bool() ? GenRad(c) : c.AnyFloat(), y = c.Bool() ? GenRad(c) : c.AnyFinite(), f = c.AnyFinite();
  c.Note(x, " ", y, " ", f);
  c.NonTrivial(std::isfinite(x) && x != std::floor(x) && y != std::floor(y));
  Angle a = Angle::Radians(x), b = Angle::Radians(y);
  auto same = [](Angle g, float e) { return pbt::SameBits(g.ValueInRadians(), e); };
  PROP(same(a + b, x + y) && same(a - b, x - y) && same(-a, -x), "sum-difference-negation", x, " ", y);
  PROP(same(a * f, x * f) && same(f * a, f * x), "scale", x, " ", f);
  if (f != 0) PROP(same(a / f, x / f), "divide", x, " ", f);
  if (y != 0) PROP(pbt::SameBits(a / b, x / y), "ratio", x, " ", y);
  Angle t = a; t += b; PROP(same(t, x + y), "compound", x, " ", y);
  t = a; t -= b; PROP(same(t, x - y), "compound", x, " ", y);
  t = a; t *= f; PROP(same(t, x * f), "compound", x, " ", f);
  if (f != 0) { t = a; t /= f; PROP(same(t, x / f), "compound", x, " ", f); }
  PROP(same(ink::Abs(a), std::fabs(x)), "abs", x);
  PROP((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "order", x, " ", y);
  if (!std::isnan(x)) {
    PROP(ink::Min(a, b).ValueInRadians() == std::min(x, y), "min", x, " ", y);
    PROP(ink::Max(a, b).ValueInRadians() == std::max(x, y), "max", x, " ", y);
    PROP(a == a && absl::HashOf(a) == absl::HashOf(Angle::Radians(x)), "hash", x);
    Angle z = Angle::Radians(0.f), mz = Angle::Radians(-0.f);
    PROP(z == mz && absl::HashOf(z) == absl::HashOf(mz), "hash-of-zeros");
  }
  if (std::isfinite(x) && y != 0) {
    float m = ink::Mod(a, b).ValueInRadians();
    PROP(std::fabs(m) < std::fabs(y) && (m == 0 || std::signbit(m) == std::signbit(x)), "mod-range-and-sign", x, " mod ", y, " = ", m);
    PROP(m == std::fmod(x, y), "mod-value", x, " mod ", y, " = ", m);
  }
}

PBT(trigonometry, 2, "the value is not zero") {
  float x = c.Bool() ? c.UniformF(-20, 20) : GenRad(c);
  ASSUME(std::fabs(x) < 1e5);
  c.Note(x);
  c.NonTrivial(x != 0);
  Angle a = Angle::Radians(x);
  PROP(pbt::Near(ink::Sin(a), std::sin((double)x), 2e-7), "sin", x);
  PROP(pbt::Near(ink::Cos(a), std::cos((double)x), 2e-7), "cos", x);
  double t = std::tan((double)x);
  PROP(pbt::NearRel(ink::Tan(a), t, 1e-6 , 1e-7), "tan", x);
  float v = c.UniformF(-1, 1);
  PROP(pbt::Near(ink::Asin(v).ValueInRadians(), std::asin((double)v), 5e-7), "asin", v);
  PROP(pbt::Near(ink::Acos(v).ValueInRadians(), std::acos((double)v), 5e-7), "acos", v);
  PROP(pbt::Near(ink::Atan(x).ValueInRadians(), std::atan((double)x), 5e-7), "atan", x);
}

PBT(text, 1, "the value is not a multiple of a half turn") {
  float x = GenRad(c);
  std::string s = absl::StrCat(Angle::Radians(x));
  c.Note(x, " prints ", s);
  c.NonTrivial(x != 0);
  PROP(s.size() > 2 && s.substr(s.size() - 2) == "\xcf\x80", "text-unit", s);
  char* end = nullptr;
  std::string num = s.substr(0, s.size() - 2);
  double v = std::strtod(num.c_str(), &end);
  PROP(end && !*end && pbt::NearRel(v, x / kTruePi, 6e-6, 1e-44), "text-value", x, " prints ", s);
}
