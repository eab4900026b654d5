// Physical distances: unit conversion, arithmetic, order, text form.
#include <cmath>
#include <string>

#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "engine/pbt.h"
#include "ink/types/physical_distance.h"

using ink::PhysicalDistance;
using pbt::Ctx;

namespace {
float GenV(Ctx& c) {
  switch (c.Choice(3)) {
    case 0: return c.Moderate();
    case 1: return c.AnyFinite();
    case 2: return c.UniformF(0, 100);
    default: return c.PickOf<float>({0.f, -0.f, 1.f, 2.54f, 100.f, 39.37f, INFINITY, -INFINITY});
  }
}
PhysicalDistance Gen(Ctx& c, const char* n) {
  float v = GenV(c);
  int u = (int)c.Choice(2);
  PhysicalDistance d = u == 0 ? PhysicalDistance::Centimeters(v) : u == 1 ? PhysicalDistance::Inches(v) : PhysicalDistance::Meters(v);
  c.Note(n, " = ", d.ToCentimeters(), " cm");
  return d;
}
bool Same(PhysicalDistance d, float e) { return pbt::SameBits(d.ToCentimeters(), e); }
}  // namespace

PBT(units, 4, "the value is finite and not a small integer") {
  float v = GenV(c);
  c.Note("v = ", v);
  c.NonTrivial(std::isfinite(v) && v != std::floor(v));
  struct U { double cm; PhysicalDistance (*make)(float); float (PhysicalDistance::*to)() const; const char* n; };
  static const U us[] = {{1, &PhysicalDistance::Centimeters, &PhysicalDistance::ToCentimeters, "cm"},
                         {2.54, &PhysicalDistance::Inches, &PhysicalDistance::ToInches, "in"},
                         {100, &PhysicalDistance::Meters, &PhysicalDistance::ToMeters, "m"}};
  for (const U& a : us)
    for (const U& b : us) {
      PhysicalDistance d = a.make(v);
      double want = (double)v * a.cm / b.cm;
      // an overflow of the stored value is not representable
      if (std::fabs((double)v * a.cm) > 3.3e38 && std::isfinite(v)) { c.Label("overflow"); continue; }
      PROP(pbt::NearRel((d.*b.to)(), want, 4e-7, 5e-45 * 3), "unit-conversion", v, " ", a.n, " is ", (d.*b.to)(), " ", b.n, ", expected ", want);
      PROP(d.IsFinite() == std::isfinite(v), "is-finite", v, a.n);
    }
  PROP(PhysicalDistance::Centimeters(v).ToCentimeters() == v, "cm-identity", v);
  PROP(PhysicalDistance::Zero().ToCentimeters() == 0 && PhysicalDistance().ToInches() == 0 && PhysicalDistance().ToMeters() == 0, "zero");
}

PBT(arithmetic, 4, "both operands finite and non-integral") {
  PhysicalDistance a = Gen(c, "a"), b = Gen(c, "b");
  float f = c.Chance(1, 8) ? c.PickOf<float>({0.f, 1.f, -1.f, 0.5f}) : c.AnyFinite();
  c.Note("f = ", f);
  float x = a.ToCentimeters(), y = b.ToCentimeters();
  c.NonTrivial(std::isfinite(x) && std::isfinite(y) && x != std::floor(x) && y != std::floor(y));
  PROP(Same(a + b, x + y), "sum", x, " ", y);
  PROP(Same(a - b, x - y), "difference", x, " ", y);
  PROP(Same(a * f, x * f), "product", x, " ", f);
  PROP(Same(f * a, x * f), "product", x, " ", f);
  if (f != 0) PROP(Same(a / f, x / f), "quotient", x, " ", f);
  if (y != 0) PROP(pbt::SameBits(a / b, x / y), "ratio", x, " ", y);
  PROP(Same(-a, -x) && std::signbit((-a).ToCentimeters()) != std::signbit(x), "negation", x);
  PhysicalDistance t = a; t += b; PROP(Same(t, x + y), "compound-plus", x, " ", y);
  t = a; t -= b; PROP(Same(t, x - y), "compound-minus", x, " ", y);
  t = a; t *= f; PROP(Same(t, x * f), "compound-times", x, " ", f);
  if (f != 0) { t = a; t /= f; PROP(Same(t, x / f), "compound-over", x, " ", f); }
  t = a; t += t; PROP(Same(t, x + x), "alias-plus", x);
  if (std::isfinite(x)) { t = a; t -= t; PROP(Same(t, 0.f), "alias-minus", x); }
  PROP(a.ToCentimeters() == x && b.ToCentimeters() == y, "operands-unchanged");
}

PBT(order, 2, "operands are not both integers") {
  PhysicalDistance a = Gen(c, "a"), b = c.Chance(1, 4) ? a : c.Chance(1, 4) ? PhysicalDistance::Centimeters(std::nextafter(a.ToCentimeters(), INFINITY)) : Gen(c, "b");
  float x = a.ToCentimeters(), y = b.ToCentimeters();
  c.NonTrivial(x != std::floor(x) || y != std::floor(y));
  c.Label("equal", x == y);
  PROP((a == b) == (x == y), "eq", x, " ", y);
  PROP((a != b) == (x != y), "ne", x, " ", y);
  PROP((a < b) == (x < y), "lt", x, " ", y);
  PROP((a > b) == (x > y), "gt", x, " ", y);
  PROP((a <= b) == (x <= y), "le", x, " ", y);
  PROP((a >= b) == (x >= y), "ge", x, " ", y);
  if (a == b) PROP(absl::HashOf(a) == absl::HashOf(b), "hash", x, " ", y);
}

PBT(text, 1, "the value is not an integer") {
  PhysicalDistance a = Gen(c, "a");
  float x = a.ToCentimeters();
  std::string s = absl::StrCat(a);
  c.Note(s);
  c.NonTrivial(x != std::floor(x));
  PROP(s.size() > 2 && s.substr(s.size() - 2) == "cm", "text-unit", s);
  std::string num = s.substr(0, s.size() - 2);
  char* end = nullptr;
  double v = std::strtod(num.c_str(), &end);
  PROP(end && *end == 0 && pbt::NearRel(v, x, 6e-6, 1e-44), "text-value", x, " prints as ", s);
}
