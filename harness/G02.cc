// Vectors, points and segments against double-precision references.
#include <cmath>
#include <string>

#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "engine/pbt.h"
#include "harness/geo.h"
#include "ink/geometry/angle.h"
#include "ink/geometry/point.h"
#include "ink/geometry/segment.h"
#include "ink/geometry/vec.h"

using ink::Angle;
using ink::Point;
using ink::Segment;
using ink::Vec;
using pbt::Ctx;

namespace {
constexpr double kPi = 3.14159265358979323846264338327950288;
constexpr double kEps = 1.1920929e-7;  // one unit in the last place at one
constexpr double kMax = 3.4028234663852886e38;
constexpr double kTiny = 1.1754943508222875e-38;

float Coord(Ctx& c) { return c.Chance(1, 3) ? c.AnyFinite() : c.Moderate(); }
float AnyCoord(Ctx& c) { return c.Chance(1, 12) ? c.AnyFloat() : Coord(c); }
Vec GenVec(Ctx& c) { float x = Coord(c); return {x, Coord(c)}; }
Vec GenAnyVec(Ctx& c) { float x = AnyCoord(c); return {x, AnyCoord(c)}; }
Vec GenMod(Ctx& c) { float x = c.Moderate(); return {x, c.Moderate()}; }
bool Fin(Vec v) { return std::isfinite(v.x) && std::isfinite(v.y); }
struct D2 { double x, y; };
// unit vector in double precision of a vector with no NaN, with the published conventions
D2 Unit(Vec v) {
  if (std::isinf(v.x) || std::isinf(v.y)) {
    double x = std::isinf(v.x) ? std::copysign(1.0, v.x) : std::copysign(0.0, v.x);
    double y = std::isinf(v.y) ? std::copysign(1.0, v.y) : std::copysign(0.0, v.y);
    double m = std::hypot(x, y);
    return {x / m, y / m};
  }
  if (v.x == 0 && v.y == 0) return {std::copysign(1.0, v.x), std::copysign(0.0, v.y)};
  double m = std::hypot((double)v.x, (double)v.y);
  return {v.x / m, v.y / m};
}
// the nearest float, or infinity
bool NearF(float got, double want, double rel, double abs_tol = 0) {
  if (std::fabs(want) > kMax * (1 - 1e-6)) return std::isinf(got) || std::fabs(got) > kMax * (1 - 1e-5);
  return pbt::NearRel(got, want, rel, abs_tol + 3e-45);
}
}  // namespace

PBT(unit_vector, 5, "finite, and not axis-aligned") {
  Vec v = GenAnyVec(c);
  c.Note("v = ", v);
  c.Label("tiny", std::fabs(v.x) < 1e-37 && std::fabs(v.y) < 1e-37);
  c.Label("huge", std::fabs(v.x) > 1e38 || std::fabs(v.y) > 1e38);
  c.Label("zero", v == Vec{0, 0});
  Vec u = v.AsUnitVec();
  if (std::isnan(v.x) || std::isnan(v.y)) {
    PROP(std::isnan(u.x) && std::isnan(u.y), "unit-of-nan", v, u);
    PROP(std::isnan(v.Direction().ValueInRadians()), "direction-of-nan", v);
    return;
  }
  c.NonTrivial(Fin(v) && v.x != 0 && v.y != 0);
  D2 w = Unit(v);
  PROP(std::fabs(u.x - w.x) < 4e-7 && std::fabs(u.y - w.y) < 4e-7, "unit-direction", v, " -> ", u, ", expected ", w.x, " ", w.y);
  PROP(std::fabs(std::hypot((double)u.x, (double)u.y) - 1) < 4e-7, "unit-length", v, " -> ", u);
  PROP(std::signbit(u.x) == std::signbit(v.x) && std::signbit(u.y) == std::signbit(v.y), "unit-signs", v, " -> ", u);
  float dir = v.Direction().ValueInRadians();
  PROP(std::fabs(dir - std::atan2((double)v.y, (double)v.x)) < 5e-7, "direction", v, dir);
  PROP(dir >= -(float)kPi && dir <= (float)kPi && std::signbit(dir) == std::signbit(v.y), "direction-range-and-sign", v, dir);
  float mag = v.Magnitude();
  double m = std::hypot((double)v.x, (double)v.y);
  if (Fin(v)) PROP(NearF(mag, m, 3e-7), "magnitude", v, mag); else PROP(std::isinf(mag) && mag > 0, "magnitude-of-infinite", v, mag);
  if (Fin(v)) {
    float ms = v.MagnitudeSquared();
    PROP(NearF(ms, m * m, 5e-7, 3e-45), "magnitude-squared", v, ms);
    Vec o = v.Orthogonal();
    PROP(o.x == -v.y && o.y == v.x, "orthogonal", v, o);
  }
}

PBT(from_direction, 2, "magnitude is not zero") {
  float dir = c.Chance(1, 3) ? (float)(c.Signed(-8, 8) * kPi / 4) : c.UniformF(-10, 10);
  float mag = c.Chance(1, 6) ? c.AnyFinite() : c.Moderate();
  c.Note("direction ", dir, " magnitude ", mag);
  c.NonTrivial(mag != 0);
  Vec v = Vec::FromDirectionAndMagnitude(Angle::Radians(dir), mag);
  double tol = std::fabs(mag) * 4e-7 + 3e-45;
  PROP(std::fabs(v.x - (double)mag * std::cos((double)dir)) <= tol && std::fabs(v.y - (double)mag * std::sin((double)dir)) <= tol, "from-direction-and-magnitude", v);
}

PBT(products_and_angles, 6, "the vectors are not parallel") {
  Vec a = GenAnyVec(c), b;
  switch (c.Choice(4)) {
    case 0: { float k = c.Moderate(10); b = {a.x * k, a.y * k}; break; }
    case 1: { float k = c.Moderate(10); b = {-a.y * k, a.x * k}; break; }
    case 2: {  // nearly parallel or opposite
      float k = c.Bool() ? 1.f : -1.f;
      b = {k * c.Near(a.x), k * c.Near(a.y)};
      break;
    }
    default: b = GenAnyVec(c);
  }
  c.Note("a = ", a, " b = ", b);
  bool nan = std::isnan(a.x) || std::isnan(a.y) || std::isnan(b.x) || std::isnan(b.y);
  float s = Vec::SignedAngleBetween(a, b).ValueInRadians(), ab = Vec::AbsoluteAngleBetween(a, b).ValueInRadians();
  if (nan) {
    PROP(std::isnan(s) && std::isnan(ab), "angle-of-nan", a, b, s, ab);
    return;
  }
  D2 u = Unit(a), w = Unit(b);
  double cr = u.x * w.y - u.y * w.x, dt = u.x * w.x + u.y * w.y;
  double want = std::atan2(cr, dt);
  c.NonTrivial(std::fabs(cr) > 1e-6);
  c.Label("nearly-opposite", dt < -0.999999);
  c.Label("nearly-same", dt > 0.999999);
  PROP(s > -(float)kPi && s <= (float)kPi, "signed-angle-range", a, b, s);
  PROP(ab >= 0 && ab <= (float)kPi, "absolute-angle-range", a, b, ab);
  // the arc cosine costs half the digits near 0 and a half turn
  double tol = 1e-6 + 6e-7 / std::max(std::fabs(cr), 7e-4);
  PROP(std::fabs(ab - std::fabs(want)) <= tol, "absolute-angle", a, b, ab, " expected ", std::fabs(want));
  PROP(std::fabs(std::fabs(s) - std::fabs(want)) <= tol, "signed-angle-size", a, b, s, " expected ", want);
  if (std::fabs(cr) > 1e-6 && s != 0 && std::fabs(s) < 3.1415f) PROP((s > 0) == (cr > 0), "signed-angle-sign", a, b, s, " expected ", want);
  if (Fin(a) && Fin(b)) {
    double p = (double)a.x * b.x, q = (double)a.y * b.y;
    float d = Vec::DotProduct(a, b);
    if (std::fabs(p) < kMax && std::fabs(q) < kMax && std::fabs(p + q) < kMax) PROP(std::fabs(d - (p + q)) <= 2 * kEps * (std::fabs(p) + std::fabs(q)) + 3e-45, "dot-product", a, b, d);
    double r = (double)a.x * b.y, t = (double)a.y * b.x;
    float e = Vec::Determinant(a, b);
    if (std::fabs(r) < kMax && std::fabs(t) < kMax && std::fabs(r - t) < kMax) PROP(std::fabs(e - (r - t)) <= 2 * kEps * (std::fabs(r) + std::fabs(t)) + 3e-45, "determinant", a, b, e);
  }
}

PBT(arithmetic, 3, "components differ") {
  Vec a = GenVec(c), b = GenVec(c);
  float k = Coord(c);
  Point p{b.y, a.x}, q{a.y, b.x};
  c.Note("a = ", a, " b = ", b, " k = ", k);
  c.NonTrivial(a.x != a.y && b.x != b.y);
  auto eq = [&](float x, float y, float ex, float ey, const char* tag) { PROP(pbt::SameBits(x, ex) && pbt::SameBits(y, ey), tag, a, b, k, " gives ", x, " ", y); };
  Vec r;
  r = a + b; eq(r.x, r.y, a.x + b.x, a.y + b.y, "vec-add");
  r = a - b; eq(r.x, r.y, a.x - b.x, a.y - b.y, "vec-subtract");
  r = -a; eq(r.x, r.y, -a.x, -a.y, "vec-negate");
  r = a * k; eq(r.x, r.y, a.x * k, a.y * k, "vec-scale");
  r = k * a; eq(r.x, r.y, a.x * k, a.y * k, "vec-scale-left");
  if (k != 0) { r = a / k; eq(r.x, r.y, a.x / k, a.y / k, "vec-divide"); r = a; r /= k; eq(r.x, r.y, a.x / k, a.y / k, "vec-divide-assign"); }
  r = a; r += b; eq(r.x, r.y, a.x + b.x, a.y + b.y, "vec-add-assign");
  r = a; r -= b; eq(r.x, r.y, a.x - b.x, a.y - b.y, "vec-subtract-assign");
  r = a; r *= k; eq(r.x, r.y, a.x * k, a.y * k, "vec-scale-assign");
  r = p - q; eq(r.x, r.y, p.x - q.x, p.y - q.y, "point-difference");
  r = p.Offset(); eq(r.x, r.y, p.x, p.y, "point-offset");
  Point s;
  s = p + a; eq(s.x, s.y, p.x + a.x, p.y + a.y, "point-plus-vec");
  s = a + p; eq(s.x, s.y, p.x + a.x, p.y + a.y, "vec-plus-point");
  s = p - a; eq(s.x, s.y, p.x - a.x, p.y - a.y, "point-minus-vec");
  s = p; s += a; eq(s.x, s.y, p.x + a.x, p.y + a.y, "point-add-assign");
  s = p; s -= a; eq(s.x, s.y, p.x - a.x, p.y - a.y, "point-subtract-assign");
  Vec a2 = c.Bool() ? a : c.Bool() ? Vec{a.x, b.y} : Vec{b.x, a.y};
  bool same = a.x == a2.x && a.y == a2.y;
  PROP((a == a2) == same && (a != a2) == !same, "vec-equality", a, a2);
  Point pa{a.x, a.y}, pa2{a2.x, a2.y};
  PROP((pa == pa2) == same && (pa != pa2) == !same, "point-equality", a, a2);
  if (same) PROP(absl::Hash<Vec>{}(a) == absl::Hash<Vec>{}(a2) && absl::Hash<Point>{}(pa) == absl::Hash<Point>{}(pa2), "equal-hash", a, a2);
  if (c.Chance(1, 40)) {
    PROP(absl::StrCat(a) == absl::StrCat("<", a.x, ", ", a.y, ">"), "vec-text", absl::StrCat(a));
    PROP(absl::StrCat(pa) == absl::StrCat("(", a.x, ", ", a.y, ")"), "point-text", absl::StrCat(pa));
    Segment g{pa, {b.x, b.y}};
    PROP(absl::StrCat(g) == absl::StrCat("Segment[(", a.x, ", ", a.y, ") -> (", b.x, ", ", b.y, ")]"), "segment-text", absl::StrCat(g));
  }
}

PBT(segment_lerp, 4, "the segment is not a point and the ratio is neither 0 nor 1") {
  Segment s;
  s.start = {Coord(c), Coord(c)};
  s.end = c.Chance(1, 10) ? s.start : Point{Coord(c), Coord(c)};
  float t = c.Weighted({5, 1}) == 0 ? (c.Chance(1, 3) ? c.PickOf({0.f, 1.f, 0.5f}) : c.UniformF(0, 1)) : c.Moderate(10);
  c.Note("segment ", s.start.Offset(), " -> ", s.end.Offset(), " ratio ", t);
  c.NonTrivial(!(s.start == s.end) && t != 0 && t != 1);
  Point p = s.Lerp(t);
  PROP(s.Lerp(0) == s.start && s.Lerp(1) == s.end, "lerp-ends", s.Lerp(0).Offset(), s.Lerp(1).Offset());
  Point m = s.Midpoint();
  auto chk = [&](float g, float a, float b, double r, const char* tag) {
    double w = a * (1 - r) + b * r;
    double sc = std::fabs((double)a * (1 - r)) + std::fabs((double)b * r);
    // rounding of one minus the ratio matters as much as the ratio itself
    double tol = 4 * kEps * sc + kEps * std::fabs((double)a) * std::max(1.0, std::fabs(r)) + 3e-45;
    if (sc < kMax * 0.999) PROP(std::fabs(g - w) <= tol, tag, g, " expected ", w);
    if (r >= 0 && r <= 1) PROP(std::isfinite(g), "lerp-finite", g);
  };
  chk(p.x, s.start.x, s.end.x, t, "lerp-x");
  chk(p.y, s.start.y, s.end.y, t, "lerp-y");
  chk(m.x, s.start.x, s.end.x, 0.5, "midpoint-x");
  chk(m.y, s.start.y, s.end.y, 0.5, "midpoint-y");
  Vec v = s.Vector();
  PROP(pbt::SameBits(v.x, s.end.x - s.start.x) && pbt::SameBits(v.y, s.end.y - s.start.y), "vector", v);
  PROP(NearF(s.Length(), std::hypot((double)v.x, (double)v.y), 3e-7), "length", s.Length());
  Segment r{s.end, s.start};
  bool same = s.start == s.end;
  PROP((s == r) == same && (s != r) == !same && s == s && !(s != s), "equality");
  Segment half{s.start, m};
  PROP((half == s) == (m == s.end), "equality-end", half.end.Offset());
  Segment half2{m, s.end};
  PROP((half2 == s) == (m == s.start) && (half2 != s) == !(m == s.start), "equality-start", half2.start.Offset());
}

PBT(segment_project, 4, "the projection exists and lies strictly inside") {
  Segment s;
  float sc = std::ldexp(1.f, c.Signed(-60, 30));
  s.start = {c.Moderate() * sc, c.Moderate() * sc};
  Vec d = c.Chance(1, 12) ? Vec{0, 0} : GenMod(c) * (c.Chance(1, 4) ? std::ldexp(sc, -(int)c.Choice(40)) : sc);
  s.end = s.start + d;
  float t = c.UniformF(-1.5, 2.5);
  float off = c.Moderate(2);
  Point p = c.Chance(1, 4) ? Point{c.Moderate() * sc, c.Moderate() * sc} : s.Lerp(t) + off * s.Vector().Orthogonal();
  ASSUME(std::isfinite(p.x) && std::isfinite(p.y));
  Vec v = s.Vector();
  c.Note("segment ", s.start.Offset(), " -> ", s.end.Offset(), " point ", p.Offset());
  std::optional<float> r = s.Project(p);
  bool none = s.start == s.end || v.MagnitudeSquared() <= 0;
  PROP(r.has_value() == !none, "projection-exists", r);
  if (none) { c.Label("degenerate"); return; }
  double vx = (double)s.end.x - s.start.x, vy = (double)s.end.y - s.start.y, m2 = vx * vx + vy * vy;
  ASSUME(m2 > 1e-34 && m2 < 1e34);
  double wx = (double)p.x - s.start.x, wy = (double)p.y - s.start.y;
  ASSUME(std::fabs(wx * vx) < 1e35 && std::fabs(wy * vy) < 1e35);
  double want = (wx * vx + wy * vy) / m2;
  double tol = 8 * kEps * (std::fabs(wx * vx) + std::fabs(wy * vy)) / m2 + 1e-10;
  // the subtraction of coordinates is itself rounded
  PROP(std::fabs(*r - want) <= tol + 4 * kEps * std::fabs(want), "projection", *r, " expected ", want);
  c.NonTrivial(want > 0 && want < 1);
}

PBT(divide_by_zero, 1, "the whole case") {
  if (!c.Chance(1, 3000)) throw pbt::Discard{};
  Vec v = GenMod(c);
  c.NonTrivial();
  PROP(pbt::Dies([&] { Vec r = v / 0.f; if (r.x == 12345) _exit(1); }), "division-by-zero-is-fatal", v);
}
