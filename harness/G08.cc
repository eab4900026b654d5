// Circles (containment, tangents, arcs), the convex hull, and the position predicates the extruder is built on.
#include <cmath>
#include <optional>
#include <vector>

#include "engine/pbt.h"
#include "harness/geo.h"
#include "harness/poly.h"
#include "ink/geometry/angle.h"
#include "ink/geometry/convex_hull.h"
#include "ink/geometry/internal/circle.h"
#include "ink/geometry/internal/legacy_segment_intersection.h"
#include "ink/geometry/internal/legacy_triangle_contains.h"
#include "ink/geometry/internal/legacy_vector_utils.h"

using ink::Angle;
using ink::Point;
using ink::Segment;
using ink::Triangle;
using ink::geometry_internal::Circle;
using ink::geometry_internal::RelativePos;
using pbt::Ctx;
namespace gi = ink::geometry_internal;

namespace ink::geometry_internal {
std::string pbt_show(const Circle& c) { return pbt::Cat("circle(", c.Center().x, ", ", c.Center().y, " r ", c.Radius(), ")"); }
}  // namespace ink::geometry_internal

namespace {
constexpr double kEps = 1.1920929e-7;
constexpr double kPi = 3.14159265358979323846;
Point LatPt(Ctx& c, int r, float u) { float x = (float)c.Signed(-r, r) * u; return {x, (float)c.Signed(-r, r) * u}; }
Circle Gen(Ctx& c, float m) {
  float x = c.UniformF(-m, m), y = c.UniformF(-m, m);
  return Circle({x, y}, c.Chance(1, 10) ? 0.f : c.UniformF(0, m));
}
}  // namespace

PBT(circle_contains, 2, "the circles touch from inside, or neither contains the other") {
  // Exact offsets along Pythagorean directions.
  static const int kTriples[][3] = {{3, 4, 5}, {5, 12, 13}, {8, 15, 17}, {1, 0, 1}, {0, 1, 1}, {7, 24, 25}, {0, 0, 0}};
  const int* t = kTriples[c.Choice(6)];
  int k = c.Int(1, 8), sx = c.Bool() ? -1 : 1, sy = c.Bool() ? -1 : 1;
  bool swap = c.Bool();
  Point o = LatPt(c, 20, 1), p{o.x + sx * k * (swap ? t[1] : t[0]), o.y + sy * k * (swap ? t[0] : t[1])};
  int dist = k * t[2], r2 = c.Int(0, 30), r1 = c.Bool() ? std::max(0, dist + r2 + c.Signed(-1, 1)) : c.Int(0, 60);
  Circle a(o, (float)r1), b(p, (float)r2);
  c.Note(a, b);
  bool ab = dist + r2 <= r1, ba = dist + r1 <= r2;
  c.NonTrivial(dist + r2 == r1 || (!ab && !ba));
  PROP(a.Contains(b) == ab, "contains", a, b, " expected ", ab);
  PROP(b.Contains(a) == ba, "contains", b, a, " expected ", ba);
  auto ta = a.GetTangentAngles(b);
  PROP(ta.has_value() == (std::abs(r1 - r2) < dist), "tangents-exist", a, b);
  PROP(a.Center() == o && a.Radius() == r1, "circle-accessors", a);
  if (c.Chance(1, 2000)) PROP(pbt::Dies([&] { Circle bad(o, -1.f); }), "negative-radius-dies", "");
}

PBT(tangents, 5, "different radii") {
  float m = c.PickOf({1.f, 100.f, 1e-3f, 1e4f});
  Circle a = Gen(c, m), b = Gen(c, m);
  if (c.Chance(1, 8)) b = Circle(a.Center(), b.Radius());
  if (c.Chance(1, 8)) b = Circle(b.Center(), a.Radius());
  c.Note(a, b);
  double dx = (double)b.Center().x - a.Center().x, dy = (double)b.Center().y - a.Center().y, d = std::hypot(dx, dy), dr = (double)a.Radius() - b.Radius();
  double size = d + a.Radius() + b.Radius(), mag = size + 4 * m;
  auto t = a.GetTangentAngles(b);
  if (std::fabs(std::fabs(dr) - d) > 8 * kEps * mag) PROP(t.has_value() == (std::fabs(dr) < d), "tangents-exist", a, b);
  if (d == 0) PROP(!t.has_value(), "no-tangents-of-concentric-circles", a, b);
  if (!t) return;
  c.NonTrivial(dr != 0);
  auto check = [&](Angle g, int side, const char* tag) {
    double v = g.ValueInRadians();
    PROP(v > -kPi - 1e-6 && v <= kPi + 1e-6, "tangent-angle-normalized", a, b, v);
    double nx = std::cos(v), ny = std::sin(v);
    PROP(std::fabs(nx * dx + ny * dy - dr) <= 16 * kEps * mag, tag, a, b, v);
    double cr = dx * ny - dy * nx;  // positive to the left of the direction of travel
    PROP(side * cr >= -16 * kEps * mag, "tangent-side", a, b, v);
  };
  check(t->left, 1, "left-tangent-touches-both");
  check(t->right, -1, "right-tangent-touches-both");
  if (d - std::fabs(dr) > 8 * kEps * mag) {
    Angle g = a.GuaranteedRightTangentAngle(b);
    PROP(std::fabs(std::remainder((double)g.ValueInRadians() - t->right.ValueInRadians(), 2 * kPi)) <= 1e-6, "right-tangent-same", a, b, g.ValueInRadians());
    // the tangents seen from the other circle are the same two lines
    auto s = b.GetTangentAngles(a);
    PROP(s.has_value(), "tangents-symmetric", a, b);
    double k = std::sqrt(std::max(1e-9, (d - std::fabs(dr)) / d)), tol = 64 * kEps * (1 + mag / d) / k;
    PROP(std::fabs(std::remainder((double)s->left.ValueInRadians() - t->right.ValueInRadians(), 2 * kPi)) <= tol, "tangents-symmetric", a, b, s->left.ValueInRadians(), " ", t->right.ValueInRadians());
    PROP(std::fabs(std::remainder((double)s->right.ValueInRadians() - t->left.ValueInRadians(), 2 * kPi)) <= tol, "tangents-symmetric", a, b, s->right.ValueInRadians(), " ", t->left.ValueInRadians());
  }
}

PBT(arcs, 5, "at least two segments, in either direction") {
  float m = c.PickOf({1.f, 100.f, 1e-3f, 1e4f});
  Circle a = Gen(c, m);
  double r = a.Radius();
  float start = c.UniformF(-7, 7), arc;
  switch (c.Choice(3)) {
    case 0: arc = c.UniformF(-7, 7); break;
    case 1: arc = c.PickOf({0.f, 3.14159265f, -3.14159265f, 6.2831853f, -1.5707963f}); break;
    case 2: arc = c.UniformF(-0.1f, 0.1f); break;
    default: arc = c.UniformF(-40, 40);
  }
  double q = c.Chance(1, 8) ? c.Uniform(0.5, 3) : std::pow(10.0, c.Uniform(c.Chance(1, 100) ? -9 : -4, 0.3));
  float h = (float)((r > 0 ? r : 1) * q);
  if (!(h > 0)) throw pbt::Discard{};
  std::vector<Point> line;
  int before = c.Int(0, 2);
  for (int i = 0; i < before; ++i) line.push_back({(float)i, 7});
  c.Note(a, " start ", start, " arc ", arc, " height ", h);
  a.AppendArcToPolyline(Angle::Radians(start), Angle::Radians(arc), h, line);
  for (int i = 0; i < before; ++i) PROP(line[i] == (Point{(float)i, 7}), "existing-points-kept", i);
  int n = (int)line.size() - before - 1;
  c.NonTrivial(n >= 2);
  PROP(n >= 1, "at-least-two-points", n);
  if (r == 0) {
    PROP(n == 1 && line[before] == a.Center() && line[before + 1] == a.Center(), "zero-radius-arc", n);
    return;
  }
  PROP(n <= 32767, "at-most-32768-points", n);
  // height of the chord of one step; what float can represent of 1 - h / r
  auto sagitta = [&](double steps) { return r * (1 - std::cos(std::min(kPi, std::fabs(arc) / steps / 2))); };
  double tol = 2 * kEps * r + 1e-5 * h;
  if (n < 32767 && h < 2 * r) PROP(sagitta(n) <= h + tol, "chord-height-within-maximum", a, arc, " ", h, " steps ", n, " ", sagitta(n));
  if (n > 1 && h < 2 * r) PROP(sagitta(n - 1) > h - tol, "no-more-points-than-needed", a, arc, " ", h, " steps ", n);
  if (h >= 2 * r * (1 + 1e-6)) PROP(n >= std::fabs(arc) / 6.2831853 - 1e-5 && (n == 1 || n - 1 <= std::fabs(arc) / 6.2831853 + 1e-5), "coarse-arc", a, arc, " ", h, " steps ", n);
  double ptol = 4 * kEps * (std::fabs(a.Center().x) + std::fabs(a.Center().y) + r) + r * kEps * (std::fabs(start) + 3 * std::fabs(arc) + 1);
  int every = std::max(1, n / 64);
  for (int i = 0; i <= n; i += (i + every > n && i < n) ? n - i : every) {
    double g = start + (double)arc * i / n, x = a.Center().x + r * std::cos(g), y = a.Center().y + r * std::sin(g);
    Point p = line[before + i];
    PROP(std::fabs(p.x - x) <= ptol && std::fabs(p.y - y) <= ptol, "arc-points-evenly-spaced", a, start, " ", arc, " point ", i, " of ", n, " ", p, " expected ", x, " ", y);
  }
  Point p = a.GetPoint(Angle::Radians(start));
  PROP(line[before] == p, "arc-starts-at-start", p, line[before]);
  if (c.Chance(1, 4000)) PROP(pbt::Dies([&] { a.AppendArcToPolyline(Angle(), Angle::Radians(1), c.Bool() ? 0.f : -1.f, line); }), "chord-height-must-be-positive", "");
}

PBT(chord_angle, 2, "the height is between zero and the diameter") {
  float r = c.Chance(1, 10) ? 0.f : c.UniformF(0, 1) * c.PickOf({1.f, 100.f, 1e-4f});
  float h = c.Chance(1, 6) ? c.Moderate() : r * c.UniformF(-0.5f, 2.5f);
  Circle a({1, 2}, r);
  double g = a.GetArcAngleForChordHeight(h).ValueInRadians();
  c.NonTrivial(h > 0 && h < 2 * r);
  c.Note(r, " ", h, " ", g);
  PROP(g >= 0 && g <= 6.2831855, "chord-angle-range", r, " ", h, " ", g);
  if (r == 0 || h <= 0) { PROP(g == 0, "no-chord-angle", r, " ", h, " ", g); return; }
  double back = r * (1 - std::cos(g / 2));
  PROP(std::fabs(back - std::min<double>(h, 2.0 * r)) <= 2 * kEps * r + 1e-5 * std::min<double>(h, r), "chord-angle-gives-height", r, " ", h, " ", g, " ", back);
  if (h > r * 1.0001f) PROP(g > kPi, "high-chord-over-half-turn", r, " ", h, " ", g);
  if (h < r * 0.9999f) PROP(g < kPi, "low-chord-under-half-turn", r, " ", h, " ", g);
}

namespace {
std::vector<Point> Reference(std::vector<Point> p) {
  auto less = [](Point a, Point b) { return a.y < b.y || (a.y == b.y && a.x < b.x); };
  std::sort(p.begin(), p.end(), less);
  p.erase(std::unique(p.begin(), p.end(), [](Point a, Point b) { return a == b; }), p.end());
  if (p.size() < 3) return p;
  auto half = [&](auto b, auto e) {
    std::vector<Point> h;
    for (auto i = b; i != e; ++i) {
      while (h.size() >= 2 && poly::Cross(poly::Of(h[h.size() - 2]), poly::Of(h.back()), poly::Of(*i)) <= 0) h.pop_back();
      h.push_back(*i);
    }
    return h;
  };
  auto a = half(p.begin(), p.end()), b = half(p.rbegin(), p.rend());
  a.pop_back();
  b.pop_back();
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
}  // namespace

PBT(hull_lattice, 6, "at least four hull points, or points on a line, and some point that is not on the hull") {
  int n = c.Chance(1, 60) ? c.Int(495, 700) : c.Len(0, 40), r = c.PickOf({1, 2, 4, 8, 100, 1000});
  if (n > 400 && c.Bool()) r = 1000;
  float u = c.PickOf({1.f, 1.f, 0.125f, 64.f});
  std::vector<Point> p;
  int shape = c.Choice(5), dx = c.Signed(-3, 3), dy = c.Signed(-3, 3);
  for (int i = 0; i < n; ++i) {
    Point q = LatPt(c, r, u);
    if (shape == 1) { float k = q.x; q = {k * dx, k * dy}; }  // on a line
    if (shape == 2 && c.Bool()) q.x = p.empty() ? q.x : p[0].x;  // many on one vertical
    if (shape == 3 && c.Bool()) q.y = p.empty() ? q.y : p[0].y;
    if (shape == 4 && !p.empty() && c.Bool()) q = p[c.Choice(p.size() - 1)];
    p.push_back(q);
  }
  c.Note(p);
  auto got = ink::ConvexHull(p), want = Reference(p);
  c.NonTrivial((want.size() >= 4 || shape == 1) && want.size() < p.size());
  c.Label("more than 500 points", n > 500);
  PROP(got.size() == want.size(), "hull-vertices", "got ", got, " expected ", want);
  for (size_t i = 0; i < got.size(); ++i) PROP(got[i] == want[i], "hull-vertices", "got ", got, " expected ", want);
}

PBT(hull_general, 2, "at least four hull points") {
  int n = c.Chance(1, 40) ? c.Int(501, 640) : c.Len(3, 40);
  float m = c.PickOf({1.f, 1e3f, 1e-3f});
  bool round = c.Bool();
  std::vector<Point> p;
  for (int i = 0; i < n; ++i) {
    float x = c.UniformF(-m, m), y = c.UniformF(-m, m);
    if (round) { float s = m / std::max(1e-6f * m, std::hypot(x, y)) * c.UniformF(0.99f, 1.f); x *= s; y *= s; }
    p.push_back({x, y});
  }
  c.Note(p);
  auto got = ink::ConvexHull(p);
  c.NonTrivial(got.size() >= 4);
  double tol = 1e-5 * m;
  for (Point q : got) PROP(std::find(p.begin(), p.end(), q) != p.end(), "hull-of-input-points", q);
  size_t k = got.size();
  if (k < 3) return;
  for (size_t i = 0; i < k; ++i) {
    poly::P a = poly::Of(got[i]), b = poly::Of(got[(i + 1) % k]);
    double len = poly::Dist(a, b);
    PROP(len > 0, "hull-points-distinct", got);
    for (Point q : p) PROP(poly::Cross(a, b, poly::Of(q)) >= -tol * len, "hull-contains-input", q, " left of ", got[i], got[(i + 1) % k]);
  }
}

namespace {
RelativePos Side(Point a, Point b, Point p) {
  if (a == b) return RelativePos::kIndeterminate;
  double k = poly::Cross(poly::Of(a), poly::Of(b), poly::Of(p));
  return k > 0 ? RelativePos::kLeft : k < 0 ? RelativePos::kRight : RelativePos::kCollinear;
}
Point OnLine(Ctx& c, Point a, Point b) { float k = (float)c.Signed(-2, 3); return {a.x + k * (b.x - a.x), a.y + k * (b.y - a.y)}; }
}  // namespace

PBT(position_lattice, 3, "the line is not a point and the test point is not one of its ends") {
  int r = c.PickOf({3, 10, 40, 1000});
  float u = std::ldexp(1.f, c.Bool() ? 0 : c.Signed(-12, 8));
  Point a = LatPt(c, r, u), b = LatPt(c, r, u), p = c.Chance(1, 4) ? OnLine(c, a, b) : LatPt(c, r, u);
  c.Note(a, b, p);
  c.NonTrivial(!(a == b) && !(p == a) && !(p == b));
  PROP(gi::PositionRelativeToLine(a, b, p) == Side(a, b, p), "side-of-line", a, b, p, (int)gi::PositionRelativeToLine(a, b, p));
  // a point within rounding of the line is collinear, one a thousand steps away is not
  Point q{(float)(a.x + 0.37 * ((double)b.x - a.x)), (float)(a.y + 0.37 * ((double)b.y - a.y))};
  poly::P pa = poly::Of(a), pb = poly::Of(b);
  double len = poly::Dist(pa, pb), mag = poly::Extent({pa, pb});
  if (len > 0) {
    float f = (float)(1000 * kEps * mag);
    Point off{(float)(q.x - f * (pb.y - pa.y) / len), (float)(q.y + f * (pb.x - pa.x) / len)};
    PROP(gi::PositionRelativeToLine(a, b, off) == RelativePos::kLeft, "side-of-line-nearby", a, b, off);
    PROP(gi::PositionRelativeToLine(b, a, off) == RelativePos::kRight, "side-of-line-nearby", b, a, off);
  }
  for (RelativePos s : {RelativePos::kLeft, RelativePos::kRight, RelativePos::kCollinear, RelativePos::kIndeterminate}) {
    auto want = s == RelativePos::kLeft ? RelativePos::kRight : s == RelativePos::kRight ? RelativePos::kLeft : s;
    PROP(gi::ReverseRelativePosition(s) == want, "reverse-position", (int)s);
  }
}

PBT(triangle_lattice, 3, "the triangle has an area and the point is inside or on an edge") {
  int r = c.PickOf({3, 6, 20, 200});
  float u = std::ldexp(1.f, c.Bool() ? 0 : c.Signed(-12, 8));
  Point a = LatPt(c, r, u), b = LatPt(c, r, u), d = LatPt(c, r, u), p = c.Chance(1, 4) ? OnLine(c, a, b) : LatPt(c, r, u);
  Triangle t{a, b, d};
  ASSUME(t.SignedArea() != 0);
  bool want = poly::Contains({poly::Of(a), poly::Of(b), poly::Of(d)}, poly::Of(p));
  c.Note(t, p);
  c.NonTrivial(want);
  PROP(gi::LegacyTriangleContains(t, p) == want, "triangle-contains", t, p, " expected ", want);
}

PBT(intersection_lattice, 5, "they intersect, or lie on the same line") {
  int r = c.PickOf({3, 6, 6, 40, 400});
  int k = c.Bool() ? 0 : c.Chance(1, 4) ? c.Signed(-68, 60) : c.Signed(-10, 10);
  float u = std::ldexp(1.f, k);
  Segment a{LatPt(c, r, u), LatPt(c, r, u)}, b{LatPt(c, r, u), LatPt(c, r, u)};
  switch (c.Choice(5)) {
    case 0: b.start = c.Bool() ? a.start : a.end; break;
    case 1: if (r <= 40) { Point x = OnLine(c, a.start, a.end); b = {x, OnLine(c, a.start, a.end)}; } break;
    case 2: b = c.Bool() ? a : Segment{a.end, a.start}; break;
    case 3: a.end = a.start; if (c.Bool()) b.end = b.start; break;
    default: break;
  }
  c.Note(a, b);
  poly::P p = poly::Of(a.start), q = poly::Of(a.end), s = poly::Of(b.start), t = poly::Of(b.end);
  bool hit = poly::SegSeg(p, q, s, t), pa = p == q, pb = s == t;
  auto g = gi::LegacyIntersection(a, b);
  PROP(g.has_value() == hit, "segments-intersect", a, b, " expected ", hit);
  PROP(gi::LegacyIntersects(a, b) == hit, "segments-intersect", a, b);
  double ux = q.x - p.x, uy = q.y - p.y, vx = t.x - s.x, vy = t.y - s.y, det = ux * vy - uy * vx;
  bool same_line = !pa && !pb && det == 0 && poly::Cross(p, q, s) == 0;
  c.NonTrivial(hit || same_line);
  c.Label("overlapping", hit && same_line);
  if (!hit) return;
  const auto& i1 = g->segment1_interval;
  const auto& i2 = g->segment2_interval;
  double e = 4 * kEps;
  PROP(i1[0] <= i1[1] && i1[0] >= 0 && i1[1] <= 1, "interval-ordered", a, b, i1[0], " ", i1[1]);
  PROP(i2[0] >= -e && i2[0] <= 1 + e && i2[1] >= -e && i2[1] <= 1 + e, "interval-in-range", a, b, i2[0], " ", i2[1]);
  double lo1, hi1, lo2, hi2;
  auto ratio = [](poly::P o, poly::P x, poly::P y) { return poly::Dot(o, x, y) / poly::Dot(o, x, x); };
  if (pa && pb) { lo1 = lo2 = 0; hi1 = hi2 = 1; }
  else if (pa) { lo1 = hi1 = 0; lo2 = hi2 = ratio(s, t, p); }
  else if (pb) { lo1 = hi1 = ratio(p, q, s); lo2 = hi2 = 0; }
  else if (same_line) {
    double rs = ratio(p, q, s), rt = ratio(p, q, t);
    lo1 = std::max(0.0, std::min(rs, rt));
    hi1 = std::min(1.0, std::max(rs, rt));
    auto at = [&](double v) { return poly::P{p.x + v * ux, p.y + v * uy}; };
    lo2 = ratio(s, t, at(lo1));
    hi2 = ratio(s, t, at(hi1));
  } else {
    double wx = s.x - p.x, wy = s.y - p.y;
    lo1 = hi1 = (wx * vy - wy * vx) / det;
    lo2 = hi2 = (wx * uy - wy * ux) / det;
  }
  // A degenerate segment's parameter is arbitrary.
  if (!pa) PROP(std::fabs(i1[0] - lo1) <= e && std::fabs(i1[1] - hi1) <= e, "first-interval", a, b, i1[0], " ", i1[1], " expected ", lo1, " ", hi1);
  if (!pb) PROP(std::fabs(i2[0] - lo2) <= e && std::fabs(i2[1] - hi2) <= e, "second-interval", a, b, i2[0], " ", i2[1], " expected ", lo2, " ", hi2);
  double tol = 8 * kEps * poly::Extent({p, q, s, t});
  poly::P w0{p.x + lo1 * ux, p.y + lo1 * uy}, w1{p.x + hi1 * ux, p.y + hi1 * uy};
  PROP(poly::Dist(poly::Of(g->intx.start), w0) <= tol && poly::Dist(poly::Of(g->intx.end), w1) <= tol, "common-part", a, b, g->intx);
}

PBT(intersection_general, 3, "they cross well inside both, or miss each other by less than a tenth of their size") {
  float m = c.PickOf({1.f, 100.f, 1e-4f});
  auto pt = [&] { float x = c.UniformF(-m, m); return Point{x, c.UniformF(-m, m)}; };
  Segment a{pt(), pt()}, b{pt(), pt()};
  c.Note(a, b);
  poly::P p = poly::Of(a.start), q = poly::Of(a.end), s = poly::Of(b.start), t = poly::Of(b.end);
  double tol = 1e-5 * m, d = poly::Distance({p, q}, {s, t});
  bool deep = poly::DeepIntersects({p, q}, {s, t}, tol);
  c.NonTrivial(deep || (d > tol && d < 0.1 * m));
  auto g = gi::LegacyIntersection(a, b);
  if (d > tol) PROP(!g.has_value(), "apart-do-not-intersect", a, b, d);
  if (deep) {
    PROP(g.has_value(), "crossing-intersect", a, b);
    double ux = q.x - p.x, uy = q.y - p.y, vx = t.x - s.x, vy = t.y - s.y, det = ux * vy - uy * vx, wx = s.x - p.x, wy = s.y - p.y;
    double k = m * m / std::fabs(det), et = 64 * kEps * k * (1 + k);
    PROP(std::fabs(g->segment1_interval[0] - (wx * vy - wy * vx) / det) <= et && std::fabs(g->segment2_interval[0] - (wx * uy - wy * ux) / det) <= et, "crossing-ratios", a, b, g->segment1_interval[0], " ", g->segment2_interval[0]);
  }
  // containment of a point in a general triangle
  Triangle tri{a.start, a.end, b.start};
  Point x = b.end;
  poly::Poly g3{p, q, s};
  double edge = std::min({poly::PointSeg(t, p, q), poly::PointSeg(t, q, s), poly::PointSeg(t, s, p)});
  if (edge > tol && std::fabs(poly::Area(g3)) > tol * m) PROP(gi::LegacyTriangleContains(tri, x) == poly::Contains(g3, t), "triangle-contains", tri, x);
}
