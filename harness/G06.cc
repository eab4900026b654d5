// Intersection tests and distances between points, segments, triangles, rectangles and quads.
#include <cmath>
#include <variant>

#include "absl/strings/str_cat.h"
#include "engine/pbt.h"
#include "harness/geo.h"
#include "harness/poly.h"
#include "ink/geometry/distance.h"
#include "ink/geometry/internal/intersects_internal.h"
#include "ink/geometry/intersects.h"

using ink::Point;
using ink::Quad;
using ink::Rect;
using ink::Segment;
using ink::Triangle;
using pbt::Ctx;
using poly::Poly;

namespace {
using Shape = std::variant<Point, Segment, Triangle, Rect, Quad>;
const char* kNames[] = {"point", "segment", "triangle", "rect", "quad"};
constexpr double kEps = 1.1920929e-7;

Poly Of(const Shape& s) { return std::visit([](const auto& v) { return poly::Make(v); }, s); }
std::string Text(const Shape& s) { return std::visit([](const auto& v) { return pbt::Show(v); }, s); }
bool Hit(const Shape& a, const Shape& b) {
  return std::visit([](const auto& x, const auto& y) { return ink::Intersects(x, y); }, a, b);
}
float Dist(const Shape& a, const Shape& b) {
  return std::visit([](const auto& x, const auto& y) { return ink::Distance(x, y); }, a, b);
}
// Lattice shapes: every coordinate is a small multiple of half the unit, so that float arithmetic on them is exact.
struct Lat {
  Ctx& c;
  int r;
  float u;
  std::vector<Point> seen;
  float K() { return (float)c.Signed(-r, r) * u; }
  Point Pt() {
    if (!seen.empty() && c.Chance(1, 5)) return seen[c.Choice(seen.size() - 1)];
    if (seen.size() >= 2 && c.Chance(1, 6)) {  // on the line of two earlier points
      Point a = seen[c.Choice(seen.size() - 1)], b = seen[c.Choice(seen.size() - 1)];
      int k = c.Signed(-2, 3);
      Point p{a.x + k * (b.x - a.x), a.y + k * (b.y - a.y)};
      if (std::fabs(p.x) <= 2 * r * u && std::fabs(p.y) <= 2 * r * u) { seen.push_back(p); return p; }
    }
    Point p{K(), 0};
    p.y = K();
    seen.push_back(p);
    return p;
  }
  Shape Make(int kind) {
    switch (kind) {
      case 0: return Pt();
      case 1: { Point a = Pt(); return Segment{a, Pt()}; }
      case 2: { Point a = Pt(), b = Pt(); return Triangle{a, b, Pt()}; }
      case 3: { Point a = Pt(); return Rect::FromTwoPoints(a, Pt()); }
      default: {
        Point m = Pt();
        float w = 2 * c.Int(0, r / 2) * u, h = 2 * c.Signed(-r / 2, r / 2) * u, s = c.Chance(1, 3) ? 0.f : c.Signed(-3, 3) / 2.f;
        Quad q = Quad::FromCenterDimensionsRotationAndShear(m, w, h, ink::Angle::Radians(0), s);
        for (auto p : poly::Make(q)) seen.push_back({(float)p.x, (float)p.y});
        return q;
      }
    }
  }
};
Point GenPoint(Ctx& c, float mag) { float x = c.UniformF(-mag, mag); return {x, c.UniformF(-mag, mag)}; }
Shape Gen(Ctx& c, int kind, float mag, Point at, float size) {
  auto pt = [&] { Point d = GenPoint(c, size); return Point{at.x + d.x, at.y + d.y}; };
  switch (kind) {
    case 0: return pt();
    case 1: { Point a = pt(); return Segment{a, c.Chance(1, 20) ? a : pt()}; }
    case 2: { Point a = pt(), b = pt(); return Triangle{a, b, c.Chance(1, 20) ? a : pt()}; }
    case 3: { Point a = pt(), b = pt(); if (c.Chance(1, 12)) b.x = a.x; return Rect::FromTwoPoints(a, b); }
    default: {
      Point m = pt();
      float w = c.UniformF(-size, size), h = c.Chance(1, 12) ? 0 : c.UniformF(-size, size);
      return Quad::FromCenterDimensionsRotationAndShear(m, w, h, ink::Angle::Radians(c.Chance(1, 3) ? c.Signed(-8, 8) * 0.78539816f : c.UniformF(-7, 7)), c.Chance(1, 2) ? 0.f : c.UniformF(-2, 2));
    }
  }
}
}  // namespace

PBT(lattice, 8, "the shapes touch without one containing a vertex of the other strictly, or have two vertices each and are close") {
  int r = c.PickOf({4, 8, 8, 20, 250});
  float u = std::ldexp(1.f, c.Chance(1, 2) ? 0 : c.Signed(-14, 14));
  Lat l{c, r, u, {}};
  int i = (int)c.Choice(4), j = (int)c.Choice(4);
  Shape a = l.Make(i), b = l.Make(j);
  Poly pa = Of(a), pb = Of(b);
  c.Note(Text(a), "  ", Text(b));
  bool want = poly::Intersects(pa, pb);
  double dist = poly::Distance(pa, pb);
  double mag = std::max(poly::Extent(pa), poly::Extent(pb));
  bool touch = want && !poly::DeepIntersects(pa, pb, 0.01 * u);
  c.NonTrivial(touch || (!want && dist < 2 * u));
  c.Label("touching", touch);
  c.Label(pbt::Cat(kNames[std::min(i, j)], "-", kNames[std::max(i, j)]));
  std::string tag = pbt::Cat("intersects-", kNames[i], "-", kNames[j]);
  PROP(Hit(a, b) == want, tag, Text(a), " and ", Text(b), " expected ", want);
  PROP(Hit(b, a) == want, tag + "-swapped", Text(a), " and ", Text(b), " expected ", want);
  float d = Dist(a, b);
  std::string dtag = pbt::Cat("distance-", kNames[i], "-", kNames[j]);
  PROP(d >= 0, dtag + "-sign", d);
  PROP(std::fabs(d - dist) <= 4 * kEps * mag + 2 * kEps * dist, dtag, Text(a), " and ", Text(b), " gives ", d, " expected ", dist);
  PROP(Dist(b, a) == d, dtag + "-symmetric", Text(a), " and ", Text(b), d, " ", Dist(b, a));
  if (want && i >= 2 && j >= 2) PROP(d == 0, dtag + "-zero-when-overlapping", d);
}

PBT(general, 5, "the shapes are disjoint but closer than a tenth of their size, or overlap without sharing a centre") {
  float mag = c.PickOf({1.f, 10.f, 1000.f});
  int i = (int)c.Choice(4), j = (int)c.Choice(4);
  Point at = GenPoint(c, mag);
  float size = mag * c.PickOf({1.f, 0.3f, 0.05f}), size2 = mag * c.PickOf({1.f, 0.3f, 0.05f});
  Shape a = Gen(c, i, mag, at, size), b = Gen(c, j, mag, c.Bool() ? at : GenPoint(c, mag), size2);
  Poly pa = Of(a), pb = Of(b);
  c.Note(Text(a), "  ", Text(b));
  double m = std::max(poly::Extent(pa), poly::Extent(pb)), tol = 3e-5 * m;
  double dist = poly::Distance(pa, pb);
  bool apart = dist > tol, deep = poly::DeepIntersects(pa, pb, tol);
  c.NonTrivial((apart && dist < 0.1 * m) || deep);
  c.Label("apart", apart);
  c.Label("deep", deep);
  std::string tag = pbt::Cat("general-intersects-", kNames[i], "-", kNames[j]);
  bool h = Hit(a, b);
  if (apart) PROP(!h, tag, Text(a), " and ", Text(b), " are ", dist, " apart");
  if (deep) PROP(h, tag, Text(a), " and ", Text(b), " overlap");
  if (apart || deep) PROP(Hit(b, a) == h, tag + "-swapped", Text(a), Text(b));
  float d = Dist(a, b);
  PROP(d >= 0 && std::fabs(d - dist) <= (apart || deep ? 0.3 : 2) * tol, pbt::Cat("general-distance-", kNames[i], "-", kNames[j]), Text(a), " and ", Text(b), " gives ", d, " expected ", dist);
  PROP(std::fabs(Dist(b, a) - d) <= (apart || deep ? 0.1 : 2) * tol, "general-distance-symmetric", Text(a), Text(b), d);
}

PBT(point_pairs, 1, "the points differ") {
  Point a{c.AnyFinite(), c.AnyFinite()}, b = c.Chance(1, 4) ? a : Point{c.Near(a.x), c.Near(a.y)};
  if (c.Chance(1, 3)) b = {c.Moderate(), c.Moderate()};
  c.Note(a, b);
  bool same = a.x == b.x && a.y == b.y;
  c.NonTrivial(!same);
  PROP(ink::Intersects(a, b) == same, "intersects-points", a, b);
  float d = ink::Distance(a, b);
  double w = std::hypot((double)a.x - b.x, (double)a.y - b.y);
  if (w < 3e38 && std::fabs((double)a.x - b.x) < 3.4e38 && std::fabs((double)a.y - b.y) < 3.4e38) PROP(pbt::NearRel(d, w, 4e-7, 1e-44), "distance-points", a, b, d);
  double far = std::max({std::fabs(a.x), std::fabs(a.y), std::fabs(b.x), std::fabs(b.y)});
  if (far < 1e18) PROP(ink::Intersects(Segment{a, b}, a) && ink::Intersects(b, Segment{a, b}), "segment-contains-its-ends", a, b);
}

PBT(triangle, 4, "the triangle has an area and the point is within two units of its boundary") {
  int r = c.PickOf({4, 10, 200});
  float u = std::ldexp(1.f, c.Chance(1, 2) ? 0 : c.Signed(-14, 14));
  Lat l{c, r, u, {}};
  Triangle t = std::get<Triangle>(l.Make(2));
  Point p = l.Pt();
  Poly g = poly::Make(t);
  c.Note(t, p);
  double area = poly::Area(g);
  PROP((double)t.SignedArea() == area, "signed-area", t, t.SignedArea(), " expected ", area);
  Triangle rev{t.p0, t.p2, t.p1};
  PROP(rev.SignedArea() == -t.SignedArea(), "signed-area-reversed", t);
  bool in = poly::Contains(g, {p.x, p.y});
  c.NonTrivial(area != 0 && poly::Distance(Poly{g[0], g[1]}, {{p.x, p.y}}) < 2 * u);
  c.Label("degenerate", area == 0);
  c.Label("inside", in);
  PROP(t.Contains(p) == in, "triangle-contains", t, p, " expected ", in);
  PROP(t.Contains(t.p0) && t.Contains(t.p1) && t.Contains(t.p2), "contains-corners", t);
  Point pts[] = {t.p0, t.p1, t.p2};
  for (int i = 0; i < 3; ++i) {
    Segment s = t.GetEdge(i);
    PROP(s.start == pts[i] && s.end == pts[(i + 1) % 3], "triangle-edge", i, s);
  }
  Triangle o = t;
  int w = (int)c.Choice(6);
  Point* f[] = {&o.p0, &o.p1, &o.p2};
  if (w < 6) (w % 2 ? f[w / 2]->x : f[w / 2]->y) += u;
  PROP((o == t) == (w >= 6) && (o != t) == (w < 6), "triangle-equality", w);
  if (c.Chance(1, 100)) PROP(absl::StrCat(t) == absl::StrCat("{p0 = ", t.p0, ", p1 = ", t.p1, ", p2 = ", t.p2, "}"), "triangle-text", absl::StrCat(t));
}

// A shape that starts on the border of another and reaches well inside it meets it, however the start is rounded.
PBT(from_border, 3, "the shape reaches inside by much more than a rounding error") {
  float mag = c.PickOf({1.f, 10.f, 1000.f});
  Point at = GenPoint(c, mag);
  Shape b = Gen(c, 2 + (int)c.Choice(2), mag, at, mag * c.PickOf({1.f, 0.3f}));
  Poly pb = Of(b);
  double m = poly::Extent(pb), tol = 3e-5 * m;
  float k = c.Chance(1, 6) ? (float)c.Choice(1) : c.UniformF(0, 1);
  int e = (int)c.Choice(pb.size() - 1);
  Point edge = std::visit([&](const auto& s) -> Point {
    if constexpr (requires { s.GetEdge(0); }) return s.GetEdge(e).Lerp(k);
    else pbt::Fail("setup", "shape");
  }, b);
  double w[4], total = 0;
  for (size_t i = 0; i < pb.size(); ++i) total += w[i] = 0.02 + c.Unit();
  Point in{0, 0};
  for (size_t i = 0; i < pb.size(); ++i) in.x += w[i] / total * pb[i].x, in.y += w[i] / total * pb[i].y;
  if (!poly::DeepIntersects(pb, poly::Make(in), tol)) throw pbt::Discard{};
  c.NonTrivial();
  Shape a;
  int kind = (int)c.Choice(3);
  Point third = kind == 2 ? edge : Point{in.x + (in.x - edge.x) * c.UniformF(-2, 2), in.y + c.UniformF(-1, 1) * mag};
  if (kind == 0) a = c.Bool() ? Segment{edge, in} : Segment{in, edge};
  else {
    Point p[3] = {edge, in, third};
    int r = (int)c.Choice(2);
    a = Triangle{p[r], p[(r + 1) % 3], p[(r + 2) % 3]};
  }
  c.Note(Text(a), "  ", Text(b));
  PROP(Hit(a, b) && Hit(b, a), pbt::Cat("reaches-inside-", kNames[b.index()]), Text(a), " and ", Text(b));
}

// Shapes on (nearly) one line, apart along it.
PBT(along_a_line, 2, "the gap is much more than a rounding error") {
  float mag = c.PickOf({1.f, 10.f, 1000.f});
  Point p = GenPoint(c, mag), q = GenPoint(c, mag);
  Segment s{p, q};
  auto on = [&](float lo, float hi) { return s.Lerp(c.UniformF(lo, hi)); };
  auto shape = [&](float lo, float hi) -> Shape {
    Point a = on(lo, hi), b = on(lo, hi), d = c.Chance(1, 3) ? b : on(lo, hi);
    switch (c.Choice(2)) {
      case 0: return a;
      case 1: return Segment{a, b};
      default: { Point t[3] = {a, b, d}; int r = (int)c.Choice(2); return Triangle{t[r], t[(r + 1) % 3], t[(r + 2) % 3]}; }
    }
  };
  Shape a = shape(0, 1), b = c.Bool() ? shape(1.1f, 3) : shape(-3, -0.1f);
  double len = std::hypot((double)p.x - q.x, (double)p.y - q.y), m = std::max(poly::Extent(Of(a)), poly::Extent(Of(b)));
  if (0.1 * len < 1e-3 * m) throw pbt::Discard{};
  c.NonTrivial();
  c.Note(Text(a), "  ", Text(b));
  std::string tag = pbt::Cat("apart-on-a-line-", kNames[a.index()], "-", kNames[b.index()]);
  PROP(!Hit(a, b) && !Hit(b, a), tag, Text(a), " and ", Text(b));
  PROP(Dist(a, b) > 0.05 * len, tag + "-distance", Text(a), " and ", Text(b), Dist(a, b));
}
