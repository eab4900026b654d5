// Interpolation, barycentric coordinates, line and segment intersection, envelopes and collapsed segments.
#include <cmath>
#include <optional>
#include <utility>
#include <vector>

#include "engine/pbt.h"
#include "harness/geo.h"
#include "harness/poly.h"
#include "ink/color/color.h"
#include "ink/geometry/internal/algorithms.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/mutable_mesh.h"

using ink::AffineTransform;
using ink::Angle;
using ink::Point;
using ink::Rect;
using ink::Segment;
using ink::Triangle;
using ink::Vec;
using pbt::Ctx;
namespace gi = ink::geometry_internal;

namespace {
constexpr double kEps = 1.1920929e-7;
constexpr double kPi = 3.14159265358979323846;
constexpr float kTurnF = 6.2831853072f;
Point Pt(Ctx& c) { float x = c.Moderate(); return {x, c.Moderate()}; }
Point Lat(Ctx& c, int r, float u) { float x = (float)c.Signed(-r, r) * u; return {x, (float)c.Signed(-r, r) * u}; }
float GenT(Ctx& c) { return c.Chance(1, 4) ? c.PickOf({0.f, 1.f, 0.5f}) : c.Chance(1, 3) ? c.Moderate(10) : c.UniformF(0, 1); }
}  // namespace

PBT(lerp, 4, "the ends differ and the ratio is neither 0 nor 1") {
  float t = GenT(c);
  float a = c.Moderate(), b = c.Chance(1, 6) ? a : c.Moderate();
  Point p = Pt(c), q = Pt(c);
  c.Note("a ", a, " b ", b, " t ", t, p, q);
  c.NonTrivial(a != b && t != 0 && t != 1);
  auto near = [&](double g, double x, double y, const char* tag) {
    double w = x + (y - x) * t, tol = 6 * kEps * (std::fabs(x) + std::fabs(y)) * (1 + std::fabs((double)t)) + 1e-37;
    PROP(std::fabs(g - w) <= tol, tag, g, " expected ", w);
  };
  near(gi::Lerp(a, b, t), a, b, "lerp-float");
  if (a == b) PROP(gi::Lerp(a, b, t) == a, "lerp-equal-ends", a, t);
  PROP(gi::Lerp(a, b, 0.f) == a, "lerp-at-zero", a, b);
  Point lp = gi::Lerp(p, q, t);
  near(lp.x, p.x, q.x, "lerp-point-x");
  near(lp.y, p.y, q.y, "lerp-point-y");
  Vec lv = gi::Lerp(p.Offset(), q.Offset(), t);
  near(lv.x, p.x, q.x, "lerp-vec-x");
  near(lv.y, p.y, q.y, "lerp-vec-y");
  near(gi::Lerp(Angle::Radians(a), Angle::Radians(b), t).ValueInRadians(), a, b, "lerp-angle");
  ink::Color::RgbaFloat x{a, b, p.x, p.y}, y{q.x, q.y, b, a}, r = gi::Lerp(x, y, t);
  near(r.r, x.r, y.r, "lerp-red");
  near(r.g, x.g, y.g, "lerp-green");
  near(r.b, x.b, y.b, "lerp-blue");
  near(r.a, x.a, y.a, "lerp-alpha");
}

PBT(normalized_angle_lerp, 4, "the ends are on opposite sides of the start of the turn") {
  float a = c.Bool() ? c.UniformF(0, kTurnF) : c.Moderate(20), b = c.Bool() ? c.UniformF(0, kTurnF) : c.Moderate(20), t = GenT(c);
  c.Note("a ", a, " b ", b, " t ", t);
  float r = gi::NormalizedAngleLerp(Angle::Radians(a), Angle::Radians(b), t).ValueInRadians();
  double d = std::remainder((double)b - a, 2 * kPi);
  c.NonTrivial(std::fabs((double)b - a) > kPi);
  PROP(r >= 0 && r < kTurnF, "angle-lerp-range", a, b, t, r);
  if (std::fabs(std::fabs(d) - kPi) < 1e-5) return;  // both ways round are equally short
  double want = a + t * d, tol = 4e-6 * (1 + std::fabs((double)t)) + 1e-6 * (std::fabs(a) + std::fabs(b)) * (1 + std::fabs((double)t));
  PROP(std::fabs(std::remainder(r - want, 2 * kPi)) <= tol, "angle-lerp-shorter-way", a, b, t, r, " expected ", want);
}

PBT(inverse_lerp, 4, "the range is not empty and the value is not one of its ends") {
  float a = c.Moderate(), b = c.Chance(1, 8) ? a : c.Moderate(), v = c.Chance(1, 4) ? a : c.Chance(1, 4) ? b : c.Chance(1, 2) ? a + (b - a) * c.UniformF(0, 1) : c.Moderate();
  float lo = c.Moderate(), hi = c.Moderate();
  c.Note("range ", a, " ", b, " value ", v, " onto ", lo, " ", hi);
  float r = gi::InverseLerp(a, b, v), m = gi::LinearMap(v, {a, b}, {lo, hi});
  c.Label("empty-range", a == b);
  if (a == b) {
    PROP(r == 0, "inverse-lerp-of-empty-range", r);
    PROP(m == lo, "linear-map-of-empty-range", m);
    return;
  }
  c.NonTrivial(v != a && v != b);
  double w = ((double)v - a) / ((double)b - a);
  if (std::fabs((double)b - a) < 1e-36 || std::fabs(w) > 1e30) throw pbt::Discard{};
  PROP(pbt::NearRel(r, w, 4 * kEps, 1e-37), "inverse-lerp", r, " expected ", w);
  if (v >= std::min(a, b) && v <= std::max(a, b)) PROP(r >= 0 && r <= 1, "inverse-lerp-between", r);
  if (v == a) PROP(r == 0 && m == lo, "inverse-lerp-at-start", r, m);
  if (v == b) PROP(r == 1, "inverse-lerp-at-end", r);
  double wm = lo + ((double)hi - lo) * w;
  PROP(std::fabs(m - wm) <= 8 * kEps * (std::fabs(lo) + std::fabs(hi)) * (1 + std::fabs(w)) + 1e-37, "linear-map", m, " expected ", wm);
}

PBT(spiral_lerp, 4, "different directions and magnitudes, with a ratio that is neither 0 nor 1") {
  Vec a{c.Moderate(), c.Moderate()}, b{c.Moderate(), c.Moderate()};
  if (c.Chance(1, 6)) b = a * c.Moderate(3);
  if (c.Chance(1, 8)) b = -a;
  float t = GenT(c);
  c.Note(a, b, " t ", t);
  Vec r = gi::SpiralLerp(a, b, t);
  if (t == 0) { PROP(r == a, "spiral-start", r); return; }
  if (t == 1) { PROP(r == b, "spiral-end", r); return; }
  double ma = std::hypot((double)a.x, a.y), mb = std::hypot((double)b.x, b.y), mag = ma * (1 - (double)t) + mb * t;
  double scale = (ma + mb) * (1 + std::fabs((double)t));
  PROP(std::fabs(std::hypot((double)r.x, r.y) - std::fabs(mag)) <= 8 * kEps * scale + 1e-37, "spiral-magnitude", r, " expected ", mag);
  if (ma < 1e-30 || mb < 1e-30) return;
  double cr = (double)a.x * b.y - (double)a.y * b.x, dt = (double)a.x * b.x + (double)a.y * b.y, ang = std::atan2(cr, dt);
  c.NonTrivial(std::fabs(ang) > 1e-3 && std::fabs(ma - mb) > 1e-3 * (ma + mb));
  if (std::fabs(std::fabs(ang) - kPi) < 1e-3) return;  // either way round
  double dir = std::atan2((double)a.y, a.x) + t * ang;
  double atol = 1e-6 * (8 + std::fabs((double)t)) + std::fabs((double)t) * (1e-6 + 6e-7 / std::max(std::fabs(std::sin(ang)), 7e-4));
  PROP(std::hypot(r.x - mag * std::cos(dir), r.y - mag * std::sin(dir)) <= std::fabs(mag) * atol + 8 * kEps * scale + 1e-37, "spiral-direction", r, " expected direction ", dir, " magnitude ", mag);
}

PBT(barycentric, 4, "the triangle has an area") {
  bool lattice = c.Bool();
  Triangle t = lattice ? Triangle{Lat(c, 100, 1), Lat(c, 100, 1), Lat(c, 100, 1)} : Triangle{Pt(c), Pt(c), Pt(c)};
  if (c.Chance(1, 8)) t.p2 = t.p0 + (float)c.Signed(-3, 3) * (t.p1 - t.p0);
  Point p = lattice ? Lat(c, 100, 1) : Pt(c);
  if (c.Chance(1, 6)) p = c.PickOf({t.p0, t.p1, t.p2});
  c.Note(t, p);
  auto r = gi::GetBarycentricCoordinates(t, p);
  double area2 = poly::Cross(poly::Of(t.p0), poly::Of(t.p1), poly::Of(t.p2));
  double ext = poly::Extent(poly::Make(t)), pe = std::max(ext, (double)std::max(std::fabs(p.x), std::fabs(p.y)));
  if (lattice) PROP(r.has_value() == (area2 != 0), "barycentric-exists-exactly-with-area", t);
  if (std::fabs(area2) <= 1e-5 * ext * ext || ext < 1e-12) return;
  PROP(r.has_value(), "barycentric-exists", t);
  c.NonTrivial();
  double k = ext * ext / std::fabs(area2);
  double w0 = poly::Cross(poly::Of(p), poly::Of(t.p1), poly::Of(t.p2)) / area2, w1 = poly::Cross(poly::Of(p), poly::Of(t.p2), poly::Of(t.p0)) / area2;
  double tol = 16 * kEps * k * (pe / ext) * (1 + k * pe / ext);
  PROP(std::fabs((*r)[0] - w0) <= tol && std::fabs((*r)[1] - w1) <= tol && std::fabs((*r)[2] - (1 - w0 - w1)) <= 2 * tol, "barycentric", t, p, (*r)[0], " ", (*r)[1], " ", (*r)[2], " expected ", w0, " ", w1);
}

PBT(point_to_line, 3, "the segment has a length and the point is off its line") {
  Segment s{Pt(c), {}};
  s.end = c.Chance(1, 8) ? s.start : Pt(c);
  Point p = Pt(c);
  c.Note(s, p);
  auto r = gi::VectorFromPointToSegmentProjection(p, s);
  double vx = (double)s.end.x - s.start.x, vy = (double)s.end.y - s.start.y, m2 = vx * vx + vy * vy;
  if (s.start == s.end) { PROP(!r.has_value(), "no-projection-on-a-point", s); return; }
  if (m2 < 1e-35) return;
  PROP(r.has_value(), "projection-exists", s);
  double k = poly::Cross(poly::Of(s.start), poly::Of(s.end), poly::Of(p)) / m2;
  double wx = k * vy, wy = -k * vx;
  c.NonTrivial(k != 0);
  double mag = poly::Dist(poly::Of(s.start), poly::Of(p)) + std::sqrt(m2);
  double tol = 16 * kEps * mag + 1e-37;
  if (m2 < 1e-30) return;
  PROP(std::fabs(r->x - wx) <= tol && std::fabs(r->y - wy) <= tol, "vector-to-projection", s, p, *r, " expected ", wx, " ", wy);
}

PBT(segment_intersection_lattice, 8, "they intersect, or lie on the same line") {
  int r = c.PickOf({3, 6, 6, 40, 400});
  float u = std::ldexp(1.f, c.Bool() ? 0 : c.Signed(-10, 10));
  Segment a{Lat(c, r, u), Lat(c, r, u)}, b{Lat(c, r, u), Lat(c, r, u)};
  switch (c.Choice(5)) {
    case 0: b.start = c.Bool() ? a.start : a.end; break;
    case 1: { float k = (float)c.Signed(-2, 3), l = (float)c.Signed(-2, 3); Vec v = a.Vector(); if (r <= 40) b = {a.start + k * v, a.start + l * v}; break; }
    case 2: b = c.Bool() ? a : Segment{a.end, a.start}; break;
    case 3: a.end = a.start; if (c.Bool()) b.end = b.start; break;
    default: break;
  }
  c.Note(a, b);
  poly::P p = poly::Of(a.start), q = poly::Of(a.end), s = poly::Of(b.start), t = poly::Of(b.end);
  bool hit = poly::SegSeg(p, q, s, t);
  auto g = gi::SegmentIntersectionRatio(a, b);
  PROP(g.has_value() == hit, "segments-intersect", a, b, " expected ", hit);
  double ux = q.x - p.x, uy = q.y - p.y, vx = t.x - s.x, vy = t.y - s.y, det = ux * vy - uy * vx;
  bool same_line = det == 0 && poly::Cross(p, q, s) == 0 && poly::Cross(s, t, p) == 0;
  c.NonTrivial(hit || same_line);
  c.Label("overlapping", hit && same_line);
  auto line = gi::UniqueLineIntersectionRatio(a, b);
  PROP(line.has_value() == (det != 0), "lines-intersect-once", a, b);
  double wx = s.x - p.x, wy = s.y - p.y;
  if (det != 0) {
    double ra = (wx * vy - wy * vx) / det, rb = (wx * uy - wy * ux) / det;
    PROP(pbt::NearRel(line->first, ra, 2 * kEps) && pbt::NearRel(line->second, rb, 2 * kEps), "line-ratios", a, b, line->first, " ", line->second, " expected ", ra, " ", rb);
    if (hit) PROP(pbt::NearRel(g->first, ra, 2 * kEps) && pbt::NearRel(g->second, rb, 2 * kEps), "intersection-ratios", a, b, g->first, " ", g->second, " expected ", ra, " ", rb);
  } else if (hit) {
    auto ratio = [](poly::P o, poly::P e, poly::P x) { return poly::Dot(o, e, x) / poly::Dot(o, e, e); };
    double ra = p == q ? 0 : std::max(0.0, std::min(ratio(p, q, s), ratio(p, q, t)));
    double rb = s == t ? 0 : std::max(0.0, std::min(ratio(s, t, p), ratio(s, t, q)));
    PROP(pbt::NearRel(g->first, ra, 2 * kEps) && pbt::NearRel(g->second, rb, 2 * kEps), "overlap-ratios", a, b, g->first, " ", g->second, " expected ", ra, " ", rb);
  }
  auto x = gi::SegmentIntersection(a, b);
  PROP(x.has_value() == hit, "intersection-point-exists", a, b);
  if (hit) {
    double ex = p.x + g->first * ux, ey = p.y + g->first * uy, tol = 8 * kEps * (poly::Extent({p, q}) + 1e-30);
    PROP(std::fabs(x->x - ex) <= tol && std::fabs(x->y - ey) <= tol, "intersection-point", a, b, *x, " expected ", ex, " ", ey);
    PROP(poly::PointSeg(poly::Of(*x), s, t) <= 16 * kEps * poly::Extent({p, q, s, t}), "intersection-on-both", a, b, *x);
  }
}

PBT(segment_intersection_general, 4, "they cross well inside both, or miss each other by less than a tenth of their size") {
  float m = c.PickOf({1.f, 100.f, 1e-4f});
  auto pt = [&] { float x = c.UniformF(-m, m); return Point{x, c.UniformF(-m, m)}; };
  Segment a{pt(), pt()}, b{pt(), pt()};
  c.Note(a, b);
  poly::P p = poly::Of(a.start), q = poly::Of(a.end), s = poly::Of(b.start), t = poly::Of(b.end);
  double tol = 1e-5 * m, d = poly::Distance({p, q}, {s, t});
  bool deep = poly::DeepIntersects({p, q}, {s, t}, tol);
  c.NonTrivial(deep || (d > tol && d < 0.1 * m));
  auto g = gi::SegmentIntersectionRatio(a, b);
  if (d > tol) PROP(!g.has_value(), "apart-do-not-intersect", a, b, d);
  if (deep) {
    PROP(g.has_value(), "crossing-intersect", a, b);
    PROP(g->first >= 0 && g->first <= 1 && g->second >= 0 && g->second <= 1, "ratios-in-range", g->first, g->second);
    double ux = q.x - p.x, uy = q.y - p.y, vx = t.x - s.x, vy = t.y - s.y, det = ux * vy - uy * vx, wx = s.x - p.x, wy = s.y - p.y;
    double k = m * m / std::fabs(det);
    double et = 64 * kEps * k * (1 + k);
    PROP(std::fabs(g->first - (wx * vy - wy * vx) / det) <= et && std::fabs(g->second - (wx * uy - wy * ux) / det) <= et, "crossing-ratios", a, b, g->first, " ", g->second);
  }
}

PBT(mesh_envelope_and_collapse, 2, "the transform is singular, not zero, and the mesh has triangles") {
  // An unpacked mesh keeps its coordinates, so the oracle sees what the code sees.
  int n = c.Int(3, 9), nt = c.Int(1, 6);
  std::vector<float> x, y;
  ink::MutableMesh mm;
  for (int i = 0; i < n; ++i) {
    Point p = Lat(c, 40, 0.5f);
    x.push_back(p.x);
    y.push_back(p.y);
    mm.AppendVertex(p);
  }
  auto env = gi::CalculateEnvelope(mm);
  PROP(env.AsRect().has_value(), "mesh-envelope-exists");
  Rect e = *env.AsRect();
  PROP(e.XMin() == *std::min_element(x.begin(), x.end()) && e.XMax() == *std::max_element(x.begin(), x.end()) && e.YMin() == *std::min_element(y.begin(), y.end()) && e.YMax() == *std::max_element(y.begin(), y.end()), "mesh-envelope", e);
  PROP(gi::CalculateEnvelope(ink::MutableMesh()).IsEmpty(), "empty-mesh-envelope");
  std::vector<uint32_t> idx;
  std::set<uint32_t> used;
  for (int i = 0; i < nt; ++i) {
    uint32_t a = c.Int(0, n - 1), b = (a + c.Int(1, n - 1)) % n, d;
    do { d = c.Int(0, n - 1); if (d == a || d == b) d = (std::max(a, b) + 1) % n; if (d == a || d == b) d = (d + 1) % n; } while (d == a || d == b);
    for (uint32_t v : {a, b, d}) { idx.push_back(v); used.insert(v); }
  }
  auto mesh = ink::Mesh::Create(ink::MeshFormat(), {x, y}, idx);
  PROP(mesh.ok(), "mesh-created");
  float a = (float)c.Signed(-4, 4), b = (float)c.Signed(-4, 4), k = (float)c.Signed(-3, 3), tx = (float)c.Signed(-9, 9), ty = (float)c.Signed(-9, 9);
  AffineTransform t = c.Chance(1, 4) ? AffineTransform(0, 0, tx, a, b, ty) : AffineTransform(a, b, tx, k * a, k * b, ty);
  Rect bounds = e;
  if (c.Chance(1, 3)) bounds.Offset(c.UniformF(0, 5), c.UniformF(0, 5));
  std::vector<ink::Mesh> ms(1, *mesh);
  if (c.Chance(1, 3)) ms.push_back(*mesh);
  Segment s = gi::CalculateCollapsedSegment(ms, bounds, t);
  c.Note(t, bounds, s);
  // extreme images of the vertices that triangles use
  poly::Poly img;
  for (uint32_t i : used) img.push_back({t.A() * x[i] + t.B() * y[i] + (double)t.C(), t.D() * x[i] + t.E() * y[i] + (double)t.F()});
  poly::P lo = img[0], hi = img[0];
  for (auto& u : img) for (auto& v : img) if (poly::Dist(u, v) > poly::Dist(lo, hi)) lo = u, hi = v;
  c.NonTrivial(!(lo == hi));
  Point d0 = t.Apply(Point{bounds.XMin(), bounds.YMin()}), d1 = t.Apply(Point{bounds.XMax(), bounds.YMax()});
  // the diagonal of the bounds may collapse to a point although the shape does not
  c.Label("diagonal-collapses", d0 == d1 && !(lo == hi));
  double mag = poly::Extent(img) + std::fabs(d0.x) + std::fabs(d0.y) + std::fabs(d1.x) + std::fabs(d1.y);
  double tol = 1e-5 * mag + 1e-6;
  double dd = poly::Dist(poly::Of(d0), poly::Of(d1));
  if (dd > 0 && dd < 1e-2 * poly::Dist(lo, hi)) return;  // extrapolating far from a short diagonal
  auto m = [&](poly::P u, poly::P v) { return std::max(poly::Dist(poly::Of(s.start), u), poly::Dist(poly::Of(s.end), v)); };
  PROP(std::min(m(lo, hi), m(hi, lo)) <= tol, "collapsed-segment", t, bounds, s, " expected ends ", lo.x, " ", lo.y, " and ", hi.x, " ", hi.y);
}
