// Affine transforms: factories, composition, inverse, application and fitting against matrix algebra in double precision.
#include <array>
#include <cmath>
#include <optional>

#include "absl/strings/str_cat.h"
#include "engine/pbt.h"
#include "harness/geo.h"
#include "harness/poly.h"
#include "ink/geometry/affine_transform.h"

using ink::AffineTransform;
using ink::Angle;
using ink::Point;
using ink::Quad;
using ink::Rect;
using ink::Segment;
using ink::Triangle;
using ink::Vec;
using pbt::Ctx;

namespace {
constexpr double kEps = 1.1920929e-7;
struct M { double a, b, c, d, e, f; };
M Of(const AffineTransform& t) { return {t.A(), t.B(), t.C(), t.D(), t.E(), t.F()}; }
M Mul(const M& l, const M& r) { return {l.a * r.a + l.b * r.d, l.a * r.b + l.b * r.e, l.a * r.c + l.b * r.f + l.c, l.d * r.a + l.e * r.d, l.d * r.b + l.e * r.e, l.d * r.c + l.e * r.f + l.f}; }
M Abs(const M& m) { return {std::fabs(m.a), std::fabs(m.b), std::fabs(m.c), std::fabs(m.d), std::fabs(m.e), std::fabs(m.f)}; }
void Same(const char* tag, const AffineTransform& g, const M& w, const M& tol) {
  M h = Of(g);
  auto ok = [](double x, double y, double t) { return std::fabs(x - y) <= t + 1e-37; };
  PROP(ok(h.a, w.a, tol.a) && ok(h.b, w.b, tol.b) && ok(h.c, w.c, tol.c) && ok(h.d, w.d, tol.d) && ok(h.e, w.e, tol.e) && ok(h.f, w.f, tol.f), tag, g, " expected ", w.a, " ", w.b, " ", w.c, " ", w.d, " ", w.e, " ", w.f);
}
M Tol(double k, const M& m) { M a = Abs(m); return {k * a.a, k * a.b, k * a.c, k * a.d, k * a.e, k * a.f}; }
float Coef(Ctx& c) { return c.Moderate(c.Bool() ? 4 : 100); }
AffineTransform Gen(Ctx& c) {
  switch (c.Choice(6)) {
    case 0: return {};
    case 1: return AffineTransform::Translate({Coef(c), Coef(c)});
    case 2: return AffineTransform::Scale(Coef(c), Coef(c));
    case 3: return AffineTransform::RotateAboutPoint(Angle::Radians(c.Moderate(7)), {Coef(c), Coef(c)});
    case 4: return AffineTransform(1, Coef(c), Coef(c), Coef(c), 1, Coef(c));
    default: { float v[6]; for (float& x : v) x = Coef(c); return AffineTransform(v[0], v[1], v[2], v[3], v[4], v[5]); }
  }
}
// 2-norm condition number bound of the linear part
double Cond(const M& m) {
  double det = m.a * m.e - m.b * m.d, n = m.a * m.a + m.b * m.b + m.d * m.d + m.e * m.e;
  return det == 0 ? INFINITY : n / std::fabs(det);
}
Point Pt(Ctx& c) { float x = c.Moderate(); return {x, c.Moderate()}; }
}  // namespace

PBT(factories, 3, "every argument is neither 0 nor 1") {
  float a = c.Chance(1, 8) ? c.AnyFinite() : c.Moderate(), b = c.Chance(1, 8) ? c.AnyFinite() : c.Moderate();
  Point p = Pt(c);
  float ang = c.Moderate(10);
  c.Note("arguments ", a, " ", b, " ", ang, " ", p);
  c.NonTrivial(a != 0 && b != 0 && a != 1 && b != 1 && p.x != 0 && p.y != 0 && ang != 0);
  M z{};
  Same("identity", AffineTransform::Identity(), {1, 0, 0, 0, 1, 0}, z);
  Same("default", AffineTransform(), {1, 0, 0, 0, 1, 0}, z);
  Same("coefficients", AffineTransform(a, b, p.x, ang, p.y, 7), {a, b, p.x, ang, p.y, 7}, z);
  Same("translate", AffineTransform::Translate({a, b}), {1, 0, a, 0, 1, b}, z);
  Same("scale", AffineTransform::Scale(a), {a, 0, 0, 0, a, 0}, z);
  Same("scale-two", AffineTransform::Scale(a, b), {a, 0, 0, 0, b, 0}, z);
  Same("scale-x", AffineTransform::ScaleX(a), {a, 0, 0, 0, 1, 0}, z);
  Same("scale-y", AffineTransform::ScaleY(a), {1, 0, 0, 0, a, 0}, z);
  Same("shear-x", AffineTransform::ShearX(a), {1, a, 0, 0, 1, 0}, z);
  Same("shear-y", AffineTransform::ShearY(a), {1, 0, 0, a, 1, 0}, z);
  double cs = std::cos((double)ang), sn = std::sin((double)ang);
  Same("rotate", AffineTransform::Rotate(Angle::Radians(ang)), {cs, -sn, 0, sn, cs, 0}, {4e-7, 4e-7, 0, 4e-7, 4e-7, 0});
  double pm = std::fabs(p.x) + std::fabs(p.y);
  Same("rotate-about-point", AffineTransform::RotateAboutPoint(Angle::Radians(ang), p), {cs, -sn, p.x - p.x * cs + p.y * sn, sn, cs, p.y - p.x * sn - p.y * cs}, {4e-7, 4e-7, 1e-6 * pm, 4e-7, 4e-7, 1e-6 * pm});
  if (std::fabs(a) < 1e30 && std::fabs(b) < 1e30) {
    double ta = 4 * kEps * std::fabs(p.x) * (1 + std::fabs((double)a)), tb = 4 * kEps * std::fabs(p.y) * (1 + std::fabs((double)b)), tc = 4 * kEps * std::fabs(p.y) * (1 + std::fabs((double)a));
    Same("scale-about-point", AffineTransform::ScaleAboutPoint(a, p), {a, 0, p.x * (1 - (double)a), 0, a, p.y * (1 - (double)a)}, {0, 0, ta, 0, 0, tc});
    Same("scale-two-about-point", AffineTransform::ScaleAboutPoint(a, b, p), {a, 0, p.x * (1 - (double)a), 0, b, p.y * (1 - (double)b)}, {0, 0, ta, 0, 0, tb});
  }
}

PBT(apply_and_compose, 5, "neither transform is diagonal") {
  AffineTransform s = Gen(c), t = Gen(c);
  Point p = Pt(c), p2 = Pt(c), p3 = Pt(c);
  c.Note(s, t, p);
  M ms = Of(s), mt = Of(t);
  c.NonTrivial((ms.b != 0 || ms.d != 0) && (mt.b != 0 || mt.d != 0));
  auto want = [](const M& m, Point q) { return poly::P{m.a * q.x + m.b * q.y + m.c, m.d * q.x + m.e * q.y + m.f}; };
  auto tol = [](const M& m, Point q) { M k = Abs(m); return 4 * kEps * std::max(k.a * std::fabs(q.x) + k.b * std::fabs(q.y) + k.c, k.d * std::fabs(q.x) + k.e * std::fabs(q.y) + k.f) + 1e-37; };
  auto near = [&](Point g, Point q, const char* tag) {
    auto w = want(ms, q);
    double e = tol(ms, q);
    PROP(std::fabs(g.x - w.x) <= e && std::fabs(g.y - w.y) <= e, tag, s, q, g, " expected ", w.x, " ", w.y);
  };
  near(s.Apply(p), p, "apply-point");
  Segment g = s.Apply(Segment{p, p2});
  near(g.start, p, "apply-segment-start");
  near(g.end, p2, "apply-segment-end");
  Triangle r = s.Apply(Triangle{p, p2, p3});
  near(r.p0, p, "apply-triangle-0");
  near(r.p1, p2, "apply-triangle-1");
  near(r.p2, p3, "apply-triangle-2");
  Same("product", s * t, Mul(ms, mt), Tol(4 * kEps, Mul(Abs(ms), Abs(mt))));
  if (c.Chance(1, 60)) PROP(absl::StrCat(s) == absl::StrCat("AffineTransform(", s.A(), ", ", s.B(), ", ", s.C(), ", ", s.D(), ", ", s.E(), ", ", s.F(), ")"), "text", absl::StrCat(s));
}

PBT(inverse, 4, "invertible and not diagonal") {
  AffineTransform t = Gen(c);
  bool lattice = c.Bool();
  if (lattice) {
    float v[6];
    for (float& x : v) x = (float)c.Signed(-16, 16);
    if (c.Chance(1, 3)) { float k = (float)c.Signed(-3, 3); v[3] = v[0] * k; v[4] = v[1] * k; }  // singular
    t = AffineTransform(v[0], v[1], v[2], v[3], v[4], v[5]);
  }
  c.Note(t);
  M m = Of(t);
  double det = m.a * m.e - m.b * m.d, sum = std::fabs(m.a * m.e) + std::fabs(m.b * m.d);
  std::optional<AffineTransform> i = t.Inverse();
  c.Label("singular", det == 0);
  if (lattice) PROP(i.has_value() == (det != 0), "inverse-exists-exactly-when-not-singular", t);
  if (std::fabs(det) < 1e-4 * sum || sum < 1e-30) {
    if (sum == 0) PROP(!i.has_value(), "no-inverse-of-zero", t);
    return;
  }
  PROP(i.has_value(), "inverse-exists", t, det);
  c.NonTrivial(m.b != 0 || m.d != 0);
  double k = 8 * kEps * sum / std::fabs(det);
  double cf = (std::fabs(m.b * m.f) + std::fabs(m.c * m.e)) / std::fabs(det), ff = (std::fabs(m.c * m.d) + std::fabs(m.a * m.f)) / std::fabs(det);
  Same("inverse", *i, {m.e / det, -m.b / det, (m.b * m.f - m.c * m.e) / det, -m.d / det, m.a / det, (m.c * m.d - m.a * m.f) / det},
       {k * std::fabs(m.e / det), k * std::fabs(m.b / det), k * cf, k * std::fabs(m.d / det), k * std::fabs(m.a / det), k * ff});
}

PBT(apply_quad, 6, "the transform is not diagonal and the quad has an area") {
  AffineTransform t = Gen(c);
  if (c.Chance(1, 5)) {  // exactly singular
    float a = (float)c.Signed(-4, 4), b = (float)c.Signed(-4, 4), k = (float)c.Signed(-3, 3);
    t = AffineTransform(a, b, c.Moderate(), k * a, k * b, c.Moderate());
    if (c.Chance(1, 4)) t = AffineTransform(0, 0, 1, a, b, 2);
  }
  M m = Of(t);
  bool singular = m.a * m.e == m.b * m.d;
  if (!singular && Cond(m) > 200) throw pbt::Discard{};
  bool rect = c.Chance(1, 3);
  Quad q;
  Quad got;
  Point p = Pt(c);
  float w = c.Chance(1, 8) ? 0.f : c.Moderate(), h = c.Chance(1, 8) ? 0.f : c.Moderate();
  if (rect) {
    Rect r = Rect::FromCenterAndDimensions(p, std::fabs(w), std::fabs(h));
    q = Quad::FromRect(r);
    got = t.Apply(r);
    c.Note(t, r, got);
  } else {
    float ang = c.Chance(1, 3) ? 0.f : c.UniformF(-7, 7), s = c.Chance(1, 3) ? 0.f : c.UniformF(-3, 3);
    if (singular) { ang = 0; s = c.Signed(-4, 4) / 2.f; }
    q = Quad::FromCenterDimensionsRotationAndShear(p, w, h, Angle::Radians(ang), s);
    got = t.Apply(q);
    c.Note(t, q, got);
  }
  poly::Poly in = poly::Make(q), out = poly::Make(got);
  double mag = 0;
  M k = Abs(m);
  for (auto& v : in) {
    mag = std::max({mag, k.a * std::fabs(v.x) + k.b * std::fabs(v.y) + k.c, k.d * std::fabs(v.x) + k.e * std::fabs(v.y) + k.f});
    v = {m.a * v.x + m.b * v.y + m.c, m.d * v.x + m.e * v.y + m.f};
  }
  c.NonTrivial((m.b != 0 || m.d != 0) && q.Width() != 0 && q.Height() != 0);
  c.Label("singular", singular);
  c.Label("flips", m.a * m.e - m.b * m.d < 0);
  double tol = 4e-6 * mag * (singular ? 1 : 1 + Cond(m)) + 1e-36;
  if (singular) {
    // the image is a segment: compare the two point sets by their extreme points
    double d = 0;
    auto far = [](const poly::Poly& a, const poly::Poly& b) { double r = 0; for (auto& x : a) { double e = INFINITY; for (auto& y : b) e = std::min(e, poly::Dist(x, y)); r = std::max(r, e); } return r; };
    auto ends = [](const poly::Poly& a) { poly::Poly r{a[0], a[0]}; for (auto& x : a) for (auto& y : a) if (poly::Dist(x, y) > poly::Dist(r[0], r[1])) r = {x, y}; return r; };
    d = std::max(far(ends(in), ends(out)), far(ends(out), ends(in)));
    PROP(d <= tol, "apply-quad-collapsed", t, q, got, " end points differ by ", d);
  } else {
    for (int i = 0; i < 4; ++i) PROP(poly::Dist(in[i], out[i]) <= tol, rect ? "apply-rect" : "apply-quad", t, q, got, " corner ", i, " is off by ", poly::Dist(in[i], out[i]));
  }
  if ((q.Width() == 0 || q.Height() == 0) && !singular) PROP((got.Width() == 0) == (q.Width() == 0) && (got.Height() == 0) == (q.Height() == 0), "apply-keeps-degenerate", t, q, got);
}

PBT(find_segment, 3, "both segments have a length") {
  Segment a{Pt(c), {}}, b{Pt(c), {}};
  a.end = c.Chance(1, 8) ? a.start : Pt(c);
  b.end = c.Chance(1, 8) ? b.start : Pt(c);
  c.Note(a, b);
  double la = poly::Dist(poly::Of(a.start), poly::Of(a.end)), lb = poly::Dist(poly::Of(b.start), poly::Of(b.end));
  auto t = AffineTransform::Find(a, b);
  bool want = a.start == a.end ? b.start == b.end : true;
  if (la > 0 && la < 1e-30) throw pbt::Discard{};
  PROP(t.has_value() == want, "find-segment-exists", a, b);
  if (!want) return;
  c.NonTrivial(la > 0 && lb > 0);
  PROP(t->A() == t->E() && t->B() == -t->D(), "find-segment-isotropic", *t);
  double scale = la > 0 ? lb / la : 1;
  double mag = poly::Extent(poly::Make(a)) * scale + poly::Extent(poly::Make(b));
  Segment g = t->Apply(a);
  // the rotation comes from an arc cosine, which keeps only about half of the digits near a straight angle
  double tol = mag * 4e-6 + 1e-37, rtol = lb * 1.2e-3;
  double spread = poly::Extent(poly::Make(a)) * scale * 1.2e-3;
  (void)spread;
  PROP(poly::Dist(poly::Of(g.start), poly::Of(b.start)) <= tol, "find-segment-start", a, b, g);
  PROP(poly::Dist(poly::Of(g.end), poly::Of(b.end)) <= tol + rtol, "find-segment-end", a, b, g);
}

PBT(find_shapes, 4, "a transform is found") {
  int kind = (int)c.Choice(2);
  std::optional<AffineTransform> t;
  poly::Poly from, to;
  auto lat = [&] { return Point{(float)c.Signed(-30, 30), (float)c.Signed(-30, 30)}; };
  bool exact = false;
  if (kind == 0) {
    bool l = c.Bool();
    Triangle a = l ? Triangle{lat(), lat(), lat()} : Triangle{Pt(c), Pt(c), Pt(c)}, b{Pt(c), Pt(c), Pt(c)};
    if (c.Chance(1, 8)) a.p2 = a.p0 + 2.f * (a.p1 - a.p0);
    c.Note(a, b);
    t = AffineTransform::Find(a, b);
    from = poly::Make(a); to = poly::Make(b);
    exact = l;
  } else if (kind == 1) {
    Rect a = Rect::FromTwoPoints(lat(), lat()), b = Rect::FromTwoPoints(Pt(c), Pt(c));
    c.Note(a, b);
    t = AffineTransform::Find(a, b);
    from = poly::Make(a); to = poly::Make(b);
    exact = true;
  } else {
    auto gen = [&] { Point p = Pt(c); return Quad::FromCenterDimensionsRotationAndShear(p, c.Chance(1, 8) ? 0.f : c.Moderate(), c.Chance(1, 8) ? 0.f : c.Moderate(), Angle::Radians(c.Bool() ? 0.f : c.UniformF(-7, 7)), c.Bool() ? 0.f : c.UniformF(-2, 2)); };
    Quad a = gen(), b = gen();
    c.Note(a, b);
    t = AffineTransform::Find(a, b);
    from = poly::Make(a); to = poly::Make(b);
  }
  double area = std::fabs(poly::Area(kind == 0 ? from : poly::Poly{from[0], from[1], from[2]})), ma = poly::Extent(from), mb = poly::Extent(to);
  if (exact) PROP(t.has_value() == (area != 0), "find-exists-exactly-when-not-degenerate", area);
  if (area < 1e-3 * ma * ma || ma < 1e-12) return;
  PROP(t.has_value(), "find-exists", area);
  c.NonTrivial();
  double tol = 128 * kEps * ma * ma / area * mb * (ma * ma / area) + 1e-37;
  if (kind == 2) tol *= 4;
  for (size_t i = 0; i < from.size(); ++i) {
    poly::P p = from[i];
    poly::P g{t->A() * p.x + t->B() * p.y + t->C(), t->D() * p.x + t->E() * p.y + t->F()};
    PROP(poly::Dist(g, to[i]) <= tol, kind == 0 ? "find-triangle" : kind == 1 ? "find-rect" : "find-quad", *t, " corner ", i, " is off by ", poly::Dist(g, to[i]), " tolerance ", tol);
  }
}
