// Parallelograms: parameters, axes, corners, joining and containment against the published definition.
#include <array>
#include <cmath>
#include <set>

#include "engine/pbt.h"
#include "harness/geo.h"
#include "harness/poly.h"
#include "ink/geometry/quad.h"

using ink::Angle;
using ink::Point;
using ink::Quad;
using ink::Rect;
using ink::Segment;
using ink::Vec;
using pbt::Ctx;

namespace {
constexpr double kTurn = 6.283185307179586476925;
constexpr float kTurnF = 6.2831853072f;
struct Model { double cx, cy, w, h, rot, s; };  // parameters before any normalisation

float GenRot(Ctx& c) {
  switch (c.Choice(3)) {
    case 0: return (float)(c.Signed(-16, 16) * (kTurn / 8));
    case 1: return c.UniformF(-10, 10);
    case 2: return c.Near((float)(c.Signed(-8, 8) * (kTurn / 4)));
    default: return c.Moderate(100);
  }
}
std::array<poly::P, 4> Corners(const Model& m) {
  double cs = std::cos(m.rot), sn = std::sin(m.rot), ux = m.w / 2 * cs, uy = m.w / 2 * sn, vx = m.h / 2 * (m.s * cs - sn), vy = m.h / 2 * (m.s * sn + cs);
  return {{{m.cx - ux - vx, m.cy - uy - vy}, {m.cx + ux - vx, m.cy + uy - vy}, {m.cx + ux + vx, m.cy + uy + vy}, {m.cx - ux + vx, m.cy - uy + vy}}};
}
double Scale(const Model& m) { return std::fabs(m.w) + std::fabs(m.h) * (1 + std::fabs(m.s)) + 1e-37; }
void Check(const Quad& q, const Model& m, const char* where) {
  PROP(q.Width() >= 0, "width-not-negative", where, q);
  float rot = q.Rotation().ValueInRadians();
  PROP(rot >= 0 && rot < kTurnF, "rotation-range", where, q);
  PROP(q.Width() == (float)std::fabs(m.w), "width", where, q, " expected ", std::fabs(m.w));
  PROP(q.Height() == (float)(std::signbit(m.w) && m.w != 0 ? -m.h : m.h), "height", where, q, " expected ", m.h);
  PROP(q.ShearFactor() == (float)m.s, "shear", where, q);
  PROP(q.Center() == (Point{(float)m.cx, (float)m.cy}), "center", where, q);
  double want = m.rot + (m.w < 0 ? kTurn / 2 : 0);
  double d = std::fabs(std::remainder(rot - want, kTurn));
  PROP(d <= 2e-6 + std::fabs(m.rot) * 4e-7, "rotation", where, q, " expected ", want);
  // rotation is kept with an error of a few units in the last place of the given angle
  double tol = Scale(m) * (2e-6 + std::fabs(m.rot) * 4e-7) + (std::fabs(m.cx) + std::fabs(m.cy)) * 4e-7;
  auto k = q.Corners();
  auto w = Corners(m);
  auto [u, v] = q.SemiAxes();
  for (int i = 0; i < 4; ++i) {
    PROP(std::fabs(k[i].x - w[i].x) <= tol && std::fabs(k[i].y - w[i].y) <= tol, "corners", where, " corner ", i, " ", k[i], " expected ", w[i].x, " ", w[i].y, " of ", q);
    Segment e = q.GetEdge(i);
    PROP(e.start == k[i] && e.end == k[(i + 1) % 4], "edges", where, i, e);
  }
  double ux = (w[1].x - w[0].x) / 2, uy = (w[1].y - w[0].y) / 2, vx = (w[3].x - w[0].x) / 2, vy = (w[3].y - w[0].y) / 2;
  // differences of far-away corners cancel
  double atol = tol + (std::fabs(m.cx) + std::fabs(m.cy)) * 1e-12;
  PROP(std::fabs(u.x - ux) <= atol && std::fabs(u.y - uy) <= atol, "first-semi-axis", where, u, q);
  PROP(std::fabs(v.x - vx) <= atol && std::fabs(v.y - vy) <= atol, "second-semi-axis", where, v, q);
  PROP(pbt::NearRel(q.SignedArea(), (double)q.Width() * q.Height(), 2e-7, 1e-44), "signed-area", where, q, q.SignedArea());
  PROP(q.IsRectangular() == (q.ShearFactor() == 0), "is-rectangular", where, q);
  if (q.Height() != 0 && std::fabs((double)q.Width() / q.Height()) < 3e38) PROP(pbt::NearRel(q.AspectRatio(), (double)q.Width() / q.Height(), 2e-7, 1e-44), "aspect-ratio", where, q);
}
Model GenModel(Ctx& c) {
  Model m;
  m.cx = c.Moderate(); m.cy = c.Moderate();
  m.w = c.Chance(1, 10) ? 0.f : c.Moderate(); m.h = c.Chance(1, 10) ? 0.f : c.Moderate();
  m.rot = GenRot(c);
  m.s = c.Chance(1, 3) ? 0.f : c.Moderate(4);
  return m;
}
Quad Build(const Model& m) {
  return Quad::FromCenterDimensionsRotationAndShear({(float)m.cx, (float)m.cy}, (float)m.w, (float)m.h, Angle::Radians((float)m.rot), (float)m.s);
}
}  // namespace

PBT(history, 6, "two or more setters after the axes were read") {
  Model m = GenModel(c);
  Quad q;
  switch (c.Choice(4)) {
    case 0: m = {0, 0, 0, 0, 0, 0}; break;
    case 1: m.rot = 0; m.s = 0; q = Quad::FromCenterAndDimensions({(float)m.cx, (float)m.cy}, (float)m.w, (float)m.h); break;
    case 2: m.s = 0; q = Quad::FromCenterDimensionsAndRotation({(float)m.cx, (float)m.cy}, (float)m.w, (float)m.h, Angle::Radians((float)m.rot)); break;
    case 3: {
      Rect r = Rect::FromTwoPoints({c.Moderate(), c.Moderate()}, {c.Moderate(), c.Moderate()});
      q = Quad::FromRect(r);
      m = {r.Center().x, r.Center().y, r.Width(), r.Height(), 0, 0};
      auto k = q.Corners();
      auto rk = r.Corners();
      double tol = 1e-6 * (std::fabs(r.XMin()) + std::fabs(r.XMax()) + std::fabs(r.YMin()) + std::fabs(r.YMax()));
      for (int i = 0; i < 4; ++i) PROP(std::fabs(k[i].x - rk[i].x) <= tol && std::fabs(k[i].y - rk[i].y) <= tol, "from-rect", r, q);
      break;
    }
    default: q = Build(m);
  }
  c.Note(q);
  if (c.Bool()) Check(q, m, "constructed");
  int n = c.Len(0, 6), sets = 0;
  // after normalisation the model continues from the normalised parameters
  auto norm = [&] { if (m.w < 0) { m.w = -m.w; m.h = -m.h; m.rot = q.Rotation().ValueInRadians(); } };
  norm();
  for (int i = 0; i < n; ++i) {
    Quad old = q;
    Model om = m;
    const char* what = "";
    switch (c.Choice(5)) {
      case 0: m.cx = c.Moderate(); m.cy = c.Moderate(); q.SetCenter({(float)m.cx, (float)m.cy}); what = "SetCenter"; break;
      case 1: m.w = c.Chance(1, 6) ? (float)m.w : c.Chance(1, 6) ? -(float)m.w : c.Moderate(); q.SetWidth((float)m.w); what = "SetWidth"; break;
      case 2: m.h = c.Chance(1, 6) ? -(float)m.h : c.Moderate(); q.SetHeight((float)m.h); what = "SetHeight"; break;
      case 3: m.rot = GenRot(c); q.SetRotation(Angle::Radians((float)m.rot)); what = "SetRotation"; break;
      case 4: m.s = c.Moderate(4); q.SetShearFactor((float)m.s); what = "SetShearFactor"; break;
      default: { Quad t = q; q = t; what = "copy"; }
    }
    ++sets;
    c.Note(what, " -> ", q);
    Check(q, m, what);
    norm();
    Check(old, om, "the copy made before the setter");
  }
  c.NonTrivial(sets >= 2);
}

PBT(equality, 1, "one parameter differs") {
  Model m = GenModel(c), o = m;
  m.w = o.w = std::fabs(m.w);
  Quad a = Build(m);
  int k = (int)c.Choice(6);
  float by = c.PickOf({0.5f, 1.f, -3.f});
  switch (k) {
    case 0: o.cx = (float)(o.cx + by); break;
    case 1: o.cy = (float)(o.cy + by); break;
    case 2: o.w = (float)std::fabs(o.w + by); break;
    case 3: o.h = (float)(o.h + by); break;
    case 4: o.s = (float)(o.s + by); break;
    default: break;
  }
  Quad b = Build(o);
  if (k == 5) b.SetRotation(a.Rotation() + Angle::Radians(0.5f));
  if (c.Bool()) (void)a.SemiAxes();
  bool same = a.Center() == b.Center() && a.Width() == b.Width() && a.Height() == b.Height() && a.Rotation() == b.Rotation() && a.ShearFactor() == b.ShearFactor();
  c.NonTrivial(k < 6);
  c.Note(a, b);
  PROP((a == b) == same && (a != b) == !same, "quad-equality", a, b);
}

PBT(axis_aligned, 2, "no shear and a rotation within ten tolerances of a multiple of a quarter turn") {
  float tol = c.Chance(1, 2) ? 1e-5f : std::fabs(c.Moderate(1));
  ASSUME(tol < 0.7f);
  double base = c.Int(0, 3) * kTurn / 4;
  float rot = c.Chance(1, 4) ? GenRot(c) : (float)(base + c.Uniform(-3, 3) * tol);
  float s = c.Chance(1, 4) ? c.Moderate(1) : 0.f;
  Quad q = Quad::FromCenterDimensionsRotationAndShear({c.Moderate(), 0}, c.Bool() ? 0.f : 3.f, c.Bool() ? 0.f : 2.f, Angle::Radians(rot), s);
  c.Note(q, " tolerance ", tol);
  double off = std::fabs(std::remainder((double)q.Rotation().ValueInRadians(), kTurn / 4));
  c.NonTrivial(s == 0 && off < 10 * tol);
  c.Label("aligned", off < tol);
  if (std::fabs(off - tol) < 3e-6) throw pbt::Discard{};
  bool want = s == 0 && off <= tol;
  if (c.Bool() && tol == 1e-5f) PROP(q.IsAxisAligned() == want, "is-axis-aligned-default", q, off);
  else PROP(q.IsAxisAligned(Angle::Radians(tol)) == want, "is-axis-aligned", q, off, tol);
}

PBT(join, 5, "the point is outside") {
  Model m = GenModel(c);
  m.s = std::clamp(m.s, -4.0, 4.0);
  Quad q = Build(m);
  if (c.Bool()) (void)q.Corners();  // the cached axes must not survive
  Point p{c.Moderate(), c.Moderate()};
  if (c.Chance(1, 3)) {
    float a = c.UniformF(-1.5, 1.5), b = c.UniformF(-1.5, 1.5);
    auto [u, v] = q.SemiAxes();
    p = q.Center() + a * u + b * v;
  }
  c.Note(q, p);
  Quad r = q;
  r.Join(p);
  // coordinates of the point along the unit axes
  double t = q.Rotation().ValueInRadians(), s = q.ShearFactor(), x = (double)p.x - q.Center().x, y = (double)p.y - q.Center().y;
  double b = std::cos(t) * y - std::sin(t) * x, a = std::cos(t) * x + std::sin(t) * y - s * b;
  double w = q.Width(), h = std::fabs(q.Height());
  double nw = std::max(w, w / 2 + std::fabs(a)), nh = std::max(h, h / 2 + std::fabs(b));
  double mag = std::fabs(x) + std::fabs(y) + w + h + std::fabs(q.Center().x) + std::fabs(q.Center().y);
  double tol = (1 + s * s) * mag * 2e-6 + 1e-37;
  bool outside = std::fabs(a) > w / 2 || std::fabs(b) > h / 2;
  c.NonTrivial(outside);
  c.Label("negative-height", q.Height() < 0);
  PROP(r.Rotation() == q.Rotation() && r.ShearFactor() == q.ShearFactor(), "join-keeps-rotation-and-shear", q, p, r);
  PROP(std::fabs(r.Width() - nw) <= tol && std::fabs(std::fabs(r.Height()) - nh) <= tol, "join-size", q, p, r, " expected ", nw, " by ", nh);
  if (q.Height() != 0) PROP((r.Height() < 0) == (q.Height() < 0), "join-keeps-height-sign", q, p, r);
  // the new centre moves by half of the growth towards the point
  double da = (nw - w) / 2 * (a < 0 ? -1 : 1), db = (nh - h) / 2 * (b < 0 ? -1 : 1);
  double ex = q.Center().x + da * std::cos(t) + db * (s * std::cos(t) - std::sin(t)), ey = q.Center().y + da * std::sin(t) + db * (s * std::sin(t) + std::cos(t));
  PROP(std::fabs(r.Center().x - ex) <= tol && std::fabs(r.Center().y - ey) <= tol, "join-center", q, p, r, " expected ", ex, " ", ey);
  // so the old corners and the point are all inside
  Check(r, {r.Center().x, r.Center().y, r.Width(), r.Height(), r.Rotation().ValueInRadians(), r.ShearFactor()}, "after Join");
  Quad big = r;
  big.SetWidth(r.Width() + (float)(8 * tol));
  big.SetHeight(r.Height() + std::copysign((float)(8 * tol), r.Height()));
  PROP(big.Contains(p), "join-contains-point", q, p, r);
  for (Point k : q.Corners()) PROP(big.Contains(k), "join-contains-old-corners", q, k, r);
}

PBT(contains, 4, "the point is close to the boundary, on a clear side of it") {
  Model m = GenModel(c);
  Quad q = Build(m);
  auto [u, v] = q.SemiAxes();
  float a = c.UniformF(-1.6, 1.6), b = c.UniformF(-1.6, 1.6);
  if (c.Chance(1, 4)) a = c.PickOf({-1.001f, -0.999f, 0.999f, 1.001f});
  if (c.Chance(1, 4)) b = c.PickOf({-1.001f, -0.999f, 0.999f, 1.001f});
  Point p = q.Center() + a * u + b * v;
  c.Note(q, p);
  double t = q.Rotation().ValueInRadians(), s = q.ShearFactor(), x = (double)p.x - q.Center().x, y = (double)p.y - q.Center().y;
  double bb = std::cos(t) * y - std::sin(t) * x, aa = std::cos(t) * x + std::sin(t) * y - s * bb;
  double w = q.Width() / 2.0, h = std::fabs(q.Height()) / 2.0;
  double tol = (1 + std::fabs(s)) * ((std::fabs(x) + std::fabs(y)) * 2e-6 + (std::fabs(p.x) + std::fabs(p.y) + std::fabs(q.Center().x) + std::fabs(q.Center().y)) * 2e-7);
  bool in = std::fabs(aa) <= w - tol && std::fabs(bb) <= h - tol, out = std::fabs(aa) > w + tol || std::fabs(bb) > h + tol;
  if (!in && !out) throw pbt::Discard{};
  c.NonTrivial(std::fabs(std::fabs(a) - 1) < 0.1 || std::fabs(std::fabs(b) - 1) < 0.1);
  c.Label("inside", in);
  PROP(q.Contains(p) == in, "contains", q, p, " expected ", in);
}
