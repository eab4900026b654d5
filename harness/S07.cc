// Tip shapes: what a tip state looks like, which shapes lie in which, how two are joined, and the outline points they contribute.
#include <algorithm>
#include <cmath>
#include <string>
#include <vector>

#include "engine/pbt.h"
#include "harness/geo.h"
#include "harness/hull.h"
#include "harness/tipgen.h"
#include "ink/strokes/internal/brush_tip_extruder/extruded_vertex.h"
#include "ink/strokes/internal/brush_tip_extruder/simplify.h"
#include "ink/strokes/internal/brush_tip_extrusion.h"
#include "ink/strokes/internal/brush_tip_shape.h"
#include "ink/strokes/internal/brush_tip_state.h"
#include "ink/strokes/internal/constrain_brush_tip_extrusion.h"
#include "ink/strokes/internal/extrusion_points.h"
#include "ink/strokes/internal/stroke_outline.h"

using hull::Hull;
using ink::Angle;
using ink::Point;
using ink::Segment;
using ink::Vec;
using ink::strokes_internal::BrushTipExtrusion;
using ink::strokes_internal::BrushTipShape;
using ink::strokes_internal::BrushTipState;
using ink::strokes_internal::ConstrainBrushTipExtrusion;
using ink::strokes_internal::ConstrainedBrushTipExtrusion;
using ink::strokes_internal::ExtrusionPoints;
using ink::strokes_internal::StrokeOutline;
using Quality = BrushTipExtrusion::TangentQuality;
using Result = ConstrainedBrushTipExtrusion::ResultType;
using pbt::Ctx;

namespace {
BrushTipState GenState(Ctx& c, float size, float eps) {
  BrushTipState s{};
  s.position = {c.UniformF(-2, 2) * size, c.UniformF(-2, 2) * size};
  auto extent = [&] { return c.Chance(1, 8) ? c.PickOf<float>({0, eps, eps / 2, 2 * eps}) : c.Chance(1, 4) ? size : c.UniformF(0.05f, 1) * size; };
  s.width = extent();
  s.height = c.Chance(1, 3) ? s.width : extent();
  s.percent_radius = c.Chance(1, 2) ? c.PickOf<float>({0, 1, 0.5f}) : c.UniformF(0, 1);
  s.rotation = Angle::Radians(c.Chance(1, 3) ? c.Signed(-8, 8) * (float)hull::kPi / 4 : c.UniformF(-6.3f, 6.3f));
  s.slant = Angle::Radians(c.Chance(1, 2) ? 0.f : c.Chance(1, 6) ? c.PickOf<float>({1.5707964f, -1.5707964f, 1.57f}) : c.UniformF(-1.5f, 1.5f));
  s.pinch = c.Chance(1, 2) ? 0.f : c.Chance(1, 4) ? 1.f : c.UniformF(0, 1);
  return s;
}
// A later state of the same tip: moved a little, perhaps changed.
BrushTipState GenNext(Ctx& c, const BrushTipState& s, float size, float eps) {
  BrushTipState n = s;
  if (c.Chance(1, 3)) n = GenState(c, size, eps);
  else if (c.Bool()) {
    n.width *= c.UniformF(0.8f, 1.2f);
    n.height *= c.UniformF(0.8f, 1.2f);
    n.rotation += Angle::Radians(c.UniformF(-0.3f, 0.3f));
    n.percent_radius = std::clamp(n.percent_radius + c.UniformF(-0.1f, 0.1f), 0.f, 1.f);
  }
  double t = c.Chance(1, 3) ? c.Int(0, 7) * hull::kPi / 4 : c.Unit() * 2 * hull::kPi, d = size * (c.Chance(1, 8) ? 0 : c.Chance(1, 2) ? c.Uniform(0, 0.3) : c.Uniform(0, 2));
  n.position = {s.position.x + (float)(d * std::cos(t)), s.position.y + (float)(d * std::sin(t))};
  return n;
}
struct Scale { float size, eps; };
Scale GenScale(Ctx& c) {
  float size = c.PickOf<float>({10, 1, 100, 3});
  return {size, size * c.PickOf<float>({0.001f, 0.01f, 0.1f})};
}
std::string Show(const BrushTipState& s) {
  return pbt::Cat("tip at ", pbt::Show(s.position), " ", s.width, "x", s.height, " round ", s.percent_radius, " turn ", s.rotation.ValueInRadians(), " slant ", s.slant.ValueInRadians(), " pinch ", s.pinch);
}
std::string Show(const Hull& h) {
  std::string r;
  for (auto& d : h) r += pbt::Cat(" (", d.x, ", ", d.y, "; ", d.r, ")");
  return r;
}

PBT(Shape, 3, "two or more control circles and nothing near the threshold") {
  auto [size, eps] = GenScale(c);
  BrushTipState s = GenState(c, size, eps);
  c.Note(Show(s), " threshold ", eps);
  BrushTipShape shape(s, eps);
  Hull h = hull::Of(shape), ideal = hull::Ideal(s);
  double tol = 3e-6 * (hull::Size(ideal) + size);
  PROP(shape.Center() == s.position, "center", "center ", pbt::Show(shape.Center()));
  PROP(!h.empty() && h.size() <= 4, "count", h.size(), " circles");
  // Nothing but what is below the threshold differs from the ideal shape.
  double r = s.percent_radius * std::min(s.width, s.height) / 2.0, x = s.width / 2.0 - r, y = s.height / 2.0 - r, xp = (1 - (double)s.pinch) * x;
  double gap = 2 * y * std::cos(s.slant.ValueInRadians());
  bool clear = (r == 0 || r > eps * 1.001) && 2 * x > eps * 1.001 && 2 * y > eps * 1.001 && (s.pinch == 1 || 2 * xp > eps * 1.001) && gap > eps * 1.001;
  c.NonTrivial(clear);
  double slack = clear ? tol : 2.2 * eps + tol;
  double out = hull::Depth(ideal, h), in = hull::Depth(h, ideal);
  PROP(out >= -slack, "outside", "the shape", Show(h), " reaches ", -out, " beyond", Show(ideal));
  PROP(in >= -slack, "inside", "the shape", Show(h), " falls short of", Show(ideal), " by ", -in);
  if (clear) PROP(h.size() == (s.pinch == 1 ? 3u : 4u), "count", h.size(), " circles");
  for (size_t i = 0; i < h.size(); ++i) {
    PROP(h[i].r == 0 || h[i].r >= eps, "radius", "radius ", h[i].r, " is below the threshold");
    for (size_t j = 0; j < i; ++j) {
      double d = std::hypot(h[i].x - h[j].x, h[i].y - h[j].y);
      PROP(d >= eps * 0.5 - tol, "separation", "circles ", j, " and ", i, " are ", d, " apart");
    }
    // Circles go around the center counter-clockwise.
    int k = (int)i, n = (int)h.size();
    PROP(shape.GetNextPerimeterIndexCcw(k) == (k + 1) % n && shape.GetNextPerimeterIndexCw(k) == (k + n - 1) % n, "neighbors", "of circle ", i);
  }
  if (h.size() >= 3) {
    for (size_t i = 0; i < h.size(); ++i) {
      auto &a = h[i], &b = h[(i + 1) % h.size()], &d = h[(i + 2) % h.size()];
      double area = (b.x - a.x) * (d.y - a.y) - (d.x - a.x) * (b.y - a.y);
      PROP(area > -tol * size, "order", "the circles do not go around counter-clockwise:", Show(h));
    }
  }
  ink::Rect b = shape.Bounds();
  PROP(std::abs(b.XMax() - hull::Support(h, 1, 0)) <= tol && std::abs(b.XMin() + hull::Support(h, -1, 0)) <= tol && std::abs(b.YMax() - hull::Support(h, 0, 1)) <= tol && std::abs(b.YMin() + hull::Support(h, 0, -1)) <= tol, "bounds",
       "bounds ", pbt::Show(b), " of", Show(h));
}

PBT(Contains, 3, "one shape reaches into the other") {
  auto [size, eps] = GenScale(c);
  BrushTipState s = GenState(c, size, eps), o = GenNext(c, s, size, eps);
  if (c.Chance(1, 3)) o.width *= 0.5f, o.height *= 0.5f;
  if (c.Chance(1, 3)) o.position = s.position + (o.position - s.position) * 0.1f;
  c.Note(Show(s), " and ", Show(o), " threshold ", eps);
  BrushTipShape a(s, eps), b(o, eps);
  Hull ha = hull::Of(a), hb = hull::Of(b);
  double tol = 1e-5 * (hull::Size(ha) + hull::Size(hb));
  PROP(a.Contains(a) && b.Contains(b), "self", "a shape does not contain itself");
  auto check = [&](const BrushTipShape& p, const BrushTipShape& q, const Hull& hp, const Hull& hq) {
    double d = hull::Depth(hp, hq);
    if (d > tol) PROP(p.Contains(q), "contains", "a shape", Show(hp), " does not contain", Show(hq), " although it reaches ", d, " beyond it");
    if (d < -tol) PROP(!p.Contains(q), "sticks out", "a shape", Show(hp), " contains", Show(hq), " although that sticks out by ", -d);
    return d;
  };
  double d1 = check(a, b, ha, hb), d2 = check(b, a, hb, ha);
  c.NonTrivial(std::max(d1, d2) > -0.5 * size);
  c.Label("contains", d1 > tol || d2 > tol);
}

// How many times the boundary of the hull of both goes from one shape to the other; -1 where that is too close to tell.
int Bridges(const Hull& a, const Hull& b, double tol) {
  std::vector<hull::U> u;
  Hull h = hull::Join(a, b);
  hull::Breaks(h, u);
  std::vector<double> t;
  for (auto& v : u) t.push_back(std::atan2(v.y, v.x));
  std::sort(t.begin(), t.end());
  if (t.empty()) return -1;
  std::vector<int> owner;
  for (size_t i = 0; i < t.size(); ++i) {
    double lo = t[i], hi = i + 1 < t.size() ? t[i + 1] : t[0] + 2 * hull::kPi;
    if (hi - lo < 1e-9) continue;
    double m = (lo + hi) / 2, sa = hull::Support(a, std::cos(m), std::sin(m)), sb = hull::Support(b, std::cos(m), std::sin(m));
    if (std::abs(sa - sb) < tol) return -1;
    owner.push_back(sa > sb);
  }
  int n = 0;
  for (size_t i = 0; i < owner.size(); ++i) n += owner[i] != owner[(i + 1) % owner.size()];
  return n;
}

std::vector<Point> Closed(const ExtrusionPoints& p) {
  std::vector<Point> g(p.right.begin(), p.right.end());
  g.insert(g.end(), p.left.rbegin(), p.left.rend());
  return g;
}

PBT(Joined, 4, "different shapes, neither inside the other") {
  auto [size, eps] = GenScale(c);
  BrushTipState s = GenState(c, size, eps), o = GenNext(c, s, size, eps);
  c.Note(Show(s), " then ", Show(o), " threshold ", eps);
  BrushTipExtrusion a(s, eps), b(o, eps);
  const BrushTipShape &sa = a.GetShape(), &sb = b.GetShape();
  Hull ha = hull::Of(sa), hb = hull::Of(sb), all = hull::Join(ha, hb);
  double tol = 1e-5 * hull::Size(all);
  Quality q = BrushTipExtrusion::EvaluateTangentQuality(a, b, 0.1f * eps);
  double ab = hull::Depth(ha, hb), ba = hull::Depth(hb, ha);
  bool same = s.width == o.width && s.height == o.height && s.percent_radius == o.percent_radius && s.rotation == o.rotation && s.slant == o.slant && s.pinch == o.pinch;
  if (!(same && (o.position - s.position).Magnitude() > 0.1f * eps)) {
    if (ab > tol) PROP(q == Quality::kNoTangentsFirstContainsSecond, "contained", "the second shape lies in the first, but quality is ", (int)q);
    if (ba > tol && ab < -tol) PROP(q == Quality::kNoTangentsSecondContainsFirst, "contained", "the first shape lies in the second, but quality is ", (int)q);
  }
  if (ab < -tol && ba < -tol) PROP(q == Quality::kGoodTangents || q == Quality::kBadTangentsJoinedShapeDoesNotCoverInputShapes, "not contained", "no shape lies in the other, but quality is ", (int)q);
  if (q != Quality::kGoodTangents || ab > -tol || ba > -tol) return;
  c.NonTrivial(!same);
  int bridges = Bridges(ha, hb, 0.02 * size);
  c.Label(pbt::Cat("bridges ", bridges));
  PROP(bridges <= 2, "cross", "tangents are good although the boundary of both goes between them ", bridges, " times");
  // The outline of both ends: covers exactly the hull of the two shapes.
  float chord = (float)(eps * c.PickOf<float>({0.1f, 1, 0.01f}));
  chord = std::max(chord, size * 1e-4f);
  ExtrusionPoints p;
  BrushTipShape::AppendStartcapExtrusionPoints(sa, sb, chord, p);
  size_t l = p.left.size(), r = p.right.size();
  BrushTipShape::AppendEndcapExtrusionPoints(sa, sb, chord, p);
  PROP(p.left.size() + p.right.size() > l + r && l + r > 0, "points", "an end has no outline points");
  std::vector<Point> g = Closed(p);
  std::string text = pbt::Cat("outline of ", g.size(), " points");
  for (Point v : g) PROP(hull::Depth(all, v.x, v.y) >= -tol, "beyond", text, ": point ", pbt::Show(v), " lies ", -hull::Depth(all, v.x, v.y), " outside of the two shapes");
  // Circles too close together to tell which of them a tangent touches first may be gone around twice.
  bool tight = false;
  for (const Hull* h : {&ha, &hb})
    for (size_t i = 0; i < h->size(); ++i)
      for (size_t j = 0; j < i; ++j) tight |= std::hypot((*h)[i].x - (*h)[j].x, (*h)[i].y - (*h)[j].y) < 0.02 * size;
  auto fine = [&](int w) { return tight ? w >= 1 : w == 1; };
  for (int k = 0; k < 20; ++k) {
    hull::U x = hull::PointOf(c.Bool() ? ha : hb, c);
    double d = hull::Depth(all, x.x, x.y);
    if (d < chord * 1.01 + 0.02 * size) continue;
    int w = hull::Winding(g, x.x, x.y);
    PROP(fine(w), "cover", text, ": point (", x.x, ", ", x.y, "), ", d, " inside the joined shape, is wound around ", w, " times");
  }
  for (int k = 0; k < 10; ++k) {
    hull::U x = hull::PointOf(all, c);
    double d = hull::Depth(all, x.x, x.y);
    if (d < chord * 1.01 + 0.02 * size) continue;
    int w = hull::Winding(g, x.x, x.y);
    PROP(fine(w), "between", text, ": point (", x.x, ", ", x.y, "), ", d, " inside the hull of both, is wound around ", w, " times");
  }
}

// The outline of three shapes in a row: both ends and the turn at the middle one.
PBT(Turn, 4, "a gentle turn of shapes that are neither long nor close together") {
  auto [size, eps] = GenScale(c);
  BrushTipState s = GenState(c, size, eps), o = s;
  double heading = c.Unit() * 2 * hull::kPi, turn = c.Chance(1, 4) ? c.Uniform(-3.2, 3.2) : c.Uniform(-1.2, 1.2);
  if (c.Chance(1, 10)) turn = 0;
  double l1 = size * c.Uniform(0.1, 2), l2 = size * c.Uniform(0.1, 2);
  auto move = [&](BrushTipState& x, double l) {
    x.position += Vec{(float)(l * std::cos(heading)), (float)(l * std::sin(heading))};
    if (c.Chance(1, 2)) {
      double f = std::min(0.3, 0.3 * l / size);
      x.width = std::max(2 * eps, x.width * (float)c.Uniform(1 - f, 1 + f)), x.height = std::max(2 * eps, x.height * (float)c.Uniform(1 - f, 1 + f));
      x.rotation += Angle::Radians((float)c.Uniform(-f, f));
    }
  };
  move(o, l1);
  heading += turn;
  BrushTipState e = o;
  move(e, l2);
  c.Note(Show(s), " then ", Show(o), " then ", Show(e), " threshold ", eps, " turn ", turn);
  BrushTipExtrusion a(s, eps), b(o, eps), d(e, eps);
  auto good = [&](auto& x, auto& y) { return BrushTipExtrusion::EvaluateTangentQuality(x, y, 0.1f * eps) == Quality::kGoodTangents; };
  if (!good(a, b) || !good(b, d)) return;
  Hull ha = hull::Of(a.GetShape()), hb = hull::Of(b.GetShape()), hd = hull::Of(d.GetShape()), h1 = hull::Join(ha, hb), h2 = hull::Join(hb, hd);
  double tol = 1e-5 * (hull::Size(h1) + hull::Size(h2));
  float chord = std::max((float)(eps * c.PickOf<float>({0.1f, 1, 0.01f})), size * 1e-4f);
  ExtrusionPoints p;
  BrushTipShape::AppendStartcapExtrusionPoints(a.GetShape(), b.GetShape(), chord, p);
  size_t l = p.left.size(), r = p.right.size();
  BrushTipShape::AppendTurnExtrusionPoints(a.GetShape(), b.GetShape(), d.GetShape(), chord, p);
  PROP(p.left.size() > l && p.right.size() > r, "points", "a side of the turn has no points");
  // Each point of the turn is on the middle shape or where the sides of both parts cross.
  auto in = [&](double x, double y) { return std::max(hull::Depth(h1, x, y), hull::Depth(h2, x, y)); };
  for (auto [from, v] : {std::pair{l, &p.left}, {r, &p.right}})
    for (size_t k = from; k < v->size(); ++k) {
      Point q = (*v)[k];
      PROP(hull::Depth(h1, q.x, q.y) >= -tol - eps && hull::Depth(h2, q.x, q.y) >= -tol - eps, "beyond", "point ", pbt::Show(q), " of the turn is ", -hull::Depth(h1, q.x, q.y), " / ", -hull::Depth(h2, q.x, q.y), " outside of the two parts");
    }
  size_t inner = turn < 0 ? p.right.size() - r : p.left.size() - l;
  BrushTipShape::AppendEndcapExtrusionPoints(b.GetShape(), d.GetShape(), chord, p);
  // Where the sides of both parts do not cross, the outline zigzags through the middle shape: sharp turns and long, thin shapes.
  if (inner > 1 || std::fabs(turn) > 0.6 || std::min(o.width, o.height) < 0.4f * std::max(o.width, o.height) || std::fabs(o.slant.ValueInRadians()) > 0.5f || std::min(l1, l2) < 0.3 * size) return;
  std::vector<Point> g = Closed(p);
  c.NonTrivial();
  double margin = chord * 1.01 + 0.02 * size;
  for (int k = 0; k < 25; ++k) {
    hull::U x = hull::PointOf(c.Chance(1, 3) ? hb : c.Bool() ? h1 : h2, c);
    double m = in(x.x, x.y);
    if (m < margin) continue;
    int w = hull::Winding(g, x.x, x.y);
    PROP(w >= 1, "cover", "point (", x.x, ", ", x.y, "), ", m, " inside the area swept, is wound around ", w, " times by ", pbt::Show(g));
  }
  Hull all = hull::Join(h1, hd);
  for (int k = 0; k < 10; ++k) {
    hull::U x = hull::PointOf(all, c);
    double m = in(x.x, x.y);
    if (m > -margin) continue;
    int w = hull::Winding(g, x.x, x.y);
    PROP(w == 0, "outside", "point (", x.x, ", ", x.y, "), ", -m, " outside of the area swept, is wound around ", w, " times by ", pbt::Show(g));
  }
}

PBT(Whole, 2, "two or more control circles") {
  auto [size, eps] = GenScale(c);
  BrushTipState s = GenState(c, size, eps);
  float chord = size * c.PickOf<float>({0.01f, 0.1f, 0.001f});
  double t = c.Unit() * 2 * hull::kPi;
  Vec f{(float)std::cos(t), (float)std::sin(t)};
  if (c.Chance(1, 3)) f = {1, 0};
  c.Note(Show(s), " threshold ", eps, " chord ", chord, " towards ", pbt::Show(f));
  BrushTipShape shape(s, eps);
  Hull h = hull::Of(shape);
  if (hull::Perimeter(h) == 0) return;  // a single point
  c.NonTrivial(h.size() >= 2);
  ExtrusionPoints p;
  int before = c.Int(0, 2);
  for (int k = 0; k < before; ++k) p.left.push_back({9999, 9999}), p.right.push_back({9999, -9999});
  BrushTipShape::AppendWholeShapeExtrusionPoints(shape, chord, f, p);
  for (int k = 0; k < before; ++k) PROP(p.left[k] == (Point{9999, 9999}) && p.right[k] == (Point{9999, -9999}), "earlier", "earlier points changed");
  p.left.erase(p.left.begin(), p.left.begin() + before);
  p.right.erase(p.right.begin(), p.right.begin() + before);
  double tol = 1e-5 * hull::Size(h);
  std::vector<Point> g = Closed(p);
  for (Point v : g) {
    double d = hull::Depth(h, v.x, v.y);
    PROP(std::abs(d) <= tol, "on", "point ", pbt::Show(v), " is ", d, " inside the outline of the shape");
  }
  for (int k = 0; k < 20; ++k) {
    hull::U x = hull::PointOf(h, c);
    double d = hull::Depth(h, x.x, x.y);
    if (d < chord * 1.01 + tol) continue;
    PROP(hull::Winding(g, x.x, x.y) == 1, "cover", "point (", x.x, ", ", x.y, "), ", d, " inside, is wound around ", hull::Winding(g, x.x, x.y), " times by ", pbt::Show(g));
  }
  auto side = [&](Point v) { return (double)f.x * ((double)v.y - s.position.y) - (double)f.y * ((double)v.x - s.position.x); };
  for (Point v : p.left) PROP(side(v) >= -tol, "left", "point ", pbt::Show(v), " is not on the left");
  for (Point v : p.right) PROP(side(v) <= tol, "right", "point ", pbt::Show(v), " is not on the right");
}

PBT(Constrained, 2, "an intermediate shape") {
  auto [size, eps] = GenScale(c);
  BrushTipState s = GenState(c, size, eps), o = GenNext(c, s, size, eps);
  int n = c.Int(0, 12);
  c.Note(Show(s), " then ", Show(o), " threshold ", eps, " in ", n, " steps");
  BrushTipExtrusion a(s, eps), b(o, eps);
  auto quality = [&](const BrushTipExtrusion& x) { return BrushTipExtrusion::EvaluateTangentQuality(a, x, 0.1f * eps); };
  Quality q = quality(b);
  ConstrainedBrushTipExtrusion r = ConstrainBrushTipExtrusion(a, b, eps, n);
  switch (q) {
    case Quality::kNoTangentsFirstContainsSecond: PROP(r.result_type == Result::kLastExtrusionContainsProposedExtrusion, "inside", (int)r.result_type); break;
    case Quality::kNoTangentsSecondContainsFirst: PROP(r.result_type == Result::kProposedExtrusionContainsLastExtrusion, "around", (int)r.result_type); break;
    case Quality::kGoodTangents: PROP(r.result_type == Result::kProposedExtrusionIsValid, "good", (int)r.result_type); break;
    default: PROP(r.result_type == Result::kConstrainedExtrusionFound || r.result_type == Result::kCannotFindValidIntermediateExtrusion, "bad", (int)r.result_type);
  }
  auto at = [&](float t) { return BrushTipExtrusion(BrushTipState::LerpShapeAttributes(s, o, t), eps); };
  if (r.result_type == Result::kConstrainedExtrusionFound) {
    c.NonTrivial();
    PROP(r.lerp_amount >= 0 && r.lerp_amount < 1, "amount", r.lerp_amount);
    PROP(!r.extrusion.IsBreakPoint() && quality(r.extrusion) == Quality::kGoodTangents, "quality", "the shape found has no good tangents");
    PROP(tg::Same(r.extrusion.GetState(), at(r.lerp_amount).GetState()), "state", Show(r.extrusion.GetState()), " is not between at ", r.lerp_amount);
    float next = r.lerp_amount + std::ldexp(1.f, -n);
    PROP(next <= 1 && quality(next == 1 ? b : at(next)) != Quality::kGoodTangents, "best", "a shape at ", next, " is as good as that at ", r.lerp_amount);
  } else {
    PROP(r.lerp_amount == -1 && r.extrusion.IsBreakPoint(), "unused", "an unused result is set");
    if (r.result_type == Result::kCannotFindValidIntermediateExtrusion)
      PROP((o.position - s.position).Magnitude() < 0.1f * eps || quality(at(0)) != Quality::kGoodTangents, "cannot", "the shape moved as it is has good tangents");
  }
}

PBT(States, 1, "between two different states") {
  auto [size, eps] = GenScale(c);
  BrushTipState s = GenState(c, size, eps), o = GenState(c, size, eps);
  for (BrushTipState* x : {&s, &o}) x->hue_offset_in_full_turns = (float)c.Unit(), x->saturation_multiplier = c.UniformF(0, 2), x->luminosity_shift = c.UniformF(-1, 1), x->opacity_multiplier = c.UniformF(0, 2);
  float t = c.Chance(1, 3) ? c.PickOf<float>({0, 1, 0.5f}) : c.UniformF(-0.5f, 1.5f);
  c.Note(Show(s), " and ", Show(o), " at ", t);
  c.NonTrivial(t > 0 && t < 1);
  BrushTipState r = BrushTipState::LerpShapeAttributes(s, o, t);
  PROP(r.position == o.position && r.hue_offset_in_full_turns == o.hue_offset_in_full_turns && r.saturation_multiplier == o.saturation_multiplier && r.luminosity_shift == o.luminosity_shift && r.opacity_multiplier == o.opacity_multiplier,
       "kept", "position and color are not those of the second state");
  auto near = [&](float got, float a, float b, const char* what) { PROP(std::abs(got - (a + ((double)b - a) * t)) <= 1e-5 * (std::abs(a) + std::abs(b)), what, got, " between ", a, " and ", b, " at ", t); };
  near(r.width, s.width, o.width, "width");
  near(r.height, s.height, o.height, "height");
  near(r.percent_radius, s.percent_radius, o.percent_radius, "rounding");
  near(r.slant.ValueInRadians(), s.slant.ValueInRadians(), o.slant.ValueInRadians(), "slant");
  near(r.pinch, s.pinch, o.pinch, "pinch");
  // The short way around.
  double d = std::remainder((double)o.rotation.ValueInRadians() - s.rotation.ValueInRadians(), 2 * hull::kPi);
  if (std::abs(d) < hull::kPi - 1e-4) {
    double e = std::remainder(r.rotation.ValueInRadians() - (s.rotation.ValueInRadians() + d * t), 2 * hull::kPi);
    PROP(std::abs(e) < 1e-4, "rotation", r.rotation.ValueInRadians(), " is off by ", e);
  }
}

PBT(Simplified, 2, "points kept and points dropped inside") {
  using V = ink::brush_tip_extruder_internal::ExtrudedVertex;
  int n = c.Len(0, 14);
  std::vector<V> in(n), out;
  bool grid = c.Bool();
  Point at{0, 0};
  for (int k = 0; k < n; ++k) {
    if (grid) at = {(float)c.Int(0, 4), (float)c.Int(0, 4)};
    else at += Vec{c.UniformF(0, 1), c.UniformF(-0.3f, 0.3f)};
    in[k].position = at;
    in[k].texture_coords = {(float)k, 0};
    c.Note(k, " ", pbt::Show(at));
  }
  float eps = c.PickOf<float>({0.1f, 0, 0.5f, 0.03f, 1});
  c.Note("epsilon ", eps);
  int before = c.Int(0, 2);
  out.resize(before);
  ink::brush_tip_extruder_internal::SimplifyPolyline(in.begin(), in.end(), eps, out);
  for (int k = 0; k < before; ++k) PROP(out[k] == V(), "earlier", "earlier vertices changed");
  out.erase(out.begin(), out.begin() + before);
  PROP(out.size() <= in.size() && (n == 0 || out.size() >= std::min(2, n)), "count", out.size(), " vertices of ", n);
  if (n == 0) return;
  // A subsequence with both ends; the dropped ones lie within epsilon of what replaced them.
  std::vector<int> kept;
  for (const V& v : out) {
    int k = (int)v.texture_coords.x;
    PROP(v == in[k], "changed", "vertex ", k, " changed");
    PROP(kept.empty() || kept.back() < k, "order", "vertex ", k, " is out of order");
    kept.push_back(k);
  }
  PROP(kept.front() == 0 && kept.back() == n - 1, "ends", "an end is missing");
  bool dropped = false;
  for (size_t i = 0; i + 1 < kept.size(); ++i)
    for (int k = kept[i] + 1; k < kept[i + 1]; ++k) {
      dropped = true;
      double d = hull::ToBoundary({in[kept[i]].position, in[kept[i + 1]].position}, in[k].position.x, in[k].position.y);
      PROP(d <= eps + 1e-5, "far", "vertex ", k, " was dropped although it lies ", d, " from the rest");
    }
  c.NonTrivial(dropped && kept.size() > 2);
  // No vertex stays that the line between the ends alone would do without.
  if (kept.size() > 2) {
    double m = 0;
    for (int k = 1; k + 1 < n; ++k) m = std::max(m, hull::ToBoundary({in[0].position, in[n - 1].position}, in[k].position.x, in[k].position.y));
    PROP(m > eps - 1e-5, "needless", "every vertex lies within ", m, " of the line between the ends, but ", kept.size(), " stay");
  }
}

PBT(Outline, 1, "indices on both sides after a truncation") {
  StrokeOutline o;
  std::vector<uint32_t> left, right;
  int steps = c.Len(1, 12);
  bool cut = false;
  for (int k = 0; k < steps; ++k) {
    if (c.Chance(1, 4)) {
      StrokeOutline::IndexCounts n{(size_t)c.Choice(left.size() + 2), (size_t)c.Choice(right.size() + 2)};
      c.Note("truncate ", n.left, " ", n.right);
      o.TruncateIndices(n);
      cut |= n.left < left.size() || n.right < right.size();
      if (n.left < left.size()) left.resize(n.left);
      if (n.right < right.size()) right.resize(n.right);
    } else if (c.Chance(1, 8)) {
      StrokeOutline m = std::move(o);
      o = std::move(m);
      c.Note("move");
    } else {
      std::vector<uint32_t> l(c.Len(0, 9)), r(c.Len(0, 9));
      for (auto* v : {&l, &r}) for (auto& i : *v) i = (uint32_t)c.Choice(1000);
      c.Note("append ", l, " ", r);
      o.AppendNewIndices(l, r);
      left.insert(left.end(), l.begin(), l.end());
      right.insert(right.end(), r.begin(), r.end());
      c.NonTrivial(cut && !left.empty() && !right.empty());
    }
    std::vector<uint32_t> want(right.rbegin(), right.rend());
    want.insert(want.end(), left.begin(), left.end());
    auto got = o.GetIndices();
    PROP(std::vector<uint32_t>(got.begin(), got.end()) == want, "indices", "indices ", std::vector<uint32_t>(got.begin(), got.end()), " instead of ", want);
    PROP(o.GetIndexCounts().left == left.size() && o.GetIndexCounts().right == right.size(), "counts", "left ", o.GetIndexCounts().left, " right ", o.GetIndexCounts().right);
  }
}
}  // namespace
