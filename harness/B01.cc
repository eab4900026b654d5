// Easing functions: the response curves of brushes, against their published definitions.
#include <algorithm>
#include <cmath>
#include <optional>
#include <vector>

#include "absl/container/inlined_vector.h"
#include "engine/pbt.h"
#include "harness/brushgen.h"
#include "ink/brush/easing_function.h"
#include "ink/strokes/internal/easing_implementation.h"

using bg::EF;
using ink::strokes_internal::EasingImplementation;
using pbt::Ctx;

namespace {
struct BezierRef {
  double x1, y1, x2, y2;
  double X(double t) const { return 3 * (1 - t) * (1 - t) * t * x1 + 3 * (1 - t) * t * t * x2 + t * t * t; }
  double Y(double t) const { return 3 * (1 - t) * (1 - t) * t * y1 + 3 * (1 - t) * t * t * y2 + t * t * t; }
  // The y at this x: x(t) does not decrease, so bisect. Gives the range of y over the t that map to x +- dx.
  std::pair<double, double> At(double x, double dx) const {
    auto solve = [&](double want, bool upper) {
      double lo = 0, hi = 1;
      for (int k = 0; k < 60; ++k) {
        double m = (lo + hi) / 2;
        if (upper ? X(m) <= want : X(m) < want) lo = m; else hi = m;
      }
      return upper ? hi : lo;
    };
    double a = solve(x - dx, false), b = solve(x + dx, true), lo = 1e300, hi = -1e300;
    for (int k = 0; k <= 32; ++k) {
      double y = Y(a + (b - a) * k / 32);
      lo = std::min(lo, y), hi = std::max(hi, y);
    }
    return {lo, hi};
  }
};
std::optional<BezierRef> AsBezier(const EF& e) {
  if (auto* b = std::get_if<EF::CubicBezier>(&e.parameters)) return BezierRef{b->x1, b->y1, b->x2, b->y2};
  if (auto* p = std::get_if<EF::Predefined>(&e.parameters)) switch (*p) {
      case EF::Predefined::kEase: return BezierRef{.25, .1, .25, 1};
      case EF::Predefined::kEaseIn: return BezierRef{.42, 0, 1, 1};
      case EF::Predefined::kEaseOut: return BezierRef{0, 0, .58, 1};
      case EF::Predefined::kEaseInOut: return BezierRef{.42, 0, .58, 1};
      default: break;
    }
  return std::nullopt;
}
std::optional<EF::Steps> AsSteps(const EF& e) {
  if (auto* s = std::get_if<EF::Steps>(&e.parameters)) return *s;
  if (auto* p = std::get_if<EF::Predefined>(&e.parameters)) {
    if (*p == EF::Predefined::kStepStart) return EF::Steps{1, EF::StepPosition::kJumpStart};
    if (*p == EF::Predefined::kStepEnd) return EF::Steps{1, EF::StepPosition::kJumpEnd};
  }
  return std::nullopt;
}
float GenX(Ctx& c) {
  switch (c.Choice(6)) {
    case 0: return c.PickOf<float>({0.f, -0.f, 1.f});
    case 1: return c.Near((float)c.Int(0, 13) / 13);
    case 2: return (float)c.Int(0, 64) / 64;
    case 3: return c.UniformF(-2, 3);
    case 4: return c.PickOf<float>({std::nextafter(1.f, 0.f), std::nextafter(1.f, 2.f), std::numeric_limits<float>::denorm_min(), -std::numeric_limits<float>::denorm_min()});
    default: return c.UniformF(0, 1);
  }
}
}  // namespace

PBT(identity, 1, "a value is passed through") {
  EF e = c.Bool() ? EF{} : EF{EF::Linear{}};
  float x = std::get_if<EF::Linear>(&e.parameters) ? GenX(c) : c.AnyFloat();
  c.Note(e, " at ", x);
  c.NonTrivial();
  float y = EasingImplementation(e).GetY(x);
  if (std::get_if<EF::Linear>(&e.parameters)) PROP(pbt::NearRel(y, x, 1e-6, 1e-7), "identity", "a piecewise-linear curve without points maps ", x, " to ", y);
  else PROP(pbt::SameBits(y, x), "identity", "the linear curve maps ", x, " to ", y);
}

PBT(bezier, 8, "a point strictly inside the curve was compared with the exact Bezier") {
  bg::Gen g{c, 0, true};
  EF e;
  if (c.Chance(1, 3)) e = {(EF::Predefined)c.Int(1, 4)};
  else e = {g.Bezier()};
  float x = GenX(c);
  BezierRef b = *AsBezier(e);
  c.Note(e, " at ", x);
  EasingImplementation impl(e);
  float y = impl.GetY(x);
  double xc = std::min(1.0, std::max(0.0, (double)x));
  if (xc == 0 || xc == 1) {
    PROP(pbt::Near(y, xc, 1e-4), "ends", "the curve passes through (0,0) and (1,1), got ", y, " at ", x);
    return;
  }
  c.NonTrivial();
  // Interpolation between samples 1/13 apart. Bound the answer by the exact curve at the two samples around x.
  double h = 1.0 / 13, j = std::floor(xc / h), t = xc / h - j;
  // Each sample is itself read off a curve sampled densely in t, so allow its x to be off by a little of the spacing.
  double slack = 2e-4;
  if (t < 1e-4 || t > 1 - 1e-4) slack = 1e-2, t = std::min(1.0, std::max(0.0, t));
  auto [a0, a1] = b.At(j * h, slack);
  auto [b0, b1] = b.At(std::min(1.0, (j + 1) * h), slack);
  // Samples of the curve are a 1/78 step in t apart; between them the curve is replaced by a chord.
  // The gap between a chord and the curve, measured in y, is bounded by the curvature: d2 * dt^2 / 8.
  auto dd = [&](double p1, double p2) { return 6 * std::max(std::fabs(p2 - 2 * p1), std::fabs(1 - 2 * p2 + p1)); };
  double dt = 1.0 / 78, chord = dt * dt / 8 * (dd(b.y1, b.y2)), chord_x = dt * dt / 8 * dd(b.x1, b.x2);
  auto [c0, c1] = b.At(j * h, slack + chord_x);
  auto [d0, d1] = b.At(std::min(1.0, (j + 1) * h), slack + chord_x);
  a0 = std::min(a0, c0), a1 = std::max(a1, c1), b0 = std::min(b0, d0), b1 = std::max(b1, d1);
  double lo = a0 * (1 - t) + b0 * t - chord - 1e-4, hi = a1 * (1 - t) + b1 * t + chord + 1e-4;
  if (slack > 1e-3) lo = std::min(lo, std::min(a0, b0)), hi = std::max(hi, std::max(a1, b1));
  PROP(y >= lo && y <= hi, "bezier", "at ", x, " got ", y, ", the exact curve is within [", lo, ", ", hi, "]");
  c.Label("steep", hi - lo > 0.02);
}

PBT(bezier_extremes, 2, "control values are far outside the unit square") {
  bg::Gen g{c};
  EF e = {g.Bezier()};
  auto p = std::get<EF::CubicBezier>(e.parameters);
  c.Note(e);
  // Construction terminates and stays within the hull of the control values.
  EasingImplementation impl(e);
  double lo = std::min({0.0, 1.0, (double)p.y1, (double)p.y2}), hi = std::max({0.0, 1.0, (double)p.y1, (double)p.y2});
  if (hi - lo > 1e37) return;
  c.NonTrivial(hi - lo > 10);
  for (int k = 0; k < 5; ++k) {
    float x = GenX(c), y = impl.GetY(x);
    PROP(y >= lo - 1e-4 * (hi - lo) && y <= hi + 1e-4 * (hi - lo), "hull", "at ", x, " got ", y, " outside the control values [", lo, ", ", hi, "]");
  }
  PROP(std::isnan(impl.GetY(bg::kNan)), "nan", "NaN must stay NaN");
}

PBT(linear, 10, "the curve has a point strictly inside the unit interval") {
  bg::Gen g{c, 0, c.Chance(3, 4)};
  EF e = {g.Linear()};
  const auto& pts = std::get<EF::Linear>(e.parameters).points;
  for (auto p : pts) ASSUME(std::fabs(p.y) < 1e6);
  std::vector<ink::Point> all = {{0, 0}};
  all.insert(all.end(), pts.begin(), pts.end());
  all.push_back({1, 1});
  bool inside = false;
  for (auto p : pts) inside = inside || (p.x > 0 && p.x < 1);
  c.NonTrivial(inside);
  EasingImplementation impl(e);
  std::vector<float> xs;
  for (auto p : pts) xs.push_back(c.Chance(3, 4) ? p.x : c.Near(p.x));
  for (int k = 0; k < 6; ++k) xs.push_back(GenX(c));
  c.Note(e, " at ", xs);
  for (float x : xs) {
    float y = impl.GetY(x);
    double want = 0;
    bool known = true, at_point = false;
    double tol = 1e-5;
    size_t up = 0;  // first with x beyond
    while (up < all.size() && all[up].x <= x) ++up;
    if (up > 0 && all[up - 1].x == x) want = all[up - 1].y, at_point = true;
    else {
      size_t i0, i1;
      if (up == 0) i0 = 0, i1 = 1;
      else if (up == all.size()) i0 = up - 2, i1 = up - 1;
      else i0 = up - 1, i1 = up;
      auto p = all[i0], q = all[i1];
      if (p.x == q.x) known = false;  // beyond a jump at an end of the interval: nothing to extrapolate
      else {
        double t = ((double)x - p.x) / ((double)q.x - p.x);
        want = p.y + ((double)q.y - p.y) * t;
        // 1/(q.x - p.x) can be huge, and then the float quotient is coarse
        tol += 4e-7 * (1 + std::fabs(t)) * (std::fabs(p.y) + std::fabs(q.y)) + 4e-7 * std::fabs(want);
        if (std::fabs(t) > 1e4) known = false;
      }
    }
    for (auto p : all) tol = std::max(tol, 2e-6 * std::fabs(p.y));
    if (known) PROP(pbt::Near(y, want, tol), at_point ? "at-point" : "between", "at ", x, " got ", y, " expected ", want);
    c.Label("extrapolated", known && (x < 0 || x > 1));
  }
  PROP(std::isnan(impl.GetY(bg::kNan)), "nan", "NaN must stay NaN");
}

PBT(steps, 8, "the answer lies on an inner step") {
  bg::Gen g{c, 0, c.Chance(3, 4)};
  EF e;
  if (c.Chance(1, 6)) e = {c.Bool() ? EF::Predefined::kStepStart : EF::Predefined::kStepEnd};
  else e = {g.Steps()};
  auto s = *AsSteps(e);
  int n = s.step_count;
  float x = c.Chance(1, 2) ? (float)((double)c.Int(0, n) / n) : GenX(c);
  c.Note(e, " at ", x);
  float y = EasingImplementation(e).GetY(x);
  if (x < 0) { PROP(y == 0, "below", "at ", x, " got ", y, ", below the interval the value is 0"); return; }
  if (x >= 1) { PROP(y == 1, "above", "at ", x, " got ", y, ", from the end of the interval the value is 1"); return; }
  // The step that holds x; at a rounded boundary either neighbour will do.
  double pos = (double)x * n, eps = 2e-7 * n;
  bool ok = false;
  double want = 0;
  for (double k : {std::floor(pos - eps), std::floor(pos), std::floor(pos + eps)}) {
    if (k < 0 || k > n) continue;
    double v = 0;
    switch (s.step_position) {
      case EF::StepPosition::kJumpEnd: v = k / n; break;
      case EF::StepPosition::kJumpStart: v = (k + 1) / n; break;
      case EF::StepPosition::kJumpBoth: v = (k + 1) / (n + 1); break;
      default: v = k / (n - 1); break;
    }
    if (pbt::Near(y, v, 1e-6)) ok = true;
    if (k == std::floor(pos)) want = v;
  }
  // Small exact counts leave no doubt: with n a power of two and x a dyadic fraction nothing rounds.
  bool exact = (n & (n - 1)) == 0 && n <= 64;
  if (exact) ok = pbt::Near(y, want, 1e-6);
  PROP(ok, "step", "at ", x, " (step position ", pos, ") got ", y, " expected ", want);
  c.NonTrivial(want > 0 && want < 1);
}

PBT(critical, 6, "the curve has a critical point") {
  bg::Gen g{c, 0, true};
  EF e = g.Easing();
  EasingImplementation impl(e);
  absl::InlinedVector<float, EasingImplementation::kInlineCriticalPointCount> cp;
  bool prefix = c.Chance(1, 3);
  if (prefix) cp.push_back(-5.f);
  impl.AppendUnitIntervalCriticalPoints(cp);
  c.Note(e, " critical ", cp);
  if (prefix) {
    PROP(!cp.empty() && cp[0] == -5.f, "append", "the points already there must stay");
    cp.erase(cp.begin());
  }
  c.NonTrivial(!cp.empty());
  for (size_t k = 0; k < cp.size(); ++k) {
    PROP(cp[k] >= 0 && cp[k] <= 1, "unit", "critical point ", cp[k], " outside the unit interval");
    if (k) PROP(cp[k] >= cp[k - 1], "order", "critical points must not decrease: ", cp);
  }
  auto has = [&](double x, double tol) { return std::any_of(cp.begin(), cp.end(), [&](float v) { return std::fabs(v - x) <= tol; }); };
  if (auto* p = std::get_if<EF::Predefined>(&e.parameters); p && *p == EF::Predefined::kLinear) PROP(cp.empty(), "identity-none", "the identity has no critical points: ", cp);
  if (auto* l = std::get_if<EF::Linear>(&e.parameters)) {
    for (auto p : l->points) if (p.x > 0 && p.x < 1) PROP(has(p.x, 0), "corner", "missing the corner at ", p.x, ": ", cp);
    for (float v : cp) PROP(std::any_of(l->points.begin(), l->points.end(), [&](auto p) { return std::fabs(p.x - v) < 1e-6; }), "extra", v, " is no corner");
  }
  if (auto s = AsSteps(e)) {
    bool start = s->step_position == EF::StepPosition::kJumpStart || s->step_position == EF::StepPosition::kJumpBoth;
    bool end = s->step_position != EF::StepPosition::kJumpStart;
    // a step function without jumps at the end still ends its last step just before 1 with value 1
    size_t inner = 2 * (s->step_count - 1);
    PROP(cp.size() == inner + start + 2 * end, "count", "expected ", inner + start + 2 * end, " points, got ", cp.size());
    for (int k = 1; k < s->step_count; ++k) PROP(has((double)k / s->step_count, 1e-6), "jump", "missing the jump at ", k, "/", s->step_count);
    PROP(has(0, 0) == start, "start", "zero must be listed exactly when the function jumps there");
  }
  if (auto b = AsBezier(e)) {
    for (float v : cp) {
      double f = v * 13;
      PROP(std::fabs(f - std::round(f)) < 1e-4, "node", v, " is not on the lattice");
      double j = std::round(f);
      double d0 = impl.GetY((float)(j / 13)) - impl.GetY((float)((j - 0.9) / 13)), d1 = impl.GetY((float)((j + 0.9) / 13)) - impl.GetY((float)(j / 13));
      PROP(d0 * d1 <= 1e-9, "turn", "the curve does not turn at ", v, ": slopes ", d0, " then ", d1);
    }
    for (int j = 1; j < 13; ++j) {
      double d0 = impl.GetY((float)((j - 0.1) / 13)) - impl.GetY((float)((j - 0.9) / 13)), d1 = impl.GetY((float)((j + 0.9) / 13)) - impl.GetY((float)((j + 0.1) / 13));
      if (d0 * d1 < -1e-7) PROP(has(j / 13.0, 1e-5), "missed-turn", "the curve turns at ", j, "/13: ", cp);
    }
  }
}
