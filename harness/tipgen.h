// Modeled stroke inputs, and an independent statement of what behavior nodes and targets do.
#pragma once
#include <algorithm>
#include <cmath>
#include <optional>
#include <string>
#include <vector>

#include "harness/brushgen.h"
#include "harness/inputgen.h"
#include "ink/strokes/internal/brush_tip_modeler_helpers.h"
#include "ink/strokes/internal/brush_tip_state.h"
#include "ink/strokes/internal/stroke_input_modeler.h"

namespace tg {
using ink::Angle;
using ink::BrushBehavior;
using ink::BrushTip;
using ink::Duration32;
using ink::PhysicalDistance;
using ink::Point;
using ink::StrokeInput;
using ink::Vec;
using bg::BB;
using ink::strokes_internal::BehaviorNodeContext;
using ink::strokes_internal::BehaviorNodeImplementation;
using ink::strokes_internal::BrushTipState;
using ink::strokes_internal::DampingNodeImplementation;
using ink::strokes_internal::EasingImplementation;
using ink::strokes_internal::InputMetrics;
using ink::strokes_internal::ModeledStrokeInput;
using State = ink::strokes_internal::StrokeInputModeler::State;
using ink::strokes_internal::TargetNodeImplementation;
inline constexpr double kPi = std::numbers::pi;

inline std::string Show(const ModeledStrokeInput& i) {
  return absl::StrCat("{p ", pbt::Show(i.position), " v ", pbt::Show(i.velocity), " a ", pbt::Show(i.acceleration), " d ", pbt::Show(i.traveled_distance), " t ", pbt::Show(i.elapsed_time.ToSeconds()), " pressure ", pbt::Show(i.pressure),
                      " tilt ", pbt::Show(i.tilt.ValueInRadians()), " orientation ", pbt::Show(i.orientation.ValueInRadians()), "}");
}
inline std::string Show(const BrushTipState& s) {
  return absl::StrCat("{p ", pbt::Show(s.position), " w ", pbt::Show(s.width), " h ", pbt::Show(s.height), " round ", pbt::Show(s.percent_radius), " rot ", pbt::Show(s.rotation.ValueInRadians()), " slant ", pbt::Show(s.slant.ValueInRadians()), " pinch ", pbt::Show(s.pinch),
                      " hue ", pbt::Show(s.hue_offset_in_full_turns), " sat ", pbt::Show(s.saturation_multiplier), " lum ", pbt::Show(s.luminosity_shift), " opacity ", pbt::Show(s.opacity_multiplier), "}");
}
inline bool Same(const BrushTipState& a, const BrushTipState& b) {
  auto eq = [](float x, float y) { return x == y || (std::isnan(x) && std::isnan(y)); };
  return eq(a.position.x, b.position.x) && eq(a.position.y, b.position.y) && eq(a.width, b.width) && eq(a.height, b.height) && eq(a.percent_radius, b.percent_radius) && eq(a.rotation.ValueInRadians(), b.rotation.ValueInRadians()) &&
         eq(a.slant.ValueInRadians(), b.slant.ValueInRadians()) && eq(a.pinch, b.pinch) && eq(a.hue_offset_in_full_turns, b.hue_offset_in_full_turns) && eq(a.saturation_multiplier, b.saturation_multiplier) && eq(a.luminosity_shift, b.luminosity_shift) &&
         eq(a.opacity_multiplier, b.opacity_multiplier);
}

struct Gen {
  pbt::Ctx& c;
  float Co() { return c.Chance(1, 2) ? (float)c.Signed(-4, 4) : c.UniformF(-20, 20); }
  // What a whole stroke reports: the tool, the unit length and the optional properties.
  struct Kind { StrokeInput::ToolType tool; float unit; bool pressure, tilt, orientation; };
  Kind AnyKind() { return {(StrokeInput::ToolType)c.Int(0, 3), c.Chance(1, 2) ? 0.f : c.PickOf<float>({1.f, 0.5f, 0.01f}), c.Bool(), c.Bool(), c.Bool()}; }
  ModeledStrokeInput One(const Kind& k) {
    ModeledStrokeInput i;
    i.position = {Co(), Co()};
    i.velocity = c.Chance(1, 6) ? Vec{} : Vec{Co(), Co()};
    i.acceleration = c.Chance(1, 6) ? Vec{} : Vec{Co(), Co()};
    if (k.pressure) i.pressure = c.Chance(1, 4) ? c.PickOf<float>({0.f, 1.f}) : c.UniformF(0, 1);
    float q = std::numbers::pi_v<float> / 2;
    if (k.tilt) i.tilt = Angle::Radians(c.Chance(1, 3) ? c.PickOf<float>({0.f, q, q, std::nextafter(q, 2.f), q / 2, 1e-6f}) : c.UniformF(0, q));
    if (k.orientation) i.orientation = Angle::Radians(c.Chance(1, 3) ? c.PickOf<float>({0.f, q, 2 * q, 3 * q, 6.283185f}) : c.UniformF(0, 6.28f));
    return i;
  }
  // Inputs along a path: distances and times do not decrease.
  std::vector<ModeledStrokeInput> Run(const Kind& k, int n) {
    std::vector<ModeledStrokeInput> v;
    float d = 0, t = 0;
    for (int m = 0; m < n; ++m) {
      ModeledStrokeInput i = One(k);
      if (m) {
        const Point& p = v.back().position;
        float x = c.Chance(1, 8) ? 0.f : c.Bool() ? (float)c.Signed(-2, 2) : c.UniformF(-2, 2), y = c.Chance(1, 3) ? 0.f : c.UniformF(-2, 2);
        i.position = {p.x + x, p.y + y};
        d += std::hypot(x, y);
        if (!c.Chance(1, 6)) t += c.Bool() ? 0.0625f : c.UniformF(0, 0.1f);
      }
      i.traveled_distance = d;
      i.elapsed_time = Duration32::Seconds(t);
      v.push_back(i);
    }
    return v;
  }
};

struct Range { double lo, hi; bool open = false; };  // open: the documents do not say
inline Range At(double v, double e = 0) { return {v - e, v + e}; }
inline double Norm(double a) { a = std::fmod(a, 2 * kPi); return a < 0 ? a + 2 * kPi : a; }

// The documented value of a source, before range mapping. Nothing when indeterminate.
inline std::optional<Range> SourceValue(BB::Source s, const ModeledStrokeInput& i, std::optional<Angle> dir, double size, const State& st) {
  bool p = i.pressure != -1, t = i.tilt.ValueInRadians() != -1, o = i.orientation.ValueInRadians() != -1;
  double tilt = i.tilt.ValueInRadians(), ori = i.orientation.ValueInRadians();
  double vx = i.velocity.x, vy = i.velocity.y, ax = i.acceleration.x, ay = i.acceleration.y, sp = std::hypot(vx, vy), ac = std::hypot(ax, ay);
  double d = i.traveled_distance, sec = i.elapsed_time.ToSeconds();
  double pd = std::max(0.0, d - (double)st.total_real_distance), ps = std::max(0.0, sec - (double)st.total_real_elapsed_time.ToSeconds());
  double since = (double)st.complete_elapsed_time.ToSeconds() - sec, rest = (double)st.complete_traveled_distance - d;
  double fwd = sp == 0 ? 0 : (ax * vx + ay * vy) / sp, lat = sp == 0 ? 0 : (ay * vx - ax * vy) / sp;
  bool still = sp == 0;
  std::string name = bg::kSourceNames[(int)s];
  auto starts = [&](const char* x) { return name.rfind(x, 0) == 0; };
  if (name == "kNormalizedPressure") return p ? std::optional(At(i.pressure)) : std::nullopt;
  if (name == "kTiltInRadians") return t ? std::optional(At(tilt)) : std::nullopt;
  if (starts("kTiltX") || starts("kTiltY")) {
    if (!t || !o) return std::nullopt;
    if (tilt == 0) return At(0);
    if (i.tilt.ValueInRadians() >= std::numbers::pi_v<float> / 2) return std::nullopt;  // no lean along either axis can be told
    Range r{1e9, -1e9};
    for (double e : {-3e-7, 0.0, 3e-7}) {
      for (double f : {-1.2e-7, 0.0, 1.2e-7}) {
        double v = std::atan((starts("kTiltX") ? std::cos(ori + e) : std::sin(ori + e)) * std::tan(std::min(tilt + f, kPi / 2 - 1e-12)));
        r.lo = std::min(r.lo, v - 1e-6), r.hi = std::max(r.hi, v + 1e-6);
      }
    }
    return r;
  }
  if (starts("kOrientation")) {
    if (!o || (t && tilt == 0)) return std::nullopt;  // an upright stylus points nowhere
    if (name == "kOrientationInRadians") return At(ori);
    return At(ori > kPi + 1e-7 ? ori - 2 * kPi : ori, 1e-6);
  }
  if (starts("kDirection") || starts("kNormalizedDirection")) {
    if (!dir) return std::nullopt;
    double a = dir->ValueInRadians();
    if (name == "kDirectionInRadians") return At(Norm(a), 1e-6);
    if (name == "kDirectionAboutZeroInRadians") return At(a, 1e-6);
    return At(name == "kNormalizedDirectionX" ? std::cos(a) : std::sin(a), 1e-6);
  }
  if (starts("kTimeOfInput")) return At(name == "kTimeOfInputInSeconds" ? sec : 1000 * sec, 1e-6 * sec * 1000);
  if (starts("kPredictedTime")) return At(name == "kPredictedTimeElapsedInSeconds" ? ps : 1000 * ps, 1e-6 + 2e-4 * sec);
  if (starts("kTimeSince")) return At(name == "kTimeSinceInputInSeconds" ? since : 1000 * since, 1e-6 + 2e-4 * (sec + std::fabs(since)));
  if (name == "kDistanceRemainingInMultiplesOfBrushSize") return At(rest / size, 2e-6 * (d + rest) / size + 1e-7);
  double v, mag = std::max({sp, ac, d, 1e-9});
  bool cm = name.find("Centimeters") != std::string::npos;
  if (cm && !st.stroke_unit_length) return std::nullopt;
  bool open = false;
  if (starts("kSpeed") || starts("kInputSpeed")) v = sp;
  else if (starts("kVelocityX") || starts("kInputVelocityX")) v = vx;
  else if (starts("kVelocityY") || starts("kInputVelocityY")) v = vy;
  else if (starts("kDistanceTraveled") || starts("kInputDistance")) v = d;
  else if (starts("kPredictedDistance") || starts("kPredictedInput")) v = pd;
  else if (starts("kAccelerationX") || starts("kInputAccelerationX")) v = ax;
  else if (starts("kAccelerationY") || starts("kInputAccelerationY")) v = ay;
  else if (starts("kAccelerationForward") || starts("kInputAccelerationForward")) v = fwd, open = still && ac > 0;
  else if (starts("kAccelerationLateral") || starts("kInputAccelerationLateral")) v = lat, open = still && ac > 0;
  else if (starts("kAcceleration") || starts("kInputAcceleration")) v = ac;
  else pbt::Fail("harness", absl::StrCat("no reference for ", name));
  double f = cm ? st.stroke_unit_length->ToCentimeters() : 1 / size;
  Range r = At(v * f, 4e-6 * mag * f);
  r.open = open;
  return r;
}

inline bool IsNull(float v) { return std::isnan(v); }
// Checks one node: the stack before and after, and the values the node may keep.
// Damped values and modifiers are those before; `after` arguments those after.
struct Snapshot { std::vector<float> stack, damped, modifiers; };

inline void CheckNode(const BB::Node& node, int damping_index, int target_index, const Snapshot& b, const Snapshot& a, const ModeledStrokeInput& in, std::optional<Angle> dir, float size, std::optional<InputMetrics> prev, const State& st, const EasingImplementation* easing) {
  auto keep = [&](size_t drop, size_t push) {
    PROP(a.stack.size() == b.stack.size() - drop + push, "stack", "the node left ", a.stack.size(), " values, there were ", b.stack.size());
    for (size_t k = 0; k + drop < b.stack.size(); ++k) PROP(pbt::SameBits(a.stack[k], b.stack[k]) || (IsNull(a.stack[k]) && IsNull(b.stack[k])), "stack", "a value below was changed");
  };
  auto same = [](float x, float y) { return x == y || (IsNull(x) && IsNull(y)); };
  for (size_t k = 0; k < a.damped.size(); ++k) if ((int)k != damping_index) PROP(same(a.damped[k], b.damped[k]), "other", "another damping node's value changed");
  for (size_t k = 0; k < a.modifiers.size(); ++k) if ((int)k != target_index) PROP(same(a.modifiers[k], b.modifiers[k]), "other", "another target's modifier changed");
  switch (node.index()) {
    case 0: {
      keep(0, 1);
      auto& s = std::get<0>(node);
      float got = a.stack.back();
      const char* name = bg::kSourceNames[(int)s.source];
      auto v = SourceValue(s.source, in, dir, size, st);
      if (!v) { PROP(IsNull(got), "source-null", name, " is indeterminate but gave ", got); return; }
      if (v->open) return;
      double r0 = s.source_value_range[0], r1 = s.source_value_range[1];
      double x0 = (v->lo - r0) / (r1 - r0), x1 = (v->hi - r0) / (r1 - r0);
      if (x0 > x1) std::swap(x0, x1);
      double e = 1e-6 + 4e-7 * (std::fabs(r0) + std::fabs(r1) + std::fabs(v->lo) + std::fabs(v->hi)) / std::fabs(r1 - r0) * 2;
      x0 -= e, x1 += e;
      PROP(got >= 0 && got <= 1, "source-range", name, " gave ", got);
      if (s.source_out_of_range_behavior == BB::OutOfRange::kClamp) {
        PROP(got >= std::clamp(x0, 0.0, 1.0) && got <= std::clamp(x1, 0.0, 1.0), "source-clamp", name, " ", s.source_value_range[0], "..", s.source_value_range[1], " gave ", got, " expected ", x0, "..", x1);
        return;
      }
      if (x1 - x0 > 0.2) return;  // too imprecise to place
      bool mirror = s.source_out_of_range_behavior == BB::OutOfRange::kMirror, ok = false;
      for (double base = std::floor(x0) - 1; base <= x1 + 1; ++base) {
        bool flip = mirror && std::fmod(std::fabs(base), 2) == 1;
        double x = base + (flip ? 1 - got : got);
        if (x >= x0 && x <= x1) ok = true;
      }
      PROP(ok, mirror ? "source-mirror" : "source-repeat", name, " gave ", got, " for ", x0, "..", x1);
      return;
    }
    case 1: keep(0, 1); PROP(a.stack.back() == std::get<1>(node).value, "constant", "constant gave ", a.stack.back()); return;
    case 2: {
      keep(1, 1);
      bool p = in.pressure != -1, t = in.tilt.ValueInRadians() != -1, o = in.orientation.ValueInRadians() != -1;
      bool present[] = {p, t, o, t && o};
      bool off = present[(int)std::get<2>(node).is_fallback_for];
      PROP(off ? IsNull(a.stack.back()) : same(a.stack.back(), b.stack.back()), "fallback", "fallback filter turned ", b.stack.back(), " into ", a.stack.back());
      return;
    }
    case 3: {
      keep(1, 1);
      auto e = std::get<3>(node).enabled_tool_types;
      bool on[] = {e.unknown, e.mouse, e.touch, e.stylus};
      static_assert((int)StrokeInput::ToolType::kUnknown == 0 && (int)StrokeInput::ToolType::kMouse == 1 && (int)StrokeInput::ToolType::kTouch == 2 && (int)StrokeInput::ToolType::kStylus == 3);
      PROP(on[(int)st.tool_type] ? same(a.stack.back(), b.stack.back()) : IsNull(a.stack.back()), "tool", "tool filter turned ", b.stack.back(), " into ", a.stack.back());
      return;
    }
    case 4: {
      keep(1, 1);
      auto& d = std::get<4>(node);
      float x = b.stack.back(), old = b.damped[damping_index], now = a.damped[damping_index];
      PROP(same(a.stack.back(), now), "damping-output", "damping kept ", now, " but gave ", a.stack.back());
      if (IsNull(x)) { PROP(same(now, old), "damping-null", "no input moved the value from ", old, " to ", now); return; }
      bool cm = d.damping_source == BB::DampingSource::kDistanceInCentimeters;
      if (IsNull(old) || d.damping_gap == 0 || (cm && !st.stroke_unit_length)) { PROP(now == x, "damping-snap", "the value should become ", x, ", is ", now); return; }
      double delta = d.damping_source == BB::DampingSource::kTimeInSeconds ? (double)in.elapsed_time.ToSeconds() - prev->elapsed_time.ToSeconds() : (double)in.traveled_distance - prev->traveled_distance;
      double gap = d.damping_gap * (d.damping_source == BB::DampingSource::kDistanceInMultiplesOfBrushSize ? size : 1.0);
      if (cm) delta *= st.stroke_unit_length->ToCentimeters();
      double want = delta <= 0 ? old : x + (old - x) * std::exp(-delta / gap);
      PROP(pbt::Near(now, want, 4e-6 * (std::fabs(x) + std::fabs(old)) + 1e-37), "damping", "from ", old, " towards ", x, " over ", delta, " of ", gap, ": ", now, " expected ", want);
      return;
    }
    case 5:
      keep(1, 1);
      if (IsNull(b.stack.back())) PROP(IsNull(a.stack.back()), "response-null", "no input gave ", a.stack.back());
      else if (float y = easing->GetY(b.stack.back()); !bg::Fin(y)) PROP(IsNull(a.stack.back()), "response-overflow", "the curve is not finite at ", b.stack.back(), " but gave ", a.stack.back());
      else PROP(a.stack.back() == y, "response", "the curve at ", b.stack.back(), " gave ", a.stack.back());
      return;
    case 6: {
      keep(2, 1);
      float x = b.stack[b.stack.size() - 2], y = b.stack.back(), got = a.stack.back();
      if (IsNull(x) || IsNull(y)) { PROP(IsNull(got), "binary-null", "a missing operand gave ", got); return; }
      bool mul = std::get<6>(node).operation == BB::BinaryOp::kProduct;
      double want = mul ? (double)x * y : (double)x + y;
      if (std::fabs(want) > 3.4e38) { PROP(IsNull(got) || std::fabs(want) < 3.41e38, "binary-overflow", "overflow gave ", got); return; }
      PROP(pbt::Near(got, want, 1e-6 * std::fabs(want) + 1e-37), "binary", x, mul ? " * " : " + ", y, " gave ", got);
      return;
    }
    case 7: {
      keep(3, 1);
      float x = b.stack[b.stack.size() - 3], lo = b.stack[b.stack.size() - 2], hi = b.stack.back(), got = a.stack.back();
      if (IsNull(x) || IsNull(lo) || IsNull(hi)) { PROP(IsNull(got), "interpolation-null", "a missing operand gave ", got); return; }
      if (std::get<7>(node).interpolation == BB::Interpolation::kLerp) {
        double want = lo + ((double)hi - lo) * x;
        if (std::fabs(want) > 1e38) { PROP(IsNull(got) || bg::Fin(got), "lerp-overflow", x, " of ", lo, "..", hi, " gave ", got); return; }
        PROP(pbt::Near(got, want, 2e-6 * (std::fabs(lo) + std::fabs(hi)) * (1 + std::fabs(x)) + 1e-37), "lerp", x, " of ", lo, "..", hi, " gave ", got);
      } else if (lo == hi) {
        PROP(IsNull(got), "inverse-lerp-empty", "an empty range gave ", got);
      } else {
        double want = ((double)x - lo) / ((double)hi - lo);
        if (std::fabs(want) < 1e37) PROP(pbt::Near(got, want, 2e-6 * (std::fabs(x) + std::fabs(lo) + std::fabs(hi)) / std::fabs((double)hi - lo) + 1e-6 * std::fabs(want) + 1e-37), "inverse-lerp", x, " in ", lo, "..", hi, " gave ", got, " expected ", want);
      }
      return;
    }
    default: {
      keep(1, 0);
      float x = b.stack.back(), old = b.modifiers[target_index], now = a.modifiers[target_index];
      if (IsNull(x)) { PROP(now == old, "target-null", "no input moved the modifier from ", old, " to ", now); return; }
      auto& r = std::get<8>(node).target_modifier_range;
      double want = r[0] + ((double)r[1] - r[0]) * x;
      if (std::fabs(want) > 1e38) { PROP(bg::Fin(now), "target-overflow", x, " of ", r[0], "..", r[1], " gave modifier ", now); return; }
      PROP(pbt::Near(now, want, 2e-6 * (std::fabs(r[0]) + std::fabs(r[1])) * (1 + std::fabs(x)) + 1e-37), "target", x, " of ", r[0], "..", r[1], " gave modifier ", now);
      return;
    }
  }
}

// The documented effect of modifiers on a tip.
inline void CheckTip(const BrushTipState& s, Point pos, std::optional<Angle> dir, const BrushTip& tip, double size, const std::vector<BB::Target>& targets, const std::vector<float>& m) {
  double w = 1, h = 1, slant = 0, pinch = 0, rot = 0, round = 0, px = 0, py = 0, hue = 0, sat = 1, lum = 0, op = 1, pm = std::hypot(pos.x, pos.y), as = 0, ap = 0, ar = 0, ac = 0, ah = 0, al = 0;
  for (size_t k = 0; k < targets.size(); ++k) {
    double v = m[k];
    std::string n = bg::kTargetNames[(int)targets[k]];
    if (n == "kWidthMultiplier") w *= v;
    else if (n == "kHeightMultiplier") h *= v;
    else if (n == "kSizeMultiplier") w *= v, h *= v;
    else if (n == "kSlantOffsetInRadians") slant += v, as += std::fabs(v);
    else if (n == "kPinchOffset") pinch += v, ap += std::fabs(v);
    else if (n == "kRotationOffsetInRadians") rot += v, ar += std::fabs(v);
    else if (n == "kCornerRoundingOffset") round += v, ac += std::fabs(v);
    else if (n == "kPositionOffsetXInMultiplesOfBrushSize") px += v * size, pm += std::fabs(v * size);
    else if (n == "kPositionOffsetYInMultiplesOfBrushSize") py += v * size, pm += std::fabs(v * size);
    else if (n == "kPositionOffsetForwardInMultiplesOfBrushSize" || n == "kPositionOffsetLateralInMultiplesOfBrushSize") {
      if (!dir) continue;
      double a = dir->ValueInRadians() + (n == "kPositionOffsetLateralInMultiplesOfBrushSize" ? kPi / 2 : 0);
      px += std::cos(a) * v * size, py += std::sin(a) * v * size, pm += std::fabs(v * size);
    } else if (n == "kHueOffsetInRadians") hue += v, ah += std::fabs(v);
    else if (n == "kSaturationMultiplier") sat *= v;
    else if (n == "kLuminosity") lum += v, al += std::fabs(v);
    else if (n == "kOpacityMultiplier") op *= v;
    else pbt::Fail("harness", absl::StrCat("no reference for ", n));
  }
  auto near = [&](const char* what, double got, double want, double tol) { PROP(pbt::Near(got, want, tol), what, what, " is ", got, " expected ", want, " (", targets.size(), " modifiers)"); };
  auto turn = [&](const char* what, double got, double want, double full, double tol) {
    double d = std::fabs(std::remainder(got - want, full));
    PROP(d <= tol, what, what, " is ", got, " expected ", want);
  };
  auto rel = [](double v) { return 2e-5 * std::fabs(v) + 1e-6; };
  near("position", s.position.x, pos.x + px, 4e-6 * pm + 1e-6);
  near("position", s.position.y, pos.y + py, 4e-6 * pm + 1e-6);
  near("width", s.width, size * tip.scale.x * std::clamp(w, 0.0, 2.0), rel(size * tip.scale.x));
  near("height", s.height, size * tip.scale.y * std::clamp(h, 0.0, 2.0), rel(size * tip.scale.y));
  near("slant", s.slant.ValueInRadians(), std::clamp(tip.slant.ValueInRadians() + slant, -kPi / 2, kPi / 2), 1e-6 + 1e-6 * as);
  near("pinch", s.pinch, std::clamp(tip.pinch + pinch, 0.0, 1.0), 1e-6 + 1e-6 * ap);
  turn("rotation", s.rotation.ValueInRadians(), tip.rotation.ValueInRadians() + rot, 2 * kPi, 1e-5 + 2e-6 * (ar + std::fabs(tip.rotation.ValueInRadians())));
  near("rounding", s.percent_radius, std::clamp(tip.corner_rounding + round, 0.0, 1.0), 1e-6 + 1e-6 * ac);
  turn("hue", s.hue_offset_in_full_turns, hue / (2 * kPi), 1, 2e-6 + 1e-6 * ah);
  near("saturation", s.saturation_multiplier, std::clamp(sat, 0.0, 2.0), 1e-5);
  near("luminosity", s.luminosity_shift, std::clamp(lum, -1.0, 1.0), 1e-6 + 1e-6 * al);
  near("opacity", s.opacity_multiplier, std::clamp(tip.opacity_multiplier * op, 0.0, 2.0), 1e-5);
  // Ranges hold exactly.
  float q = std::numbers::pi_v<float> / 2;
  PROP(s.width >= 0 && s.height >= 0 && std::fabs(s.slant.ValueInRadians()) <= q && s.pinch >= 0 && s.pinch <= 1 && s.percent_radius >= 0 && s.percent_radius <= 1, "range", "shape values out of range: ", Show(s));
  PROP(s.hue_offset_in_full_turns >= 0 && s.hue_offset_in_full_turns <= 1 && s.saturation_multiplier >= 0 && s.saturation_multiplier <= 2 && std::fabs(s.luminosity_shift) <= 1 && s.opacity_multiplier >= 0 && s.opacity_multiplier <= 2, "range", "color values out of range: ", Show(s));
}

inline float Initial(BB::Target t) {
  std::string n = bg::kTargetNames[(int)t];
  return n.find("Multiplier") != std::string::npos ? 1.f : 0.f;
}
}  // namespace tg
