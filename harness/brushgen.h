// Generators for brushes and an independent statement of which brushes are valid.
// `Gen::bad` = n makes each field invalid with chance 1/n; 0 generates valid values only.
#pragma once
#include <array>
#include <cmath>
#include <limits>
#include <optional>
#include <string>
#include <variant>
#include <vector>

#include "absl/strings/str_cat.h"
#include "engine/pbt.h"
#include "harness/geo.h"
#include "ink/brush/brush.h"
#include "ink/brush/brush_behavior.h"
#include "ink/brush/brush_coat.h"
#include "ink/brush/brush_family.h"
#include "ink/brush/brush_paint.h"
#include "ink/brush/brush_tip.h"
#include "ink/brush/easing_function.h"
#include "ink/geometry/angle.h"
#include "ink/types/duration.h"
#include "ink/types/uri.h"

namespace bg {
using ink::Angle;
using ink::BrushBehavior;
using ink::BrushCoat;
using ink::BrushFamily;
using ink::BrushPaint;
using ink::BrushTip;
using ink::Duration32;
using ink::EasingFunction;
using ink::Uri;
using ink::Vec;
using BB = BrushBehavior;
using EF = EasingFunction;
using BP = BrushPaint;

inline constexpr float kInf = std::numeric_limits<float>::infinity();
inline constexpr float kNan = std::numeric_limits<float>::quiet_NaN();
inline constexpr int kSources = 37, kTargets = 15;
// The published names, in declaration order.
inline const char* const kSourceNames[kSources] = {
    "kNormalizedPressure", "kTiltInRadians", "kTiltXInRadians", "kTiltYInRadians", "kOrientationInRadians", "kOrientationAboutZeroInRadians",
    "kSpeedInMultiplesOfBrushSizePerSecond", "kVelocityXInMultiplesOfBrushSizePerSecond", "kVelocityYInMultiplesOfBrushSizePerSecond",
    "kDirectionInRadians", "kDirectionAboutZeroInRadians", "kNormalizedDirectionX", "kNormalizedDirectionY",
    "kDistanceTraveledInMultiplesOfBrushSize", "kTimeOfInputInSeconds", "kTimeOfInputInMillis",
    "kPredictedDistanceTraveledInMultiplesOfBrushSize", "kPredictedTimeElapsedInSeconds", "kPredictedTimeElapsedInMillis",
    "kDistanceRemainingInMultiplesOfBrushSize", "kTimeSinceInputInSeconds", "kTimeSinceInputInMillis",
    "kAccelerationInMultiplesOfBrushSizePerSecondSquared", "kAccelerationXInMultiplesOfBrushSizePerSecondSquared",
    "kAccelerationYInMultiplesOfBrushSizePerSecondSquared", "kAccelerationForwardInMultiplesOfBrushSizePerSecondSquared",
    "kAccelerationLateralInMultiplesOfBrushSizePerSecondSquared", "kInputSpeedInCentimetersPerSecond",
    "kInputVelocityXInCentimetersPerSecond", "kInputVelocityYInCentimetersPerSecond", "kInputDistanceTraveledInCentimeters",
    "kPredictedInputDistanceTraveledInCentimeters", "kInputAccelerationInCentimetersPerSecondSquared",
    "kInputAccelerationXInCentimetersPerSecondSquared", "kInputAccelerationYInCentimetersPerSecondSquared",
    "kInputAccelerationForwardInCentimetersPerSecondSquared", "kInputAccelerationLateralInCentimetersPerSecondSquared"};
inline const char* const kTargetNames[kTargets] = {
    "kWidthMultiplier", "kHeightMultiplier", "kSizeMultiplier", "kSlantOffsetInRadians", "kPinchOffset", "kRotationOffsetInRadians",
    "kCornerRoundingOffset", "kPositionOffsetXInMultiplesOfBrushSize", "kPositionOffsetYInMultiplesOfBrushSize",
    "kPositionOffsetForwardInMultiplesOfBrushSize", "kPositionOffsetLateralInMultiplesOfBrushSize", "kHueOffsetInRadians",
    "kSaturationMultiplier", "kLuminosity", "kOpacityMultiplier"};

struct Gen {
  pbt::Ctx& c;
  unsigned bad = 0;
  bool moderate = false;  // values a renderer would really see (stroke harnesses)

  bool Odd() { return bad && c.Chance(1, bad); }
  // Value in [lo, hi] with edges; invalid: just outside or not finite.
  float In(float lo, float hi) {
    if (Odd()) {
      switch (c.Choice(4)) {
        case 0: return std::nextafter(hi, kInf);
        case 1: return std::nextafter(lo, -kInf);
        case 2: return c.PickOf<float>({kNan, kInf, -kInf});
        case 3: return hi + 1;
        default: return lo - 0.5f;
      }
    }
    switch (c.Choice(5)) {
      case 0: return lo;
      case 1: return hi;
      case 2: return moderate ? lo + (hi - lo) / 2 : std::nextafter(lo, hi);
      case 3: return moderate ? lo + (hi - lo) / 4 : std::nextafter(hi, lo);
      default: return c.UniformF(lo, hi);
    }
  }
  float Finite() {
    if (Odd()) return c.PickOf<float>({kNan, kInf, -kInf});
    return moderate ? c.Moderate(4) : c.Chance(1, 4) ? c.AnyFinite() : c.Moderate();
  }
  // Finite and >= 0 (or > 0).
  float NonNegative(bool zero_ok) {
    if (Odd()) return c.PickOf<float>({kNan, kInf, -kInf, -std::numeric_limits<float>::denorm_min(), zero_ok ? -1.f : 0.f, -0.5f});
    if (zero_ok && c.Chance(1, 5)) return c.Bool() ? 0.f : -0.f;
    float v = std::fabs(moderate ? c.UniformF(0.25f, 3) : c.Chance(1, 4) ? c.AnyFinite() : c.Moderate());
    return v == 0 ? 1 : v;
  }
  std::array<float, 2> Range() {
    std::array<float, 2> r = {Finite(), Finite()};
    if (Odd()) r[1] = r[0];
    else if (r[0] == r[1]) r[1] = r[0] + 1 == r[0] ? -r[0] : r[0] + 1;
    if (!moderate && c.Chance(1, 12) && std::fabs(r[0]) < 1e38f) r[1] = std::nextafter(r[0], c.Bool() ? kInf : -kInf);
    return r;
  }
  template <typename E> E Enum(int n) {
    if (Odd()) return (E)c.PickOf<int>({-1, n, n + 1, 100, -128});
    return (E)c.Int(0, n - 1);
  }

  EF::CubicBezier Bezier() {
    EF::CubicBezier b = {In(0, 1), Finite(), In(0, 1), Finite()};
    if (moderate) b.y1 = c.UniformF(-1, 2), b.y2 = c.UniformF(-1, 2);
    return b;
  }
  EF::Linear Linear() {
    EF::Linear l;
    int n = c.Len(0, 8);
    float x = 0;
    for (int k = 0; k < n; ++k) {
      switch (c.Choice(5)) {
        case 0: break;  // repeat
        case 1: x = std::max(x, (float)c.Int(0, 8) / 8); break;
        case 2: x = k == n - 1 ? 1.f : x; break;
        case 3: x = std::nextafter(x, 1.f); break;
        default: x = std::min(1.f, c.UniformF(x, 1)); break;
      }
      if (x > 1) x = 1;
      l.points.push_back({x, moderate ? c.UniformF(-1, 2) : Finite()});
    }
    if (n > 0 && Odd()) l.points[c.Choice(n - 1)].x = c.PickOf<float>({kNan, kInf, -kInf, -0.25f, 1.25f, std::nextafter(1.f, 2.f), -std::numeric_limits<float>::denorm_min(), 0.f, 1.f, 0.5f});
    if (n > 1 && Odd()) std::swap(l.points[0], l.points[c.Choice(n - 1)]);
    return l;
  }
  EF::Steps Steps() {
    EF::StepPosition p = Enum<EF::StepPosition>(4);
    int lo = p == EF::StepPosition::kJumpNone ? 2 : 1;
    int n = c.Weighted({5, 2, 1}) == 0 ? c.Int(lo, 6) : c.Bool() ? c.Int(lo, 100) : moderate ? 7 : c.Int(lo, 100000);
    if (Odd()) n = c.PickOf<int>({0, -1, lo - 1, std::numeric_limits<int>::min(), 1});
    return {n, p};
  }
  EF Easing() {
    switch (c.Choice(3)) {
      case 0: return {Enum<EF::Predefined>(7)};
      case 1: return {Bezier()};
      case 2: return {Linear()};
      default: return {Steps()};
    }
  }
  BB::SourceNode Source() {
    BB::Source s = Enum<BB::Source>(kSources);
    BB::OutOfRange o = c.Bool() ? BB::OutOfRange::kClamp : Enum<BB::OutOfRange>(3);
    if ((s == BB::Source::kTimeSinceInputInSeconds || s == BB::Source::kTimeSinceInputInMillis) && !(bad && c.Chance(1, 4))) o = BB::OutOfRange::kClamp;
    return {s, o, Range()};
  }
  BB::EnabledToolTypes Tools() {
    int m = c.Int(1, 15);
    if (Odd()) m = 0;
    return {(m & 1) != 0, (m & 2) != 0, (m & 4) != 0, (m & 8) != 0};
  }
  BB::Node Leaf() {
    if (c.Chance(1, 3)) return BB::ConstantNode{Finite()};
    return Source();
  }
  BB::Node Unary() {
    switch (c.Choice(3)) {
      case 0: return BB::ResponseNode{Easing()};
      case 1: return BB::ToolTypeFilterNode{Tools()};
      case 2: return BB::FallbackFilterNode{Enum<BB::OptionalInputProperty>(4)};
      default: return BB::DampingNode{Enum<BB::DampingSource>(3), NonNegative(true)};
    }
  }
  BB::TargetNode Target() { return {Enum<BB::Target>(kTargets), Range()}; }
  BB::Node AnyNode() {
    switch (c.Choice(5)) {
      case 0: return Leaf();
      case 1: return Leaf();
      case 2: return Unary();
      case 3: return BB::BinaryOpNode{Enum<BB::BinaryOp>(2)};
      case 4: return BB::InterpolationNode{Enum<BB::Interpolation>(2)};
      default: return Target();
    }
  }
  // A post-order list; balanced unless Odd().
  BB Behavior(int max = 10) {
    BB b;
    int n = c.Len(0, max), depth = 0;
    for (int k = 0; k < n; ++k) {
      int kind = c.Weighted({3, 3, 2, 1, 3});
      if (kind == 1 && depth < 1) kind = 0;
      if (kind == 2 && depth < 2) kind = depth < 1 ? 0 : 1;
      if (kind == 3 && depth < 3) kind = 0;
      if (kind == 4 && depth < 1) kind = 0;
      switch (kind) {
        case 0: b.nodes.push_back(Leaf()); ++depth; break;
        case 1: b.nodes.push_back(Unary()); break;
        case 2: b.nodes.push_back(BB::BinaryOpNode{Enum<BB::BinaryOp>(2)}); --depth; break;
        case 3: b.nodes.push_back(BB::InterpolationNode{Enum<BB::Interpolation>(2)}); depth -= 2; break;
        default: b.nodes.push_back(Target()); --depth; break;
      }
    }
    while (depth > 0) b.nodes.push_back(Target()), --depth;
    if (Odd()) b.nodes.insert(b.nodes.begin() + c.Choice(b.nodes.size()), AnyNode());
    if (!b.nodes.empty() && Odd()) b.nodes.erase(b.nodes.begin() + c.Choice(b.nodes.size() - 1));
    return b;
  }
  BrushTip Tip(int max_behaviors = 3) {
    BrushTip t;
    t.scale = {NonNegative(true), NonNegative(true)};
    if (t.scale.x == 0 && t.scale.y == 0 && !Odd()) t.scale.x = 1;
    t.corner_rounding = In(0, 1);
    float q = std::numbers::pi_v<float> / 2;
    t.slant = Angle::Radians(In(-q, q));
    t.pinch = In(0, 1);
    t.rotation = Angle::Radians(Finite());
    t.opacity_multiplier = In(0, 2);
    t.particle_gap_distance_scale = c.Chance(2, 3) ? 0 : NonNegative(true);
    t.particle_gap_duration = Duration32::Seconds(c.Chance(2, 3) ? 0 : moderate ? c.UniformF(0, 0.05f) : NonNegative(true));
    int n = c.Len(0, max_behaviors);
    for (int k = 0; k < n; ++k) t.behaviors.push_back(Behavior());
    return t;
  }
  Uri TexUri() {
    std::string s = Odd() ? "/brush-family:x" : absl::StrCat("/texture:t", c.PickOf<const char*>({"a", "b", "c"}), c.Bool() ? ":2" : "");
    if (Odd()) return Uri();
    return *Uri::Parse(s);
  }
  BP::TextureKeyframe Keyframe() {
    BP::TextureKeyframe k{.progress = In(0, 1)};
    if (c.Bool()) k.size = Vec{NonNegative(false), NonNegative(false)};
    if (c.Bool()) k.offset = Vec{In(0, 1), In(0, 1)};
    if (c.Bool()) k.rotation = Angle::Radians(Finite());
    if (c.Bool()) k.opacity = In(0, 1);
    return k;
  }
  BP::TextureLayer Layer(BP::TextureMapping m) {
    BP::TextureLayer l{.color_texture_uri = TexUri()};
    l.mapping = Odd() ? Enum<BP::TextureMapping>(2) : m;
    l.origin = Enum<BP::TextureOrigin>(3);
    l.size_unit = Enum<BP::TextureSizeUnit>(3);
    l.wrap_x = Enum<BP::TextureWrap>(3);
    l.wrap_y = Enum<BP::TextureWrap>(3);
    l.size = {NonNegative(false), NonNegative(false)};
    l.offset = {Finite(), Finite()};
    l.rotation = Angle::Radians(Finite());
    l.size_jitter = {std::isfinite(l.size.x) && l.size.x > 0 ? In(0, l.size.x) : 0.f, std::isfinite(l.size.y) && l.size.y > 0 ? In(0, l.size.y) : 0.f};
    l.offset_jitter = {In(0, 1), In(0, 1)};
    l.rotation_jitter = Angle::Radians(Finite());
    l.opacity = In(0, 1);
    int n = c.Len(0, 3);
    for (int k = 0; k < n; ++k) l.keyframes.push_back(Keyframe());
    l.blend_mode = Enum<BP::BlendMode>(12);
    return l;
  }
  BrushPaint Paint(int max_layers = 3) {
    BrushPaint p;
    int n = c.Len(0, max_layers);
    auto m = (BP::TextureMapping)c.Int(0, 1);
    for (int k = 0; k < n; ++k) p.texture_layers.push_back(Layer(m));
    return p;
  }
  BrushCoat Coat() {
    BrushCoat k;
    int n = Odd() ? c.PickOf<int>({0, 2, 3}) : 1;
    for (int i = 0; i < n; ++i) k.tips.push_back(Tip());
    k.paint = Paint();
    return k;
  }
};

// ---- reference validity, field by field ----
inline bool Fin(float v) { return v - v == 0; }
inline bool Within(float v, double lo, double hi) { return v >= lo && v <= hi; }  // false for NaN
template <typename E> bool Known(E e, int n) { return (int)e >= 0 && (int)e < n; }

inline bool Ok(const EF& e) {
  if (auto* p = std::get_if<EF::Predefined>(&e.parameters)) return Known(*p, 7);
  if (auto* b = std::get_if<EF::CubicBezier>(&e.parameters)) return Within(b->x1, 0, 1) && Within(b->x2, 0, 1) && Fin(b->y1) && Fin(b->y2);
  if (auto* l = std::get_if<EF::Linear>(&e.parameters)) {
    float last = 0;
    for (auto p : l->points) {
      if (!Within(p.x, last, 1) || !Fin(p.y)) return false;
      last = p.x;
    }
    return true;
  }
  auto& s = std::get<EF::Steps>(e.parameters);
  return Known(s.step_position, 4) && s.step_count >= (s.step_position == EF::StepPosition::kJumpNone ? 2 : 1);
}
inline bool OkRange(const std::array<float, 2>& r) { return Fin(r[0]) && Fin(r[1]) && r[0] != r[1]; }
inline bool Ok(const BB::Node& n) {
  switch (n.index()) {
    case 0: {
      auto& s = std::get<0>(n);
      bool since = s.source == BB::Source::kTimeSinceInputInSeconds || s.source == BB::Source::kTimeSinceInputInMillis;
      return Known(s.source, kSources) && Known(s.source_out_of_range_behavior, 3) && OkRange(s.source_value_range) && (!since || s.source_out_of_range_behavior == BB::OutOfRange::kClamp);
    }
    case 1: return Fin(std::get<1>(n).value);
    case 2: return Known(std::get<2>(n).is_fallback_for, 4);
    case 3: { auto t = std::get<3>(n).enabled_tool_types; return t.unknown || t.mouse || t.touch || t.stylus; }
    case 4: return Known(std::get<4>(n).damping_source, 3) && Fin(std::get<4>(n).damping_gap) && std::get<4>(n).damping_gap >= 0;
    case 5: return Ok(std::get<5>(n).response_curve);
    case 6: return Known(std::get<6>(n).operation, 2);
    case 7: return Known(std::get<7>(n).interpolation, 2);
    default: return Known(std::get<8>(n).target, kTargets) && OkRange(std::get<8>(n).target_modifier_range);
  }
}
inline bool Ok(const BB& b) {
  static const int in[9] = {0, 0, 1, 1, 1, 1, 2, 3, 1}, out[9] = {1, 1, 1, 1, 1, 1, 1, 1, 0};
  int depth = 0;
  for (auto& n : b.nodes) {
    if (!Ok(n) || depth < in[n.index()]) return false;
    depth += out[n.index()] - in[n.index()];
  }
  return depth == 0;
}
inline bool Ok(const BrushTip& t) {
  // Half a turn is rounded to float; the exact bound is the float nearest to pi/2.
  float q = std::numbers::pi_v<float> / 2;
  if (!(Fin(t.scale.x) && Fin(t.scale.y) && t.scale.x >= 0 && t.scale.y >= 0 && (t.scale.x > 0 || t.scale.y > 0))) return false;
  if (!Within(t.corner_rounding, 0, 1) || !Within(t.pinch, 0, 1) || !Within(t.opacity_multiplier, 0, 2)) return false;
  if (!Within(t.slant.ValueInRadians(), -q, q) || !Fin(t.rotation.ValueInRadians())) return false;
  if (!(Fin(t.particle_gap_distance_scale) && t.particle_gap_distance_scale >= 0)) return false;
  float d = t.particle_gap_duration.ToSeconds();
  if (!(Fin(d) && d >= 0)) return false;
  for (auto& b : t.behaviors) if (!Ok(b)) return false;
  return true;
}
inline bool OkUnit(Vec v) { return Within(v.x, 0, 1) && Within(v.y, 0, 1); }
inline bool OkSize(Vec v) { return Fin(v.x) && Fin(v.y) && v.x > 0 && v.y > 0; }
inline bool Ok(const BP::TextureKeyframe& k) {
  return Within(k.progress, 0, 1) && (!k.size || OkSize(*k.size)) && (!k.offset || OkUnit(*k.offset)) && (!k.rotation || Fin(k.rotation->ValueInRadians())) && (!k.opacity || Within(*k.opacity, 0, 1));
}
inline bool Ok(const BP::TextureLayer& l) {
  if (l.color_texture_uri.GetAssetType() != Uri::AssetType::kTexture) return false;
  if (!Known(l.mapping, 2) || !Known(l.origin, 3) || !Known(l.size_unit, 3) || !Known(l.wrap_x, 3) || !Known(l.wrap_y, 3) || !Known(l.blend_mode, 12)) return false;
  if (!OkSize(l.size) || !Fin(l.offset.x) || !Fin(l.offset.y) || !Fin(l.rotation.ValueInRadians()) || !Fin(l.rotation_jitter.ValueInRadians())) return false;
  if (!Within(l.size_jitter.x, 0, l.size.x) || !Within(l.size_jitter.y, 0, l.size.y) || !OkUnit(l.offset_jitter) || !Within(l.opacity, 0, 1)) return false;
  for (auto& k : l.keyframes) if (!Ok(k)) return false;
  return true;
}
inline bool Ok(const BrushPaint& p) {
  for (auto& l : p.texture_layers) if (!Ok(l) || l.mapping != p.texture_layers[0].mapping) return false;
  return true;
}
inline bool Ok(const BrushCoat& k) {
  return k.tips.size() == 1 && Ok(k.tips[0]) && Ok(k.paint);
}
}  // namespace bg

namespace ink {
inline std::string pbt_show(const EasingFunction& v) { return absl::StrCat(v); }
inline std::string pbt_show(const BrushBehavior& v) { return absl::StrCat(v); }
inline std::string pbt_show(const BrushTip& v) { return absl::StrCat(v); }
inline std::string pbt_show(const BrushPaint& v) { return absl::StrCat(v); }
inline std::string pbt_show(const BrushPaint::TextureLayer& v) { return absl::StrCat(v); }
inline std::string pbt_show(const BrushCoat& v) { return absl::StrCat(v); }
inline std::string pbt_show(const Brush& v) { return absl::StrCat(v); }
inline std::string pbt_show(const BrushFamily& v) { return absl::StrCat(v); }
}  // namespace ink
