// Generators of stroke inputs and an independent statement of which are valid.
#pragma once
#include <cmath>
#include <limits>
#include <numbers>
#include <optional>
#include <vector>

#include "absl/strings/str_cat.h"
#include "engine/pbt.h"
#include "harness/geo.h"
#include "ink/geometry/angle.h"
#include "ink/geometry/point.h"
#include "ink/strokes/input/stroke_input.h"
#include "ink/strokes/input/stroke_input_batch.h"
#include "ink/types/duration.h"
#include "ink/types/physical_distance.h"

namespace ig {
using ink::Angle;
using ink::Duration32;
using ink::PhysicalDistance;
using ink::StrokeInput;
using ink::StrokeInputBatch;

inline bool Same(const StrokeInput& a, const StrokeInput& b) {
  return a.tool_type == b.tool_type && a.position == b.position && a.elapsed_time == b.elapsed_time && a.stroke_unit_length == b.stroke_unit_length && a.pressure == b.pressure && a.tilt == b.tilt && a.orientation == b.orientation;
}
// Single-input validity. Nothing: the documents leave it open (orientation of exactly one turn).
inline std::optional<bool> Ok(const StrokeInput& i) {
  auto fin = [](float v) { return v - v == 0; };
  if ((int)i.tool_type < 0 || (int)i.tool_type > 3) return false;
  if (!fin(i.position.x) || !fin(i.position.y)) return false;
  float t = i.elapsed_time.ToSeconds(), u = i.stroke_unit_length.ToCentimeters(), l = i.tilt.ValueInRadians(), o = i.orientation.ValueInRadians();
  if (!fin(t) || t < 0) return false;
  if (!(u == 0 || (fin(u) && u > 0))) return false;
  if (!(i.pressure == -1 || (i.pressure >= 0 && i.pressure <= 1))) return false;
  if (!(l == -1 || (l >= 0 && l <= std::numbers::pi_v<float> / 2))) return false;
  if (!(o == -1 || (o >= 0 && o <= 2 * std::numbers::pi_v<float>))) return false;
  if (o == 2 * std::numbers::pi_v<float>) return std::nullopt;
  return true;
}
inline bool Follows(const StrokeInput& a, const StrokeInput& b) {
  if (a.tool_type != b.tool_type || a.stroke_unit_length != b.stroke_unit_length) return false;
  if ((a.pressure == -1) != (b.pressure == -1) || (a.tilt.ValueInRadians() == -1) != (b.tilt.ValueInRadians() == -1) || (a.orientation.ValueInRadians() == -1) != (b.orientation.ValueInRadians() == -1)) return false;
  if (a.elapsed_time > b.elapsed_time) return false;
  return a.elapsed_time < b.elapsed_time || a.position.x != b.position.x || a.position.y != b.position.y;
}
inline std::optional<bool> Ok(const std::vector<StrokeInput>& v) {
  bool open = false;
  for (size_t k = 0; k < v.size(); ++k) {
    auto o = Ok(v[k]);
    if (o == false || (k && !Follows(v[k - 1], v[k]))) return false;
    if (!o) open = true;
  }
  if (open) return std::nullopt;
  return true;
}

struct Gen {
  pbt::Ctx& c;
  unsigned bad = 0;
  bool Odd() { return bad && c.Chance(1, bad); }
  struct Format { StrokeInput::ToolType tool; float unit; bool pressure, tilt, orientation; };
  Format Fmt() {
    int m = c.Weighted({3, 1, 1, 1, 1, 1, 1, 2});
    return {(StrokeInput::ToolType)c.Int(0, 3), c.Chance(1, 2) ? 0.f : c.PickOf<float>({1.f, 0.5f, 0.01f, 0.1f}), (m & 1) != 0, (m & 2) != 0, (m & 4) != 0};
  }
  float Bad() { return c.PickOf<float>({std::numeric_limits<float>::quiet_NaN(), std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(), -0.5f, 7.f, -2.f}); }
  StrokeInput One(const Format& f, float t) {
    StrokeInput i;
    i.tool_type = f.tool;
    i.position = {c.Chance(1, 2) ? (float)c.Signed(-4, 4) : c.UniformF(-100, 100), c.Chance(1, 2) ? (float)c.Signed(-4, 4) : c.UniformF(-100, 100)};
    i.elapsed_time = Duration32::Seconds(t);
    i.stroke_unit_length = PhysicalDistance::Centimeters(f.unit);
    auto unit = [&](float hi) { return c.Chance(1, 3) ? c.PickOf<float>({0.f, hi, hi / 2}) : c.UniformF(0, hi); };
    if (f.pressure) i.pressure = unit(1);
    if (f.tilt) i.tilt = Angle::Radians(unit(std::numbers::pi_v<float> / 2));
    if (f.orientation) { float o = unit(2 * std::numbers::pi_v<float>); i.orientation = Angle::Radians(o >= 2 * std::numbers::pi_v<float> ? 6.25f : o); }
    if (Odd()) {
      switch (c.Choice(8)) {
        case 0: i.tool_type = (StrokeInput::ToolType)c.PickOf<int>({0, 1, 2, 3, 4, -1, 77}); break;
        case 1: i.position.x = c.PickOf<float>({std::numeric_limits<float>::quiet_NaN(), std::numeric_limits<float>::infinity()}); break;
        case 2: i.position.y = c.PickOf<float>({std::numeric_limits<float>::quiet_NaN(), -std::numeric_limits<float>::infinity()}); break;
        case 3: i.elapsed_time = Duration32::Seconds(c.Bool() ? Bad() : c.PickOf<float>({0.f, 1e9f, -std::numeric_limits<float>::denorm_min()})); break;
        case 4: i.stroke_unit_length = PhysicalDistance::Centimeters(c.Bool() ? Bad() : c.PickOf<float>({0.f, 1.f, 2.f, -std::numeric_limits<float>::denorm_min()})); break;
        case 5: i.pressure = c.Bool() ? Bad() : c.PickOf<float>({-1.f, 0.f, 1.f, std::nextafter(1.f, 2.f), -std::numeric_limits<float>::denorm_min(), std::nextafter(-1.f, 0.f)}); break;
        case 6: i.tilt = Angle::Radians(c.Bool() ? Bad() : c.PickOf<float>({-1.f, 0.f, 1.f, 1.5707964f, 1.5707965f, -std::numeric_limits<float>::denorm_min(), 1.6f})); break;
        case 7: i.orientation = Angle::Radians(c.Bool() ? Bad() : c.PickOf<float>({-1.f, 0.f, 6.283185f, 6.2831855f, 6.283186f, -std::numeric_limits<float>::denorm_min(), 6.3f})); break;
        default: break;
      }
    }
    return i;
  }
  // A run of inputs with times from t0 on; repeats of position or time happen, repeats of both only when bad.
  std::vector<StrokeInput> Run(const Format& f, float t0, int n) {
    std::vector<StrokeInput> v;
    float t = t0;
    for (int k = 0; k < n; ++k) {
      if (Odd()) t = std::max(0.f, t - 1);
      else if (!c.Chance(1, 4)) t += c.Bool() ? 0.125f : c.UniformF(0, 0.1f);
      StrokeInput i = One(f, t);
      if (k && c.Chance(1, 8)) i.position = v.back().position;
      if (k && !Odd() && i.position == v.back().position && i.elapsed_time == v.back().elapsed_time) i.position.x += 1;
      v.push_back(i);
    }
    return v;
  }
};
}  // namespace ig
namespace ink {
inline std::string pbt_show(const StrokeInput& v) { return absl::StrCat(v); }
inline std::string pbt_show(const StrokeInputBatch& v) { return absl::StrCat(v); }
}  // namespace ink
