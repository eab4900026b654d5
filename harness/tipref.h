// Running a brush tip over modeled inputs: strokes worth of inputs and tips, and our own driver of behavior nodes.
#pragma once
#include <memory>
#include <string>
#include <vector>

#include "engine/pbt.h"
#include "harness/tipgen.h"
#include "ink/strokes/internal/brush_tip_modeler.h"
#include "ink/strokes/internal/easing_implementation.h"

using namespace tg;
using pbt::Ctx;
using ink::strokes_internal::BrushTipModeler;
using List = std::vector<BrushTipState>;

namespace {
List Of(absl::Span<const BrushTipState> s) { return List(s.begin(), s.end()); }
bool IsSource(const BB::Node& n, const char* prefix) {
  auto* s = std::get_if<BB::SourceNode>(&n);
  return s && std::string(bg::kSourceNames[(int)s->source]).rfind(prefix, 0) == 0;
}
bool Remaining(const BB::Node& n) { return IsSource(n, "kDistanceRemaining") || IsSource(n, "kTimeSince"); }

// One run over all inputs, with the node semantics of the library (property S05) and our own driver.
struct Reference {
  List out;
  std::vector<InputMetrics> at;  // one per state that is not a gap
  bool close = false;            // some particle decision was too close to call
};
Reference Run(const BrushTip& tip, float size, const State& st, const std::vector<ModeledStrokeInput>& in) {
  Reference r;
  std::vector<float> stack, damped, mods;
  std::vector<BB::Target> targets;
  std::vector<BehaviorNodeImplementation> nodes;
  for (auto& b : tip.behaviors) {
    for (auto& n : b.nodes) {
      if (auto* d = std::get_if<BB::DampingNode>(&n)) nodes.push_back(DampingNodeImplementation{damped.size(), d->damping_source, d->damping_gap}), damped.push_back(bg::kNan);
      else if (auto* t = std::get_if<BB::TargetNode>(&n)) nodes.push_back(TargetNodeImplementation{targets.size(), t->target_modifier_range}), targets.push_back(t->target), mods.push_back(Initial(t->target));
      else if (auto* e = std::get_if<BB::ResponseNode>(&n)) nodes.push_back(EasingImplementation(e->response_curve));
      else if (auto* x = std::get_if<BB::SourceNode>(&n)) nodes.push_back(*x);
      else if (auto* x = std::get_if<BB::ConstantNode>(&n)) nodes.push_back(*x);
      else if (auto* x = std::get_if<BB::FallbackFilterNode>(&n)) nodes.push_back(*x);
      else if (auto* x = std::get_if<BB::ToolTypeFilterNode>(&n)) nodes.push_back(*x);
      else if (auto* x = std::get_if<BB::BinaryOpNode>(&n)) nodes.push_back(*x);
      else nodes.push_back(std::get<BB::InterpolationNode>(n));
    }
  }
  float gap_d = tip.particle_gap_distance_scale * size, gap_t = tip.particle_gap_duration.ToSeconds();
  bool particles = gap_d != 0 || gap_t != 0;
  auto add = [&](const ModeledStrokeInput& i, std::optional<Angle> dir, std::optional<InputMetrics> prev) {
    BehaviorNodeContext ctx{.input_modeler_state = st, .current_input = i, .current_travel_direction = dir, .brush_size = size, .previous_input_metrics = prev, .stack = stack, .damped_values = absl::MakeSpan(damped), .target_modifiers = absl::MakeSpan(mods)};
    for (auto& n : nodes) ProcessBehaviorNode(n, ctx);
    r.out.push_back(ink::strokes_internal::CreateTipState(i.position, dir, tip, size, targets, mods));
    r.at.push_back({i.traveled_distance, i.elapsed_time});
    if (particles) r.out.push_back(BrushTipState{.width = 0, .height = 0});
  };
  for (size_t k = 0; k < in.size(); ++k) {
    // The direction of travel: from the input before to the input after.
    Point a = in[k ? k - 1 : 0].position, b = in[k + 1 < in.size() ? k + 1 : k].position;
    std::optional<Angle> dir;
    if (a != b) dir = (b - a).Direction();
    if (!particles) {
      add(in[k], dir, k ? std::optional(InputMetrics{in[k - 1].traveled_distance, in[k - 1].elapsed_time}) : std::nullopt);
      continue;
    }
    if (k == 0) { add(in[0], dir, std::nullopt); continue; }
    // Particles go where both gaps since the last one have passed.
    for (int guard = 0;; ++guard) {
      InputMetrics last = r.at.back();
      const ModeledStrokeInput &p = in[k - 1], &q = in[k];
      double dd = (double)q.traveled_distance - last.traveled_distance - gap_d, dt = (double)q.elapsed_time.ToSeconds() - last.elapsed_time.ToSeconds() - gap_t;
      if ((gap_d != 0 && std::fabs(dd) < 1e-4) || (gap_t != 0 && std::fabs(dt) < 1e-5)) r.close = true;
      if ((gap_d != 0 && dd < 0) || (gap_t != 0 && dt < 0)) break;
      if (guard > 100000) { r.close = true; break; }
      double t = 1;
      double ld = (double)q.traveled_distance - p.traveled_distance, lt = (double)q.elapsed_time.ToSeconds() - p.elapsed_time.ToSeconds();
      if (gap_d != 0 && ld > 0) t = std::min(t, dd / ld);
      if (gap_t != 0 && lt > 0) t = std::min(t, dt / lt);
      add(Lerp(q, p, (float)t), dir, last);
    }
  }
  return r;
}

bool NearState(const BrushTipState& a, const BrushTipState& b, double tol) {
  auto n = [&](double x, double y) { return std::fabs(x - y) <= tol * (1 + std::fabs(x) + std::fabs(y)); };
  return n(a.position.x, b.position.x) && n(a.position.y, b.position.y) && n(a.width, b.width) && n(a.height, b.height) && n(a.percent_radius, b.percent_radius) && n(a.pinch, b.pinch);
}

struct World {
  BrushTip tip;
  float size;
  tg::Gen::Kind kind;
  std::vector<ModeledStrokeInput> in;
  bool particles, remaining = false, smooth = true, direction = false, since = false, against_end = false;
};
World Make(Ctx& c, bool want_particles) {
  Gen g{c};
  bg::Gen b{c, 0, true};
  World w;
  w.size = c.PickOf<float>({1.f, 4.f, 0.25f, 2.f});
  w.kind = g.AnyKind();
  w.in = g.Run(w.kind, c.Len(1, 14));
  w.tip = b.Tip(3);
  if (c.Chance(1, 4)) w.tip.behaviors.push_back({{BB::SourceNode{c.Bool() ? BB::Source::kDistanceRemainingInMultiplesOfBrushSize : c.Bool() ? BB::Source::kTimeSinceInputInMillis : BB::Source::kTimeSinceInputInSeconds, BB::OutOfRange::kClamp, {0, (float)c.Int(1, 8)}}, b.Target()}});
  if (c.Chance(1, 6)) w.tip.behaviors.push_back({{b.Source(), BB::DampingNode{(BB::DampingSource)c.Int(0, 2), c.UniformF(0, 1)}, BB::TargetNode{(BB::Target)c.Int(0, 14), {0, 2}}}});
  if (c.Chance(1, 6)) w.tip.behaviors.push_back({{b.Source(), BB::TargetNode{(BB::Target)c.Int(9, 10), {-1, 1}}}});
  w.tip.particle_gap_distance_scale = 0, w.tip.particle_gap_duration = Duration32::Zero();
  if (want_particles) {
    int k = c.Choice(2);
    if (k != 1) w.tip.particle_gap_distance_scale = c.UniformF(0.2f, 3) / w.size;
    if (k != 0) w.tip.particle_gap_duration = Duration32::Seconds(c.UniformF(0.01f, 0.2f));
  }
  w.particles = want_particles;
  // Ranges of what is still to come lie on a grid, as do distances and times, so that "far enough" is exact.
  for (auto& x : w.tip.behaviors) {
    for (auto& n : x.nodes) {
      if (Remaining(n)) {
        w.remaining = true;
        auto& s = std::get<BB::SourceNode>(n);
        float f = s.source == BB::Source::kTimeSinceInputInMillis ? 62.5f : 0.125f;
        for (float& r : s.source_value_range) r = f * std::round(r / 0.125f);
        if (s.source_value_range[0] == s.source_value_range[1]) s.source_value_range[1] += f;
      }
      if (auto* e = std::get_if<BB::ResponseNode>(&n)) if (e->response_curve.parameters.index() != 1) w.smooth = false;
      // A rounding error of an interpolated particle may cross a jump.
      if (IsSource(n, "kTiltX") || IsSource(n, "kTiltY") || IsSource(n, "kOrientation")) w.smooth = false;
      if (auto* s = std::get_if<BB::SourceNode>(&n)) if (s->source_out_of_range_behavior == BB::OutOfRange::kRepeat) w.smooth = false;
      if (auto* s = std::get_if<BB::InterpolationNode>(&n)) if (s->interpolation == BB::Interpolation::kInverseLerp) w.smooth = false;
      if (IsSource(n, "kDirection") || IsSource(n, "kNormalizedDirection")) w.direction = true;
      if (IsSource(n, "kTimeSince")) w.since = true;
      if (Remaining(n) || IsSource(n, "kPredicted")) w.against_end = true;
    }
  }
  if (w.remaining) {
    float d = 0, t = 0;
    for (size_t k = 0; k < w.in.size(); ++k) {
      if (k) d += 0.125f * c.Choice(12), t += 0.0625f * c.Choice(2);
      w.in[k].traveled_distance = d, w.in[k].elapsed_time = Duration32::Seconds(t);
    }
  }
  c.Note("size", w.size, "tool", (int)w.kind.tool, "unit", w.kind.unit);
  c.Note("tip", absl::StrCat(w.tip));
  for (auto& i : w.in) c.Note("input", tg::Show(i));
  return w;
}
State At(const World& w, const std::vector<ModeledStrokeInput>& in, int stable, int real, float now) {
  State st;
  st.tool_type = w.kind.tool;
  if (w.kind.unit > 0) st.stroke_unit_length = PhysicalDistance::Centimeters(w.kind.unit);
  st.stable_input_count = stable, st.real_input_count = real;
  if (real) st.total_real_distance = in[real - 1].traveled_distance, st.total_real_elapsed_time = in[real - 1].elapsed_time;
  st.complete_elapsed_time = Duration32::Seconds(now);
  if (!in.empty()) {
    st.complete_traveled_distance = in.back().traveled_distance;
    st.complete_elapsed_time = std::max(st.complete_elapsed_time, in.back().elapsed_time);
  }
  return st;
}
}  // namespace
